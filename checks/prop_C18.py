"""Neural-network inputs and move labels describe the position from the mover's point of view."""
import numpy as np
import cshogi
from cshogi import dlshogi
from pbt import Test
import gen
from ref import Ref, usi, m_to, m_from, m_drop, m_pro
from util import enc

RULE = ("a case is a position (from play, dense or sparse placements, entering-king positions) whose piece planes, dlshogi features (with "
        "and without entering-king planes, into arrays full of garbage) and move labels are compared with a model computed from the reference "
        "board, and with those of the position turned around. Non-trivial: pieces in hand or promoted pieces or a check; distinct by position.")

CAP = (8, 4, 4, 4, 4, 2, 2)


def rot(a, turn):
    return a if turn == 0 else a[..., ::-1]


def model(r, nyu):
    turn = r.turn
    b = np.array(r.board())
    f1 = np.zeros((2, 31, 81), np.float32)
    att = np.frombuffer(r.attack_map(), np.uint8).reshape(2, 15, 81)
    cnt = np.frombuffer(r.attack_count(), np.uint8).reshape(2, 81)
    f2h = np.zeros((2, 28, 81), np.float32)
    ny = np.zeros((2, 31, 81), np.float32)
    soft = []
    for c in (0, 1):
        c2 = c ^ turn
        for t in range(1, 15):
            f1[c2, t - 1] = rot(b == t + 16 * c, turn)
            f1[c2, 13 + t] = rot(att[c, t] > 0, turn)
        for k in range(3):
            f1[c2, 28 + k] = rot(cnt[c] > k, turn)
        o = 0
        for n, cap in zip(r.hands()[c], CAP):
            f2h[c2, o:o + min(n, cap)] = 1
            o += cap
        camp = [s for s in range(81) if (s % 9 <= 2 if c == 0 else s % 9 >= 6)]
        mine = [b[s] & 15 for s in camp if b[s] and b[s] >> 4 == c]
        ny[c2, 0] = 8 in mine
        mine = [t for t in mine if t != 8]
        rest = 10 - len(mine)
        if rest < 0:
            soft.append((c2, 1, 11))
        elif rest < 10:
            ny[c2, 1 + rest] = 1
        h = r.hands()[c]
        pts = sum(5 if t in (5, 6, 13, 14) else 1 for t in mine) + sum(h[:5]) + 5 * (h[5] + h[6])
        rest = (28, 27)[c] - pts
        if rest < 0:
            soft.append((c2, 11, 31))
        elif rest < 20:
            ny[c2, 11 + rest] = 1
    f2 = [f2h.reshape(56, 81), np.full((1, 81), 1.0 if r.in_check() else 0.0, np.float32)]
    if nyu:
        f2.append(ny.reshape(62, 81))
    return f1.reshape(62, 81), np.concatenate(f2), soft


def features(c, r, s):
    b = cshogi.Board(s)
    nyu = c.prob(50)
    dlshogi.use_nyugyoku_features(nyu)
    try:
        c.eq((dlshogi.FEATURES1_NUM, dlshogi.FEATURES2_NUM), (62, 119 if nyu else 57), lambda: "number of planes")
        g = c.pick((0.0, 1.0, float("nan"), -3.5))
        f1 = np.full((62, 9, 9), g, np.float32)
        pad = 5
        f2 = np.full((dlshogi.FEATURES2_NUM + pad, 9, 9), 7.0, np.float32)
        f2[:dlshogi.FEATURES2_NUM] = g
        dlshogi.make_input_features(b, f1, f2)
    finally:
        dlshogi.use_nyugyoku_features(False)
    c.check((f2[-pad:] == 7.0).all(), lambda: "make_input_features of %s wrote past the planes of features2" % s)
    w1, w2, soft = model(r, nyu)
    f1 = f1.reshape(62, 81)
    f2 = f2[:-pad].reshape(-1, 81)
    if nyu:
        for c2, a, e in soft:
            f2[57 + 31 * c2 + a:57 + 31 * c2 + e] = 0
    for name, got, want in (("features1", f1, w1), ("features2", f2, w2)):
        if not (got == want).all():
            p, q = [int(x[0]) for x in np.nonzero(got != want)]
            c.check(False, "%s of %s: plane %d square %d is %r, expected %r" % (name, s, p, q, got[p, q].item(), want[p, q].item()))


def planes(c, r, s):
    b = cshogi.Board(s)
    a = np.array(r.board())
    for name, turn in (("piece_planes", 0), ("piece_planes_rotate", r.turn)):
        buf = np.zeros((40, 9, 9), np.float32)
        buf[28:] = 7
        getattr(b, name)(buf)
        c.check((buf[28:] == 7).all(), lambda: "%s of %s wrote past its 28 planes" % (name, s))
        want = np.stack([rot(a == t + 16 * (col ^ turn), turn) for col in (0, 1) for t in range(1, 15)])
        c.check((buf[:28].reshape(28, 81) == want).all(), lambda: "%s of %s" % (name, s))


DIRS = {(0, -1): 0, (1, -1): 1, (-1, -1): 2, (1, 0): 3, (-1, 0): 4, (0, 1): 5, (1, 1): 6, (-1, 1): 7}


def label(r, m):
    to, fr = m_to(m), m_from(m)
    if r.turn:
        to = 80 - to
    if m_drop(m):
        return 81 * (20 + fr - 81) + to
    if r.turn:
        fr = 80 - fr
    dx, dy = to // 9 - fr // 9, to % 9 - fr % 9
    if (abs(dx), dy) == (1, -2) and r.s.b[m_from(m)] & 15 == 3:
        d = 8 if dx > 0 else 9
    else:
        d = DIRS[((dx > 0) - (dx < 0), (dy > 0) - (dy < 0))]
    return 81 * (d + 10 * m_pro(m)) + to


def labels(c, r, s):
    seen = {}
    for m in r.legal():
        x = enc(r, m)
        if c.prob(10):
            x &= 0xffff
        l = dlshogi.make_move_label(x, r.turn)
        c.eq(l, label(r, m), lambda: "label of %s in %s" % (usi(m), s))
        c.check(l not in seen, lambda: "%s and %s have the same label in %s" % (usi(m), seen.get(l) and usi(seen[l]), s))
        seen[l] = m


def turned(r):
    b = r.board()
    nb = [0] * 81
    for s in range(81):
        if b[s]:
            nb[80 - s] = b[s] ^ 16
    return Ref.make(nb, r.hands()[::-1], r.turn ^ 1, r.ply)


def t_features(c):
    r = gen.position(c)
    s = r.sfen()
    c.note(s)
    if sum(map(sum, r.hands())) or r.in_check() or any(x & 15 > 8 for x in r.board()):
        c.nontrivial(s)
    features(c, r, s)
    planes(c, r, s)
    labels(c, r, s)
    # seen from the other side of the board it is the same position
    q = turned(r)
    outs = []
    for x in (r, q):
        f1, f2 = np.zeros((62, 9, 9), np.float32), np.zeros((57, 9, 9), np.float32)
        dlshogi.make_input_features(cshogi.Board(x.sfen()), f1, f2)
        p = np.zeros((28, 9, 9), np.float32)
        cshogi.Board(x.sfen()).piece_planes_rotate(p)
        outs.append((f1, f2, p))
    for i, n in enumerate(("features1", "features2", "piece_planes_rotate")):
        c.check((outs[0][i] == outs[1][i]).all(), lambda: "%s of %s differ from those of the position turned around" % (n, s))


def t_game(c):
    """along a game, on one board, with take-backs"""
    start, moves, _ = gen.playout(c, max_len=30)
    b = cshogi.Board(start)
    r = Ref(start)
    for m in moves:
        b.push(enc(r, m))
        r.apply(m)
        if c.prob(20):
            b.pop()
            b.push_usi(usi(m))
        f1, f2 = np.ones((62, 9, 9), np.float32), np.ones((57, 9, 9), np.float32)
        dlshogi.make_input_features(b, f1, f2)
        w1, w2, _ = model(r, False)
        c.check((f1.reshape(62, 81) == w1).all() and (f2.reshape(57, 81) == w2).all(),
                lambda: "features after %s in a game from %s (%s)" % (usi(m), start, r.sfen()))
    if moves:
        c.nontrivial((start, tuple(moves)))


def t_camp(c):
    """positions near an entering-king declaration"""
    import prop_C07
    r = prop_C07.near(c)
    s = r.sfen()
    c.note(s)
    c.nontrivial(s)
    features(c, r, s)


TESTS = [Test("features", t_features, 4000), Test("game", t_game, 600), Test("camp", t_camp, 3000)]
