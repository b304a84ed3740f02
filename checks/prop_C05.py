"""zobrist_hash is a function of board, hands and side to move, and tells positions apart."""
import cshogi
from pbt import Test
import gen
from ref import Ref, usi, mv, HAND_SLOT, MAX_HAND
from util import enc

RULE = ("a case is a position whose hash, maintained move by move, is compared with the hash of the same position set up in "
        "other ways (SFEN, set_pieces, transposed move orders, move and take back, copies) and with the hashes of different "
        "positions close to it (a piece moved, removed, promoted, recoloured, one hand count changed, the other side to move). "
        "Non-trivial: at least one equal and one different pair was compared; distinct by position.")


def t_function(c):
    start, moves, _ = gen.playout(c, max_len=70)
    r = Ref(start)
    b = cshogi.Board(start)
    seen = {b.zobrist_hash(): r.key()}
    bk = {r.key(): b.zobrist_hash()}
    for m in moves:
        b.push(enc(r, m))
        r.apply(m)
        h, k = b.zobrist_hash(), r.key()
        c.eq(seen.setdefault(h, k), k, lambda: "two positions of one game share the hash %x (%s)" % (h, r.sfen()))
        c.eq(bk.setdefault(k, h), h, lambda: "the hash of the repeated position " + r.sfen())
        c.eq(cshogi.Board(r.sfen()).zobrist_hash(), h, lambda: "hash from SFEN against hash by moves of " + r.sfen())
    c.check(0 <= b.zobrist_hash() < 1 << 64, "the hash is a 64-bit unsigned number")
    q = cshogi.Board()
    q.turn = r.turn
    q.set_pieces(r.board(), r.hands())
    c.eq(q.zobrist_hash(), b.zobrist_hash(), lambda: "hash after set_pieces of " + r.sfen())
    b.move_number = b.move_number + 7
    c.eq(q.zobrist_hash(), b.zobrist_hash(), "the hash after changing move_number")
    if not r.in_check():
        h = b.zobrist_hash()
        b.push_pass()
        q = r.copy()
        q.s.turn ^= 1
        c.eq(b.zobrist_hash(), cshogi.Board(q.sfen()).zobrist_hash(), "hash after a pass")
        b.pop_pass()
        c.eq(b.zobrist_hash(), h, "hash after taking a pass back")
    c.note(r.sfen())
    c.nontrivial(r.key())


def t_transpose(c):
    """two moves of each side in either order"""
    r = gen.position(c, max_len=60)
    b = cshogi.Board(r.sfen())
    done = False
    for _ in range(6):
        a1 = gen.pick_move(c, r)
        if a1 is None:
            break
        q1 = r.copy().apply(a1)
        d = gen.pick_move(c, q1)
        if d is None:
            continue
        q2 = q1.copy().apply(d)
        a2 = gen.pick_move(c, q2)
        if a2 is None:
            continue
        q3 = q2.copy().apply(a2)
        # the other order: a2, d, a1
        if not r.is_legal(a2):
            continue
        p1 = r.copy().apply(a2)
        if not p1.is_legal(d):
            continue
        p2 = p1.copy().apply(d)
        if not p2.is_legal(a1):
            continue
        p3 = p2.copy().apply(a1)
        if p3.key() != q3.key():
            continue
        x, y = b.copy(), b.copy()
        for m, q in ((a1, r), (d, q1), (a2, q2)):
            x.push(enc(q, m))
        for m, q in ((a2, r), (d, p1), (a1, p2)):
            y.push(enc(q, m))
        c.eq(x.zobrist_hash(), y.zobrist_hash(), lambda: "hash of %s by %s and by the other order" % (q3.sfen(), [usi(a1), usi(d), usi(a2)]))
        done = True
    if done:
        c.note(r.sfen())
        c.nontrivial(r.key())


def t_differ(c):
    """near neighbours have different hashes"""
    r = gen.placement(c)
    h0 = cshogi.Board(r.sfen()).zobrist_hash()
    hs = {h0: r.key()}
    for _ in range(12):
        q = r.copy()
        k = c.draw(6)
        occ = [s for s in range(81) if q.s.b[s] and q.s.b[s] & 15 != 8]
        emp = [s for s in range(81) if not q.s.b[s]]
        if k == 0 and occ and emp:
            a, z = c.pick(occ), c.pick(emp)
            q.s.b[z], q.s.b[a] = q.s.b[a], 0
        elif k == 1 and occ:
            q.s.b[c.pick(occ)] = 0
        elif k == 2 and occ:
            a = c.pick(occ)
            if q.s.b[a] & 15 != 7:
                q.s.b[a] ^= 8
        elif k == 3 and occ:
            q.s.b[c.pick(occ)] ^= 16
        elif k == 4:
            i = c.draw(13)
            if q.s.h[i] < MAX_HAND[i % 7]:
                q.s.h[i] += 1
        elif k == 5:
            i = c.draw(13)
            if q.s.h[i]:
                q.s.h[i] -= 1
                q.s.h[(i + 7) % 14] = min(MAX_HAND[i % 7], q.s.h[(i + 7) % 14] + 1)
        else:
            q.s.turn ^= 1
        h = cshogi.Board(q.sfen()).zobrist_hash()
        key = q.key()
        if h in hs:
            c.eq(hs[h], key, lambda: "hash %x is shared by %s and a near neighbour (of %s)" % (h, q.sfen(), r.sfen()))
        hs[h] = key
    c.note(r.sfen())
    c.nontrivial(r.key())


TESTS = [Test("function", t_function, 1500), Test("transpose", t_transpose, 3000), Test("differ", t_differ, 8000)]
