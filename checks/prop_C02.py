"""Exactly the legal moves are accepted, whatever the channel."""
import cshogi
from pbt import Test
import gen
from ref import Ref, usi, mv, m_to, m_from, m_drop
from util import enc, csa, CSA_NAME, sqname, obs

RULE = ("a case is a position and a batch of candidate moves (legal ones, mutated ones, moves of another position, random "
        "from/to/promotion triples and drops, random strings) offered as integer, USI, CSA, 16-bit code and set_position list. "
        "Non-trivial: the batch holds both a legal move and an illegal one that some piece geometry allows.")


def board_of(c):
    if c.prob(50):
        start, moves, r = gen.playout(c, max_len=80)
        b = cshogi.Board(start)
        q = Ref(start)
        for m in moves:
            b.push(enc(q, m))
            q.apply(m)
        return b, q
    r = gen.placement(c)
    return cshogi.Board(r.sfen()), r


def cand(c, r, legal, pseudo):
    """a candidate model move, legal or not"""
    k = c.draw(7)
    if k == 0 and legal:
        return c.pick(legal)
    if k == 1 and pseudo:
        return c.pick(pseudo)
    if k == 2 and legal:  # flip promotion
        m = c.pick(legal)
        return m ^ (1 << 14)
    if k == 3 and legal:  # another destination
        m = c.pick(legal)
        return (m & ~127) | c.draw(80)
    if k == 4:  # a drop
        return mv(80 + c.int(1, 7), c.draw(80))
    if k == 5:  # own piece anywhere
        own = [s for s in range(81) if r.s.b[s] and r.s.b[s] >> 4 == r.turn]
        if own:
            return mv(c.pick(own), c.draw(80), c.draw(1))
    if k == 6:  # promotion of a slider or step piece into dead ends etc.
        own = [s for s in range(81) if r.s.b[s]]
        if own:
            f = c.pick(own)
            return mv(f, c.pick(gen.around(f, 2)), c.draw(1))
    return mv(c.draw(80), c.draw(80), c.draw(1))


def t_accept(c):
    b, r = board_of(c)
    legal = r.legal()
    ls = set(legal)
    pseudo = r.pseudo()
    c.note(r.sfen())
    good = bad = 0
    before = obs(b)
    for _ in range(c.int(1, 24)):
        m = cand(c, r, legal, pseudo)
        if m_drop(m) and m >> 14 & 1:
            m ^= 1 << 14
        ok = m in ls
        u = usi(m)
        good += ok
        bad += not ok
        full = enc(r, m)
        s = r.sfen
        c.eq(bool(b.is_legal(full)), ok, lambda: "is_legal(%s) in %s" % (u, s()))
        c.eq(b.move_from_usi(u), full if ok else 0, lambda: "move_from_usi(%s) in %s" % (u, s()))
        if m_drop(m):
            c.eq(b.drop_move(m_to(m), m_from(m) - 80), full, lambda: "drop_move for %s" % u)
        else:
            c.eq(b.move(m_from(m), m_to(m), bool(m >> 14 & 1)), full, lambda: "Board.move for %s in %s" % (u, s()))
        # CSA text: for a promotion flag on an unpromotable piece there is no text
        if m_drop(m) or (r.s.b[m_from(m)] & 15 and not (m >> 14 & 1 and (r.s.b[m_from(m)] & 15) > 6)):
            t = csa(r, m)
            c.eq(b.move_from_csa(t), full if ok else 0, lambda: "move_from_csa(%s) in %s" % (t, s()))
            if c.prob(30):
                k = b.copy()
                c.eq(k.push_csa(t), full if ok else 0, lambda: "push_csa(%s) in %s" % (t, s()))
                c.eq(len(k.history) - len(b.history), int(ok), lambda: "moves added by push_csa(%s)" % t)
        if ok:
            c.check(b.is_pseudo_legal(full), lambda: "is_pseudo_legal(%s) in %s" % (u, s()))
            c.check(b.pseudo_legal_move_is_legal(full), lambda: "pseudo_legal_move_is_legal(%s) in %s" % (u, s()))
            c.eq(b.move_from_move16(full & 0xffff), full, lambda: "move_from_move16 of %s in %s" % (u, s()))
        k = b.copy()
        c.eq(k.push_usi(u), full if ok else 0, lambda: "push_usi(%s) in %s" % (u, s()))
        if ok:
            c.eq(k.sfen(), r.copy().apply(m).sfen(), lambda: "the position after push_usi(%s) in %s" % (u, s()))
            k2 = b.copy()
            c.eq(k2.push_move16(full & 0xffff), full, lambda: "push_move16 of " + u)
            c.eq(k2.sfen(), k.sfen(), lambda: "the position after push_move16 of " + u)
        else:
            c.eq(obs(k), before, lambda: "the board after a refused push_usi(%s) in %s" % (u, s()))
    c.eq(obs(b), before, "the board after only asking about moves")
    if good and bad:
        c.nontrivial((r.key(), bad, good))


def t_bits(c):
    """integers one or two bits away from a legal move, and any integers"""
    b, r = board_of(c)
    legal = r.legal()
    if not legal:
        return
    full = {enc(r, m) for m in legal}
    before = obs(b)
    bad = 0
    s = r.sfen()
    c.note(s)
    for _ in range(c.int(1, 40)):
        k = c.draw(4)
        x = enc(r, c.pick(legal))
        if k < 3:
            x ^= 1 << c.draw(30)
        if k == 1:
            x ^= 1 << c.draw(23)
        if k == 3:
            x = c.draw(0xffffff)
        bad += x not in full
        c.eq(bool(b.is_legal(x)), x in full, lambda: "is_legal(%#x) in %s" % (x, s))
    c.eq(obs(b), before, "the board after only asking about moves")
    if bad:
        c.nontrivial((r.key(), bad))


def t_stale(c):
    """A move int made in one position is asked about in another (the usual ply-swap or transposition-table case)."""
    start, moves, r = gen.playout(c, max_len=60)
    r = Ref(start)
    b = cshogi.Board(start)
    pool = []
    n = 0
    for m in moves:
        for _ in range(2):
            l = r.legal()
            pool.append(enc(r, c.pick(l)))
        b.push(enc(r, m))
        r.apply(m)
    legal = {enc(r, m) for m in r.legal()}
    c.note(r.sfen())
    for x in pool[-60:]:
        c.eq(bool(b.is_legal(x)), x in legal, lambda: "is_legal(%#x = %s) in %s" % (x, cshogi.move_to_usi(x), r.sfen()))
        n += x in legal
    # corrupted upper halves
    for x in list(legal)[:8]:
        y = x ^ (1 + c.draw(14)) << c.pick((16, 20))
        if cshogi.move_is_drop(x):
            continue
        c.eq(bool(b.is_legal(y)), y in legal, lambda: "is_legal(%#x) in %s" % (y, r.sfen()))
    # off-board destinations and impossible drops
    for _ in range(4):
        y = c.int(81, 127) | c.draw(80) << 7 | c.draw(1) << 14
        c.check(not b.is_legal(y), lambda: "is_legal(%#x), a move off the board" % y)
        y = c.draw(80) | c.int(88, 127) << 7
        c.check(not b.is_legal(y), lambda: "is_legal(%#x), a drop of no piece" % y)
    if n and n < len(pool[-60:]):
        c.nontrivial((r.key(), len(pool)))


ALPHA = "123456789abcdefghi+*PLNSBRGK0- xj"


def t_text(c):
    """Arbitrary short text: accepted iff it is the notation of a legal move."""
    b, r = board_of(c)
    moves, us = r.legal_usi()
    want = dict(zip(us, moves))
    wantc = {csa(r, m): m for m in moves}
    hit = 0
    for _ in range(c.int(1, 12)):
        k = c.draw(4)
        if k <= 2 and us:
            t = list(c.pick(us) if k else c.pick(sorted(wantc)))
            for _ in range(c.draw(2)):
                op = c.draw(2)
                i = c.draw(len(t)) if t else 0
                if op == 0:
                    t.insert(i, c.pick(ALPHA))
                elif op == 1 and t:
                    del t[min(i, len(t) - 1)]
                elif t:
                    t[min(i, len(t) - 1)] = c.pick(ALPHA)
            t = "".join(t)
        else:
            t = "".join(c.pick(ALPHA) for _ in range(c.draw(7)))
        if len(t) == 4 and t[1] == "*" and t[0].islower():
            continue
        w = enc(r, want[t]) if t in want else 0
        c.eq(b.move_from_usi(t), w, lambda: "move_from_usi(%r) in %s" % (t, r.sfen()))
        wc = enc(r, wantc[t]) if t in wantc else 0
        c.eq(b.move_from_csa(t), wc, lambda: "move_from_csa(%r) in %s" % (t, r.sfen()))
        hit += bool(w or wc)
    if hit:
        c.nontrivial((r.key(), hit))


def t_position(c):
    """set_position accepts a move list iff every move is legal where it is played."""
    start, moves, r = gen.playout(c, max_len=30)
    cut = len(moves)
    us = [usi(m) for m in moves]
    bad = False
    if us and c.prob(60):
        k = c.draw(len(us) - 1)
        q = Ref(start)
        for m in moves[:k]:
            q.apply(m)
        m = cand(c, q, q.legal(), q.pseudo())
        if m_drop(m):
            m &= ~(1 << 14)
        if not q.is_legal(m):
            us[k] = usi(m)
            bad = True
    b = cshogi.Board()
    b.push_usi("7g7f")
    before = obs(b)
    text = ("startpos" if start == gen.START and c.prob(50) else "sfen " + start) + (" moves " + " ".join(us) if us else "")
    c.note(text)
    try:
        b.set_position(text)
        c.check(not bad, lambda: "set_position accepted the illegal move in: " + text)
        c.eq(b.sfen(), r.sfen(), "the position after set_position " + text)
        c.eq([cshogi.move_to_usi(m) for m in b.history], us, "history after set_position")
    except RuntimeError as e:
        c.check(bad, lambda: "set_position refused %s: %s" % (text, e))
        c.eq(obs(b), before, "the board after a refused set_position")
    if us:
        c.nontrivial(text)


TESTS = [Test("accept", t_accept, 12000), Test("bits", t_bits, 3000), Test("stale", t_stale, 1500), Test("text", t_text, 8000), Test("set_position", t_position, 4000)]
