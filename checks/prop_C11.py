"""Short mate detection: mate_move_in_1ply, mate_move and is_mate."""
import cshogi
from pbt import Test, Discard
import gen
from ref import Ref, usi
from util import enc, obs

RULE = ("a case is a position (random game, random placement, attacker's pieces around the king, a position one or two plies "
        "before a mate) on a fresh board, for which every mate query is compared with a full-width reference search. "
        "Non-trivial: the reference or the library sees a mate; distinct by position and depth.")
ASSUMPTIONS = ["completeness is claimed for mates whose last check is given by a knight or from a square next to the king (any "
               "mate when in check); other mates may be missed by design of the one-ply detector, but none may be invented",
               "completeness of mate_move and is_mate is asked on boards without history, so repetition rules play no part; on "
               "boards on which checks have gone round, only that no mate is invented"]


def start_pos(c):
    k = c.draw(9)
    if k < 5:
        return gen.tsume(c, attacker_king=not c.prob(10))
    if k < 7:
        return gen.placement(c)
    if k < 9:
        r = gen.playout(c, max_len=140)[2]
        return r
    # lots of checks and captures: king hunts
    r = gen.playout(c, max_len=60)[2]
    for _ in range(20):
        m = gen.pick_move(c, r, bias=c.pick((4, 1, 4)))
        if m is None:
            break
        r.apply(m)
    return r


def in_check_pos(c):
    """a position in check, after a random checking move"""
    r = start_pos(c)
    ch = r.checks()
    if not ch:
        raise Discard("no check")
    r.apply(c.pick(ch))
    if r.king(r.turn ^ 1) < 0:
        raise Discard("no king to mate")
    return r


def decode(r, move):
    for m in r.legal():
        if enc(r, m) == move:
            return m
    return None


def one_ply(c, r):
    s = r.sfen()
    c.note(s)
    b = cshogi.Board(s)
    before = obs(b)
    got = b.mate_move_in_1ply()
    c.eq(obs(b), before, lambda: "the board after mate_move_in_1ply in " + s)
    full = r.mate(1)[1]
    if got:
        m = decode(r, got)
        c.check(m is not None, lambda: "mate_move_in_1ply in %s gives %s (%#x), not a legal move" % (s, cshogi.move_to_usi(got), got))
        n = r.copy().apply(m)
        c.check(n.in_check() and not n.any_legal(),
                lambda: "mate_move_in_1ply in %s gives %s, which does not mate" % (s, usi(m)))
        c.event("found")
        c.nontrivial((s, 1))
    else:
        if r.in_check():
            c.check(full is None, lambda: "mate_move_in_1ply in %s finds nothing, %s mates" % (s, usi(full)))
        else:
            w = r.contact_mate()
            c.check(w is None, lambda: "mate_move_in_1ply in %s finds nothing, %s mates" % (s, usi(w)))
            if full is not None:
                c.event("far mate missed (allowed)")
    if full is not None:
        c.event("mate in one", "in check" if r.in_check() else "not in check")


def t_one(c):
    one_ply(c, start_pos(c))


def t_one_check(c):
    one_ply(c, in_check_pos(c))


def t_one_all(c):
    """all the positions around one: every reply to every check is a cheap source of near-mates"""
    r = start_pos(c)
    ch = r.checks()
    if not ch:
        raise Discard("no check")
    n = r.copy().apply(c.pick(ch))
    ev = n.legal()
    for m in (c.shuffle(ev)[:6]):
        one_ply(c, n.copy().apply(m))


def discover(c):
    """a slider of the side to move aims at the king through one of its own pieces"""
    turn = c.draw(1)
    opp = turn ^ 1
    board = [0] * 81
    k = c.pick((0, 8, 72, 80, 4, 76, 36, 44)) if c.prob(60) else c.draw(80)
    board[k] = 8 + 16 * opp
    dirs = [(dx, dy) for dx in (-1, 0, 1) for dy in (-1, 0, 1) if (dx, dy) != (0, 0)]
    dx, dy = c.pick(dirs)
    ray = []
    x, y = k // 9 + dx, k % 9 + dy
    while 0 <= x < 9 and 0 <= y < 9:
        ray.append(x * 9 + y)
        x, y = x + dx, y + dy
    if len(ray) < 2:
        raise Discard("short ray")
    i = c.draw(min(2, len(ray) - 2))
    j = c.int(i + 1, len(ray) - 1)
    slider = c.pick((6, 14)) if dx == 0 or dy == 0 else c.pick((5, 13))
    if dx == 0 and dy == (1 if turn == 0 else -1) and c.prob(40):
        slider = 2
    board[ray[j]] = slider + 16 * turn
    t = c.pick((1, 3, 4, 7, 9, 10, 11, 12, 5, 6, 13, 14, 2))
    if gen.dead(t, turn, ray[i]):
        t = 9
    board[ray[i]] = t + 16 * turn
    for _ in range(20):
        q = c.draw(80)
        if not board[q] and q not in gen.around(k, 1):
            board[q] = 8 + 16 * turn
            break
    block = set(ray[:j])
    for _ in range(c.draw(8)):
        q = c.pick(gen.around(k, 2)) if c.prob(80) else c.draw(80)
        col = opp if c.prob(55) else turn
        t = c.pick((1, 2, 3, 4, 7, 5, 6, 9, 10, 11, 12, 13, 14))
        if board[q] or q in block or gen.dead(t, col, q):
            continue
        board[q] = t + 16 * col
    hands = [[0] * 7, [0] * 7]
    if c.prob(35):
        hands[opp][c.draw(6)] += c.int(1, 3) if c.prob(50) else 1
    if c.prob(25):
        hands[turn][c.draw(6)] += 1
    for t, slot in ((1, 0), (2, 1), (3, 2), (4, 3), (7, 4), (5, 5), (6, 6)):
        n = sum(1 for p in board if p and (p & 15 == t or (t < 7 and p & 15 == t + 8)))
        for side in (0, 1):
            hands[side][slot] = max(0, min(hands[side][slot], gen.TOTAL[t] - n))
            n += hands[side][slot]
        if n > gen.TOTAL[t]:
            raise Discard("too many pieces")
    for f in range(9):
        for side in (0, 1):
            if sum(1 for q in range(f * 9, f * 9 + 9) if board[q] == 1 + 16 * side) > 1:
                raise Discard("two pawns on a file")
    r = Ref.make(board, hands, turn, 1)
    if r.in_check(opp):
        raise Discard("opponent in check")
    return r


def t_edge(c):
    """positions on the edge of mate: one where a move mates, changed in what makes it work, again and again"""
    for _ in range(8):
        try:
            r = gen.tsume(c) if c.prob(90) else discover(c)
        except Discard:
            continue
        if r.mate(1)[1] is not None:
            break
    else:
        raise Discard("no mate")
    for _ in range(c.int(2, 6)):
        m = r.mate(1)[1]
        ch = r.checks()
        if not ch:
            break
        if m is None or c.prob(40):
            # prefer checks that mate or nearly do
            few = sorted(ch, key=lambda x: (len(r.copy().apply(x).legal()), x))
            m = c.pick(few[:3])
        for _ in range(4):
            n = gen.disturb(c, r, m)
            if n is not None:
                one_ply(c, n)
                if n.checks() and c.prob(70 if n.mate(1)[1] is not None else 15):
                    r = n
                    break


def t_net(c):
    """a mate by any piece from anywhere, and the positions next to it"""
    r, m = gen.net(c)
    one_ply(c, r)
    for _ in range(c.int(1, 5)):
        n = gen.disturb(c, r, m)
        if n is not None:
            one_ply(c, n)
            if c.prob(25):
                r = n
                if not r.is_legal(m):
                    break


def t_discover(c):
    one_ply(c, discover(c))


def t_odd(c):
    odd(c, start_pos(c) if c.prob(75) else in_check_pos(c), c.pick((3, 3, 5, 7)))


def t_step_back(c):
    odd(c, gen.stepback(c), c.pick((3, 3, 5)))


def odd(c, r, d):
    s = r.sfen()
    c.note("%s depth %d" % (s, d))
    b = cshogi.Board(s)
    before = obs(b)
    if d == 7:
        # keep the library's own full-width search affordable
        if len(r.checks()) > 6 or r.mate_abs(5, 3000) < 0 and len(r.checks()) > 3:
            d = 3
    got = b.mate_move(d)
    c.eq(obs(b), before, lambda: "the board after mate_move in " + s)
    if got:
        m = decode(r, got)
        c.check(m is not None, lambda: "mate_move(%d) in %s gives %s (%#x), not a legal move" % (d, s, cshogi.move_to_usi(got), got))
        n = r.copy().apply(m)
        c.check(n.in_check(), lambda: "mate_move(%d) in %s gives %s, not a check" % (d, s, usi(m)))
        v = n.mated(d - 1, 400000)
        c.check(v != 0, lambda: "mate_move(%d) in %s gives %s, which does not force mate within %d plies" % (d, s, usi(m), d))
        c.event("mate in %d" % d, "undecided" if v < 0 else "confirmed")
        c.nontrivial((s, d))
    else:
        w = r.weak_mate(d, 60000)
        c.check(w != 1, lambda: "mate_move(%d) in %s finds nothing, but there is a mate" % (d, s))
        c.event("none in %d" % d, "undecided" if w < 0 else "confirmed")


def t_even(c):
    even(c, in_check_pos(c) if c.prob(93) else start_pos(c), c.pick((2, 2, 4, 6)))


def t_counter(c):
    """mates refuted by answers that give check, met one or two plies into the search"""
    n, m = gen.counter(c) if c.prob(80) else gen.net(c)
    if c.prob(25):
        odd(c, n, c.pick((3, 3, 5)))
    if c.prob(25):
        even(c, n.copy().apply(m), c.pick((2, 2, 4)))
    x = gen.retro(c, n)
    if x is None:
        raise Discard("nothing before")
    even(c, x, c.pick((2, 4, 4, 4)))


def t_perpetual(c):
    """on a board on which checks have gone round already: to come round again is no mate"""
    r, cyc = gen.perpetual(c)
    s = r.sfen()
    b = cshogi.Board(s)
    us = r.turn
    n = 0
    c.note("%s %s" % (s, [usi(m) for m in cyc]))
    for _ in range(c.int(4, 13)):
        m = cyc[n % 4]
        b.push(enc(r, m))
        r = r.copy().apply(m)
        n += 1
        if n < 4 and c.prob(60):
            continue
        before = obs(b)
        if r.turn == us:
            d = c.pick((3, 3, 5))
            got = b.mate_move(d)
            if got:
                m = decode(r, got)
                c.check(m is not None, lambda: "mate_move(%d) after %s gives %s, not a legal move" % (d, c.notes, cshogi.move_to_usi(got)))
                v = r.copy().apply(m).mated(d - 1, 200000)
                c.check(v != 0, lambda: "mate_move(%d) after %d plies gives %s, which does not force mate within %d plies" % (d, n, usi(m), d))
        else:
            d = c.pick((2, 2, 4))
            if b.is_mate(d):
                c.check(r.mated(d, 200000) != 0, lambda: "is_mate(%d) after %d plies is true, but there is an escape" % (d, n))
        c.eq(obs(b), before, "the board after a mate query")
    c.nontrivial((s, n))


def even(c, r, d):
    s = r.sfen()
    if d == 6 and len(r.legal()) > 4:
        d = 2
    c.note("%s depth %d" % (s, d))
    b = cshogi.Board(s)
    before = obs(b)
    got = b.is_mate(d)
    c.eq(obs(b), before, lambda: "the board after is_mate in " + s)
    if not r.in_check():
        c.eq(got, False, lambda: "is_mate(%d) in %s, which is not a check" % (d, s))
        return
    if got:
        v = r.mated(d, 400000)
        c.check(v != 0, lambda: "is_mate(%d) in %s is true, but there is an escape" % (d, s))
        c.event("mated in %d" % d, "undecided" if v < 0 else "confirmed")
        c.nontrivial((s, d))
    else:
        w = r.weak_mated(d, 60000)
        c.check(w != 1, lambda: "is_mate(%d) in %s is false, but every reply is mated" % (d, s))


TESTS = [Test("one", t_one, 60000), Test("one_check", t_one_check, 12000), Test("one_near", t_one_all, 8000),
         Test("discover", t_discover, 200000), Test("edge", t_edge, 12000), Test("net", t_net, 40000),
         Test("odd", t_odd, 6000), Test("even", t_even, 8000), Test("counter", t_counter, 12000),
         Test("perpetual", t_perpetual, 6000), Test("step_back", t_step_back, 6000)]
