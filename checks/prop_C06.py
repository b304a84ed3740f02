"""Repetition verdicts follow the history."""
import cshogi
from pbt import Test, Discard
import gen
from ref import Ref, usi, mv, m_to, m_from, m_drop
from util import enc, board_via
from hist import Hist, STARTS, name

RULE = ("a case is a history that shuffles pieces back and forth (often with checks, captures, drops and passes mixed in), so "
        "positions and board patterns recur; is_draw with and without a ply limit and move_is_draw of moves are compared with "
        "a model that keeps the whole history. Non-trivial: some verdict was not NOT_REPETITION; distinct by history.")



def choose(c, h, log):
    r = h.r
    ms = r.legal()
    if not ms:
        return None
    k = c.draw(9)
    if k <= 5 and len(log) >= 2 and log[-2] is not None:
        m = log[-2]
        if not m_drop(m):
            back = mv(m_to(m), m_from(m))
            if back in ms:
                return back
    if k == 6:
        ch = r.checks()
        if ch:
            return c.pick(ch)
    if k == 7 and len(log) >= 4 and log[-4] is not None and log[-4] in ms:
        return log[-4]
    if k == 8:
        # towards a board seen before, the hands being different if possible
        old = {p[1]: p[0] for p in h.plies}
        rec = []
        for m in ms:
            q = r.copy().apply(m)
            if old.get(q.board_key() + bytes([q.turn]), q.key()) != q.key():
                rec.append(m)
        if rec:
            return c.pick(rec)
        # or towards the square distance of one such board
        if len(h.plies) > 3:
            goal = h.plies[-4][1]
            best = sorted((sum(x != y for x, y in zip(r.copy().apply(m).board_key(), goal)), m) for m in ms)
            return best[0][1]
    return gen.pick_move(c, r, ms)


def run(c, start, steps):
    r = Ref(start)
    b = board_via(c, r)
    if c.prob(20) and not r.in_check():
        # the same position, the turn set by hand
        q = r.copy()
        q.s.turn ^= 1
        b = cshogi.Board(q.sfen())
        b.turn = r.turn
    h = Hist(r)
    log = []
    trail = []
    verdicts = set()
    c.note(start)
    for _ in range(steps):
        if c.prob(4) and not h.r.in_check() and not h.r.in_check(h.r.turn ^ 1):
            trail.append((h.dup(), list(log)))
            b.push_pass()
            q = h.r.copy()
            q.s.turn ^= 1
            h = Hist(q)
            log.append(None)
            c.note("pass")
        elif c.prob(8) and trail:
            b.pop()
            h, log = trail.pop()
            c.note("pop")
        else:
            m = choose(c, h, log)
            if m is None:
                break
            e = enc(h.r, m)
            want = h.dup()
            want.play(m)
            lim = c.pick((None, None, None, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 40))
            if lim is None:
                got = b.move_is_draw(e)
                c.eq(name(got), name(want.verdict()), lambda: "move_is_draw(%s) after %s" % (usi(m), c.notes))
            else:
                got = b.move_is_draw(e, lim)
                c.eq(name(got), name(want.verdict(lim)), lambda: "move_is_draw(%s, %d) after %s" % (usi(m), lim, c.notes))
            # and of some other moves
            for x in range(2):
                mm = gen.pick_move(c, h.r)
                w2 = h.dup()
                w2.play(mm)
                c.eq(name(b.move_is_draw(enc(h.r, mm))), name(w2.verdict()), lambda: "move_is_draw(%s) after %s" % (usi(mm), c.notes))
            trail.append((h, list(log)))
            b.push(e)
            h = want
            log.append(m)
            c.note(usi(m))
        v = h.verdict()
        c.eq(name(b.is_draw()), name(v), lambda: "is_draw() after %s" % c.notes)
        lim = c.int(1, 14)
        c.eq(name(b.is_draw(lim)), name(h.verdict(lim)), lambda: "is_draw(%d) after %s" % (lim, c.notes))
        if c.prob(5):
            c.eq(name(b.copy().is_draw()), name(v), "is_draw() of a copy")
        if v != cshogi.NOT_REPETITION:
            verdicts.add(name(v))
            c.event(name(v))
    if verdicts:
        c.nontrivial((start, tuple(c.notes)))


def t_shuffle(c):
    run(c, c.pick(gen.SEEDS[:7]), c.int(4, 40))


def t_sparse(c):
    run(c, c.pick(STARTS), c.int(4, 50))


def t_random(c):
    r = gen.tsume(c) if c.prob(50) else gen.placement(c, dense=0)
    run(c, r.sfen(), c.int(4, 40))


def ring(c, w, h, f0, r0):
    """a closed walk of a king: the edge of a rectangle, some corners cut (file and rank from 0)"""
    pts = [(x, 0) for x in range(w)] + [(w - 1, y) for y in range(1, h)] + [(x, h - 1) for x in range(w - 2, -1, -1)] + [(0, y) for y in range(h - 2, 0, -1)]
    if h == 1:
        pts = [(x, 0) for x in range(w)] + [(x, 0) for x in range(w - 2, 0, -1)]
    corners = [(0, 0), (w - 1, 0), (w - 1, h - 1), (0, h - 1)]
    if w > 2 and h > 2:
        for k in corners[:c.draw(4)]:
            pts.remove(k)
    return [(f0 + x) * 9 + r0 + y for x, y in pts]


def t_tour(c):
    """two kings walk rings of different lengths: the same position comes back only after hundreds of plies"""
    rings = []
    small = c.prob(30)
    for top in (5, 0):
        w = c.int(2, 3 if small else 9)
        h = c.int(1 if small else 2, 2 if small else 4)
        rings.append(ring(c, w, h, c.draw(9 - w), top + c.draw(4 - h)))
    at = [c.draw(len(q) - 1) for q in rings]
    board = [0] * 81
    board[rings[0][at[0]]] = 8
    board[rings[1][at[1]]] = 24
    hands = [[c.draw(3), c.draw(1), 0, 0, c.draw(1), 0, 0] for _ in (0, 1)]
    turn = c.draw(1)
    r = Ref.make(board, hands, turn)
    b = board_via(c, r)
    c.note("%s, rings of %d and %d squares" % (r.sfen(), len(rings[0]), len(rings[1])))
    boards = {}        # board and turn -> last ply
    far = 0
    gift = c.draw(4 if small else 2)
    n = 0
    h = Hist(r)
    boards[h.plies[0][1]] = 0
    for n in range(c.int(10, 60) if small else c.int(60, 700)):
        r = h.r
        t = r.turn
        m = None
        if gift and (c.prob(40) if small else n > 10 and c.draw(40) == 0) and r.hands()[t][0]:
            # a pawn for the other king to take on its way
            goal = rings[t ^ 1][(at[t ^ 1] + 1) % len(rings[t ^ 1])]
            d = [x for x in r.legal() if m_drop(x) and m_from(x) == 81 and m_to(x) == goal]
            if d:
                m = d[0]
                gift -= 1
        if m is None:
            k = (at[t] + 1) % len(rings[t])
            m = mv(rings[t][at[t]], rings[t][k])
            if m not in r.legal():
                break
            at[t] = k
        e = enc(r, m)
        h.play(m)
        v = h.verdict() if n % 7 == 0 or h.plies[-1][1] in boards else cshogi.NOT_REPETITION
        c.eq(name(b.move_is_draw(e)), name(v), lambda: "move_is_draw of ply %d" % (n + 1))
        b.push(e)
        c.eq(name(b.is_draw()), name(v), lambda: "is_draw() after ply %d" % (n + 1))
        if v != cshogi.NOT_REPETITION:
            d = len(h.plies) - 1 - boards[h.plies[-1][1]]
            far = max(far, d)
            c.eq(name(b.is_draw(d)), name(v), lambda: "is_draw(%d) after ply %d" % (d, n + 1))
            c.eq(name(b.is_draw(d - 1)), name(h.verdict(d - 1)), lambda: "is_draw(%d) after ply %d" % (d - 1, n + 1))
            if far > 100 and c.prob(60):
                c.eq(name(b.copy().is_draw()), name(v), "is_draw() of a copy")
                break
        boards[h.plies[-1][1]] = len(h.plies) - 1
    if far:
        c.event("recurs after %d.." % (far // 50 * 50))
        c.nontrivial(tuple(c.notes) + (n,))


def t_chase(c):
    """a long chase by checks that runs into an old position: perpetual check over tens of plies, or broken by one quiet move"""
    board = [0] * 81
    k = c.draw(80)
    board[k] = 24
    if c.prob(70):
        far = [q for q in range(81) if max(abs(q // 9 - k // 9), abs(q % 9 - k % 9)) > 3]
        board[c.pick(far)] = 8
    free = [q for q in range(81) if not board[q]]
    for p in c.pick(((14,), (14, 14), (14, 13), (6, 14), (13, 13), (14, 7), (6, 5))):
        board[c.pick([q for q in free if not board[q]])] = p
    r = Ref.make(board, [[0] * 7, [0] * 7], 0)
    if r.in_check(1):
        r.s.turn = 1
    if r.in_check(r.turn ^ 1):
        raise Discard("both in check")
    us = 0
    if c.prob(40):
        us = 1
        r = Ref.make([(p + 16 if p < 16 else p - 16) if p else 0 for p in reversed(list(r.s.b))], [[0] * 7, [0] * 7], r.turn ^ 1)
    start = r.sfen()
    b = board_via(c, r)
    c.note(start)
    h = Hist(r)
    keys = {h.plies[0][0]: 0}
    boards = {h.plies[0][1]}
    turn_back = c.int(8, 90)
    quiet = c.draw(turn_back * 3)
    best = 0
    for n in range(turn_back + 40):
        r = h.r
        ms = r.legal()
        if not ms:
            break
        if r.turn == us:
            ch = r.checks()
            if n != quiet:
                ms = ch or ms
            else:
                ms = [m for m in ms if m not in ch] or ms
        opts = []
        for m in c.shuffle(ms)[:14]:
            q = r.copy().apply(m)
            # the chase goes on: the king has a reply, or the chaser a check
            if q.checks() if q.turn == us else q.any_legal():
                opts.append((keys.get(q.key(), -1), m))
        new = [m for g, m in opts if g < 0]
        old = sorted((g, m) for g, m in opts if g >= 0)
        if old and (n > turn_back or not new):
            m = old[0][1]
        elif new:
            m = new[0]
        else:
            m = ms[0]
        e = enc(r, m)
        h.play(m)
        c.note(usi(m))
        v = h.verdict() if h.plies[-1][1] in boards else cshogi.NOT_REPETITION
        c.eq(name(b.move_is_draw(e)), name(v), lambda: "move_is_draw of ply %d" % (n + 1))
        b.push(e)
        c.eq(name(b.is_draw()), name(v), lambda: "is_draw() after ply %d" % (n + 1))
        if v != cshogi.NOT_REPETITION:
            d = len(h.plies) - 1 - keys.get(h.plies[-1][0], len(h.plies) - 1)
            if v in (cshogi.REPETITION_WIN, cshogi.REPETITION_LOSE):
                best = max(best, d)
            c.event(name(v))
        keys[h.plies[-1][0]] = len(h.plies) - 1
        boards.add(h.plies[-1][1])
    if best:
        c.event("perpetual check over %d.. plies" % (best // 10 * 10))
        c.nontrivial((start, tuple(c.notes)))


TESTS = [Test("sparse", t_sparse, 6000), Test("shuffle", t_shuffle, 3000), Test("random", t_random, 6000), Test("tour", t_tour, 400),
         Test("chase", t_chase, 600)]
