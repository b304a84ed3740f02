"""The entering-king declaration (27-point rule)."""
import cshogi
from pbt import Test, Discard
import gen
from ref import Ref, HAND_SLOT
from util import enc

RULE = ("a case is a position built close to the declaration conditions (king around rank 3/4 of the enemy camp, 8-12 pieces in "
        "the camp, 24-31 points, sometimes a check), for either side. Non-trivial: the model's point total is within 3 of the "
        "threshold, or exactly one condition fails, or all hold; distinct by position.")


def model(r):
    """(declarable, number of failed conditions, points - threshold)"""
    t = r.turn
    k = r.king(t)
    zone = (lambda s: s % 9 <= 2) if t == 0 else (lambda s: s % 9 >= 6)
    fails = []
    if r.in_check():
        fails.append("check")
    if k < 0 or not zone(k):
        fails.append("king outside")
    n = pts = 0
    for s in range(81):
        p = r.s.b[s]
        if p and p >> 4 == t and p & 15 != 8 and zone(s):
            n += 1
            pts += 5 if (p & 15) in (5, 6, 13, 14) else 1
    h = r.hands()[t]
    pts += sum(h[:5]) + 5 * (h[5] + h[6])
    need = 28 if t == 0 else 27
    if n < 10:
        fails.append("pieces %d" % n)
    if pts < need:
        fails.append("points %d" % pts)
    return not fails, fails, pts - need


def near(c):
    board = [0] * 81
    hands = [[0] * 7, [0] * 7]
    t = c.draw(1)
    left = dict(gen.TOTAL)
    y = lambda d: d if t == 0 else 8 - d

    def sq(file, depth):
        return file * 9 + y(depth)

    k = sq(c.draw(8), c.weighted([(6, 1), (4, 2), (2, 0), (2, 3), (1, 4)]))
    board[k] = 8 + 16 * t
    ek = sq(c.draw(8), c.weighted([(5, 7), (3, 8), (2, 5), (1, 1)]))
    if board[ek] or ek in gen.around(k):
        raise Discard("kings")
    board[ek] = 8 + 16 * (t ^ 1)
    big = c.draw(4)
    inside = c.int(7, 13)
    total = c.int(24, 31)
    pts = 0

    def put(pt, s, col, pro):
        if board[s] or not left[pt]:
            return False
        if not pro and gen.dead(pt, col, s):
            pro = True
        if pro and pt == 7:
            pro = False
        board[s] = pt + (8 if pro else 0) + 16 * col
        left[pt] -= 1
        return True

    bigs = [5, 5, 6, 6][:big] if c.prob(50) else [6, 6, 5, 5][:big]
    n = 0
    for b in bigs:
        if c.prob(50) and n < inside:
            if put(b, sq(c.draw(8), c.draw(2)), t, c.prob(50)):
                n += 1
                pts += 5
        elif left[b]:
            hands[t][HAND_SLOT[b]] += 1
            left[b] -= 1
            pts += 5
    for _ in range(60):
        if n >= inside:
            break
        pt = c.pick((1, 1, 1, 1, 2, 3, 4, 7))
        if put(pt, sq(c.draw(8), c.draw(2)), t, c.prob(60)):
            n += 1
            pts += 1
    for _ in range(40):
        if pts >= total:
            break
        pt = c.pick((1, 1, 1, 2, 3, 4, 7))
        if left[pt]:
            left[pt] -= 1
            hands[t][HAND_SLOT[pt]] += 1
            pts += 1
    # decoys: own pieces outside the camp, the enemy's inside and in his hand
    for _ in range(c.draw(6)):
        put(c.int(1, 7), sq(c.draw(8), c.int(3, 8)), t, c.prob(30))
    for _ in range(c.draw(6)):
        put(c.int(1, 7), sq(c.draw(8), c.draw(8)), t ^ 1, c.prob(30))
    for pt in left:
        q = c.draw(left[pt])
        hands[t ^ 1][HAND_SLOT[pt]] += q
    r = Ref.make(board, hands, t if not c.prob(15) else t ^ 1, 1)
    if r.in_check(r.turn ^ 1):
        raise Discard("king can be taken")
    return r


def t_near(c):
    r = near(c)
    ok, fails, d = model(r)
    b = cshogi.Board(r.sfen())
    c.note(r.sfen())
    c.note("declarable" if ok else "fails: " + ", ".join(fails))
    c.eq(bool(b.is_nyugyoku()), ok, lambda: "is_nyugyoku of %s (%s)" % (r.sfen(), ", ".join(fails) or "all conditions hold"))
    c.event("declarable" if ok else "one condition fails: " + fails[0].split()[0] if len(fails) == 1 else "several fail")
    if ok or len(fails) == 1 or abs(d) <= 3:
        c.nontrivial(r.key())
    # and along a few moves, where the answer is maintained incrementally
    for _ in range(c.draw(4)):
        m = gen.pick_move(c, r)
        if m is None:
            break
        b.push(enc(r, m))
        r.apply(m)
        ok, fails, d = model(r)
        c.eq(bool(b.is_nyugyoku()), ok, lambda: "is_nyugyoku of %s after a move (%s)" % (r.sfen(), ", ".join(fails)))


def t_any(c):
    r = gen.position(c)
    c.eq(bool(cshogi.Board(r.sfen()).is_nyugyoku()), model(r)[0], lambda: "is_nyugyoku of " + r.sfen())
    if abs(model(r)[2]) <= 3:
        c.nontrivial(r.key())


TESTS = [Test("near", t_near, 40000), Test("any", t_any, 4000)]
