"""Legal move generation equals the rules of shogi."""
import cshogi
from pbt import Test
import gen
from ref import Ref, usi, m_to, m_from, m_drop

RULE = ("cases are positions: random games from even, handicap and endgame starts, random placements (board+hands), and "
        "tsume-like placements; every position of a game is compared. Non-trivial: the position's legal move list was "
        "compared with the reference and the position has a check, a pinned or promotable piece, or a drop in its legal list.")


def compare(c, b, r):
    _, want = r.legal_usi()
    ml = cshogi.LegalMoveList(b)
    n = len(ml)
    got = [cshogi.move_to_usi(m) for m in ml]
    if sorted(got) != sorted(want):
        sg, sw = set(got), set(want)
        c.check(len(sg) == len(got), lambda: "a legal move is listed twice in %s" % r.sfen())
        c.check(False, "legal moves of %s: missing %s, extra %s" % (r.sfen(), sorted(sw - sg), sorted(sg - sw)))
    c.eq(n, len(want), lambda: "len(legal_moves) of " + r.sfen())
    c.eq(b.is_game_over(), not want, lambda: "is_game_over of " + r.sfen())
    if not want:
        c.event("no legal move")
    if r.in_check():
        c.event("in check")
    if any(u[1] == "*" for u in want):
        c.event("drops")
    if any(u[-1] == "+" for u in want):
        c.event("promotions")
    return want


def pseudo(c, b, r, want):
    pl = [cshogi.move_to_usi(m) for m in b.pseudo_legal_moves]
    c.check(len(set(pl)) == len(pl), lambda: "a pseudo-legal move is listed twice in " + r.sfen())
    miss = set(want) - set(pl)
    c.check(not miss, lambda: "pseudo_legal_moves of %s lacks the legal %s" % (r.sfen(), sorted(miss)))
    rules = {usi(m) for m in r.pseudo()}
    extra = set(pl) - rules
    c.check(not extra, lambda: "pseudo_legal_moves of %s has %s, which no piece can play" % (r.sfen(), sorted(extra)))
    legal = set(want)
    for m in b.pseudo_legal_moves:
        u = cshogi.move_to_usi(m)
        c.check(b.pseudo_legal_move_is_legal(m) == (u in legal) , lambda: "pseudo_legal_move_is_legal(%s) in %s" % (u, r.sfen()))


def t_game(c):
    start, moves, r = gen.playout(c, max_len=60)
    b = cshogi.Board(start)
    r = Ref(start)
    c.note("start " + start)
    c.note("moves " + " ".join(usi(m) for m in moves))
    want = compare(c, b, r)
    for m in moves:
        b.push(b.move_from_usi(usi(m)))
        r.apply(m)
        want = compare(c, b, r)
    pseudo(c, b, r, want)
    if moves:
        c.nontrivial((start, tuple(moves)))


def t_place(c):
    r = gen.placement(c)
    s = r.sfen()
    c.note(s)
    b = cshogi.Board(s)
    want = compare(c, b, r)
    pseudo(c, b, r, want)
    if r.in_check() or any(u[1] == "*" or u[-1] == "+" for u in want):
        c.nontrivial(s)


def t_tsume(c):
    r = gen.tsume(c)
    s = r.sfen()
    c.note(s)
    b = cshogi.Board(s)
    compare(c, b, r)
    # and the evasions after every check
    ch = r.checks()
    for m in ch[:6]:
        q = r.copy().apply(m)
        b.push(b.move_from_usi(usi(m)))
        want = compare(c, b, q)
        pseudo(c, b, q, want)
        b.pop()
    if ch:
        c.nontrivial(s)


def t_net(c):
    """mates and pawn-drop mates, and the positions next to them: before and after the move"""
    pawn = c.prob(40)
    r, m = gen.net(c, pawn=pawn)
    for i in range(c.int(1, 5)):
        n = r if i == 0 else gen.disturb(c, r, m)
        if n is None:
            continue
        s = n.sfen()
        c.note(s)
        b = cshogi.Board(s)
        want = compare(c, b, n)
        if c.prob(20):
            pseudo(c, b, n, want)
        if n.is_legal(m):
            b.push(b.move_from_usi(usi(m)))
            compare(c, b, n.copy().apply(m))
        elif pawn:
            c.event("pawn-drop mate")
        c.nontrivial(s)
        if c.prob(30):
            r = n
            if r.s.b[m_to(m)] or not m_drop(m) and not r.s.b[m_from(m)]:
                break


TESTS = [Test("game", t_game, 1500), Test("placement", t_place, 20000), Test("tsume", t_tsume, 12000), Test("net", t_net, 8000)]
