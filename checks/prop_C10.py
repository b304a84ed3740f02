"""Move integers, their accessors and the USI and CSA notations say the same thing."""
import cshogi
from pbt import Test
import gen
from ref import Ref, usi, m_to, m_from, m_drop, m_pro, HAND_SLOT
from util import enc, csa

RULE = ("a case is a position with all its legal moves; every move's integer, accessors and notations are compared with the "
        "documented bit layout and the rules, and read back. Non-trivial: the list has a drop, a promotion or a capture; "
        "distinct by position.")


def t_moves(c):
    if c.prob(40):
        r = gen.playout(c, max_len=120)[2]
    else:
        r = gen.placement(c)
    s = r.sfen()
    b = cshogi.Board(s)
    got = {}
    for x in b.legal_moves:
        got[cshogi.move_to_usi(x)] = x
    ms, us = r.legal_usi()
    c.eq(sorted(got), sorted(us), lambda: "USI of the legal moves of " + s)
    kinds = set()
    cs = {}
    for m, u in zip(ms, us):
        e = enc(r, m)
        c.eq(got[u], e, lambda: "the integer of %s in %s" % (u, s))
        c.eq(cshogi.move_to(e), m_to(m), lambda: "move_to of " + u)
        c.eq(cshogi.move_from(e), m_from(m), lambda: "move_from of " + u)
        c.eq(bool(cshogi.move_is_promotion(e)), bool(m_pro(m)), lambda: "move_is_promotion of " + u)
        c.eq(bool(cshogi.move_is_drop(e)), m_drop(m), lambda: "move_is_drop of " + u)
        if m_drop(m):
            kinds.add("drop")
            c.eq(cshogi.move_drop_hand_piece(e), HAND_SLOT[m_from(m) - 80], lambda: "move_drop_hand_piece of " + u)
            c.eq(cshogi.move_cap(e), 0, lambda: "move_cap of " + u)
        else:
            c.eq(cshogi.move_from_piece_type(e), r.s.b[m_from(m)] & 15, lambda: "move_from_piece_type of %s in %s" % (u, s))
            cap = r.s.b[m_to(m)] & 15
            c.eq(cshogi.move_cap(e), cap, lambda: "move_cap of %s in %s" % (u, s))
            if cap:
                kinds.add("capture")
        if m_pro(m):
            kinds.add("promotion")
        for f in (cshogi.to_usi, cshogi.move_to_usi):
            c.eq(_t(f(e)), u, lambda: "%s of %#x" % (f.__name__, e))
        t = csa(r, m)
        for f in (cshogi.to_csa, cshogi.move_to_csa):
            c.eq(_t(f(e)), t, lambda: "%s of %s in %s" % (f.__name__, u, s))
        c.check(cs.setdefault(t, u) == u, lambda: "two legal moves share the CSA text %s in %s" % (t, s))
        c.eq(b.move_from_usi(u), e, lambda: "move_from_usi(%s) in %s" % (u, s))
        c.eq(b.move_from_csa(t), e, lambda: "move_from_csa(%s) in %s" % (t, s))
        c.eq(b.move_from_move16(e & 0xffff), e, lambda: "move_from_move16 of " + u)
        if m_drop(m):
            c.eq(b.drop_move(m_to(m), m_from(m) - 80), e, lambda: "drop_move for %s" % u)
        else:
            c.eq(b.move(m_from(m), m_to(m), bool(m_pro(m))), e, lambda: "move() for %s in %s" % (u, s))
    c.event(*kinds)
    c.note(s)
    if kinds:
        c.nontrivial(r.key())


def _t(x):
    return x.decode() if isinstance(x, bytes) else x


TESTS = [Test("moves", t_moves, 5000)]
