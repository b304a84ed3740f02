"""Shared checks of the two df-pn solvers (DfPn and OslDfPn)."""
import cshogi
from pbt import Test, Discard
import gen
from ref import Ref, usi, m_to, m_from, m_drop
from util import enc, obs

RULE = ("a case is one to twelve positions (attacker's pieces around the king, a bare king besieged from afar, random placement, "
        "random game; for the AND search a position in check) given in turn to one solver. Non-trivial: the reference "
        "proves or refutes a mate by full-width search, or the solver claims one; distinct by position.")
ASSUMPTIONS = ["completeness is required on boards without history (repetition plays no part), both kings or at least the defending king on the board",
               "the node budget is ample for the short mates whose completeness is required (retried with 1,000,000 nodes)"]

# positions whose proof is joined by transposition to a length above the depth limit
BEYOND = [("9/9/5+r3/9/9/3P1k3/2S6/2NL5/2+P1K1b2 w 3G3S3N3L15Prbp 1", 7),
          ("9/9/9/K3+P4/5+B3/l3+N4/1n7/2ks5/3+p5 b RGNLr3g3sn2l16p 1", 9),
          ("7k1/9/8G/2K6/9/9/9/9/8+R b R2b3g4s4n3l18p 1", 11)]


def pos_of(c):
    k = c.draw(14)
    if k == 14:
        r = gen.stepback(c)
    elif k == 13:
        r = gen.counter(c)[0]
    elif k == 12:
        r, m = gen.net(c)
        if c.prob(60):
            r = gen.disturb(c, r, m) or r
    elif k > 9:
        r = gen.siege(c)
    elif k < 6:
        r = gen.tsume(c, attacker_king=not c.prob(15))
    elif k < 8:
        r = gen.placement(c)
    else:
        r = gen.playout(c, max_len=120)[2]
        r.s.ply = min(r.s.ply, 200)
    if c.prob(15):
        r.s.ply = c.pick((2, 3, 100, 255, 400))
    return r


def decode(r, move):
    for m in r.legal():
        if enc(r, m) == move:
            return m
    return None


class Solver:
    def __init__(self, name):
        self.name = name
        self.K = getattr(cshogi, name)

    def shortest(self, r, top=5, limit=8000):
        """(1, d): the shortest mate takes d plies; (0, top): none within top; (-1, d): not known"""
        for d in range(1, top + 1, 2):
            v = r.mate(d, limit)[0]
            if v:
                return v, d
        return 0, top

    def search(self, c, d, r, nodes, b=None):
        """searches, checks the line it claims and that the board is untouched"""
        s = r.sfen()
        b = b or cshogi.Board(s)
        before = obs(b)
        got = d.search(b)
        c.eq(obs(b), before, lambda: "the board after search of " + s)
        c.check(got is True or got is False, lambda: "search returns %r" % (got,))
        n = d.searched_node
        lim = nodes if self.name == "DfPn" else 4 * nodes + 1000
        c.check(n <= lim, lambda: "%d nodes searched in %s, the limit is %d" % (n, s, nodes))
        if got:
            self.line(c, d, r, b, before)
        return got

    def line(self, c, d, r, b, before):
        s = r.sfen()
        mv = d.get_move(b)
        m = decode(r, mv)
        c.check(m is not None, lambda: "mate found in %s but get_move gives %s, not a legal move" % (s, cshogi.move_to_usi(mv)))
        pv = d.get_pv(b)
        c.eq(obs(b), before, lambda: "the board after get_move and get_pv of " + s)
        c.check(len(pv) % 2 == 1, lambda: "mate found in %s but its line has %d moves" % (s, len(pv)))
        c.eq(pv[0], mv, lambda: "first move of the line and get_move in " + s)
        q = r.copy()
        for i, x in enumerate(pv):
            m = decode(q, x)
            c.check(m is not None, lambda: "the mating line of %s, %s, has an illegal move (number %d)"
                    % (s, " ".join(cshogi.move_to_usi(y) for y in pv), i + 1))
            q.apply(m)
            if i % 2 == 0:
                c.check(q.in_check(), lambda: "the mating line of %s, %s: move %d is no check"
                        % (s, " ".join(cshogi.move_to_usi(y) for y in pv), i + 1))
        c.check(not q.any_legal(), lambda: "the mating line of %s, %s, does not end in mate"
                % (s, " ".join(cshogi.move_to_usi(y) for y in pv)))

    def make(self, c):
        """a solver and its node budget, set up in different ways"""
        nodes = 20000
        depth = 31
        if c.prob(30):
            d = self.K()
            d.set_max_depth(depth)
            d.set_max_search_node(nodes)
            if c.prob(50):
                d.set_draw_ply(10000)
        else:
            d = self.K(depth=depth, nodes=nodes)
        return d, nodes

    def refuted(self, r, attacker=True):
        """certainly no mate by checks, however long"""
        v = r.solve(2000, attacker)
        if v < 0:
            v = r.solve(25000, attacker)
        return v == 0

    def t_search(self, c):
        """one solver, a few positions in turn"""
        d, nodes = self.make(c)
        for _ in range(c.int(1, 4)):
            self.one(c, d, nodes, pos_of(c))

    def one(self, c, d, nodes, r):
        s = r.sfen()
        c.note(s)
        got = self.search(c, d, r, nodes)
        v, ply = self.shortest(r)
        if not got and v == 1:
            big = self.K(depth=31, nodes=1000000)
            got = self.search(c, big, r, 1000000)
            c.check(got, lambda: "%s finds no mate in %s, where there is one in %d plies" % (self.name, s, ply))
        if v == 1:
            c.event("mate in %d" % ply)
            c.nontrivial(s)
        elif got:
            c.event("longer mate claimed")
            c.nontrivial(s)
            c.check(not self.refuted(r), lambda: "%s finds a mate in %s, where there is none" % (self.name, s))
            if c.prob(30):
                self.defend(c, r)
        elif v == 0:
            c.event("no mate within 5")
            if r.checks():
                c.nontrivial(s)

    def defend(self, c, r):
        """play the claimed mate out against a random defender: the claim must hold after every reply"""
        q = r.copy()
        for _ in range(40):
            d = self.K(depth=31, nodes=200000)
            b = cshogi.Board(q.sfen())
            if not d.search(b):
                # a solver may lose its way in a smaller budget, not contradict the rules
                if self.refuted(q):
                    c.check(False, "%s claims a mate in %s, but after best play %s has none" % (self.name, r.sfen(), q.sfen()))
                c.event("not re-proved")
                return
            m = decode(q, d.get_move(b))
            c.check(m is not None, lambda: "get_move in %s is not legal" % q.sfen())
            q.apply(m)
            ev = q.legal()
            c.check(q.in_check(), lambda: "get_move in %s gives no check" % q.sfen())
            if not ev:
                c.event("played out")
                return
            q.apply(c.pick(ev))
        c.event("long")

    def t_none(self, c):
        """few pieces: the reference decides mates of any length"""
        d, nodes = self.make(c)
        for _ in range(c.int(1, 6)):
            r = gen.tsume(c) if c.prob(60) else gen.siege(c)
            s = r.sfen()
            v = r.solve(2000)
            if v < 0:
                continue
            c.note(s)
            c.event("mate" if v == 1 else "no mate at all")
            if r.checks():
                c.nontrivial(s)
            got = self.search(c, d, r, nodes)
            if v == 0:
                c.check(not got, lambda: "%s finds a mate in %s, where there is none" % (self.name, s))
            elif not got:
                short = self.shortest(r, 7, 50000)
                if short[0] == 1:
                    big = self.K(depth=41, nodes=2000000)
                    got = self.search(c, big, r, 2000000)
                    c.check(got, lambda: "%s finds no mate in %s, where there is one in %d plies" % (self.name, s, short[1]))

    def t_siege(self, c):
        """the same squares met with different hands within one search: a piece sacrificed or another"""
        nodes = 2000
        d = self.K(depth=31, nodes=nodes)
        for _ in range(c.int(4, 12)):
            r = gen.siege(c)
            if not r.checks():
                continue
            s = r.sfen()
            if not self.search(c, d, r, nodes):
                continue
            c.note(s)
            v, ply = self.shortest(r, 5, 1000)
            c.event("mate in %d" % ply if v == 1 else "longer mate claimed")
            c.nontrivial(s)
            if v != 1:
                c.check(not self.refuted(r), lambda: "%s finds a mate in %s, where there is none" % (self.name, s))

    def t_beyond(self, c):
        """a mate claimed under a tight depth limit comes with its whole line"""
        d = None
        for _ in range(c.int(1, 5)):
            depth = c.pick((3, 5, 7, 9, 11, 13))
            if c.prob(10):
                r, depth = c.pick(BEYOND)
                r = Ref(r)
            else:
                r = gen.tsume(c) if c.prob(50) else gen.siege(c)
            if d is None:
                d = self.K(depth=depth, nodes=3000)
            d.set_max_depth(depth)
            s = r.sfen()
            if self.search(c, d, r, 3000):
                n = len(d.get_pv(cshogi.Board(s)))
                c.note("%s depth %d" % (s, depth))
                c.nontrivial((s, depth))
                c.event("line longer than the limit" if n > depth else "line at the limit" if n == depth else "shorter line")

    def t_and(self, c):
        if c.prob(50):
            r, m = gen.counter(c)
            before = gen.retro(c, r) if c.prob(30) else None
            if before is not None:
                r = before
            else:
                r.apply(m)
            c.event("with a counter check")
        else:
            r = pos_of(c)
            ch = r.checks()
            if not ch or r.king(r.turn) < 0:
                raise Discard("no check")
            r.apply(c.pick(ch))
        s = r.sfen()
        c.note(s)
        v = r.mated(0, 1000)
        for dd in (2, 4):
            if v == 0:
                v = r.mated(dd, 8000)
        d, nodes = self.make(c)
        if c.prob(30):
            self.search(c, d, pos_of(c), nodes)
        b = cshogi.Board(s)
        before = obs(b)
        got = d.search_andnode(b)
        c.eq(obs(b), before, lambda: "the board after search_andnode of " + s)
        if v == 1:
            c.nontrivial(s)
            c.event("mated")
            if not got:
                big = self.K(depth=31, nodes=1000000)
                got = big.search_andnode(b)
            c.check(got, lambda: "search_andnode of %s is False, but every reply is mated" % s)
        elif got:
            c.nontrivial(s)
            c.event("longer")
            for m in r.legal()[:12]:
                q = r.copy().apply(m)
                c.check(not self.refuted(q), lambda: "search_andnode of %s is True, but %s escapes" % (s, usi(m)))
        else:
            c.event("escape")
            if r.legal():
                c.nontrivial(s)

    def t_limits(self, c):
        """tiny budgets: whatever is claimed still holds, nothing is disturbed"""
        r = pos_of(c)
        s = r.sfen()
        c.note(s)
        nodes = c.pick((0, 1, 2, 3, 5, 10, 30, 100, 1000))
        depth = c.pick((1, 2, 3, 4, 5, 7, 31))
        kw = {}
        if c.prob(40):
            kw["draw_ply"] = r.ply + c.draw(8)
        d = self.K(depth=depth, nodes=nodes, **kw)
        if c.prob(50):
            got = self.search(c, d, r, nodes)
            if got:
                c.nontrivial((s, nodes, depth))
                c.event("found")
                v, ply = self.shortest(r)
                if v != 1:
                    c.check(not self.refuted(r), lambda: "%s finds a mate in %s, where there is none" % (self.name, s))
        else:
            ch = r.checks()
            if not ch or r.king(r.turn) < 0:
                raise Discard("no check")
            r.apply(c.pick(ch))
            b = cshogi.Board(r.sfen())
            before = obs(b)
            got = d.search_andnode(b)
            c.eq(obs(b), before, lambda: "the board after search_andnode of " + r.sfen())
            if got:
                c.nontrivial((r.sfen(), nodes, depth))
                for m in r.legal()[:12]:
                    q = r.copy().apply(m)
                    c.check(not self.refuted(q), lambda: "search_andnode of %s is True, but %s escapes" % (r.sfen(), usi(m)))

    def t_history(self, c):
        """one solver follows a game on one board: whatever it claims along the way holds, and the game goes on undisturbed"""
        r = pos_of(c)
        b = cshogi.Board(r.sfen())
        nodes = c.pick((300, 3000))
        d = self.K(depth=31, nodes=nodes)
        log = [r.sfen()]
        played = []
        found = 0
        for _ in range(c.int(2, 14)):
            ms = r.legal()
            if not ms:
                break
            ch = r.checks()
            back = [m for m in ms if len(played) > 1 and not m_drop(m) and (m_from(m), m_to(m)) == (m_to(played[-2]), m_from(played[-2]))]
            m = c.pick(ch) if ch and c.prob(50) else c.pick(back) if back and c.prob(40) else gen.pick_move(c, r, ms)
            b.push(enc(r, m))
            r.apply(m)
            played.append(m)
            log.append(usi(m))
            if not c.prob(50):
                continue
            w = " ".join(log)
            if r.king(r.turn ^ 1) >= 0 and not r.in_check(r.turn ^ 1) and (not r.in_check() or c.prob(30)):
                if self.search(c, d, r, nodes, b):
                    found += 1
                    c.check(not self.refuted(r), lambda: "%s finds a mate after %s, where there is none" % (self.name, w))
            elif r.in_check() and r.king(r.turn) >= 0:
                before = obs(b)
                if d.search_andnode(b):
                    found += 1
                    for x in r.legal()[:12]:
                        q = r.copy().apply(x)
                        c.check(not self.refuted(q), lambda: "search_andnode after %s is True, but %s escapes" % (w, usi(x)))
                c.eq(obs(b), before, lambda: "the board after search_andnode after " + w)
        c.note(" ".join(log))
        c.event("%d mates on the way" % min(found, 3))
        if found:
            c.nontrivial(tuple(log))

    def t_perpetual(self, c):
        """on a board on which checks have gone round already: to come round again is no mate"""
        r, cyc = gen.perpetual(c)
        s = r.sfen()
        b = cshogi.Board(s)
        us = r.turn
        nodes = c.pick((300, 3000))
        d = self.K(depth=c.pick((5, 7, 31)), nodes=nodes)
        c.note("%s %s" % (s, [usi(m) for m in cyc]))
        for n in range(1, c.int(4, 11)):
            m = cyc[(n - 1) % 4]
            b.push(enc(r, m))
            r = r.copy().apply(m)
            if n < 4 and c.prob(60):
                continue
            if r.turn == us:
                if self.search(c, d, r, nodes, b):
                    c.event("mate")
                    c.check(not self.refuted(r), lambda: "%s finds a mate after %d plies of %s, where there is none" % (self.name, n, c.notes))
            else:
                before = obs(b)
                if d.search_andnode(b):
                    c.event("mated")
                    for x in r.legal()[:12]:
                        q = r.copy().apply(x)
                        c.check(not self.refuted(q), lambda: "search_andnode after %d plies of %s is True, but %s escapes" % (n, c.notes, usi(x)))
                c.eq(obs(b), before, "the board after search_andnode")
        c.nontrivial((s, n))

    def t_depth(self, c):
        """the depth and draw-ply limits admit exactly the short mates they should (DfPn)"""
        r = gen.tsume(c)
        r.s.ply = c.pick((1, 2, 5, 60, 301))
        v, ply = self.shortest(r)
        if v != 1 or ply == 1 and not c.prob(10):
            raise Discard("no mate")
        s = r.sfen()
        c.note("%s mate in %d" % (s, ply))
        c.nontrivial(s)
        c.event("mate in %d" % ply)
        k = c.draw(7)
        by_draw = c.prob(50)
        if by_draw:
            d = self.K(depth=31, nodes=100000, draw_ply=r.ply + k - 1)
        else:
            d = self.K(depth=k, nodes=100000)
        got = self.search(c, d, r, 100000)
        what = "draw_ply %d" % (r.ply + k - 1) if by_draw else "depth %d" % k
        if k >= ply:
            c.check(got, lambda: "with %s no mate is found in %s, where there is one in %d plies" % (what, s, ply))
        elif ply == 3:
            c.check(not got, lambda: "with %s a mate is claimed in %s, where the shortest takes 3 plies" % (what, s))

    def t_refusal(self, c):
        """no mate is claimed, with nodes to spare: then there is none within the limit"""
        nodes = 20000
        d = self.K(depth=31, nodes=nodes)
        free = self.K(depth=31, nodes=1500)
        for _ in range(c.int(3, 8)):
            r = gen.siege(c) if c.prob(60) else gen.tsume(c, attacker_king=c.prob(30))
            if not r.checks():
                continue
            r.s.ply = c.pick((1, 1, 2, 80))
            s = r.sfen()
            known = c.prob(15)
            if known:
                # the reference decides
                if r.solve(500) < 1:
                    continue
                v, ply = self.shortest(r, 7, 5000)
                if v < 1:
                    continue
            else:
                # a mate found without limits tells how long a line is enough
                b = cshogi.Board(s)
                if not free.search(b):
                    continue
                ply = len(free.get_pv(b))
                if ply > 3 and c.prob(50):
                    v, n = self.shortest(r, min(ply, 9), 4000)
                    if v == 1:
                        ply, known = n, True
            if ply == 1 or ply > 25:
                continue
            for depth in (ply, ply + 2) if c.prob(30) else (ply,):
                d.set_max_depth(31)
                d.set_draw_ply(100000)
                if c.prob(50):
                    d.set_max_depth(depth)
                else:
                    d.set_draw_ply(r.ply + depth - 1)
                c.note("%s mate in %d, limit %d" % (s, ply, depth))
                c.nontrivial((s, depth))
                c.event("mate in %d" % ply)
                if self.search(c, d, r, nodes):
                    continue
                if d.searched_node >= nodes:
                    c.event("out of nodes")
                    continue
                if not known:
                    v, n = self.shortest(r, ply, 300000)
                    if v < 1:
                        c.event("not decided")
                        continue
                c.check(False, "%s gives up %s after %d of %d nodes, where there is a mate in %d plies and the limit is %d"
                        % (self.name, s, d.searched_node, nodes, ply, depth))


def tests(name):
    s = Solver(name)
    t = [Test("search", s.t_search, 500), Test("none", s.t_none, 1000), Test("and", s.t_and, 2500), Test("siege", s.t_siege, 3000),
         Test("beyond", s.t_beyond, 600), Test("limits", s.t_limits, 1500), Test("history", s.t_history, 800), Test("perpetual", s.t_perpetual, 6000)]
    if name == "DfPn":
        t.append(Test("depth", s.t_depth, 1500))
        t.append(Test("refusal", s.t_refusal, 6000))
    return t
