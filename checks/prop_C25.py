"""The gym environments report rewards, ends and draws as the rules and the history dictate."""
import warnings
warnings.filterwarnings("ignore")
import os
import sys
_e = os.dup(2)
_n = os.open(os.devnull, os.O_WRONLY)
os.dup2(_n, 2)
try:
    from cshogi.gym_shogi.envs import ShogiEnv, ShogiVecEnv
finally:
    sys.stderr.flush()
    os.dup2(_e, 2)
    os.close(_n)
    os.close(_e)
import cshogi
import numpy as np
from pbt import Test
import gen
from ref import Ref, usi, START, HAND_TYPES
from util import enc
from hist import Hist, STARTS, fourfold, repeating

RULE = ("a case is a history of resets (start, SFEN, packed position), steps (legal, resigning, illegal) and renders on a ShogiEnv, "
        "or of joint steps on a ShogiVecEnv, biased to repeat positions; rewards, done flags and draw status are compared with a "
        "model of the whole game. Non-trivial: a game ended (mate, repetition, perpetual check, resignation); distinct by "
        "moves.")
REP = {cshogi.REPETITION_WIN: -1.0, cshogi.REPETITION_LOSE: 1.0, cshogi.REPETITION_DRAW: 0.0}


class Game:
    """the model of one environment"""

    def __init__(self, r):
        self.h = Hist(r)
        self.log = []
        self.over = False

    def play(self, m):
        """the acceptable (reward, done, is_draw)"""
        self.h.play(m)
        self.log.append(m)
        v = fourfold(self.h.plies, self.h.r.turn)
        if v is not None:
            self.over = True
            if self.h.verdict() in (cshogi.REPETITION_SUPERIOR, cshogi.REPETITION_INFERIOR):
                return None
            return [(REP[x], True, x) for x in v]
        if not self.h.r.any_legal():
            self.over = True
            return [(1.0, True, None)]
        return [(0.0, False, None)]


def show(c, env, g, where):
    r = g.h.r
    c.eq(env.render(mode="sfen"), r.sfen(), where)
    c.eq(env.board.sfen(), r.sfen(), where)


def end_label(w):
    x = w[0]
    return "mate" if x[2] is None else "rep%d" % x[2]


def near_mate(c):
    """a position in which a mating move is likely"""
    return gen.tsume(c, attacker_king=True)


def packable(r):
    n = [0] * 9
    for p in r.s.b:
        if p:
            n[(p & 15) - 8 if (p & 15) > 8 else p & 15] += 1
    for h in r.hands():
        for t, k in zip(HAND_TYPES, h):
            n[t] += k
    return 8 in r.s.b and 24 in r.s.b and all(n[t] <= gen.TOTAL[t] for t in gen.TOTAL)


def start_of(c):
    k = c.weighted([(2, 0), (3, 1), (2, 2), (3, 3)])
    if k == 0:
        return None
    if k == 1:
        return Ref(c.pick(STARTS))
    if k == 2:
        return Ref(c.pick(gen.SEEDS[:7]))
    return near_mate(c)


def pick(c, g, pct):
    r = g.h.r
    if c.prob(30):
        ms = [m for m in r.checks() if not r.copy().apply(m).any_legal()]
        if ms:
            return c.pick(ms)
    return repeating(c, g.h, g.log, pct)


def t_env(c):
    env = ShogiEnv()
    g = Game(Ref(START))
    log = []
    ended = set()
    pct = c.pick((97, 90, 70, 40))
    steps = c.int(5, 60)
    for _ in range(steps):
        k = c.draw(19) if not g.over else 0
        where = lambda: "after %s" % log
        if g.over or k == 19:
            r = start_of(c)
            how = c.draw(1)
            if r is None:
                out = env.reset()
                r = Ref(START)
                log.append("reset()")
            elif how == 0 or not packable(r):
                out = env.reset(sfen=r.sfen())
                log.append("reset(sfen=%s)" % r.sfen())
            else:
                b = cshogi.Board(r.sfen())
                a = np.zeros(1, cshogi.HuffmanCodedPos)
                b.to_hcp(a)
                out = env.reset(hcp=a["hcp"][0])
                r.s.ply = 1
                log.append("reset(hcp of %s)" % r.sfen())
            c.check(out is env.board, "reset() returns the board")
            g = Game(r)
            show(c, env, g, where)
            continue
        if k == 18:
            c.check(env.render() is env.board, "render() returns the board")
            c.eq(env.render(mode="ansi"), str(env.board), "render ansi")
            last = enc(g.prev, g.log[-1]) if g.log else None
            svg = env.render(mode="svg")
            b = cshogi.Board(g.h.r.sfen())
            c.eq(str(svg), str(b.to_svg(lastmove=last) if last else b.to_svg()), lambda: "render svg after %s" % log)
            continue
        if k == 17:
            c.eq(env.step(0), (-1.0, True, None), lambda: "step(0) after %s" % log)
            log.append("resign")
            ended.add("resign")
            g.over = True
            continue
        if k == 16:
            m = c.pick((c.draw(0xffffff), c.draw(0x7fff), enc(g.h.r, c.pick(g.h.r.pseudo())) if g.h.r.pseudo() else 5))
            if m and m not in [enc(g.h.r, x) for x in g.h.r.legal()]:
                try:
                    out = env.step(m)
                except AssertionError:
                    pass
                else:
                    c.check(False, lambda: "illegal step(%#x) returned %r after %s" % (m, out, log))
                show(c, env, g, where)
            continue
        m = pick(c, g, pct)
        if m is None:
            g.over = True
            continue
        g.prev = g.h.r
        e = enc(g.h.r, m)
        w = g.play(m)
        log.append(usi(m))
        out = env.step(e)
        if w is not None:
            c.check(out in w, lambda: "step result %r, expected one of %r after %s" % (out, w, log))
            c.check(type(out[1]) is bool, "done is a bool")
            if g.over:
                ended.add(end_label(w))
        show(c, env, g, where)
    c.event(*ended)
    c.note(" ".join(log))
    if ended:
        c.nontrivial(tuple(log))


def t_vec(c):
    n = c.int(1, 4)
    env = ShogiVecEnv(n)
    c.eq(env.num_envs, n, "num_envs")
    games = []
    log = []
    for i in range(n):
        r = start_of(c) or Ref(START)
        env.envs[i].reset(sfen=r.sfen())
        games.append(Game(r))
        log.append(r.sfen())
    c.eq(env.render(), [g.h.r.sfen() for g in games], "render")
    ended = set()
    pct = c.pick((97, 90, 70))
    for _ in range(c.int(4, 30)):
        if c.prob(2):
            env.reset()
            games = [Game(Ref(START)) for _ in games]
            log.append("reset")
        moves, want = [], []
        for i, g in enumerate(games):
            m = pick(c, g, pct) if not c.prob(3) else None
            if m is None:
                moves.append(0)
                want.append([(-1.0, True, None)])
                ended.add("resign")
                games[i] = Game(Ref(START))
                log.append("%d:resign" % i)
            else:
                moves.append(enc(g.h.r, m))
                log.append("%d:%s" % (i, usi(m)))
                w = g.play(m)
                want.append(w)
                if g.over:
                    if w:
                        ended.add(end_label(w))
                    games[i] = Game(Ref(START))
        a, d, x = env.step(moves)
        c.eq((len(a), len(d), len(x)), (n, n, n), "lengths of the lists from step")
        for i, w in enumerate(want):
            if w is not None:
                c.check((a[i], d[i], x[i]) in w, lambda: "environment %d: %r, expected one of %r after %s" % (i, (a[i], d[i], x[i]), w, log))
        c.eq(env.render(), [g.h.r.sfen() for g in games], lambda: "positions after %s" % log)
    c.event(*ended)
    c.note(" ".join(log))
    if ended:
        c.nontrivial(tuple(log))


TESTS = [Test("env", t_env, 3000), Test("vec", t_vec, 1500)]
