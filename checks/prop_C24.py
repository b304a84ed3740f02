"""Engine matches (cshogi.cli.main): who moves, clocks, game ends, records and totals."""
import contextlib
import io
import json
import math
import os
import re
import shutil
import sys
import time
import usifake
import cshogi
with contextlib.redirect_stdout(io.StringIO()):
    import warnings
    warnings.simplefilter("ignore")
    from cshogi import cli
from cshogi import CSA
from pbt import Test
import gen
import pgn
from ref import Ref, START, usi
from util import enc, csa as csa_text
from hist import Hist, fourfold, repeating

RULE = ("a case is a match between two scripted USI engines living behind the process boundary: opening books, clocks and increments, "
        "byoyomi, resignation threshold, mate adjudication, move limit, pondering, kept processes, CSA and PGN output; the engines "
        "play legal moves biased towards mates and repetitions, resign, declare, play illegal moves, overstep the time. A model of the match "
        "predicts every command's content, the result of each game, the records and the totals. Non-trivial: a game lasted over four plies "
        "beyond the opening or ended by anything but resignation; distinct by the games.")
LINES = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib", "lines.json")))
NAMEW = ("a", "Z", "7", "-", "_", "b", "q")
BW = ("先手", "後手")


class Clock:
    def __init__(self):
        self.t = 1000.0

    def __call__(self):
        return self.t


class Player(usifake.Brain):
    def __init__(self, key, name, match):
        super().__init__(key, name)
        self.m = match

    def on_position(self, a):
        super().on_position(a)
        if a[:1] != ["startpos"]:
            self.err("position does not start from startpos")
        self.m.position(self)

    def on_setoption(self, a):
        self.m.commands.append((self.key, "setoption"))

    def on_isready(self, a):
        self.m.commands.append((self.key, "isready"))
        super().on_isready(a)

    def on_usinewgame(self, a):
        self.m.commands.append((self.key, "usinewgame"))

    def on_gameover(self, a):
        self.m.commands.append((self.key, "gameover"))

    def on_quit(self, a):
        self.m.commands.append((self.key, "quit"))
        super().on_quit(a)

    def go_args(self, a, ponder):
        self.m.go_args(self, a, ponder)

    def think(self):
        return self.m.think(self)

    def stopped(self):
        self.m.c.event("ponder missed")
        # whatever an interrupted search says must not be taken for a move or a score
        return ["info score mate 3 pv 7g7f", "bestmove 9i9h"]

    def on_ponderhit(self, a):
        self.m.hit(self)
        super().on_ponderhit(a)


class Match:
    def __init__(self, c):
        self.c = c
        self.clock = Clock()
        self.commands = []
        self.notes = []
        self.done = []          # finished games
        # settings
        self.games = c.weighted([(10, 1), (6, 2), (4, 3), (2, 4), (1, c.int(5, 9))])
        self.no_swap = c.prob(25)
        self.ponder = c.prob(25)
        self.keep = c.prob(40)
        self.resign = c.pick((100, 500, 1, 30000)) if c.prob(35) else None
        self.mate_win = c.prob(30)
        self.draw = c.weighted([(5, 256), (2, c.int(1, 30)), (1, c.int(30, 70))])
        self.byoyomi = self.per(c.pick((0, 1000, 3000))) if c.prob(35) else None
        self.time = self.per(c.pick((1000, 60000, 5000, 0))) if c.prob(50) else None
        self.inc = self.per(c.pick((0, 500, 2000))) if c.prob(40) else None
        self.openings = None
        self.opening_moves = 24
        if c.prob(70):
            self.openings = [self.opening() for _ in range(c.weighted([(5, 1), (1, 2), (1, 3)]))]
            self.opening_moves = c.weighted([(5, 100), (1, 24), (1, c.int(1, 40))])
        self.pct = c.pick((98, 98, 90, 50))
        self.quirk = c.pick((0, 3, 3, 10))   # how often something other than a move happens
        self.used = []
        self.begin()

    def per(self, v):
        k = self.c.draw(4)
        if k == 0:
            return v
        if k == 1:
            return [v]
        if k == 2:
            return (v, v * 2)
        return [v * 3, v]

    def opening(self):
        c = self.c
        k = c.draw(3)
        if k == 0:
            return list(c.pick(LINES["perp"]))
        if k == 1:
            return list(c.pick(LINES["mate"]))
        if k == 2:
            return [usi(m) for m in gen.playout(c, START, max_len=30)[1]]
        return []

    @staticmethod
    def one(v, e):
        """the setting for engine e"""
        if isinstance(v, (list, tuple)):
            return v[e] if len(v) > 1 else v[0]
        return v

    def begin(self):
        n = len(self.done)
        self.first = 0 if self.no_swap or n % 2 == 0 else 1     # the engine that plays Black
        self.h = None
        self.usis = []
        self.moves = []
        self.recs = []          # (comment, time) per move
        self.over = None
        self.remain = [self.one(self.time, self.first), self.one(self.time, 1 - self.first)]
        self.incs = [self.one(self.inc, self.first), self.one(self.inc, 1 - self.first)]
        self.open_len = 0
        self.pondering = {}

    # --- what the engines see
    def fail(self, s):
        self.players[0].errors.append(s + " in game %d after %s" % (len(self.done) + 1, " ".join(self.usis)))

    def start_position(self, moves):
        """the first position of a game: an opening, cut at opening_moves"""
        if self.openings is None:
            want = [[]]
        else:
            want = [o[:self.opening_moves] for o in self.openings]
        if moves not in want:
            self.fail("the game starts from %r instead of one of the openings" % moves)
        self.used.append(moves)
        self.h = Hist(Ref(START))
        for u in moves:
            ms, us = self.h.r.legal_usi()
            self.add(ms[us.index(u)], None, 0)
        self.open_len = len(moves)
        if not self.h.r.any_legal():
            self.fail("model: opening ends in mate")

    def add(self, m, comment, t):
        self.moves.append((self.h.r, m))
        self.usis.append(usi(m))
        self.recs.append((comment, t))
        self.h.play(m)

    def turn_of(self, p):
        return 0 if p is self.players[self.first] else 1

    def position(self, p):
        if self.h is None:
            self.start_position(p.moves)
            if self.openings is not None and self.h.r.ply > self.draw:
                self.fail("a move is asked for past the move limit")
        me = self.turn_of(p)
        if p.moves == self.usis and me == self.h.r.turn:
            return
        if self.ponder and me != self.h.r.turn and p.moves[:-1] == self.usis and p in self.expect and p.moves[-1] == self.expect[p]:
            p.thinking = "announced"
            return
        if self.over is not None:
            # the ponder position may still be sent before the end of the game is noticed
            p.thinking = "announced"
            return
        self.fail("%s (to move: %s) is given the position %s" % (p.key, self.players[self.first ^ self.h.r.turn].key, " ".join(p.moves)))

    expect = {}

    def go_args(self, p, a, ponder):
        want = {}
        me = self.turn_of(p)
        e = self.players.index(p)
        if self.remain[0] is not None:
            want["btime"] = str(self.remain[0])
        if self.remain[1] is not None:
            want["wtime"] = str(self.remain[1])
        by = self.one(self.byoyomi, e)
        if by is not None:
            want["byoyomi"] = str(by)
        else:
            if self.incs[0] is not None:
                want["binc"] = str(self.incs[0])
            if self.incs[1] is not None:
                want["winc"] = str(self.incs[1])
        got = dict(zip(a[::2], a[1::2]))
        if len(a) != 2 * len(got) or (got != want and not ponder):
            # (a ponder search is announced from another thread: the clocks may have moved on)
            self.fail("%s is sent 'go %s', expected %r" % (p.key, " ".join(a), want))
        if not ponder and me != self.h.r.turn:
            self.fail("%s is asked to move out of turn" % p.key)

    def hit(self, p):
        if self.expect.get(p) != (self.usis[-1] if self.usis else None):
            self.fail("ponderhit for %s, which pondered on %r" % (p.key, self.expect.get(p)))
        self.c.event("ponderhit")

    # --- what they answer, and what that means
    def think(self, p):
        c = self.c
        self.expect.pop(p, None)
        r = self.h.r
        me = r.turn
        if self.over is not None:
            self.fail("a move is asked for after the game is over")
            return ["bestmove resign"]
        if r.ply > self.draw:
            self.fail("a move is asked for past the move limit")
        m = None
        k = "move"
        if c.draw(99) < self.quirk:
            k = c.pick(("resign", "win", "illegal", "late"))
        mates = [x for x in r.checks() if not r.copy().apply(x).any_legal()]
        if k in ("move", "late"):
            m = c.pick(mates) if mates and c.prob(70) else repeating(c, self.h, self.moves_only(), self.pct)
            best = usi(m)
        elif k == "illegal":
            best = self.illegal(r)
        else:
            best = k
        # thinking time, exact in binary
        ms = c.weighted([(5, 0), (2, 1), (2, c.draw(2000)), (1, 999)])
        if k == "late":
            ms = c.pick((1000, 5000, 61000, 100000, 200000))
        if self.remain[me] is not None and (k == "late" or c.prob(4)) and c.prob(70):
            # just about the end of the allowance: the clock alone, with either engine's byoyomi, or halfway
            by = [self.one(self.byoyomi, i) or 0 for i in (0, 1)]
            left = self.remain[me] + (self.incs[me] or 0) + c.pick((0, 1000 + by[0], 1000 + by[1], 1000 + (by[0] + by[1]) // 2))
            ms = max(0, (left + c.int(-3, 3)) * 1024 // 1000)
            c.event("move at the end of the allowance")
        self.clock.t += ms / 1024.0
        # info lines
        out = []
        score = None
        info = None
        for _ in range(c.draw(2)):
            out.append(c.pick(("info string hello", "info depth 3 nodes 100", "info currmove 7g7f", "info depth 1 score cp 5000 pv 7g7f 3c3d",
                               "info depth 1 score mate -3 pv 7g7f", "")))
        if c.prob(70):
            score = c.pick(("cp 0", "cp 1", "cp -1", "cp 99", "cp -99", "cp -100", "cp -101", "cp -500", "cp 30000", "cp -30000", "cp +7", "mate 1",
                            "mate -2", "mate +", "mate -", "mate +5"))
            if self.mate_win and not c.prob(25) and score.startswith("mate") and not score.startswith("mate -"):
                score = "cp 321"
            if self.resign is not None and c.prob(70) and "-" in score:
                score = "cp 12"
            line = self.pv(r, m)
            extra = c.pick(("", " nodes 12 nps 3", " lowerbound"))
            out.append("info depth 9 multipv 1 score %s%s time 5 pv %s" % (score, extra, " ".join(line)))
            info = (score, line)
        else:
            out.append(c.pick(("info string bye", "info nodes 3")))
        pm = None
        if m is not None and c.prob(70):
            q = r.copy().apply(m)
            rep = q.legal()
            if rep:
                h2 = self.h.dup()
                h2.play(m)
                pm = usi(repeating(c, h2, self.moves_only() + [m], 98))
        if pm:
            out.append("bestmove %s ponder %s" % (best, pm))
            if self.ponder:
                self.expect[p] = pm
        else:
            out.append("bestmove " + best)
        self.notes.append("%s %s %s" % (best, info and info[0], ms))
        self.judge(p, me, m, best, ms, info)
        return out

    def moves_only(self):
        return [m for _, m in self.moves]

    def illegal(self, r):
        c = self.c
        for _ in range(20):
            k = c.draw(3)
            if k == 0:
                u = c.pick(("7g7e", "5i5a", "P*5e", "K*5e", "1a1a", "G*1a", "2h2a+", "8h2b+"))
            elif k == 1:
                u = c.pick(("xxxx", "none", "(none)", "7g", "0000", "7g7f++", "P*0a"))
            elif k == 2:
                ps = [m for m in r.pseudo() if not r.is_legal(m)]
                if not ps:
                    continue
                u = usi(c.pick(ps))
            else:
                u = usi(c.pick(r.legal())) + "+"
            if u not in r.legal_usi()[1] and u.rstrip("+") + "+" not in r.legal_usi()[1]:
                return u
        return "1a1a"

    def pv(self, r, m):
        c = self.c
        q = r.copy()
        line = []
        if m is not None:
            line.append(usi(m))
            q.apply(m)
        for _ in range(c.draw(4)):
            x = gen.pick_move(c, q)
            if x is None:
                break
            line.append(usi(x))
            q.apply(x)
        if not line or c.prob(20):
            line.append(c.pick(("1a1a", "xxx", "resign")))
            if c.prob(50):
                line.append("7g7f")
        return line

    def comment(self, r, info):
        if info is None:
            return ""
        score, line = info
        s = self.value(score) * (1 if r.turn == 0 else -1)
        q = r.copy()
        out = []
        for u in line:
            ms, us = q.legal_usi()
            if u not in us:
                break
            m = ms[us.index(u)]
            out.append("+-"[q.turn] + csa_text(q, m))
            q.apply(m)
        return " ".join([str(s)] + out[1:])

    @staticmethod
    def value(score):
        k, v = score.split()
        if k == "cp":
            return int(v)
        return -100000 if v[0] == "-" else 100000

    def judge(self, p, me, m, best, ms, info):
        """what must happen now"""
        r = self.h.r
        e = self.players.index(p)
        if self.remain[me] is not None:
            if self.incs[me] is not None:
                self.remain[me] += self.incs[me]
            self.remain[me] -= math.ceil(ms / 1024.0 * 1000)
            if self.remain[me] < 0:
                if self.remain[me] > -1000 - (self.one(self.byoyomi, e) or 0):
                    self.remain[me] = 0
                else:
                    return self.end(1 - me, "%TIME_UP", "切れ負け")
        v = None if info is None else self.value(info[0])
        if self.resign is not None and v is not None and v <= -self.resign:
            return self.end(1 - me, "%TORYO", "勝ち")
        if m is not None:
            com = self.comment(r, info)
            if self.mate_win and v == 100000:
                self.add(m, com, int(ms / 1024.0))
                if self.h.r.ply > self.draw and self.h.r.any_legal():
                    return self.end(None, None, None)
                return self.end(me, "%TORYO", "勝ち")
            self.add(m, com, int(ms / 1024.0))
            w = fourfold(self.h.plies, self.h.r.turn)
            if w is not None:
                if len(w) > 1 or self.h.verdict() not in w or self.h.r.ply > self.draw:
                    return self.end(None, None, None)
                w = w.pop()
                if w == cshogi.REPETITION_DRAW:
                    return self.end(2, "%SENNICHITE", "千日手")
                if w == cshogi.REPETITION_WIN:      # the mover gave perpetual check
                    return self.end(1 - me, "%+ILLEGAL_ACTION" if me == 0 else "%-ILLEGAL_ACTION", "反則勝ち")
                return self.end(me, "%ILLEGAL_MOVE", "反則負け")
            if not self.h.r.any_legal():
                return self.end(me, "%TORYO", "勝ち")
            if self.h.r.ply > self.draw:
                return self.end(2, "%JISHOGI", "持将棋")
            return
        if best == "resign":
            return self.end(1 - me, "%TORYO", "勝ち")
        if best == "win":
            return self.end(me, "%KACHI", "入玉宣言")
        return self.end(1 - me, "%ILLEGAL_MOVE", "反則負け")

    def end(self, win, code, text):
        self.over = (win, code, text)

    # --- after a game
    def finished(self, d):
        """the match reports a finished game"""
        c = self.c
        where = lambda: "game %d (%s; Black is engine %d; %s)" % (len(self.done) + 1, " ".join(self.usis), self.first + 1, self.notes[-3:])
        for p in self.players:
            c.check(not p.errors, lambda: "; ".join(p.errors))
        if self.h is None:
            # ended before anyone was asked: only the move limit can do that
            self.start_position(min([o[:self.opening_moves] for o in self.openings or [[]]], key=len))
            if len(self.openings or [[]]) > 1:
                self.usis = None
            self.over = (2, "%JISHOGI", "持将棋")
        c.check(self.over is not None, lambda: "the match stops while the game goes on, " + where())
        win, code, text = self.over
        if win is None:
            # left open: take over what the match says
            prev = self.done[-1]["totals"] if self.done else {"black_won": 0, "white_won": 0, "draw": 0}
            win = 0 if d["black_won"] > prev["black_won"] else 1 if d["white_won"] > prev["white_won"] else 2
        g = {"win": win, "code": code, "text": text, "moves": self.moves, "usis": self.usis, "recs": self.recs, "first": self.first, "open": self.open_len}
        self.done.append(g)
        g["totals"] = t = self.totals()
        g["label"] = code
        c.eq({k: d[k] for k in t}, t, lambda: "totals after " + where())
        self.begin()
        self.expect.clear()

    def totals(self):
        e = [0, 0, 0]
        b = [0, 0, 0]
        for g in self.done:
            b[g["win"]] += 1
            e[2 if g["win"] == 2 else g["win"] ^ g["first"]] += 1
        return {"engine1_won": e[0], "engine2_won": e[1], "black_won": b[0], "white_won": b[1], "draw": e[2], "total": len(self.done),
                "engine1_name": self.names[0], "engine2_name": self.names[1]}


def t_match(c):
    tmp = os.path.join(c.env.tmp, "c24-%d" % os.getpid())
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    c.cleanup.append(lambda: shutil.rmtree(tmp, ignore_errors=True))
    m = Match(c)
    m.expect = {}
    usifake.BRAINS.clear()
    m.players = [Player("fake-engine:1", "One" + gen.text(c, 0, 3, NAMEW), m), Player("fake-engine:2", "Two" + gen.text(c, 0, 3, NAMEW), m)]
    m.names = [p.name for p in m.players]
    names = None
    if c.prob(30):
        names = ["X" + gen.text(c, 0, 3, NAMEW) if c.prob(50) else None, "Y" + gen.text(c, 0, 3, NAMEW) if c.prob(50) else None]
        m.names = [a or b for a, b in zip(names, m.names)]
    opts = [{}, {}]
    for o in opts:
        if c.prob(30):
            o["Hash"] = c.pick((1, 64, "128"))
            if c.prob(50):
                o["Book_File"] = "no book"
    kw = dict(options1=opts[0], options2=opts[1], names=names, games=m.games, resign=m.resign, mate_win=m.mate_win, byoyomi=m.byoyomi, time=m.time,
              inc=m.inc, draw=m.draw, ponder=m.ponder, no_swap=m.no_swap, keep_process=m.keep)
    if m.openings is not None:
        path = os.path.join(tmp, "book.txt")
        with open(path, "w") as f:
            for o in m.openings:
                f.write("startpos moves " + " ".join(o) + "\n" if o else "startpos\n")
        kw.update(opening=path, opening_moves=m.opening_moves)
        if c.prob(30):
            kw["opening_seed"] = c.draw(1000)
        elif c.prob(20):
            i = c.draw(len(m.openings) - 1)
            kw["opening_index"] = i
            m.openings = [m.openings[i]]
    rec = c.draw(2)
    if rec == 1:
        kw.update(csa=os.path.join(tmp, "games.csa"), multi_csa=True)
    elif rec == 2 and m.games <= 2 and not (m.games == 2 and m.no_swap):
        os.makedirs(os.path.join(tmp, "csa"))
        kw.update(csa=os.path.join(tmp, "csa"))
    if c.prob(50):
        kw.update(pgn=os.path.join(tmp, "games.pgn"), no_pgn_moves=c.prob(20))
    kw["print_summary"] = not c.prob(20)
    kw["is_display"] = c.prob(5)
    kw["debug"] = c.prob(5)
    stop_at = c.int(1, m.games) if c.prob(15) else None
    calls = []

    def callback(d):
        calls.append(d)
        m.finished(d)
        return not (stop_at is not None and len(calls) >= stop_at)

    c.note("%r" % {k: v for k, v in kw.items() if v not in (None, False, {})})
    out = io.StringIO()
    import random
    random.seed(c.draw(1000))
    saved = time.perf_counter, getattr(cli, "perf_counter", None)
    time.perf_counter = m.clock
    if saved[1] is not None:
        cli.perf_counter = m.clock
    try:
        with contextlib.redirect_stdout(out):
            res = cli.main("fake-engine:1", "fake-engine:2", callback=callback, **kw)
    finally:
        time.perf_counter = saved[0]
        if saved[1] is not None:
            cli.perf_counter = saved[1]
        c.note(" | ".join(m.notes[-40:]))
    for p in m.players:
        c.check(not p.errors, lambda: "; ".join(p.errors))
        c.check(not p.alive, lambda: p.key + " is left running")
    n = stop_at or m.games
    c.eq(len(m.done), n, "number of games played")
    t = m.totals()
    c.eq({k: res[k] for k in t}, t, "the result of the match")
    # every opening is used once per round of pairs
    if m.openings is not None and all(g["usis"] is not None for g in m.done):
        starts = [g["usis"][:g["open"]] for g in m.done]
        for i in range(0, n - 1, 2):
            c.eq(starts[i + 1], starts[i], "both games of a pair start from one opening")
        rest = []
        for x in [tuple(x) for x in starts[::2]]:
            rest = rest or [tuple(o[:m.opening_moves]) for o in m.openings]
            c.check(x in rest, lambda: "an opening is repeated before the others are used: %r" % (x,))
            rest.remove(x)
    commands(c, m, opts, n)
    printed(c, m, out.getvalue(), kw["print_summary"])
    records(c, m, kw, tmp)
    labels = {g["label"] or "open" for g in m.done}
    c.event(*labels)
    if m.ponder:
        c.event("ponder")
    if any(g["usis"] and len(g["usis"]) > g["open"] + 4 for g in m.done) or labels - {"%TORYO"}:
        c.nontrivial(tuple(" ".join(g["usis"] or []) + str(g["code"]) for g in m.done))


def commands(c, m, opts, n):
    for i, p in enumerate(m.players):
        mine = [x for k, x in m.commands if k == p.key]
        so = ["setoption"] * (len(opts[i]) + (1 if m.ponder else 0))
        per = so + ["isready", "usinewgame", "gameover"]
        want = (per * n + ["quit"]) if m.keep else (per + ["quit"]) * n
        c.eq(mine, want, lambda: "commands to " + p.key)
        c.eq(p.starts, 1 if m.keep else n, lambda: "times %s is started" % p.key)
        sent = [x for x in p.log if x.startswith("setoption")]
        exp = ["setoption name %s value %s" % kv for kv in opts[i].items()]
        if m.ponder:
            exp = ["setoption name USI_Ponder value true"] + exp
        c.eq(sorted(sent), sorted(exp * n), lambda: "options sent to " + p.key)


def printed(c, m, text, summary):
    ends = re.findall(r"まで(\d+)手で(.*)", text)
    c.eq(len(ends), len(m.done), "number of results printed")
    for (k, s), g in zip(ends, m.done):
        if g["usis"] is not None:
            c.eq(int(k), len(g["usis"]), lambda: "number of moves printed (%s)" % s)
        w = g["text"]
        if w is None:
            continue
        if w == "勝ち":
            w = BW[g["win"]] + "の勝ち"
        elif w == "反則勝ち":
            w = BW[g["win"]] + "の反則勝ち"
        elif w in ("反則負け", "切れ負け"):
            w = BW[1 - g["win"]] + "の" + w
        c.eq(s, w, "result printed")
    if not summary:
        return
    t = m.totals()
    rows = re.findall(r"^(.*): (\d+)-(\d+)-(\d+) \((.*)%\)$", text, re.M)
    c.eq(len(rows), 6 * len(m.done), "summary lines")
    a, b = m.names
    e = {}
    for who in (0, 1):
        for col in (0, 1):
            gs = [g for g in m.done if (g["first"] ^ who) == col]
            e[who, col] = (sum(g["win"] == col for g in gs), sum(g["win"] == 1 - col for g in gs), sum(g["win"] == 2 for g in gs))
    want = [("%s vs %s" % (a, b), (t["engine1_won"], t["engine2_won"], t["draw"])), ("Black vs White", (t["black_won"], t["white_won"], t["draw"])),
            (a + " playing Black", e[0, 0]), (a + " playing White", e[0, 1]), (b + " playing Black", e[1, 0]), (b + " playing White", e[1, 1])]
    for (name, x, y, z, pc), (wn, wv) in zip(rows[-6:], want):
        c.eq((name, (int(x), int(y), int(z))), (wn, wv), "summary line")
        if sum(wv):
            c.check(abs(float(pc) - 100 * (wv[0] + wv[2] / 2) / sum(wv)) <= 0.051, lambda: "percentage in '%s: %s-%s-%s (%s%%)'" % (name, x, y, z, pc))
    el = re.findall(r"Elo difference: (\S+) \+/- (\S+), LOS: (\S+) %, DrawRatio: (\S+) %", text)
    if t["engine1_won"] and t["engine2_won"]:
        mu = (t["engine1_won"] + t["draw"] / 2) / t["total"]
        c.check(bool(el) and abs(float(el[-1][0]) + 400 * math.log10(1 / mu - 1)) <= 0.051, lambda: "Elo difference printed: %r for %r" % (el, t))
        c.check(abs(float(el[-1][3]) - 100 * t["draw"] / t["total"]) <= 0.051, lambda: "draw ratio printed: %r for %r" % (el, t))


def records(c, m, kw, tmp):
    known = [g for g in m.done]
    if kw.get("csa"):
        if kw.get("multi_csa"):
            with open(kw["csa"], encoding="utf-8") as f:
                text = f.read()
            ps = cshogi.Parser.parse_str(text)
        else:
            ps = []
            fs = os.listdir(kw["csa"])
            for g in m.done:
                stem = "+".join([m.names[g["first"]], m.names[1 - g["first"]]]) + "+"
                mine = [x for x in fs if x.startswith(stem)]
                c.eq(len(mine), 1, lambda: "CSA files of " + stem)
                ps += cshogi.Parser.parse_file(os.path.join(kw["csa"], mine[0]), encoding="utf-8")
        c.eq(len(ps), len(m.done), "games in the CSA records")
        for i, (p, g) in enumerate(zip(ps, m.done)):
            w = lambda x: lambda: "CSA record of game %d: %s" % (i + 1, x)
            c.eq(p.names, [m.names[g["first"]], m.names[1 - g["first"]]], w("names"))
            if g["usis"] is None:
                continue
            c.eq([cshogi.move_to_usi(x) for x in p.moves], g["usis"], w("moves"))
            c.eq([x or "" for x in p.comments], [x or "" for x, _ in g["recs"]], w("comments"))
            c.eq(list(p.times)[:len(g["recs"])], [x for _, x in g["recs"]], w("times"))
            if g["code"] is not None:
                c.eq(p.endgame, g["code"], w("end"))
                c.eq(p.win, (cshogi.BLACK_WIN, cshogi.WHITE_WIN, cshogi.DRAW)[g["win"]], w("winner"))
    if kw.get("pgn"):
        with open(kw["pgn"], encoding="utf-8") as f:
            gs = pgn.read(f.read())
        c.eq(len(gs), len(m.done), "games in the PGN file")
        for i, ((tags, toks), g) in enumerate(zip(gs, m.done)):
            tags = dict(tags)
            c.eq((tags["White"], tags["Black"], tags["Round"]), (m.names[g["first"]], m.names[1 - g["first"]], str(i + 1)), "PGN tags of game %d" % (i + 1))
            c.eq(tags["Result"], ("1-0", "0-1", "1/2-1/2")[g["win"]], "PGN result of game %d" % (i + 1))
            if g["usis"] is None:
                continue
            want = []
            if not kw["no_pgn_moves"]:
                for k, (r, x) in enumerate(g["moves"]):
                    if k % 2 == 0:
                        want.append("%d." % (k // 2 + 1))
                    want.append(pgn.san(r, x))
                if g["moves"]:
                    want.append(tags["Result"])
            c.eq(toks, want, "PGN moves of game %d" % (i + 1))


TESTS = [Test("match", t_match, 1500)]


# --- the command line

class Stop(BaseException):
    pass


def command_line(argv, on_main, seed):
    """runs python -m cshogi.cli in this process; on_main sees the settings of every match it starts"""
    import random
    import runpy
    import inspect

    def prof(frame, event, arg):
        if event == "call" and frame.f_code.co_name == "main" and frame.f_code.co_filename == cli.__file__:
            on_main({k: frame.f_locals[k] for k in PARAMS if k in frame.f_locals})

    out = io.StringIO()
    old = sys.argv
    sys.argv = ["cshogi.cli"] + argv
    random.seed(seed)
    sys.setprofile(prof)
    try:
        with contextlib.redirect_stdout(out), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            runpy.run_module("cshogi.cli", run_name="__main__")
    except Stop:
        pass
    finally:
        sys.setprofile(None)
        sys.argv = old
    return out.getvalue()


PARAMS = ("engine1", "engine2", "options1", "options2", "names", "games", "resign", "mate_win", "byoyomi", "time", "inc", "draw", "ponder", "no_swap", "opening",
          "opening_moves", "opening_seed", "opening_index", "keep_process", "csa", "multi_csa", "pgn", "no_pgn_moves", "is_display", "debug", "print_summary")


def options_arg(c):
    o = {}
    for k in ("Hash", "Book File", "Threads", "Path"):
        if c.prob(30):
            o[k] = c.pick(("1", "64", "C:/x:y", "", "no book"))
    return o, ",".join("%s:%s" % kv for kv in o.items())


def times_arg(c, n):
    k = c.draw(2)
    if k == 0:
        return None
    return [c.draw(5000) for _ in range(1 if k == 1 else n)]


def flags_arg(c, argv, want, skip=()):
    for opt, key, vals in (("--resign", "resign", (1, 3000)), ("--draw", "draw", (0, 50, 320)), ("--opening-moves", "opening_moves", (0, 5, 30)),
                           ("--opening-seed", "opening_seed", (0, 7)), ("--opening-index", "opening_index", (0, 1)),
                           ("--pgn", "pgn", ("x.pgn", "a b.pgn")), ("--opening", "opening", ("book.txt",))):
        if key not in skip and c.prob(35):
            v = c.pick(vals)
            argv += [opt, str(v)]
            want[key] = v
    for opt, key in (("--mate-win", "mate_win"), ("--ponder", "ponder"), ("--no-swap", "no_swap"), ("--keep-process", "keep_process"), ("--multi-csa", "multi_csa"),
                     ("--no-pgn-moves", "no_pgn_moves"), ("--display", "is_display"), ("--debug", "debug")):
        if key not in skip and c.prob(30):
            argv.append(opt)
            want[key] = True


DEFAULTS = dict(games=1, resign=None, mate_win=False, byoyomi=None, time=None, inc=None, draw=256, ponder=False, no_swap=False, opening=None, opening_moves=24,
                opening_seed=None, opening_index=None, keep_process=False, csa=None, multi_csa=False, pgn=None, no_pgn_moves=False, is_display=False, debug=False,
                print_summary=True, options1={}, options2={})


def same(a, b):
    """settings that mean the same to a match"""
    f = lambda v: (v[0], v[0]) if isinstance(v, (list, tuple)) and len(v) == 1 else tuple(v) if isinstance(v, (list, tuple)) else v
    a, b = f(a), f(b)
    if isinstance(a, tuple) != isinstance(b, tuple):
        a, b = [x if isinstance(x, tuple) else (x, x) for x in (a, b)]
    return a == b


def t_args(c):
    """the settings on the command line are the settings of the match"""
    argv = ["fake-engine:1", "fake-engine:2"]
    want = dict(DEFAULTS, engine1=argv[0], engine2=argv[1])
    for i in (1, 2):
        o, s = options_arg(c)
        if s:
            argv += ["--options%d" % i, s]
            want["options%d" % i] = o
    names = [None, None]
    for i in (1, 2):
        if c.prob(40):
            names[i - 1] = c.pick(("A", "b c", "エンジン"))
            argv += ["--name%d" % i, names[i - 1]]
    want["names"] = names
    for k in ("byoyomi", "time", "inc"):
        v = times_arg(c, 2)
        if v:
            argv += ["--" + k] + [str(x) for x in v]
            want[k] = v
    if c.prob(60):
        want["games"] = c.int(1, 9)
        argv += ["--games", str(want["games"])]
    if c.prob(30):
        tmp = os.path.join(c.env.tmp, "c24a-%d" % os.getpid())
        c.cleanup.append(lambda: shutil.rmtree(tmp, ignore_errors=True))
        want["csa"] = tmp
        argv += ["--csa", tmp]
    flags_arg(c, argv, want)
    got = []

    def on_main(d):
        got.append(d)
        raise Stop()

    c.note(" ".join(argv))
    command_line(argv, on_main, 1)
    c.eq(len(got), 1, "number of matches started")
    g = got[0]
    if g["names"] is None and names == [None, None]:
        g["names"] = names
    for k, v in want.items():
        c.check(same(g[k], v), lambda: "%s: the match gets %r instead of %r" % (k, g[k], v))
    if want["csa"] and not want["multi_csa"]:
        c.check(os.path.isdir(want["csa"]), "the directory for the records is missing")
    c.nontrivial(tuple(argv))


class Simple(usifake.Brain):
    """plays a few moves, then does something final"""

    def __init__(self, key, name, lg):
        super().__init__(key, name)
        self.lg = lg

    def on_usinewgame(self, a):
        self.lg.new(self)

    def go_args(self, a, ponder):
        self.lg.go(self, dict(zip(a[::2], a[1::2])))

    def think(self):
        return self.lg.think(self)


class League:
    def __init__(self, c):
        self.c = c
        self.games = []         # {players: [black, white], win}
        self.cur = []

    def new(self, p):
        if not self.cur or len(self.cur) == 2:
            self.cur = []
        self.cur.append(p)
        if len(self.cur) == 2:
            self.games.append({"pair": tuple(sorted(x.key for x in self.cur)), "black": None, "win": None, "moves": 0, "open": None})

    def go(self, p, a):
        g = self.games[-1]
        if g["black"] is None:
            # asked first: even number of moves played means Black
            g["black"] = p if len(p.moves) % 2 == 0 else [x for x in self.cur if x is not p][0]
            g["open"] = list(p.moves)
            b = g["black"]
            w = [x for x in self.cur if x is not b][0]
            i, j = self.players.index(b), self.players.index(w)
            want = {}
            if self.times:
                want["btime"], want["wtime"] = str(self.times[i]), str(self.times[j])
            if self.byos:
                want["byoyomi"] = str(self.byos[self.players.index(p)])
            elif self.incs:
                want["binc"], want["winc"] = str(self.incs[i]), str(self.incs[j])
            if a != want:
                p.err("clocks %r, expected %r" % (a, want))
            if p is not (b if len(p.moves) % 2 == 0 else w):
                p.err("asked out of turn")

    def think(self, p):
        c = self.c
        g = self.games[-1]
        black = g["black"] is p
        r = Ref(START)
        for u in p.moves:
            ms, us = r.legal_usi()
            r.apply(ms[us.index(u)])
        k = c.draw(5)
        lost = 1 if black else 0
        if k == 0:
            g["win"] = lost
            return ["bestmove resign"]
        if k == 1:
            g["win"] = 1 - lost
            return ["bestmove win"]
        if k == 2:
            g["win"] = lost
            return ["bestmove 1a1a"]
        m = gen.pick_move(c, r)
        r.apply(m)
        if not r.any_legal():
            g["win"] = 1 - lost
        elif r.ply > self.draw:
            g["win"] = 2
        return ["bestmove " + usi(m)]


def t_league(c):
    """three engines: every pair meets with both colours in every round, with its own settings, and all games are counted"""
    lg = League(c)
    usifake.BRAINS.clear()
    lg.players = [Simple("fake-engine:%d" % i, "Name%d" % i, lg) for i in (1, 2, 3)]
    names = [p.name for p in lg.players]
    argv = [p.key for p in lg.players]
    opts = []
    for i in range(3):
        o, s = options_arg(c)
        opts.append(o)
        if s:
            argv += ["--options%d" % (i + 1), s]
        if c.prob(30):
            names[i] = "L" + gen.text(c, 1, 3, NAMEW)
            argv += ["--name%d" % (i + 1), names[i]]
    three = lambda v: v * 3 if v and len(v) == 1 else v
    vs = {}
    for k in ("byoyomi", "time", "inc"):
        v = times_arg(c, 3)
        if v:
            argv += ["--" + k] + [str(x) for x in v]
        vs[k] = three(v)
    lg.byos, lg.times, lg.incs = vs["byoyomi"], vs["time"], vs["inc"]
    games = c.int(1, 5)
    argv += ["--games", str(games)]
    lg.draw = c.weighted([(2, 256), (3, c.int(1, 8))])
    argv += ["--draw", str(lg.draw)]
    if c.prob(50):
        argv.append("--keep-process")
    openings = None
    if c.prob(50):
        openings = [["7g7f"], ["2g2f", "8c8d"], ["1g1f", "1c1d", "9g9f"], []][:c.int(1, 4)]
        path = os.path.join(c.env.tmp, "c24l-%d.txt" % os.getpid())
        c.cleanup.append(lambda: os.path.exists(path) and os.remove(path))
        with open(path, "w") as f:
            for o in openings:
                f.write("startpos moves " + " ".join(o) + "\n" if o else "startpos\n")
        argv += ["--opening", path]
        if c.prob(30):
            argv += ["--opening-seed", str(c.draw(9))]
        if lg.draw < 5:
            lg.draw = 5
            argv += ["--draw", "5"]
    started = []
    c.note(" ".join(argv))
    # the clock stands still
    saved = time.perf_counter
    time.perf_counter = Clock()
    try:
        out = command_line(argv, started.append, c.draw(1000))
    finally:
        time.perf_counter = saved
    for p in lg.players:
        c.check(not p.errors, lambda: "; ".join(p.errors))
        c.check(not p.alive, lambda: p.key + " is left running")
    rounds = (games + 1) // 2
    c.eq(len(lg.games), 6 * rounds, "number of games")
    tot = {(0, 1): [0, 0, 0], (0, 2): [0, 0, 0], (1, 2): [0, 0, 0]}
    tables = re.findall(r"^(\S+) vs (\S+): (\d+)-(\d+)-(\d+) \((.*)%\)$", out, re.M)
    c.eq(len(tables), 3 * rounds, "result lines")
    firsts = []
    for k in range(rounds):
        gs = lg.games[6 * k:6 * k + 6]
        for g in gs:
            c.check(g["black"] is not None and g["win"] is not None, "a game of the league stops early")
        want = sorted((x, y) for x in (0, 1, 2) for y in (0, 1, 2) if x != y)
        col = []
        for g in gs:
            i, j = [int(x[-1]) - 1 for x in g["pair"]]
            b = lg.players.index(g["black"])
            w = i + j - b
            col.append((b, w))
            t = tot[(i, j)]
            if g["win"] == 2:
                t[2] += 1
            else:
                t[0 if (b, w)[g["win"]] == i else 1] += 1
        c.eq(sorted(col), want, "who meets whom with which colour in round %d" % (k + 1))
        if openings is not None:
            c.eq(len({tuple(g["open"]) for g in gs}), 1, "openings of round %d" % (k + 1))
            c.check(gs[0]["open"] in openings, lambda: "opening %r" % gs[0]["open"])
            firsts.append(tuple(gs[0]["open"]))
        else:
            c.check(all(g["open"] == [] for g in gs), "a game does not start from the starting position")
        for (pair, t), (a, b, x, y, z, pc) in zip(sorted(tot.items()), tables[3 * k:]):
            c.eq((a, b, int(x), int(y), int(z)), (names[pair[0]], names[pair[1]]) + tuple(t), "results after round %d" % (k + 1))
            c.check(abs(float(pc) - 100 * (t[0] + t[2] / 2) / sum(t)) <= 0.051, lambda: "percentage %s for %r" % (pc, t))
    if openings is not None:
        seen = firsts[:len(openings)]
        c.eq(len(set(seen)), len(seen), "an opening comes back before the others were played")
    for i, p in enumerate(lg.players):
        sent = {x for x in p.log if x.startswith("setoption")}
        c.eq(sent, {"setoption name %s value %s" % kv for kv in opts[i].items()}, lambda: "options sent to " + p.key)
    c.nontrivial((tuple(argv), tuple(g["win"] for g in lg.games)))


TESTS += [Test("args", t_args, 300), Test("league", t_league, 300)]
