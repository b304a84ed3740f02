"""Web matches and the web viewer (cshogi.web.app): rules, move lists, records, routes and the board drawn in the browser."""
import contextlib
import html
import io
import json
import math
import os
import re
import shutil
import subprocess
import time
import usifake
import cshogi
import prop_C24
from prop_C24 import Match, Player, NAMEW, LINES
with contextlib.redirect_stdout(io.StringIO()):
    from cshogi.web import app as web
from pbt import Test, Discard
import gen
import jp
from ref import Ref, START, usi, m_to, m_from, m_drop, m_pro
from util import enc, csa as csa_text
from hist import Hist, fourfold, repeating

RULE = ("a case is a match played by cshogi.web.app.match between scripted USI engines and scripted human input (stale, early, wrong-numbered, illegal and "
        "legal), a CSA record opened in the viewer, a sequence of requests to its routes, a page run in a stand-in browser and clicked through, or a game stepped through the browser's board. "
        "Non-trivial: more than four plies were played, or the game ended by anything but resignation; distinct by the game.")
SYM = "▲△"
BW = ("先手", "後手")


def pv_text(r, prev, line):
    """KIF text of a USI line up to its first illegal move"""
    q = r.copy()
    out = []
    for u in line:
        ms, us = q.legal_usi()
        if u not in us:
            break
        m = ms[us.index(u)]
        out.append(SYM[q.turn] + jp.kif(q, m, prev))
        q.apply(m)
        prev = m
    return " ".join(out)


class Web(Match):
    """the same match model with the web match's rules: one game, no clock losses, no resignation threshold"""

    def __init__(self, c):
        super().__init__(c)
        self.games, self.no_swap, self.ponder, self.keep, self.resign, self.mate_win, self.openings = 1, False, False, True, None, False, None
        self.byoyomi = c.pick((0, 1000, 3000)) if c.prob(35) else None
        self.time = c.pick((1000, 60000, 5000, 0)) if c.prob(50) else None
        self.inc = c.pick((0, 500, 2000)) if c.prob(40) else None
        self.draw = c.weighted([(5, 256), (2, c.int(0, 30)), (1, c.int(30, 70))])
        self.lead = list(c.pick(LINES["perp"] + LINES["mate"])) if c.prob(70) else []
        self.human = {"number": 0, "move": None}
        self.sleeps = 0
        self.entries = []
        self.begin()

    def begin(self):
        super().begin()
        self.h = Hist(Ref(START))

    # --- choosing moves: mostly along a known line first, so that mates and repetitions are reached
    def choose(self):
        r = self.h.r
        c = self.c
        n = len(self.usis)
        if n < len(self.lead) and self.usis == self.lead[:n] and c.draw(99) >= 1:
            ms, us = r.legal_usi()
            return ms[us.index(self.lead[n])]
        mates = [x for x in r.checks() if not r.copy().apply(x).any_legal()]
        return c.pick(mates) if mates and c.prob(70) else repeating(c, self.h, self.moves_only(), self.pct)

    def illegal(self, r):
        return super().illegal(r)

    def think(self, p):
        c = self.c
        r = self.h.r
        if self.over is not None:
            self.fail("a move is asked for after the game is over")
            return ["bestmove resign"]
        if r.ply > self.draw:
            self.fail("a move is asked for past the move limit")
        following = len(self.usis) < len(self.lead)
        m, k = None, "move"
        if not following and c.draw(99) < self.quirk:
            k = c.pick(("resign", "win", "illegal"))
        if k == "move":
            m = self.choose()
            best = usi(m)
        else:
            best = self.illegal(r) if k == "illegal" else k
        ms = c.weighted([(5, 0), (2, 1), (2, c.draw(2000)), (1, 1024), (1, 100000)])
        self.clock.t += ms / 1024.0
        out, info = [], None
        for _ in range(c.draw(1)):
            out.append(c.pick(("info string hello", "info depth 1 score cp 5000 pv 7g7f 3c3d", "")))
        if c.prob(60):
            score = c.pick(("cp 0", "cp 1", "cp -1", "cp 99", "cp -30000", "cp +7", "mate 1", "mate -2", "mate +", "mate -"))
            info = (score, self.pv(r, m))
            out.append("info depth 9 multipv 1 score %s nodes 1 pv %s" % (score, " ".join(info[1])))
        elif out or c.prob(50):
            out.append("info nodes 3")
        out.append("bestmove " + best + (" ponder 7g7f" if c.prob(10) else ""))
        self.notes.append("%s %s" % (best, info and info[0]))
        self.record(m, best, ms, info)
        # a human may answer before the engine has moved: what counts is the number the input is for
        if self.over is None and c.prob(20) and self.is_human[self.h.r.turn] and self.h.r.ply <= self.draw:
            self.offer()
        return out

    def record(self, m, best, ms, info):
        r = self.h.r
        me = r.turn
        if self.remain[me] is not None:
            if self.inc is not None:
                self.remain[me] += self.inc
            self.remain[me] -= math.ceil(ms / 1024.0 * 1000)
        if m is None:
            if best == "resign":
                return self.end(1 - me, "%TORYO", SYM[me] + "投了")
            if best == "win":
                return self.end(me, "%KACHI", SYM[me] + "入玉宣言")
            return self.end(1 - me, "%ILLEGAL_MOVE", BW[me] + "の反則負け")
        prev = self.moves[-1][1] if self.moves else None
        v = None if info is None else self.value(info[0])
        self.entries.append({"number": r.ply, "kif_move": SYM[me] + jp.kif(r, m, prev), "time": math.ceil(ms / 1024.0), "move": enc(r, m),
                             "eval": "null" if v is None else v * (1 - 2 * me), "pv": "" if info is None else pv_text(r, prev, info[1])})
        self.add(m, self.comment(r, info), int(ms / 1024.0))
        w = fourfold(self.h.plies, self.h.r.turn)
        if w is not None:
            if len(w) > 1 or self.h.verdict() not in w or self.h.r.ply > self.draw:
                return self.end(None, None, None)
            w = w.pop()
            if w == cshogi.REPETITION_DRAW:
                return self.end(2, "%SENNICHITE", "千日手")
            if w == cshogi.REPETITION_WIN:
                return self.end(1 - me, "%+ILLEGAL_ACTION" if me == 0 else "%-ILLEGAL_ACTION", BW[1 - me] + "の反則勝ち")
            return self.end(me, "%ILLEGAL_MOVE", BW[1 - me] + "の反則負け")
        if not self.h.r.any_legal():
            return self.end(me, "%TORYO", SYM[1 - me] + "投了")
        if self.h.r.ply > self.draw:
            return self.end(2, "%JISHOGI", "持将棋")

    # --- human input
    def sleep(self, s):
        """the match waits for input: time passes and the page may send something"""
        c = self.c
        self.sleeps += 1
        if self.sleeps > 5000:
            raise AssertionError("the match goes on waiting for input it has been given: %r after %s" % (self.human, " ".join(self.usis)))
        if self.over is not None:
            raise AssertionError("the match waits for a move after the game is over: " + " ".join(self.usis))
        if not self.is_human[self.h.r.turn]:
            raise AssertionError("the match waits for a human while %s is to move" % self.players[self.h.r.turn].key)
        # (in steps that add up exactly)
        s = math.ceil(s * 8) / 8
        self.clock.t += s
        self.waited += s
        self.offer()

    waited = 0.0

    def offer(self):
        c = self.c
        r = self.h.r
        k = c.weighted([(10, "move"), (1, "number"), (1, "junk"), (1, "illegal"), (1, "none")])
        if k == "none":
            return
        if k == "number":
            self.human["move"] = usi(c.pick(r.legal()))
            self.human["number"] = c.pick((0, r.ply - 1, r.ply + 1, r.ply + 2, r.ply - 2, 1000))
            return
        u = usi(self.choose()) if k == "move" else c.pick(("xxx", "", "resign", "7g7f7f", "0000", "P*0a")) if k == "junk" else self.illegal(r)
        self.human["move"], self.human["number"] = u, r.ply
        if k == "move":
            self.notes.append("human " + u)
            ms, us = r.legal_usi()
            self.entry_from_human(ms[us.index(u)])

    def entry_from_human(self, m):
        w, self.waited = self.waited, 0.0
        n = len(self.entries)
        self.record(m, usi(m), w * 1024, None)
        if len(self.entries) > n:
            self.entries[-1]["human"] = True
        self.human_time = True

    human_time = False


class WebPlayer(Player):
    pass


def t_match(c):
    tmp = os.path.join(c.env.tmp, "c26-%d" % os.getpid())
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    c.cleanup.append(lambda: shutil.rmtree(tmp, ignore_errors=True))
    m = Web(c)
    m.expect = {}
    usifake.BRAINS.clear()
    m.is_human = [c.prob(25), c.prob(25)]
    m.players = [WebPlayer("fake-engine:1", "One" + gen.text(c, 0, 3, NAMEW), m), WebPlayer("fake-engine:2", "Two" + gen.text(c, 0, 3, NAMEW), m)]
    paths = ["human" if m.is_human[i] else m.players[i].key for i in (0, 1)]
    given = ["X" + gen.text(c, 0, 3, NAMEW) if c.prob(30) else None for _ in (0, 1)]
    names = [given[i] or ("Human" if m.is_human[i] else m.players[i].name) for i in (0, 1)]
    opts = [{}, {}]
    for i, o in enumerate(opts):
        if not m.is_human[i] and c.prob(30):
            o["Hash"] = c.pick((1, 64, "128"))
            if c.prob(50):
                o["Book_File"] = "no book"
    path = os.path.join(tmp, "game.csa") if c.prob(60) else None
    moves = []
    c.note("%r" % dict(human=m.is_human, byoyomi=m.byoyomi, time=m.time, inc=m.inc, draw=m.draw, lead=len(m.lead)))
    got = list(given)
    saved = time.perf_counter, time.sleep
    time.perf_counter, time.sleep = m.clock, m.sleep
    if m.is_human[0] or m.is_human[1]:
        m.clock.t = 0.0
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            web.match(moves, paths[0], paths[1], opts[0], opts[1], got, m.byoyomi, m.time, m.inc, m.draw, m.human, path)
    finally:
        time.perf_counter, time.sleep = saved
        c.note(" | ".join(m.notes[-40:]))
    for p in m.players:
        c.check(not p.errors, lambda: "; ".join(p.errors))
        c.check(not p.alive, lambda: p.key + " is left running")
    where = " after %s (%s)" % (" ".join(m.usis), m.notes[-3:])
    if m.h.r.ply > m.draw and m.over is None:
        m.over = (2, "%JISHOGI", "持将棋")
    c.check(m.over is not None, lambda: "the match stops while the game goes on" + where)
    c.eq(list(got), names, "names")
    # the list of moves
    c.eq(len(moves), len(m.entries) + 1, lambda: "number of entries" + where)
    for g, w in zip(moves, m.entries):
        w = dict(w)
        g = dict(g)
        if w.pop("human", False):
            c.check(abs(g["time"] - w["time"]) <= 1, lambda: "time of entry %r" % g)
            g["time"] = w["time"]
        c.eq(g, w, lambda: "entry of move %d%s" % (w["number"], where))
    last = dict(moves[-1])
    win, code, text = m.over
    want = {"number": len(m.usis) + 1, "kif_move": text, "time": 0, "move": 0, "eval": "null", "pv": ""}
    if code is None:
        want["kif_move"] = last["kif_move"]
    c.eq(last, want, lambda: "last entry" + where)
    # the record
    if path:
        ps = cshogi.Parser.parse_file(path, encoding="utf-8")
        c.eq(len(ps), 1, "games in the record")
        p = ps[0]
        c.eq(p.names, names, "names in the record")
        c.eq([cshogi.move_to_usi(x) for x in p.moves], m.usis, "moves in the record")
        c.eq([x or "" for x in p.comments], [x or "" for x, _ in m.recs], "comments in the record")
        ts = [x for _, x in m.recs]
        gs = list(p.times)[:len(ts)]
        c.check(len(gs) == len(ts) and all(a == b or (abs(a - b) <= 1 and e.get("human")) for a, b, e in zip(gs, ts, m.entries)),
                lambda: "times in the record %r, expected %r" % (gs, ts))
        if code is not None:
            c.eq(p.endgame, code, "end in the record")
            c.eq(p.win, (cshogi.BLACK_WIN, cshogi.WHITE_WIN, cshogi.DRAW)[win], "winner in the record")
    # the protocol
    for i, p in enumerate(m.players):
        mine = [x for k, x in m.commands if k == p.key]
        if m.is_human[i]:
            c.eq((mine, p.starts), ([], 0), "a human's place is taken by an engine")
            continue
        c.eq(mine, ["setoption"] * len(opts[i]) + ["isready", "usinewgame", "quit"], lambda: "commands to " + p.key)
        c.eq(sorted(x for x in p.log if x.startswith("setoption")), sorted("setoption name %s value %s" % kv for kv in opts[i].items()), "options sent to " + p.key)
    c.event(code or "open", "humans %d" % sum(m.is_human))
    if len(m.usis) > 4 or code != "%TORYO":
        c.nontrivial((" ".join(m.usis), code, tuple(m.is_human)))


# --- the viewer

class Captured(Exception):
    pass


class Server:
    def __init__(self, host, port, app):
        self.app = app
        Server.last = self

    def serve_forever(self, *a, **kw):
        pass


def serve(**kw):
    """the Flask application run() would serve"""
    saved = web.make_server
    web.make_server = Server
    Server.last = None
    try:
        web.run(**kw)
    finally:
        web.make_server = saved
    Server.last.app.testing = True
    return Server.last.app.test_client()


WEBW = NAMEW + ('"', "'", "\\", "<", ">", "&")


def page(c, text):
    """names, moves and flags in the page: None for what the page does not hold under its name"""
    v = dom(c, do="load", html=text)
    q = dom(c, do="vars")["vars"]
    names, moves = q["names"], q["moves"]
    text = lambda x: html.unescape(x) if isinstance(x, str) else x
    if moves is not None:
        moves = [{"number": e["number"], "kif_move": text(e["kif_move"]), "time": e["time"], "move": e["move"],
                  "eval": "null" if e["eval"] is None else e["eval"], "pv": text(e["pv"])} for e in moves]
    flags = [q["isMatch"], q["autoupdate"], q["human"]]
    if None in (names, moves, *flags):
        raise Discard("the page keeps its data under other names")
    return [text(x) for x in names], moves, flags, v


ENDS = {"%TORYO": "投了", "%CHUDAN": "中断", "%SENNICHITE": "千日手", "%TIME_UP": "切れ負け", "%ILLEGAL_MOVE": "反則負け", "%JISHOGI": "持将棋",
        "%KACHI": "入玉宣言", "%+ILLEGAL_ACTION": "反則勝ち", "%-ILLEGAL_ACTION": "反則勝ち"}


def t_replay(c):
    r = Ref(START)
    ms = gen.playout(c, START, max_len=c.weighted([(1, 3), (3, 30), (1, 120)]))[1]
    if c.prob(5):
        ms = []
    rs = [r.copy()]
    for m in ms:
        rs.append(rs[-1].copy().apply(m))
    lines = ["V2.2", "N+" + gen.text(c, 0, 4, WEBW), "N-" + gen.text(c, 0, 4, WEBW), "PI", "+"]
    want = []
    prev = None
    for i, m in enumerate(ms):
        mover = r.turn
        lines.append("+-"[mover] + csa_text(r, m))
        e = {"number": i + 1, "kif_move": SYM[mover] + jp.kif(r, m, prev), "time": 0, "move": enc(r, m), "eval": "null"}
        r.apply(m)
        k = c.draw(9)
        line, alt = [], None
        if k >= 5:
            e["eval"] = c.pick((0, 1, -1, 100000, -100000, -3000, 77))
            q = r.copy()
            words, p2 = [], m
            for _ in range(c.draw(3)):
                x = gen.pick_move(c, q)
                if x is None:
                    break
                words.append("+-"[q.turn] + csa_text(q, x))
                # "same square" may or may not be abbreviated
                line.append({SYM[q.turn] + jp.kif(q, x, p2), SYM[q.turn] + jp.kif(q, x, None)})
                q.apply(x)
                p2 = x
            lines.append("'** " + " ".join([str(e["eval"])] + words))
        elif k == 4:
            t = c.pick(("good", "a b", "良い手", "7776FU", "+ -", "x", 'a "b" c', "c:\\x \\u c:\\x", "p </script> <b>"))
            e["alt"] = t
            if c.prob(50):
                lines[-1] += ",'" + t
            else:
                lines.append("'** " + t)
        if c.prob(60):
            e["time"] = c.pick((0, 1, 59, 3600))
            lines.append("T%d" % e["time"])
        e["line"] = line
        want.append(e)
        prev = m
    end = c.pick(sorted(ENDS)) if not c.prob(10) else c.pick((None, "%MATTA", "%TSUMI", "%HIKIWAKE", "%ERROR", "%FUZUMI"))
    if end:
        lines.append(end)
    path = os.path.join(c.env.tmp, "c26-%d.csa" % os.getpid())
    with open(path, "w", encoding="utf-8") as f:
        f.write("\n".join(lines) + "\n")
    c.cleanup.append(lambda: os.path.exists(path) and os.remove(path))
    c.note("\n".join(lines))
    cl = serve(csa=path)
    for _ in range(c.int(1, 2)):
        res = cl.get("/" + c.pick(("", "?autoupdate=true")))
        c.eq(res.status_code, 200, "status of the page")
        names, got, flags, v = page(c, res.get_data(as_text=True))
        given = [lines[1][2:], lines[2][2:]]
        c.eq(names, given, "names on the page")
        c.eq(flags, [False, False, ""], "the page of a finished game")
        pg = Page(c, cl, given, lambda: got)
        pg.v = v
        pg.told(rs, ms, 0)
        if given[0] and given[0] != "None":
            pg.judge("on opening a record")
            for _ in range(c.draw(3)):
                pg.walk()
        if end in ENDS or end is not None:
            c.eq(len(got), len(want) + 1, "number of entries on the page")
            z = got[-1]
            c.eq((z["number"], z["time"], z["move"], z["eval"], z["pv"]), (len(ms) + 1, 0, 0, "null", ""), "last entry")
            if end in ENDS:
                c.eq(z["kif_move"], SYM[len(ms) % 2] + ENDS[end], "result of %s" % end)
        else:
            c.check(len(got) in (len(want), len(want) + 1), lambda: "%d entries on the page for %d moves" % (len(got), len(want)))
        for g, w in zip(got, want):
            w = dict(w)
            line, alt, pv = w.pop("line"), w.pop("alt", None), g.pop("pv")
            c.eq(g, w, lambda: "entry of move %d" % w["number"])
            if alt is None:
                ws = pv.split(" ") if pv else []
                c.check(len(ws) == len(line) and all(a in b for a, b in zip(ws, line)), lambda: "line of move %d: %r, expected %r" % (w["number"], pv, line))
    c.event("end %s" % (end if end in ENDS else "other"))
    if len(ms) > 4:
        c.nontrivial(tuple(ms))


class Shared(dict):
    """the dictionary shared with the match process; what a reader could see is checked after every write"""
    watch = None

    def __setitem__(self, k, v):
        super().__setitem__(k, v)
        if self.watch:
            self.watch(dict(self))

    def update(self, *a, **kw):
        super().update(*a, **kw)
        if self.watch:
            self.watch(dict(self))


class FakeManager:
    def list(self, x=()):
        return list(x)

    def dict(self, x=()):
        return Shared(x)


class FakeProcess:
    def __init__(self, target=None, args=(), kwargs={}, **kw):
        self.target, self.args, self.kwargs = target, list(args), dict(kwargs)
        self.alive = False
        FakeProcess.last = self

    def start(self):
        self.alive = True

    def is_alive(self):
        return self.alive


def t_routes(c):
    """what the page and its requests say about a running match, and what reaches the match"""
    import inspect
    import multiprocessing
    human = [c.prob(50), c.prob(50)]
    given = ["N" + gen.text(c, 0, 3, WEBW) if c.prob(50) else None for _ in (0, 1)]
    conf = dict(engine1="human" if human[0] else "fake-engine:1", engine2="human" if human[1] else "fake-engine:2", byoyomi=c.pick((None, 1000)), time=c.pick((None, 5000)),
                inc=c.pick((None, 7)), draw=c.pick((256, 320)), options1={"A": "1"}, options2={"B": 2}, csa=c.pick((None, "/nonexistent/x.csa")))
    saved = multiprocessing.Process, multiprocessing.Manager, time.sleep
    multiprocessing.Process, multiprocessing.Manager, time.sleep = FakeProcess, FakeManager, lambda s: None
    try:
        cl = serve(name1=given[0], name2=given[1], **conf)
        p = FakeProcess.last
        c.check(p.alive, "the match is not started")
        a = inspect.signature(p.target).bind(*p.args, **p.kwargs)
        a.apply_defaults()
        a = a.arguments
        c.eq({k: a[k] for k in conf}, conf, "settings given to the match")
        names, moves, inp = a["names"], a["moves"], a["human_input"]
        c.eq(list(names), given, "names given to the match")
        for i in (0, 1):
            names[i] = given[i] or ("Human" if human[i] else "Engine%d" % i)
        r = Ref(START)
        prev = None
        for _ in range(c.int(1, 12)):
            k = c.draw(4)
            if k <= 2:
                m = gen.pick_move(c, r)
                if m is not None:
                    moves.append({"number": r.ply, "kif_move": SYM[r.turn] + jp.kif(r, m, prev), "time": c.draw(50), "move": enc(r, m),
                                  "eval": c.pick(("null", 3, -7)), "pv": c.pick(("", SYM[r.turn] + jp.kif(r, m, prev)))})
                    r.apply(m)
                    prev = m
            who = ("black", "white")[r.turn] if human[r.turn] else ""
            k = c.draw(2)
            if k == 0:
                ns, es, flags, _ = page(c, cl.get("/").get_data(as_text=True))
                c.eq((ns, es, flags), (list(names), moves, [True, True, who]), "the page of a running match")
            elif k == 1:
                c.eq(cl.get("/update").get_json(), {"names": list(names), "moves": moves, "human": who}, "/update")
            else:
                u = usi(c.pick(r.legal()))
                n = c.pick((r.ply, r.ply, r.ply + 1, 0))
                seen = []
                inp.watch = seen.append
                res = cl.get("/move?number=%d&move=%s" % (n, u.replace("+", "%2B")))
                inp.watch = None
                c.eq((inp["number"], inp["move"]), (n, u), "input that reaches the match")
                bad = [s for s in seen if s["number"] == n and s["move"] != u]
                c.check(not bad, lambda: "for a moment the match sees %r for the request %d %s" % (bad, n, u))
                c.eq(res.get_json(), {"names": list(names), "moves": moves, "human": who}, "/move")
        # over
        moves.append({"number": r.ply, "kif_move": "千日手", "time": 0, "move": 0, "eval": "null", "pv": ""})
        p.alive = False
        ns, es, flags, _ = page(c, cl.get("/").get_data(as_text=True))
        c.eq((ns, es, flags), (list(names), moves, [True, False, ""]), "the page of a finished match")
    finally:
        multiprocessing.Process, multiprocessing.Manager, time.sleep = saved
    if len(moves) > 5:
        c.nontrivial((tuple(m["move"] for m in moves), tuple(human)))


# --- the browser's board

NODE_SRC = r"""
const fs = require('fs'), vm = require('vm');
let src = fs.readFileSync(process.argv[2], 'utf8').replace(/^\uFEFF/, '');
const make = vm.runInThisContext('(function(){' + src + '\nreturn new Board();})');
const b = make();
let buf = '';
process.stdin.on('data', d => {
  buf += d;
  let i;
  while ((i = buf.indexOf('\n')) >= 0) {
    const q = JSON.parse(buf.slice(0, i)); buf = buf.slice(i + 1);
    let out = [];
    b.reset();
    for (let k = 0; k <= q.moves.length; k++) {
      if (k > 0) b.move(q.moves[k - 1]);
      if (q.at.includes(k)) out.push(b.to_svg(q.scale, q.mirror));
    }
    process.stdout.write(JSON.stringify(out) + '\n');
  }
});
"""
IDS = [None] + ["pawn", "lance", "knight", "silver", "bishop", "rook", "gold", "king", "pro-pawn", "pro-lance", "pro-knight", "pro-silver", "horse", "dragon"]
KANJI = "〇一二三四五六七八九十"
HAND = {0: "歩", 1: "香", 2: "桂", 3: "銀", 4: "金", 5: "角", 6: "飛"}
LETTER = dict(zip("歩香桂銀金角飛", "PLNSGBR"))
_node = None


def node(q):
    global _node
    if _node is None or _node.poll() is not None:
        path = os.path.join(os.path.dirname(web.__file__), "static", "board.js")
        _node = usifake.REAL(["node", "-e", NODE_SRC, "x", path], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
    _node.stdin.write(json.dumps(q).encode() + b"\n")
    _node.stdin.flush()
    return json.loads(_node.stdout.readline())


def drawn(c, svg, r, last, where):
    """the picture shows the position r, reached by the move last"""
    got = dict()
    for u, ref, x, y in re.findall(r'<use id="(\w+)" xlink:href="#([\w-]+)" x="([\d.]+)" y="([\d.]+)"', svg):
        got[u] = (ref, float(x), float(y))
    empty = {u: (None, float(x), float(y)) for u, x, y in re.findall(r'<rect id="(\w+)" x="([\d.]+)" y="([\d.]+)"', svg)}
    c.check(len(got) + len(empty) == 81 and not set(got) & set(empty), lambda: "81 squares are not shown " + where)
    got.update(empty)
    for sq in range(81):
        f, rank = divmod(sq, 9)
        u = "%d%s" % (f + 1, "abcdefghi"[rank])
        pc = r.s.b[sq]
        want = None if not pc else ("white-" if pc & 16 else "black-") + IDS[pc & 15]
        c.eq(got.get(u), (want, 20.5 + (8 - f) * 20, 10.5 + rank * 20), lambda: "square %s %s" % (u, where))
    # hands: text running down (Black) or up (White) the side
    texts = re.findall(r'<text(?: id="([\w-]*)")? font-family="serif" font-size="([\d.]+)" x="(-?[\d.]+)" y="(-?[\d.]+)"( transform="rotate\(180\)")?>(.)</text>', svg)
    for col in (0, 1):
        mine = [(float(y), t, i) for i, _, x, y, tr, t in texts if float(x) == (-16 if col else 214)]
        mine.sort()
        s = "".join(t for _, t, _ in mine)
        want = "☗☖"[col] + "先後"[col] + "手"
        for hp in range(6, -1, -1):
            n = r.hands()[col][hp]
            if n:
                want += HAND[hp] + ("" if n == 1 else KANJI[n] if n <= 10 else "十" + KANJI[n - 10])
        c.eq(s, want, lambda: "hand of %s %s" % (("Black", "White")[col], where))
        for _, t, i in mine:
            if t in LETTER:
                c.eq(i, ("black-", "white-")[col] + LETTER[t], "id of a piece in hand")
    lit = [(float(x), float(y)) for x, y in re.findall(r'<rect x="([\d.]+)" y="([\d.]+)" width="20" height="20" fill="#f', svg)]
    want = []
    if last is not None:
        pt = lambda sq: (20.5 + (8 - sq // 9) * 20, 10.5 + sq % 9 * 20)
        want.append(pt(m_to(last)))
        if not m_drop(last):
            want.append(pt(m_from(last)))
    c.eq(lit, want, "squares of the last move " + where)


def t_browser(c):
    k = c.draw(5)
    if k == 1:
        ms = gen.robbery(c)[1]
    elif k == 0:
        ms = []
        q = Ref(START)
        for u in c.pick(LINES["mate"]):
            x, us = q.legal_usi()
            ms.append(x[us.index(u)])
            q.apply(ms[-1])
    else:
        ms = gen.playout(c, START, max_len=c.pick((10, 60, 200, 400)))[1]
    at = sorted({len(ms)} | {c.int(0, len(ms)) for _ in range(3)})
    rs = [Ref(START)]
    for m in ms:
        rs.append(rs[-1].copy().apply(m))
    mirror = c.prob(50)
    svgs = node({"moves": [enc(rs[i], m) for i, m in enumerate(ms)], "at": at, "scale": 1.5, "mirror": mirror})
    for k, svg in zip(at, svgs):
        r = rs[k]
        where = "after %s" % " ".join(usi(m) for m in ms[:k])
        drawn(c, svg, r, ms[k - 1] if k else None, where)
    if len(ms) > 4:
        c.nontrivial(tuple(ms))

# --- the whole page in a browser

_dom = None


def dom(c, **q):
    """one action in the page, and what it then shows"""
    global _dom
    if _dom is None or _dom.poll() is not None:
        lib = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib", "page.js")
        _dom = usifake.REAL(["node", lib, os.path.join(os.path.dirname(web.__file__), "static", "board.js")], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
    _dom.stdin.write(json.dumps(dict(q, rows=True)).encode() + b"\n")
    _dom.stdin.flush()
    v = json.loads(_dom.stdout.readline())
    if "UNSUPPORTED" in v.get("error", ""):
        c.event("page not judged: " + v["error"].split("\n")[0])
        raise Discard("the page uses what the stand-in browser lacks")
    c.check("error" not in v, lambda: "the page's script fails at %r: %s" % (q.get("do"), v["error"]))
    return v


def seen(h):
    """the text a browser shows for the HTML"""
    return html.unescape(re.sub(r"<[^>]*>", "", h))


def cells(h):
    return [seen(x) for x in re.findall(r"<td\b[^>]*>(.*?)</td>", h, re.S)]


class Page:
    """what the page ought to show: the entries it was last told of, and the number chosen"""

    def __init__(self, c, cl, names, tell):
        self.c, self.cl, self.names, self.tell = c, cl, names, tell
        self.es, self.rs, self.ms = [], [Ref(START)], []
        self.cur = 0
        self.v = None

    def told(self, rs, ms, cur=None):
        self.es = [dict(e) for e in self.tell()]
        self.rs, self.ms = list(rs), list(ms)
        self.cur = len(self.es) if cur is None else cur

    def do(self, **q):
        self.v = dom(self.c, **q)
        return self.v

    def judge(self, what):
        c, v, es = self.c, self.v, self.es
        c.eq(seen(v["names"]).split(), ("▲%s △%s" % tuple(self.names)).split(), lambda: "names shown " + what)
        rows = [cells(x) for x in re.findall(r"<tr\b[^>]*>(.*?)</tr>", v["rows"], re.S)]
        c.eq(rows, [[str(e["number"]), e["kif_move"], "%d秒" % e["time"]] for e in es], lambda: "rows of moves shown " + what)
        n = self.cur
        if es and n == len(es) and es[-1]["move"] == 0:
            n -= 1
        drawn(c, v["board"], self.rs[n], self.ms[n - 1] if n else None, "%s, at move %d of %d" % (what, self.cur, len(es)))
        if es:
            c.eq(v["active"], [self.cur - 1] if self.cur else [], lambda: "row marked " + what)
        # the evaluation and line of the last two movers, each in its own box
        for k in (n - 1, n - 2):
            want = ["", ""]
            if k >= 0:
                e = es[k]
                want = ["" if e["eval"] in (None, "null") else str(e["eval"]), e["pv"]]
            c.eq(cells(v[("black", "white")[k % 2]]), want, lambda: "evaluation and line of move %d shown %s" % (k + 1, what))

    def walk(self):
        """choose another move to look at"""
        c, top = self.c, len(self.es)
        k = c.draw(5)
        if k == 0:
            self.do(do="click", id="btn-first")
            self.cur = 0
        elif k == 1:
            self.do(do="click", id="btn-last")
            self.cur = top
        elif k == 2:
            self.do(do="click", id="btn-back")
            self.cur = max(0, self.cur - 1)
        elif k == 3:
            self.do(do="click", id="btn-next")
            self.cur = min(top, self.cur + 1)
        elif k == 4 and top:
            i = c.draw(top - 1)
            self.do(do="row", i=i)
            self.cur = i + 1
        else:
            i = c.draw(top)
            if c.prob(20):
                self.do(do="type", text=str(top + 1))       # no such move
                if top:
                    self.judge("on choosing a move past the last")
            self.do(do="type", text=str(i))
            self.cur = i
        if top:
            self.judge("on choosing a move")


def entry(c, r, m, prev):
    n = c.draw(4)
    pv, q, p = [], r.copy(), prev
    x = m
    for _ in range(n):
        if x is None:
            break
        pv.append(SYM[q.turn] + jp.kif(q, x, p))
        q.apply(x)
        p, x = x, gen.pick_move(c, q)
    return {"number": r.ply, "kif_move": SYM[r.turn] + jp.kif(r, m, prev), "time": c.draw(5000), "move": enc(r, m),
            "eval": c.pick(("null", 0, 3, -7, 31999, -12000)) if not c.prob(20) else c.int(-4000, 4000), "pv": " ".join(pv)}


def t_page(c):
    """the page of a running match, in a browser: what it shows, and the requests a human's clicks make"""
    import inspect
    import multiprocessing
    from urllib.parse import urlencode
    human = [c.prob(60), c.prob(60)]
    given = ["N" + gen.text(c, 0, 3, WEBW) for _ in (0, 1)]
    saved = multiprocessing.Process, multiprocessing.Manager, time.sleep
    multiprocessing.Process, multiprocessing.Manager, time.sleep = FakeProcess, FakeManager, lambda s: None
    try:
        cl = serve(engine1="human" if human[0] else "fake-engine:1", engine2="human" if human[1] else "fake-engine:2", name1=given[0], name2=given[1])
        p = FakeProcess.last
        a = inspect.signature(p.target).bind(*p.args, **p.kwargs)
        a.apply_defaults()
        a = a.arguments
        names, moves, inp = a["names"], a["moves"], a["human_input"]
        for i in (0, 1):
            names[i] = given[i] if c.prob(70) else ("Human" if human[i] else "Engine%d" % i)
        rs, ms = [Ref(START)], []

        def play(m):
            moves.append(entry(c, rs[-1], m, ms[-1] if ms else None))
            ms.append(m)
            rs.append(rs[-1].copy().apply(m))

        lead = gen.playout(c, START, max_len=c.pick((4, 60, 200)), bias=c.pick((None, "capture", "promote")))[1]
        for m in lead:
            play(m)
        pg = Page(c, cl, list(names), lambda: moves)
        v = pg.do(do="load", html=cl.get("/").get_data(as_text=True))
        pg.told(rs, ms)
        pg.judge("on the page of a running match")
        who = lambda: ("black", "white")[rs[-1].turn] if human[rs[-1].turn] else ""
        turn = who()            # whose turn the page was told it is
        on = turn == ""         # asks for news by itself

        def answer(v):
            """the server's answer to what the page asked"""
            nonlocal turn, on
            q = v["asked"][0]
            res = cl.get(q["url"] + ("?" + urlencode(q["data"]) if q["data"] else ""))
            pg.do(do="reply", data=res.get_json())
            pg.told(rs, ms)
            turn = who()
            if moves and moves[-1]["move"] == 0:
                on = False
            pg.judge("after news of the match")

        nt = 0
        for _ in range(c.int(1, 8)):
            k = c.draw(5)
            if k == 0:
                pg.walk()
            elif k == 1 and turn:
                # a piece of the other side, or nothing, is not taken up
                r = rs[-1]
                other = [sq for sq in range(81) if not r.s.b[sq] or (r.s.b[sq] >> 4) != (turn == "white")]
                f, k2 = divmod(c.pick(other), 9)
                pg.do(do="press", id="%d%s" % (f + 1, "abcdefghi"[k2]))
                c.eq(pg.v["asked"], [], "asked for on touching another's piece")
            elif k <= 3 and turn and pg.rs[-1].any_legal():
                r = pg.rs[-1]
                x, us = r.legal_usi()
                if c.prob(60):
                    # a kind of move first: the piece, the rank it comes from and goes to, and whether it promotes
                    kinds = {}
                    for m in x:
                        kinds.setdefault((m_from(m) if m_drop(m) else (r.s.b[m_from(m)], m_from(m) % 9), m_to(m) % 9, m_pro(m)), []).append(m)
                    far = (0, 1, 2) if r.turn == 0 else (8, 7, 6)
                    ks = [k for k in kinds if k[1] in far and type(k[0]) is tuple and k[0][0] & 15 < 7] if c.prob(50) else None
                    m = c.pick(kinds[c.pick(ks or list(kinds))])
                else:
                    m = gen.pick_move(c, r, bias=c.pick((None, "promote", "drop")))
                u = usi(m)
                late = pg.cur != len(pg.es)
                frm = ("%s-%s" % (turn, u[0])) if m_drop(m) else u[:2]
                pg.do(do="press", id=frm)
                shift = m_pro(m) and c.prob(30)
                v = pg.do(do="press", id=u[2:4], shift=bool(shift))
                if late:
                    c.eq((v["asked"], v["confirms"]), ([], 0), "asked for by clicks on an earlier position")
                    continue
                if not shift and v["confirms"]:
                    c.check(u[:4] in us and u[:4] + "+" in us, lambda: "promotion of %s is asked about" % u)
                    c.eq(v["asked"], [], "asked for before the choice of promotion")
                    v = pg.do(do="confirm", yes=bool(m_pro(m)))
                c.eq([(q["url"], q["type"].upper(), {k: str(z) for k, z in q["data"].items()}) for q in v["asked"]],
                     [("/move", "GET", {"number": str(len(pg.es) + 1), "move": u})], lambda: "asked for by the clicks for %s in %s" % (u, r.sfen()))
                if c.prob(90):
                    play(m)
                    nt += 1
                    if not human[rs[-1].turn] and c.prob(30) and rs[-1].any_legal():
                        play(gen.pick_move(c, rs[-1]))
                answer(v)
                c.eq((inp["number"], inp["move"]), (len(pg.es) + 1 if not nt else inp["number"], u), "input that reaches the match")
                if not turn and (not moves or moves[-1]["move"]):
                    on = True
                c.event("human move")
            else:
                # the match goes on, and the page asks for news
                over = False
                if not human[rs[-1].turn] and c.prob(70):
                    if c.prob(10) or not rs[-1].any_legal():
                        moves.append({"number": rs[-1].ply, "kif_move": c.pick(("千日手", SYM[rs[-1].turn] + "投了")), "time": 0, "move": 0, "eval": "null", "pv": ""})
                        over = True
                    else:
                        play(gen.pick_move(c, rs[-1]))
                auto = c.prob(50)
                v = pg.do(do="tick") if auto else pg.do(do="click", id="btn-update")
                if turn or (auto and not on):
                    c.eq(v["asked"], [], "asked for with a human to move, or with the game over")
                    if over:
                        break
                    continue
                c.eq([(q["url"], q["type"].upper()) for q in v["asked"]], [("/update", "GET")], "asked for by an update")
                answer(v)
                nt += 1
                if over:
                    # one more round may find out that it is over; then the page is quiet
                    v = pg.do(do="tick")
                    if v["asked"]:
                        pg.do(do="reply", data=cl.get("/update").get_json())
                    v = pg.do(do="tick")
                    c.eq(v["asked"], [], "asked for after the game is over")
                    c.event("over")
                    break
    finally:
        multiprocessing.Process, multiprocessing.Manager, time.sleep = saved
    if nt:
        c.nontrivial((tuple(ms), tuple(human), nt))



TESTS = [Test("match", t_match, 1200)]
if shutil.which("node"):
    TESTS.append(Test("replay", t_replay, 1500))
    TESTS.append(Test("routes", t_routes, 1500))
    TESTS.append(Test("browser", t_browser, 1500))
    TESTS.append(Test("page", t_page, 1500))


def t_args(c):
    """the settings on the command line are the settings of the match"""
    import runpy
    import sys
    import warnings
    argv = [c.pick(("fake-engine:1", "human")), c.pick(("fake-engine:2", "human"))]
    want = dict(engine1=argv[0], engine2=argv[1], options1={}, options2={}, name1=None, name2=None, byoyomi=None, time=None, inc=None, draw=256, csa=None,
                host="localhost", port=8000)
    for i in (1, 2):
        o, s = prop_C24.options_arg(c)
        if s:
            argv += ["--options%d" % i, s]
            want["options%d" % i] = o
    for opt, vals in (("name1", ("A", "b c")), ("name2", ("A", "x")), ("byoyomi", (0, 1000)), ("time", (0, 7)), ("inc", (0, 3)), ("draw", (0, 320)), ("csa", ("x.csa",)),
                      ("host", ("0.0.0.0",)), ("port", (81, 9999))):
        if c.prob(40):
            want[opt] = c.pick(vals)
            argv += ["--" + opt, str(want[opt])]
    got = []

    def prof(frame, event, arg):
        if event == "call" and frame.f_code.co_name == "run" and frame.f_code.co_filename == web.__file__:
            got.append({k: frame.f_locals[k] for k in want})
            raise prop_C24.Stop()

    c.note(" ".join(argv))
    old = sys.argv
    sys.argv = ["cshogi.web.app"] + argv
    sys.setprofile(prof)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            runpy.run_module("cshogi.web.app", run_name="__main__")
    except prop_C24.Stop:
        pass
    finally:
        sys.setprofile(None)
        sys.argv = old
    c.eq(got, [want], "settings of the match")
    c.nontrivial(tuple(argv))


TESTS.append(Test("args", t_args, 200))
