"""The USI engine client and its listeners."""
import contextlib
import io
import os
import shutil
import stat
import sys
import usifake
from cshogi.usi import Engine, InfoListener, MultiPVListener
from pbt import Test
import gen

RULE = ("a case is a session: commands issued to an Engine whose scripted counterpart answers with generated lines (noise before the awaited "
        "answer, information lines, moves with and without ponder move, sudden death), or a search output fed to the listeners. The model "
        "predicts the bytes sent, the values returned, the lines heard and the fields reported. A smaller test does the same over real "
        "processes. Non-trivial: the session has a search; distinct by transcript.")
MOVES = ("7g7f", "3c3d", "2g2f", "8c8d+", "P*5e", "B*4d", "8h2b+", "1a1b", "9i9h")
NOISE = ("info string hello", "info depth 3 nodes 1000", "", "info score cp 30 pv 7g7f", "option name X type check default true", "unknown thing",
         "info currmove 2g2f", "id author someone")


class Script(usifake.Brain):
    def __init__(self, key, c):
        super().__init__(key, "x")
        self.c = c
        self.said = []

    def say(self, l):
        self.said.append(l.strip())
        self.p.say(l)

    def got(self, raw):
        self.log.append(raw.decode())
        for l in self.reply.pop(0) if self.reply else []:
            if l is None:
                self.p.die()
                return
            self.say(l)


def noise(c):
    return [c.pick(NOISE) for _ in range(c.draw(3))]


def cut(c, lines):
    """the engine may die before the last line"""
    if c.prob(6):
        return lines[:c.draw(len(lines) - 1)] + [None], True
    return lines, False


def best(c):
    m = c.pick(MOVES + ("resign", "win"))
    p = c.pick(MOVES) if c.prob(50) else None
    return m, p, "bestmove " + m + (" ponder " + p if p else "")


def pad(c, l):
    return l + c.pick(("", "", "", " ", "\r"))


def t_session(c):
    usifake.BRAINS.clear()
    key = "fake-engine:s"
    b = Script(key, c)
    name = gen.text(c, 1, 6, ("a", "Z", "7", " ", "-", "."))
    heard = []
    use = c.draw(1)
    listen = heard.append if use else None
    kw = {"listener": listen} if use else {}
    searches = 0
    what = lambda: "after %r" % b.log
    e = Engine(key, connect=False)
    c.check(e.proc is None, "an engine not yet connected has no process")
    lines, dead = cut(c, noise(c) + ["id name " + name, "id author me"] + noise(c) + ["usiok"])
    b.reply = [[pad(c, l) if l is not None else None for l in lines]]

    def run(f, want_sent, dead, *a, **k):
        n = len(b.log)
        h = len(heard)
        s = len(b.said)
        k.update(kw)
        try:
            r = f(*a, **k)
        except EOFError:
            c.check(dead, lambda: "EOFError although the engine answered, %s" % what())
            return None, True
        c.check(not dead, lambda: "no EOFError although the engine died, %s" % what())
        c.eq(b.log[n:], want_sent, "bytes sent")
        if use:
            c.eq(heard[h], want_sent[0], "the listener hears the command")
            if f.__name__ != "connect":
                c.eq(heard[h + 1:], b.said[s:], lambda: "lines the listener hears, " + what())
        return r, False

    r, dead = run(e.connect, ["usi"], dead)
    if dead:
        return
    c.eq(e.name, name.strip() if name.strip() else e.name, "name of the engine")
    for _ in range(c.int(1, 10)):
        k = c.draw(10)
        if k == 0:
            lines, dead = cut(c, noise(c) + ["id name q", "usiok"])
            b.reply = [[pad(c, l) if l is not None else None for l in lines]]
            r, dead = run(e.usi, ["usi"], dead)
            if not dead:
                c.eq(r, [l.strip() for l in lines[:-1]], "lines returned by usi()")
        elif k == 1:
            n = c.pick(("Hash", "USI_Ponder", "Book File", "Eval_Dir"))
            v = c.pick((1, 1024, -5, "true", "no book", "", "/a b/c", 0))
            b.reply = [[]]
            r, dead = run(e.setoption, ["setoption name %s value %s" % (n, v)], False, n, v)
        elif k == 2:
            lines, dead = cut(c, noise(c) + ["readyok"])
            b.reply = [[pad(c, l) if l is not None else None for l in lines]]
            r, dead = run(e.isready, ["isready"], dead)
        elif k == 3:
            b.reply = [[]]
            f, t = c.pick(((e.usinewgame, "usinewgame"), (e.ponderhit, "ponderhit"), (e.stop, "stop"), (e.gameover, "gameover")))
            if t == "gameover" and c.prob(70):
                res = c.pick(("win", "lose", "draw"))
                r, dead = run(f, ["gameover " + res], False, res)
            else:
                r, dead = run(f, [t], False)
        elif k in (4, 5):
            ms = [c.pick(MOVES) for _ in range(c.draw(4))]
            b.reply = [[]]
            start = c.pick((None, "startpos", "sfen " + gen.SEEDS[0]))
            kws = {} if start is None else {"sfen": start}
            t = "position " + (start or "startpos") + (" moves " + " ".join(ms) if ms else "")
            if ms or c.prob(50):
                kws["moves"] = ms
            r, dead = run(e.position, [t], False, **kws)
        elif k == 6:
            arg = c.pick((None, 1000, 0))
            ans = c.pick(("nomate", "timeout", "notimplemented", "7g7f 3c3d 2g2f", "G*5b"))
            lines, dead = cut(c, noise(c) + ["checkmate " + ans])
            b.reply = [[pad(c, l) if l is not None else None for l in lines]]
            t = "go mate " + ("infinite" if arg is None else str(arg))
            r, dead = run(e.go_mate, [t], dead, **({} if arg is None else {"byoyomi": arg}))
            searches += 1
            if not dead:
                c.eq(r, ans, lambda: "go_mate()")
        else:
            a = {}
            t = "go"
            if c.prob(25):
                a["ponder"] = True
                t += " ponder"
            for n in ("btime", "wtime"):
                if c.prob(50):
                    a[n] = c.pick((0, 1, 60000, 3600000))
                    t += " %s %d" % (n, a[n])
            by = c.prob(40)
            if by:
                a["byoyomi"] = c.pick((0, 1000, 10000))
                t += " byoyomi %d" % a["byoyomi"]
            for n in ("binc", "winc"):
                if c.prob(40):
                    a[n] = c.pick((0, 1000, 5000))
                    if not by:
                        t += " %s %d" % (n, a[n])
            if c.prob(25):
                a["nodes"] = c.pick((1, 100000, 0))
                t += " nodes %d" % a["nodes"]
            m, p, l = best(c)
            lines, dead = cut(c, noise(c) + [l])
            b.reply = [[pad(c, l) if l is not None else None for l in lines]]
            r, dead = run(e.go, [t], dead, **a)
            searches += 1
            if not dead:
                c.eq(r, (m, p), lambda: "go() when the engine says %r" % l)
        if dead:
            return
        c.check(not b.p.lines, lambda: "lines left unread: %r, %s" % (list(b.p.lines), what()))
    b.reply = []
    old = b.got

    def bye(raw):
        old(raw)
        b.p.die()
    b.got = bye
    e.quit(**kw)
    c.eq(b.log[-1], "quit", "bytes sent")
    c.check(e.proc is None, "no process after quit")
    c.note(" / ".join(b.log))
    if searches:
        c.nontrivial(tuple(b.log) + tuple(b.said))


# ---------------------------------------------------------------- listeners
INTS = ("depth", "seldepth", "time", "nodes", "nps", "hashfull")


def info_line(c, first, multi=None):
    """(text, expected dict)"""
    d = {}
    parts = []
    fields = [f for f in INTS if c.prob(50)]
    fields = c.shuffle(fields)
    kind = c.weighted([(6, "cp"), (3, "mate"), (1, None)])
    at = c.draw(len(fields))
    for i in range(len(fields) + 1):
        if i == at and kind:
            if kind == "cp":
                v = c.pick((0, 1, -1, 123, -456, 30000, -30000))
                parts.append("score cp %d" % v)
            else:
                v = c.pick((1, 5, -2, "+", "-", 0, 9))
                parts.append("score mate %s" % v)
            d["score"] = kind
            d[kind] = v
            if c.prob(20):
                w = c.pick(("lowerbound", "upperbound"))
                parts.append(w)
                d[w] = True
        if i < len(fields):
            v = c.pick((0, 1, 7, 999999999, 12345678901))
            parts.append("%s %d" % (fields[i], v))
            d[fields[i]] = v
    if multi is not None:
        parts.insert(c.draw(len(parts)), "multipv %d" % multi)
        d["multipv"] = multi
    if c.prob(20):
        parts.append("currmove 5g5f")
        d["currmove"] = "5g5f"
    line = [first] + [c.pick(MOVES) for _ in range(c.draw(4))]
    d["pv"] = line
    return "info " + "".join(p + " " for p in parts) + "pv " + " ".join(line), d


def score_of(d, mate):
    if d is None:
        return None
    if d.get("score") == "cp":
        return d["cp"]
    if d.get("score") == "mate":
        v = d["mate"]
        return -mate if v == "-" or (v != "+" and v <= 0) else mate
    return None


def t_listen(c):
    heard = []
    mate = c.pick((100000, 32000, 1))
    chain = heard.append if c.prob(50) else None
    il = InfoListener(mate, chain) if mate != 100000 or chain else InfoListener()
    ml = MultiPVListener(chain) if c.prob(50) else MultiPVListener()
    allsaid = []
    for rnd in range(c.int(1, 3)):
        il.listen() is il or c.check(False, "listen() returns the listener")
        ml.listen() is ml or c.check(False, "listen() returns the listener")
        last, multi = {}, {}
        lines = []
        for _ in range(c.draw(8)):
            if c.prob(25):
                lines.append(c.pick(("info string hello", "info depth 3", "info currmove 7g7f", "info nodes 5 time 3", "", "go byoyomi 100")))
                continue
            f = c.pick(MOVES)
            k = (c.int(1, 3) if c.prob(60) else c.pick((9, 10, 11, 20, 100, 1000))) if c.prob(50) else None
            t, d = info_line(c, f, k)
            lines.append(t)
            last[f] = d
            if k is not None:
                multi[k] = d
        m, p, l = best(c)
        lines.append(l)
        heard.clear()
        for x in lines:
            il(x)
        if chain:
            c.eq(heard, lines, "the chained listener hears every line")
        for x in lines:
            ml(x)
        allsaid += lines
        w = last.get(m)
        c.eq(il.bestmove, m, lambda: "bestmove after %r" % lines)
        c.eq(il.info, w, lambda: "info after %r" % lines)
        c.eq(il.score, score_of(w, mate), lambda: "score after %r" % lines)
        c.eq(il.pv, w["pv"] if w else None, lambda: "pv after %r" % lines)
        c.eq(il.mate_score, mate, "mate_score")
        c.eq(ml.info, [multi[k] for k in sorted(multi)], lambda: "MultiPV info after %r" % lines)
    c.note("\n".join(allsaid))
    if any(x.startswith("info") for x in allsaid):
        c.nontrivial(tuple(allsaid))


# ---------------------------------------------------------------- real processes
SH = """#!/bin/sh
pwd -P > "$0.cwd"
while IFS= read -r l; do
  printf '%s\\n' "$l" >> "$0.log"
  case "$l" in
    usi) echo "id name Real engine"; echo "id author me"; echo usiok;;
    isready) echo "info string loading"; echo readyok;;
    "go mate"*) echo "checkmate nomate";;
    go*) echo "info depth 1 score cp 12 pv 7g7f 3c3d"; echo "bestmove 7g7f ponder 3c3d";;
    quit) exit 0;;
  esac
done
"""


def t_real(c):
    d = os.path.join(c.env.tmp, "c23-%d" % os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    c.cleanup.append(lambda: shutil.rmtree(d, ignore_errors=True))
    path = os.path.join(d, "engine.sh")
    with open(path, "w") as f:
        f.write(SH)
    os.chmod(path, stat.S_IRWXU)
    sent = ["usi"]
    quiet = io.StringIO()
    with contextlib.redirect_stdout(quiet):
        if c.prob(50):
            e = Engine(path, debug=c.prob(20))
        else:
            e = Engine(path, connect=False)
            e.connect()
        c.eq(e.name, "Real engine", "name")
        for _ in range(c.int(1, 6)):
            k = c.draw(4)
            if k == 0:
                e.isready()
                sent.append("isready")
            elif k == 1:
                e.position(["7g7f"])
                sent.append("position startpos moves 7g7f")
            elif k == 2:
                il = InfoListener()
                c.eq(e.go(byoyomi=100, listener=il.listen()), ("7g7f", "3c3d"), "go()")
                sent.append("go byoyomi 100")
                if not e.debug:
                    c.eq((il.bestmove, il.score, il.pv), ("7g7f", 12, ["7g7f", "3c3d"]), "listener")
            elif k == 3:
                c.eq(e.go_mate(), "nomate", "go_mate()")
                sent.append("go mate infinite")
            else:
                e.usinewgame()
                sent.append("usinewgame")
        e.quit()
        sent.append("quit")
    with open(path + ".log") as f:
        c.eq(f.read().split("\n")[:-1], sent, "commands the process received")
    with open(path + ".cwd") as f:
        c.eq(f.read().strip(), os.path.realpath(d), "the engine runs in its own directory")
    c.note(" / ".join(sent))
    c.nontrivial(tuple(sent))


TESTS = [Test("session", t_session, 8000), Test("listeners", t_listen, 12000), Test("process", t_real, 200)]
