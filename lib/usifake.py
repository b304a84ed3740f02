"""USI engines living in this process, behind subprocess.Popen.

Code under test that starts a process named "fake-engine:<key>" talks to a Brain object over pipes that behave like the
real ones: lines written arrive as commands, lines the brain says can be read, reading blocks until there is one or the
engine has quit.  Anything else is started for real."""
import collections
import subprocess
import threading

REAL = subprocess.Popen
BRAINS = {}
WAIT = 10.0


class Deadlock(Exception):
    pass


class Out:
    def __init__(self, p):
        self.p = p

    def readline(self, *a):
        p = self.p
        with p.cond:
            if not p.cond.wait_for(lambda: p.lines or p.dead, WAIT):
                p.brain.blocked = True
                raise Deadlock("waiting for a line the engine has no reason to send; commands were %s" % p.brain.tail())
            if p.lines:
                return p.lines.popleft()
            return b""

    def __iter__(self):
        return iter(self.readline, b"")

    def flush(self):
        pass

    def close(self):
        pass


class In:
    def __init__(self, p):
        self.p = p
        self.buf = b""

    def write(self, data):
        self.buf += data if isinstance(data, bytes) else data.encode()
        return len(data)

    def flush(self):
        while b"\n" in self.buf:
            l, self.buf = self.buf.split(b"\n", 1)
            if self.p.dead:
                raise BrokenPipeError()
            self.p.command(l)

    def close(self):
        self.flush()


class Proc:
    pid = 1
    returncode = None

    def __init__(self, brain, args, kw):
        self.brain = brain
        self.args = args
        self.cond = threading.Condition()
        self.lines = collections.deque()
        self.dead = False
        self.stdout = Out(self)
        self.stderr = Out(self)
        self.stdin = In(self)
        self.lock = threading.RLock()
        brain.start(self)

    def command(self, line):
        with self.lock:
            self.brain.got(line)

    def say(self, line):
        with self.cond:
            self.lines.append((line if isinstance(line, bytes) else line.encode()) + b"\n")
            self.cond.notify_all()

    def die(self):
        with self.cond:
            self.dead = True
            self.returncode = 0
            self.cond.notify_all()

    def poll(self):
        return self.returncode

    def wait(self, timeout=None):
        with self.cond:
            if not self.cond.wait_for(lambda: self.dead, WAIT):
                raise Deadlock("waiting for an engine to exit that was not told to; commands were %s" % self.brain.tail())
        return 0

    def kill(self):
        self.die()

    terminate = kill

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.die()


class Popen(REAL):
    def __new__(cls, args, *a, **kw):
        cmd = args if isinstance(args, str) else args[0]
        if isinstance(cmd, str) and cmd in BRAINS:
            return Proc(BRAINS[cmd], args, kw)
        return super().__new__(cls)


subprocess.Popen = Popen


class Brain:
    """An engine that answers the handshake; `think(ponder)` is called for every search and returns the lines to say."""
    name = "engine"

    def __init__(self, key, name):
        self.key, self.name = key, name
        self.log = []
        self.errors = []
        self.alive = False
        self.thinking = None        # "announced" when a ponder position has come, "ponder" while the search is running
        self.early = None
        self.moves = []
        self.blocked = False
        self.starts = 0
        BRAINS[key] = self

    def tail(self):
        return self.log[-8:]

    def start(self, p):
        self.p = p
        self.starts += 1
        if self.alive:
            self.errors.append("started twice")
        self.alive = True
        self.thinking = None
        self.early = None

    def err(self, s):
        self.errors.append("%s: %s (commands: %s)" % (self.key, s, self.tail()))

    def got(self, raw):
        line = raw.decode("utf-8", "replace").rstrip("\r")
        self.log.append(line)
        w = line.split(" ")
        if self.thinking and w[0] not in ("ponderhit", "stop") and not (self.thinking == "announced" and w[:2] == ["go", "ponder"]):
            self.err("'%s' is sent to an engine that is still pondering" % line)
        f = getattr(self, "on_" + w[0], None)
        if f is None:
            self.err("unknown command '%s'" % line)
        else:
            f(w[1:])

    def on_usi(self, a):
        self.p.say("id name " + self.name)
        self.p.say("id author x")
        self.p.say("usiok")

    def on_isready(self, a):
        self.p.say("readyok")

    def on_setoption(self, a):
        pass

    def on_usinewgame(self, a):
        pass

    def on_gameover(self, a):
        pass

    def on_quit(self, a):
        self.alive = False
        self.p.die()

    def on_position(self, a):
        self.pos = a
        self.moves = a[a.index("moves") + 1:] if "moves" in a else []

    def on_go(self, a):
        if a[:1] == ["ponder"]:
            self.go_args(a[1:], True)
            self.thinking = "ponder"
            if self.early:
                e, self.early = self.early, None
                (self.on_ponderhit if e == "hit" else self.on_stop)([])
            return
        self.go_args(a, False)
        for l in self.think():
            self.p.say(l)

    def on_ponderhit(self, a):
        if self.thinking != "ponder":
            # the search may still be on its way from another thread
            self.early = "hit"
            return
        self.thinking = None
        for l in self.think():
            self.p.say(l)

    def on_stop(self, a):
        if self.thinking != "ponder":
            self.early = "stop"
            return
        self.thinking = None
        for l in self.stopped():
            self.p.say(l)

    def stopped(self):
        return ["bestmove resign"]

    def go_args(self, a, ponder):
        pass

    def think(self):
        return ["bestmove resign"]
