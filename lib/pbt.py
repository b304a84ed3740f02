"""A small property-based testing engine.

A case is a function of a finite sequence of bounded integer choices.  Random cases draw the choices from a generator
seeded by (VERIF_SEED, property, test, case number); a failing case is shrunk by editing its choice sequence (deleting
blocks, lowering values) and re-running the very same function, and the shrunk sequence is what the replay file holds.
Cases run in forked workers, so a crash (signal, sanitizer abort) or an endless loop of the code under test is
observed, attributed to its case and shrunk like any other failure."""
import collections
import hashlib
import json
import mmap
import os
import random
import resource
import signal
import struct
import sys
import time
import traceback


class Fail(Exception):
    pass


class Discard(Exception):
    """The drawn choices do not make a valid case."""


class Case:
    __slots__ = ("prefix", "i", "rng", "choices", "nt", "notes", "events", "known_hits", "env", "scratch", "cleanup")

    def __init__(self, prefix=None, rng=None, env=None):
        self.prefix = prefix or []
        self.i = 0
        self.rng = rng
        self.choices = []
        self.nt = None
        self.notes = []
        self.events = []
        self.known_hits = []
        self.env = env
        self.scratch = {}
        self.cleanup = []

    # --- choices
    def draw(self, n):
        """an integer in 0..n"""
        if self.i < len(self.prefix):
            v = self.prefix[self.i]
            if v > n:
                v = n
        elif self.rng is not None:
            v = int(self.rng.random() * (n + 1)) if n < (1 << 50) else self.rng.randint(0, n)
        else:
            v = 0
        self.i += 1
        self.choices.append(v)
        if self.i > 200000:
            raise Discard("too many choices")
        return v

    def int(self, lo, hi):
        return lo + self.draw(hi - lo)

    def pick(self, seq):
        return seq[self.draw(len(seq) - 1)]

    def prob(self, percent):
        """True in about `percent` of the random cases; shrinks to False."""
        return self.draw(99) >= 100 - percent

    def weighted(self, pairs):
        """pairs of (weight, value); shrinks towards the first"""
        t = sum(w for w, _ in pairs)
        x = self.draw(t - 1)
        for w, v in pairs:
            if x < w:
                return v
            x -= w
        return pairs[-1][1]

    def shuffle(self, seq):
        a = list(seq)
        for k in range(len(a) - 1, 0, -1):
            j = self.draw(k)
            a[k], a[k - j] = a[k - j], a[k]
        return a

    # --- bookkeeping
    def nontrivial(self, key):
        self.nt = key

    def event(self, *labels):
        self.events.extend(labels)

    def note(self, s):
        if len(self.notes) < 40:
            self.notes.append(s)

    def known(self, fid):
        """The failure just found is the listed known finding `fid`: record it and carry on."""
        self.known_hits.append(fid)

    # --- assertions
    def check(self, cond, msg):
        if not cond:
            raise Fail(msg() if callable(msg) else msg)

    def eq(self, got, want, what):
        if got != want:
            raise Fail("%s: got %r, expected %r" % (what() if callable(what) else what, got, want))


class Test:
    def __init__(self, name, fn, quick, thorough=None, flavour="plain", workers=None):
        self.name, self.fn, self.quick = name, fn, quick
        self.thorough = thorough if thorough is not None else quick * 12
        self.flavour = flavour
        self.workers = workers


def seed_of(seed, prop, test, idx):
    return int.from_bytes(hashlib.blake2b(("%d/%s/%s/%d" % (seed, prop, test, idx)).encode(), digest_size=8).digest(), "big")


def run_case(test, case, env):
    """None if the case passes or is discarded, else a message."""
    case.env = env
    try:
        test.fn(case)
        return None
    except Discard:
        case.events.append("discarded")
        case.nt = None
        return None
    except Fail as e:
        return str(e)
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:  # the code under test raised where no exception belongs
        return "unexpected %s: %s\n%s" % (type(e).__name__, e, "".join(traceback.format_tb(e.__traceback__)[-4:]))
    finally:
        for f in case.cleanup:
            f()
        del case.cleanup[:]


REC = struct.Struct("<qqqq")  # state, test, index, started (ms)
STATE_RUN, STATE_IDLE, STATE_DONE = 1, 0, 2


class Runner:
    def __init__(self, prop, tests, env, seed, tier, out_dir, deadline, case_cpu=60):
        self.prop, self.tests, self.env = prop, tests, env
        self.seed, self.tier, self.out_dir, self.deadline = seed, tier, out_dir, deadline
        self.case_cpu = case_cpu
        self.nw = min(8, os.cpu_count() or 1)

    def schedule(self):
        s = []
        for t, test in enumerate(self.tests):
            n = test.quick if self.tier == "quick" else test.thorough
            s.extend(((k + 0.5) / n, t, k) for k in range(n))
        s.sort()
        return [(t, k) for _, t, k in s]

    def _slot(self, w):
        return 64 + w * REC.size

    def _worker(self, w, sched, mm, path, until=None):
        """Runs every nw-th case.  With `until` (a position in the shard) runs only up to and including it."""
        shard = sched[w::self.nw]
        ev = {t.name: collections.Counter() for t in self.tests}
        seen = {t.name: set() for t in self.tests}
        counts = {t.name: 0 for t in self.tests}
        samples = {t.name: [] for t in self.tests}
        known = collections.Counter()
        failure = None
        cut = False
        for pos, (t, k) in enumerate(shard):
            if until is not None and pos > until:
                break
            if mm[0] == 1:
                break
            if time.time() > self.deadline:
                cut = True
                break
            test = self.tests[t]
            REC.pack_into(mm, self._slot(w), STATE_RUN, t, k, pos)
            case = Case(rng=random.Random(seed_of(self.seed, self.prop, test.name, k)))
            msg = run_case(test, case, self.env)
            counts[test.name] += 1
            ev[test.name].update(case.events)
            known.update(case.known_hits)
            if case.nt is not None:
                h = hashlib.blake2b(repr(case.nt).encode("utf-8", "backslashreplace"), digest_size=8).digest()
                if h not in seen[test.name]:
                    seen[test.name].add(h)
                    if len(samples[test.name]) < 2 and case.notes:
                        samples[test.name].append(case.notes[:12])
            if msg is not None:
                failure = {"test": t, "index": k, "pos": pos, "worker": w, "choices": case.choices, "message": msg}
                mm[0] = 1
                break
        REC.pack_into(mm, self._slot(w), STATE_DONE, 0, 0, 0)
        res = {"events": ev, "counts": counts, "samples": samples, "known": known, "failure": failure, "cut": cut,
               "seen": {n: [h.hex() for h in s] for n, s in seen.items()}}
        with open(path, "w") as f:
            json.dump(res, f)

    def run(self):
        sched = self.schedule()
        mm = mmap.mmap(-1, 4096)
        pids = {}
        paths = {}
        sys.stdout.flush()
        sys.stderr.flush()
        for w in range(self.nw):
            paths[w] = os.path.join(self.out_dir, "w%d.json" % w)
            pid = os.fork()
            if pid == 0:
                code = 3
                try:
                    self._quiet(w)
                    self._worker(w, sched, mm, paths[w])
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    sys.stdout.flush()
                    os._exit(code)
            pids[pid] = w
        crashed = []
        last = {w: (None, 0.0, time.time()) for w in range(self.nw)}
        hung = set()
        while pids:
            try:
                pid, status = os.waitpid(-1, os.WNOHANG)
            except ChildProcessError:
                break
            if pid == 0:
                time.sleep(0.05)
                # an endless loop: one case consuming more CPU than any healthy case could
                for p, w in list(pids.items()):
                    rec = REC.unpack_from(mm, self._slot(w))
                    cpu = proc_cpu(p)
                    if last[w][0] != rec:
                        last[w] = (rec, cpu, time.time())
                    elif rec[0] == STATE_RUN and (cpu - last[w][1] > self.case_cpu
                                                  or time.time() - last[w][2] > self.case_cpu * 5):
                        hung.add(w)
                        os.kill(p, signal.SIGKILL)
                continue
            w = pids.pop(pid, None)
            if w is None:
                continue
            if os.WIFSIGNALED(status) or os.WEXITSTATUS(status) != 0:
                st, t, k, pos = REC.unpack_from(mm, self._slot(w))
                crashed.append({"worker": w, "test": t, "index": k, "pos": pos, "status": describe_status(status),
                                "hang": w in hung, "internal": st != STATE_RUN})
                mm[0] = 1
        results = []
        for w in range(self.nw):
            if os.path.exists(paths[w]):
                with open(paths[w]) as f:
                    results.append(json.load(f))
        return sched, results, crashed

    def _quiet(self, w):
        # whatever the code under test prints is not part of the check's output
        fd = os.open(os.path.join(self.out_dir, "w%d.log" % w), os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
        os.dup2(fd, 1)
        os.dup2(fd, 2)
        os.close(fd)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    # --- running one choice sequence (or one shard prefix) in a child
    def forked(self, fn, cpu=None, wall=None):
        """(status, value): value is fn()'s JSON result, status None unless the child died."""
        cpu = cpu or self.case_cpu
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            code = 3
            try:
                self._quiet(99)
                resource.setrlimit(resource.RLIMIT_CPU, (int(cpu) + 1, int(cpu) + 2))
                v = json.dumps(fn()).encode()
                while v:
                    v = v[os.write(wfd, v):]
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        os.close(wfd)
        data = b""
        end = time.time() + (wall or cpu * 5)
        import select
        killed = False
        while True:
            left = end - time.time()
            if left <= 0:
                os.kill(pid, signal.SIGKILL)
                killed = True
                break
            if select.select([r], [], [], left)[0]:
                b = os.read(r, 65536)
                if not b:
                    break
                data += b
        os.close(r)
        _, status = os.waitpid(pid, 0)
        if killed:
            return "no answer within %ds" % (wall or cpu * 5), None
        if status != 0:
            return describe_status(status), None
        return None, json.loads(data)

    def replay_choices(self, t, choices, cpu=None):
        """message or None, crashes included"""
        def go():
            c = Case(prefix=choices)
            m = run_case(self.tests[t], c, self.env)
            return {"message": m, "choices": c.choices, "notes": c.notes}
        st, v = self.forked(go, cpu)
        if st is not None:
            return {"message": "the process died: " + st, "choices": choices, "notes": [], "crash": True}
        return v

    def replay_shard(self, sched, w, pos):
        def go():
            mm = mmap.mmap(-1, 4096)
            path = os.path.join(self.out_dir, "replay.json")
            self.deadline = time.time() + 3600
            self._worker(w, sched, mm, path, until=pos)
            with open(path) as f:
                return json.load(f)["failure"]
        st, v = self.forked(go, cpu=900, wall=1200)
        if st is not None:
            return "the process died: " + st
        return v["message"] if v else None

    def choices_of(self, t, k, cpu=None):
        """The choices of a generated case that kills the process cannot be read back, so they are recorded as drawn."""
        path = os.path.join(self.out_dir, "choices.bin")

        def go():
            c = Case(rng=random.Random(seed_of(self.seed, self.prop, self.tests[t].name, k)))
            f = open(path, "w")
            c.choices = Tee(f)
            m = run_case(self.tests[t], c, self.env)
            return m
        self.forked(go, cpu)
        with open(path) as f:
            return [int(x) for x in f.read().split()]

    def shrink(self, t, choices, message, budget=45.0, hang=False):
        end = time.time() + budget
        crashy = message.startswith("the process died")
        best = list(choices)
        msg = message

        def attempt_in(c):
            if crashy:
                v = self.replay_choices(t, c, 6 if hang else None)
                return v["message"], v["choices"]
            case = Case(prefix=c)
            m = run_case(self.tests[t], case, self.env)
            return m, case.choices

        def better(a, b):
            return (len(a), a) < (len(b), b)

        def loop():
            nonlocal best, msg
            improved = True
            tried = set()
            while improved and time.time() < end:
                improved = False
                size = max(1, len(best) // 2)
                while size >= 1 and time.time() < end:
                    i = len(best) - size
                    while i >= 0 and time.time() < end:
                        c = best[:i] + best[i + size:]
                        h = hash(tuple(c))
                        if h not in tried:
                            tried.add(h)
                            m, used = attempt_in(c)
                            if m is not None and (not crashy or m.startswith("the process died")):
                                u = list(used)
                                c = u if better(u, c) else c
                                if better(c, best):
                                    best, msg, improved = c, m, True
                                    i = min(i, len(best) - size) if len(best) >= size else -1
                                    continue
                        i -= max(1, size // 2)
                    size //= 2
                i = len(best) - 1
                while i >= 0 and time.time() < end:
                    if i < len(best) and best[i] > 0:
                        for v in (0, best[i] // 2, best[i] - 1):
                            if v >= best[i]:
                                continue
                            c = best[:i] + [v] + best[i + 1:]
                            m, used = attempt_in(c)
                            if m is not None and (not crashy or m.startswith("the process died")):
                                u = list(used)
                                c = u if better(u, c) else c
                                if better(c, best):
                                    best, msg, improved = c, m, True
                                    break
                    i -= 1
            return {"choices": best, "message": msg}

        if crashy:
            return loop()
        st, v = self.forked(loop, cpu=budget * 3, wall=budget * 3 + 30)
        if st is not None:
            return {"choices": list(choices), "message": message}
        return v


class Tee(list):
    def __init__(self, f):
        super().__init__()
        self.f = f

    def append(self, v):
        super().append(v)
        self.f.write("%d " % v)
        self.f.flush()


def proc_cpu(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            x = f.read().rsplit(")", 1)[1].split()
        return (int(x[11]) + int(x[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError, ValueError):
        return 0.0


def describe_status(status):
    if os.WIFSIGNALED(status):
        return "signal %s" % signal.Signals(os.WTERMSIG(status)).name
    return "exit status %d" % os.WEXITSTATUS(status)
