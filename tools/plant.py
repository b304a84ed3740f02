#!/usr/bin/env python3
"""plant.py spec.py...   make /verif/seeded/<id>/ from a spec (edits to /repo, demo, meta), confirm it and run its check.
   plant.py --recheck ID...   only run the check of already planted bugs.
A development aid: it applies the change to /repo, and takes it back whatever happens."""
import json
import os
import shutil
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def clean():
    assert sh("git", "-C", REPO, "status", "--porcelain").stdout == "", "repo is not clean"


def build():
    r = sh("bash", "/opt/vp/build.sh")
    return r.returncode == 0, (r.stdout + r.stderr)[-1500:]


def demo(d):
    try:
        r = sh("bash", os.path.join(d, "demo.sh"), cwd=REPO, timeout=300)
    except subprocess.TimeoutExpired:
        return 124, "timeout"
    return r.returncode, (r.stdout + r.stderr)[-600:]


def check(prop):
    t = time.time()
    r = sh("python3", "run.py", prop, "--tier", "quick", cwd=V, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
    hit = r.returncode == 1 and ("VIOLATION property=%s " % prop) in r.stdout
    return hit, r.returncode, r.stdout[:500], time.time() - t


def record(pid, prop, hit):
    p = os.path.join(V, "tools", "catch.json")
    d = json.load(open(p)) if os.path.exists(p) else {}
    d[pid] = "caught by %s" % prop if hit else "missed by %s" % prop
    json.dump(dict(sorted(d.items())), open(p, "w"), indent=1)


def make(spec):
    ns = {}
    exec(open(spec).read(), ns)
    pid = ns["ID"]
    d = os.path.join(V, "seeded", pid)
    clean()
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in ns["EDITS"]:
            p = os.path.join(REPO, f)
            raw = open(p, "rb").read()
            o, n = old.encode(), new.encode()
            if b"\r\n" in raw and b"\r\n" not in o:
                o, n = o.replace(b"\n", b"\r\n"), n.replace(b"\n", b"\r\n")
            assert raw.count(o) == 1, "%s: %d matches in %s for %r" % (pid, raw.count(o), f, old[:80])
            open(p, "wb").write(raw.replace(o, n))
        patch = subprocess.run(["git", "-C", REPO, "diff"], capture_output=True).stdout
        open(os.path.join(d, "patch.diff"), "wb").write(patch)
        open(os.path.join(d, "demo.py"), "w").write(ns["DEMO"])
        open(os.path.join(d, "demo.sh"), "w").write(
            '#!/bin/bash\nD=$(dirname "$(realpath "$0")")\nexport PYTHONPATH=/repo PYTHONDONTWRITEBYTECODE=1\n'
            'exec timeout 250 /opt/vp/venv/bin/python "$D/demo.py"\n')
        json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1, ensure_ascii=False)
        out = "/tmp/plant-tests.json"
        sh("bash", "/opt/vp/test.sh", out)
        passed = set(json.load(open(out))["passed"])
        rc, txt = demo(d)
        caught = check(ns["PROPERTY"])
    finally:
        sh("git", "-C", REPO, "checkout", "--", ".")
    ok, msg = build()
    rc0, txt0 = demo(d)
    good = not (STABLE - passed) and rc != 0 and rc0 == 0
    print("%s %s: tests %s, demo patched=%d clean=%d, check %s (exit %d, %.0f s)" % (
        "OK " if good else "BAD", pid, "pass" if not (STABLE - passed) else "FAIL %s" % sorted(STABLE - passed)[:3], rc, rc0,
        "CAUGHT" if caught[0] else "MISSED", caught[1], caught[3]))
    print("   ", (caught[2].splitlines() or ["-"])[1:3])
    if rc == 0 or rc0 != 0:
        print("    demo:", txt, "|", txt0)
    if not good:
        shutil.rmtree(d)
    else:
        record(pid, ns["PROPERTY"], caught[0])


def recheck(pid):
    d = os.path.join(V, "seeded", pid)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    clean()
    try:
        r = sh("git", "-C", REPO, "apply", os.path.join(d, "patch.diff"))
        if r.returncode:
            print("BAD", pid, r.stderr)
            return
        c = check(prop)
    finally:
        sh("git", "-C", REPO, "checkout", "--", ".")
    record(pid, prop, c[0])
    print("%s: %s by %s (exit %d, %.0f s) %s" % (pid, "CAUGHT" if c[0] else "MISSED", prop, c[1], c[3], c[2].splitlines()[1:2]))


if sys.argv[1] == "--recheck":
    for x in sys.argv[2:] or sorted(os.listdir(os.path.join(V, "seeded"))):
        recheck(x)
else:
    for x in sys.argv[1:]:
        try:
            make(x)
        except AssertionError as e:
            print("ERROR", x, e)
