"""Runs the tests of one property against one built flavour (started by run.py under the right interpreter)."""
import hashlib
import importlib
import json
import os
import sys
import time

import pbt

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Env:
    def __init__(self, tmp, flavour, tier):
        self.tmp, self.flavour, self.tier = tmp, flavour, tier
        self.pkg = os.environ["VERIF_PKG"]
        self.known = load_known()


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return {}
    with open(p) as f:
        return {e["id"]: e for e in json.load(f)["findings"] if e["status"] == "known"}


def load(prop):
    import cshogi
    assert os.path.realpath(cshogi.__file__).startswith(os.path.realpath(os.environ["VERIF_PKG"])), cshogi.__file__
    return importlib.import_module("prop_" + prop)


def do_run(prop, flavour, tier, seed, out_dir, res_path, budget, only, scale):
    t0 = time.time()
    mod = load(prop)
    env = Env(out_dir, flavour, tier)
    tests = [t for t in mod.TESTS if t.flavour == flavour and (only == "-" or t.name == only)]
    for t in tests:
        t.quick = max(1, int(t.quick * scale))
        t.thorough = max(1, int(t.thorough * scale))
    r = pbt.Runner(prop, tests, env, seed, tier, out_dir, time.time() + budget, getattr(mod, "CASE_CPU", 60))
    sched, results, crashed = r.run()
    counts, events, seen, samples, known = {}, {}, {}, [], {}
    for t in tests:
        n = t.name
        counts[n] = sum(x["counts"][n] for x in results)
        s = set()
        ev = {}
        for x in results:
            s.update(x["seen"][n])
            for k, v in x["events"][n].items():
                ev[k] = ev.get(k, 0) + v
        for x in results:
            if x["samples"][n]:
                samples.append({"test": n, "case": x["samples"][n][0]})
                if sum(1 for q in samples if q["test"] == n) >= 2:
                    break
        seen[n] = len(s)
        events[n] = ev
    for x in results:
        for k, v in x["known"].items():
            known[k] = known.get(k, 0) + v
    failures = []
    for x in results:
        if x["failure"]:
            failures.append(x["failure"])
    rc = 0
    violations = 0
    internal = [c for c in crashed if c["internal"]]
    for c in crashed:
        if not c["internal"]:
            failures.append({"test": c["test"], "index": c["index"], "pos": c["pos"], "worker": c["worker"], "choices": None, "hang": c["hang"],
                             "message": "the process died: " + ("endless loop" if c["hang"] else c["status"])})
    if internal and not failures:
        for w in range(8):
            p = os.path.join(out_dir, "w%d.log" % w)
            if os.path.exists(p):
                sys.stderr.write(open(p, errors="replace").read()[-2000:])
        print("worker failed outside any case: %r" % internal)
        sys.exit(2)
    unrepro = []
    for f in failures:
        v = confirm(r, prop, flavour, seed, tier, sched, f)
        if v is None:
            unrepro.append(f["message"][:300])
            continue
        violations += 1
        rc = 1
        print("VIOLATION property=%s replay=%s" % (prop, v["path"]))
        print("  test %s: %s" % (tests[f["test"]].name, v["message"].replace("\n", "\n  ")[:1500]))
        for n in v.get("notes", [])[:15]:
            print("    " + str(n)[:300])
        break
    if violations == 0:
        for fid, e in env.known.items():
            if e["property"] != prop:
                continue
            still = True
            if hasattr(mod, "KNOWN") and fid in mod.KNOWN:
                st, still = r.forked(lambda: bool(mod.KNOWN[fid](env)))
                if st is not None:
                    still = True
            if still:
                print("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))
    if unrepro:
        print("note: %d failure(s) could not be reproduced and are not reported: %r" % (len(unrepro), unrepro))
    res = {"evaluations": sum(counts.values()), "distinct_nontrivial": sum(seen.values()), "rule": mod.RULE,
           "samples": samples, "known": known, "violations": violations, "cut": any(x["cut"] for x in results),
           "tests": {n: {"cases": counts[n], "distinct_nontrivial": seen[n], "flavour": flavour,
                         "distribution": dict(sorted(events[n].items(), key=lambda kv: -kv[1])[:40])} for n in counts},
           "assumptions": getattr(mod, "ASSUMPTIONS", []), "unreproduced": unrepro, "engine_s": round(time.time() - t0, 1)}
    with open(res_path, "w") as f:
        json.dump(res, f, ensure_ascii=False)
    return rc


def confirm(r, prop, flavour, seed, tier, sched, f):
    t = f["test"]
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    if f["choices"] is None:
        f["choices"] = r.choices_of(t, f["index"], 15 if f.get("hang") else None)
    ok = 0
    rec = None
    hang = f.get("hang")
    if hang:
        # each look at an endless loop costs the whole allowance of a case
        v = r.replay_choices(t, f["choices"])
        if v["message"] is not None:
            ok, rec = 3, v
    for _ in range(0 if hang else 3):
        v = r.replay_choices(t, f["choices"])
        if v["message"] is not None:
            ok += 1
            rec = v
    if ok == 3:
        s = r.shrink(t, rec["choices"], rec["message"], hang=hang)
        v = r.replay_choices(t, s["choices"])
        v2 = v if hang else r.replay_choices(t, s["choices"])
        if v["message"] is None or v2["message"] is None:
            v = rec
            s = {"choices": rec["choices"], "message": rec["message"]}
        body = {"property": prop, "flavour": flavour, "test": r.tests[t].name, "choices": s["choices"],
                "message": v["message"], "notes": v["notes"]}
    else:
        # perhaps it needs the cases before it in the same process
        m = r.replay_shard(sched, f["worker"], f["pos"])
        if m is None:
            return None
        m2 = r.replay_shard(sched, f["worker"], f["pos"])
        if m2 is None:
            return None
        body = {"property": prop, "flavour": flavour, "test": r.tests[t].name, "shard": [f["worker"], f["pos"]],
                "seed": seed, "tier": tier, "message": m, "notes": ["needs the earlier cases of its worker"],
                "counts": [x.quick if tier == "quick" else x.thorough for x in r.tests]}
    name = "%s-%s.json" % (prop, hashlib.sha256(json.dumps(body).encode()).hexdigest()[:10])
    path = os.path.join(rdir, name)
    with open(path, "w") as fh:
        json.dump(body, fh, indent=1, ensure_ascii=False)
    body["path"] = path
    return body


def do_replay(path):
    with open(path) as f:
        rep = json.load(f)
    mod = load(rep["property"])
    import tempfile
    with tempfile.TemporaryDirectory(prefix="verif-replay-") as tmp:
        env = Env(tmp, rep["flavour"], rep.get("tier", "quick"))
        tests = [t for t in mod.TESTS if t.flavour == rep["flavour"]]
        r = pbt.Runner(rep["property"], tests, env, rep.get("seed", 1), rep.get("tier", "quick"), tmp, time.time() + 3600,
                       getattr(mod, "CASE_CPU", 60))
        if "shard" in rep:
            m = r.replay_shard(r.schedule(), *rep["shard"])
            notes = []
        else:
            t = [k for k, x in enumerate(tests) if x.name == rep["test"]][0]
            v = r.replay_choices(t, rep["choices"])
            m, notes = v["message"], v["notes"]
    for n in notes:
        print("    " + str(n))
    if m is None:
        print("the recorded case passes on this tree")
        return 0
    print("VIOLATION property=%s replay=%s" % (rep["property"], path))
    print("  " + m)
    return 1


if __name__ == "__main__":
    if sys.argv[1] == "replay":
        sys.exit(do_replay(sys.argv[2]))
    _, _, prop, flavour, tier, seed, out_dir, res, budget, only, scale = sys.argv
    sys.exit(do_run(prop, flavour, tier, int(seed), out_dir, res, float(budget), only, float(scale)))
