#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough] [--seed N]      run the check of one property
   run.py --replay <file>                                    re-run a recorded failure

Exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself could not run."""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import build  # noqa: E402


def child_env(pkg, flavour):
    e = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    e["PATH"] = "/opt/vp/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["PYTHONPATH"] = pkg + ":" + os.path.join(VERIF, "lib") + ":" + os.path.join(VERIF, "checks")
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["PYTHONHASHSEED"] = "0"
    e["PYTHONWARNINGS"] = "ignore"
    e["LANG"] = e["LC_ALL"] = "C.UTF-8"
    e["VERIF_PKG"] = pkg
    e["OMP_NUM_THREADS"] = "1"
    if flavour == "asan":
        libs = [subprocess.run(["g++", "-print-file-name=" + l], capture_output=True, text=True).stdout.strip()
                for l in ("libasan.so", "libubsan.so", "libstdc++.so")]
        e["LD_PRELOAD"] = ":".join(os.path.realpath(x) for x in libs if os.path.isabs(x))
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0:max_allocation_size_mb=8192"
        e["UBSAN_OPTIONS"] = "abort_on_error=1:halt_on_error=1:print_stacktrace=1"
    return e


def run_engine(args, flavour, pkg, extra, timeout):
    cmd = [build.PY, os.path.join(VERIF, "lib", "engine.py")] + extra
    p = subprocess.Popen(cmd, env=child_env(pkg, flavour), cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, err = p.communicate()
        return 2, out.decode("utf-8", "replace"), "engine timed out\n" + err.decode("utf-8", "replace")
    return p.returncode, out.decode("utf-8", "replace"), err.decode("utf-8", "replace")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--only", help="run only this test of the check (development)")
    ap.add_argument("--scale", type=float, default=1.0, help="multiply the case counts (development)")
    a = ap.parse_args()
    t0 = time.time()
    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        pkg = build.build(rep["flavour"])
        build.build_ref()
        rc, out, err = run_engine(a, rep["flavour"], pkg, ["replay", os.path.abspath(a.replay)], 1800)
        sys.stdout.write(out)
        sys.stderr.write(err)
        return rc
    prop = a.property
    with open(os.path.join(VERIF, "lib", "plan.json")) as f:
        plan = json.load(f)[prop]
    flavours = plan.get("flavours", ["plain"])
    try:
        build.build_ref()
        pkgs = {}
        for fl in flavours:
            pkgs[fl] = build.build(fl)
    except build.BuildError as e:
        print("the current tree does not build:\n" + str(e))
        return 2
    t_build = time.time() - t0
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    os.chmod(tmp, 0o755)
    parts = []
    lines = []
    rc_all = 0
    budget = plan.get("budget_" + a.tier, 240 if a.tier == "quick" else 1500)
    try:
        for fl in flavours:
            od = os.path.join(tmp, fl)
            os.makedirs(od)
            res = os.path.join(od, "result.json")
            extra = ["run", prop, fl, a.tier, str(a.seed), od, res, str(budget / len(flavours)), a.only or "-",
                     str(a.scale * (plan.get("quick_scale", 1) if a.tier == "quick" else 1))]
            rc, out, err = run_engine(a, fl, pkgs[fl], extra, budget / len(flavours) + 420)
            if os.path.exists(res):
                with open(res) as f:
                    parts.append(json.load(f))
            lines += [l for l in out.splitlines() if l]
            if rc == 2 or not os.path.exists(res):
                sys.stdout.write(out)
                sys.stderr.write(err)
                print("the check of %s could not run (engine exit %d)" % (prop, rc))
                rc_all = 2
                break
            if rc == 1:
                rc_all = 1
                break
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    for l in lines:
        print(l)
    if rc_all != 2:
        ev = merge(prop, a, parts, time.time() - t0, t_build)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", prop + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        os.replace(path + ".tmp", path)
        c = ev["coverage"]
        print("%s: %d cases, %d distinct non-trivial, %.0f s (build %.0f s)" % (
            prop, c["evaluations"], c["distinct_nontrivial"], ev["wall_s"], t_build))
    return rc_all


def merge(prop, a, parts, wall, t_build):
    cov = {"evaluations": sum(p["evaluations"] for p in parts),
           "distinct_nontrivial": sum(p["distinct_nontrivial"] for p in parts),
           "rule": parts[0]["rule"] if parts else "",
           "samples": sum((p["samples"] for p in parts), [])[:12],
           "tests": {k: v for p in parts for k, v in p["tests"].items()},
           "known_finding_hits": {k: v for p in parts for k, v in p["known"].items()},
           "stopped_by_time_budget": any(p["cut"] for p in parts),
           "build_s": round(t_build, 1)}
    return {"property": prop, "tier": a.tier, "seed": a.seed, "level": "exploration", "coverage": cov,
            "assumptions": parts[0]["assumptions"] if parts else [],
            "wall_s": round(wall, 1), "violations": sum(p["violations"] for p in parts)}


if __name__ == "__main__":
    sys.exit(main())
