#!/usr/bin/env python3
"""Writes DESIGN.md from tools/DESIGN.tmpl, tools/meta.py's table, the fix commits and the planted bugs (development aid)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(V, "tools")
import importlib.util
sp = importlib.util.spec_from_file_location("meta", os.path.join(T, "meta.py")); meta = importlib.util.module_from_spec(sp); sp.loader.exec_module(meta)
import re
plan = json.load(open(os.path.join(V, "lib", "plan.json")))
props = []
for e in meta.ALL:
    p = e["p"]
    f = os.path.join(V, "checks", "prop_%s.py" % p["id"])
    if not os.path.exists(f):
        continue
    src = open(f).read() + (open(os.path.join(V, "lib", "mates.py")).read() if p["id"] in ("C12", "C13") else "")
    m = re.search(r"RULE = \((.*?)\)\n", src, re.S)
    rule = " ".join("".join(re.findall(r'"((?:[^"\\]|\\.)*)"', m.group(1))).split()) if m else ""
    tests = re.findall(r'Test\("([^"]+)", [\w.]+, (\d+)(?:, (?:thorough=)?(\d+))?', src)
    props.append("### %s %s\n\n* Oracle and method: %s\n* Cases: %s\n* Cost (quick tier): %s; flavours %s. Thorough: 12 times that unless given.\n* Why tests cannot: %s\n" % (
        p["id"], p["title"], e["note"], rule, ", ".join("%s %s cases" % (a, b) + (" (thorough %s)" % c if c else "") for a, b, c in tests),
        "+".join(plan[p["id"]].get("flavours", ["plain"])), p["why_tests_cant"]))
fixes = [e for e in json.load(open(os.path.join(V, "known_findings.json")))["findings"]]
fx = "\n".join("* %s" % e["what"] if e["status"] == "fixed" else "* KNOWN (not repaired): %s %s" % (e["property"], e["what"]) for e in fixes)
pl = []
sd = os.path.join(V, "seeded")
res = json.load(open(os.path.join(T, "catch.json"))) if os.path.exists(os.path.join(T, "catch.json")) else {}
for d in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, d, "meta.json")))
    pl.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"], res.get(d, "?")))
t = open(os.path.join(T, "DESIGN.tmpl")).read()
t = t.replace("@@PROPS@@", "\n".join(props)).replace("@@FIXES@@", fx).replace("@@OPEN@@", open(os.path.join(T, "open.txt")).read())
t = t.replace("@@PLANTS@@", "| bug | property | breaks | last verdict of its check |\n|---|---|---|---|\n" + "\n".join(pl) + "\n")
open(os.path.join(V, "DESIGN.md"), "w").write(t)
