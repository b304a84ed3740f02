#!/usr/bin/env python3
"""Rewrites the 'fixed' part of known_findings.json from /repo's fix: commits (a development aid, not used by checks)."""
import json
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {"9ebe846": "C02", "9b9ada9": "C02", "84ae1ab": "C08", "c8a219a": "C03", "c23797b": "C20", "cee7732": "C18", "6568185": "C27",
        "5ac3bbb": "C09", "2d11eca": "C08", "12a776c": "C14", "d814bbe": "C14", "21f1148": "C14", "1416688": "C14", "600cc2f": "C14",
        "5a9fc90": "C14", "cbe4473": "C17", "75fe93c": "C23", "8d1d5d9": "C23", "4774faf": "C24", "f627a1f": "C24", "90c6840": "C26",
        "a642b48": "C24", "65e22fe": "C15", "ae08772": "C15", "11e3028": "C15", "7d73531": "C15", "4d83658": "C15", "87a7a04": "C16",
        "9d912f9": "C16", "e7d7846": "C16", "a3d9df4": "C16", "0222ba3": "C16", "3d57852": "C03", "59ee217": "C06", "ef60289": "C02",
        "544b667": "C02", "2f0a0c4": "C08", "aaf0808": "C11", "49c14ec": "C11"}
PROP.update(json.load(open(os.path.join(V, "tools", "fixes.json"))) if os.path.exists(os.path.join(V, "tools", "fixes.json")) else {})
path = os.path.join(V, "known_findings.json")
old = json.load(open(path))["findings"] if os.path.exists(path) else []
out = [e for e in old if e["status"] == "known"]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "41fcdb3.."], capture_output=True, text=True).stdout
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    if h not in PROP:
        print("no property for", l)
        continue
    out.append({"id": "F-" + h, "property": PROP[h], "status": "fixed", "what": "fixed: property=%s %s before it this did not hold: %s" % (PROP[h], h, s[5:])})
with open(path, "w") as f:
    json.dump({"findings": out}, f, indent=1, ensure_ascii=False)
    f.write("\n")
