#!/usr/bin/env python3
"""Rewrites the generated tables in DESIGN.md (between the markers) from properties.jsonl, MANIFEST.json and seeded/."""
import glob, json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + "/tools")
import properties
notes = {p["id"]: n for p, n in properties.P}
how = properties.HOW
out = []
for l in open(HERE + "/properties.jsonl"):
    p = json.loads(l)
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append("Decided by: %s\n" % how[p["id"]])
    out.append("Bounds, quick (thorough): %s\n" % notes[p["id"]])
    out.append("Beyond the tests: %s\n" % p["why_tests_cant"])
bugs = ["| planted bug | needs | caught by |", "|---|---|---|"]
log = {}
for l in open(HERE + "/tools/caught.txt"):
    i, c = l.rstrip("\n").split(": ", 1)
    log[i] = c
for d in sorted(glob.glob(HERE + "/seeded/*/meta.json")):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    bugs.append("| %s | %s | %s |" % (i, m["needs"].replace("|", "\\|"), log.get(i, "?")))
t = open(HERE + "/DESIGN.md").read()
for name, body in (("properties", out), ("bugs", bugs)):
    t = re.sub(r"(<!-- begin %s -->\n).*?(<!-- end %s -->)" % (name, name), lambda m: m.group(1) + "\n".join(body) + "\n" + m.group(2), t, flags=re.S)
open(HERE + "/DESIGN.md", "w").write(t)
