#!/usr/bin/env python3
"""assembles DESIGN.md: tools/design.md, then one section per property from properties.jsonl, the notes below, the rules
the checks state, the findings and the planted bugs"""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from tools.claims import NA
from tools.design_notes import NOTES
out = [open(V + "/tools/design.md").read().rstrip(), "", "## The properties", ""]
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
finds = open(V + "/known-findings.txt").read().splitlines()
bugs = {}
for d in sorted(os.listdir(V + "/seeded")):
    p = V + "/seeded/" + d + "/meta.json"
    if os.path.exists(p):
        m = json.load(open(p)); bugs.setdefault(m["property"], []).append((d, m))
for p in props:
    i = p["id"]; out += ["### %s %s" % (i, p.get("title", "")), ""]
    if i in NA: out += ["Not applicable. " + NA[i], ""]; continue
    out += [NOTES.get(i, "").strip(), ""]
    src = open(V + "/sa/rules/%s.py" % i.lower()).read()
    if "MQTT5" not in src and i in ("C01", "C02"): src = open(V + "/sa/packets.py").read()
    rules = re.findall(r'c\.rule\("([^"]+)",\s*"((?:[^"\\]|\\.)*)"', src)
    if rules: out += ["Obligations:", ""] + ["- *%s*: %s" % (n, t.replace('\\"', '"')) for n, t in rules] + [""]
    fixed = [l for l in finds if l.startswith("fixed: property=%s " % i)]
    open_ = [l for l in finds if "property=%s " % i in l and not l.startswith("fixed:") and not l.startswith("#")]
    if fixed: out += ["Defects found and repaired:", ""] + ["- " + " ".join(l.split()[2:]) for l in fixed] + [""]
    if open_: out += ["Known findings, not repaired:", ""] + ["- " + l for l in open_] + [""]
    for d, m in bugs.get(i, []):
        out += ["Planted: `%s` (%s), caught by %s." % (d, m["what_it_breaks"], ", ".join(m.get("caught_by", [])) or "—")]
    out += [""]
open(V + "/DESIGN.md", "w").write(re.sub(r"\n{3,}", "\n\n", "\n".join(out)) + "\n")
print(sum(1 for _ in open(V + "/DESIGN.md")), "lines")
