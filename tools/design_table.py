#!/usr/bin/env python3
"""Rewrites the generated table of DESIGN.md from evidence/*.json of a quick run of all checks, and mc/src/props/mod.rs."""
import json, os, re, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(ROOT + "/mc/src/props/mod.rs").read()
how = dict(re.findall(r'id: "(C\d+)",\s*how: "([^"]*)"', src))
assum = dict(re.findall(r'id: "(C\d+)",\s*how: "[^"]*",\s*assumptions: (CONC|SEQ)', src))
titles = {}
for l in open(ROOT + "/properties.jsonl"):
    d = json.loads(l); titles[d["id"]] = d["title"]
out = []
for i in sorted(titles):
    e = json.load(open(f"{ROOT}/evidence/{i}.json")); c = e["coverage"]
    out.append(f"**{i} {titles[i]}.** {how[i][0].upper()+how[i][1:]}. Quick: {e['wall_s']:.0f} s.")
    for h in c["harnesses"]:
        s = f"{h['executions']} executions"
        if h["kind"].startswith("schedules"):
            s += f", P={h['every_schedule_with_at_most_this_many_preemptions']}, {h.get('distinct_outcomes','?')} outcomes"
        else:
            s += f", {h['steps']} steps"
        out.append(f"- {h['harness']}: {s}")
    out.append("")
p = ROOT + "/DESIGN.md"; t = open(p).read()
a, b = "<!-- table -->", "<!-- /table -->"
t = t.replace("@@TABLE@@", a + "\n" + b)
t = t[:t.index(a)+len(a)] + "\n" + "\n".join(out) + t[t.index(b):]
open(p, "w").write(t)
