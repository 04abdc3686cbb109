#!/usr/bin/env python3
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V); sys.path.insert(0, os.path.join(V, "tools"))
from vk.checks import CHECKS, NOT_APPLICABLE
from design_props import METHOD, SEEDNOTES
props = {}
for l in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(l); props[d["id"]] = d
out = []
for p in sorted(props):
    out.append("**%s %s.** %s" % (p, props[p]["title"], METHOD.get(p, "Not applicable, see section 5.") if p in CHECKS else "Not applicable, see section 5."))
    a = CHECKS.get(p, {}).get("assumptions")
    if a: out[-1] += " *Assumed:* " + "; ".join(a) + "."
jobs = []
fmt = lambda d: " ".join("%s=%s" % kv for kv in d.items() if kv[0] not in ("mode", "weak")) or "-"
for p in sorted(CHECKS):
    jobs.append("**%s**\n\n| job | harness | mode | bound | quick | thorough |\n|---|---|---|---|---|---|" % p)
    for j in CHECKS[p]["jobs"]:
        q = j.get("params", [{}])[0]; t = (j.get("params_thorough") or [q])[0]
        tier = j.get("tier", "both")
        jobs[-1] += "\n| %s | %s | %s | %s | %s | %s |" % (j["name"], j["harness"], j.get("threads") or "sequential", (j.get("bound") or "").replace("|", "\\|"), "not run" if tier == "thorough" else fmt(q), "not run" if tier == "quick" else ("same" if t == q and tier == "both" else fmt(t)))
known = [json.loads(l) for l in open(os.path.join(V, "known_findings.jsonl")) if l.strip().startswith("{")]
f = []
for k in known:
    f.append("* %s %s" % (k["property"], k["what"].split(" ", 2)[2] if k["what"].startswith("fixed:") else "**known, not repaired:** " + k["what"]) + (" (repaired in %s)" % k["commit"] if k.get("commit") else ""))
s = ["| id | property | what it breaks | needs |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    s.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"].replace("|", "\\|"), str(m["needs"]).replace("|", "\\|")))
t = open(os.path.join(V, "tools", "design.md.in")).read()
for k, v in dict(PROPS="\n\n".join(out), JOBS="\n\n".join(jobs), NA="\n".join("* %s: %s" % kv for kv in sorted(NOT_APPLICABLE.items())) or "None.", FINDINGS="\n".join(f), SEEDS="\n".join(s), SEEDNOTES=SEEDNOTES).items():
    t = t.replace("{{%s}}" % k, v)
open(os.path.join(V, "DESIGN.md"), "w").write(t)
