#!/usr/bin/env python3
"""Writes DESIGN.md from design_intro.md, props.py, checks.py, the harnesses, known_findings.txt and seeded/*/meta.json."""
import glob, json, os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path[:0] = [HERE, ROOT + "/vf"]
import props, checks, design_notes
FL = dict(asan="ASan+UBSan", dl="shipped allocator with assertions", dl0="shipped allocator", tsan="TSan",
          tsandl="TSan on the shipped allocator")
fixes = {}
for l in open(ROOT + "/known_findings.txt"):
    m = re.match(r"fixed: property=(C\d+) (\S+) (.*)", l)
    if m: fixes.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
seeds = []
for d in sorted(glob.glob(ROOT + "/seeded/*/meta.json")):
    seeds.append((os.path.basename(os.path.dirname(d)), json.load(open(d))))
o = [open(HERE + "/design_intro.md").read().rstrip(), "", "## Properties and checks", ""]
for i in sorted(props.P):
    p = props.P[i]; o += ["### %s %s" % (i, p["title"]), "", p["statement"], ""]
    if i not in checks.CHECKS: o += ["Not claimed.", ""]; continue
    c = checks.CHECKS[i]
    o += ["*Ranges over:* " + p["text"] + ". *Why tests can't settle it:* " + p["why"], ""]
    o += ["*Oracle and generation:* " + c["rule"] + ".", ""]
    seen = {}
    for r in c["runs"]: seen.setdefault(r["harness"], []).append(FL.get(r["flavor"], r["flavor"]) + (" (only %s)" % r["only"] if r.get("only") else ""))
    for h, fl in seen.items():
        o.append("`harness/%s` under %s:" % (h, ", ".join(dict.fromkeys(fl)))); o.append("")
        t = open(ROOT + "/harness/" + h).read()
        for m in re.finditer(r"((?:^//[^\n]*\n)*)^VF_WORKLOAD\((\w+), *(\w+), *(\w+)\)", t, re.M):
            com = " ".join(x[2:].strip() for x in m.group(1).strip().split("\n") if x)
            o.append("* `%s` (%s quick, %s thorough cases)%s" % (m.group(2), m.group(3), m.group(4), ": " + com if com else ""))
        o.append("")
    if i in design_notes.N: o += ["*Not claimed, or excluded:* " + design_notes.N[i], ""]
    if i in fixes:
        o += ["*Genuine defects found and repaired (%d):* " % len(fixes[i]) + "; ".join("%s (%s)" % (b, a) for a, b in fixes[i]) + ".", ""]
    s = [x for x, m in seeds if m["property"] == i]
    if s: o += ["*Planted bugs:* " + ", ".join(s) + " (table below).", ""]
o += ["## Planted bugs", "", "Each was written from the property's text and the code, confirmed to build and pass the existing tests, and kept",
      "with a demonstration. `tools/plant.py` makes and confirms them.", "", "| id | property | breaks | needs | caught by |", "|---|---|---|---|---|"]
for i, m in seeds: o.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"], m["needs"], m.get("caught_by", m["property"] + " quick")))
o += ["", "Besides these, `tools/mut.py` tried several hundred one-line mutations against the checks as each was built;", "checks were strengthened until every mutation that broke its property was caught.", ""]
open(ROOT + "/DESIGN.md", "w").write("\n".join(o))
