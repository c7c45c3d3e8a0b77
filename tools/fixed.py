#!/usr/bin/env python3
"""Rewrites the 'fixed:' lines of known_findings.txt from /repo's fix commits and the property each belongs to."""
import subprocess, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BY = [l.rstrip("\n").split("\t") for l in open(ROOT + "/tools/fixed_props.tsv") if l.strip()]
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h\t%s"], text=True).splitlines()
keep = [l for l in open(ROOT + "/known_findings.txt").read().splitlines() if not l.startswith("fixed:")]
out = []
for l in log:
    h, s = l.split("\t", 1)
    if not s.startswith("fix: "):
        continue
    for pat, prop in BY:
        if pat in s:
            out.append(f"fixed: property={prop} {h} {s[5:]}")
            break
    else:
        print("no property for:", s)
open(ROOT + "/known_findings.txt", "w").write("\n".join(keep + out) + "\n")
