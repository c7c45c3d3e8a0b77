#!/usr/bin/env python3
"""Tries small changes against one check: reads lines of a python list [(file, old, new), ...] from stdin.
Usage: mut.py C19 [extra check args]   -- /repo is restored after each."""
import ast, os, subprocess, sys
R = os.environ.get("VERIF_REPO", "/repo")  # a scratch copy may be named instead
S = R + "/repos/plywood/src/"
prop = sys.argv[1]
def sh(c): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
assert not sh("git -C " + R + " status --porcelain").stdout.strip()
for n, (f, old, new) in enumerate(ast.literal_eval(sys.stdin.read())):
    t = open(S + f).read()
    if t.count(old) < 1: print(n, "NOT FOUND", repr(old[:60])); continue
    open(S + f, "w").write(t.replace(old, new, 1))
    try:
        r = sh("/verif/check %s %s" % (prop, " ".join(sys.argv[2:])))
    finally:
        sh("git -C " + R + " checkout -- .")
    ids = sorted(set(l.strip()[:110] for l in r.stdout.split("\n") if l.startswith("  [")))
    print(n, {0: "**** MISSED", 1: "caught", 2: "BUILD/OTHER"}.get(r.returncode, r.returncode), repr(new[:60]), ids[:2] if r.returncode == 1 else r.stdout[-300:] if r.returncode != 0 else "", flush=True)
