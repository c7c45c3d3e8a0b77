#!/usr/bin/env python3
"""Authoring aid for /verif/seeded: reads a spec (python literal with id, property, edits, needs, breaks, demo, libs)
from stdin, applies the edits to /repo, writes the folder, confirms it (build, stable tests, demo with and without)
and reports whether the property's quick check catches it. /repo is left as it was."""
import ast, json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/repo/repos/plywood/src/"
DEMO = r'''#!/bin/bash
# exit 0: the property holds; compiles demo.cpp against the libraries that build.sh made
here=$(cd "$(dirname "$0")" && pwd)
ws=$PWD/_build/ws; src=$PWD/repos/plywood/src; lib=$ws/data/build/all/build/Debug
t=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$t"' EXIT
inc="-I$ws/data/build/all/codegen/ply-platform"
for d in platform runtime reflect pylon/pylon pylon/reflect cpp crowbar build/common build/target build/provider \
         build/repo build/folder math/math math/serial web/common web/markdown web/documentation image/image \
         image/reflect audio/primitives test/test; do inc="$inc -I$ws/repos/plywood/src/$d -I$src/$d"; done
clang++ -std=c++14 -g -w -pthread -include utility -fno-exceptions -DPLY_WITH_ASSERTS=1 @FLAGS@ $inc "$here/demo.cpp" -o "$t/demo" \
    -Wl,--start-group @LIBS@ -Wl,--end-group -ldl || exit 2
cd "$t" && @RUN@
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def revert(): sh("git -C /repo checkout -- .")
spec = ast.literal_eval(sys.stdin.read())
i = spec["id"]; d = os.path.join(V, "seeded", i)
assert not sh("git -C /repo status --porcelain").stdout.strip()
os.makedirs(d, exist_ok=True)
try:
    for f, old, new in spec["edits"]:
        t = open(S + f).read(); assert t.count(old) == 1, (f, t.count(old), old)
        open(S + f, "w").write(t.replace(old, new))
    open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
    open(d + "/demo.cpp", "w").write(spec["demo"])
    demo = DEMO.replace("@LIBS@", " ".join("$lib/lib%s.a" % l for l in spec.get("libs", ["runtime"]))) \
        .replace("@FLAGS@", spec.get("flags", "")).replace("@RUN@", spec.get("run", "timeout 120 ./demo"))
    open(d + "/demo.sh", "w").write(demo); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]},
              open(d + "/meta.json", "w"), indent=1)
    r = sh("bash /opt/vp/build.sh", cwd="/repo")
    if r.returncode: print("BUILD FAILED", r.stdout[-1500:]); raise SystemExit(1)
    sh("bash /opt/vp/test.sh /tmp/plant.json", cwd="/repo")
    lost = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(json.load(open("/tmp/plant.json"))["passed"])
    print("tests:", "pass" if not lost else "LOST %s" % sorted(lost)[:5])
    r = sh("bash %s/demo.sh" % d, cwd="/repo"); print("demo patched: rc", r.returncode, r.stdout[-300:])
    r = sh("%s/check %s --seed 1" % (V, spec["property"])); print("check: rc", r.returncode, "\n".join(x for x in r.stdout.split("\n") if "VIOL" in x)[:600])
    if r.returncode == 0: print("  ****** MISSED")
    elif r.returncode != 1: print(r.stdout[-1500:])
finally:
    revert()
sh("bash /opt/vp/build.sh", cwd="/repo")
r = sh("bash %s/demo.sh" % d, cwd="/repo"); print("demo clean: rc", r.returncode, r.stdout[-300:])
