#!/usr/bin/env python3
"""replay.py PROPERTY FLAVOR WORKLOAD CASE: runs one case with its output on the terminal."""
import os, sys, subprocess, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import build as B
from checks import CHECKS
from run import ENV
prop, flavor, w, case = sys.argv[1:5]
for r in CHECKS[prop]["runs"]:
    if r["flavor"] != flavor:
        continue
    h = r["harness"] if isinstance(r["harness"], str) else r["harness"][0]
    exe = B.build(r.get("name", h).replace(".cpp", ""), r["harness"], r["modules"], flavor, extra_defs=r.get("defs", ()),
                  skip=r.get("skip", ()), extra_sources=r.get("extra_sources", ()), ldflags=r.get("ldflags", ()))
    if w not in subprocess.run([exe, "--list"], env=ENV, stdout=subprocess.PIPE).stdout.decode().split():
        continue
    with tempfile.TemporaryDirectory(dir="/tmp") as d:
        os.chmod(d, 0o777)
        env = dict(ENV); env.update(CHECKS[prop].get("env", {})); env.update(B.tool_env(CHECKS[prop]["plytool"]) if CHECKS[prop].get("plytool") else {}); env["VF_WORKSPACE"] = d + "/ws/"
        cmd = [exe, "--w", w, "--from", case, "--to", str(int(case) + 1), "--seed", os.environ.get("VERIF_SEED", "1"),
               "--scratch", d, "--progress", d + "/prog"] + (["--thorough"] if os.environ.get("VERIF_TIER") == "thorough" else [])
        rc = subprocess.run(cmd, cwd=d, env=env, user=65534, group=65534, extra_groups=[]).returncode
        if os.path.exists(d + "/prog"):
            print("exit", rc, "context:", open(d + "/prog", "rb").read()[16:].split(b"\0")[0])
    break
