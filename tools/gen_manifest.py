#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and the checks that exist."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(ROOT, "vf"))
import props
import checks

with open(ROOT + "/properties.jsonl", "w") as f:
    for id in sorted(props.P):
        d = props.P[id]
        for a in d["files"]:
            assert os.path.exists("/repo/" + a), (id, a)
        assert len(d["title"]) <= 80, id
        f.write(json.dumps(dict(
            id=id, title=d["title"], statement=d["statement"],
            quantifier=dict(over=d["over"], text=d["text"]), why_tests_cant=d["why"],
            anchors=dict(files=d["files"], mechanism=[dict(name=d["mechanism"], where=d["files"][0])]))) + "\n")

FLAV = dict(asan="AddressSanitizer, LeakSanitizer-style accounting and UBSan", dl="the shipped allocator, asserts on",
            dl0="the shipped allocator", tsan="ThreadSanitizer", tsandl="ThreadSanitizer on the shipped allocator")
m = dict(version=1, setup_cmd="true", checks=[], not_applicable=[])
for id in sorted(props.P):
    if id in checks.CHECKS:
        c = checks.CHECKS[id]
        fl = []
        for r in c["runs"]:
            if r["flavor"] not in fl:
                fl.append(r["flavor"])
        note = c.get("note", "The property held on every execution generated, watched by an independent model in the "
                             "harness and by the sanitizers; it says nothing about executions not generated. Trusts "
                             "the model, the compiler's sanitizers and the host's libc.")
        m["checks"].append(dict(
            property=id, quick_cmd=f"./check {id} --tier quick", thorough_cmd=f"./check {id} --tier thorough",
            technique=c.get("technique", "runtime monitoring: generated workloads against a reference-model oracle, "
                            "under " + "; ".join(FLAV[x] for x in fl)),
            level=c.get("level", "exploration"), level_note=note))
    else:
        m["not_applicable"].append(dict(property=id, reason=props.NA.get(id, "Check not built yet.") if hasattr(props, "NA") else "Check not built yet."))
assert set(checks.CHECKS) <= set(props.P), set(checks.CHECKS) - set(props.P)
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)
open(ROOT + "/MANIFEST.json", "a").write("\n")
