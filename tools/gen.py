#!/usr/bin/env python3
"""regenerate properties.jsonl and MANIFEST.json from tools/props.py and the registered rules"""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(here)
sys.path[:0] = [here, os.path.join(V, "sa")]
sys.dont_write_bytecode = True
import props
import core, rules.load

TECH = "static analysis: guarded value-flow (gated value numbering) over the compiler's MIR, compared with a rule table"
have = set(core.PROPS)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props.P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
        assert len(p["title"]) <= 80, p["title"]
ids = [p["id"] for p in props.P]
assert len(set(ids)) == len(ids)
assert have <= set(ids), have - set(ids)
na = dict(getattr(props, "NA", {}))
for p in props.P:
    if p["id"] not in have and p["id"] not in na:
        na[p["id"]] = "not decided yet: its rule is under construction"
m = {"version": 1, "setup_cmd": "python3 check.py setup",
     "checks": [{"property": p["id"], "quick_cmd": "python3 check.py " + p["id"],
                 "thorough_cmd": "python3 check.py " + p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"],
                 "technique": p["technique"] or TECH, "level": "other", "level_note": p["note"]}
                for p in props.P if p["id"] in have],
     "not_applicable": [{"property": k, "reason": v} for k, v in na.items()],
     "notes": "All checks read /repo's current working tree: they re-extract MIR with a rustc driver whenever its sources changed. "
              "No hooks are needed in /repo."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks;", len(na), "not applicable")
