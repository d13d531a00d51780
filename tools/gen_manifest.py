#!/usr/bin/env python3
"""MANIFEST.json from contracts/props.json."""
import json
props = json.load(open("/verif/contracts/props.json"))
checks = []
for pid, c in sorted(props.items()):
    d = {"property": pid, "quick_cmd": "python3 check.py %s" % pid, "thorough_cmd": "python3 check.py %s --thorough" % pid,
         "evidence_file": "evidence/%s.json" % pid, "technique": c["technique"], "level": c["level"], "level_note": c["note"]}
    if c.get("theorems"):
        d["theorems"] = c["theorems"]
    checks.append(d)
m = {"version": 1, "setup_cmd": "cd harness && cargo build --offline -q --target-dir ../build/target",
     "hooks": {"guard": "none", "enable": "no hooks: the extractor reads /repo/src and the oracle uses the crate's public API", "source_commits": []},
     "checks": checks, "not_applicable": [],
     "notes": "Each check extracts the functions it depends on from /repo/src on every run, composes them with the contracts in contracts/, and has Verus discharge every obligation; a bounded oracle on the real crate stands in where no contract is in reach and searches the failing input behind a failed obligation."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
