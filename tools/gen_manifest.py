#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of checks."""
import json, os, sys, types
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
mm = sys.modules["__main__"]
mm.TIER = "quick"
mm.HERE = HERE
sys.path.insert(0, os.path.join(HERE, "bin"))
import stages
props = {json.loads(l)["id"]: json.loads(l)["title"] for l in open(os.path.join(HERE, "properties.jsonl"))}
checks = []
for p in sorted(stages.CHECKS):
    c = stages.CHECKS[p]
    checks.append(dict(property=p, quick_cmd=f"python3 bin/check.py {p}", thorough_cmd=f"VERIF_TIER=thorough python3 bin/check.py {p}",
        evidence_file=f"evidence/{p}.json", technique=c.get("technique", "runtime monitoring: model-based online monitor over randomised histories"), level="exploration",
        level_note=c.get("level_note", "held on the executions observed (counts in the evidence); says nothing about executions not produced")))
na = [dict(property=p, reason=stages.NOT_APPLICABLE.get(p, "check not built yet") if hasattr(stages, "NOT_APPLICABLE") else "check not built yet") for p in sorted(props) if p not in stages.CHECKS]
man = dict(version=1, setup_cmd="python3 bin/setup.py",
    hooks=dict(guard="cfg(xtra_verif)", enable='RUSTFLAGS="--cfg xtra_verif" cargo +nightly build --manifest-path /verif/harness/Cargo.toml (the harness has a path dependency on /repo/xtra)', source_commits=["1b0cbf7", "755f1f3"]),
    checks=checks, not_applicable=na)
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
