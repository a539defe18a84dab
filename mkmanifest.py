#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py (run by hand after editing props.py)."""
import json, os
from props import PROPS, NOT_APPLICABLE
here = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(f"{here}/properties.jsonl")]
checks = []
for p, s in sorted(PROPS.items()):
    note = s.get("note", "")
    if s.get("standin"):
        note += " Out of the verifier's reach, searched within bounds on the real code instead: " + "; ".join(s["standin"]) + "."
    c = dict(property=p, quick_cmd=f"./check {p} quick", thorough_cmd=f"./check {p} thorough", evidence_file=f"evidence/{p}.json",
             technique="contract-based deductive verification (Verus) of functions extracted from /repo/src on every run" + ("; bounded search of the real crate for the parts out of reach" if s.get("standin") else ""),
             level="proof", level_note=note.strip())
    if s.get("theorems"):
        c["theorems"] = s["theorems"]
    checks.append(c)
na = [dict(property=i, reason=NOT_APPLICABLE[i]) for i in ids if i not in PROPS]
m = dict(version=1, setup_cmd="cargo build --offline --quiet --manifest-path vx/Cargo.toml --target-dir /tmp/vp-setup-vx && verus --version",
         hooks=dict(guard="vp_verif", enable="none needed: the checks compile a scratch copy of /repo/src with rustc and append their own module to it; no hook is committed in /repo", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="Each check extracts the functions under contract from the current /repo/src, verifies them with Verus, and runs a bounded search on the real crate where the verifier cannot decide; see DESIGN.md.")
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
