#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, subprocess
from props import PROPS
try:
    from props import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = {}
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
checks, na = [], []
def trusted(t):
    return ", ".join([x for x, k in (("Kani's MIR translation, CBMC, the SAT solver", "Kani"), ("rustc's IR, the engine lsx, Z3", "path-wise")) if k in t])
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s quick" % i,
            "thorough_cmd": "python3 check.py %s thorough" % i,
            "technique": p.get("technique", "symbolic execution of the real code (Kani/CBMC bounded model checking, SAT)"),
            "level": "model_checking",
            "level_note": p.get("note") or ("Every assertion is decided by the solver for all values within: %s. Outside the claim: %s. "
                "Trusted: %s; counterexamples are replayed on the real build before being reported."
                % (p["bounds"][0], p.get("outside") or "larger sizes", trusted(p.get("technique", "Kani")))),
        })
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check yet")})
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {"guard": "--cfg indexing_verif (RUSTFLAGS)", "enable": "RUSTFLAGS='--cfg indexing_verif' (only the checks that need a lowered quicksort cut-off)",
              "source_commits": [h.split()[0] for h in hooks if "verif hook" in h]},
    "checks": checks, "not_applicable": na,
    "notes": "see DESIGN.md; repaired defects are in known_findings.txt",
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
