#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/rules.py."""
import json, os
from rules import RULES, TECH, TRUST, EXTRA_TECH
here = os.path.dirname(os.path.abspath(__file__))
doc = {
    "version": 1,
    "setup_cmd": "cd mon && CARGO_TARGET_DIR=../.build/debug cargo build --offline --locked",
    "checks": [
        {
            "property": p,
            "quick_cmd": f"VERIF_TIER=quick python3 check.py {p}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}",
            "technique": EXTRA_TECH.get(p, TECH),
            "level": "exploration",
            "level_note": " ".join(x for x in (r["note"], TRUST) if x),
        }
        for p, r in sorted(RULES.items())
    ],
    "not_applicable": [],
    "notes": "No hooks: everything is observed through the public interface, the compiler's run-time checks and sanitizers. Fixes are listed in KNOWN_FINDINGS.txt.",
}
with open(os.path.join(here, "..", "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
