#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
MC = "model_checking"
C = {}
def c(id, technique, note, level=MC):
    C[id] = (technique, level, note)

BIG = "explicit-state exploration: integers over limb alphabets as states, the real operations as transitions, every result compared with reference integers"
BIGN = "Exhaustive over all operands whose limbs come from boundary alphabets (up to {} limbs) and all integers up to 40 in magnitude, and all two-step chains of operations. Trusts the 32-bit reference integers in mc/src/refint.rs. Other limb values are not visited."
c("C16", BIG, BIGN.format("5, thorough 6"))
c("C17", BIG + " through q*d+r=n", BIGN.format("5"))
c("C18", BIG, BIGN.format("4") + " Shift counts 0..140 (thorough 260), and 1000, 4096, 99999, 2^32, 2^63+5, 2^64-1 and beyond 2^64.")
c("C19", BIG, BIGN.format("4") + " Exponents up to 140 (thorough 300) for small bases.")
exec(open(V + "/tools/manifest_more.py").read()) if os.path.exists(V + "/tools/manifest_more.py") else None

checks = []
for i in ids:
    if i in C:
        t, l, n = C[i]
        checks.append({"property": i, "quick_cmd": f"VERIF_TIER=quick bash check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": t, "level": l, "level_note": n})
NA = [{"property": i, "reason": "not built yet: the check of this property is under construction"} for i in ids if i not in C]
hooks = json.load(open(V + "/tools/hooks.json")) if os.path.exists(V + "/tools/hooks.json") else None
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": NA,
     "notes": "mc/ is the explorer crate (path dependency on /repo/nanvm-lib); known_findings.txt lists genuine defects."}
if hooks:
    m["hooks"] = hooks
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
