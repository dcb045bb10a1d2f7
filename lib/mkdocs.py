"""Regenerate /verif/properties.jsonl and /verif/MANIFEST.json from catalog.py and props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from catalog import CAT
from props import PROPS, NOT_APPLICABLE
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(HERE + "/properties.jsonl", "w") as f:
    for k in sorted(CAT):
        assert len(CAT[k]["title"]) <= 80, (k, len(CAT[k]["title"]))
        f.write(json.dumps(CAT[k], ensure_ascii=False) + "\n")
checks = []
for k in sorted(PROPS):
    p = PROPS[k]
    be = ["Verus (Z3) on functions lifted mechanically from /repo on every run"] if p["units"] else []
    if p.get("kani"): be.append("Kani (CBMC) on the real crates")
    note = "; ".join(p.get("assumptions", []))
    if p.get("bounded"): note = (note + ". " if note else "") + "Bounded stand-in (not counted as proof): " + p["bounded"]
    checks.append(dict(property=k, quick_cmd=f"python3 check.py {k}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {k}",
                       technique="contract-based deductive verification: " + " and ".join(be), level=p.get("level", "proof"), level_note=note))
m = dict(version=1, setup_cmd="python3 lib/selftest.py", checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in sorted(NOT_APPLICABLE.items())])
assert set(CAT) == set(PROPS) | set(NOT_APPLICABLE), set(CAT) ^ (set(PROPS) | set(NOT_APPLICABLE))
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
print(len(CAT), "properties,", len(checks), "checks")
