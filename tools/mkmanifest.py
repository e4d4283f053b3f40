"""MANIFEST.json from contracts/registry.py"""
import json, os, sys
sys.dont_write_bytecode = True
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from contracts.registry import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
assert set(ids) == set(PROPS) | set(NOT_APPLICABLE) and not set(PROPS) & set(NOT_APPLICABLE), (set(ids) ^ (set(PROPS) | set(NOT_APPLICABLE)))
m = dict(version=1, setup_cmd="python3-vt tools/setup.py",
    checks=[dict(property=p, quick_cmd="python3-vt check.py " + p, thorough_cmd="VERIF_TIER=thorough python3-vt check.py " + p,
                 technique=PROPS[p].get("technique", "deductive verification of the real source: method contracts, verification conditions discharged by z3/cvc5"),
                 level=PROPS[p]["level"], level_note=PROPS[p]["note"]) for p in ids if p in PROPS],
    not_applicable=[dict(property=p, reason=NOT_APPLICABLE[p]) for p in ids if p in NOT_APPLICABLE],
    notes="Contracts live in contracts/, the VC generator that reads /repo/src/satisfy on every run in pyvc/; search/ is the labelled bounded cross-check and counterexample finder.  No hooks in /repo.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
