#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import P
NOTES = {}
try:
    from props import NOTES
except ImportError:
    pass
TECH = {
    "C0": "model-based property testing (proptest): random parser expressions vs a reference interpreter",
    "C1": "model-based property testing (proptest): random parser expressions vs a reference interpreter",
    "C2": "property testing (proptest): generated cron specs and instants vs an independent calendar oracle",
    "C3": "grammar-based generation and mutation (proptest) vs an independent RFC 3986 reference and std::net",
    "C4": "grammar-based generation (proptest) of documents vs a reference configuration model",
    "C5": "generated programs (proptest) vs a reference interpreter",
}
SPECIFIC = {
    "C05": "property testing (proptest): metamorphic laws over random parser expressions",
    "C06": "property testing (proptest) against std's ASCII classes and set definitions",
    "C07": "property testing (proptest) against prefix comparison and the regex crate",
    "C12": "property testing (proptest): totality invariant over failing parses",
    "C13": "property testing (proptest): differential byte/char runs",
    "C14": "differential property testing (proptest) against serde_json and generated trees",
    "C17": "property testing (proptest): generated inputs of hundreds of thousands of elements vs a closed form",
    "C15": "property testing (proptest) of helper algebra",
}
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "state": p["state"],
                        "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]],
                        "observe_at": p["observe"], "hook_needed": None},
        }, ensure_ascii=False) + "\n")
checks = []
for p in P:
    i = p["id"]
    checks.append({
        "property": i,
        "quick_cmd": f"./run.sh {i}",
        "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": SPECIFIC.get(i, TECH[i[:2]]),
        "level": "exploration",
        "level_note": NOTES.get(i, "Generated-input search against an explicit oracle: no counterexample among the cases the evidence "
                                "counts; inputs outside the generators' domain (see DESIGN.md) are not covered. Trusts the oracle "
                                "written in the harness and proptest."),
    })
man = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks: every check drives public API (toys, a binary crate, by compiling its source files). Thorough tier: same "
             "facets with 10-100 times the cases.",
}
json.dump(man, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
