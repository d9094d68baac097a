#!/usr/bin/env python3
"""Development tool: writes properties.jsonl and MANIFEST.json from rules/props.py (single source)."""
import json, os
from rules.props import PROPS, NA
HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    checks, lines = [], []
    for p in PROPS:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["tests"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
        assert len(d["title"]) <= 80, d["title"]
        lines.append(json.dumps(d))
        if p["id"] in NA:
            continue
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"],
                       "thorough_cmd": "python3 check.py %s --thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": p["technique"], "level": "other", "level_note": p["note"]})
    m = {"version": 1, "setup_cmd": "make -s -j8 -C engine OUT=$PWD/build", "checks": checks,
         "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
         "notes": "All checks are static: /repo's current sources are compiled to LLVM bitcode (never executed) and analysed by engine/ under the rules in rules/."}
    open(os.path.join(HERE, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")


main()
