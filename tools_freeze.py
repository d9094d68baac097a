#!/usr/bin/env python3
"""Development tool: writes rules/baseline/<name>.json from reports that were reviewed by hand on the pinned tree.
Never called by a check."""
import collections, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))


def freeze(name, reports, item="callee", why=lambda r: ""):
    c = collections.Counter((r["file"], r["fn"], r[item]) for r in reports)
    w = {(r["file"], r["fn"], r[item]): why(r) for r in reports}
    ex = []
    for (f, fn, it), n in sorted(c.items()):
        e = {"file": f, "fn": fn, "item": it}
        if n > 1:
            e["n"] = n
        if w[(f, fn, it)]:
            e["why"] = w[(f, fn, it)]
        ex.append(e)
    with open(os.path.join(HERE, "rules", "baseline", name + ".json"), "w") as o:
        o.write('{"exceptions": [\n' + ",\n".join(json.dumps(e) for e in ex) + "\n]}\n")
