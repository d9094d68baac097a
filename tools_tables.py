#!/usr/bin/env python3
"""Development tool: freezes rules/baseline/tables.json. usage: tools_tables.py LIST_O0 [soft:LIST of differently compiled copies]... [LIST of refactored copies]...
Entries that an independent, differently shaped compilation of the same sources contradicts depend on the shape of the code and are dropped."""
import json, os, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from rules import table


def engine(lst, spec):
    t = tempfile.mkdtemp()
    json.dump({"jobs": 8, "tables": spec, "names": {k: spec[k] for k in ("static", "known")}}, open(t + "/s", "w"))
    subprocess.check_call([os.path.join(HERE, "build", "hsa"), lst, t + "/s", t + "/o", "/repo"])
    return json.load(open(t + "/o"))


def main():
    names = json.load(open(os.path.join(HERE, "rules/baseline/names.json")))
    extra = json.load(open(os.environ["HSA_EXTRA"])) if "HSA_EXTRA" in os.environ else []
    base = engine(sys.argv[1], names | {"extra": extra})
    roots = []
    for r in base["tables"]:
        if r["status"] != "ok":
            continue
        d = {k: r[k] for k in ("root", "file", "nargs", "callees")}
        d["t"] = {k: list(map(list, zip(v["v"], v["n"]))) for k, v in r["t"].items()}
        d["in"] = {k: v["in"] for k, v in r["t"].items() if v["in"] != r["root"]}
        roots.append(d)
    # what a check sees: calls that remained after inlining stay calls
    again = engine(sys.argv[1], {"static": names["static"], "known": names["known"], "roots": [{k: r[k] for k in ("root", "file", "callees")} for r in roots]})
    diff = 0
    for r, e in zip(roots, again["tables"]):
        if e["status"] != "ok":
            continue
        t = {k: list(map(list, zip(v["v"], v["n"]))) for k, v in e["t"].items()}
        if t != r["t"]:
            diff += 1
            r["t"] = t
            r["in"] = {k: v["in"] for k, v in e["t"].items() if v["in"] != r["root"]}
    print("tables that depend on kept calls", diff)
    fields = set(base["fields"])
    for lst in sys.argv[1:]:
        soft, lst = lst.startswith("soft:"), lst.replace("soft:", "")
        res = engine(lst, {"static": names["static"], "known": names["known"], "roots": [{k: r[k] for k in ("root", "file", "callees")} for r in roots]})
        n = 0
        for r, e in zip(roots, res["tables"]):
            if e["status"] != "ok":
                continue
            if not soft:
                for key, text in table.compare(r, e, fields):
                    n += r["t"].pop(key, None) is not None
                    r.setdefault("soft", []).append(key)
            else:
                old, new = {k: dict(map(tuple, v)) for k, v in r["t"].items()}, table.counts(e)
                less, more = {k for k in old if any(new.get(k, {}).get(v, 0) < c for v, c in old[k].items())}, {k for k in new if any(old.get(k, {}).get(v, 0) < c for v, c in new[k].items())}
                for key, text in table.identity(r, e, old, new, less, more) if "/o1/" not in lst else ():  # the optimiser drops field names
                    r.setdefault("soft", []).append(key)
                    n += 1
                for key, v in r["t"].items():
                    a, b = {x[0] for x in v}, set(e["t"].get(key, {"v": []})["v"])
                    if key[0] not in "KTNZ" and b and a - b and b - a - ({0, 1, -1} if key == "Q|" else set()):
                        r.setdefault("soft", []).append(key)
                        n += 1
        print(lst, "dropped", n)
    roots = [r for r in roots if r["t"]]
    for r in roots:
        if "soft" in r:
            r["soft"] = sorted(set(r["soft"]))
    gl = [{k: g[k] for k in ("name", "file", "el")} | ({"fn": g["fn"]} if "fn" in g else {}) for g in base["globals"]]
    with open(os.path.join(HERE, "rules/baseline/tables.json"), "w") as f:
        f.write('{"roots":[\n' + ",\n".join(json.dumps(r, separators=(",", ":")) for r in sorted(roots, key=lambda r: (r["file"], r["root"]))))
        f.write('\n],"globals":[\n' + ",\n".join(json.dumps(g, separators=(",", ":")) for g in sorted(gl, key=lambda g: (g["file"], g["name"], g.get("fn", "")))) + "\n]}\n")
    print("roots", len(roots), "entries", sum(len(r["t"]) for r in roots), "globals", len(gl))


main()
