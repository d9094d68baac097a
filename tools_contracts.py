#!/usr/bin/env python3
"""Development tool: freezes rules/baseline/contracts.json and names.json from mining results.
usage: tools_contracts.py MINE_RESULT.json INDEX.json LIST_O0 LIST_O1
A mined contract is kept when it holds on the tree and when an independent, differently shaped compilation of the same
sources (clang -O1 without inlining) does not contradict it: contracts whose proof depends on the shape of the code go."""
import itertools, json, os, re, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
DIR = os.path.join(HERE, "rules", "baseline")
sys.path.insert(0, HERE)
from rules.canon import Canon


# calls without an observable effect of their own, or interchangeable with other calls of the same effect: no duty is frozen on them
UTIL = re.compile(r"^(BN_(Create|Bytes|Bn2Bin|Bin2Bn|Dup|Copy|SetLimb|Bits|IsZero|IsOne|Get\w*|Zeroize|OptimizerCreate|SecBits|SetFlag)|Optimizer\w+|BnExtend|BN_Extend"
                  r"|BSL_PARAM_\w+|BSL_LIST_(New|Search\w*|Get\w*|First\w*|Curr\w*|Next\w*)|ECC_(NewPoint|Get\w*|DupPoint|CopyPoint)|\*?\w*(newCtx|Get\w*Method)|mem\w+|str\w+|BSL_ByteTo\w+|BSL_Uint\w+"
                  r"|\w*_?(New|NewCtx|Create|Malloc|Calloc|Dump|Realloc)(Ex)?|BSL_SAL_(Malloc|Calloc|Dump|Realloc|Mem\w*|Str\w*|CurrentSysTimeGet|GetPid)|\w*(Get|get)[A-Z]\w*|llvm\.\w+.*|printf|snprintf|.*ERR_.*|.*LOG.*)$")


def leaf_atom(l, v):
    m = re.fullmatch(r"a(\d+)", l)
    if m:
        return {"k": "arg", "i": int(m.group(1)), "v": v}
    if l.startswith("F:"):
        return {"k": "field", "n": l[2:], "v": v}
    m = re.fullmatch(r"O:(\w+)#(\d+)@0:\d+", l)
    if m:
        return {"k": "out", "n": m.group(1), "i": int(m.group(2)), "v": v}
    m = re.fullmatch(r"C:(\w+)", l)
    if m:
        return {"k": "call", "n": m.group(1), "v": v}
    m = re.fullmatch(r"E:([\w.#]+)@0:(\d+)", l)
    if m:
        return {"k": "elem", "n": m.group(1), "i": int(m.group(2)), "v": v}
    return None


MENU = [1, 2, 3, 16, 0, 8, 9, 15, 17, 4, 7, 31, 32, 33, 64, 5, 6, 127, 128, 254, 255, 256, 1000, 20480, 20481, 65534, 65535, 65536]


def instances(o):
    """an observation on an expression, restated as observations on the values the expression is made of"""
    ex = [a for a in o["as"] if a["k"] == "ex"]
    rest = [a for a in o["as"] if a["k"] != "ex"]
    if len(ex) != 1 or ex[0]["v"] == "nz":
        return []
    try:
        c = Canon(ex[0]["n"])
    except (ValueError, IndexError):
        return []
    if not 1 <= len(c.leaves) <= 3 or any(leaf_atom(l, 0) is None for l in c.leaves):
        return []
    out, step = [], set()
    for vals in itertools.product(MENU if len(c.leaves) < 3 else MENU[:12], repeat=len(c.leaves)):
        try:
            r = c.ev(dict(zip(c.leaves, vals)))
        except ValueError:
            continue
        if r == ex[0]["v"] or (ex[0]["v"] == -1 and r in (0xffffffff, 0xffff, 0xff)):
            out.append(dict(o, **{"as": rest + [leaf_atom(l, v) for l, v in zip(c.leaves, vals)]}))
            if len(out) == 3:
                break
    return out


def main():
    mine = json.load(open(sys.argv[1]))["mine"]
    bans = {}
    if len(sys.argv) > 5:
        for r in json.load(open(sys.argv[5]))["mine"]:
            if r.get("bans"):
                bans[(r["file"], r["root"])] = r
    names = json.load(open(sys.argv[2]))
    roots = []
    for r in mine:
        if "sink" not in r:
            continue
        b = bans.pop((r["file"], r["root"]), None) if not r["sink"] in ("false", "iz", "inz") else None
        if r.get("obs") or r.get("duties") or b:
            d = {k: r[k] for k in ("root", "file", "sink", "callees", "nargs")}
            d["obs"] = [{k: v for k, v in o.items() if k != "loc"} for o in r.get("obs", [])]
            d["duties"] = [{k: v for k, v in o.items() if k != "loc"} for o in r.get("duties", []) if not UTIL.search(o["do"]["n"]) or o["do"]["k"] != "call" or (o["do"].get("da") and re.search(r"memcpy|memset|memmove", o["do"]["n"]))]
            d["bans"] = [{"as": o["as"], "no": o["no"], "in": o["in"]} for o in b["bans"]] if b else []
            roots.append(d)
    for b in bans.values():
        roots.append(dict({k: b[k] for k in ("root", "file", "sink", "callees", "nargs", "bans")}, obs=[], duties=[]))

    # observations on derived expressions depend on how the source writes the expression: restate them on the underlying values where possible
    stat = [0, 0, 0]
    origin = {}
    for r in roots:
        for kind in ("obs", "bans"):
            new = []
            for o in r[kind]:
                if not any(a["k"] == "ex" for a in o["as"]):
                    new.append(o)
                    continue
                inst = instances(o)
                stat[0] += 1
                stat[1] += bool(inst)
                stat[2] += len(inst)
                new += [dict(i) for i in inst]
                if kind == "obs" and not inst:
                    new.append(o)
            seen, r[kind] = set(), []
            for o in new:
                k = json.dumps([o["as"], o.get("no")], sort_keys=True)
                if k not in seen:
                    seen.add(k)
                    r[kind].append(o)
        
    print("expressions", *stat)

    def evaluate(lst, roots):
        t = tempfile.mkdtemp()
        json.dump({"jobs": 8, "names": names, "contracts": dict(names, roots=roots)}, open(t + "/s", "w"))
        subprocess.check_call([os.path.join(HERE, "build", "hsa"), lst, t + "/s", t + "/o", "/repo"])
        return json.load(open(t + "/o"))["contracts"]
    drop, ddrop = {}, {}
    def alarm(b):  # the condition under which rules/generic.py reports
        return not ("gone" in b["used"] or "rewritten" in b["used"])
    # further lists: the same program with helpers extracted at random; what these contradict depends on the shape of the code
    for lst, strict in [(sys.argv[3], True), (sys.argv[4], False)] + [(x, None) for x in sys.argv[6:]]:
        n = m = q = 0
        for r, e in zip(roots, evaluate(lst, roots)):
            for b in e.get("bad", []):
                if strict or all(u == "used" for u in b["used"]) or (strict is None and alarm(b)):
                    drop.setdefault(id(r), set()).add(b["i"])
                    n += 1
            for b in e.get("dbad", []):
                if strict is False and not (b["duty"] == "present" and all(u == "used" for u in b["used"])):
                    continue  # optimisation removes the field names of many accesses
                ddrop.setdefault(id(r), set()).add(b["i"])
                m += 1
            for b in e.get("bbad", []):
                if strict or all(u == "used" for u in b["used"]) or (strict is None and alarm(b)):
                    o = r["bans"][b["i"]]
                    o["no"] = [k for k in o["no"] if k not in b["acts"]]
                    q += len(b["acts"])
            r["bans"] = [o for o in r["bans"] if o["no"]]
        print(lst, "dropped", n, m, q)
    total = dtotal = btotal = 0
    with open(os.path.join(DIR, "contracts.json"), "w") as f:
        f.write("[\n")
        first = True
        for r in sorted(roots, key=lambda r: (r["file"], r["root"])):
            r["obs"] = [o for i, o in enumerate(r["obs"]) if i not in drop.get(id(r), ())]
            r["duties"] = [o for i, o in enumerate(r["duties"]) if i not in ddrop.get(id(r), ())]
            if not r["obs"] and not r["duties"] and not r["bans"]:
                continue
            total += len(r["obs"])
            dtotal += len(r["duties"])
            btotal += len(r["bans"])
            f.write(("" if first else ",\n") + json.dumps(r, separators=(",", ":")))
            first = False
        f.write("\n]\n")
    json.dump(names, open(os.path.join(DIR, "names.json"), "w"), indent=0)
    print("contracts", total, "duties", dtotal, "bans", btotal)


main()
