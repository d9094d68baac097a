"""Shared machinery of the scoped rules: rejection contracts and error flow over the functions a property is anchored in."""
import collections, re
from rules.baseline import load
from rules.c18 import SKIP
from rules import table

CONTRACT_RULE = (
    "rejection contracts: each contract says that while the stated observations hold (an argument, a state field, the result or "
    "output of a called function, a byte read) the function does not report success. The function, with its file-local helpers and every "
    "function that is new since the contracts were frozen inlined, is explored path-sensitively (conditional constants and intervals) "
    "under the observations; the contract fails if a success return is still reachable. Contracts were mined from the reviewed tree, kept only "
    "when causal (taking the opposite branch of the guard makes success reachable) and frozen in rules/baseline/contracts.json.")
ERR_RULE = ("error flow: each call of a status-returning function in scope is assumed to fail with an unknown error code; its caller must not "
            "report success afterwards (reviewed exceptions: rules/baseline/err.json).")
ASSUME = ["clang 18 bitcode of the x86_64 'full' configuration represents the program",
          "callees outside the inlined region return any value of their type and only modify objects passed to them",
          "a struct field is identified by type and field name",
          "a contract whose observation no longer occurs in a function that gained new callees is reported as not evaluated, not as a violation"]


class Scope:
    """files: path prefixes; roots: optional regex over function names; atoms: optional regex over observation names."""
    def __init__(self, files, roots=None, atoms=None, kinds=None, config="main", err=True, inner=None, duties="", obs=True):
        self.files = [files] if isinstance(files, str) else list(files)
        self.roots = re.compile(roots) if roots else None
        self.atoms = re.compile(atoms) if atoms else None
        self.inner = re.compile(inner) if inner else None
        self.kinds = kinds
        self.err = err and obs
        self.obs = obs
        self.duties = re.compile(duties) if duties is not None else None

    def infile(self, f):
        return any(f.startswith(p) for p in self.files)

    def fn(self, file, fn):
        return self.infile(file) and (not self.roots or bool(self.roots.search(fn)))

    def duty(self, r, o):
        """is the duty o of root r decided under this scope?"""
        if self.duties is None or self.kinds or not self.infile(r["file"]):
            return False
        if self.roots and not (self.roots.search(r["root"]) or self.roots.search(o.get("in", ""))):
            return False
        if self.atoms and not any(self.atoms.search(n) for n in [o["do"].get("n", "")] + [a.get("n", "") for a in o["as"]]):
            return False
        return bool(self.duties.search(o["do"].get("n", "")))

    def ban(self, r, o):
        """is the ban o (actions excluded while observations hold) decided under this scope?"""
        if self.kinds or self.duties is None or not self.infile(r["file"]):
            return False
        if self.roots and not (self.roots.search(r["root"]) or self.roots.search(o.get("in", ""))):
            return False
        if self.atoms and not any(self.atoms.search(n) for n in list(o["no"]) + [a.get("n", "") for a in o["as"]]):
            return False
        return any(self.duties.search(n) for n in o["no"])

    def table_root(self, file, root):
        return self.obs and not self.kinds and self.infile(file)

    def table_key(self, root, key, inner):
        if self.roots and not (self.roots.search(root) or self.roots.search(inner)):
            return False
        return not self.atoms or any(self.atoms.search(n) for n in table.names_of(key))

    def table_global(self, g):
        return self.obs and not self.kinds and not self.atoms and self.infile(g["file"]) and (not self.roots or bool(self.roots.search(g.get("fn", g["name"]))))

    def contract(self, r, o):
        if not self.obs or not self.infile(r["file"]):
            return False
        if self.roots and not (self.roots.search(r["root"]) or self.roots.search(o.get("in", ""))):
            return False
        if self.kinds and not any(a["k"] in self.kinds for a in o["as"]):
            return False
        if self.atoms and not any(self.atoms.search(a.get("n", "")) for a in o["as"]):
            return False
        return True


def words(a):
    v = "an error/non-zero" if a["v"] == "nz" else str(a["v"])
    k = a["k"]
    if k == "arg":
        return "argument %d is %s" % (a["i"] + 1, v)
    if k == "field":
        return "%s%s is %s" % (a["n"], " (of argument %d)" % a["i"] if a.get("i", 0) > 0 else "", v)
    if k == "ex":
        return "[%s] is %s" % (a["n"], v)
    if k == "global":
        return "global %s is %s" % (a["n"], v)
    if k == "elem":
        return "the value read through %s is %s" % (("argument %d" % (int(a["n"][1:]) + 1)) if a["n"].startswith("#") else a["n"], v)
    d = "".join(" (argument %d = %s)" % (i + 1, x) for i, x in a.get("ca", []) + a.get("fa", []) + a.get("da", []))
    d += "".join(" (%s also goes to %s)" % ("its result" if i < 0 else "argument %d" % (i + 1), x) for i, x in a.get("pa", []))
    if k == "ev":
        return "%s%s was called" % (a["n"], d)
    if k == "out":
        return "%s%s yields %s through argument %d" % (a["n"], d, v, a["i"] + 1)
    return "%s%s returns %s" % (a["n"], d, v)


# value-conversion helpers: replacing them by equivalent expressions is not a change of behaviour
UTIL = re.compile(r"^(BSL_ByteTo|BSL_Uint|BSL_LIST_|mem|str|BSL_SAL_Mem|BSL_SAL_Malloc|BSL_SAL_Calloc|BSL_SAL_Dump|BSL_ERR)")


WHEN = {"ok": "every successful return", "fail": "every failing return", "any": "every return"}


def duty_words(o):
    d = o["do"]
    if d["k"] == "store":
        act = "sets %s%s" % (d["n"], " to %s" % d["v"] if d.get("v") is not None else " to [%s]" % d["ve"] if d.get("ve") else "")
    else:
        act = "calls %s%s" % (d["n"], "".join(" (argument %d = %s)" % (i + 1, x) for i, x in (d.get("ca") or []) + (d.get("da") or [])))
    w = WHEN.get(o["when"], o["when"])
    if o.get("ev"):
        w += " after %s" % (o["ev"]["n"] if isinstance(o["ev"], dict) else o["ev"])
    if o["as"]:
        w += " with " + " and ".join(words(a) for a in o["as"])
    return "%s %s" % (w, act)


def act_words(k):
    return ("set " if k[0] == "S" else "call ") + k[2:]


def contracts_spec(scopes):
    roots = []
    for r in load("contracts"):
        obs = [o for o in r["obs"] if any(s.contract(r, o) for s in scopes)]
        duties = [o for o in r["duties"] if any(s.duty(r, o) for s in scopes)]
        bans = [o for o in r.get("bans", []) if any(s.ban(r, o) for s in scopes)]
        if obs or duties or bans:
            roots.append(dict(r, obs=obs, duties=duties, bans=bans))
    return roots


def judge_contracts(run, roots, results):
    n = held = dn = dheld = bn = bheld = 0
    for r, e in zip(roots, results):
        n += len(r["obs"])
        dn += len(r["duties"])
        if e["status"] != "ok":
            run.broken.append("%s (%s): %s, %d contracts not evaluated" % (r["root"], r["file"], e["status"], len(r["obs"]) + len(r["duties"]) + len(r["bans"])))
            continue
        bad = {b["i"]: b for b in e["bad"]}
        held += e["held"]
        if e["overflow"]:
            run.notes.append("%s: state bound hit in %d contracts" % (r["root"], e["overflow"]))
        for i, o in enumerate(r["obs"]):
            ident = "%s:%s:%s:%d" % (r["file"], r["root"], r["sink"], i)
            what = " and ".join(words(a) for a in o["as"])
            b = bad.get(i)
            if b is None:
                run.obligation(ident, True, {"function": r["root"], "file": r["file"], "never_succeeds_when": what} if len(run.samples) < 8 else None)
                continue
            if "gone" in b["used"] or "rewritten" in b["used"] or ("unused" in b["used"] and (e["newcallees"] or any(
                    u == "unused" and a["k"] == "call" and UTIL.search(a["n"]) for u, a in zip(b["used"], o["as"])))):
                run.broken.append("%s (%s): observation no longer present: %s" % (r["root"], r["file"], what))
                continue
            run.obligation(ident, True)
            run.violation("contract:%s:%s:%s" % (r["file"], r["root"], what),
                          "%s (%s) can report success at %s although %s" % (r["root"], r["file"], b["where"], what), "path: " + b["path"])
        bbad = {b["i"]: b for b in e.get("bbad", [])}
        bn += len(r.get("bans", []))
        bheld += e.get("bheld", 0)
        for i, o in enumerate(r.get("bans", [])):
            ident = "%s:%s:b%d" % (r["file"], r["root"], i)
            b = bbad.get(i)
            what = " and ".join(words(a) for a in o["as"])
            if b is None:
                run.obligation(ident, True, {"function": r["root"], "file": r["file"], "when": what, "never": [act_words(k) for k in o["no"][:6]]} if len(run.samples) < 12 else None)
                continue
            if "gone" in b["used"] or "rewritten" in b["used"] or ("unused" in b["used"] and e["newcallees"]):
                run.broken.append("%s (%s): observation no longer present: %s" % (r["root"], r["file"], what))
                continue
            run.obligation(ident, True)
            for k in b["acts"]:
                run.violation("ban:%s:%s:%s:%s" % (r["file"], r["root"], what, k),
                              "%s (%s) can %s at %s although %s" % (r["root"], r["file"], act_words(k), b["where"], what))
        dbad = {b["i"]: b for b in e.get("dbad", [])}
        dheld += e.get("dheld", 0)
        for i, o in enumerate(r["duties"]):
            ident = "%s:%s:%s:d%d" % (r["file"], r["root"], r["sink"], i)
            what = duty_words(o)
            b = dbad.get(i)
            if b is None:
                run.obligation(ident, True, {"function": r["root"], "file": r["file"], "duty": what} if len(run.samples) < 12 else None)
                continue
            if b["duty"] == "gone" or (e["newcallees"] and (b["duty"] == "absent" or any(u != "used" for u in b["used"]))) or "gone" in b["used"]:
                run.broken.append("%s (%s): duty no longer present: %s" % (r["root"], r["file"], what))
                continue
            run.obligation(ident, True)
            run.violation("duty:%s:%s:%s" % (r["file"], r["root"], what),
                          "%s (%s) returns at %s without this: %s" % (r["root"], r["file"], b["where"], what), "path: " + b["path"])
    run.extra["contracts"] = n
    run.extra["duties"] = dn
    run.extra["duties_held"] = dheld
    run.extra["bans"] = bn
    run.extra["bans_held"] = bheld
    run.extra["contracts_held"] = held


def run_scoped(run, scopes, queries=None, err=True, analyses=None):
    roots = contracts_spec(scopes)
    names = load("names")
    spec = {"contracts": {"static": names["static"], "known": names["known"],
                          "roots": [{k: r[k] for k in ("root", "file", "sink", "callees", "nargs", "obs", "duties", "bans")} for r in roots]}}
    es = [s for s in scopes if s.err and not s.kinds]
    if es:
        spec["errprop"] = {"scope": sorted({f for s in es for f in s.files}), "skip": SKIP}
    tb = table.Tables(scopes)
    if tb.roots or tb.globals:
        spec["tables"] = tb.spec()
    spec.update(analyses or {})
    res = run.res = run.analysis(spec)
    judge_contracts(run, roots, res["contracts"])
    if "tables" in spec:
        tb.judge(run, res)
    if es:
        e = res["errprop"]
        viol = [v for v in e["viol"] if any(s.fn(v["file"], v["fn"]) and (not s.atoms or s.atoms.search(v["callee"])) for s in es)]
        run.evals += e["sites"]
        run.nontrivial.update("err%d" % i for i in range(e["sites"]))
        run.extra.update(status_call_sites=e["sites"])
        run.report(viol, "err", fmt=lambda x: "%s: failure of %s at %s is swallowed: returns %s at %s" % (x["fn"], x["callee"], x["site"], x["how"], x["use"]))
    if queries:
        run.queries(queries)
