from rules.own import SPEC, LIB
from rules.generic import Scope as S, run_scoped, CONTRACT_RULE
RULE = ("object lifetime typestate: after every call that releases an object (allocator release, every *Free/*Destroy function found to release its argument, release slots) all paths are "
        "explored until the object's name is rebound: the object must not be read, written, passed on, released again or returned, and when it was reached through a field of an object that "
        "lives on, that field must be overwritten before the function returns. " + CONTRACT_RULE)
ASSUMPTIONS = ["two loads of the same address yield the same object unless a store to that address or a call that receives the containing object lies between them",
               "fields reviewed as harmless to leave (the containing object is about to be discarded): rules/baseline/uaf.json"]
SCOPES = [S(LIB, obs=False, duties=r"UpRef|RefUp|REF_UP|Ref$|References|AtomicAdd|^atomic"), S(LIB, atoms=r"UpRef|RefUp|REF_UP|_Dup$|^\w*DupCtx$|References|AtomicAdd|[.]references?$|refCount", err=False), S(["bsl/sal/src/sal_atomic.c"])]


def run(r):
    run_scoped(r, SCOPES, analyses={"uaf": dict(SPEC, scope=LIB + ["apps/"])})
    res = r.res["uaf"]
    if res["sites"] < 2000:
        r.broken.append("only %d releasing calls found" % res["sites"])
    r.evals += res["sites"]
    r.nontrivial.update("site%d" % i for i in range(res["sites"]))
    r.samples += [{"site": s} for s in res.get("samples", [])[:8]]
    r.extra.update(releasing_calls=res["sites"], through_fields=res["field_sites"], functions_with_releases=res["functions"], state_bound_hit=res["overflow"], explored_steps=res["steps"])
    if res["lost"]:
        r.broken.append("%d chunks not analysed" % res["lost"])
    for v in res["viol"]:
        v["item"] = v["kind"] + " " + v["callee"]
    r.report(res["viol"], "uaf", "item", fmt=lambda x: "%s: the object released through %s at %s is %s at %s" % (
        x["fn"], x["callee"], x["site"], "still reachable through its field when the function returns" if x["kind"] == "left" else x["kind"], x["use"]))
