from rules.own import SPEC, LIB
from rules.generic import Scope as S, run_scoped, CONTRACT_RULE
RULE = ("ownership: for every call that hands a new object to its caller (the allocator, every function that returns or stores through an out-parameter an object its "
        "caller owns, found by recursive summaries) all paths of the caller are explored; at each return the object must have been released, handed over "
        "(stored in another object, passed to a keeper) or returned. Calls that take ownership are also assumed to fail, in which case the object is still the caller's. " + CONTRACT_RULE)
ASSUMPTIONS = ["callees of unknown body may keep what they are given", "an object stored in another object is that object's responsibility (release duties of its owner are frozen contracts)",
               "a call that takes ownership does not keep the object when it fails; reviewed exceptions: rules/baseline/release.json"]
SCOPES = [S(LIB, obs=False, duties=r"Free|Destroy|FREE|Deinit|DeInit|Release|fclose|^close$|Unload|dlclose")]


def run(r):
    run_scoped(r, SCOPES, analyses={"release": SPEC})
    res = r.res["release"]
    if res["sites"] < 800:
        r.broken.append("only %d object sources found" % res["sites"])
    r.evals += res["sites"] + res["failure_cases"]
    r.nontrivial.update("site%d" % i for i in range(res["sites"] + res["failure_cases"]))
    r.samples += [{"site": s} for s in res.get("samples", [])[:8]]
    r.extra.update(object_sources=res["sites"], failing_handovers=res["failure_cases"], functions_with_sources=res["functions"], state_bound_hit=res["overflow"], explored_steps=res["steps"])
    if res["lost"]:
        r.broken.append("%d chunks not analysed" % res["lost"])
    r.report(res["viol"], "release", fmt=lambda x: "%s: the object obtained from %s at %s is neither released nor handed over on the path to the return at %s" % (x["fn"], x["callee"], x["site"], x["use"]))
