ALLOC = ["BSL_SAL_Malloc", "BSL_SAL_Calloc", "BSL_SAL_Dump", "BSL_SAL_Realloc"]
SCOPE = ["bsl/", "crypto/", "tls/", "pki/", "auth/", "codecs/"]
RULE = ("null-fault propagation: for every call site that can yield NULL because memory ran out (the allocator, every function "
        "that returns its NULL, every constructor slot one of them is stored in) the result is assumed NULL and the containing "
        "function is explored path-sensitively; it must not dereference the NULL (directly, through memory routines, or in a "
        "callee, by recursive summaries) and must not report success / return an object afterwards.")
ASSUMPTIONS = ["only the allocator fails; one failure per run", "callees of unknown body (function pointers, libc) do not dereference NULL unless listed",
               "the success report after a failure is an error unless the site is a reviewed exception (rules/baseline/alloc.json)"]


def run(r):
    res = r.analysis({"allocnull": {"alloc": ALLOC, "scope": SCOPE}})["allocnull"]
    if res["sites"] < 500:
        r.broken.append("only %d allocation sites found" % res["sites"])
    r.evals += res["sites"]
    r.nontrivial.update(range(res["sites"]))
    r.samples += [{"site": s} for s in res.get("samples", [])[:10]]
    r.extra.update(functions_with_sites=res["functions"], null_returning_functions=res["nullret"],
                   state_bound_hit=res["overflow"], lost_chunks=res["lost"], explored_steps=res["steps"])
    r.report([x for x in res["viol"] if x.get("kind") != "swallow"], "alloc_deref",
             fmt=lambda x: "%s: NULL from %s at %s is used at %s (%s)" % (x["fn"], x["callee"], x["site"], x["use"], x["how"]))
    r.report([x for x in res["viol"] if x.get("kind") == "swallow"], "alloc",
             fmt=lambda x: "%s: allocation failure of %s at %s is not reported: %s at %s" % (x["fn"], x["callee"], x["site"], x["how"], x["use"]))
