SCOPE = ["bsl/", "crypto/", "tls/", "pki/", "auth/", "codecs/", "apps/"]
# results that carry no failure by design: comparison/lookup results, lock and error-stack bookkeeping, printing
SKIP = ["BSL_SAL_ThreadUnlock", "BSL_SAL_ThreadWriteLock", "BSL_SAL_ThreadReadLock", "BN_Cmp", "BinCmp", "BSL_PRINT_Fmt",
        "BSL_ERR_PopToMark", "BSL_ERR_SetMark", "BSL_ERR_ClearLastMark", "BSL_UIO_ClearFlags", "BSL_UIO_SetFlags",
        "BSL_PARAM_InitValue", "BN_Zeroize", "MapVersion2VersionBit", "OptimizerStart", "SAL_Write", "SAL_Read", "SAL_Sendto", "SAL_Recvfrom"]
RULE = ("error-flow: for every call of a status-returning function (or status-returning method slot) inside a function that itself "
        "reports status or returns an object, the call is assumed to return an error code no code compares against and the caller is "
        "explored path-sensitively; it must not return success / an object on any path after that call.")
ASSUMPTIONS = ["one failing call per run", "a status function is one that returns both 0 and an error constant (or another status function's result)",
               "call sites where the failure is deliberately absorbed are reviewed exceptions (rules/baseline/err.json)"]


def run(r):
    res = r.analysis({"errprop": {"scope": SCOPE, "skip": SKIP}})["errprop"]
    if res["sites"] < 2000:
        r.broken.append("only %d status call sites found" % res["sites"])
    r.evals += res["sites"]
    r.nontrivial.update(range(res["sites"]))
    r.samples += [{"site": s} for s in res.get("samples", [])[:10]]
    r.extra.update(functions=res["functions"], state_bound_hit=res["overflow"], lost_chunks=res["lost"], explored_steps=res["steps"])
    r.report(res["viol"], "err",
             fmt=lambda x: "%s: failure of %s at %s is swallowed: returns %s at %s" % (x["fn"], x["callee"], x["site"], x["how"], x["use"]))
