RULE = ("lockset dataflow: every lock acquisition/release is tracked path-sensitively through every function that uses locks and their "
        "callers (summaries for wrappers); reported are: a lock still held when the function returns, acquiring a lock already held "
        "(also through callees), releasing a lock that is not held, and a cycle in the global acquired-while-holding order.")
ASSUMPTIONS = ["locks are identified by global variable or by struct field (all objects of one type share a lock class)",
               "an acquisition whose result is ignored is taken to succeed",
               "hand-over-hand sections across function boundaries are reviewed exceptions (rules/baseline/locks.json)"]
SPEC = {"read": ["BSL_SAL_ThreadReadLock"], "write": ["BSL_SAL_ThreadWriteLock"], "unlock": ["BSL_SAL_ThreadUnlock"]}


def run(r):
    res = r.analysis({"locks": dict(SPEC, guarded=[])})["locks"]
    n = res["lock_sites"] + res["unlock_sites"]
    if res["lock_sites"] < 40:
        r.broken.append("only %d lock sites found" % res["lock_sites"])
    r.evals += n + len(res["edges"])
    r.nontrivial.update(range(n + len(res["edges"])))
    r.samples += [{"lock_site": s} for s in res.get("samples", [])[:8]] + [{"order_edge": e} for e in res["edges"][:4]]
    r.extra.update(lock_sites=res["lock_sites"], unlock_sites=res["unlock_sites"], functions=res["functions"], order_edges=len(res["edges"]),
                   wrappers=res["wrappers"], state_bound_hit=res["overflow"], explored_steps=res["steps"])
    rep = [dict(x, item=x["kind"] + ":" + x["callee"]) for x in res["viol"] if x["kind"] != "unlock-after-failed-lock"]
    r.report(rep, "locks", item="item", fmt=lambda x: "%s: %s (%s) at %s" % (x["fn"], x["how"], x["callee"], x["site"]))
