"""C16: shared state is only touched under the lock that protects it."""
import collections, re
from rules.baseline import load
from rules.c15 import SPEC
RULE = ("guarded-by checking: every read, write or hand-over to a callee of a field of lock-protected shared state is located, the set of locks held there on all paths (within the function and at all its "
        "direct call sites) is computed, and compared with the frozen requirement: a function whose accesses to a field were always made under the field's lock must still hold it, a write must hold "
        "it in write mode, accesses may not move out of the locked section, an object found under the lock is duplicated or kept alive while the lock is still held, and a function that had no access to a guarded field may only gain one under the lock.")
ASSUMPTIONS = ["locks are identified by global variable or by struct field (all objects of one type share a lock class)",
               "accesses without the lock on the reviewed tree (constructors, destructors, start-up, immutable fields) are accepted where they were frozen: rules/baseline/guarded.json",
               "memory reached through a pointer read from a guarded field is covered at the read of that field and where it is handed to a callee"]
GUARDS = {  # lock -> fields it protects
    "@g_errLock": r"@g_(avl|desc|maxAvl|outputFunc)|AvlTree[.]|BSL_ERR_Desc[.]|ErrorCodeStack[.]",
    "@g_oidHashRwLock": r"@g_oidHashTable$", "@g_signHashRwLock": r"@g_signHashTable$", "@g_seedLock": r"EAL_SeedDrbg[.]",
    "EAL_LibCtx.lock": r"EAL_LibCtx[.](providers|searchProviderPath)$", "EAL_RndCtx.lock": r"EAL_RndCtx[.](ctx|id|meth|working|isProvider|isDefault)",
    "EAL_SeedPool.lock": r"EAL_SeedPool[.](es|pool)$|EAL_EntropyCtx[.]|EntropySeedPool[.]",
    "CryptEalEntropySource.lock": r"CryptEalEntropySource[.]es$|ES_Entropy[.]|ES_NoiseSource[.]|ES_EntropyPool[.]|ES_(Rct|Apt)State[.]|ES_CfMethod[.]|ENTROPY_CFPara[.]",
    "TlsSessCtx.lock": r"TlsSessCtx[.](?!lock$)", "TlsSessionManager.lock": r"TlsSessionManager[.](?!lock$)", "_HITLS_X509_Store.rwLock": r"_HITLS_X509_Store[.](caPaths|certs|crls)$",
    "UI_Control.lock": r"UI_Control[.](?!lock$)"}
GRE = {k: re.compile("^(%s)" % v) for k, v in GUARDS.items()}


def rows(acc, calls=()):
    """{(lock, field, file, fn, how): [held, under write lock, not held, [(site not held)], [site read mode]]}"""
    out = {}
    for a in acc:
        ls = a["locks"].split(",") if a["locks"] else []
        for lock, rx in GRE.items():
            if a["field"].startswith("()"):  # objects read under a lock are also copied and kept alive under it
                if not any(x[2:] == lock for x in ls) and (lock, a["field"], a["file"], a["fn"]) not in calls:
                    continue
            elif not rx.match(a["field"]):
                continue
            e = out.setdefault((lock, a["field"], a["file"], a["fn"], a["how"]), [0, 0, 0, [], []])
            held = [x for x in ls if x[2:] == lock]
            if not held:
                e[2] += 1
                e[3].append(a["site"])
            else:
                e[0] += 1
                if any(x[0] == "W" for x in held):
                    e[1] += 1
                else:
                    e[4].append(a["site"])
    return out


def words(field):
    return "a shared object passed to " + field[2:] if field.startswith("()") else field


def run(r):
    res = r.analysis({"locks": dict(SPEC, guarded=["*"])})["locks"]
    base = {tuple(x[:5]): x[5:] for x in load("guarded")["rows"]}
    cur = rows(res["acc"], {k[:4] for k in base})
    known = {(k[2], k[3]) for k in base}
    guarded = set()
    by = collections.defaultdict(list)
    for k, v in base.items():
        by[k[0], k[1]].append(v)
    for k, vs in by.items():
        if sum(v[0] for v in vs) >= 2:
            guarded.add(k)
    touched = {(k[0], k[1], k[2], k[3]) for k in base}
    n = locked = 0
    for k, (h, w, u, usites, rsites) in sorted(cur.items()):
        lock, field, file, fn, how = k
        b = base.get(k)
        n += h + u
        locked += h
        for i in range(h):
            r.obligation("guarded:%s:%d" % (":".join(k), i), True)
        if b is None:
            if field.startswith("()") or (lock, field) not in guarded:
                continue
            anyb = [v for kk, v in base.items() if kk[:4] == k[:4]]
            if u and (not anyb or all(v[2] == 0 for v in anyb)):
                r.violation("guarded:%s" % ":".join(k[:4]), "%s (%s): %s is %s without holding %s at %s" % (fn, file, words(field), how, lock, usites[0]))
            continue
        bh, bw, bu = b
        if u > bu and h < bh:
            r.violation("guarded:%s" % ":".join(k[:4]), "%s (%s): %s is %s without holding %s at %s" % (fn, file, words(field), how, lock, usites[-1]))
        elif w < bw and how != "read" and h - w > bh - bw:
            r.violation("guarded-mode:%s" % ":".join(k[:4]), "%s (%s): %s is %s under %s held only for reading at %s" % (fn, file, field, how, lock, rsites[-1]))
        elif u and bu == 0:
            r.violation("guarded:%s" % ":".join(k[:4]), "%s (%s): %s is %s without holding %s at %s" % (fn, file, words(field), how, lock, usites[0]))
    r.samples += [{"access": "%s %s %s in %s" % (k[0], k[1], k[4], k[3])} for k in sorted(cur)[:400:50]]
    r.evals += n
    r.extra.update(accesses=n, under_lock=locked, guarded_fields=len({k[1] for k in cur}), lock_sites=res["lock_sites"])
    if locked < 300:
        r.broken.append("only %d accesses under a lock found" % locked)
