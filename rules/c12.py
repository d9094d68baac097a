from rules.own import SPEC, LIB, clear_only
from rules.baseline import load
from rules.generic import Scope as S, run_scoped, CONTRACT_RULE
RULE = ("wiping: for every buffer a function obtains, the releases reachable on its paths are classified (wiped first or plain); where the reviewed tree always wipes, a plain release "
        "is a violation. Wiping calls on locals, arguments and context fields are duties of their functions on the paths frozen in the contracts. " + CONTRACT_RULE)
ASSUMPTIONS = ["the primitives BSL_SAL_CleanseData and BSL_SAL_ClearFree really overwrite memory (their own bodies are covered by contracts)", "which buffers hold secrets is taken from the reviewed tree: the ones it wipes"]
W = r"^(BSL_SAL_)?(CleanseData|ClearFree)$|^memset$|ClearVfyTag|^BN_(Destroy|Zeroize|Clear)|FreePrvKey|Wipe"
SCOPES = [S(LIB, obs=False, duties=W), S(LIB, atoms=r"^BSL_SAL_(CleanseData|ClearFree)$"), S(["bsl/sal/src/sal_mem.c", "crypto/bn/src/bn_basic.c"], roots=r"Cleanse|ClearFree|Destroy|Free")]


def run(r):
    run_scoped(r, SCOPES, analyses={"release": SPEC})
    res = r.res["release"]
    cur = clear_only(res["release"])
    base = {(f, fn, c): (n, k) for f, fn, c, n, k in load("wipe")["sites"]}
    total = 0
    for key, (n, k) in base.items():
        c = cur.get(key)
        if c is None:
            continue
        total += k
        for i in range(k):
            r.obligation("wipe:%s:%s:%s:%d" % (key + (i,)), True)
        if c[1] < k and c[2] and c[0] >= n:
            r.violation("wipe:%s:%s:%s" % key, "%s (%s): a buffer from %s that was always wiped before release is released unwiped at %s" % (key[1], key[0], key[2], c[2][0]))
    r.extra.update(always_wiped_buffers=total, object_sources=res["sites"])
    if total < 50:
        r.broken.append("only %d wiped buffers found" % total)
