"""Decision tables: where the comparisons of a function split the values they look at, the constants it stores, returns and
passes on, and the contents of constant tables. Frozen from the reviewed tree; judged so that rewriting keeps the table."""
import collections, itertools, re
from rules.baseline import load
from rules.canon import Canon

TABLE_RULE = (
    "decision tables: for each function (file-local helpers and functions new since the freeze inlined) every comparison is brought into the form 'linear expression "
    "over observable values >= cut', independent of how it is written; the cuts per expression, the constants added to a value where it is stored, returned or passed on, and "
    "the contents of constant tables are compared with the reviewed table. Violation: a reviewed cut or constant is gone and another one appeared for the same expression "
    "(moved boundary, changed constant), a term of a compared expression was dropped, a compared value is no longer consulted although nothing new took its place, "
    "or a reviewed entry of a constant table is gone.")


def leaves(s):
    out = set()
    for t in re.split(r"[ ()+*]", s):
        if t and t[0] != ":" and t != "?" and not re.fullmatch(r"-?\d+", t):
            out.add(t)
    return out


SAMPLES = [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096, 16384, 32767, 32768, 65535, 65536]


def equivalent(a, acuts, b, bcuts):
    """do the two compared expressions split the sampled values of their leaves the same way?"""
    try:
        ca, cb = Canon(a), Canon(b)
    except (ValueError, IndexError):
        return None
    ls = sorted(set(ca.leaves) | set(cb.leaves))
    if not ls or len(ls) > 3:
        return None
    pa, pb = {}, {}
    n = 0
    vals = sorted(set(SAMPLES) | {abs(c) + d for c in list(acuts) + list(bcuts) for d in (-1, 0, 1) if abs(c) < 2**32}) if len(ls) == 1 else SAMPLES[:24] if len(ls) == 2 else SAMPLES[:10]
    for v in itertools.product(vals, repeat=len(ls)):
        env = dict(zip(ls, v))
        try:
            x, y = ca.ev(env), cb.ev(env)
        except ValueError:
            continue
        n += 1
        kx = tuple(x >= c for c in sorted(acuts))
        ky = tuple(y >= c for c in sorted(bcuts))
        if pa.setdefault(kx, ky) != ky or pb.setdefault(ky, kx) != kx:
            return False
    return n > 0


def words(key):
    k = key.split("|")
    if k[0] == "P":
        return "comparison of [%s]" % key[2:]
    if k[0] == "Q":
        return "comparison of a running value with [%s]" % key[2:]
    if k[0] == "A":
        f, i = k[1].rsplit("#", 1)
        e = "|".join(k[2:])
        return "argument %d of %s%s" % (int(i) + 1, f, " (text)" if e == "$" else " = [%s] plus a constant" % e if e else "")
    if k[0] == "S":
        e = "|".join(k[2:])
        return "value stored to %s%s" % (k[1], " = [%s] plus a constant" % e if e else "")
    if k[0] == "N":
        return "null test of [%s]" % key[2:]
    if k[0] == "Z":
        return "wiping of %s" % k[2]
    if k[0] == "K":
        return "call of %s" % k[1]
    if k[0] == "T":
        return "store to %s" % k[1]
    if k[0] == "R":
        e = "|".join(k[1:])
        return "returned value%s" % (" = [%s] plus a constant" % e if e else "")
    return "%s below %s at constant offset" % ("read" if k[0] == "E" else "write", k[1])


def names_of(key):
    return re.findall(r"[A-Za-z_][\w.]*", key)


class Tables:
    def __init__(self, scopes):
        self.scopes = scopes
        d = load("tables")
        self.roots = [r for r in d["roots"] if any(s.table_root(r["file"], r["root"]) for s in scopes)]
        self.globals = [g for g in d["globals"] if any(s.table_global(g) for s in scopes)]

    def spec(self):
        names = load("names")
        return {"static": names["static"], "known": names["known"], "roots": [{k: r[k] for k in ("root", "file", "callees")} for r in self.roots]}

    def judge(self, run, res):
        fields = set(res["fields"])
        n = rn = 0
        for r, e in zip(self.roots, res["tables"]):
            if e["status"] != "ok" or e["nargs"] != r["nargs"]:
                run.broken.append("%s (%s): %s, decision table not evaluated" % (r["root"], r["file"], e["status"] if e["status"] != "ok" else "other arguments"))
                continue
            rn += 1
            sc = [s for s in self.scopes if s.table_root(r["file"], r["root"])]
            for key, text in compare(r, e, fields):
                if any(s.table_key(r["root"], key, r.get("in", {}).get(key, "")) for s in sc):
                    run.violation("table:%s:%s:%s" % (r["file"], r["root"], key), "%s (%s): %s" % (r["root"], r["file"], text))
            keys = [k for k in r["t"] if any(s.table_key(r["root"], k, r.get("in", {}).get(k, "")) for s in sc)]
            n += len(keys)
            for k in keys:
                run.obligation("T:%s:%s:%s" % (r["file"], r["root"], k), True, None)
        cur = {}
        for g in res["globals"]:
            cur.setdefault((g["name"], g["file"]), []).append(g)
        for g in self.globals:
            c = cur.get((g["name"], g["file"]))
            if not c:
                run.notes.append("constant table %s (%s) no longer exists" % (g["name"], g["file"]))
                continue
            run.obligation("G:%s:%s" % (g["file"], g["name"]), True)
            n += 1
            best = min(c, key=lambda x: sum((collections.Counter(g["el"]) - collections.Counter(x["el"])).values()))
            miss = collections.Counter(g["el"]) - collections.Counter(best["el"])
            if miss and shape(g["el"]) != shape(best["el"]):
                run.broken.append("constant table %s (%s) has another element type" % (g["name"], g["file"]))
                continue
            if miss:
                run.violation("const:%s:%s" % (g["file"], g["name"]), "constant table %s (%s:%d) lost reviewed entries: %s" % (
                    g["name"], g["file"], best["line"], "; ".join(sorted(miss)[:3])))
        run.extra["decision_table_entries"] = n
        run.extra["decision_table_functions"] = rn


def shape(el):
    """element layout: number of top-level members of each element"""
    def one(x):
        d = n = 0
        q = False
        for ch in x:
            if ch == '"':
                q = not q
            elif not q and ch in "{[":
                d += 1
            elif not q and ch in "}]":
                d -= 1
            elif not q and ch == "," and d == 1:
                n += 1
        return n
    return max((one(x) for x in el if ".." not in x), default=0)


def counts(e):
    return {k: dict(zip(v["v"], v["n"])) for k, v in e["t"].items()}


CLEANUP = re.compile(r"free|destroy|cleanse|clear|deinit|clean|wipe|erase|unlock", re.I)
UTIL = re.compile(r"^K\|(BSL_ERR|BSL_LOG|mem|str|BSL_SAL_(Malloc|Calloc|Dump|Mem)|BSL_ByteTo|BSL_Uint|BSL_LIST_(First|Get|Next|Curr|COUNT)|printf|snprintf|AppPrint|INDICATOR)")


def group(k):
    """what an entry is about: the argument position, the stored field"""
    p = k.split("|")
    if len(p) > 2 and p[2] == "$":
        return None
    return (p[0], p[1]) if p[0] in "AS" and len(p) > 2 and "L:" not in k else None


VALUE_FREE = re.compile(r"^(BSL_SAL_(Malloc|Calloc|Dump|Realloc)|memset|BSL_LIST_|BSL_ERR|BSL_LOG|BSL_SAL_Free)")


def identity(r, e, old, new, less, more):
    """same calls, same stores, same tests - but of other values"""
    out = []
    soft = set(r.get("soft", ()))
    at = lambda k: e["t"][k]["at"][0]
    total = lambda t, k: sum(t.get(k, {}).values())
    gs = {}
    for k in set(old) | set(new):
        g = group(k)
        if g:
            gs.setdefault(g, set()).add(k)
    for g, ks in sorted(gs.items()):
        f = g[1].rsplit("#", 1)[0]
        cnt = "K|" + f if g[0] == "A" else "T|" + f
        if f in ("memcpy", "memset"):
            cnt = None
        if VALUE_FREE.search(f):
            continue
        if sum(total(old, k) for k in ks) != sum(total(new, k) for k in ks) or cnt and total(old, cnt) != total(new, cnt):
            if g[0] == "S":
                gone = [k for k in ks if k in old and k not in new and k.split("|", 2)[2]]
                came = [k for k in ks if k in new and k not in old]
                if gone and not came and not soft & set(gone) and total(new, cnt) < total(old, cnt):
                    out.append((gone[0], "%s is no longer stored" % words(gone[0])))
            continue
        gone = sorted(k for k in ks if total(new, k) < total(old, k))
        came = sorted(k for k in ks if total(new, k) > total(old, k))
        if gone and came and not soft & set(gone + came):
            a, b = gone[0], came[0]
            if all(any(same_value(x.split("|", 2)[2], y.split("|", 2)[2]) for x in gone) for y in came):
                continue
            out.append((a, "%s is another value [%s] at %s" % (words(a), b.split("|", 2)[2], at(b))))
    cf, fr = "K|BSL_SAL_ClearFree", "K|BSL_SAL_Free"
    if cf in less and fr in more and total(old, cf) + total(old, fr) == total(new, cf) + total(new, fr):
        out.append((cf, "a buffer that was wiped when released is now only freed"))
    for k in sorted(less):
        if k[0] == "Z" and k not in soft and (k not in new or k.endswith("|?")):
            out.append((k, "%s is no longer wiped" % ("the local %s" % k.split("|")[2][1:] if k.split("|")[2][0] == "%" else "[%s]" % k.split("|")[2])))
    if not less:
        seen = set().union(*[leaves(k[2:]) for k in old if k[0] in "PQN"] or [set()])
        for k in sorted(more):
            if k[0] != "P" or k in soft:
                continue
            if k in old:
                v = sorted(x for x in set(new[k]) - set(old[k]) if x not in (-1, 0, 1))
                if v:
                    out.append((k, "an additional boundary %s of [%s] decides at %s" % (v, k[2:], e["t"][k]["at"][e["t"][k]["v"].index(v[0])])))
                continue
            l = leaves(k[2:])
            if len(l) >= 2 or l - seen:
                out.append((k, "an additional test of [%s] decides at %s" % (k[2:], at(k))))
    return out


def same_value(a, b):
    """do two expressions have the same value on sampled leaves?"""
    if not a or not b:
        return False
    try:
        ca, cb = Canon(a), Canon(b)
    except (ValueError, IndexError):
        return False
    ls = sorted(set(ca.leaves) | set(cb.leaves))
    if not ls or len(ls) > 3:
        return False
    n = 0
    for v in itertools.product(SAMPLES[:24] if len(ls) < 3 else SAMPLES[:10], repeat=len(ls)):
        env = dict(zip(ls, v))
        try:
            if ca.ev(env) != cb.ev(env):
                return False
        except ValueError:
            continue
        n += 1
    return n > 0


def compare(r, e, fields):
    """-> [(key, text)]: differences of the decision table of one function that change its behaviour"""
    old = {k: dict(map(tuple, v)) for k, v in r["t"].items()}
    new = counts(e)
    out = []
    newcallees = set(e["callees"]) - set(r["callees"])
    at = lambda k, v: e["t"][k]["at"][e["t"][k]["v"].index(v)]
    less, more = {}, {}  # key -> values with fewer / more sites than reviewed
    for key in set(old) | set(new):
        o, n = old.get(key, {}), new.get(key, {})
        l = {v for v in o if n.get(v, 0) < o[v]}
        m = {v for v in n if n[v] > o.get(v, 0)}
        if l:
            less[key] = l
        if m:
            more[key] = m
    for key in sorted(set(less) & set(more)):
        if key[0] in "KTNZ" or key in r.get("soft", ()):
            continue
        miss, add = less[key], set(more[key])
        if key == "Q|":
            add -= {0, 1, -1}
        if key.startswith(("A|memcpy", "A|memset")) and key.endswith("|"):
            # a copy split in pieces or merged is the same copy
            cv, ov = new[key], old[key]
            if any(sum(c) == m for m in miss for k in (2, 3) for c in itertools.combinations_with_replacement(sorted(cv), k)) or \
                    any(sum(c) == a for a in add for k in (2, 3) for c in itertools.combinations_with_replacement(sorted(ov), k)):
                continue
        if add:
            v = sorted(add)[0]
            if key.endswith("|$"):
                out.append((key, "%s is another one at %s" % (words(key), at(key, v))))
            else:
                out.append((key, "%s: reviewed %s %s gone, now %s at %s" % (words(key), "cut" if key[0] in "PQ" else "constant", sorted(miss), sorted(add), at(key, v))))
    if newcallees or e.get("inl"):
        return out
    out += identity(r, e, old, new, less, more)
    live = lambda k: all(f[2:] in fields for f in leaves(k[2:]) if f.startswith("F:"))
    gp = [k for k in old if k[0] == "P" and k not in new]
    np = [k for k in new if k[0] == "P" and k not in old]
    if len(gp) == 1 and len(np) == 1:
        a, b = gp[0], np[0]
        la, lb = leaves(a[2:]), leaves(b[2:])
        if lb and lb <= la and live(a) and equivalent(a[2:], old[a], b[2:], new[b]) is False:
            out.append((a, "%s is replaced by the weaker [%s] at %s" % (words(a), b[2:], at(b, sorted(new[b])[0]))))
    if not more:
        asked = {m for k in less if k[0] in "PQN" for m in re.findall(r"C:(\w+)", k)} # questions of the dropped tests
        acts = [k for k in less if k[0] not in "PQNE" and not (k[0] in "KA" and k.split("|")[1].split("#")[0] in asked)]
        if not acts:
            # every action is still there, but fewer comparisons decide about them
            for k in sorted(less):
                if live(k):
                    out.append((k, "%s takes place less often than reviewed: an operand of a condition or a whole test is gone" % words(k)))
        else:
            for k in sorted(acts):
                if k[0] in "KT" and k not in new and live(k) and not UTIL.search(k):
                    out.append((k, "%s no longer happens" % words(k)))
    return out
