"""Frozen, reviewed exceptions of the whole-program rules (rules/baseline/*.json), matched so that moving code does not
raise an alarm while a new instance does.

An exception is (file, function, item): count.  Reports are compared per (file, item):
  * a function known at freeze time may have as many reports as were frozen for it; more than that is a violation unless
    a frozen function of that file disappeared (inlined or renamed) and its exceptions are unused;
  * a function unknown at freeze time (extracted helper, renamed function) may use up exceptions that are unused in
    its file; beyond that its reports are violations.
"""
import collections, json, os

DIR = os.path.join(os.path.dirname(os.path.abspath(__file__)), "baseline")


def load(name):
    p = os.path.join(DIR, name + ".json")
    return json.load(open(p)) if os.path.exists(p) else None


class Base:
    def __init__(self, name):
        d = load(name) or {"exceptions": []}
        self.exc = collections.Counter()
        self.why = {}
        for e in d["exceptions"]:
            self.exc[(e["file"], e["fn"], e["item"])] += e.get("n", 1)
            self.why[(e["file"], e["fn"], e["item"])] = e.get("why", "")
        self.fns = {f: set(x) for f, x in (load("functions") or {}).items()}

    def known(self, file, fn):
        return fn in self.fns.get(file, ())

    def filter(self, reports, item="callee", present=None, callees=None):
        """reports: dicts with file, fn and the item key. present: {file: set(fn)} of the analysed tree.
        callees: {(file, fn): set(callee names)} used to tolerate an extracted helper that wraps excepted callees.
        -> (violations, tolerated)"""
        present = present or {}
        by = collections.defaultdict(list)
        for r in reports:
            by[(r["file"], r["fn"], r[item])].append(r)
        groups = collections.defaultdict(dict)
        for (f, fn, it), rs in by.items():
            groups[(f, it)][fn] = rs
        viol, tol = [], []
        for (f, it), fns in groups.items():
            frozen = {fn: n for (ff, fn, ii), n in self.exc.items() if ff == f and ii == it}
            left_gone = sum(n for fn, n in frozen.items() if fn not in present.get(f, set()))
            left_any = sum(max(0, n - len(fns.get(fn, []))) for fn, n in frozen.items() if fn in present.get(f, set()))
            for fn, rs in sorted(fns.items(), key=lambda x: not self.known(f, x[0])):
                ok = min(len(rs), frozen.get(fn, 0)) if fn in present.get(f, {fn}) else 0
                tol += rs[:ok]
                rest = rs[ok:]
                if not rest:
                    continue
                take = min(len(rest), left_gone)
                left_gone -= take
                tol += rest[:take]
                rest = rest[take:]
                if rest and not self.known(f, fn):
                    take = min(len(rest), left_any)
                    left_any -= take
                    tol += rest[:take]
                    rest = rest[take:]
                viol += rest
        if callees:
            keep = []
            for r in viol:
                c = r[item]
                wrapped = callees.get((r["file"], c))
                if wrapped is not None and not self.known(r["file"], c) and any((r["file"], r["fn"], w) in self.exc for w in wrapped):
                    tol.append(r)
                else:
                    keep.append(r)
            viol = keep
        return viol, tol
