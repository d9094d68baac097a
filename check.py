#!/usr/bin/env python3
"""check.py <property-id> [--keep DIR]: decides one property of /repo's current working tree by static analysis.

exit 0: held on everything analysed; exit 1: VIOLATION line(s) printed; exit 2: the analysis itself could not
be carried out (missing anchor, build failure, vacuous rule) - never a verdict.
"""
import importlib, json, os, shutil, subprocess, sys, tempfile, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import irbuild

BUILD = os.path.join(HERE, "build")


def ensure_engine():
    exe = os.path.join(BUILD, "hsa")
    r = subprocess.run(["make", "-s", "-j8", "-C", os.path.join(HERE, "engine"), "OUT=" + BUILD],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode or not os.path.exists(exe):
        raise irbuild.BuildError("engine build failed:\n" + r.stdout[-3000:])
    return exe


def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))


class Run:
    """What a rule module gets to work with."""
    def __init__(self, prop, tier, work):
        self.prop, self.tier, self.work = prop, tier, work
        self.findings = []      # (key, text, detail)
        self.broken = []
        self.notes = []
        self.evals = 0          # obligations evaluated
        self.nontrivial = set() # distinct non-trivial ones
        self.samples = []
        self.extra = {}
        self.lists = {}

    def bitcode(self, config="main"):
        if config not in self.lists:
            pre = os.environ.get("HSA_BC_" + config.upper())
            if pre:  # development only: reuse a prebuilt list
                self.lists[config] = pre
            else:
                self.lists[config] = irbuild.build(self.work, config)[0]
        return self.lists[config]

    def engine(self, spec, config="main"):
        exe = ensure_engine()
        lst = self.bitcode(config)
        sp = os.path.join(self.work, "spec.json")
        rs = os.path.join(self.work, "result.json")
        json.dump(spec, open(sp, "w"))
        r = subprocess.run([exe, lst, sp, rs, irbuild.REPO], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode or not os.path.exists(rs):
            raise irbuild.BuildError("engine failed rc=%s: %s" % (r.returncode, r.stdout[-2000:]))
        res = json.load(open(rs))
        os.remove(rs)
        for k in ("units", "functions", "instructions"):
            self.extra.setdefault(config + "_" + k, res.get(k))
        return res

    def violation(self, key, text, detail=""):
        self.findings.append((key, text, detail))

    def obligation(self, ident, nontrivial=True, sample=None):
        self.evals += 1
        if nontrivial:
            self.nontrivial.add(ident)
        if sample is not None and len(self.samples) < 12:
            self.samples.append(sample)

    # ---- whole-program analyses with reviewed exceptions
    def analysis(self, spec, config="main"):
        spec = dict(spec)
        spec["index"] = True
        from rules.baseline import load
        spec["names"] = load("names")
        spec.setdefault("jobs", os.cpu_count() or 4)
        res = self.engine(spec, config)
        idx = res.pop("index")
        self.present = {f: set(v) for f, v in idx.items()}
        self.callees = {(f, fn): set(c) for f, v in idx.items() for fn, c in v.items()}
        return res

    def report(self, reports, base, item="callee", fmt=None, key=None):
        """Compares analysis reports with the reviewed exceptions in rules/baseline/<base>.json."""
        from rules.baseline import Base
        b = Base(base)
        viol, tol = b.filter(reports, item, self.present, self.callees)
        self.extra["reviewed_exceptions_matched"] = self.extra.get("reviewed_exceptions_matched", 0) + len(tol)
        for r in viol:
            self.violation(key(r) if key else "%s:%s:%s" % (r["file"], r["fn"], r[item]), fmt(r), "path: " + r.get("path", ""))
        return viol, tol

    # ---- assumption-driven reachability
    def queries(self, qs, config="main", extra=None):
        byid = {}
        for q in qs:
            if q["id"] in byid:
                raise ValueError("duplicate query id " + q["id"])
            byid[q["id"]] = q
        spec = {"queries": [{k: v for k, v in q.items() if k not in ("desc", "expect")} for q in qs], "jobs": os.cpu_count() or 4}
        if extra:
            spec.update(extra)
        res = self.engine(spec, config)
        steps = 0
        for r in res.get("queries", []):
            q = byid[r["id"]]
            st = r["status"]
            steps += r.get("steps", 0)
            desc = q.get("desc", r["id"])
            expect = q.get("expect", "unreach")
            if st in ("missing", "crash", "error"):
                self.broken.append("%s: %s %s" % (r["id"], st, r.get("err", "")))
                continue
            if st == "vacuous":
                self.broken.append("%s: vacuous (the guarded action is not reachable at all)" % r["id"])
                continue
            if expect == "reach":
                if st != "reach":
                    self.broken.append("%s: positive control not detected" % r["id"])
                continue
            if r.get("sites", 0) == 0 and any("call" in a and not a.get("context") for a in q.get("assume", [])) and st != "reach":
                self.broken.append("%s: no call site matched the rule" % r["id"])
                continue
            self.obligation(r["id"], r.get("nonvacuous"), {"rule": r["id"], "what": desc, "root": q["root"],
                            "check_sites": r.get("site_locs", [])[:6], "explored_steps": r.get("steps"), "inlined_instructions": r.get("instrs"), "result": st})
            if r.get("overflow"):
                self.notes.append("%s: state bound hit" % r["id"])
            if r.get("inline_note"):
                self.notes.append("%s: %s" % (r["id"], r["inline_note"]))
            if st == "reach":
                for v in r["viol"]:
                    self.violation(r["id"], "%s [%s]: reached %s%s" % (desc, q["root"], v.get("where"), (" after failure at " + v["site"]) if "site" in v else ""), "path: " + v.get("path", ""))
        self.extra["explored_steps"] = self.extra.get("explored_steps", 0) + steps
        return res


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="hsa_%s_" % prop)
    rc = 2
    try:
        if os.path.exists(os.path.join(HERE, "rules", prop.lower() + ".py")):
            mod = importlib.import_module("rules." + prop.lower())
        else:
            mod = importlib.import_module("rules.scoped")
        run = Run(prop, tier, work)
        mod.run(run)
        kf = [k for k in known_findings() if k.get("property") == prop and k.get("status") == "known"]
        viol, said = [], set()
        for key, text, detail in run.findings:
            hit = [k for k in kf if k["key"] == key]
            if hit:
                if key in said:
                    continue
                said.add(key)
                print("KNOWN-FINDING: property=%s %s" % (prop, hit[0]["what"]))
            else:
                viol.append((key, text, detail))
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        cov = {"evaluations": run.evals, "distinct_nontrivial": len(run.nontrivial), "rule": getattr(mod, "RULE", ""),
               "samples": run.samples or [{"none": True}], "explanation": getattr(mod, "EXPLANATION", getattr(mod, "RULE", "")),
               "notes": run.notes[:40], "not_evaluated": run.broken}
        cov.update(run.extra)
        ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "other", "coverage": cov,
              "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
        json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
        for b in run.broken:
            print("ANALYSIS-DEGRADED property=%s %s" % (prop, b))
        if viol:
            rp = os.path.join(HERE, "evidence", prop + ".violations.txt")
            with open(rp, "w") as f:
                for key, text, detail in viol:
                    f.write("%s\n  key: %s\n  %s\n" % (text, key, detail))
            for key, text, detail in viol[:20]:
                print("VIOLATION property=%s replay=%s" % (prop, rp))
                print("  %s" % text)
                if detail:
                    print("    %s" % detail[:600])
            rc = 1
        elif run.broken and not run.nontrivial:
            rc = 2
        else:
            print("OK property=%s obligations=%d nontrivial=%d wall=%.1fs" % (prop, run.evals, len(run.nontrivial), time.time() - t0))
            rc = 0
    except irbuild.BuildError as e:
        print("ANALYSIS-BROKEN property=%s %s" % (prop, e))
    except Exception:
        traceback.print_exc()
    finally:
        if "--keep" not in sys.argv:
            shutil.rmtree(work, ignore_errors=True)
        else:
            print("work dir", work)
    sys.exit(rc)


if __name__ == "__main__":
    main()
