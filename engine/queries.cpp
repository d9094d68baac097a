// Assumption-driven reachability queries.
#include "core.h"
#include <atomic>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cstdio>
namespace hsa {
struct ArgC { int i; bool hasVal = false; const json::Value *val = nullptr; std::vector<std::string> fromField; std::string fromFn; bool notField = false; int fromArg = -1; };
struct CallPat { std::vector<std::string> names; std::string in; std::vector<ArgC> args; };
struct Assume {
    enum K { CALL, FIELD, ARG } k;
    CallPat pat; const json::Value *ret = nullptr; const json::Value *okv = nullptr; std::vector<std::pair<int, const json::Value *>> out; std::vector<std::pair<int, const json::Value *>> pointee;
    std::string field; const json::Value *val = nullptr; bool sticky = false; int arg = 0; bool optional = false; bool ctx = false;
};
struct Sink { enum K { RET, CALL, STORE } k; CallPat pat; const json::Value *val = nullptr; const json::Value *ret = nullptr; std::string field; };
struct Query {
    std::string id, root, file, mode;
    std::vector<Assume> as; std::vector<Sink> sinks; std::vector<CallPat> kills; std::vector<std::string> track;
    std::set<std::string> noinl, inl; std::map<std::string, std::vector<std::string>> resolve; unsigned small = 30; unsigned maxStates = 600; unsigned maxInstrs = 60000;
    std::vector<CallPat> need; // events (calls) that must have happened before the sink counts as safe
    std::vector<CallPat> after; // sink counts only after one of these calls has happened
};
static std::vector<std::string> strs(const json::Value *v)
{
    std::vector<std::string> r;
    if (!v) return r;
    if (auto s = v->getAsString()) r.push_back(s->str());
    if (auto *a = v->getAsArray()) for (auto &x : *a) if (auto s = x.getAsString()) r.push_back(s->str());
    return r;
}
static CallPat parsePat(const json::Object &o)
{
    CallPat p;
    p.names = strs(o.get("call"));
    if (auto s = o.getString("in")) p.in = s->str();
    if (auto *a = o.getArray("args")) for (auto &x : *a) {
        auto *ao = x.getAsObject();
        if (!ao) continue;
        ArgC c;
        c.i = (int)ao->getInteger("i").value_or(0);
        if (auto *v = ao->get("val")) { c.hasVal = true; c.val = v; }
        c.fromField = strs(ao->get("from_field"));
        if (auto s = ao->getString("from_call")) c.fromFn = s->str();
        if (auto n = ao->getInteger("from_arg")) c.fromArg = (int)*n;
        p.args.push_back(c);
    }
    return p;
}
static bool nameMatch(const Mod &md, const CallBase *cb, const CallPat &p)
{
    if (p.names.empty()) return false;
    std::string n = md.calleeName(cb);
    if (n.empty()) return false;
    for (auto &x : p.names) if (x == n) return true;
    return false;
}
static bool patMatch(const Mod &md, const CallBase *cb, const CallPat &p, const Explorer &ex, const Env &e)
{
    if (!nameMatch(md, cb, p)) return false;
    if (!p.in.empty() && funcOfLoc(cb) != p.in) return false;
    for (auto &a : p.args) {
        if (a.i >= (int)cb->arg_size()) return false;
        const Value *v = cb->getArgOperand(a.i);
        if (a.hasVal) { AV t; if (!avFromJSON(md, a.val, widthOf(v->getType()) ? widthOf(v->getType()) : 64, t)) return false; if (!ex.eval(v, e).subsetOf(t)) return false; }
        if (!a.fromField.empty()) {
            bool ok = derives(v, [&](const Value *x) {
                std::string f;
                if (auto *l = dyn_cast<LoadInst>(x)) f = md.fieldOfAcc(l);
                else if (auto *g = dyn_cast<GEPOperator>(x)) f = md.fieldOfGEP(g);
                if (f.empty()) return false;
                for (auto &y : a.fromField) if (y == f) return true;
                return false; });
            if (!ok) return false;
        }
        if (!a.fromFn.empty()) { if (!derives(v, [&](const Value *x) { auto *c = dyn_cast<CallBase>(x); return c && md.calleeName(c) == a.fromFn; })) return false; }
        if (a.fromArg >= 0) { if (!derives(v, [&](const Value *x) { auto *c = dyn_cast<Argument>(x); return c && (int)c->getArgNo() == a.fromArg; })) return false; }
    }
    return true;
}
static bool parseQuery(const json::Object &o, Query &q, std::string &err)
{
    auto gs = [&](const char *k) { auto s = o.getString(k); return s ? s->str() : std::string(); };
    q.id = gs("id"); q.root = gs("root"); q.file = gs("file"); q.mode = gs("mode");
    if (q.mode.empty()) q.mode = "gate";
    if (auto *a = o.getArray("assume")) for (auto &x : *a) {
        auto *ao = x.getAsObject();
        Assume as;
        as.sticky = ao->getBoolean("sticky").value_or(false);
        as.optional = ao->getBoolean("optional").value_or(false);
        as.ctx = ao->getBoolean("context").value_or(false);
        if (ao->get("call")) {
            as.k = Assume::CALL; as.pat = parsePat(*ao); as.ret = ao->get("ret"); as.okv = ao->get("ok");
            if (auto *ov = ao->getArray("out")) for (auto &y : *ov) as.out.push_back({(int)y.getAsObject()->getInteger("i").value_or(0), y.getAsObject()->get("val")});
        } else if (auto f = ao->getString("field")) { as.k = Assume::FIELD; as.field = f->str(); as.val = ao->get("val"); }
        else if (auto n = ao->getInteger("arg")) { as.k = Assume::ARG; as.arg = (int)*n; as.val = ao->get("val"); }
        else { err = "bad assume"; return false; }
        q.as.push_back(as);
    }
    if (auto *a = o.getArray("sink")) for (auto &x : *a) {
        auto *so = x.getAsObject();
        Sink s;
        if (so->get("call")) { s.k = Sink::CALL; s.pat = parsePat(*so); s.ret = so->get("ret"); }
        else if (auto f = so->getString("store")) { s.k = Sink::STORE; s.field = f->str(); s.val = so->get("val"); }
        else { s.k = Sink::RET; s.val = so->get("ret"); }
        q.sinks.push_back(s);
    }
    if (auto *a = o.getArray("kill")) for (auto &x : *a) q.kills.push_back(parsePat(*x.getAsObject()));
    if (auto *a = o.getArray("need")) for (auto &x : *a) q.need.push_back(parsePat(*x.getAsObject()));
    if (auto *a = o.getArray("after")) for (auto &x : *a) q.after.push_back(parsePat(*x.getAsObject()));
    for (auto &s : strs(o.get("track"))) q.track.push_back(s);
    for (auto &s : strs(o.get("noinline"))) q.noinl.insert(s);
    for (auto &s : strs(o.get("inline"))) q.inl.insert(s);
    if (auto *r = o.getObject("resolve")) for (auto &kv : *r) q.resolve[kv.first.str()] = strs(&kv.second);
    if (auto n = o.getInteger("small")) q.small = (unsigned)*n;
    if (auto n = o.getInteger("maxStates")) q.maxStates = (unsigned)*n;
    if (auto n = o.getInteger("maxInstrs")) q.maxInstrs = (unsigned)*n;
    return true;
}
// transitive reach: set of functions from which some function in 'base' is reachable
static std::set<Function *> reachers(const Mod &md, const std::set<Function *> &base, const std::map<std::string, std::vector<std::string>> &resolve)
{
    std::set<Function *> r = base;
    std::vector<Function *> w(base.begin(), base.end());
    // reverse indirect edges for the resolved fields
    std::map<Function *, std::vector<Function *>> rev;
    if (!resolve.empty()) {
        std::map<std::string, std::vector<Function *>> tgt;
        for (auto &kv : resolve) for (auto &s : kv.second) {
            if (s == "@all") { auto it = md.fieldFns.find(kv.first); if (it != md.fieldFns.end()) for (auto *f : it->second) tgt[kv.first].push_back(f); }
            else if (Function *f = md.get(s)) tgt[kv.first].push_back(f);
        }
        for (auto &kv : md.indirectSites) { auto it = tgt.find(kv.first); if (it != tgt.end()) for (auto *cb : kv.second) for (auto *t : it->second) rev[t].push_back(cb->getFunction()); }
    }
    while (!w.empty()) {
        Function *f = w.back(); w.pop_back();
        auto it = md.callersOf.find(f);
        if (it != md.callersOf.end()) for (auto *cb : it->second) { Function *c = cb->getFunction(); if (r.insert(c).second) w.push_back(c); }
        auto jt = rev.find(f);
        if (jt != rev.end()) for (auto *c : jt->second) if (r.insert(c).second) w.push_back(c);
    }
    return r;
}
struct Outcome { bool reach = false, overflow = false; std::string where, path; unsigned long steps = 0; std::set<const Instruction *> sites, sinkSites; };

static Outcome explore(Mod &md, Function *F, const Query &q, bool flip, const Instruction *onlySite, const std::map<std::string, std::set<Function *>> &mods)
{
    Outcome oc;
    Explorer ex(md, *F);
    ex.maxStatesPerBlock = q.maxStates;
    ex.keepArgs = false;
    std::set<std::string> tf;
    PState init;
    std::map<std::string, const Assume *> sticky;
    for (auto &a : q.as) {
        if (a.k == Assume::FIELD) { tf.insert(a.field); if (a.sticky) sticky[a.field] = &a; }
        if (a.k == Assume::ARG && a.arg < (int)F->arg_size()) { AV v; Argument *ar = F->getArg(a.arg); if (avFromJSON(md, a.val, widthOf(ar->getType()), v)) init.env.set(ar, v); }
    }
    for (auto &t : q.track) tf.insert(t);
    std::map<std::string, const Assume *> fieldInit;
    for (auto &a : q.as) if (a.k == Assume::FIELD && (!flip || a.ctx || true)) fieldInit[a.field] = &a;
    // st: bit0 = assumed failure happened (mode after) ; bit1.. need events ; bit 8: after event
    ex.assumeVal = [&](const Instruction *I, PState &ps, AV &out) -> bool {
        unsigned w = widthOf(I->getType());
        if (auto *cb = dyn_cast<CallBase>(I)) {
            for (auto &a : q.as) {
                if (a.k != Assume::CALL) continue;
                if (!patMatch(md, cb, a.pat, ex, ps.env)) continue;
                if (onlySite && !a.ctx && I != onlySite) continue;
                if (!a.ctx) oc.sites.insert(I);
                const json::Value *v = flip && !a.ctx ? a.okv : a.ret;
                if (!v) return false;
                if (!avFromJSON(md, v, w, out)) return false;
                if (onlySite && I == onlySite) ps.st |= 1;
                return true;
            }
            return false;
        }
        if (auto *l = dyn_cast<LoadInst>(I)) {
            std::string f = md.fieldOfAcc(l);
            if (f.empty() || !tf.count(f)) return false;
            if (auto *s = [&]() -> const Assume * { auto it = sticky.find(f); return it == sticky.end() ? nullptr : it->second; }()) {
                return avFromJSON(md, s->val, w, out);
            }
            if (const AV *fa = ps.env.getFact(f)) { out = *fa; if (out.hi > AV::mask(w)) out = AV::top(w); }
            else {
                auto it = fieldInit.find(f);
                out = AV::top(w);
                if (it != fieldInit.end()) avFromJSON(md, it->second->val, w, out);
            }
            for (auto &p : ps.env.falias) if (p.first == f) { p.second = l; return true; }
            ps.env.falias.push_back({f, l});
            return true;
        }
        return false;
    };
    auto safe = [&](int st) {
        if (onlySite && !(st & 1)) return true;
        if (!q.after.empty() && !(st & 256)) return true;
        if (!q.need.empty()) { for (size_t i = 0; i < q.need.size(); i++) if (!(st & (2 << i))) return false; return true; }
        return false;
    };
    auto hit = [&](const Instruction *I, PState &ps) {
        oc.sinkSites.insert(I);
        if (safe(ps.st)) return;
        oc.reach = true;
        oc.where = md.loc(I) + " in " + funcOfLoc(I);
        oc.path = ex.pathText(ps.path, 60);
        ex.stop = true;
    };
    ex.onInst = [&](const Instruction *I, PState &ps, Explorer &) -> bool {
        if (auto *cb = dyn_cast<CallBase>(I)) {
            if (directCallee(cb) && directCallee(cb)->isIntrinsic()) return true;
            for (auto &k : q.kills) if (patMatch(md, cb, k, ex, ps.env)) return false;
            for (auto &s : q.sinks) if (s.k == Sink::CALL && !s.ret && patMatch(md, cb, s.pat, ex, ps.env)) { hit(I, ps); if (ex.stop) return false; }
            for (size_t i = 0; i < q.need.size(); i++) if (patMatch(md, cb, q.need[i], ex, ps.env)) ps.st |= 2 << i;
            for (auto &k : q.after) if (patMatch(md, cb, k, ex, ps.env)) ps.st |= 256;
            // field facts invalidated by the callee
            for (auto &t : tf) {
                if (sticky.count(t)) continue;
                auto m = mods.find(t);
                if (m == mods.end()) continue;
                Function *c = directCallee(cb);
                if (c && m->second.count(c)) { ps.env.dropFact(t); ps.env.setFact(t, AV::top(64)); }
            }
        } else if (auto *s = dyn_cast<StoreInst>(I)) {
            std::string f = md.fieldOfAcc(s);
            if (!f.empty()) {
                AV v = ex.eval(s->getValueOperand(), ps.env);
                for (auto &k : q.sinks) if (k.k == Sink::STORE && k.field == f) {
                    AV t; unsigned w = widthOf(s->getValueOperand()->getType());
                    if (!k.val || (w && avFromJSON(md, k.val, w, t) && v.intersects(t))) { hit(I, ps); if (ex.stop) return false; }
                }
                if (tf.count(f) && !sticky.count(f)) { ps.env.dropFact(f); ps.env.setFact(f, v); }
            }
        }
        return true;
    };
    ex.onAfter = [&](const Instruction *I, PState &ps, Explorer &) -> bool {
        if (auto *cb = dyn_cast<CallBase>(I)) {
            for (auto &a : q.as) if (a.k == Assume::CALL && !a.out.empty() && patMatch(md, cb, a.pat, ex, ps.env) && (!onlySite || a.ctx || I == onlySite) && !(flip && !a.ctx)) {
                for (auto &o : a.out) {
                    if (o.first >= (int)cb->arg_size()) continue;
                    unsigned w = 32;
                    const Value *pv = cb->getArgOperand(o.first)->stripPointerCasts();
                    if (auto *al = dyn_cast<AllocaInst>(pv)) { if (Explorer::trackedAlloca(al)) w = widthOf(al->getAllocatedType()); else continue; }
                    AV v; if (avFromJSON(md, o.second, w, v)) ex.setMem(ps, pv, v, w);
                }
                if (I->getType()->isVoidTy()) { if (!a.ctx) oc.sites.insert(I); if (onlySite == I) ps.st |= 1; }
            }
            // sink: call that may return a given value
            for (auto &s : q.sinks) if (s.k == Sink::CALL && s.ret && patMatch(md, cb, s.pat, ex, ps.env)) {
                AV t; unsigned w = widthOf(I->getType());
                if (w && avFromJSON(md, s.ret, w, t) && ex.eval(I, ps.env).intersects(t)) { hit(I, ps); if (ex.stop) return false; }
            }
        }
        return true;
    };
    ex.onRet = [&](const ReturnInst *r, PState &ps, Explorer &) {
        for (auto &s : q.sinks) if (s.k == Sink::RET) {
            if (!r->getReturnValue()) { hit(r, ps); continue; }
            unsigned w = widthOf(r->getReturnValue()->getType());
            AV t;
            if (w && avFromJSON(md, s.val, w, t) && ex.eval(r->getReturnValue(), ps.env).intersects(t)) { hit(r, ps); if (ex.stop) return; }
        }
    };
    ex.run(init);
    oc.overflow = ex.overflow;
    oc.steps = ex.steps;
    return oc;
}
static json::Object runOne(Mod &md, const json::Object &jo)
{
    json::Object res;
    Query q;
    std::string err;
    res["id"] = jo.getString("id").value_or("").str();
    if (!parseQuery(jo, q, err)) { res["status"] = "error"; res["err"] = err; return res; }
    Function *root = md.get(q.root, q.file);
    if (!root || root->isDeclaration()) { res["status"] = "missing"; res["err"] = "root " + q.root + " not found"; return res; }
    std::set<Function *> base;
    std::set<std::string> leafNames = q.noinl;
    std::set<std::string> indirectLeaf;
    auto addLeaf = [&](const CallPat &p, bool optional) -> bool {
        bool any = false;
        for (auto &n : p.names) {
            if (n[0] == '*') { indirectLeaf.insert(n.substr(1)); any = md.indirectSites.count(n.substr(1)) || any; continue; }
            leafNames.insert(n);
            auto it = md.byName.find(n);
            if (it == md.byName.end()) continue;
            any = true;
            for (auto *f : it->second) base.insert(f);
        }
        if (!any && !optional) { err = "call " + (p.names.empty() ? std::string("?") : p.names[0]) + " not found"; return false; }
        return true;
    };
    bool ok = true;
    std::set<std::string> loadF, storeF, allF;
    for (auto &a : q.as) {
        if (a.k == Assume::CALL) ok = addLeaf(a.pat, a.optional) && ok;
        if (a.k == Assume::FIELD) { loadF.insert(a.field); allF.insert(a.field); }
    }
    for (auto &s : q.sinks) {
        if (s.k == Sink::CALL) ok = addLeaf(s.pat, false) && ok;
        if (s.k == Sink::STORE) storeF.insert(s.field);
    }
    for (auto &k : q.kills) ok = addLeaf(k, true) && ok;
    for (auto &k : q.need) ok = addLeaf(k, false) && ok;
    for (auto &k : q.after) ok = addLeaf(k, false) && ok;
    for (auto &t : q.track) allF.insert(t);
    if (!ok) { res["status"] = "missing"; res["err"] = err; return res; }
    for (auto &f : loadF) { auto it = md.fieldLoads.find(f); if (it != md.fieldLoads.end()) base.insert(it->second.begin(), it->second.end()); else if (!md.fieldStores.count(f)) { res["status"] = "missing"; res["err"] = "field " + f + " not found"; return res; } }
    for (auto &f : storeF) { auto it = md.fieldStores.find(f); if (it != md.fieldStores.end()) base.insert(it->second.begin(), it->second.end()); else { res["status"] = "missing"; res["err"] = "field " + f + " not stored"; return res; } }
    for (auto &f : q.track) { auto it = md.fieldStores.find(f); if (it != md.fieldStores.end()) base.insert(it->second.begin(), it->second.end()); }
    for (auto &f : indirectLeaf) { auto it = md.indirectSites.find(f); if (it != md.indirectSites.end()) for (auto *cb : it->second) base.insert(cb->getFunction()); }
    for (auto &n : q.inl) { auto it = md.byName.find(n); if (it != md.byName.end()) base.insert(it->second.begin(), it->second.end()); }
    std::set<Function *> rel = reachers(md, base, q.resolve);
    std::map<std::string, std::set<Function *>> mods;
    for (auto &f : allF) { auto it = md.fieldStores.find(f); if (it != md.fieldStores.end()) mods[f] = reachers(md, it->second, {}); }
    InlineOpts io;
    io.resolve = q.resolve;
    io.maxInstrs = q.maxInstrs;
    io.want = [&](Function *c) {
        std::string n = md.nameOf(c);
        if (leafNames.count(n)) return false;
        if (q.inl.count(n)) return true;
        if (rel.count(c)) return true;
        return instrCount(*c) <= q.small && !md.recursive(c);
    };
    std::string ierr;
    Function *F = cloneAndInline(md, root, io, ierr);
    res["instrs"] = (int64_t)instrCount(*F);
    if (!ierr.empty()) res["inline_note"] = ierr;
    if (getenv("HSA_DUMP")) F->print(errs());
    Outcome fl = explore(md, F, q, true, nullptr, mods); // non-vacuity
    json::Array viol;
    unsigned long steps = fl.steps;
    bool ovf = false;
    size_t nsites = fl.sites.size();
    std::set<std::string> siteLocs;
    for (auto *s : fl.sites) siteLocs.insert(md.loc(s));
    if (q.mode == "after") {
        // one exploration per site
        for (auto *s : std::set<const Instruction *>(fl.sites)) {
            Outcome oc = explore(md, F, q, false, s, mods);
            steps += oc.steps; ovf |= oc.overflow;
            if (oc.reach) viol.push_back(json::Object{{"site", md.loc(s) + " in " + funcOfLoc(s)}, {"where", oc.where}, {"path", oc.path}});
        }
    } else {
        Outcome oc = explore(md, F, q, false, nullptr, mods);
        steps += oc.steps; ovf |= oc.overflow;
        for (auto *s : oc.sites) siteLocs.insert(md.loc(s));
        nsites = siteLocs.size();
        if (oc.reach) viol.push_back(json::Object{{"where", oc.where}, {"path", oc.path}});
    }
    bool live = fl.reach || !fl.sinkSites.empty();
    res["steps"] = (int64_t)steps;
    res["sites"] = (int64_t)nsites;
    json::Array sl;
    for (auto &s : siteLocs) sl.push_back(s);
    res["site_locs"] = std::move(sl);
    res["overflow"] = ovf;
    res["nonvacuous"] = live;
    if (!viol.empty()) { res["status"] = "reach"; res["viol"] = std::move(viol); }
    else if (!live) res["status"] = "vacuous";
    else res["status"] = "unreach";
    F->eraseFromParent();
    return res;
}
void parallelFor(size_t n, int jobs, const std::function<json::Value(size_t)> &fn, std::vector<json::Value> &out)
{
    out.clear();
    for (size_t i = 0; i < n; i++) out.push_back(nullptr);
    jobs = std::max(1, std::min<int>(jobs, (int)n));
    std::vector<int> pids;
    std::vector<std::string> files;
    char tmpl[] = "/tmp/hsaXXXXXX";
    if (!mkdtemp(tmpl)) abort();
    std::string dir = tmpl;
    void *shm = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (shm == MAP_FAILED) abort();
    auto *next = new (shm) std::atomic<size_t>(0);
    for (int j = 0; j < jobs; j++) {
        std::string f = dir + "/" + std::to_string(j);
        files.push_back(f);
        fflush(nullptr);
        int pid = fork();
        if (pid == 0) {
            std::error_code ec;
            raw_fd_ostream os(f, ec);
            for (size_t i; (i = next->fetch_add(1)) < n;) { json::Value v = fn(i); os << i << " " << v << "\n"; os.flush(); }
            os.close();
            _exit(0);
        }
        pids.push_back(pid);
    }
    for (int p : pids) { int st; waitpid(p, &st, 0); }
    for (auto &f : files) {
        FILE *fp = fopen(f.c_str(), "r");
        if (!fp) continue;
        std::string line; int c;
        while ((c = fgetc(fp)) != EOF) {
            if (c != '\n') { line += (char)c; continue; }
            size_t sp = line.find(' ');
            size_t i = std::stoul(line.substr(0, sp));
            auto v = json::parse(line.substr(sp + 1));
            if (v) out[i] = std::move(*v); else consumeError(v.takeError());
            line.clear();
        }
        fclose(fp);
        unlink(f.c_str());
    }
    rmdir(dir.c_str());
    munmap(shm, 4096);
}
int runQueries(Mod &md, const json::Object &spec, json::Object &result)
{
    auto *qs = spec.getArray("queries");
    if (!qs) return 0;
    std::vector<json::Value> out;
    int jobs = (int)spec.getInteger("jobs").value_or(8);
    parallelFor(qs->size(), jobs, [&](size_t i) -> json::Value { return runOne(md, *(*qs)[i].getAsObject()); }, out);
    json::Array r;
    for (size_t i = 0; i < out.size(); i++) {
        if (out[i].kind() == json::Value::Null) { json::Object o; o["id"] = (*qs)[i].getAsObject()->getString("id").value_or("").str(); o["status"] = "crash"; r.push_back(std::move(o)); }
        else r.push_back(std::move(out[i]));
    }
    result["queries"] = std::move(r);
    return 0;
}
} // namespace hsa
