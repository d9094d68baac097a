// Whole-program analyses on the path-sensitive explorer.
#include "core.h"
#include <mutex>
namespace hsa {
static const Value *baseOf(const Value *p)
{
    for (int i = 0; i < 12; i++) {
        p = p->stripPointerCasts();
        if (auto *g = dyn_cast<GEPOperator>(p)) { p = g->getPointerOperand(); continue; }
        break;
    }
    return p;
}
static bool isZero(const AV &a) { return a.isConst() && a.lo == 0; }
struct Ctx {
    Mod &md;
    std::set<std::string> alloc;     // allocator names
    std::set<std::string> trustNull; // callees that tolerate NULL (external)
    std::map<std::pair<const Function *, unsigned>, int> derefMemo; // 0 no, 1 yes, 2 in progress
    std::map<std::pair<const Function *, unsigned>, std::string> derefWhere;
    Ctx(Mod &m) : md(m) {}
    // external routines that dereference their pointer arguments
    bool extDeref(const std::string &n, unsigned i) const
    {
        static const std::set<std::string> two = {"memcpy", "memmove", "memcmp", "strcmp", "strncmp", "strcpy", "strncpy", "strstr", "strcat", "strcasecmp"};
        static const std::set<std::string> one = {"memset", "strlen", "strdup", "strchr", "strrchr", "atoi", "strtol", "strtoul", "fclose", "fputs"};
        if (two.count(n)) return i < 2;
        if (one.count(n)) return i == 0;
        return false;
    }
    bool from(const Value *v, const Value *src) const
    {
        if (!src || v == src || derives(v, [&](const Value *x) { return x == src; }, 200)) return true;
        // value read back from memory the source was stored to
        auto *l = dyn_cast<LoadInst>(v);
        if (!l) return false;
        const DataLayout &dl = md.M->getDataLayout();
        APInt o1(64, 0);
        const Value *b1 = l->getPointerOperand()->stripAndAccumulateConstantOffsets(dl, o1, true);
        for (const Instruction &I : instructions(*l->getFunction())) if (auto *s = dyn_cast<StoreInst>(&I)) {
            APInt o2(64, 0);
            if (s->getPointerOperand()->stripAndAccumulateConstantOffsets(dl, o2, true) != b1 || o1 != o2) continue;
            if (s->getValueOperand() == src || derives(s->getValueOperand(), [&](const Value *x) { return x == src; }, 100)) return true;
        }
        return false;
    }
    // would the instruction dereference a null pointer? returns text or ""
    std::string nullUse(const Instruction *I, const Env &e, const Explorer &ex, int depth, const Value *src)
    {
        const Value *p = nullptr;
        if (auto *l = dyn_cast<LoadInst>(I)) p = l->getPointerOperand();
        else if (auto *s = dyn_cast<StoreInst>(I)) p = s->getPointerOperand();
        if (p) {
            const Value *b = baseOf(p);
            if (isa<ConstantPointerNull>(b)) return "";
            if (isZero(ex.eval(b, e)) && from(b, src)) return "dereference";
            return "";
        }
        auto *cb = dyn_cast<CallBase>(I);
        if (!cb) return "";
        Function *c = directCallee(cb);
        if (!c) {
            // call through a null pointer, or null object holding the method
            const Value *b = cb->getCalledOperand();
            if (!isa<Constant>(b) && isZero(ex.eval(b, e)) && from(b, src)) return "call through null pointer";
            return "";
        }
        std::string n = md.nameOf(c);
        Intrinsic::ID id = c->getIntrinsicID();
        for (unsigned i = 0; i < cb->arg_size(); i++) {
            const Value *a = cb->getArgOperand(i);
            if (!a->getType()->isPointerTy()) continue;
            const Value *b = baseOf(a);
            if (isa<ConstantPointerNull>(b)) { if (b == a->stripPointerCasts()) continue; }
            if (!isZero(ex.eval(b, e)) || !from(b, src)) continue;
            if (id == Intrinsic::memcpy || id == Intrinsic::memmove || id == Intrinsic::memset || extDeref(n, i)) {
                // a zero length makes the call harmless
                unsigned li = n == "strcmp" || n == "strlen" ? 99 : 2;
                if (li < cb->arg_size() && isZero(ex.eval(cb->getArgOperand(li), e))) continue;
                if (id == Intrinsic::memset && i > 0) continue;
                if ((id == Intrinsic::memcpy || id == Intrinsic::memmove) && i > 1) continue;
                return "passed to " + n;
            }
            if (c->isDeclaration() || c->isIntrinsic()) continue;
            if (b != a->stripPointerCasts()) {
                // &p->field with p NULL: callee sees a non-null bad pointer; dereferenced there?
                continue;
            }
            if (i < c->arg_size() && derefParam(c, i, depth + 1)) return "passed to " + n + " which dereferences it (" + derefWhere[{c, i}] + ")";
        }
        return "";
    }
    // return range of a callee for the constant arguments known at a call
    std::map<std::pair<const Function *, std::string>, AV> retMemo;
    std::set<std::pair<const Function *, std::string>> retBusy;
    bool callRet(const CallBase *cb, const Env &e, const Explorer &ex, AV &out, int depth)
    {
        Function *c = directCallee(cb);
        if (!c || c->isDeclaration() || c->isVarArg() || !tracked(cb->getType()) || depth > 3) return false;
        PState init;
        std::string key;
        bool any = false;
        for (unsigned i = 0; i < cb->arg_size() && i < c->arg_size(); i++) {
            const Value *a = cb->getArgOperand(i);
            if (!tracked(a->getType())) continue;
            AV v = ex.eval(a, e);
            bool keep = v.isConst() || (a->getType()->isPointerTy() && v.nz);
            if (!keep) continue;
            if (a->getType()->isPointerTy() && v.isConst() && v.lo == 0 && !isa<Constant>(a)) any = true;
            if (!a->getType()->isPointerTy() && v.isConst()) {}
            if (a->getType()->isPointerTy() && v.nz && !v.isConst()) v = AV::nonzero(64);
            init.env.set(c->getArg(i), v);
            key += std::to_string(i) + ":" + std::to_string(v.lo) + "," + std::to_string(v.hi) + ";";
        }
        if (!any) return false;
        auto k = std::make_pair((const Function *)c, key);
        auto it = retMemo.find(k);
        if (it != retMemo.end()) { out = it->second; return !out.isTop(widthOf(cb->getType())); }
        if (!retBusy.insert(k).second) return false;
        Explorer x(md, *c);
        x.maxStatesPerBlock = 80; x.maxSteps = 6000;
        AV r; r.lo = 1; r.hi = 0;
        x.assumeVal = [&](const Instruction *I, PState &ps, AV &o) { if (auto *b = dyn_cast<CallBase>(I)) return callRet(b, ps.env, x, o, depth + 1); return false; };
        x.onRet = [&](const ReturnInst *ri, PState &ps, Explorer &xx) { r = r.join(xx.eval(ri->getReturnValue(), ps.env)); };
        x.run(init);
        retBusy.erase(k);
        if (x.overflow || r.empty()) r = AV::top(widthOf(cb->getType()));
        retMemo[k] = r;
        out = r;
        return !r.isTop(widthOf(cb->getType()));
    }
    bool derefParam(const Function *f, unsigned i, int depth)
    {
        auto key = std::make_pair(f, i);
        auto it = derefMemo.find(key);
        if (it != derefMemo.end()) return it->second == 1;
        if (depth > 8 || !f->getArg(i)->getType()->isPointerTy()) return false;
        derefMemo[key] = 2;
        Explorer ex(md, *const_cast<Function *>(f));
        ex.maxStatesPerBlock = 120;
        ex.maxSteps = 20000;
        PState init;
        init.env.set(f->getArg(i), AV::cst(0, 64));
        bool hit = false;
        std::string where;
        const Value *src = f->getArg(i);
        ex.assumeVal = [&](const Instruction *I, PState &ps, AV &o) { if (auto *b = dyn_cast<CallBase>(I)) return callRet(b, ps.env, ex, o, 0); return false; };
        ex.onInst = [&](const Instruction *I, PState &ps, Explorer &x) -> bool {
            std::string t = nullUse(I, ps.env, x, depth, src);
            if (t.empty()) return true;
            hit = true; where = md.loc(I); x.stop = true;
            return false;
        };
        ex.run(init);
        derefMemo[key] = hit ? 1 : 0;
        if (hit) derefWhere[key] = where;
        return hit;
    }
};
static bool retPtr(const Function *f) { return f->getReturnType()->isPointerTy(); }

static std::set<std::string> jset(const json::Object &o, const char *k)
{
    std::set<std::string> r;
    if (auto *a = o.getArray(k)) for (auto &x : *a) if (auto s = x.getAsString()) r.insert(s->str());
    return r;
}
static bool inScope(const Mod &md, const Function *f, const json::Object &o)
{
    std::string file = md.fileOf(f);
    if (file.empty()) return false;
    if (auto *a = o.getArray("scope")) { bool ok = false; for (auto &x : *a) if (auto s = x.getAsString()) if (file.compare(0, s->size(), s->str()) == 0) ok = true; return ok; }
    return true;
}
// functions that may return NULL because an allocation inside them failed
static std::set<const Function *> nullReturners(Ctx &cx)
{
    Mod &md = cx.md;
    std::set<const Function *> nr;
    std::map<const Function *, std::vector<const CallBase *>> sites;
    bool ch = true;
    std::set<const Function *> todo;
    for (Function &F : *md.M) if (!F.isDeclaration() && retPtr(&F) && !cx.alloc.count(md.nameOf(&F))) todo.insert(&F);
    int round = 0;
    while (ch && round++ < 8) {
        ch = false;
        for (auto it = todo.begin(); it != todo.end();) {
            const Function *F = *it;
            bool found = false;
            for (const Instruction &I : instructions(*F)) {
                auto *cb = dyn_cast<CallBase>(&I);
                if (!cb || !cb->getType()->isPointerTy()) continue;
                Function *c = directCallee(cb);
                if (!c) continue;
                if (!cx.alloc.count(md.nameOf(c)) && !nr.count(c)) continue;
                Explorer ex(md, *const_cast<Function *>(F));
                ex.maxStatesPerBlock = 60; ex.maxSteps = 8000;
                ex.assumeVal = [&](const Instruction *J, PState &ps, AV &out) { if (J != &I) return false; out = AV::cst(0, 64); ps.st = 1; return true; };
                ex.onRet = [&](const ReturnInst *r, PState &ps, Explorer &x) { if (ps.st && isZero(x.eval(r->getReturnValue(), ps.env))) { found = true; x.stop = true; } };
                ex.run(PState());
                if (found) break;
            }
            if (found) { nr.insert(F); it = todo.erase(it); ch = true; } else ++it;
        }
    }
    return nr;
}
// status function: returns int, yields 0 on some return and a large (error-code) constant or another call's status on others
bool statusFn(const Mod &md, const Function *F)
{
    static std::map<const Function *, bool> memo;
    auto it = memo.find(F);
    if (it != memo.end()) return it->second;
    bool zero = false, err = false, code = false, ind = false;
    if (!F->isDeclaration() && F->getReturnType()->isIntegerTy(32)) {
        for (auto &B : *F) if (auto *r = dyn_cast<ReturnInst>(B.getTerminator())) {
            std::vector<const Value *> w{r->getReturnValue()};
            std::set<const Value *> seen;
            while (!w.empty()) {
                const Value *v = w.back(); w.pop_back();
                if (!seen.insert(v).second) continue;
                if (auto *c = dyn_cast<ConstantInt>(v)) { if (c->isZero()) zero = true; else if (c->getZExtValue() >= 0x10000) err = code = true; }
                else if (auto *p = dyn_cast<PHINode>(v)) for (auto &o : p->incoming_values()) w.push_back(o);
                else if (auto *s = dyn_cast<SelectInst>(v)) { w.push_back(s->getTrueValue()); w.push_back(s->getFalseValue()); }
                else if (auto *l = dyn_cast<LoadInst>(v)) { if (auto *al = dyn_cast<AllocaInst>(l->getPointerOperand())) for (auto *u : al->users()) if (auto *st = dyn_cast<StoreInst>(u)) if (st->getPointerOperand() == al) w.push_back(st->getValueOperand()); }
                else if (auto *cb = dyn_cast<CallBase>(v)) { Function *c = directCallee(cb); if (c && c != F && !c->isDeclaration()) {
                    memo[F] = false; if (statusFn(md, c)) { zero = err = true; } memo.erase(F);
                    if (!zero || !err) for (unsigned i : returnedArgs(md, c)) if (i < cb->arg_size()) w.push_back(cb->getArgOperand(i));
                } else if (!c) {
                    std::string n = md.calleeName(cb);
                    auto fi = n.size() > 1 ? md.fieldFns.find(n.substr(1)) : md.fieldFns.end();
                    memo[F] = false;
                    if (fi == md.fieldFns.end()) ind = true; // a registered callback: its result is handed on beside error codes of its own
                    if (n.empty() || n == "*" || n.compare(0, 5, "*anon") == 0) err = true;
                    if (fi != md.fieldFns.end()) for (auto *t : fi->second) if (statusFn(md, t)) { zero = err = true; break; }
                    memo.erase(F);
                } }
            }
        }
    }
    return memo[F] = (zero && err) || (ind && code);
}
// ---- A1: allocation failure never leads to a null dereference
static void allocNull(Mod &md, const json::Object &o, json::Object &res, int jobs)
{
    Ctx cx(md);
    cx.alloc = jset(o, "alloc");
    auto nr = nullReturners(cx);
    std::vector<const CallBase *> sites;
    for (Function &F : *md.M) {
        if (F.isDeclaration() || !inScope(md, &F, o) || cx.alloc.count(md.nameOf(&F))) continue;
        for (Instruction &I : instructions(F)) if (auto *cb = dyn_cast<CallBase>(&I)) {
            if (!cb->getType()->isPointerTy()) continue;
            Function *c = directCallee(cb);
            if (!c) {
                std::string n = md.calleeName(cb);
                if (n.size() > 1) { // constructor slot: any implementation may fail to allocate
                    auto it = md.fieldFns.find(n.substr(1));
                    bool any = false;
                    if (it != md.fieldFns.end()) for (auto *t : it->second) if (nr.count(t)) any = true;
                    if (any) sites.push_back(cb);
                }
                continue;
            }
            if (cx.alloc.count(md.nameOf(c)) || nr.count(c)) sites.push_back(cb);
        }
    }
    std::vector<json::Value> out;
    size_t chunk = 40, n = (sites.size() + chunk - 1) / chunk;
    parallelFor(n, jobs, [&](size_t k) -> json::Value {
        json::Array a;
        int64_t ovf = 0, steps = 0;
        for (size_t s = k * chunk; s < std::min(sites.size(), (k + 1) * chunk); s++) {
            const CallBase *site = sites[s];
            Function *F = const_cast<Function *>(site->getFunction());
            Explorer ex(md, *F);
            ex.maxStatesPerBlock = 300; ex.maxSteps = 60000;
            bool hit = false;
            ex.assumeVal = [&](const Instruction *J, PState &ps, AV &out) {
                if (J != site) { if (auto *b = dyn_cast<CallBase>(J)) if (ps.st) return cx.callRet(b, ps.env, ex, out, 0); return false; }
                out = AV::cst(0, 64); ps.st = 1; return true; };
            ex.onInst = [&](const Instruction *I, PState &ps, Explorer &x) -> bool {
                if (!ps.st) return true;
                std::string t = cx.nullUse(I, ps.env, x, 0, site);
                if (t.empty()) return true;
                hit = true;
                a.push_back(json::Object{{"fn", md.nameOf(F)}, {"file", md.fileOf(F)}, {"callee", md.calleeName(site)}, {"site", md.loc(site)}, {"use", md.loc(I)}, {"how", t}, {"path", x.pathText(ps.path, 25)}});
                x.stop = true;
                return false;
            };
            bool sw = false;
            if (statusFn(md, F) || retPtr(F)) ex.onRet = [&](const ReturnInst *r, PState &ps, Explorer &x) {
                if (!ps.st || sw || !r->getReturnValue()) return;
                AV v = x.eval(r->getReturnValue(), ps.env);
                bool bad = retPtr(F) ? (v.nz && !v.empty()) : isZero(v);
                if (!bad) return;
                sw = true;
                a.push_back(json::Object{{"kind", "swallow"}, {"fn", md.nameOf(F)}, {"file", md.fileOf(F)}, {"callee", md.calleeName(site)}, {"site", md.loc(site)}, {"use", md.loc(r)}, {"how", retPtr(F) ? "object returned" : "success returned"}, {"path", x.pathText(ps.path, 25)}});
            };
            ex.run(PState());
            if (ex.overflow) ovf++;
            steps += ex.steps;
        }
        return json::Object{{"v", std::move(a)}, {"ovf", ovf}, {"steps", steps}};
    }, out);
    json::Array v; int64_t ovf = 0, steps = 0, lost = 0;
    for (auto &x : out) { auto *xo = x.getAsObject(); if (!xo) { lost++; continue; } ovf += *xo->getInteger("ovf"); steps += *xo->getInteger("steps"); for (auto &y : *xo->getArray("v")) v.push_back(y); }
    json::Object r;
    r["sites"] = (int64_t)sites.size(); r["nullret"] = (int64_t)nr.size(); r["overflow"] = ovf; r["steps"] = steps; r["lost"] = lost; r["viol"] = std::move(v);
    std::set<std::string> fs; for (auto *s : sites) fs.insert(md.fileOf(s->getFunction()) + ":" + md.nameOf(s->getFunction()));
    r["functions"] = (int64_t)fs.size();
    json::Array sm; for (size_t i = 0; i < sites.size(); i += std::max<size_t>(1, sites.size() / 8)) sm.push_back(md.loc(sites[i]) + " " + md.nameOf(sites[i]->getFunction()) + " <- " + md.calleeName(sites[i]));
    r["samples"] = std::move(sm);
    res["allocnull"] = std::move(r);
}
// ---- A2: a failing callee is never turned into success
static bool statusRet(const Mod &md, const CallBase *cb)
{
    if (!cb->getType()->isIntegerTy(32)) return false;
    if (Function *c = directCallee(cb)) return statusFn(md, c);
    std::string n = md.calleeName(cb);
    if (n.size() < 2) return false;
    auto it = md.fieldFns.find(n.substr(1));
    if (it == md.fieldFns.end()) return false;
    for (auto *t : it->second) if (statusFn(md, t)) return true;
    return false;
}
// the error codes a status function can return, as far as they are constants of the module
static bool statusCodes(const Mod &md, const Function *F, std::set<uint64_t> &out, std::set<const Function *> &busy)
{
    if (F->isDeclaration() || !busy.insert(F).second) return false;
    for (auto &B : *F) if (auto *r = dyn_cast<ReturnInst>(B.getTerminator())) {
        std::vector<const Value *> w{r->getReturnValue()};
        std::set<const Value *> seen;
        while (!w.empty()) {
            const Value *v = w.back(); w.pop_back();
            if (!seen.insert(v).second) continue;
            if (seen.size() > 200 || out.size() > 16) return false;
            if (auto *c = dyn_cast<ConstantInt>(v)) out.insert(c->getZExtValue());
            else if (auto *p = dyn_cast<PHINode>(v)) for (auto &o : p->incoming_values()) w.push_back(o);
            else if (auto *s = dyn_cast<SelectInst>(v)) { w.push_back(s->getTrueValue()); w.push_back(s->getFalseValue()); }
            else if (auto *l = dyn_cast<LoadInst>(v)) {
                auto *al = dyn_cast<AllocaInst>(l->getPointerOperand());
                if (!al) return false;
                for (auto *u : al->users()) {
                    if (auto *st = dyn_cast<StoreInst>(u)) { if (st->getPointerOperand() != al) return false; w.push_back(st->getValueOperand()); }
                    else if (!isa<LoadInst>(u) && !isa<DbgInfoIntrinsic>(u)) { auto *c = dyn_cast<CallBase>(u); if (!c || !c->isLifetimeStartOrEnd()) return false; }
                }
            } else if (auto *cb = dyn_cast<CallBase>(v)) {
                Function *c = directCallee(cb);
                if (!c || c->isDeclaration()) return false;
                auto ra = returnedArgs(md, c);
                if (!ra.empty()) { for (unsigned i : ra) if (i < cb->arg_size()) w.push_back(cb->getArgOperand(i)); }
                else if (!statusCodes(md, c, out, busy)) return false;
            } else return false;
        }
    }
    busy.erase(F);
    return true;
}
static void errProp(Mod &md, const json::Object &o, json::Object &res, int jobs)
{
    Ctx cx(md);
    std::vector<const CallBase *> sites;
    auto skip = jset(o, "skip");
    for (Function &F : *md.M) {
        if (F.isDeclaration() || !inScope(md, &F, o) || !(statusFn(md, &F) || retPtr(&F))) continue;
        for (Instruction &I : instructions(F)) if (auto *cb = dyn_cast<CallBase>(&I)) if (statusRet(md, cb) && !skip.count(md.calleeName(cb))) sites.push_back(cb);
    }
    std::vector<json::Value> out;
    size_t chunk = 60, n = (sites.size() + chunk - 1) / chunk;
    parallelFor(n, jobs, [&](size_t k) -> json::Value {
        json::Array a;
        int64_t ovf = 0, steps = 0;
        for (size_t s = k * chunk; s < std::min(sites.size(), (k + 1) * chunk); s++) {
            const CallBase *site = sites[s];
            Function *F = const_cast<Function *>(site->getFunction());
            Explorer ex(md, *F);
            ex.maxStatesPerBlock = 200; ex.maxSteps = 40000;
            bool sw = false;
            json::Object found;
            uint64_t code = 0x0BADC0DE;
            ex.assumeVal = [&](const Instruction *J, PState &ps, AV &out) {
                if (J != site) { // the one failing call: everything after it succeeds
                    auto *b = ps.st ? dyn_cast<CallBase>(J) : nullptr;
                    if (!b || !statusRet(md, b)) return false;
                    out = AV::cst(0, 32);
                    return true;
                }
                out = AV::cst(code, 32); ps.st = 1; return true; };
            ex.onRet = [&](const ReturnInst *r, PState &ps, Explorer &x) {
                if (!ps.st || sw || !r->getReturnValue()) return;
                AV v = x.eval(r->getReturnValue(), ps.env);
                bool bad = retPtr(F) ? (v.nz && !v.empty()) : isZero(v);
                if (!bad) return;
                sw = true; x.stop = true;
                found = json::Object{{"fn", md.nameOf(F)}, {"file", md.fileOf(F)}, {"callee", md.calleeName(site)}, {"site", md.loc(site)}, {"use", md.loc(r)}, {"how", retPtr(F) ? "an object" : "success"}, {"path", x.pathText(ps.path, 25)}};
            };
            ex.run(PState());
            std::set<uint64_t> codes; std::set<const Function *> busy;
            Function *callee = directCallee(site);
            if (sw && callee && statusCodes(md, callee, codes, busy)) { // only these codes can occur
                codes.erase(0);
                sw = false;
                for (uint64_t c : codes) { code = c; ex.stop = false; ex.run(PState()); if (sw) break; }
            }
            if (sw) a.push_back(std::move(found));
            if (ex.overflow) ovf++;
            steps += ex.steps;
        }
        return json::Object{{"v", std::move(a)}, {"ovf", ovf}, {"steps", steps}};
    }, out);
    json::Array v; int64_t ovf = 0, steps = 0, lost = 0;
    for (auto &x : out) { auto *xo = x.getAsObject(); if (!xo) { lost++; continue; } ovf += *xo->getInteger("ovf"); steps += *xo->getInteger("steps"); for (auto &y : *xo->getArray("v")) v.push_back(y); }
    json::Object r;
    r["sites"] = (int64_t)sites.size(); r["overflow"] = ovf; r["steps"] = steps; r["lost"] = lost; r["viol"] = std::move(v);
    std::set<std::string> fs; for (auto *s : sites) fs.insert(md.fileOf(s->getFunction()) + ":" + md.nameOf(s->getFunction()));
    r["functions"] = (int64_t)fs.size();
    json::Array sm; for (size_t i = 0; i < sites.size(); i += std::max<size_t>(1, sites.size() / 8)) sm.push_back(md.loc(sites[i]) + " " + md.nameOf(sites[i]->getFunction()) + " <- " + md.calleeName(sites[i]));
    r["samples"] = std::move(sm);
    res["errprop"] = std::move(r);
}
int runAnalyses(Mod &md, const json::Object &spec, json::Object &result)
{
    int jobs = (int)spec.getInteger("jobs").value_or(8);
    if (auto *o = spec.getObject("allocnull")) allocNull(md, *o, result, jobs);
    if (auto *o = spec.getObject("locks")) lockAnalysis(md, *o, result);
    if (auto *o = spec.getObject("release")) releaseAnalysis(md, *o, result, jobs);
    if (auto *o = spec.getObject("uaf")) uafAnalysis(md, *o, result, jobs);
    if (auto *o = spec.getObject("errprop")) errProp(md, *o, result, jobs);
    guardAnalysis(md, spec, result);
    if (spec.getBoolean("index").value_or(false)) {
        json::Object idx;
        for (Function &F : *md.M) {
            if (F.isDeclaration()) continue;
            std::string f = md.fileOf(&F);
            if (f.empty()) continue;
            std::set<std::string> cs;
            for (Instruction &I : instructions(F)) if (auto *cb = dyn_cast<CallBase>(&I)) { std::string n = md.calleeName(cb); if (!n.empty() && n.compare(0, 5, "llvm.")) cs.insert(n); }
            json::Array a; for (auto &c : cs) a.push_back(c);
            auto &slot = idx[f];
            if (!slot.getAsObject()) slot = json::Object{};
            (*slot.getAsObject())[md.nameOf(&F)] = std::move(a);
        }
        result["index"] = std::move(idx);
        std::map<std::string, bool> st;
        for (Function &F : *md.M) if (!F.isDeclaration()) { std::string n = md.nameOf(&F); auto it = st.find(n); std::string fl = md.fileOf(&F); bool s = F.hasInternalLinkage() && (fl.size() < 2 || fl.substr(fl.size() - 2) != ".h"); if (it == st.end()) st[n] = s; else it->second = it->second && s; }
        json::Array sa; for (auto &kv : st) if (kv.second) sa.push_back(kv.first);
        result["static"] = std::move(sa);
        std::set<std::string> ex;
        for (Function &F : *md.M) if (F.isDeclaration() && !F.isIntrinsic()) ex.insert(F.getName().str());
        json::Array ea; for (auto &e : ex) ea.push_back(e);
        result["external"] = std::move(ea);
    }
    return 0;
}
} // namespace hsa
