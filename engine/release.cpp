// Ownership: every object a function obtains is released or handed over on every path to a return.
#include "core.h"
namespace hsa {
bool statusFn(const Mod &md, const Function *F);
namespace {
struct Rel {
    const Mod &md;
    std::set<std::string> alloc, freeN, clearN, wipeN;
    explicit Rel(const Mod &m) : md(m) {}
    typedef std::pair<const Function *, unsigned> Key;
    std::map<Key, int> freeMemo[2], retMemo[2]; // [deep]
    std::map<const Function *, int> freshMemo;
    std::map<Key, int> outMemo;

    // values that may hold the object: follows casts, phis, selects, interior pointers and local memory
    struct Flow { std::set<const Value *> obj, inner; std::set<const AllocaInst *> cells; };
    static const AllocaInst *localCell(const Value *p)
    {
        for (int i = 0; i < 12; i++) { p = p->stripPointerCasts(); if (auto *g = dyn_cast<GEPOperator>(p)) { p = g->getPointerOperand(); continue; } break; }
        return dyn_cast<AllocaInst>(p);
    }
    void addCell(Flow &f, const AllocaInst *al, std::vector<std::pair<const Value *, bool>> &w)
    {
        if (!f.cells.insert(al).second) return;
        std::vector<const Value *> q{al}; std::set<const Value *> seen;
        while (!q.empty()) {
            const Value *v = q.back(); q.pop_back();
            if (!seen.insert(v).second || seen.size() > 200) continue;
            for (auto *u : v->users()) {
                if (isa<GetElementPtrInst>(u) || isa<CastInst>(u)) q.push_back(u);
                else if (auto *l = dyn_cast<LoadInst>(u)) { if (l->getType()->isPointerTy()) w.push_back({l, false}); }
                else if (auto *mc = dyn_cast<MemTransferInst>(u)) { if (auto *d = localCell(mc->getRawDest())) if (localCell(mc->getRawSource()) == al) addCell(f, d, w); }
            }
        }
    }
    void flow(const Value *src, Flow &f, bool deep, bool cellSrc = false)
    {
        std::vector<std::pair<const Value *, bool>> w;
        if (cellSrc) addCell(f, cast<AllocaInst>(src), w); else w.push_back({src, false});
        unsigned n = 0;
        while (!w.empty() && n++ < 4000) {
            auto [v, in] = w.back(); w.pop_back();
            auto &set = in ? f.inner : f.obj;
            if (!set.insert(v).second) continue;
            for (auto *u : v->users()) {
                if (auto *g = dyn_cast<GetElementPtrInst>(u)) { if (g->getPointerOperand() == v) w.push_back({g, in || !g->hasAllZeroIndices()}); }
                else if (isa<CastInst>(u) || isa<PHINode>(u) || isa<FreezeInst>(u)) w.push_back({u, in});
                else if (auto *s = dyn_cast<SelectInst>(u)) { if (s->getCondition() != v) w.push_back({s, in}); }
                else if (auto *st = dyn_cast<StoreInst>(u)) { if (st->getValueOperand() == v) if (auto *al = localCell(st->getPointerOperand())) addCell(f, al, w); }
                else if (auto *l = dyn_cast<LoadInst>(u)) { if (deep && l->getType()->isPointerTy()) w.push_back({l, false}); }
                else if (auto *cb = dyn_cast<CallBase>(u)) { // returns its argument
                    if (Function *c = directCallee(cb)) if (cb->getType()->isPointerTy() && !c->isDeclaration()) for (unsigned i : returnedArgs(md, c)) if (i < cb->arg_size() && cb->getArgOperand(i) == v) w.push_back({cb, in});
                }
            }
        }
    }
    // what a call does with its argument i: 1 releases, 2 keeps
    int callDoes(const CallBase *cb, unsigned i, bool deep)
    {
        Function *c = directCallee(cb);
        if (c) {
            if (c->isIntrinsic()) return 0;
            std::string n = md.nameOf(c);
            if (freeN.count(n) || clearN.count(n)) return !deep && i == 0 ? 1 : 0;
            if (c->isDeclaration()) return n == "free" || n == "fclose" || n == "freeaddrinfo" || n == "closedir" ? 1 : 0;
            if (i >= c->arg_size()) return 2;
            int r = 0;
            if (summary(c, i, deep, true)) r |= 1;
            if (summary(c, i, deep, false)) r |= 2;
            return r;
        }
        std::string n = md.calleeName(cb);
        auto it = n.size() > 1 ? md.fieldFns.find(n.substr(1)) : md.fieldFns.end();
        if (it == md.fieldFns.end()) return 2; // unknown callee may keep it
        int r = 0;
        for (auto *t : it->second) if (!t->isDeclaration() && i < t->arg_size()) { if (summary(t, i, deep, true)) r |= 1; if (summary(t, i, deep, false)) r |= 2; }
        return r;
    }
    bool summary(const Function *F, unsigned i, bool deep, bool wantFree)
    {
        auto &memo = wantFree ? freeMemo[deep] : retMemo[deep];
        auto it = memo.find({F, i});
        if (it != memo.end()) return it->second;
        memo[{F, i}] = 0;
        if (!F->getArg(i)->getType()->isPointerTy()) return false;
        Flow f; flow(F->getArg(i), f, deep);
        bool r = false;
        for (const Instruction &I : instructions(*F)) {
            if (r) break;
            int d = does(I, f, deep, true);
            if (wantFree ? (d & 1) : (d & 2)) r = true;
        }
        return memo[{F, i}] = r;
    }
    // effect of one instruction on an object with the given flow; ret: does returning it count?
    int does(const Instruction &I, const Flow &f, bool deep, bool ret)
    {
        if (auto *st = dyn_cast<StoreInst>(&I)) {
            const Value *v = st->getValueOperand();
            if ((f.obj.count(v) || f.inner.count(v)) && !localCell(st->getPointerOperand())) {
                // storing a part of the object into the object itself is no transfer
                const Value *p = st->getPointerOperand();
                for (int k = 0; k < 12; k++) { p = p->stripPointerCasts(); if (auto *g = dyn_cast<GEPOperator>(p)) { p = g->getPointerOperand(); continue; } break; }
                if (f.obj.count(p) || f.inner.count(p)) return 0;
                return 2;
            }
            return 0;
        }
        if (auto *rt = dyn_cast<ReturnInst>(&I)) return ret && rt->getReturnValue() && (f.obj.count(rt->getReturnValue()) || f.inner.count(rt->getReturnValue())) ? 2 : 0;
        if (auto *mc = dyn_cast<MemTransferInst>(&I)) { // a local struct holding the object is copied out
            auto *s = localCell(mc->getRawSource());
            return s && f.cells.count(s) && !localCell(mc->getRawDest()) ? 2 : 0;
        }
        auto *cb = dyn_cast<CallBase>(&I);
        if (!cb || isDbg(&I)) return 0;
        int r = 0;
        for (unsigned i = 0; i < cb->arg_size(); i++) {
            const Value *a = cb->getArgOperand(i);
            if (!a->getType()->isPointerTy()) continue;
            if (f.obj.count(a)) { r |= callDoes(cb, i, false); if (deep) r |= callDoes(cb, i, true); }
            else if (f.inner.count(a)) r |= callDoes(cb, i, false) & 2;
            else if (auto *al = localCell(a)) { if (f.cells.count(al)) r |= memCopy(cb, i) ? 2 : callDoes(cb, i, true); }
        }
        return r;
    }
    bool memCopy(const CallBase *cb, unsigned i)
    {
        Function *c = directCallee(cb);
        if (!c || !c->isDeclaration()) return false;
        std::string n = md.nameOf(c);
        return (n == "memcpy" || n == "memmove") && i == 1 && !localCell(cb->getArgOperand(0));
    }
    bool isAllocCall(const CallBase *cb)
    {
        Function *c = directCallee(cb);
        if (c) return alloc.count(md.nameOf(c)) || fresh(c);
        std::string n = md.calleeName(cb);
        auto it = n.size() > 1 ? md.fieldFns.find(n.substr(1)) : md.fieldFns.end();
        if (it == md.fieldFns.end()) return false;
        for (auto *t : it->second) if (fresh(t)) return true;
        return false;
    }
    // returns an object the caller owns
    bool fresh(const Function *F)
    {
        if (F->isDeclaration() || !F->getReturnType()->isPointerTy()) return false;
        auto it = freshMemo.find(F);
        if (it != freshMemo.end()) return it->second;
        freshMemo[F] = 0;
        bool r = false;
        for (const Instruction &I : instructions(*F)) {
            auto *cb = dyn_cast<CallBase>(&I);
            if (!cb || !cb->getType()->isPointerTy() || !isAllocCall(cb)) continue;
            Flow f; flow(cb, f, false);
            bool returned = false, kept = false;
            for (const Instruction &J : instructions(*F)) {
                if (auto *rt = dyn_cast<ReturnInst>(&J)) { if (f.obj.count(rt->getReturnValue())) returned = true; continue; }
                if (does(J, f, false, false) & 2) kept = true;
            }
            if (returned && !kept) { r = true; break; }
        }
        return freshMemo[F] = r;
    }
    // stores an object the caller owns through pointer argument i
    bool outFresh(const Function *F, unsigned i)
    {
        if (F->isDeclaration() || i >= F->arg_size() || !F->getArg(i)->getType()->isPointerTy()) return false;
        auto it = outMemo.find({F, i});
        if (it != outMemo.end()) return it->second;
        outMemo[{F, i}] = 0;
        bool r = false;
        const Argument *A = F->getArg(i);
        for (auto *u : A->users()) { // *arg = fresh, or arg handed to such a function
            if (r) break;
            if (auto *st = dyn_cast<StoreInst>(u)) {
                if (st->getPointerOperand() != A || !st->getValueOperand()->getType()->isPointerTy()) continue;
                std::vector<const Value *> w{st->getValueOperand()}; std::set<const Value *> seen;
                while (!w.empty() && !r) {
                    const Value *v = w.back()->stripPointerCasts(); w.pop_back();
                    if (!seen.insert(v).second || seen.size() > 50) continue;
                    if (auto *p = dyn_cast<PHINode>(v)) for (auto &o : p->incoming_values()) w.push_back(o);
                    else if (auto *cb = dyn_cast<CallBase>(v)) { if (cb->getType()->isPointerTy() && isAllocCall(cb)) { Flow f; flow(cb, f, false); bool kept = false; for (const Instruction &J : instructions(*F)) if (&J != st && (does(J, f, false, false) & 2)) kept = true; r = !kept; } }
                    else if (auto *l = dyn_cast<LoadInst>(v)) { if (auto *al = dyn_cast<AllocaInst>(l->getPointerOperand())) { for (auto *x : al->users()) { if (auto *s2 = dyn_cast<StoreInst>(x)) { if (s2->getPointerOperand() == al) w.push_back(s2->getValueOperand()); } else if (auto *cb = dyn_cast<CallBase>(x)) if (Function *c = directCallee(cb)) for (unsigned k = 0; k < cb->arg_size(); k++) if (cb->getArgOperand(k) == al && outFresh(c, k)) r = true; } } }
                }
            } else if (auto *cb = dyn_cast<CallBase>(u)) {
                if (Function *c = directCallee(cb)) for (unsigned k = 0; k < cb->arg_size(); k++) if (cb->getArgOperand(k) == A && outFresh(c, k)) r = true;
            }
        }
        return outMemo[{F, i}] = r;
    }
};
struct Site { const CallBase *cb; int arg; const CallBase *fail; };
}
void releaseAnalysis(Mod &md, const json::Object &o, json::Object &res, int jobs)
{
    auto names = [&](const char *k) { std::set<std::string> r; if (auto *a = o.getArray(k)) for (auto &x : *a) if (auto s = x.getAsString()) r.insert(s->str()); return r; };
    Rel R(md);
    R.alloc = names("alloc"); R.freeN = names("free"); R.clearN = names("clear"); R.wipeN = names("wipe");
    auto inScope = [&](const Function *f) {
        std::string file = md.fileOf(f);
        if (file.empty()) return false;
        if (auto *a = o.getArray("scope")) { for (auto &x : *a) if (auto s = x.getAsString()) if (file.compare(0, s->size(), s->str()) == 0) return true; return false; }
        return true;
    };
    std::vector<Site> sites;
    for (Function &F : *md.M) {
        if (F.isDeclaration() || !inScope(&F) || R.alloc.count(md.nameOf(&F))) continue;
        for (Instruction &I : instructions(F)) {
            auto *cb = dyn_cast<CallBase>(&I);
            if (!cb || isDbg(cb)) continue;
            if (cb->getType()->isPointerTy() && R.isAllocCall(cb)) sites.push_back({cb, -1, nullptr});
            Function *c = directCallee(cb);
            if (c && !c->isDeclaration() && statusFn(md, c)) for (unsigned i = 0; i < cb->arg_size(); i++) {
                auto *al = dyn_cast<AllocaInst>(cb->getArgOperand(i)->stripPointerCasts());
                if (al && al->getAllocatedType()->isPointerTy() && R.outFresh(c, i)) sites.push_back({cb, (int)i, nullptr});
            }
        }
    }
    // calls that take the object over only when they succeed
    size_t plain = sites.size();
    for (size_t s = 0; s < plain; s++) {
        Rel::Flow f;
        if (sites[s].arg < 0) R.flow(sites[s].cb, f, false); else R.flow(cast<AllocaInst>(sites[s].cb->getArgOperand(sites[s].arg)->stripPointerCasts()), f, false, true);
        for (const Instruction &I : instructions(*sites[s].cb->getFunction())) {
            auto *cb = dyn_cast<CallBase>(&I);
            if (!cb || cb == sites[s].cb || !cb->getType()->isIntegerTy(32)) continue;
            Function *c = directCallee(cb);
            if (!c || c->isDeclaration() || !statusFn(md, c)) continue;
            if (R.does(I, f, false, false) == 2) sites.push_back({sites[s].cb, sites[s].arg, cb});
        }
    }
    std::vector<json::Value> out;
    size_t chunk = 30, n = (sites.size() + chunk - 1) / chunk;
    parallelFor(n, jobs, [&](size_t k) -> json::Value {
        json::Array a, cl;
        int64_t ovf = 0, steps = 0;
        for (size_t s = k * chunk; s < std::min(sites.size(), (k + 1) * chunk); s++) {
            const Site &S = sites[s];
            Function *F = const_cast<Function *>(S.cb->getFunction());
            Rel::Flow f;
            if (S.arg < 0) R.flow(S.cb, f, false); else R.flow(cast<AllocaInst>(S.cb->getArgOperand(S.arg)->stripPointerCasts()), f, false, true);
            bool oset = S.arg >= 0;
            Explorer ex(md, *F);
            ex.maxStatesPerBlock = 200; ex.maxSteps = 40000;
            bool hit = false, sawFail = false;
            std::set<std::string> kinds; std::string plainAt;
            // state: 0 not obtained, 1 held, 2 gone; bit 4: wiped; bit 8: the failing call happened
            ex.assumeVal = [&](const Instruction *J, PState &ps, AV &v) {
                if (J == S.cb) { v = S.arg < 0 ? AV::nonzero(64) : AV::cst(0, 32); return true; }
                if (J == S.fail && (ps.st & 3) == 1) { v = AV::cst(0x0BADC0DE, 32); return true; }
                return false;
            };
            ex.onInst = [&](const Instruction *I, PState &ps, Explorer &x) -> bool {
                if ((ps.st & 3) != 1 || I == S.cb || isa<ReturnInst>(I)) return true;
                if (S.fail && I == S.fail) { ps.st |= 8; sawFail = true; return true; }
                int d = R.does(*I, f, false, false);
                if (auto *cb = dyn_cast<CallBase>(I)) {
                    std::string nm = md.calleeName(cb);
                    if (R.wipeN.count(nm) && cb->arg_size() && f.obj.count(cb->getArgOperand(0))) ps.st |= 4;
                    if (d & 1) {
                        bool direct = R.freeN.count(nm) > 0, clr = R.clearN.count(nm) > 0 || (direct && (ps.st & 4));
                        kinds.insert(clr ? "clear" : direct ? "plain" : "other");
                        if (direct && !clr) plainAt = md.loc(cb);
                    }
                }
                if (d) ps.st = (ps.st & ~3) | 2;
                return true;
            };
            ex.onAfter = [&](const Instruction *I, PState &ps, Explorer &x) -> bool {
                if (I == S.cb) { ps.st = 1; if (oset) x.setMem(ps, S.cb->getArgOperand(S.arg), AV::nonzero(64), 64); }
                return true;
            };
            ex.onRet = [&](const ReturnInst *r, PState &ps, Explorer &x) {
                if ((ps.st & 3) != 1 || hit) return;
                if (S.fail && !(ps.st & 8)) return;
                if (const Value *v = r->getReturnValue()) if (f.obj.count(v) || f.inner.count(v)) { AV q = x.eval(v, ps.env); if (!(q.isConst() && q.lo == 0)) return; }
                hit = true;
                a.push_back(json::Object{{"fn", md.nameOf(F)}, {"file", md.fileOf(F)}, {"callee", md.calleeName(S.cb) + (S.arg >= 0 ? "#" + std::to_string(S.arg) : "") + (S.fail ? "/" + md.calleeName(S.fail) : "")}, {"site", md.loc(S.cb)}, {"use", md.loc(r)}, {"path", x.pathText(ps.path, 25)}});
                x.stop = true;
            };
            ex.run(PState());
            if (!S.fail) { json::Array ka; for (auto &q : kinds) ka.push_back(q); cl.push_back(json::Object{{"fn", md.nameOf(F)}, {"file", md.fileOf(F)}, {"callee", md.calleeName(S.cb) + (S.arg >= 0 ? "#" + std::to_string(S.arg) : "")}, {"site", md.loc(S.cb)}, {"kinds", std::move(ka)}, {"plain", plainAt}}); }
            if (ex.overflow) ovf++;
            steps += ex.steps;
        }
        return json::Object{{"v", std::move(a)}, {"cl", std::move(cl)}, {"ovf", ovf}, {"steps", steps}};
    }, out);
    json::Array v, cl; int64_t ovf = 0, steps = 0, lost = 0;
    for (auto &x : out) { auto *xo = x.getAsObject(); if (!xo) { lost++; continue; } ovf += *xo->getInteger("ovf"); steps += *xo->getInteger("steps"); for (auto &y : *xo->getArray("v")) v.push_back(y); for (auto &y : *xo->getArray("cl")) cl.push_back(y); }
    json::Object r;
    r["sites"] = (int64_t)plain; r["failure_cases"] = (int64_t)(sites.size() - plain); r["overflow"] = ovf; r["steps"] = steps; r["lost"] = lost; r["viol"] = std::move(v); r["release"] = std::move(cl);
    std::set<std::string> fs; for (auto &s : sites) fs.insert(md.fileOf(s.cb->getFunction()) + ":" + md.nameOf(s.cb->getFunction()));
    r["functions"] = (int64_t)fs.size();
    json::Array sm; for (size_t i = 0; i < plain; i += std::max<size_t>(1, plain / 8)) sm.push_back(md.loc(sites[i].cb) + " " + md.nameOf(sites[i].cb->getFunction()) + " <- " + md.calleeName(sites[i].cb));
    r["samples"] = std::move(sm);
    res["release"] = std::move(r);
}
// ---- released memory is not used, released again, or left reachable through a field of a living object
namespace {
struct Uaf {
    Rel &R; const Mod &md;
    std::unordered_map<const Value *, std::string> memo;
    const DataLayout &dl;
    Uaf(Rel &r) : R(r), md(r.md), dl(r.md.M->getDataLayout()) {}
    // structural name of a value: argument, load of an address, or the value itself
    std::string val(const Value *v, int d = 0)
    {
        v = v->stripPointerCasts();
        auto it = memo.find(v);
        if (it != memo.end()) return it->second;
        std::string s;
        if (auto *A = dyn_cast<Argument>(v)) s = "a" + std::to_string(A->getArgNo());
        else if (auto *g = dyn_cast<GlobalVariable>(v)) s = "@" + g->getName().str();
        else if (auto *c = dyn_cast<ConstantInt>(v)) s = std::to_string(c->getSExtValue());
        else if (auto *l = dyn_cast<LoadInst>(v)) { if (d < 8) { std::string a = addr(l->getPointerOperand(), d + 1); if (!a.empty()) s = "*(" + a + ")"; } }
        else if (isa<GEPOperator>(v) && v->getType()->isPointerTy()) { if (d < 8) s = "&(" + addr(v, d + 1) + ")"; }
        else if (isa<CastInst>(v)) s = val(cast<CastInst>(v)->getOperand(0), d + 1);
        if (s.empty()) s = "v" + std::to_string((uintptr_t)v);
        return memo[v] = s;
    }
    std::string addr(const Value *p, int d = 0)
    {
        p = p->stripPointerCasts();
        if (auto *g = dyn_cast<GEPOperator>(p)) {
            APInt off(64, 0);
            if (g->accumulateConstantOffset(dl, off)) {
                std::string b = addr(g->getPointerOperand(), d + 1);
                return off.getSExtValue() ? b + "+" + std::to_string(off.getSExtValue()) : b;
            }
            std::string b = addr(g->getPointerOperand(), d + 1);
            b += "[";
            for (auto &i : g->indices()) b += val(i.get(), d + 1) + ",";
            return b + "]";
        }
        return val(p, d);
    }
    bool releases(const CallBase *cb, unsigned i)
    {
        Function *c = directCallee(cb);
        if (!c) { // a release slot
            std::string n = md.calleeName(cb);
            return i == 0 && n.find("ree") != std::string::npos && (R.callDoes(cb, i, false) & 1);
        }
        std::string n = md.nameOf(c);
        if (R.freeN.count(n) || R.clearN.count(n)) return i == 0;
        if (c->isDeclaration()) return i == 0 && (n == "free" || n == "fclose");
        if (n.find("Free") == std::string::npos && n.find("Destroy") == std::string::npos && n.find("FREE") == std::string::npos) return false;
        return R.callDoes(cb, i, false) & 1;
    }
};
}
void uafAnalysis(Mod &md, const json::Object &o, json::Object &res, int jobs)
{
    auto names = [&](const char *k) { std::set<std::string> r; if (auto *a = o.getArray(k)) for (auto &x : *a) if (auto s = x.getAsString()) r.insert(s->str()); return r; };
    Rel R(md);
    R.alloc = names("alloc"); R.freeN = names("free"); R.clearN = names("clear"); R.wipeN = names("wipe");
    Uaf U(R);
    auto inScope = [&](const Function *f) {
        std::string file = md.fileOf(f);
        if (file.empty()) return false;
        if (auto *a = o.getArray("scope")) { for (auto &x : *a) if (auto s = x.getAsString()) if (file.compare(0, s->size(), s->str()) == 0) return true; return false; }
        return true;
    };
    std::vector<std::pair<const CallBase *, unsigned>> sites;
    for (Function &F : *md.M) {
        if (F.isDeclaration() || !inScope(&F) || R.alloc.count(md.nameOf(&F)) || R.freeN.count(md.nameOf(&F)) || R.clearN.count(md.nameOf(&F))) continue;
        for (Instruction &I : instructions(F)) {
            auto *cb = dyn_cast<CallBase>(&I);
            if (!cb || isDbg(cb) || isa<IntrinsicInst>(cb)) continue;
            for (unsigned i = 0; i < cb->arg_size(); i++) {
                const Value *a = cb->getArgOperand(i);
                if (!a->getType()->isPointerTy() || isa<Constant>(a) || isa<AllocaInst>(a->stripPointerCasts())) continue;
                if (U.releases(cb, i)) { sites.push_back({cb, i}); break; }
            }
        }
    }
    std::vector<json::Value> out;
    size_t chunk = 40, n = (sites.size() + chunk - 1) / chunk;
    parallelFor(n, jobs, [&](size_t k) -> json::Value {
        json::Array a;
        int64_t ovf = 0, steps = 0, fieldSites = 0;
        for (size_t s = k * chunk; s < std::min(sites.size(), (k + 1) * chunk); s++) {
            const CallBase *cb = sites[s].first;
            Function *F = const_cast<Function *>(cb->getFunction());
            const Value *v = cb->getArgOperand(sites[s].second)->stripPointerCasts();
            std::string vk = U.val(v), fa; // value key, address key of the field it was loaded from
            const LoadInst *fl = dyn_cast<LoadInst>(v);
            const Value *base = nullptr;
            std::string fname;
            if (fl) {
                fa = U.addr(fl->getPointerOperand());
                const Value *p = fl->getPointerOperand();
                for (int q = 0; q < 12; q++) { p = p->stripPointerCasts(); if (auto *g = dyn_cast<GEPOperator>(p)) { p = g->getPointerOperand(); continue; } break; }
                base = p;
                fname = md.fieldOfAcc(fl);
            }
            bool localBase = base && isa<AllocaInst>(base);
            std::set<const Instruction *> redef, phiFirst; // when one of these is computed anew, the released object is another one
            { std::vector<const Value *> w{v}; std::set<const Value *> seen;
              while (!w.empty()) { const Value *x = w.back(); w.pop_back(); auto *xi = dyn_cast<Instruction>(x); if (!xi || !seen.insert(x).second || seen.size() > 60) continue;
                if (isa<PHINode>(xi)) { const Instruction *f = xi->getParent()->getFirstNonPHIOrDbg(); if (f) phiFirst.insert(f); }
                else if (isa<LoadInst>(xi) || isa<GetElementPtrInst>(xi) || isa<CastInst>(xi)) { redef.insert(xi); for (auto &op : xi->operands()) w.push_back(op); }
                else { if (!isa<AllocaInst>(xi)) redef.insert(xi); if (!isa<CallBase>(xi)) for (auto &op : xi->operands()) w.push_back(op); } } }
            // the loads that lead to the released value are computed anew only when they run again in a loop: only phis and calls change it
            for (auto it = redef.begin(); it != redef.end();) { if (isa<LoadInst>(*it) && *it != v) it = redef.erase(it); else ++it; }
            redef.insert(phiFirst.begin(), phiFirst.end());
            if (base && !localBase) fieldSites++;
            auto isFreed = [&](const Value *x, const PState &ps) { // x holds the released pointer (or a part of the object)
                x = x->stripPointerCasts();
                for (int q = 0; q < 8; q++) { if (x == v) return true; if (auto *g = dyn_cast<GEPOperator>(x)) x = g->getPointerOperand()->stripPointerCasts(); else break; }
                if (ps.st == 1 && isa<LoadInst>(x) && U.val(x) == vk) return true;
                return false;
            };
            Explorer ex(md, *F);
            ex.maxStatesPerBlock = 120; ex.maxSteps = 20000;
            bool hit = false;
            auto rep = [&](const char *kind, const Instruction *I, Explorer &x, PState &ps) {
                hit = true; x.stop = true;
                if (getenv("HSA_DUMP")) errs() << md.nameOf(F) << "\n  v " << *v << "\n  at " << *cb << "\n  use " << *I << "\n";
                a.push_back(json::Object{{"fn", md.nameOf(F)}, {"file", md.fileOf(F)}, {"kind", kind}, {"callee", md.calleeName(cb) + (fname.empty() ? "" : "(" + fname + ")")}, {"site", md.loc(cb)}, {"use", md.loc(I)}, {"path", x.pathText(ps.path, 25)}});
            };
            ex.onInst = [&](const Instruction *I, PState &ps, Explorer &x) -> bool {
                if (isDbg(I)) return true;
                if (fl && ps.st < 1) { // is the field overwritten between reading it and the release?
                    if (I == fl) ps.st = 0;
                    else if (auto *st = dyn_cast<StoreInst>(I)) { if (U.addr(st->getPointerOperand()) == fa) ps.st = -1; }
                }
                if (ps.st != 1 && ps.st != 3) return true;
                if (I == cb || I == v || redef.count(I)) { ps.st = 0; if (isa<LoadInst>(I) || I == cb) return true; if (I != v) return true; }
                if (auto *st = dyn_cast<StoreInst>(I)) {
                    std::string sa = U.addr(st->getPointerOperand());
                    if (ps.st == 1 && fl && (sa == fa || (!fname.empty() && md.fieldOfAcc(st) == fname) || (fname.empty() && fa.find("[") != std::string::npos && st->getValueOperand()->getType()->isPointerTy() && sa.find("[") != std::string::npos) || (fa.size() > sa.size() && fa.find("*(" + sa + ")") != std::string::npos))) { ps.st = 3; return true; }
                    if (isFreed(st->getPointerOperand(), ps) && st->getPointerOperand()->stripPointerCasts() != v) { rep("written", I, x, ps); return false; }
                    if (st->getPointerOperand()->stripPointerCasts() == v) { rep("written", I, x, ps); return false; }
                    return true;
                }
                if (auto *l = dyn_cast<LoadInst>(I)) { if (isFreed(l->getPointerOperand(), ps)) { rep("read", I, x, ps); return false; } return true; }
                if (auto *c2 = dyn_cast<CallBase>(I)) {
                    if (auto *ii = dyn_cast<IntrinsicInst>(c2)) if (!isa<MemIntrinsic>(ii)) return true;
                    bool touchesBase = false;
                    for (unsigned i = 0; i < c2->arg_size(); i++) {
                        const Value *q = c2->getArgOperand(i);
                        if (!q->getType()->isPointerTy()) continue;
                        if (isFreed(q, ps)) { rep(U.releases(c2, i) ? "released again" : "passed on", I, x, ps); return false; }
                        if (fl) {
                            std::string qa = U.addr(q);
                            // the object (or a parent of it) is handed to a call that may reset the field
                            if (fa.compare(0, qa.size(), qa) == 0 || fa.find("*(" + qa) != std::string::npos || fa.find("(" + qa + "+") != std::string::npos) {
                                Function *c = directCallee(c2);
                                if (!c || !c->onlyReadsMemory()) touchesBase = true;
                            }
                        }
                    }
                    if (touchesBase) { ps.st = 3; return true; }
                }
                return true;
            };
            ex.onAfter = [&](const Instruction *I, PState &ps, Explorer &x) -> bool {
                if (I == cb) { AV q = x.eval(v, ps.env); if (!(q.isConst() && q.lo == 0)) ps.st = ps.st == -1 ? 3 : 1; }
                return true;
            };
            ex.onRet = [&](const ReturnInst *r, PState &ps, Explorer &x) {
                if ((ps.st != 1 && ps.st != 3) || hit) return;
                if (const Value *rv = r->getReturnValue()) if (rv->getType()->isPointerTy() && isFreed(rv, ps)) { rep("returned", r, x, ps); return; }
                if (ps.st == 1 && fl && !localBase && vk[0] == '*') rep("left", r, x, ps);
            };
            ex.run(PState());
            if (ex.overflow) ovf++;
            steps += ex.steps;
        }
        return json::Object{{"v", std::move(a)}, {"ovf", ovf}, {"steps", steps}, {"fields", fieldSites}};
    }, out);
    json::Array v; int64_t ovf = 0, steps = 0, lost = 0, fields = 0;
    for (auto &x : out) { auto *xo = x.getAsObject(); if (!xo) { lost++; continue; } ovf += *xo->getInteger("ovf"); steps += *xo->getInteger("steps"); fields += *xo->getInteger("fields"); for (auto &y : *xo->getArray("v")) v.push_back(y); }
    json::Object r;
    r["sites"] = (int64_t)sites.size(); r["field_sites"] = fields; r["overflow"] = ovf; r["steps"] = steps; r["lost"] = lost; r["viol"] = std::move(v);
    std::set<std::string> fs; for (auto &s : sites) fs.insert(md.fileOf(s.first->getFunction()) + ":" + md.nameOf(s.first->getFunction()));
    r["functions"] = (int64_t)fs.size();
    json::Array sm; for (size_t i = 0; i < sites.size(); i += std::max<size_t>(1, sites.size() / 8)) sm.push_back(md.loc(sites[i].first) + " " + md.nameOf(sites[i].first->getFunction()) + " -> " + md.calleeName(sites[i].first));
    r["samples"] = std::move(sm);
    res["uaf"] = std::move(r);
}
} // namespace hsa
