// Lock discipline: pairing on every path, no re-acquisition, acquisition order, accesses made without the guarding lock.
#include "core.h"
namespace hsa {
static std::string lockId(const Mod &md, const Value *v, int depth = 0)
{
    v = v->stripPointerCasts();
    if (auto *l = dyn_cast<LoadInst>(v)) {
        std::string f = md.fieldOfAcc(l);
        if (!f.empty()) return f;
        const Value *p = l->getPointerOperand()->stripPointerCasts();
        if (auto *g = dyn_cast<GlobalVariable>(p)) return "@" + g->getName().str();
        return "?";
    }
    if (auto *g = dyn_cast<GlobalVariable>(v)) return "@" + g->getName().str();
    if (auto *a = dyn_cast<Argument>(v)) return "#" + std::to_string(a->getArgNo());
    if (auto *p = dyn_cast<PHINode>(v)) {
        if (depth < 3) for (auto &o : p->incoming_values()) { std::string s = lockId(md, o, depth + 1); if (s != "?") return s; }
    }
    return "?";
}
typedef std::vector<std::string> LS; // held locks, in order; "R:" / "W:" prefix
struct LockSum { bool analysed = false; std::set<std::string> acquires; }; // transitive
struct Locks {
    Mod &md;
    std::set<std::string> rd, wr, un;
    std::map<LS, int> ids; std::vector<LS> sets;
    std::map<const Function *, std::set<std::string>> acq; // transitive acquisitions
    std::map<const Function *, LS> entry;
    std::map<const Function *, LS> exitNet; // wrappers: locks held on return (all paths), relative
    std::map<const Function *, std::set<std::string>> relNet; // wrappers: locks released on return though not taken
    explicit Locks(Mod &m) : md(m) {}
    int intern(const LS &l) { auto it = ids.find(l); if (it != ids.end()) return it->second; int n = (int)sets.size(); sets.push_back(l); ids[l] = n; return n; }
};
static std::set<std::string> js(const json::Object &o, const char *k)
{
    std::set<std::string> r;
    if (auto *a = o.getArray(k)) for (auto &x : *a) if (auto s = x.getAsString()) r.insert(s->str());
    return r;
}
static bool held(const LS &l, const std::string &id) { for (auto &x : l) if (x.substr(2) == id) return true; return false; }
static LS inter(const LS &a, const LS &b) { LS r; for (auto &x : a) if (held(b, x.substr(2))) r.push_back(x); return r; }

void lockAnalysis(Mod &md, const json::Object &o, json::Object &res)
{
    Locks L(md);
    L.rd = js(o, "read"); L.wr = js(o, "write"); L.un = js(o, "unlock");
    L.intern({});
    auto kindOf = [&](const CallBase *cb) -> int {
        std::string n = md.calleeName(cb);
        if (L.rd.count(n)) return 1;
        if (L.wr.count(n)) return 2;
        if (L.un.count(n)) return 3;
        return 0;
    };
    auto isPrim = [&](const Function &F) { std::string n = md.nameOf(&F); return L.rd.count(n) || L.wr.count(n) || L.un.count(n); };
    auto subst = [&](const std::string &id, const CallBase *cb) -> std::string {
        if (id[0] != '#') return id;
        unsigned i = std::stoul(id.substr(1));
        return i < cb->arg_size() ? lockId(md, cb->getArgOperand(i)) : "?";
    };
    // functions with direct lock operations
    std::set<Function *> direct;
    for (Function &F : *md.M) { if (F.isDeclaration() || isPrim(F)) continue; for (Instruction &I : instructions(F)) if (auto *cb = dyn_cast<CallBase>(&I)) if (kindOf(cb)) direct.insert(&F); }
    // transitive acquisitions (field / global identified only)
    for (auto *F : direct) for (Instruction &I : instructions(*F)) if (auto *cb = dyn_cast<CallBase>(&I)) { int k = kindOf(cb); if (k == 1 || k == 2) { std::string id = lockId(md, cb->getArgOperand(0)); if (id[0] != '#' && id != "?") L.acq[F].insert(id); } }
    bool ch = true;
    while (ch) {
        ch = false;
        for (auto &kv : md.callersOf) { auto it = L.acq.find(kv.first); if (it == L.acq.end()) continue; auto src = it->second; for (auto *cb : kv.second) { if (isPrim(*cb->getFunction())) continue; auto &d = L.acq[cb->getFunction()]; size_t b = d.size(); d.insert(src.begin(), src.end()); if (d.size() != b) ch = true; } }
    }
    json::Array viol;
    std::set<std::string> seenV;
    auto report = [&](const std::string &kind, const Function *F, const Instruction *I, const std::string &lock, const std::string &text, const std::string &path) {
        std::string k = kind + md.nameOf(F) + lock + md.loc(I);
        if (!seenV.insert(k).second) return;
        viol.push_back(json::Object{{"kind", kind}, {"fn", md.nameOf(F)}, {"file", md.fileOf(F)}, {"callee", lock}, {"site", md.loc(I)}, {"how", text}, {"path", path}});
    };
    std::map<const Instruction *, LS> at; std::set<const Instruction *> visited;
    int64_t nlock = 0, nun = 0, steps = 0, ovf = 0;
    std::set<std::pair<std::string, std::string>> order; std::map<std::pair<std::string, std::string>, std::string> orderAt;
    auto explore = [&](Function *F, bool rep, bool failMode, const Instruction *failSite, bool record) {
        Explorer ex(md, *F);
        ex.maxStatesPerBlock = 400; ex.maxSteps = 60000;
        bool first = true; LS exitL; bool relOk = false; std::set<std::string> rel;
        ex.assumeVal = [&](const Instruction *I, PState &ps, AV &out) {
            auto *cb = dyn_cast<CallBase>(I);
            if (!cb) return false;
            int k = kindOf(cb);
            if (k == 1 || k == 2) { out = failMode && I == failSite ? AV::cst(0x0BADC0DE, 32) : AV::cst(0, 32); return true; }
            if (k == 3) { out = AV::cst(0, 32); return true; }
            return false; };
        ex.onInst = [&](const Instruction *I, PState &ps, Explorer &x) -> bool {
            LS cur = L.sets[ps.st];
            if (record) { auto it = at.find(I); if (it == at.end()) at[I] = cur; else it->second = inter(it->second, cur); }
            auto *cb = dyn_cast<CallBase>(I);
            if (!cb) return true;
            int k = kindOf(cb);
            if (k == 1 || k == 2) {
                if (failMode && I == failSite) return true;
                std::string id = lockId(md, cb->getArgOperand(0));
                if (held(cur, id) && id != "?" && rep) report("relock", F, I, id, "lock acquired again while held on the same path", x.pathText(ps.path, 25));
                if (rep) for (auto &h : cur) { auto e = std::make_pair(h.substr(2), id); if (order.insert(e).second) orderAt[e] = md.nameOf(F) + " " + md.loc(I); }
                cur.push_back((k == 1 ? "R:" : "W:") + id);
                ps.st = L.intern(cur);
            } else if (k == 3) {
                std::string id = lockId(md, cb->getArgOperand(0));
                bool found = false;
                for (size_t i = cur.size(); i-- > 0;) if (cur[i].substr(2) == id) { cur.erase(cur.begin() + i); found = true; break; }
                if (!found) { rel.insert(id); if (rep) report(failMode ? "unlock-after-failed-lock" : "unlock-unheld", F, I, id, "lock released on a path that does not hold it", x.pathText(ps.path, 25)); }
                ps.st = L.intern(cur);
            } else if (Function *c = directCallee(cb)) {
                if (!cur.empty() && rep) { auto a = L.acq.find(c); if (a != L.acq.end()) for (auto &id : a->second) {
                    if (held(cur, id)) report("relock", F, I, id, "calls " + md.nameOf(c) + " which acquires the lock already held", x.pathText(ps.path, 25));
                    for (auto &h : cur) { auto e = std::make_pair(h.substr(2), id); if (order.insert(e).second) orderAt[e] = md.nameOf(F) + " " + md.loc(I); } } }
                auto r = L.relNet.find(c);
                if (r != L.relNet.end()) { for (auto &id0 : r->second) { std::string id = subst(id0, cb); for (size_t i = cur.size(); i-- > 0;) if (cur[i].substr(2) == id) { cur.erase(cur.begin() + i); break; } } ps.st = L.intern(cur); }
                auto w = L.exitNet.find(c);
                if (w != L.exitNet.end()) { for (auto &x0 : w->second) cur.push_back(x0.substr(0, 2) + subst(x0.substr(2), cb)); ps.st = L.intern(cur); }
            }
            return true;
        };
        ex.onRet = [&](const ReturnInst *r, PState &ps, Explorer &x) {
            const LS &cur = L.sets[ps.st];
            if (first) { exitL = cur; first = false; } else exitL = inter(exitL, cur);
            if (rep && !cur.empty()) for (auto &h : cur) report("held-at-return", F, r, h.substr(2), "function returns with the lock still held", x.pathText(ps.path, 25));
        };
        ex.run(PState());
        steps += (int64_t)ex.steps; if (ex.overflow) ovf++;
        (void)relOk;
        return std::make_pair(first ? LS() : exitL, rel);
    };
    // wrappers: a function that returns holding / having released a lock on all paths, found by exploring without reporting
    json::Array wraps;
    for (auto *F : direct) {
        auto r = explore(F, false, false, nullptr, false);
        bool hasUn = false, hasLk = false;
        for (Instruction &I : instructions(*F)) if (auto *cb = dyn_cast<CallBase>(&I)) { int k = kindOf(cb); if (k == 3) hasUn = true; if (k == 1 || k == 2) hasLk = true; }
        if (!r.first.empty() && !hasUn) { L.exitNet[F] = r.first; wraps.push_back(md.nameOf(F) + " acquires"); }
        if (!r.second.empty() && !hasLk) { L.relNet[F] = r.second; wraps.push_back(md.nameOf(F) + " releases"); }
    }
    std::set<Function *> todo = direct;
    for (auto &kv : L.exitNet) { auto it = md.callersOf.find(kv.first); if (it != md.callersOf.end()) for (auto *cb : it->second) todo.insert(cb->getFunction()); }
    for (auto &kv : L.relNet) { auto it = md.callersOf.find(kv.first); if (it != md.callersOf.end()) for (auto *cb : it->second) todo.insert(cb->getFunction()); }
    std::vector<Function *> order1(todo.begin(), todo.end());
    std::sort(order1.begin(), order1.end(), [&](Function *a, Function *b) { return md.fileOf(a) + md.nameOf(a) < md.fileOf(b) + md.nameOf(b); });
    json::Array samples;
    for (auto *F : order1) {
        bool wrap = L.exitNet.count(F) || L.relNet.count(F);
        explore(F, !wrap, false, nullptr, true);
        for (Instruction &I : instructions(*F)) if (auto *cb = dyn_cast<CallBase>(&I)) {
            int k = kindOf(cb);
            if (k == 1 || k == 2) { nlock++; if (!wrap) explore(F, true, true, cb, false); if (nlock % 15 == 1) samples.push_back(md.loc(cb) + " " + md.nameOf(F) + " " + lockId(md, cb->getArgOperand(0))); }
            if (k == 3) nun++;
        }
    }
    // cycles in the acquisition order
    std::map<std::string, std::set<std::string>> g;
    for (auto &e : order) g[e.first].insert(e.second);
    json::Array edges;
    for (auto &e : order) {
        edges.push_back(json::Object{{"from", e.first}, {"to", e.second}, {"at", orderAt[e]}});
        // reachable back?
        std::set<std::string> s; std::vector<std::string> w{e.second};
        bool cyc = false;
        while (!w.empty()) { auto x = w.back(); w.pop_back(); if (!s.insert(x).second) continue; if (x == e.first) { cyc = true; break; } for (auto &y : g[x]) w.push_back(y); }
        if (cyc && e.first != e.second) viol.push_back(json::Object{{"kind", "order"}, {"fn", orderAt[e]}, {"file", ""}, {"callee", e.first + "->" + e.second}, {"site", orderAt[e]}, {"how", "acquisition order cycle"}, {"path", ""}});
    }
    // entry locksets: intersection over call sites, fixpoint; functions that are address-taken or uncalled start with none
    std::map<const Function *, LS> &entry = L.entry;
    std::set<const Function *> top;
    for (Function &F : *md.M) if (!F.isDeclaration()) { bool esc = F.hasAddressTaken(); auto it = md.callersOf.find(&F); if (esc || it == md.callersOf.end() || it->second.empty()) entry[&F] = {}; else top.insert(&F); }
    auto lsAt = [&](const Instruction *I, bool &known) -> LS {
        const Function *F = I->getFunction();
        LS r;
        auto e = entry.find(F);
        known = e != entry.end();
        if (known) r = e->second;
        auto a = at.find(I);
        if (a != at.end()) for (auto &x : a->second) if (!held(r, x.substr(2))) r.push_back(x);
        return r;
    };
    for (int round = 0; round < 12; round++) {
        bool c2 = false;
        for (auto *F : top) {
            bool have = false; LS cur;
            for (auto *cb : md.callersOf[F]) {
                bool known; LS l = lsAt(cb, known);
                if (!known && at.find(cb) == at.end()) continue; // optimistic: unknown callers ignored this round
                if (!known) { /* caller not settled: its local locks only count if nothing else */ continue; }
                LS m;
                for (auto &x : l) if (x[2] != '#' && x.substr(2) != "?") m.push_back(x);
                cur = have ? inter(cur, m) : m; have = true;
            }
            if (!have) continue;
            auto it = entry.find(F);
            if (it == entry.end() || it->second != cur) { entry[F] = cur; c2 = true; }
        }
        if (!c2) break;
    }
    // accesses to requested fields / globals
    json::Array acc;
    std::set<std::string> want = js(o, "guarded");
    std::set<std::string> wantCalls = js(o, "guarded_calls");
    bool all = want.count("*");
    for (Function &F : *md.M) for (Instruction &I : instructions(F)) {
        std::string f; bool store = false;
        if (auto *s = dyn_cast<StoreInst>(&I)) { f = md.fieldOfAcc(s); store = true; if (f.empty()) { const Value *p = s->getPointerOperand()->stripPointerCasts(); while (auto *gp = dyn_cast<GEPOperator>(p)) p = gp->getPointerOperand()->stripPointerCasts(); if (auto *gv = dyn_cast<GlobalVariable>(p)) f = "@" + gv->getName().str(); } }
        else if (auto *l = dyn_cast<LoadInst>(&I)) { f = md.fieldOfAcc(l); if (f.empty()) { const Value *p = l->getPointerOperand()->stripPointerCasts(); while (auto *gp = dyn_cast<GEPOperator>(p)) p = gp->getPointerOperand()->stripPointerCasts(); if (auto *gv = dyn_cast<GlobalVariable>(p)) if (!gv->isConstant()) f = "@" + gv->getName().str(); } }
        if (auto *cb = dyn_cast<CallBase>(&I)) { // objects reached through a field and handed to a callee
            bool known; LS l = lsAt(&I, known);
            std::string ls; for (auto &x : l) ls += (ls.empty() ? "" : ",") + x;
            std::string cn = md.calleeName(cb);
            if (cn.empty()) cn = "*";
            if (all && cb->arg_size() && cb->getArgOperand(0)->getType()->isPointerTy() && (cn.find("Dup") != std::string::npos || cn.find("UpRef") != std::string::npos || cn.find("RefUp") != std::string::npos || cn.find("Copy") != std::string::npos))
                acc.push_back(json::Object{{"field", "()" + cn}, {"how", "used"}, {"fn", md.nameOf(&F)}, {"file", md.fileOf(&F)}, {"site", md.loc(&I)}, {"locks", ls}});
            if (!kindOf(cb) && cn.compare(0, 9, "llvm.dbg.") && cn.compare(0, 8, "BSL_ERR_") && cn.compare(0, 13, "llvm.lifetime")) for (auto &a : cb->args()) {
                const Value *v = a->stripPointerCasts();
                std::string g = isa<LoadInst>(v) ? md.fieldOfAcc(cast<LoadInst>(v)) : isa<GEPOperator>(v) ? md.fieldOfPtr(v) : std::string();
                if (isa<LoadInst>(v) && g.empty()) { const Value *p = cast<LoadInst>(v)->getPointerOperand()->stripPointerCasts(); if (auto *gv = dyn_cast<GlobalVariable>(p)) if (!gv->isConstant()) g = "@" + gv->getName().str(); }
                if (!g.empty() && (all || want.count(g))) acc.push_back(json::Object{{"field", g}, {"how", "passed to " + cn}, {"fn", md.nameOf(&F)}, {"file", md.fileOf(&F)}, {"site", md.loc(&I)}, {"locks", ls}});
            }
            continue;
        }
        if (f.empty() || (!all && !want.count(f))) continue;
        bool known; LS l = lsAt(&I, known);
        std::string ls; for (auto &x : l) ls += (ls.empty() ? "" : ",") + x;
        acc.push_back(json::Object{{"field", f}, {"how", store ? "written" : "read"}, {"fn", md.nameOf(&F)}, {"file", md.fileOf(&F)}, {"site", md.loc(&I)}, {"locks", ls}});
    }
    json::Object r;
    r["viol"] = std::move(viol); r["lock_sites"] = nlock; r["unlock_sites"] = nun; r["functions"] = (int64_t)order1.size(); r["steps"] = steps; r["overflow"] = ovf; r["wrappers"] = std::move(wraps); r["edges"] = std::move(edges); r["acc"] = std::move(acc); r["samples"] = std::move(samples);
    res["locks"] = std::move(r);
}
} // namespace hsa
