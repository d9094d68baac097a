// Rejection contracts: "when these observed values hold, the function does not report success".
// mine: derives candidate contracts from the guards of every function (development only).
// eval: decides frozen contracts on the current tree.
#include "core.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/ADT/BreadthFirstIterator.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include <sstream>
namespace hsa {
static bool utilName(const std::string &n);
static const std::set<const Function *> &pureFns(const Mod &md);
namespace {
struct Atom {
    enum K { ARG, FIELD, GLOBAL, CALL, OUT, ELEM, EV, EXPR } k = ARG; // EV: the call happened on the path; EXPR: value of a canonical expression
    int i = 0;           // argument number (ARG: of the root, OUT: of the callee)
    std::string n;       // field, global or callee name
    bool nzv = false;    // any non-zero value
    int64_t v = 0;
    std::vector<std::pair<int, int64_t>> ca;         // CALL: constant arguments
    std::vector<std::pair<int, std::string>> fa;     // CALL: argument comes from this field
    std::vector<std::pair<int, std::string>> da;     // CALL: canonical form of an argument
    std::vector<std::pair<int, std::string>> pa;     // CALL: the object passed here is also passed to "callee#n"
    std::string key() const
    {
        std::string s = std::to_string((int)k) + "|" + std::to_string(i) + "|" + n;
        for (auto &p : ca) s += "|c" + std::to_string(p.first) + "=" + std::to_string(p.second);
        for (auto &p : fa) s += "|f" + std::to_string(p.first) + "=" + p.second;
        for (auto &p : da) s += "|d" + std::to_string(p.first) + "=" + p.second;
        for (auto &p : pa) s += "|p" + std::to_string(p.first) + "=" + p.second;
        return s;
    }
    bool same(const Atom &o) const { return k == o.k && i == o.i && n == o.n && ca == o.ca && fa == o.fa && da == o.da && pa == o.pa; }
};
typedef std::vector<Atom> Atoms;
static std::string akey(const Atoms &a)
{
    std::vector<std::string> v;
    for (auto &x : a) v.push_back(x.key() + "=" + (x.nzv ? std::string("nz") : std::to_string(x.v)));
    std::sort(v.begin(), v.end());
    std::string s;
    for (auto &x : v) s += x + ";";
    return s;
}
static json::Object toJSON(const Atom &a)
{
    static const char *kn[] = {"arg", "field", "global", "call", "out", "elem", "ev", "ex"};
    json::Object o;
    o["k"] = kn[a.k];
    if (a.k == Atom::ARG || a.k == Atom::OUT || a.k == Atom::ELEM || (a.k == Atom::FIELD && a.i)) o["i"] = a.i;
    if (!a.n.empty()) o["n"] = a.n;
    if (a.nzv) o["v"] = "nz"; else o["v"] = a.v;
    if (!a.ca.empty()) { json::Array r; for (auto &p : a.ca) r.push_back(json::Array{p.first, p.second}); o["ca"] = std::move(r); }
    if (!a.fa.empty()) { json::Array r; for (auto &p : a.fa) r.push_back(json::Array{p.first, p.second}); o["fa"] = std::move(r); }
    if (!a.da.empty()) { json::Array r; for (auto &p : a.da) r.push_back(json::Array{p.first, p.second}); o["da"] = std::move(r); }
    if (!a.pa.empty()) { json::Array r; for (auto &p : a.pa) r.push_back(json::Array{p.first, p.second}); o["pa"] = std::move(r); }
    return o;
}
static Atom fromJSON(const json::Object &o)
{
    Atom a;
    std::string k = o.getString("k").value_or("").str();
    a.k = k == "arg" ? Atom::ARG : k == "field" ? Atom::FIELD : k == "global" ? Atom::GLOBAL : k == "call" ? Atom::CALL : k == "elem" ? Atom::ELEM : k == "ev" ? Atom::EV : k == "ex" ? Atom::EXPR : Atom::OUT;
    a.i = (int)o.getInteger("i").value_or(0);
    a.n = o.getString("n").value_or("").str();
    if (o.getString("v")) a.nzv = true; else a.v = o.getInteger("v").value_or(0);
    if (auto *r = o.getArray("ca")) for (auto &x : *r) a.ca.push_back({(int)*(*x.getAsArray())[0].getAsInteger(), *(*x.getAsArray())[1].getAsInteger()});
    if (auto *r = o.getArray("fa")) for (auto &x : *r) a.fa.push_back({(int)*(*x.getAsArray())[0].getAsInteger(), (*x.getAsArray())[1].getAsString()->str()});
    if (auto *r = o.getArray("da")) for (auto &x : *r) a.da.push_back({(int)*(*x.getAsArray())[0].getAsInteger(), (*x.getAsArray())[1].getAsString()->str()});
    if (auto *r = o.getArray("pa")) for (auto &x : *r) a.pa.push_back({(int)*(*x.getAsArray())[0].getAsInteger(), (*x.getAsArray())[1].getAsString()->str()});
    return a;
}

static bool cleanupName(const std::string &n)
{
    for (const char *p : {"Free", "FREE", "free", "Cleanse", "Clear", "Destroy", "Deinit", "DeInit", "Erase", "Clean", "Wipe"}) if (n.find(p) != std::string::npos) return true;
    return false;
}
static void basesOf(const Value *v, std::set<const Value *> &out, int depth = 0);
// Canonical description of a value, independent of how the expression is written: linear normal form over leaves
// (root arguments aN, fields F:, elements E:, globals G:, call results C:, local memory filled by a call O:callee#n@offset).
struct Canon {
    const Mod &md;
    std::unordered_map<const Value *, std::string> memo;
    std::unordered_map<const Value *, std::string> filled;
    explicit Canon(const Mod &m) : md(m) {}
    struct Lin { std::map<std::string, int64_t> t; int64_t c = 0; bool ok = false; };
    static std::string text(const Lin &l)
    {
        std::string s;
        for (auto &p : l.t) if (p.second) { if (!s.empty()) s += "+"; if (p.second != 1) s += std::to_string(p.second) + "*"; s += p.first; }
        if (l.c || s.empty()) { if (!s.empty()) s += "+"; s += std::to_string(l.c); }
        return s;
    }
    static Lin leaf(const std::string &s) { Lin l; l.ok = !s.empty(); if (l.ok) l.t[s] = 1; return l; }
    std::string fillOf(const AllocaInst *al)
    {
        auto it = filled.find(al);
        if (it != filled.end()) return it->second;
        std::string best;
        std::vector<const Value *> w{al}; std::set<const Value *> seen;
        while (!w.empty()) {
            const Value *v = w.back(); w.pop_back();
            if (!seen.insert(v).second || seen.size() > 60) continue;
            for (auto *u : v->users()) {
                if (isa<GetElementPtrInst>(u) || isa<CastInst>(u)) { w.push_back(u); continue; }
                auto *cb = dyn_cast<CallBase>(u);
                if (!cb) continue;
                Function *c = directCallee(cb);
                std::string n;
                if (c && c->isIntrinsic()) { if (auto *m = dyn_cast<MemTransferInst>(cb)) { if (m->getRawDest() == v) n = "memcpy"; } if (n.empty()) continue; }
                else n = md.calleeName(cb);
                if (n.empty() || cleanupName(n)) continue;
                for (unsigned i = 0; i < cb->arg_size(); i++) if (cb->getArgOperand(i) == v) { std::string q = n + "#" + std::to_string(i); if (best.empty() || q < best) best = q; }
            }
        }
        return filled[al] = best;
    }
    Lin lin(const Value *v, int d)
    {
        Lin r;
        if (d > 14) return r;
        if (auto *c = dyn_cast<ConstantInt>(v)) { if (c->getBitWidth() <= 64) { r.ok = true; r.c = c->getBitWidth() == 1 ? (int64_t)c->getZExtValue() : c->getSExtValue(); } return r; }
        if (isa<ConstantPointerNull>(v)) { r.ok = true; return r; }
        if (auto *a = dyn_cast<Argument>(v)) return leaf("a" + std::to_string(a->getArgNo()));
        if (auto *g = dyn_cast<GlobalVariable>(v)) return g->hasName() && g->getName()[0] != '.' ? leaf("&G:" + g->getName().str()) : r;
        if (auto *f = dyn_cast<Function>(v)) return leaf("fn:" + md.nameOf(f));
        if (auto *l = dyn_cast<LoadInst>(v)) {
            std::string f = md.fieldOfAcc(l);
            if (!f.empty()) return leaf("F:" + f);
            const Value *p = l->getPointerOperand()->stripPointerCasts();
            int64_t off = 0; bool var = false;
            for (int i = 0; i < 8; i++) if (auto *g = dyn_cast<GEPOperator>(p)) {
                APInt o(64, 0);
                if (g->accumulateConstantOffset(md.M->getDataLayout(), o)) off += o.getSExtValue(); else var = true;
                p = g->getPointerOperand()->stripPointerCasts();
            }
            std::string at = var ? "@v" : "@" + std::to_string(off), w = ":" + std::to_string(widthOf(l->getType()));
            if (auto *a = dyn_cast<Argument>(p)) return leaf("E:#" + std::to_string(a->getArgNo()) + at + w);
            if (auto *q = dyn_cast<LoadInst>(p)) { std::string qf = md.fieldOfAcc(q); return qf.empty() ? r : leaf("E:" + qf + at + w); }
            if (auto *g = dyn_cast<GlobalVariable>(p)) return leaf("G:" + g->getName().str() + at);
            if (auto *al = dyn_cast<AllocaInst>(p)) { std::string f2 = fillOf(al); return f2.empty() ? r : leaf("O:" + f2 + at + w); }
            return r;
        }
        if (auto *cb = dyn_cast<CallBase>(v)) {
            Function *c = directCallee(cb);
            if (c && c->isIntrinsic()) { if (c->getIntrinsicID() == Intrinsic::expect) return lin(cb->getArgOperand(0), d + 1); return r; }
            std::string n = md.calleeName(cb);
            if (n.empty()) return r;
            if (!n.compare(0, 8, "BSL_Byte")) { std::string s = "(C:" + n; for (auto &a : cb->args()) { Lin x = lin(a, d + 1); s += " " + (x.ok ? text(x) : std::string("?")); } return leaf(s + ")"); }
            return leaf("C:" + n);
        }
        if (isa<CastInst>(v)) return lin(cast<CastInst>(v)->getOperand(0), d + 1);
        if (isa<FreezeInst>(v)) return lin(cast<Instruction>(v)->getOperand(0), d + 1);
        if (auto *g = dyn_cast<GEPOperator>(v)) {
            std::string f = md.fieldOfGEP(g);
            if (!f.empty()) return leaf("&F:" + f);
            Lin b = lin(g->getPointerOperand(), d + 1);
            if (!b.ok || g->getNumIndices() > 2) return r;
            if (g->getNumIndices() == 2) { auto *z = dyn_cast<ConstantInt>(g->getOperand(1)); if (!z || !z->isZero()) return r; }
            Lin i = lin(g->getOperand(g->getNumOperands() - 1), d + 1);
            if (!i.ok) return r;
            int64_t sz = (int64_t)md.M->getDataLayout().getTypeAllocSize(g->getResultElementType()).getFixedValue();
            for (auto &p : i.t) b.t[p.first] += p.second * sz;
            b.c += i.c * sz;
            return b;
        }
        if (auto *al = dyn_cast<AllocaInst>(v)) { std::string f = fillOf(al); return leaf("L:" + f); }
        if (auto *b = dyn_cast<BinaryOperator>(v)) {
            Lin x = lin(b->getOperand(0), d + 1), y = lin(b->getOperand(1), d + 1);
            if (!x.ok || !y.ok) return r;
            unsigned op = b->getOpcode();
            if (op == Instruction::Add || op == Instruction::Sub) { int64_t k = op == Instruction::Add ? 1 : -1; for (auto &p : y.t) x.t[p.first] += k * p.second; x.c += k * y.c; return x; }
            if (op == Instruction::Shl && y.t.empty() && y.c >= 0 && y.c < 63) { y.c = 1LL << y.c; op = Instruction::Mul; }
            if (op == Instruction::Mul && (x.t.empty() || y.t.empty())) { if (x.t.empty()) std::swap(x, y); for (auto &p : x.t) p.second *= y.c; x.c *= y.c; return x; }
            auto pow2 = [](int64_t k) { return k > 0 && !(k & (k - 1)); };
            if ((op == Instruction::UDiv || op == Instruction::SDiv) && y.t.empty() && pow2(y.c)) { int k = 0; while ((1LL << k) < y.c) k++; y.c = k; op = Instruction::LShr; }
            if ((op == Instruction::URem || op == Instruction::SRem) && y.t.empty() && pow2(y.c)) { y.c -= 1; op = Instruction::And; }
            if (op == Instruction::AShr) op = Instruction::LShr;
            if ((op == Instruction::Or || op == Instruction::And || op == Instruction::Xor) && x.t.empty() != y.t.empty()) { // (a op k1) op k2
                if (x.t.empty()) std::swap(x, y);
                std::string pre = std::string("(:") + Instruction::getOpcodeName(op) + " ", in = text(x);
                if (x.t.size() == 1 && !x.c && x.t.begin()->second == 1 && !in.compare(0, pre.size(), pre)) {
                    char *e = nullptr;
                    int64_t k = strtoll(in.c_str() + pre.size(), &e, 10);
                    if (e && e != in.c_str() + pre.size() && *e == ' ' && in.find_first_of("+*", (size_t)(e - in.c_str())) == std::string::npos) {
                        y.c = op == Instruction::Or ? (y.c | k) : op == Instruction::And ? (y.c & k) : (y.c ^ k);
                        return leaf(pre + std::to_string(y.c) + std::string(e));
                    }
                }
            }
            std::string a = text(x), c = text(y);
            bool comm = op == Instruction::Mul || op == Instruction::And || op == Instruction::Or || op == Instruction::Xor;
            if (comm && c < a) std::swap(a, c);
            return leaf("(:" + std::string(Instruction::getOpcodeName(op)) + " " + a + " " + c + ")");
        }
        if (auto *i = dyn_cast<ICmpInst>(v)) {
            Lin x = lin(i->getOperand(0), d + 1), y = lin(i->getOperand(1), d + 1);
            if (!x.ok || !y.ok) return r;
            auto p = i->getPredicate();
            std::string a = text(x), c = text(y);
            if (c < a) { std::swap(a, c); p = CmpInst::getSwappedPredicate(p); }
            return leaf("(:" + CmpInst::getPredicateName(p).str() + " " + a + " " + c + ")");
        }
        return r;
    }
    // "" when there is no canonical form
    std::string of(const Value *v)
    {
        auto it = memo.find(v);
        if (it != memo.end()) return it->second;
        Lin l = lin(v, 0);
        std::string s = l.ok ? text(l) : "";
        if (s.size() > 300) s.clear();
        return memo[v] = s;
    }
    // leaves of a canonical form (constants only on request)
    static std::set<std::string> leavesOf(const std::string &s, bool consts)
    {
        std::set<std::string> out;
        std::string t;
        auto flush = [&]() {
            if (!t.empty() && t[0] != ':' && t != "?") { bool num = t.find_first_not_of("-0123456789") == std::string::npos; if (!num || consts) out.insert(t); }
            t.clear();
        };
        for (char ch : s) if (ch == ' ' || ch == '(' || ch == ')' || ch == '+' || ch == '*') flush(); else t += ch;
        flush();
        return out;
    }
};
static Canon *g_canon = nullptr; // of the function under analysis
static bool sameLeaves(const std::string &a, const std::string &b) { return Canon::leavesOf(a, true) == Canon::leavesOf(b, true); }
static AV val(const Atom &a, unsigned w) { return a.nzv ? AV::nonzero(w) : AV::cst((uint64_t)a.v, w); }
static std::string argField(const Mod &md, const Value *v)
{
    v = v->stripPointerCasts();
    while (isa<CastInst>(v)) v = cast<CastInst>(v)->getOperand(0);
    if (auto *l = dyn_cast<LoadInst>(v)) return md.fieldOfAcc(l);
    if (auto *g = dyn_cast<GEPOperator>(v)) return md.fieldOfGEP(g);
    return "";
}
// is the object in argument i of cb also handed to "callee#n" somewhere in the function?
static bool alsoPassed(const Mod &md, const CallBase *cb, int i, const std::string &to)
{
    std::set<const Value *> b;
    if (i < 0) b.insert(cb); else basesOf(cb->getArgOperand(i), b);
    if (b.empty()) return false;
    size_t h = to.rfind('#');
    std::string n = to.substr(0, h);
    unsigned k = (unsigned)atoi(to.c_str() + h + 1);
    for (const Instruction &I : instructions(*cb->getFunction())) if (auto *c = dyn_cast<CallBase>(&I)) {
        if (c == cb || k >= c->arg_size() || md.calleeName(c) != n) continue;
        std::set<const Value *> o;
        basesOf(c->getArgOperand(k), o);
        for (auto *q : o) if (b.count(q)) return true;
    }
    return false;
}
static bool callMatch(const Mod &md, const CallBase *cb, const Atom &a)
{
    if (md.calleeName(cb) != a.n) return false;
    for (auto &p : a.ca) {
        if (p.first >= (int)cb->arg_size()) return false;
        auto *c = dyn_cast<ConstantInt>(cb->getArgOperand(p.first));
        if (!c || c->getSExtValue() != p.second) return false;
    }
    for (auto &p : a.fa) {
        if (p.first >= (int)cb->arg_size() || argField(md, cb->getArgOperand(p.first)) != p.second) return false;
    }
    for (auto &p : a.da) {
        if (p.first >= (int)cb->arg_size() || !g_canon || g_canon->of(cb->getArgOperand(p.first)) != p.second) return false;
    }
    for (auto &p : a.pa) if (p.first >= (int)cb->arg_size() || !alsoPassed(md, cb, p.first, p.second)) return false;
    return true;
}
// memory without a field name reached through a pointer argument ("#n") or a pointer field; i = element width in bits
static std::string elemOf(const Mod &md, const LoadInst *l)
{
    if (!l->getType()->isIntegerTy() || !md.fieldOfAcc(l).empty()) return "";
    const Value *p = l->getPointerOperand()->stripPointerCasts();
    for (int i = 0; i < 8; i++) {
        if (auto *g = dyn_cast<GEPOperator>(p)) { if (!md.fieldOfGEP(g).empty()) return ""; p = g->getPointerOperand()->stripPointerCasts(); continue; }
        break;
    }
    if (auto *a = dyn_cast<Argument>(p)) return "#" + std::to_string(a->getArgNo());
    if (auto *q = dyn_cast<LoadInst>(p)) return md.fieldOfAcc(q);
    return "";
}
// the root argument a load's object is reached from, plus one (0: none)
static int baseArg(const Value *v)
{
    for (int i = 0; i < 24; i++) {
        v = v->stripPointerCasts();
        if (auto *a = dyn_cast<Argument>(v)) return (int)a->getArgNo() + 1;
        if (auto *l = dyn_cast<LoadInst>(v)) { v = l->getPointerOperand(); continue; }
        if (auto *g = dyn_cast<GEPOperator>(v)) { v = g->getPointerOperand(); continue; }
        break;
    }
    return 0;
}
struct Res { bool reach = false, overflow = false; std::string where, path; unsigned long steps = 0; std::vector<bool> used; };

enum SinkK { S_ZERO, S_NONNULL, S_TRUE, S_FALSE, S_INZ, S_IZ };
static const char *sinkName[] = {"zero", "nonnull", "true", "false", "inz", "iz"};
// also status: hands on what method slots with status-returning implementations return
static bool statusRoot(const Mod &md, const Function *F)
{
    if (statusFn(md, F)) return true;
    if (F->isDeclaration() || !F->getReturnType()->isIntegerTy(32)) return false;
    bool st = false;
    for (auto &B : *F) if (auto *r = dyn_cast<ReturnInst>(B.getTerminator())) {
        std::vector<const Value *> w{r->getReturnValue()};
        std::set<const Value *> seen;
        while (!w.empty()) {
            const Value *v = w.back(); w.pop_back();
            if (!seen.insert(v).second) continue;
            if (auto *p = dyn_cast<PHINode>(v)) { for (auto &o : p->incoming_values()) w.push_back(o); continue; }
            if (auto *s = dyn_cast<SelectInst>(v)) { w.push_back(s->getTrueValue()); w.push_back(s->getFalseValue()); continue; }
            if (auto *cb = dyn_cast<CallBase>(v)) {
                Function *c = directCallee(cb);
                if (c) { if (c != F && !c->isDeclaration() && !statusFn(md, c)) { /* unknown */ } else st = st || (c != F && !c->isDeclaration()); continue; }
                std::string n = md.calleeName(cb);
                if (n.size() < 2) return false;
                auto it = md.fieldFns.find(n.substr(1));
                if (it == md.fieldFns.end()) return false;
                bool any = false; for (auto *f : it->second) if (statusFn(md, f)) any = true;
                if (!any) return false;
                st = true;
                continue;
            }
            if (auto *c = dyn_cast<ConstantInt>(v)) { if (c->isZero() || c->getZExtValue() >= 0x10000) continue; }
            return false;
        }
    }
    return st;
}
static bool sinkKind(const Mod &md, const Function *F, SinkK &k)
{
    if (F->getReturnType()->isPointerTy()) { k = S_NONNULL; return true; }
    if (F->getReturnType()->isIntegerTy(1)) { k = S_TRUE; return true; }
    if (statusRoot(md, F)) { k = S_ZERO; return true; }
    return false;
}
static bool hitSink(const AV &v, SinkK k)
{
    if (v.empty()) return false;
    if (k == S_ZERO || k == S_FALSE || k == S_IZ) return v.contains(0);
    if (k == S_TRUE) return v.contains(1);
    return !(v.isConst() && v.lo == 0);
}
// an action that has to happen on a path
struct Duty {
    bool store = false;
    std::string n;                     // callee or field
    bool hasV = false; int64_t v = 0;  // store: this constant
    std::vector<std::pair<int, int64_t>> ca;
    int oa = -1;                       // argument that names the object acted on
    std::string of; int op = -1;       // ... which is this field / this root argument / (neither) the object of the triggering call
    bool ob = false;
    int la = -1; int64_t lmin = 0;     // length argument and its least value if constant
    std::string ve;                                  // store: canonical form of the value
    std::vector<std::pair<int, std::string>> da;     // call: canonical forms of arguments
    std::string key() const
    {
        std::string k = (store ? "S|" : "C|") + n + "|" + (hasV ? std::to_string(v) : "-") + "|" + of + "|" + std::to_string(op) + "|" + (ob ? "ob" : "") + "|" + std::to_string(lmin);
        for (auto &p : ca) k += "|" + std::to_string(p.first) + "=" + std::to_string(p.second);
        if (!ve.empty()) k += "|v=" + ve;
        for (auto &p : da) k += "|d" + std::to_string(p.first) + "=" + p.second;
        return k;
    }
};
enum When { W_ANY, W_OK, W_FAIL };
static void basesOf(const Value *v, std::set<const Value *> &out, int depth)
{
    if (depth > 12) return;
    v = v->stripPointerCasts();
    if (auto *g = dyn_cast<GEPOperator>(v)) return basesOf(g->getPointerOperand(), out, depth + 1);
    if (auto *p = dyn_cast<PHINode>(v)) { for (auto &o : p->incoming_values()) if (o != p) basesOf(o, out, depth + 3); return; }
    if (auto *x = dyn_cast<SelectInst>(v)) { basesOf(x->getTrueValue(), out, depth + 1); basesOf(x->getFalseValue(), out, depth + 1); return; }
    if (isa<ConstantPointerNull>(v)) return;
    if (auto *l = dyn_cast<LoadInst>(v)) if (isa<AllocaInst>(l->getPointerOperand()->stripPointerCasts())) { out.insert(l->getPointerOperand()->stripPointerCasts()); return; }
    out.insert(v);
}
// callee name; memory copies that the compiler turned into intrinsics keep theirs
static std::string cname(const Mod &md, const CallBase *cb)
{
    if (isa<MemTransferInst>(cb)) return "memcpy";
    if (isa<MemSetInst>(cb)) return "memset";
    Function *c = directCallee(cb);
    if (c && c->isIntrinsic()) return "";
    std::string n = md.calleeName(cb);
    return n == "memmove" ? "memcpy" : n;
}
static bool g_relaxed = false; // compare canonical forms by their leaves only
static bool sameForm(const Value *v, const std::string &want, int depth = 0)
{
    if (!g_canon) return true;
    std::string s = g_canon->of(v);
    if (!s.empty()) return s == want || (g_relaxed && sameLeaves(s, want));
    while (auto *c = dyn_cast<CastInst>(v)) v = c->getOperand(0);
    if (depth < 3) {
        if (auto *p = dyn_cast<PHINode>(v)) { for (auto &o : p->incoming_values()) if (o != p && sameForm(o, want, depth + 1)) return true; }
        else if (auto *x = dyn_cast<SelectInst>(v)) return sameForm(x->getTrueValue(), want, depth + 1) || sameForm(x->getFalseValue(), want, depth + 1);
    }
    return false;
}
// "(:or K F:self)" -> K: flag bits added to a field in place
static bool orBits(const std::string &s, const std::string &field, uint64_t &k)
{
    if (s.compare(0, 5, "(:or ")) return false;
    char *e = nullptr;
    k = (uint64_t)strtoll(s.c_str() + 5, &e, 10);
    return e && s.compare((size_t)(e - s.c_str()), std::string::npos, " F:" + field + ")") == 0;
}
// adding the flag bits one by one is as good as adding them at once
static bool orCovered(const Mod &md, const StoreInst *st, const Duty &d)
{
    uint64_t want, k, all = 0;
    if (!g_canon || !orBits(d.ve, d.n, want) || !orBits(g_canon->of(st->getValueOperand()), d.n, k) || (k & want) == 0) return false;
    for (auto &BB : *st->getFunction()) for (auto &I : BB) if (auto *s = dyn_cast<StoreInst>(&I)) if (md.fieldOfAcc(s) == d.n && orBits(g_canon->of(s->getValueOperand()), d.n, k)) all |= k;
    return (all & want) == want;
}
struct Trig { const CallBase *site = nullptr; int arg = -2; };  // arg -1: the returned object, -2: no object
static bool dutyMatch(const Mod &md, const Instruction *I, const Duty &d, const Trig &t, const Env *env, const Explorer *x, bool &same)
{
    same = false;
    if (d.store) {
        auto *st = dyn_cast<StoreInst>(I);
        if (!st || md.fieldOfAcc(st) != d.n) return false;
        if (d.op == -3 && isa<AllocaInst>(getUnderlyingObject(st->getPointerOperand()))) return false;
        same = true;
        if (!d.ve.empty()) return sameForm(st->getValueOperand(), d.ve) || orCovered(md, st, d);
        if (!d.hasV) return true;
        const Value *v = st->getValueOperand();
        if (!tracked(v->getType())) return false;
        AV a;
        if (env) a = x->eval(v, *env);
        else if (auto *c = dyn_cast<ConstantInt>(v)) a = AV::cst(c->getZExtValue(), widthOf(v->getType()));
        else if (isa<ConstantPointerNull>(v)) a = AV::cst(0, 64);
        else return true;
        return a.isConst() && a.lo == ((uint64_t)d.v & AV::mask(widthOf(v->getType())));
    }
    auto *cb = dyn_cast<CallBase>(I);
    if (!cb || cname(md, cb) != d.n) return false;
    for (auto &p : d.da) if (p.first >= (int)cb->arg_size() || !sameForm(cb->getArgOperand(p.first), p.second)) return false;
    for (auto &p : d.ca) {
        if (p.first >= (int)cb->arg_size()) return false;
        const Value *v = cb->getArgOperand(p.first);
        if (!tracked(v->getType())) return false;
        if (env) { if (!x->eval(v, *env).contains((uint64_t)p.second & AV::mask(widthOf(v->getType())))) return false; }
        else if (auto *c = dyn_cast<ConstantInt>(v)) { if (c->getSExtValue() != p.second) return false; }
    }
    if (d.oa >= 0) {
        if (d.oa >= (int)cb->arg_size()) return false;
        const Value *v = cb->getArgOperand(d.oa);
        if (!d.of.empty()) { if (argField(md, v) != d.of) return false; }
        else {
            std::set<const Value *> b;
            basesOf(v, b);
            if (d.op >= 0) { bool hit = false; for (auto *q : b) if (auto *a = dyn_cast<Argument>(q)) if ((int)a->getArgNo() == d.op) hit = true; if (!hit) return false; }
            else if (d.ob && t.site) {
                std::set<const Value *> o;
                if (t.arg == -1) o.insert(t.site); else if (t.arg >= 0 && t.arg < (int)t.site->arg_size()) basesOf(t.site->getArgOperand(t.arg), o);
                bool hit = false;
                for (auto *q : b) if (o.count(q)) hit = true;
                if (!hit) return false;
            }
        }
    }
    if (d.la >= 0) {
        if (d.la >= (int)cb->arg_size()) return false;
        const Value *v = cb->getArgOperand(d.la);
        if (env && tracked(v->getType())) { AV a = x->eval(v, *env); if (a.isConst() && a.lo < (uint64_t)d.lmin) return false; }
        else if (auto *c = dyn_cast<ConstantInt>(v)) if (c->getSExtValue() < d.lmin) return false;
    }
    return true;
}
// effects other code can see: a store to a field of an object that outlives the call, a call that acts on something
static bool queryName(const std::string &n)
{
    for (const char *p : {"Get", "Is", "Check", "Verify", "Cmp", "Compare", "Find", "Search", "Has", "Len", "Size", "Count", "Num", "New", "Malloc", "Calloc", "Dump", "Dup", "Create", "Alloc", "Bits", "Time", "Lock", "Valid", "Query", "Match", "Support", "Exist", "Equal", "Id2", "2Id", "get", "find", "cmp"}) if (n.find(p) != std::string::npos) return true;
    return false;
}
static std::string cname(const Mod &md, const CallBase *cb);
static bool allocName(const std::string &n)
{
    for (const char *p : {"New", "Create", "alloc", "Alloc", "Dup", "Dump"}) if (n.find(p) != std::string::npos) return true;
    return false;
}
// which pointer parameters the callee may write through (by its declared types)
static std::vector<bool> writable(const CallBase *cb)
{
    std::vector<bool> r(cb->arg_size(), true);
    Function *c = directCallee(cb);
    DISubprogram *sp = c ? c->getSubprogram() : nullptr;
    if (!sp || !sp->getType()) return r;
    auto ts = sp->getType()->getTypeArray();
    for (unsigned i = 0; i + 1 < ts.size() && i < r.size(); i++) {
        const DIType *t = ts[i + 1];
        auto strip = [&]() { while (t) { auto *d = dyn_cast<DIDerivedType>(t); if (d && (d->getTag() == dwarf::DW_TAG_typedef || d->getTag() == dwarf::DW_TAG_volatile_type || d->getTag() == dwarf::DW_TAG_restrict_type)) t = d->getBaseType(); else break; } };
        strip();
        auto *d = dyn_cast_or_null<DIDerivedType>(t);
        if (d && d->getTag() == dwarf::DW_TAG_const_type) { t = d->getBaseType(); strip(); d = dyn_cast_or_null<DIDerivedType>(t); }
        if (!d || d->getTag() != dwarf::DW_TAG_pointer_type) { r[i] = false; continue; }
        t = d->getBaseType();
        strip();
        auto *b = dyn_cast_or_null<DIDerivedType>(t);
        if (b && b->getTag() == dwarf::DW_TAG_const_type) r[i] = false;
    }
    return r;
}
static bool actsOutside(const Mod &md, const CallBase *cb)
{
    auto w = writable(cb);
    bool anyPtr = false;
    for (unsigned i = 0; i < cb->arg_size(); i++) {
        const Value *v = cb->getArgOperand(i);
        if (!v->getType()->isPointerTy()) continue;
        anyPtr = true;
        if (!w[i] || isa<ConstantPointerNull>(v) || isa<Function>(v)) continue;
        std::set<const Value *> b;
        basesOf(v, b);
        for (auto *q : b) {
            if (isa<AllocaInst>(q) || isa<ConstantPointerNull>(q)) continue;
            if (auto *x = dyn_cast<CallBase>(q)) if (allocName(md.calleeName(x))) continue;
            return true;
        }
    }
    return !anyPtr;
}
static void actKeys(const Mod &md, const Instruction *I, std::vector<std::string> &out)
{
    if (auto *st = dyn_cast<StoreInst>(I)) {
        std::string f = md.fieldOfAcc(st);
        if (f.empty() || f.find("ListHead") != std::string::npos) return;
        const Value *u = getUnderlyingObject(st->getPointerOperand());
        if (isa<AllocaInst>(u) || isa<CallBase>(u)) return;
        out.push_back("S:" + f);
        if (auto *c = dyn_cast<ConstantInt>(st->getValueOperand())) { if (c->getBitWidth() <= 64) out.push_back("S:" + f + "=" + std::to_string(c->getSExtValue())); }
        else if (isa<ConstantPointerNull>(st->getValueOperand())) out.push_back("S:" + f + "=0");
        return;
    }
    auto *cb = dyn_cast<CallBase>(I);
    if (!cb || isa<MemIntrinsic>(cb)) return;
    Function *c = directCallee(cb);
    if (c && c->isIntrinsic()) return;
    std::string n = cname(md, cb);
    if (utilName(n) || cleanupName(n) || queryName(n)) return;
    if (c && pureFns(md).count(c)) return;
    if (!actsOutside(md, cb)) return;
    out.push_back("C:" + n);
    std::string k;
    for (unsigned i = 0; i < cb->arg_size(); i++) if (auto *q = dyn_cast<ConstantInt>(cb->getArgOperand(i))) if (q->getBitWidth() <= 64) k += (k.empty() ? "" : ",") + std::to_string(i) + "=" + std::to_string(q->getSExtValue());
    if (!k.empty()) out.push_back("C:" + n + "(" + k + ")");
}
struct ExOpt { std::map<std::string, const Instruction *> *acts = nullptr; const Instruction *force = nullptr; unsigned idx = 0; bool mustPass = false; const Duty *duty = nullptr; Trig trig; When when = W_OK; bool hasSink = true; };
// explores F under the assumptions for a return with the given outcome (that avoids the duty after the trigger)
static Res explore(const Mod &md, Function *F, const Atoms &as, SinkK sk, const ExOpt &xo, unsigned maxStates, unsigned maxSteps)
{
    Res r;
    r.used.assign(as.size(), false);
    Explorer ex(md, *F);
    ex.maxStatesPerBlock = maxStates;
    ex.maxSteps = maxSteps;
    ex.forceTerm = xo.force;
    ex.forceIdx = xo.idx;
    PState init;
    std::map<std::string, size_t> fld, glb, elm, exs;
    std::map<std::pair<std::string, int>, size_t> fldb;
    std::vector<size_t> calls, outs, evs;
    for (size_t i = 0; i < as.size(); i++) {
        auto &a = as[i];
        if (a.k == Atom::ARG) { if (a.i < (int)F->arg_size() && tracked(F->getArg(a.i)->getType())) { init.env.set(F->getArg(a.i), val(a, widthOf(F->getArg(a.i)->getType()))); r.used[i] = !F->getArg(a.i)->use_empty(); } }
        else if (a.k == Atom::FIELD) { if (a.i) fldb[{a.n, a.i}] = i; else fld[a.n] = i; }
        else if (a.k == Atom::GLOBAL) glb[a.n] = i;
        else if (a.k == Atom::ELEM) elm[a.n + ":" + std::to_string(a.i)] = i;
        else if (a.k == Atom::CALL) calls.push_back(i);
        else if (a.k == Atom::EV) evs.push_back(i);
        else if (a.k == Atom::EXPR) exs[a.n] = i;
        else outs.push_back(i);
    }
    int need = 0;
    for (size_t e = 0; e < evs.size(); e++) need |= 1 << (4 + e);
    if (!fld.empty() || !fldb.empty() || !glb.empty() || !calls.empty() || !elm.empty() || !exs.empty()) ex.assumeVal = [&](const Instruction *I, PState &ps, AV &out) -> bool {
        if (!exs.empty() && g_canon && !isa<CmpInst>(I)) {
            auto it = exs.find(g_canon->of(I));
            if (it != exs.end()) {
                auto *l = dyn_cast<LoadInst>(I);
                r.used[it->second] = true;
                if (!l || !ex.hasMem(l, ps.env)) { out = val(as[it->second], widthOf(I->getType())); return true; }
            }
        }
        if (auto *l = dyn_cast<LoadInst>(I)) {
            size_t hit = ~0ul;
            if (!fldb.empty()) { std::string f = md.fieldOfAcc(l); if (!f.empty()) { auto it = fldb.find({f, baseArg(l)}); if (it != fldb.end()) hit = it->second; } }
            if (hit == ~0ul && !fld.empty()) { std::string f = md.fieldOfAcc(l); if (!f.empty()) { auto it = fld.find(f); if (it != fld.end()) hit = it->second; } }
            if (hit == ~0ul && !glb.empty()) if (auto *g = dyn_cast<GlobalVariable>(l->getPointerOperand()->stripPointerCasts())) { auto it = glb.find(g->getName().str()); if (it != glb.end()) hit = it->second; }
            if (hit == ~0ul && !elm.empty()) { std::string e = elemOf(md, l); if (!e.empty()) { auto it = elm.find(e + ":" + std::to_string(widthOf(l->getType()))); if (it != elm.end()) hit = it->second; } }
            if (hit == ~0ul) return false;
            r.used[hit] = true;
            if (ex.hasMem(l, ps.env)) return false;
            out = val(as[hit], widthOf(I->getType()));
            return true;
        }
        if (auto *cb = dyn_cast<CallBase>(I)) for (auto i : calls) if (callMatch(md, cb, as[i])) { r.used[i] = true; out = val(as[i], widthOf(I->getType())); return true; }
        return false;
    };
    if (!xo.trig.site) init.st |= 2;
    if (!outs.empty() || !evs.empty() || xo.duty || xo.trig.site) ex.onAfter = [&](const Instruction *I, PState &ps, Explorer &x) -> bool {
        if (auto *cb = dyn_cast<CallBase>(I)) {
            for (auto i : outs) if (as[i].i < (int)cb->arg_size() && callMatch(md, cb, as[i])) {
                const Value *p = cb->getArgOperand(as[i].i)->stripPointerCasts();
                auto *al = dyn_cast<AllocaInst>(p);
                if (!al || !tracked(al->getAllocatedType())) continue;
                r.used[i] = true;
                unsigned w = widthOf(al->getAllocatedType());
                x.setMem(ps, p, val(as[i], w), w);
            }
            for (size_t e = 0; e < evs.size(); e++) if (callMatch(md, cb, as[evs[e]])) { ps.st |= 1 << (4 + e); r.used[evs[e]] = true; }
        }
        if (I == xo.trig.site) { ps.st |= 2; return true; }
        if (xo.duty && ((ps.st & 2) || (xo.duty->store && xo.duty->hasV) || xo.trig.arg == -2)) {
            bool same;
            if (dutyMatch(md, I, *xo.duty, xo.trig, &ps.env, &x, same)) { if (!xo.duty->store || !xo.duty->hasV) return false; ps.st |= 4; }
            else if (same) ps.st &= ~4;
        }
        return true;
    };
    if (xo.acts) ex.onInst = [&](const Instruction *I, PState &, Explorer &) -> bool {
        if (isa<StoreInst>(I) || isa<CallBase>(I)) { std::vector<std::string> ks; actKeys(md, I, ks); for (auto &k : ks) xo.acts->insert({k, I}); }
        return true;
    };
    if (xo.mustPass) ex.onInst = [&](const Instruction *I, PState &ps, Explorer &) -> bool { if (I == xo.force) ps.st |= 1; return true; };
    ex.onRet = [&](const ReturnInst *ri, PState &ps, Explorer &x) {
        if (xo.mustPass && !(ps.st & 1)) return;
        if ((ps.st & need) != need) return;
        if (!(ps.st & 2) || (xo.duty && (ps.st & 4))) return;
        if (xo.when != W_ANY) {
            if (!ri->getReturnValue()) return;
            AV v = x.eval(ri->getReturnValue(), ps.env);
            if (xo.when == W_OK) { if (!hitSink(v, sk)) return; }
            else { if (v.empty()) return; if (sk == S_ZERO ? (v.isConst() && v.lo == 0) : !v.contains(0)) return; }
        }
        r.reach = true; r.where = md.loc(ri); r.path = x.pathText(ps.path, 50); if (!xo.acts) x.stop = true;
    };
    ex.run(init);
    r.overflow = ex.overflow;
    r.steps = ex.steps;
    return r;
}
static Res explore(const Mod &md, Function *F, const Atoms &as, SinkK sk, const Instruction *force, unsigned idx, bool mustPass, unsigned maxStates, unsigned maxSteps)
{
    ExOpt xo; xo.force = force; xo.idx = idx; xo.mustPass = mustPass;
    return explore(md, F, as, sk, xo, maxStates, maxSteps);
}
// ---- atoms of conditions
struct Cand : Atoms { int cls = 0; Cand(const Atoms &a, int c = 0) : Atoms(a), cls(c) {} Cand(std::initializer_list<Atom> l) : Atoms(l) {} Cand() {} };
struct Term { Atom a; int64_t add = 0; uint64_t mask = 0; bool ok = false; bool isConst = false; int64_t c = 0; unsigned w = 32; };
struct Miner {
    const Mod &md;
    Function *F;
    std::map<std::string, int> ncalls;
    std::map<std::string, std::set<int>> fbase;
    bool manyBases(const std::string &f) { return fbase[f].size() > 1; }
    Miner(const Mod &m, Function *f) : md(m), F(f) { for (Instruction &I : instructions(*F)) if (auto *l = dyn_cast<LoadInst>(&I)) { std::string n = md.fieldOfAcc(l); if (!n.empty()) fbase[n].insert(baseArg(l)); }
        for (Instruction &I : instructions(*F)) if (auto *cb = dyn_cast<CallBase>(&I)) ncalls[md.calleeName(cb)]++; }
    Term term(const Value *v, int depth = 0, int disc = 0)
    {
        Term t = term0(v, depth, disc);
        if (t.ok || depth || disc < 2 || v->getType()->isPointerTy() || !g_canon) return t;
        std::string s = g_canon->of(v);
        if (s.empty() || Canon::leavesOf(s, false).empty()) return t;
        t = Term(); t.w = widthOf(v->getType()); t.ok = true;
        t.a.k = Atom::EXPR; t.a.n = s;
        return t;
    }
    Term term0(const Value *v, int depth, int disc)
    {
        Term t;
        t.w = widthOf(v->getType());
        if (depth > 8) return t;
        if (auto *c = dyn_cast<ConstantInt>(v)) { t.isConst = t.ok = true; t.c = c->getSExtValue(); return t; }
        if (isa<ConstantPointerNull>(v)) { t.isConst = t.ok = true; t.c = 0; return t; }
        if (auto *a = dyn_cast<Argument>(v)) { t.a.k = Atom::ARG; t.a.i = a->getArgNo(); t.ok = true; return t; }
        if (auto *l = dyn_cast<LoadInst>(v)) {
            std::string f = md.fieldOfAcc(l);
            if (!f.empty()) { t.a.k = Atom::FIELD; t.a.n = f; t.ok = true; if (disc) { int b = baseArg(l); if (b && manyBases(f)) t.a.i = b; } return t; }
            std::string el = elemOf(md, l);
            if (!el.empty()) { t.a.k = Atom::ELEM; t.a.n = el; t.a.i = (int)t.w; t.ok = true; return t; }
            const Value *p = l->getPointerOperand()->stripPointerCasts();
            if (auto *g = dyn_cast<GlobalVariable>(p)) { t.a.k = Atom::GLOBAL; t.a.n = g->getName().str(); t.ok = true; return t; }
            if (auto *al = dyn_cast<AllocaInst>(p)) {
                // filled in by a call that got its address
                for (auto *u : al->users()) if (auto *cb = dyn_cast<CallBase>(u)) {
                    Function *c = directCallee(cb);
                    if (c && c->isIntrinsic()) continue;
                    std::string n = md.calleeName(cb);
                    if (n.empty()) continue;
                    for (unsigned i = 0; i < cb->arg_size(); i++) if (cb->getArgOperand(i) == al) { t.a.k = Atom::OUT; t.a.n = n; t.a.i = i; t.ok = true; if (disc) discr(cb, t.a); return t; }
                }
            }
            return t;
        }
        if (auto *cb = dyn_cast<CallBase>(v)) {
            Function *c = directCallee(cb);
            if (c && c->isIntrinsic()) return t;
            std::string n = md.calleeName(cb);
            if (n.empty()) return t;
            t.a.k = Atom::CALL; t.a.n = n; t.ok = true;
            if (disc) discr(cb, t.a);
            return t;
        }
        if (isa<ZExtInst>(v) || isa<SExtInst>(v) || isa<TruncInst>(v) || isa<PtrToIntInst>(v) || isa<IntToPtrInst>(v) || isa<BitCastInst>(v)) { Term s = term0(cast<CastInst>(v)->getOperand(0), depth + 1, disc); s.w = std::min(s.w, t.w); return s; }
        if (auto *b = dyn_cast<BinaryOperator>(v)) {
            auto *k = dyn_cast<ConstantInt>(b->getOperand(1));
            if (!k) return t;
            if (b->getOpcode() == Instruction::Add || b->getOpcode() == Instruction::Sub) { Term s = term0(b->getOperand(0), depth + 1, disc); if (!s.ok || s.isConst || s.mask) return t; s.add += b->getOpcode() == Instruction::Add ? k->getSExtValue() : -k->getSExtValue(); return s; }
            if (b->getOpcode() == Instruction::And) { Term s = term0(b->getOperand(0), depth + 1, disc); if (!s.ok || s.isConst || s.add || s.mask) return t; s.mask = k->getZExtValue(); return s; }
        }
        return t;
    }
    void discr(const CallBase *cb, Atom &a)
    {
        for (unsigned i = 0; i < cb->arg_size(); i++) {
            auto *v = cb->getArgOperand(i);
            if (auto *c = dyn_cast<ConstantInt>(v)) { if (c->getBitWidth() <= 64) a.ca.push_back({(int)i, c->getSExtValue()}); }
            else { std::string f = argField(md, v); if (!f.empty()) a.fa.push_back({(int)i, f}); }
        }
    }
    static bool put(Atoms &as, const Atom &a)
    {
        for (auto &x : as) if (x.same(a)) return x.nzv == a.nzv && x.v == a.v;
        as.push_back(a);
        return true;
    }
    static Atom mk(const Term &t, int64_t target)
    {
        Atom a = t.a;
        a.v = target - t.add;
        if (t.w < 64 && t.w > 0) { // keep small unsigned representation where possible
            uint64_t m = AV::mask(t.w); uint64_t u = (uint64_t)a.v & m; a.v = (t.w == 32 || t.w == 64) && (u >> (t.w - 1)) ? (int64_t)(int32_t)u : (int64_t)u;
        }
        return a;
    }
    // concrete evaluation of an expression over atoms; leaves are collected on the way
    struct Leaf { const Value *v; Term t; };
    std::vector<std::pair<const Value *, size_t>> ali; // further reads of a leaf
    bool leaves(const Value *v, std::vector<Leaf> &ls, std::set<int64_t> &ks, int depth, int disc)
    {
        if (depth > 10 || ls.size() > 3) return false;
        if (auto *c = dyn_cast<ConstantInt>(v)) { if (c->getBitWidth() > 64) return false; ks.insert(c->getSExtValue()); return true; }
        for (auto &l : ls) if (l.v == v) return true;
        for (auto &l : ali) if (l.first == v) return true;
        if (isa<Argument>(v) || isa<LoadInst>(v) || isa<CallBase>(v)) {
            Term t = term(v, 0, disc);
            if (!t.ok || t.isConst || t.mask || t.add || v->getType()->isPointerTy()) return false;
            for (size_t i = 0; i < ls.size(); i++) if (ls[i].t.a.same(t.a)) { ali.push_back({v, i}); return true; }
            ls.push_back({v, t});
            return true;
        }
        if (auto *c = dyn_cast<CastInst>(v)) return tracked(c->getType()) && !c->getType()->isPointerTy() && leaves(c->getOperand(0), ls, ks, depth + 1, disc);
        if (auto *b = dyn_cast<BinaryOperator>(v)) return leaves(b->getOperand(0), ls, ks, depth + 1, disc) && leaves(b->getOperand(1), ls, ks, depth + 1, disc);
        if (auto *i = dyn_cast<ICmpInst>(v)) return leaves(i->getOperand(0), ls, ks, depth + 1, disc) && leaves(i->getOperand(1), ls, ks, depth + 1, disc);
        if (auto *s = dyn_cast<SelectInst>(v)) return leaves(s->getCondition(), ls, ks, depth + 1, disc) && leaves(s->getTrueValue(), ls, ks, depth + 1, disc) && leaves(s->getFalseValue(), ls, ks, depth + 1, disc);
        return false;
    }
    static bool conc(const Value *v, const std::map<const Value *, uint64_t> &m, uint64_t &out)
    {
        unsigned w = widthOf(v->getType());
        if (auto *c = dyn_cast<ConstantInt>(v)) { out = c->getZExtValue(); return true; }
        auto it = m.find(v);
        if (it != m.end()) { out = it->second & AV::mask(w); return true; }
        auto sx = [](uint64_t x, unsigned b) -> int64_t { return b >= 64 ? (int64_t)x : (int64_t)(x << (64 - b)) >> (64 - b); };
        uint64_t a, b;
        if (auto *c = dyn_cast<CastInst>(v)) { if (!conc(c->getOperand(0), m, a)) return false; unsigned sw = widthOf(c->getOperand(0)->getType()); out = isa<SExtInst>(c) ? (uint64_t)sx(a, sw) & AV::mask(w) : a & AV::mask(w); return true; }
        if (auto *bo = dyn_cast<BinaryOperator>(v)) {
            if (!conc(bo->getOperand(0), m, a) || !conc(bo->getOperand(1), m, b)) return false;
            switch (bo->getOpcode()) {
                case Instruction::Add: out = a + b; break; case Instruction::Sub: out = a - b; break; case Instruction::Mul: out = a * b; break;
                case Instruction::And: out = a & b; break; case Instruction::Or: out = a | b; break; case Instruction::Xor: out = a ^ b; break;
                case Instruction::Shl: out = b >= w ? 0 : a << b; break; case Instruction::LShr: out = b >= w ? 0 : a >> b; break; case Instruction::AShr: out = b >= w ? 0 : (uint64_t)(sx(a, w) >> b); break;
                case Instruction::UDiv: if (!b) return false; out = a / b; break; case Instruction::URem: if (!b) return false; out = a % b; break;
                case Instruction::SDiv: if (!b || sx(b, w) == -1) return false; out = (uint64_t)(sx(a, w) / sx(b, w)); break; case Instruction::SRem: if (!b || sx(b, w) == -1) return false; out = (uint64_t)(sx(a, w) % sx(b, w)); break;
                default: return false;
            }
            out &= AV::mask(w);
            return true;
        }
        if (auto *i = dyn_cast<ICmpInst>(v)) {
            if (!conc(i->getOperand(0), m, a) || !conc(i->getOperand(1), m, b)) return false;
            unsigned ow = widthOf(i->getOperand(0)->getType());
            switch (i->getPredicate()) {
                case CmpInst::ICMP_EQ: out = a == b; break; case CmpInst::ICMP_NE: out = a != b; break; case CmpInst::ICMP_ULT: out = a < b; break; case CmpInst::ICMP_ULE: out = a <= b; break;
                case CmpInst::ICMP_UGT: out = a > b; break; case CmpInst::ICMP_UGE: out = a >= b; break; case CmpInst::ICMP_SLT: out = sx(a, ow) < sx(b, ow); break; case CmpInst::ICMP_SLE: out = sx(a, ow) <= sx(b, ow); break;
                case CmpInst::ICMP_SGT: out = sx(a, ow) > sx(b, ow); break; default: out = sx(a, ow) >= sx(b, ow); break;
            }
            return true;
        }
        if (auto *s = dyn_cast<SelectInst>(v)) { if (!conc(s->getCondition(), m, a)) return false; return conc(a & 1 ? s->getTrueValue() : s->getFalseValue(), m, out); }
        return false;
    }
    std::vector<Cand> sampled(const Value *cond, bool want, int disc)
    {
        std::vector<Cand> out;
        std::vector<Leaf> ls;
        std::set<int64_t> ks;
        ali.clear();
        if (!leaves(cond, ls, ks, 0, disc) || ls.empty() || ls.size() > 3) return out;
        std::vector<int64_t> vals;
        auto add = [&](int64_t v) { if (std::find(vals.begin(), vals.end(), v) == vals.end()) vals.push_back(v); };
        for (auto k : ks) { add(k); add(k + 1); add(k - 1); }
        for (int64_t v : {0, 1, 2, 3, 4, 7, 8, 9, 16, 17, 32, 33, 64, 65, 128, 255, 256, 1000}) add(v);
        size_t n = ls.size(), tot = 1;
        if (n == 3 && vals.size() > 16) vals.resize(16);
        for (size_t i = 0; i < n; i++) tot *= vals.size();
        auto test = [&](const std::vector<size_t> &ix, bool &ok) -> bool { std::map<const Value *, uint64_t> m; for (size_t i = 0; i < n; i++) m[ls[i].v] = (uint64_t)vals[ix[i]]; for (auto &l : ali) m[l.first] = (uint64_t)vals[ix[l.second]]; uint64_t r; ok = conc(cond, m, r); return ok && ((r & 1) == (want ? 1u : 0u)); };
        std::vector<std::vector<size_t>> second;
        auto emit = [&](const std::vector<size_t> &ix, int cls) { Atoms a; for (size_t i = 0; i < n; i++) if (!put(a, mk(ls[i].t, vals[ix[i]]))) return; out.push_back(Cand(a, cls)); };
        // prefer assignments next to one that does not satisfy the condition (boundary)
        for (size_t c = 0; c < tot && out.size() < 8; c++) {
            std::vector<size_t> ix(n); size_t q = c;
            for (size_t i = 0; i < n; i++) { ix[i] = q % vals.size(); q /= vals.size(); }
            bool ok;
            if (!test(ix, ok)) continue;
            bool edge = false;
            for (size_t i = 0; i < n && !edge; i++) for (int d : {-1, 1}) {
                std::map<const Value *, uint64_t> m; for (size_t k = 0; k < n; k++) m[ls[k].v] = (uint64_t)vals[ix[k]];
                m[ls[i].v] = (uint64_t)(vals[ix[i]] + d);
                for (auto &l : ali) m[l.first] = m[ls[l.second].v];
                uint64_t r; if (conc(cond, m, r) && (r & 1) != (want ? 1u : 0u)) { edge = true; break; }
            }
            if (edge) emit(ix, 0); else if (second.size() < 4) second.push_back(ix);
        }
        for (auto &ix : second) if (out.size() < 12) emit(ix, 1);
        return out;
    }
    int phiDepth = 0;
    std::vector<Cand> intoPhi(const PHINode *ph, unsigned i, int disc);
    std::vector<Cand> satisfy(const Value *cond, bool want, int disc)
    {
        auto r = satisfy1(cond, want, disc);
        if (r.empty()) r = sampled(cond, want, disc);
        return r;
    }
    // candidate assignments that make `cond` equal want
    std::vector<Cand> satisfy1(const Value *cond, bool want, int disc)
    {
        std::vector<Cand> out;
        if (auto *t = dyn_cast<TruncInst>(cond)) { // bool byte
            Term x = term(t->getOperand(0), 0, disc);
            if (x.ok && !x.isConst && !x.mask) { Atom a = mk(x, want ? 1 : 0); out.push_back({a}); }
            return out;
        }
        if (auto *b = dyn_cast<BinaryOperator>(cond)) {
            if (b->getOpcode() == Instruction::Xor) if (auto *k = dyn_cast<ConstantInt>(b->getOperand(1))) if (k->isOne()) return satisfy(b->getOperand(0), !want, disc);
            return out;
        }
        if (auto *ph = dyn_cast<PHINode>(cond)) {
            for (unsigned i = 0; i < ph->getNumIncomingValues() && out.size() < 12; i++) {
                const Value *v = ph->getIncomingValue(i);
                std::vector<Cand> r;
                if (auto *k = dyn_cast<ConstantInt>(v)) { if (k->isOne() == want) r = intoPhi(ph, i, disc); }
                else if (!isa<PHINode>(v)) r = satisfy(v, want, disc);
                out.insert(out.end(), r.begin(), r.end());
            }
            return out;
        }
        auto *ic = dyn_cast<ICmpInst>(cond);
        if (!ic) {
            if (cond->getType()->isIntegerTy(1)) { Term x = term(cond, 0, disc); if (x.ok && !x.isConst && !x.mask) out.push_back({mk(x, want ? 1 : 0)}); }
            return out;
        }
        CmpInst::Predicate p = want ? ic->getPredicate() : ic->getInversePredicate();
        const Value *l = ic->getOperand(0), *r = ic->getOperand(1);
        // (zext i1 x) != 0 patterns
        if (auto *z = dyn_cast<ZExtInst>(l)) if (z->getOperand(0)->getType()->isIntegerTy(1) && isa<ICmpInst>(z->getOperand(0))) if (auto *k = dyn_cast<ConstantInt>(r)) if (k->isZero() && (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE)) return satisfy(z->getOperand(0), p == CmpInst::ICMP_NE, disc);
        if (auto *k = dyn_cast<ConstantInt>(r)) {
            const Value *x = l; while (auto *c = dyn_cast<CastInst>(x)) x = c->getOperand(0);
            if (auto *ph = dyn_cast<PHINode>(x)) if (k->getBitWidth() <= 64 && phiDepth < 2) {
                phiDepth++;
                for (unsigned i = 0; i < ph->getNumIncomingValues() && out.size() < 12; i++) if (auto *kv = dyn_cast<ConstantInt>(ph->getIncomingValue(i))) {
                    unsigned w = widthOf(l->getType());
                    APInt pv = isa<SExtInst>(l) ? kv->getValue().sextOrTrunc(w) : kv->getValue().zextOrTrunc(w);
                    if (!ICmpInst::compare(pv, k->getValue(), p)) continue;
                    auto r2 = intoPhi(ph, i, disc);
                    out.insert(out.end(), r2.begin(), r2.end());
                }
                phiDepth--;
                return out;
            }
        }
        Term a = term(l, 0, disc), b = term(r, 0, disc);
        if (!a.ok || !b.ok || (a.isConst && b.isConst)) return out;
        if (a.isConst) { std::swap(a, b); p = CmpInst::getSwappedPredicate(p); }
        bool ptr = l->getType()->isPointerTy();
        if (b.isConst) {
            int64_t K = b.c;
            if (ptr) {
                if (K != 0) return out;
                Atom x = a.a;
                if (p == CmpInst::ICMP_EQ) x.v = 0; else if (p == CmpInst::ICMP_NE) x.nzv = true; else return out;
                out.push_back({x});
                return out;
            }
            if (a.mask) {
                std::vector<int64_t> vs;
                int64_t ones = (a.w && a.w < 64) ? (a.w == 32 ? -1 : (int64_t)AV::mask(a.w)) : -1;
                if (p == CmpInst::ICMP_EQ) vs = {K}; else if (p == CmpInst::ICMP_NE) { if (K) vs = {0, (int64_t)(a.mask & ~(uint64_t)K)}; else vs = {(int64_t)a.mask, (int64_t)(a.mask & (~a.mask + 1)), ones}; } else return out;
                int c = 0;
                for (auto v : vs) { Atom x = a.a; x.v = v; out.push_back(Cand({x}, c++)); }
                return out;
            }
            std::vector<std::pair<int64_t, int>> vs;
            int64_t MAXV = -1, SMIN = a.w == 64 ? INT64_MIN : (int64_t)INT32_MIN, SMAX = a.w == 64 ? INT64_MAX : (int64_t)INT32_MAX;
            switch (p) {
                case CmpInst::ICMP_EQ: vs = {{K, 0}}; break;
                case CmpInst::ICMP_NE: vs = {{K + 1, 0}, {K - 1, 1}, {0, 2}, {1, 2}}; break;
                case CmpInst::ICMP_ULT: vs = {{K - 1, 0}, {0, 1}}; break;
                case CmpInst::ICMP_ULE: vs = {{K, 0}, {0, 1}}; break;
                case CmpInst::ICMP_UGT: vs = {{K + 1, 0}, {MAXV, 1}}; break;
                case CmpInst::ICMP_UGE: vs = {{K, 0}, {MAXV, 1}}; break;
                case CmpInst::ICMP_SLT: vs = {{K - 1, 0}, {SMIN, 1}, {-1, 1}, {0, 1}}; break;
                case CmpInst::ICMP_SLE: vs = {{K, 0}, {SMIN, 1}, {-1, 1}}; break;
                case CmpInst::ICMP_SGT: vs = {{K + 1, 0}, {SMAX, 1}, {1, 1}}; break;
                case CmpInst::ICMP_SGE: vs = {{K, 0}, {SMAX, 1}, {1, 1}}; break;
                default: return out;
            }
            bool any = false;
            for (auto &vc : vs) {
                int64_t v = vc.first;
                bool ok = false;
                uint64_t uv = (uint64_t)v & AV::mask(a.w ? a.w : 64), uk = (uint64_t)K & AV::mask(a.w ? a.w : 64);
                switch (p) { case CmpInst::ICMP_EQ: ok = uv == uk; break; case CmpInst::ICMP_NE: ok = uv != uk; break; case CmpInst::ICMP_ULT: ok = uv < uk; break; case CmpInst::ICMP_ULE: ok = uv <= uk; break;
                    case CmpInst::ICMP_UGT: ok = uv > uk; break; case CmpInst::ICMP_UGE: ok = uv >= uk; break; case CmpInst::ICMP_SLT: ok = v < K; break; case CmpInst::ICMP_SLE: ok = v <= K; break;
                    case CmpInst::ICMP_SGT: ok = v > K; break; case CmpInst::ICMP_SGE: ok = v >= K; break; default: break; }
                if (!ok) continue;
                any = true;
                out.push_back(Cand({mk(a, v)}, vc.second));
            }
            (void)any;
            return out;
        }
        if (ptr || a.mask || b.mask || a.a.same(b.a)) return out;
        for (int64_t base : {1, 8, 33, 64, 1000, 0, 2, 16, 5, 260, 3000, 20000}) {
            int64_t x = base, y = base;
            switch (p) {
                case CmpInst::ICMP_EQ: case CmpInst::ICMP_ULE: case CmpInst::ICMP_UGE: case CmpInst::ICMP_SLE: case CmpInst::ICMP_SGE: break;
                case CmpInst::ICMP_NE: case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: y = base + 1; break;
                case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: x = base + 1; break;
                default: return out;
            }
            if (x - a.add < 0 || y - b.add < 0) continue;
            Atom m = mk(a, x), n = mk(b, y);
            out.push_back({m, n});
            if (p == CmpInst::ICMP_NE) out.push_back(Cand({mk(a, y), mk(b, x)}, 1));
        }
        // far from the boundary
        for (int64_t base : {1, 64, 0, 1000}) {
            int64_t far = 30000;
            if (base - a.add < 0 || base - b.add < 0) continue;
            if (p == CmpInst::ICMP_ULT || p == CmpInst::ICMP_SLT || p == CmpInst::ICMP_ULE || p == CmpInst::ICMP_SLE) out.push_back(Cand({mk(a, base), mk(b, far)}, 1));
            else if (p == CmpInst::ICMP_UGT || p == CmpInst::ICMP_SGT || p == CmpInst::ICMP_UGE || p == CmpInst::ICMP_SGE) out.push_back(Cand({mk(a, far), mk(b, base)}, 1));
        }
        return out;
    }
};
static std::vector<std::pair<const Instruction *, unsigned>> domEdges(Function *F, DominatorTree &DT, const Instruction *T)
{
    std::vector<std::pair<const Instruction *, unsigned>> r; // nearest first
    auto *N = DT.getNode(const_cast<BasicBlock *>(T->getParent()));
    if (!N) return r;
    const BasicBlock *B = T->getParent();
    for (auto *n = N->getIDom(); n; n = n->getIDom()) {
        const BasicBlock *D = n->getBlock();
        const Instruction *t = D->getTerminator();
        if (t->getNumSuccessors() < 2) continue;
        int found = -1; int cnt = 0;
        for (unsigned i = 0; i < t->getNumSuccessors(); i++) { BasicBlockEdge e(D, t->getSuccessor(i)); if (e.isSingleEdge() && DT.dominates(e, B)) { found = i; cnt++; } }
        if (cnt == 1) r.push_back({t, (unsigned)found});
    }
    (void)F;
    return r;
}
static std::vector<Cand> satEdge(Miner &m, const Instruction *t, unsigned idx, int disc)
{
    if (auto *b = dyn_cast<BranchInst>(t)) return m.satisfy(b->getCondition(), idx == 0, disc);
    std::vector<Cand> out;
    if (auto *s = dyn_cast<SwitchInst>(t)) {
        Term x = m.term(s->getCondition(), 0, disc);
        if (!x.ok || x.isConst || x.mask) return out;
        std::set<int64_t> cs;
        for (auto &c : s->cases()) { cs.insert(c.getCaseValue()->getSExtValue()); if (c.getSuccessorIndex() == idx || c.getCaseSuccessor() == s->getSuccessor(idx)) out.push_back({Miner::mk(x, c.getCaseValue()->getSExtValue())}); }
        if (idx == 0 || s->getSuccessor(idx) == s->getDefaultDest()) { int64_t d = cs.empty() ? 0 : *cs.rbegin() + 1; out.push_back({Miner::mk(x, d)}); }
    }
    return out;
}
std::vector<Cand> Miner::intoPhi(const PHINode *ph, unsigned i, int disc)
{
    const BasicBlock *to = ph->getParent(), *from = ph->getIncomingBlock(i);
    for (int n = 0; n < 6; n++) {
        const Instruction *t = from->getTerminator();
        if (t->getNumSuccessors() > 1) {
            for (unsigned e = 0; e < t->getNumSuccessors(); e++) if (t->getSuccessor(e) == to) { if (phiDepth > 3) return {}; phiDepth++; auto r = satEdge(*this, t, e, disc); phiDepth--; return r; }
            return {};
        }
        to = from; from = from->getSinglePredecessor();
        if (!from) return {};
    }
    return {};
}
} // namespace
static std::set<std::string> calleeSet(const Mod &md, Function *F)
{
    std::set<std::string> s;
    for (Instruction &I : instructions(*F)) if (auto *cb = dyn_cast<CallBase>(&I)) { Function *c = directCallee(cb); if (c && c->isIntrinsic()) continue; std::string n = md.calleeName(cb); if (!n.empty()) s.insert(n); }
    return s;
}
static Function *prep(Mod &md, Function *root, const std::set<std::string> &stat, const std::set<std::string> &known, bool mining, unsigned budget, const std::set<std::string> *more = nullptr, const std::set<std::string> *leaf = nullptr)
{
    InlineOpts io;
    io.maxInstrs = budget;
    io.maxDepth = 8;
    io.want = [&](Function *c) {
        if (md.recursive(c)) return false;
        std::string n = md.nameOf(c);
        if (mining) { std::string f = md.fileOf(c); return c->hasInternalLinkage() && (f.size() < 2 || f.substr(f.size() - 2) != ".h"); }
        return (stat.count(n) && !(leaf && leaf->count(n))) || !known.count(n) || (more && more->count(n));
    };
    std::string err;
    return cloneAndInline(md, root, io, err);
}
static bool utilName(const std::string &n)
{
    for (const char *p : {"BSL_ERR_", "BSL_LOG", "BSL_ByteTo", "BSL_Uint", "mem", "str", "BSL_SAL_Mem", "BSL_SAL_Str", "BSL_SAL_Thread", "BSL_LIST_First", "BSL_LIST_GetNext", "BSL_LIST_GetData", "BSL_LIST_GET", "BSL_PRINT", "INDICATOR_", "snprintf", "printf", "BSL_LIST_CURR", "BSL_LIST_COUNT"}) if (!n.compare(0, strlen(p), p)) return true;
    return n.empty();
}
static std::vector<const CallBase *> around(const Mod &md, Function *F, DominatorTree &DT, const Instruction *t, const BasicBlock *good)
{
    std::vector<const CallBase *> r;
    std::set<std::string> seen;
    auto take = [&](const Instruction *I) { auto *cb = dyn_cast<CallBase>(I); if (!cb) return; Function *c = directCallee(cb); if (c && c->isIntrinsic()) return; std::string n = md.calleeName(cb); if (utilName(n) || !seen.insert(n).second) return; r.push_back(cb); };
    if (good && good->getSinglePredecessor()) {
        int k = 0;
        for (auto *n : breadth_first(DT.getNode(const_cast<BasicBlock *>(good)))) { for (auto &I : *n->getBlock()) take(&I); if (++k > 20 || r.size() >= 4) break; }
    }
    size_t base = r.size();
    if (auto *N = DT.getNode(const_cast<BasicBlock *>(t->getParent()))) for (auto *n = N; n && r.size() < base + 6; n = n->getIDom()) for (auto it = n->getBlock()->rbegin(); it != n->getBlock()->rend(); ++it) take(&*it);
    (void)F;
    return r;
}
static json::Object toJSON(const Duty &d)
{
    json::Object o;
    o["k"] = d.store ? "store" : "call"; o["n"] = d.n;
    if (d.hasV) o["v"] = d.v;
    if (!d.ca.empty()) { json::Array r; for (auto &p : d.ca) r.push_back(json::Array{p.first, p.second}); o["ca"] = std::move(r); }
    if (d.oa >= 0) o["oa"] = d.oa;
    if (!d.of.empty()) o["of"] = d.of;
    if (d.op != -1) o["op"] = d.op;
    if (d.ob) o["ob"] = true;
    if (d.la >= 0) { o["la"] = d.la; o["lmin"] = d.lmin; }
    if (!d.ve.empty()) o["ve"] = d.ve;
    if (!d.da.empty()) { json::Array r; for (auto &p : d.da) r.push_back(json::Array{p.first, p.second}); o["da"] = std::move(r); }
    return o;
}
static Duty dutyFrom(const json::Object &o)
{
    Duty d;
    d.store = o.getString("k").value_or("") == "store"; d.n = o.getString("n").value_or("").str();
    if (auto v = o.getInteger("v")) { d.hasV = true; d.v = *v; }
    if (auto *r = o.getArray("ca")) for (auto &x : *r) d.ca.push_back({(int)*(*x.getAsArray())[0].getAsInteger(), *(*x.getAsArray())[1].getAsInteger()});
    d.oa = (int)o.getInteger("oa").value_or(-1); d.of = o.getString("of").value_or("").str(); d.op = (int)o.getInteger("op").value_or(-1);
    d.ob = o.getBoolean("ob").value_or(false); d.la = (int)o.getInteger("la").value_or(-1); d.lmin = o.getInteger("lmin").value_or(0);
    d.ve = o.getString("ve").value_or("").str();
    if (auto *r = o.getArray("da")) for (auto &x : *r) d.da.push_back({(int)*(*x.getAsArray())[0].getAsInteger(), (*x.getAsArray())[1].getAsString()->str()});
    return d;
}
// functions that only compute: no store outside their own frame, no call of anything that has effects
static const std::set<const Function *> &pureFns(const Mod &md)
{
    static std::set<const Function *> pure;
    static bool done = false;
    if (done) return pure;
    done = true;
    std::set<const Function *> impure;
    auto local = [](const Value *p) { return isa<AllocaInst>(getUnderlyingObject(p)); };
    for (Function &F : *md.M) {
        if (F.isDeclaration()) { std::string n = F.getName().str(); if (!F.isIntrinsic() && n != "memcmp" && n != "strlen" && n != "strcmp" && n != "strncmp" && n != "memcpy" && n != "memset") impure.insert(&F); continue; }
        for (Instruction &I : instructions(F)) {
            if (auto *st = dyn_cast<StoreInst>(&I)) { if (!local(st->getPointerOperand())) impure.insert(&F); }
            else if (auto *mi = dyn_cast<MemIntrinsic>(&I)) { if (!local(mi->getDest())) impure.insert(&F); }
            else if (auto *cb = dyn_cast<CallBase>(&I)) { if (!directCallee(cb)) impure.insert(&F); }
        }
    }
    for (bool ch = true; ch;) {
        ch = false;
        for (Function &F : *md.M) if (!F.isDeclaration() && !impure.count(&F)) for (auto *c : const_cast<Mod &>(md).callees[&F]) if (impure.count(c) && !utilName(md.nameOf(c))) { impure.insert(&F); ch = true; break; }
    }
    for (Function &F : *md.M) if (!F.isDeclaration() && !impure.count(&F)) pure.insert(&F);
    return pure;
}
struct DutyC { Atoms as; When when; Duty d; std::string ev; int evArg = -2; };
static json::Object toJSON(const DutyC &c)
{
    json::Array ja; for (auto &a : c.as) ja.push_back(toJSON(a));
    json::Object o{{"as", std::move(ja)}, {"when", c.when == W_ANY ? "any" : c.when == W_OK ? "ok" : "fail"}, {"do", toJSON(c.d)}};
    if (!c.ev.empty()) { o["ev"] = c.ev; o["evarg"] = c.evArg; }
    return o;
}
// 0 holds, 1 broken, 2 not applicable (trigger absent or nothing to show)
static int checkDuty(const Mod &md, Function *F, const DutyC &c, SinkK sk, unsigned ST, unsigned SP, Res &out, bool vac, unsigned long &steps)
{
    std::vector<const CallBase *> sites;
    if (!c.ev.empty()) {
        for (Instruction &I : instructions(*F)) if (auto *cb = dyn_cast<CallBase>(&I)) if (md.calleeName(cb) == c.ev) sites.push_back(cb);
        if (sites.empty()) return 2;
    } else sites.push_back(nullptr);
    bool any = false;
    for (auto *s : sites) {
        ExOpt xo; xo.duty = &c.d; xo.trig.site = s; xo.trig.arg = c.evArg; xo.when = c.when;
        if (c.d.ob && s) { // the object at this site must be one the duty can be about
            std::set<const Value *> o; if (c.evArg == -1) o.insert(s); else if (c.evArg < (int)s->arg_size()) basesOf(s->getArgOperand(c.evArg), o);
            bool loc = false; for (auto *q : o) if (isa<AllocaInst>(q) || isa<CallBase>(q)) loc = true;
            if (!loc) continue;
        }
        g_relaxed = false;
        Res r = explore(md, F, c.as, sk, xo, ST, SP);
        steps += r.steps;
        if (!vac && r.reach && (!c.d.ve.empty() || !c.d.da.empty())) { g_relaxed = true; Res q = explore(md, F, c.as, sk, xo, ST, SP); g_relaxed = false; steps += q.steps; if (!q.reach) r = q; }
        if (r.reach || (vac && r.overflow)) { out = r; return 1; }
        if (vac) { xo.duty = nullptr; Res q = explore(md, F, c.as, sk, xo, ST, SP); if (q.reach) any = true; }
        else any = true;
    }
    return any ? 0 : 2;
}
static void mineDuties(Mod &md, Function *root, Function *F, SinkK sk, bool hasSink, json::Array &out, int64_t &tried)
{
    unsigned ST = 150, SP = 6000;
    if (instrCount(*F) > 9000) return;
    auto &pure = pureFns(md);
    Miner m(md, F);
    DominatorTree DT(*F);
    struct Site { const Instruction *I; Duty d; };
    std::map<std::string, std::vector<Site>> evs;
    std::vector<std::string> order, order2;
    auto usable = [&](const Value *v) -> std::string { std::string f = g_canon->of(v); if (f.empty() || f.find("L:") != std::string::npos || f.find("O:") != std::string::npos || f.size() > 120) return ""; return f; };
    for (Instruction &I : instructions(*F)) {
        Duty d;
        if (auto *st = dyn_cast<StoreInst>(&I)) {
            d.store = true; d.n = md.fieldOfAcc(st);
            if (d.n.empty() || d.n.find("ListHead") != std::string::npos) continue;
            const Value *u = getUnderlyingObject(st->getPointerOperand());
            if (isa<AllocaInst>(u) || isa<CallBase>(u)) continue;   // objects under construction
            const Value *v = st->getValueOperand();
            if (auto *c = dyn_cast<ConstantInt>(v)) { if (c->getBitWidth() > 64) continue; d.hasV = true; d.v = c->getSExtValue(); }
            else if (isa<ConstantPointerNull>(v)) { d.hasV = true; d.v = 0; }
        } else if (auto *cb = dyn_cast<CallBase>(&I)) {
            Function *c = directCallee(cb);
            d.n = cname(md, cb);
            bool mi = isa<MemIntrinsic>(cb);
            if (!mi && ((c && c->isIntrinsic()) || utilName(d.n))) continue;
            if (!mi && c && pure.count(c) && !statusFn(md, c)) continue;
            if (d.n == "BSL_SAL_Malloc" || d.n == "BSL_SAL_Calloc" || d.n == "BSL_SAL_Dump" || d.n == "BSL_SAL_Realloc") continue;
            if (!mi && c && !statusFn(md, c)) { bool g = false; for (const char *p : {"Get", "Size", "Len", "Count", "Num", "Bits", "Is", "Time"}) if (d.n.find(p) != std::string::npos) g = true; if (g) continue; }
            if (cleanupName(d.n)) {
                if (!cb->arg_size() || !cb->getArgOperand(0)->getType()->isPointerTy()) continue;
                d.oa = 0;
                const Value *v = cb->getArgOperand(0);
                if (d.n.find("UIO_Clear") != std::string::npos) d.oa = -1;
                else {
                    std::string f = argField(md, v);
                    std::set<const Value *> b; basesOf(v, b);
                    if (!f.empty()) d.of = f;
                    else if (b.size() == 1 && isa<Argument>(*b.begin())) d.op = (int)cast<Argument>(*b.begin())->getArgNo();
                    else { bool loc = false; for (auto *q : b) if (isa<AllocaInst>(q) || isa<CallBase>(q)) loc = true; if (!loc) continue; d.ob = true; }
                }
                if ((d.n == "BSL_SAL_CleanseData" || d.n == "BSL_SAL_ClearFree") && cb->arg_size() > 1) if (auto *k = dyn_cast<ConstantInt>(cb->getArgOperand(1))) { d.la = 1; d.lmin = k->getSExtValue(); }
            } else if (d.n.find("sendAlert") != std::string::npos || d.n.find("ALERT_Send") != std::string::npos) {
                if (cb->arg_size() > 1) if (auto *k = dyn_cast<ConstantInt>(cb->getArgOperand(1))) d.ca.push_back({1, k->getSExtValue()});
            }
        } else continue;
        std::string k = d.key();
        if (d.n != "memcpy" && d.n != "memset") {
            if (!evs.count(k)) order.push_back(k);
            evs[k].push_back({&I, d});
        }
        // the same action with the values it uses
        if (d.oa >= 0 || d.hasV || !g_canon) continue;
        if (auto *st = dyn_cast<StoreInst>(&I)) d.ve = usable(st->getValueOperand());
        else if (auto *cb = dyn_cast<CallBase>(&I)) for (unsigned i = 0; i < cb->arg_size(); i++) {
            if (isa<MemIntrinsic>(cb) && i > 2) break;
            std::string f = usable(cb->getArgOperand(i));
            if (!f.empty()) d.da.push_back({(int)i, f});
        }
        if (isa<MemIntrinsic>(&I) && (d.da.size() < 3 || !(d.da[0].second[0] == '&' || d.da[0].second[0] == 'F'))) continue;
        if (d.ve.empty() && d.da.empty()) continue;
        std::string k2 = d.key();
        if (!evs.count(k2)) order2.push_back(k2);
        evs[k2].push_back({&I, d});
    }
    if (order.size() > 160) order.resize(160);
    if (order2.size() > 120) order2.resize(120);
    order.insert(order.end(), order2.begin(), order2.end());
    std::set<std::string> kept;
    unsigned long steps = 0;
    Res rr;
    auto ok = [&](const DutyC &c) { if (getenv("HSA_DBG")) { Res q; int k = checkDuty(md, F, c, sk, ST, SP, q, true, steps); errs() << md.nameOf(root) << " " << c.d.key() << " ev=" << c.ev << " when=" << (int)c.when << " as=" << akey(c.as) << " -> " << k << " ovf=" << q.overflow << " " << q.where << "\n"; } tried++; return checkDuty(md, F, c, sk, ST, SP, rr, true, steps) == 0; };
    auto emit = [&](const DutyC &c, const Instruction *I) {
        json::Object o = toJSON(c);
        std::string s; raw_string_ostream os(s); os << json::Value(json::Object(o));
        if (!kept.insert(os.str()).second) return;
        o["in"] = funcOfLoc(I); o["loc"] = md.loc(I);
        out.push_back(std::move(o));
    };
    auto succ = [&](const CallBase *cb, Atoms &as) -> bool {
        Atom a; a.k = Atom::CALL; a.n = md.calleeName(cb);
        Function *c = directCallee(cb);
        if (cb->getType()->isPointerTy()) a.nzv = true;
        else if (cb->getType()->isIntegerTy(1)) a.v = 1;
        else if (cb->getType()->isIntegerTy(32) && (!c || statusFn(md, c))) a.v = 0;
        else return false;
        as = {a};
        return true;
    };
    for (auto &k : order) {
        auto &ss = evs[k];
        const Duty &d = ss[0].d;
        bool general = false;
        DutyC c; c.d = d;
        bool cl = !d.store && d.oa >= 0;
        bool alert = !d.store && !d.ca.empty();
        bool strong = cl || alert || (d.store && d.hasV);   // owed on failing paths too
        bool okHeld = false;
        if (!d.ob) {
            for (When w : {W_ANY, W_OK, W_FAIL}) {
                if (w != W_ANY && !hasSink) continue;
                if (w != W_OK && !strong && !F->getReturnType()->isVoidTy()) continue;
                c.when = w;
                if (ok(c)) { emit(c, ss[0].I); if (w == W_ANY) general = true; if (w == W_OK) okHeld = true; if (w == W_ANY) break; }
            }
            if (general || (okHeld && !strong)) continue;
            // under the conditions that lead to it
            for (size_t i = 0; i < ss.size() && i < 3; i++) {
                auto de = domEdges(F, DT, ss[i].I);
                if (de.size() > 10) de.resize(10);
                for (When w : {W_ANY, W_OK}) {
                    if (w == W_OK && (!hasSink || okHeld)) continue;
                    if (w == W_ANY && !strong && !F->getReturnType()->isVoidTy()) continue;
                    bool hit = false;
                    for (int disc = 0; disc < 2 && !hit; disc++) {
                        c.when = w; c.as.clear();
                        for (auto &e : de) {
                            auto cs = satEdge(m, e.first, e.second, disc);
                            for (auto &x : cs) { Atoms n = c.as; bool good = true; for (auto &a : x) if (!Miner::put(n, a)) { good = false; break; } if (good) { c.as = n; break; } }
                            if (c.as.empty()) continue;
                            if (c.as.size() > 6) break;
                            if (ok(c)) { hit = true; break; }
                        }
                    }
                    if (hit) {
                        for (size_t q = c.as.size(); q-- > 0 && c.as.size() > 1;) { DutyC t = c; t.as.erase(t.as.begin() + q); if (ok(t)) c = t; }
                        emit(c, ss[i].I);
                        break;
                    }
                }
            }
        }
        c.as.clear();
        if (d.ob) {
            // triggered by each call that was given (or returned) the object
            std::vector<std::pair<std::string, int>> xs;
            std::map<std::string, const CallBase *> xc;
            for (auto &s : ss) {
                std::set<const Value *> b; basesOf(cast<CallBase>(s.I)->getArgOperand(d.oa), b);
                for (auto *q : b) {
                    if (auto *cb = dyn_cast<CallBase>(q)) { std::string n = md.calleeName(cb); if (n.empty()) continue; xs.push_back({n, -1}); xc[n] = cb; }
                    else if (auto *al = dyn_cast<AllocaInst>(q)) {
                        for (Instruction &I : instructions(*F)) if (auto *cb = dyn_cast<CallBase>(&I)) {
                            Function *c2 = directCallee(cb); if ((c2 && c2->isIntrinsic()) || &I == s.I) continue;
                            std::string n = md.calleeName(cb);
                            if (n.empty() || cleanupName(n)) continue;
                            for (unsigned i = 0; i < cb->arg_size(); i++) { if (!cb->getArgOperand(i)->getType()->isPointerTy()) continue; std::set<const Value *> o; basesOf(cb->getArgOperand(i), o); if (o.count(al)) { xs.push_back({n, (int)i}); xc[n] = cb; } }
                        }
                    }
                }
            }
            std::sort(xs.begin(), xs.end()); xs.erase(std::unique(xs.begin(), xs.end()), xs.end());
            if (xs.size() > 14) xs.resize(14);
            for (auto &x : xs) {
                c.ev = x.first; c.evArg = x.second; c.as.clear();
                bool done = false;
                for (When w : {W_ANY, W_FAIL, W_OK}) {
                    if (w != W_ANY && !hasSink) continue;
                    c.when = w; c.as.clear();
                    if (ok(c)) { emit(c, ss[0].I); done = true; }
                    else if (succ(xc[x.first], c.as) && ok(c)) { emit(c, ss[0].I); done = true; }
                    if (done && w == W_ANY) break;
                }
            }
        } else if (strong && d.ve.empty() && d.da.empty()) {
            // triggered by an earlier call
            std::vector<const CallBase *> xs;
            std::set<std::string> sn;
            for (size_t i = 0; i < ss.size() && i < 2; i++) {
                auto *N = DT.getNode(const_cast<BasicBlock *>(ss[i].I->getParent()));
                if (!N) continue;
                size_t lim = xs.size() + 8;
                bool first = true;
                for (auto *n = N; n && xs.size() < lim; n = n->getIDom()) {
                    bool before = !first;
                    for (auto it = n->getBlock()->rbegin(); it != n->getBlock()->rend(); ++it) {
                        if (!before) { if (&*it == ss[i].I) before = true; continue; }
                        auto *cb = dyn_cast<CallBase>(&*it);
                        if (!cb) continue;
                        Function *c2 = directCallee(cb); if (c2 && c2->isIntrinsic()) continue;
                        std::string nm = md.calleeName(cb);
                        if (utilName(nm) || nm == d.n || !sn.insert(nm).second) continue;
                        xs.push_back(cb);
                    }
                    first = false;
                }
                if (d.store) { int k2 = 0; size_t l2 = xs.size() + 4; for (auto *n : breadth_first(N)) { for (auto &J : *n->getBlock()) if (auto *cb = dyn_cast<CallBase>(&J)) { Function *c2 = directCallee(cb); if (c2 && c2->isIntrinsic()) continue; std::string nm = md.calleeName(cb); if (utilName(nm) || cleanupName(nm) || !sn.insert(nm).second) continue; xs.insert(xs.begin(), cb); } if (++k2 > 60 || xs.size() > l2) break; } }
            }
            for (When w : {W_ANY, W_FAIL}) {
                if (w == W_FAIL && !hasSink) continue;
                bool done = false;
                for (size_t i = xs.size(); i-- > 0 && !done;) { // earliest first
                    c.ev = md.calleeName(xs[i]); c.evArg = -2; c.when = w; c.as.clear();
                    if (ok(c)) { emit(c, ss[0].I); done = true; }
                    else if (succ(xs[i], c.as) && ok(c)) { emit(c, ss[0].I); done = true; }
                }
                if (done) break;
            }
        }
    }
    (void)root;
}
// further reasons to tell calls of the same function apart: what else is done with the object passed
static std::vector<Cand> passVariants(Miner &m, const Instruction *t, const std::vector<Cand> &in)
{
    std::vector<Cand> out;
    for (auto &c : in) for (size_t k = 0; k < c.size(); k++) {
        auto &a = c[k];
        if ((a.k != Atom::CALL && a.k != Atom::OUT) || m.ncalls[a.n] < 2) continue;
        // the call the condition is about: nearest matching one backwards from the terminator
        const CallBase *site = nullptr;
        std::vector<const Value *> w{isa<BranchInst>(t) ? (const Value *)cast<BranchInst>(t)->getCondition() : (const Value *)cast<SwitchInst>(t)->getCondition()};
        std::set<const Value *> seen;
        while (!w.empty() && !site) { const Value *v = w.back(); w.pop_back(); if (!seen.insert(v).second || seen.size() > 60) continue; if (auto *cb = dyn_cast<CallBase>(v)) { if (m.md.calleeName(cb) == a.n) site = cb; continue; } if (auto *I = dyn_cast<Instruction>(v)) if (!isa<PHINode>(I)) for (auto &o : I->operands()) w.push_back(o); }
        if (!site) continue;
        size_t n = 0;
        if (g_canon) {
            Cand x = c; x[k].fa.clear();
            for (unsigned i = 0; i < site->arg_size(); i++) { std::string f = g_canon->of(site->getArgOperand(i)); if (!f.empty() && f.find("L:") == std::string::npos && f.find("O:") == std::string::npos) x[k].da.push_back({(int)i, f}); }
            if (!x[k].da.empty()) out.push_back(x);
        }
        for (int i = site->getType()->isPointerTy() ? -1 : 0; i < (int)site->arg_size() && n < 10; i++) {
            if (i >= 0 && !site->getArgOperand(i)->getType()->isPointerTy()) continue;
            std::set<const Value *> b; if (i < 0) b.insert(site); else basesOf(site->getArgOperand(i), b);
            bool loc = false; for (auto *q : b) if (isa<CallBase>(q) || isa<AllocaInst>(q) || isa<LoadInst>(q)) loc = true;
            if (!loc) continue;
            std::set<std::string> tried;
            for (const Instruction &I : instructions(*m.F)) if (auto *cb = dyn_cast<CallBase>(&I)) {
                if (cb == site || n >= 10) continue;
                Function *f = directCallee(cb); if (f && f->isIntrinsic()) continue;
                std::string nm = m.md.calleeName(cb);
                if (nm.empty() || nm == a.n || cleanupName(nm)) continue;
                for (unsigned j = 0; j < cb->arg_size(); j++) {
                    if (!cb->getArgOperand(j)->getType()->isPointerTy()) continue;
                    std::set<const Value *> o; basesOf(cb->getArgOperand(j), o);
                    bool hit = false; for (auto *q : o) if (b.count(q)) hit = true;
                    std::string key = nm + "#" + std::to_string(j);
                    if (!hit || !tried.insert(key).second) continue;
                    Cand x = c; x[k].pa.push_back({i, key}); x.cls = c.cls; out.push_back(x); n++;
                }
            }
        }
    }
    if (out.size() > 24) out.resize(24);
    return out;
}
static bool compareName(const std::string &n)
{
    for (const char *p : {"Cmp", "cmp", "Compare", "Verify", "VERIFY", "Check", "Equal", "Match"}) if (n.find(p) != std::string::npos) return true;
    return false;
}
static void mineReject(Mod &md, Function *F, SinkK sk, json::Object &o)
{
    unsigned ST = 200, SP = 12000;
    json::Array obs, miss;
    int64_t guards = 0, covered = 0, expl = 0;
    Res r0 = explore(md, F, {}, sk, nullptr, 0, false, ST, SP);
    if (!r0.reach) { o["note"] = "success not reachable"; return; }
    Miner m(md, F);
    DominatorTree DT(*F);
    std::set<std::string> seen;
    std::vector<Instruction *> terms;
    for (auto &B : *F) if (B.getTerminator()->getNumSuccessors() > 1) terms.push_back(B.getTerminator());
    if (terms.size() > 400) terms.resize(400);
    for (auto *t : terms) {
        std::set<const BasicBlock *> doneSucc;
        for (unsigned e = 0; e < t->getNumSuccessors(); e++) {
            if (!doneSucc.insert(t->getSuccessor(e)).second) continue;
            Res pure = explore(md, F, {}, sk, t, e, true, ST, SP);
            expl++;
            if (pure.reach || pure.overflow) continue;
            // is the terminator on a path to success through another edge? otherwise it is not a guard
            bool other = false; unsigned oe = 0;
            for (unsigned x = 0; x < t->getNumSuccessors() && !other; x++) if (x != e && t->getSuccessor(x) != t->getSuccessor(e)) { Res q = explore(md, F, {}, sk, t, x, true, ST, SP); expl++; if (q.reach) { other = true; oe = x; } }
            if (!other) continue;
            guards++;
            bool any = false; std::string why = "no candidate";
            auto de = domEdges(F, DT, t);
            auto holds = [&](const Atoms &as, bool &reach, bool &ovf) -> bool {
                Res r = explore(md, F, as, sk, nullptr, 0, false, ST, SP); expl++;
                reach = r.reach; ovf = r.overflow;
                if (r.reach || r.overflow) return false;
                Res q = explore(md, F, as, sk, t, oe, true, ST, SP); expl++;
                if (!q.reach) why = "not causal";
                return q.reach;
            };
            auto keep = [&](const Atoms &as) {
                if (!seen.insert(akey(as)).second) return;
                json::Array ja;
                for (auto &a : as) ja.push_back(toJSON(a));
                obs.push_back(json::Object{{"as", std::move(ja)}, {"loc", md.loc(t)}, {"in", funcOfLoc(t)}});
            };
            for (int disc = 0; disc < 4 && !any; disc++) {
                auto cands = satEdge(m, t, e, disc > 2 ? 1 : disc);
                if (disc == 1 && cands.size()) { bool d = false; for (auto &c : cands) for (auto &a : c) if (!a.ca.empty() || !a.fa.empty() || (a.k == Atom::FIELD && a.i)) d = true; if (!d) continue; }
                if (disc == 2 && cands.size()) { bool d = false; for (auto &c : cands) for (auto &a : c) if (a.k == Atom::EXPR) d = true; if (!d) continue; }
                if (disc == 3) { cands = passVariants(m, t, cands); }
                size_t nc = 0;
                std::set<int> got;
                for (auto &c0 : cands) {
                    if (got.count(c0.cls)) continue;
                    if (nc++ > 24 || got.size() >= 3) break;
                    bool ok = false;
                    Atoms as = c0;
                    size_t k = 0;
                    for (int round = 0; round < 9; round++) {
                        bool reach, ovf;
                        if (holds(as, reach, ovf)) { ok = true; break; }
                        if (!reach && !ovf) break;
                        why = "reach";
                        if (ovf) { why = "overflow"; break; }
                        // strengthen with the next dominating condition
                        bool more = false;
                        while (k < de.size() && !more) {
                            auto ds = satEdge(m, de[k].first, de[k].second, disc > 2 ? 1 : disc);
                            k++;
                            for (auto &d : ds) { Atoms n = as; bool good = true; size_t before = n.size(); for (auto &a : d) if (!Miner::put(n, a)) { good = false; break; } if (good && n.size() > before) { as = n; more = true; break; } if (good) break; }
                        }
                        if (!more) break;
                    }
                    if (!ok && why == "reach" && got.empty()) { // only on paths that also perform a neighbouring call
                        Atoms full = as;
                        for (auto *cb : around(md, F, DT, t, t->getSuccessor(oe))) {
                            Atom ev; ev.k = Atom::EV; ev.n = md.calleeName(cb);
                            for (int lvl = 0; lvl < 2 && !ok; lvl++) {
                                if (lvl && full.size() == c0.size()) break;
                                as = lvl ? full : (const Atoms &)c0;
                                as.push_back(ev);
                                bool reach, ovf;
                                if (holds(as, reach, ovf)) ok = true;
                            }
                            if (ok) break;
                        }
                    }
                    if (!ok) continue;
                    got.insert(c0.cls);
                    // drop conjuncts that are not needed
                    for (size_t i = as.size(); i-- > c0.size();) { Atoms n = as; n.erase(n.begin() + i); bool a1, a2; if (holds(n, a1, a2)) as = n; }
                    if (!any) covered++;
                    any = true;
                    keep(as);
                    // a comparison also has to keep what it compares
                    if (got.size() == 1) for (size_t i = 0; i < as.size(); i++) {
                        auto &a = as[i];
                        if (a.k != Atom::CALL || !compareName(a.n) || !a.ca.empty() || !g_canon) continue;
                        std::vector<std::vector<std::pair<int, std::string>>> forms;
                        for (Instruction &I : instructions(*F)) if (auto *cb = dyn_cast<CallBase>(&I)) if (md.calleeName(cb) == a.n) {
                            std::vector<std::pair<int, std::string>> da;
                            for (unsigned q = 0; q < cb->arg_size(); q++) if (cb->getArgOperand(q)->getType()->isIntegerTy()) { std::string f = g_canon->of(cb->getArgOperand(q)); if (!f.empty() && f.find("O:") == std::string::npos) da.push_back({(int)q, f}); }
                            if (!da.empty() && std::find(forms.begin(), forms.end(), da) == forms.end()) forms.push_back(da);
                        }
                        for (size_t q = 0; q < forms.size() && q < 4; q++) { Atoms n = as; n[i].da = forms[q]; n[i].fa.clear(); bool a1, a2; if (holds(n, a1, a2)) keep(n); }
                    }
                }
            }
            if (!any) miss.push_back(md.loc(t) + " " + funcOfLoc(t) + " " + why);
        }
    }
    o["miss"] = std::move(miss);
    o["obs"] = std::move(obs); o["guards"] = guards; o["covered"] = covered; o["explorations"] = expl; o["instrs"] = (int64_t)instrCount(*F);
}
// bans: while these observations hold, the function does not perform these actions
static void mineBans(Mod &md, Function *F, SinkK sk, json::Object &o)
{
    if (instrCount(*F) > 9000) return;
    unsigned ST = 150, SP = 6000;
    std::map<std::string, const Instruction *> all;
    { ExOpt xo; xo.acts = &all; xo.when = W_ANY; Res r = explore(md, F, {}, sk, xo, 400, 40000); if (r.overflow) { // everything that occurs
        for (Instruction &I : instructions(*F)) { std::vector<std::string> ks; actKeys(md, &I, ks); for (auto &k : ks) all.insert({k, &I}); } } }
    json::Array out;
    if (!all.empty()) {
        Miner m(md, F);
        std::set<std::string> done;
        std::vector<std::pair<Atoms, const Instruction *>> cs;
        if (auto *obs = o.getArray("obs")) for (auto &x : *obs) { Atoms as; for (auto &y : *x.getAsObject()->getArray("as")) as.push_back(fromJSON(*y.getAsObject())); cs.push_back({as, nullptr}); }
        int nb = 0;
        for (auto &B : *F) {
            auto *t = B.getTerminator();
            if (t->getNumSuccessors() < 2 || t->getNumSuccessors() > 12 || ++nb > 250) continue;
            for (unsigned i = 0; i < t->getNumSuccessors(); i++) for (int disc = 0; disc < 3; disc++) {
                auto v = satEdge(m, t, i, disc);
                for (size_t q = 0; q < v.size() && q < 2; q++) cs.push_back({v[q], t});
            }
        }
        int n = 0;
        std::vector<std::pair<Atoms, std::set<std::string>>> kept;
        for (auto &c : cs) {
            if (c.first.empty() || c.first.size() > 4 || !done.insert(akey(c.first)).second) continue;
            bool ev = false; for (auto &a : c.first) if (a.k == Atom::EV || ((a.k == Atom::CALL || a.k == Atom::OUT) && allocName(a.n))) ev = true;
            if (ev || ++n > 600) continue;
            std::map<std::string, const Instruction *> got;
            ExOpt xo; xo.acts = &got; xo.when = W_ANY;
            Res r = explore(md, F, c.first, sk, xo, ST, SP);
            if (r.overflow) continue;
            bool used = true; for (auto u : r.used) if (!u) used = false;
            if (!used) continue;
            std::set<std::string> no;
            for (auto &k : all) if (!got.count(k.first)) no.insert(k.first);
            for (auto it = no.begin(); it != no.end();) { size_t p = it->find_first_of(it->at(0) == 'S' ? "=" : "("); if (p != std::string::npos && no.count(it->substr(0, p))) it = no.erase(it); else ++it; }
            if (no.empty()) continue;
            if (c.second) { // a subset of what a kept ban on fewer observations says adds nothing
                bool sub = false;
                for (auto &k : kept) { bool in = true; for (auto &a : k.first) { bool h = false; for (auto &b : c.first) if (b.same(a) && b.v == a.v && b.nzv == a.nzv) h = true; if (!h) in = false; } if (in && std::includes(k.second.begin(), k.second.end(), no.begin(), no.end())) { sub = true; break; } }
                if (sub) continue;
            }
            kept.push_back({c.first, no});
            json::Array ja, jn; for (auto &a : c.first) ja.push_back(toJSON(a)); for (auto &k : no) jn.push_back(k);
            out.push_back(json::Object{{"as", std::move(ja)}, {"no", std::move(jn)}, {"in", c.second ? funcOfLoc(c.second) : md.nameOf(F)}});
        }
    }
    o["bans"] = std::move(out);
}
// second: the other outcomes of functions that answer a question rather than report a status
static json::Value mineRoot(Mod &md, Function *root, unsigned budget, bool reject, bool duties, bool bans, int second)
{
    json::Object o;
    o["root"] = md.nameOf(root); o["file"] = md.fileOf(root); o["static"] = root->hasInternalLinkage(); o["nargs"] = (int64_t)root->arg_size();
    SinkK sk = S_ZERO;
    bool hasSink = sinkKind(md, root, sk);
    if (second) {
        if (sk == S_TRUE && hasSink) { if (second == 2) return o; sk = S_FALSE; }
        else if (!hasSink && root->getReturnType()->isIntegerTy() && tracked(root->getReturnType())) { sk = second == 1 ? S_INZ : S_IZ; hasSink = true; }
        else return o;
        duties = false;
    }
    Function *F = prep(md, root, {}, {}, true, budget);
    Canon canon(md);
    g_canon = &canon;
    o["sink"] = !hasSink ? "none" : sinkName[sk];
    {
        json::Array cs; for (auto &c : calleeSet(md, F)) cs.push_back(c);
        o["callees"] = std::move(cs);
    }
    Explorer::Keep keepShapes;
    if (duties) {
        json::Array ds; int64_t tried = 0;
        mineDuties(md, root, F, sk, hasSink, ds, tried);
        o["duties"] = std::move(ds); o["duty_tried"] = tried;
    }
    if (reject && hasSink) mineReject(md, F, sk, o);
    if (bans && !second) mineBans(md, F, sk, o);
    g_canon = nullptr;
    F->eraseFromParent();
    return o;
}
// leaves that reach a branch condition of F, per condition
static std::vector<std::set<std::string>> condLeaves(const Mod &md, Function *F, Canon &cn)
{
    std::vector<std::set<std::string>> out;
    for (auto &B : *F) {
        const Value *c = nullptr;
        if (auto *b = dyn_cast<BranchInst>(B.getTerminator())) { if (b->isConditional()) c = b->getCondition(); }
        else if (auto *sw = dyn_cast<SwitchInst>(B.getTerminator())) c = sw->getCondition();
        if (!c) continue;
        std::set<std::string> ls;
        std::vector<const Value *> w{c};
        std::set<const Value *> seen;
        while (!w.empty()) {
            const Value *v = w.back(); w.pop_back();
            if (!seen.insert(v).second || seen.size() > 300) continue;
            if (isa<Argument>(v) || isa<LoadInst>(v) || isa<CallBase>(v)) {
                for (auto &x : Canon::leavesOf(cn.of(v), false)) ls.insert(x);
                if (auto *l = dyn_cast<LoadInst>(v)) if (auto *al = dyn_cast<AllocaInst>(getUnderlyingObject(l->getPointerOperand()))) for (auto *u : al->users()) if (auto *st = dyn_cast<StoreInst>(u)) w.push_back(st->getValueOperand());
                if (auto *cb = dyn_cast<CallBase>(v)) for (auto &a : cb->args()) w.push_back(a);
                continue;
            }
            if (auto *I = dyn_cast<Instruction>(v)) for (auto &op : I->operands()) if (!isa<BasicBlock>(op)) w.push_back(op);
        }
        out.push_back(ls);
    }
    (void)md;
    return out;
}
static json::Value evalRoot(Mod &md, const json::Object &jo, const std::set<std::string> &stat, const std::set<std::string> &known, unsigned budget, const std::set<std::string> &fields, const std::set<std::string> &sfields)
{
    json::Object o;
    auto gone = [&](const Atom &a) -> bool {
        if (a.k == Atom::FIELD) return !fields.count(a.n);
        if (a.k == Atom::GLOBAL) return !md.M->getNamedGlobal(a.n);
        if (a.k == Atom::CALL || a.k == Atom::OUT || a.k == Atom::EV) { if (a.n.find('.') != std::string::npos || a.n.find(':') != std::string::npos) return false; return !md.M->getFunction(a.n) && !md.get(a.n); }
        return false;
    };
    std::string rn = jo.getString("root").value_or("").str(), file = jo.getString("file").value_or("").str();
    o["root"] = rn; o["file"] = file;
    Function *root = md.get(rn, file);
    if (!root) root = md.get(rn);
    SinkK sk = S_ZERO;
    if (!root || root->isDeclaration()) { o["status"] = "missing"; return o; }
    std::string want = jo.getString("sink").value_or("").str();
    bool fits = want == "none";
    for (int k = S_ZERO; k <= S_IZ; k++) if (want == sinkName[k]) {
        sk = (SinkK)k;
        Type *t = root->getReturnType();
        fits = sk == S_NONNULL ? t->isPointerTy() : (sk == S_TRUE || sk == S_FALSE) ? t->isIntegerTy(1) : t->isIntegerTy() && tracked(t);
    }
    if (!fits) { o["status"] = "missing"; return o; }
    std::set<std::string> base, fresh;
    if (auto *a = jo.getArray("callees")) for (auto &x : *a) base.insert(x.getAsString()->str());
    Function *F = prep(md, root, stat, known, false, 2 * budget, nullptr, &base);
    Canon canon(md), canon2(md);
    g_canon = &canon;
    std::vector<std::set<std::string>> cl; bool clDone = false;
    // an expression that is no longer computed: has its decision only been rewritten (some condition still depends on all of its leaves)?
    auto rewritten = [&](const Atom &a) -> bool {
        if (!clDone) { cl = condLeaves(md, F, canon); clDone = true; }
        auto ls = Canon::leavesOf(a.n, false);
        for (auto &c : cl) if (std::includes(c.begin(), c.end(), ls.begin(), ls.end())) return true;
        return false;
    };
    if (getenv("HSA_DUMP")) F->print(errs());
    json::Array nc;
    for (auto &c : calleeSet(md, F)) if (!base.count(c)) { nc.push_back(c); fresh.insert(c); }
    o["newcallees"] = std::move(nc);
    if (auto na = jo.getInteger("nargs")) if ((size_t)*na != root->arg_size()) { g_canon = nullptr; F->eraseFromParent(); o["status"] = "missing"; return o; }
    o["status"] = "ok"; o["instrs"] = (int64_t)instrCount(*F);
    json::Array bad;
    Explorer::Keep keepShapes;
    int64_t steps = 0, held = 0, ovf = 0, n = 0;
    Function *F2 = nullptr;
    if (auto *obs = jo.getArray("obs")) for (auto &x : *obs) {
        Atoms as;
        for (auto &y : *x.getAsObject()->getArray("as")) as.push_back(fromJSON(*y.getAsObject()));
        Res r = explore(md, F, as, sk, nullptr, 0, false, 400, 60000);
        steps += r.steps;
        if (r.reach && !fresh.empty()) { // the check may have moved behind a function the root did not use before
            if (!F2) F2 = prep(md, root, stat, known, false, 3 * budget, &fresh, &base);
            g_canon = &canon2;
            Res q = explore(md, F2, as, sk, nullptr, 0, false, 400, 60000);
            g_canon = &canon;
            steps += q.steps;
            if (!q.reach) r = q;
        }
        if (!r.reach) { held++; if (r.overflow) ovf++; }
        else {
            json::Array u;
            for (size_t i = 0; i < as.size(); i++) u.push_back(r.used[i] ? "used" : gone(as[i]) ? "gone" : as[i].k == Atom::EXPR && rewritten(as[i]) ? "rewritten" : "unused");
            bad.push_back(json::Object{{"i", n}, {"where", r.where}, {"path", r.path}, {"used", std::move(u)}});
        }
        n++;
    }
    json::Array bbad;
    int64_t bn = 0, bheld = 0;
    if (auto *bs = jo.getArray("bans")) for (auto &x : *bs) {
        Atoms as;
        for (auto &y : *x.getAsObject()->getArray("as")) as.push_back(fromJSON(*y.getAsObject()));
        std::map<std::string, const Instruction *> got;
        ExOpt xo; xo.acts = &got; xo.when = W_ANY;
        Res r = explore(md, F, as, sk, xo, 400, 60000);
        steps += r.steps;
        std::set<std::string> hit;
        for (auto &k : *x.getAsObject()->getArray("no")) if (got.count(k.getAsString()->str())) hit.insert(k.getAsString()->str());
        std::string where; if (!hit.empty()) where = md.loc(got[*hit.begin()]);
        if (!hit.empty() && !fresh.empty()) {
            if (!F2) F2 = prep(md, root, stat, known, false, 3 * budget, &fresh, &base);
            std::map<std::string, const Instruction *> g2; xo.acts = &g2;
            g_canon = &canon2;
            Res q = explore(md, F2, as, sk, xo, 400, 60000);
            g_canon = &canon;
            steps += q.steps;
            for (auto it = hit.begin(); it != hit.end();) if (!g2.count(*it)) it = hit.erase(it); else ++it;
        }
        if (hit.empty()) bheld++;
        else {
            json::Array u, h;
            for (size_t i = 0; i < as.size(); i++) u.push_back(r.used[i] ? "used" : gone(as[i]) ? "gone" : as[i].k == Atom::EXPR && rewritten(as[i]) ? "rewritten" : "unused");
            for (auto &k : hit) h.push_back(k);
            bbad.push_back(json::Object{{"i", bn}, {"where", where}, {"acts", std::move(h)}, {"used", std::move(u)}});
        }
        bn++;
    }
    o["bheld"] = bheld; o["bn"] = bn; o["bbad"] = std::move(bbad);
    json::Array dbad;
    int64_t dn = 0, dheld = 0, dvac = 0;
    if (auto *ds = jo.getArray("duties")) for (auto &x : *ds) {
        auto &xo = *x.getAsObject();
        DutyC c;
        if (auto *a = xo.getArray("as")) for (auto &y : *a) c.as.push_back(fromJSON(*y.getAsObject()));
        std::string w = xo.getString("when").value_or("any").str();
        c.when = w == "any" ? W_ANY : w == "ok" ? W_OK : W_FAIL;
        c.d = dutyFrom(*xo.getObject("do"));
        c.ev = xo.getString("ev").value_or("").str(); c.evArg = (int)xo.getInteger("evarg").value_or(-2);
        Res r; unsigned long st = 0;
        int k = checkDuty(md, F, c, sk, 400, 60000, r, false, st);
        if (k == 1 && !fresh.empty()) {
            if (!F2) F2 = prep(md, root, stat, known, false, 3 * budget, &fresh, &base);
            g_canon = &canon2;
            Res q; int k2 = checkDuty(md, F2, c, sk, 400, 60000, q, false, st);
            g_canon = &canon;
            if (k2 != 1) k = k2;
        }
        steps += st;
        if (k == 0) dheld++;
        else if (k == 2) dvac++;
        else {
            json::Array u;
            for (size_t i = 0; i < c.as.size(); i++) u.push_back(r.used[i] ? "used" : gone(c.as[i]) ? "gone" : c.as[i].k == Atom::EXPR && rewritten(c.as[i]) ? "rewritten" : "unused");
            bool present = false, same;
            for (Instruction &I : instructions(*F)) if (dutyMatch(md, &I, c.d, Trig(), nullptr, nullptr, same)) { present = true; break; }
            bool dg = c.d.store ? !sfields.count(c.d.n) : (c.d.n[0] != '*' && !md.M->getFunction(c.d.n) && !md.get(c.d.n));
            dbad.push_back(json::Object{{"i", dn}, {"where", r.where}, {"path", r.path}, {"used", std::move(u)}, {"duty", dg ? "gone" : present ? "present" : "absent"}});
        }
        dn++;
    }
    o["dheld"] = dheld; o["dvac"] = dvac; o["dn"] = dn; o["dbad"] = std::move(dbad);
    g_canon = nullptr;
    if (F2) F2->eraseFromParent();
    o["held"] = held; o["overflow"] = ovf; o["steps"] = steps; o["n"] = n; o["bad"] = std::move(bad);
    F->eraseFromParent();
    return o;
}
// Decision table of a root: where its comparisons split the values they look at, and the constants it hands out.
//   P|L   cut points of comparisons of the linear expression L (L >= cut changes the outcome)
//   Q|L   the same for a value without canonical form (loop counters) compared with L
//   A|f#i|L, S|field|L, R|L   constants added to L in argument i of f, in stores to a field, in returned values
//   E|base / W|base           constant offsets read / written below base
static int64_t hashOf(const std::string &s) { uint64_t h = 1469598103934665603ULL; for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; } return (int64_t)(h >> 16); }
static std::string constText(const Mod &md, const Constant *c, int d)
{
    if (d > 6) return "...";
    if (auto *i = dyn_cast<ConstantInt>(c)) { SmallString<24> t; i->getValue().toStringSigned(t); return t.str().str(); }
    if (c->isNullValue()) return "0";
    if (auto *f = dyn_cast<Function>(c)) return md.nameOf(f);
    if (auto *a = dyn_cast<ConstantDataSequential>(c)) { if (a->isCString()) return "\"" + a->getAsCString().str() + "\""; std::string s = "["; for (unsigned i = 0; i < a->getNumElements(); i++) s += (a->getElementType()->isIntegerTy() ? std::to_string(a->getElementAsInteger(i)) : std::string("f")) + ","; return s + "]"; }
    if (auto *g = dyn_cast<GlobalVariable>(c)) {
        if (g->isConstant() && g->hasInitializer() && (g->hasPrivateLinkage() || !g->hasName())) return "&" + constText(md, g->getInitializer(), d + 1);
        return "&" + g->getName().str().substr(0, g->hasLocalLinkage() ? g->getName().find_last_not_of("0123456789.") + 1 : std::string::npos);
    }
    if (isa<ConstantAggregate>(c)) { std::string s = "{"; for (auto &o : c->operands()) s += constText(md, cast<Constant>(o), d + 1) + ","; return s + "}"; }
    if (auto *e = dyn_cast<ConstantExpr>(c)) { std::string s = std::string(e->getOpcodeName()) + "("; for (auto &o : e->operands()) s += constText(md, cast<Constant>(o), d + 1) + ","; return s + ")"; }
    return "?";
}
struct Table {
    const Mod &md; Canon &cn; Function *F; bool rets;
    struct Ent { std::map<int64_t, std::set<std::string>> v; std::string in; };
    static std::string at(const Mod &md, const Instruction *I)
    {
        const DILocation *d = I->getDebugLoc().get();
        return md.loc(I) + ":" + std::to_string(d ? d->getColumn() : 0);
    }
    std::map<std::string, Ent> t;
    Table(const Mod &m, Canon &c, Function *f, bool r) : md(m), cn(c), F(f), rets(r) {}
    void add(const std::string &k, int64_t v, const Instruction *I)
    {
        if (k.size() > 320) return;
        auto &e = t[k];
        if (e.in.empty()) e.in = funcOfLoc(I);
        e.v[v].insert(at(md, I));
    }
    static bool usable(const Canon::Lin &l)
    {
        for (auto &p : l.t) { if (p.first[0] == '&' || !p.first.compare(0, 2, "L:") || p.first.find("fn:") != std::string::npos || p.first.find('?') != std::string::npos) return false; }
        return true;
    }
    static void strip(Canon::Lin &l) { for (auto it = l.t.begin(); it != l.t.end();) if (!it->second) it = l.t.erase(it); else ++it; }
    static std::string body(const Canon::Lin &l) { Canon::Lin x = l; x.c = 0; return x.t.empty() ? "" : Canon::text(x); }
    void cmp(CmpInst::Predicate p, const Value *a, const Value *b, const Instruction *I)
    {
        if (a->getType()->isPointerTy()) {
            if (!isa<ConstantPointerNull>(b)) std::swap(a, b);
            if (!isa<ConstantPointerNull>(b)) return;
            std::vector<const Value *> vs; std::set<const Value *> seen;
            sources(a, vs, seen);
            bool any = false;
            for (auto *u : vs) { Canon::Lin x = cn.lin(u, 0); if (!x.ok || x.t.empty() || Canon::text(x)[0] == '&') continue; any = true; add("N|" + Canon::text(x), 0, I); }
            if (!any) add("N|?", 0, I);
            return;
        }
        if (!a->getType()->isIntegerTy()) return;
        if (isa<ICmpInst>(I) && a->getType()->isIntegerTy(1)) return;
        Canon::Lin x = cn.lin(a, 0), y = cn.lin(b, 0);
        if (CmpInst::isUnsigned(p)) { if (auto *c = dyn_cast<ConstantInt>(a)) if (c->getBitWidth() < 64) x.c = (int64_t)c->getZExtValue(); if (auto *c = dyn_cast<ConstantInt>(b)) if (c->getBitWidth() < 64) y.c = (int64_t)c->getZExtValue(); }
        if (!x.ok && !y.ok) return;
        bool q = !x.ok || !y.ok;
        if (!x.ok) { std::swap(x, y); p = CmpInst::getSwappedPredicate(p); }
        // now x is canonical; S = x - y (or x against the unknown value)
        if (!q) { for (auto &k : y.t) x.t[k.first] -= k.second; x.c -= y.c; }
        strip(x);
        if (!usable(x) || (!q && x.t.empty())) return;
        bool neg = !q && x.t.begin()->second < 0;
        // S + c p 0  ->  S p k
        int64_t k = -x.c;
        std::vector<int64_t> cuts;
        switch (p) {
        case CmpInst::ICMP_EQ: case CmpInst::ICMP_NE: cuts = {k, k + 1}; break;
        case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: cuts = {k}; break;
        default: cuts = {k + 1}; break;
        }
        if (q) { // u p' L + c with L = x's body: the cut is on u - L
            cuts.clear();
            CmpInst::Predicate r = CmpInst::getSwappedPredicate(p);
            int64_t c = x.c;
            switch (r) {
            case CmpInst::ICMP_EQ: case CmpInst::ICMP_NE: cuts = {c, c + 1}; break;
            case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: cuts = {c}; break;
            default: cuts = {c + 1}; break;
            }
        } else if (neg) { for (auto &m : x.t) m.second = -m.second; for (auto &v : cuts) v = 1 - v; }
        for (auto v : cuts) add((q ? "Q|" : "P|") + body(x), v, I);
    }
    void sources(const Value *v, std::vector<const Value *> &out, std::set<const Value *> &seen)
    {
        if (seen.size() > 24 || !seen.insert(v).second) return;
        if (auto *p = dyn_cast<PHINode>(v)) { for (auto &u : p->incoming_values()) sources(u, out, seen); return; }
        if (auto *s = dyn_cast<SelectInst>(v)) { sources(s->getTrueValue(), out, seen); sources(s->getFalseValue(), out, seen); return; }
        if (auto *c = dyn_cast<CastInst>(v)) if (isa<PHINode>(c->getOperand(0)) || isa<SelectInst>(c->getOperand(0))) { sources(c->getOperand(0), out, seen); return; }
        out.push_back(v);
    }
    void value(const std::string &k, const Value *v, const Instruction *I)
    {
        if (!v->getType()->isIntegerTy() || isa<UndefValue>(v)) return;
        std::vector<const Value *> vs; std::set<const Value *> seen;
        sources(v, vs, seen);
        for (auto *u : vs) { if (isa<UndefValue>(u)) continue; Canon::Lin l = cn.lin(u, 0); if (!l.ok) continue; strip(l); if (usable(l)) add(k + "|" + body(l), l.c, I); }
    }
    std::string place(const Value *ptr, int64_t &off)
    {
        const Value *p = ptr->stripPointerCasts();
        off = 0;
        for (int i = 0; i < 8; i++) if (auto *g = dyn_cast<GEPOperator>(p)) {
            if (!md.fieldOfGEP(g).empty()) return "";
            APInt o(64, 0);
            if (!g->accumulateConstantOffset(md.M->getDataLayout(), o)) return "";
            off += o.getSExtValue();
            p = g->getPointerOperand()->stripPointerCasts();
        }
        if (auto *a = dyn_cast<Argument>(p)) return "#" + std::to_string(a->getArgNo());
        if (auto *q = dyn_cast<LoadInst>(p)) return md.fieldOfAcc(q);
        return "";
    }
    // which object a wiping call overwrites: locals by type (counted once each), fields, arguments
    std::map<const Value *, std::string> local;
    void wiped(const std::string &n, const CallBase *cb)
    {
        if (!cb->arg_size()) return;
        const Value *p = cb->getArgOperand(0)->stripPointerCasts();
        std::string f = isa<GEPOperator>(p) ? md.fieldOfPtr(p) : std::string();
        if (f.empty()) if (auto *l = dyn_cast<LoadInst>(p)) f = md.fieldOfAcc(l);
        const Value *b = p;
        while (auto *g = dyn_cast<GEPOperator>(b)) b = g->getPointerOperand()->stripPointerCasts();
        if (auto *al = dyn_cast<AllocaInst>(b)) {
            if (al->getAllocatedType()->isPointerTy() || !local.emplace(al, "").second) return;
            std::string ts; raw_string_ostream os(ts); al->getAllocatedType()->print(os); os.flush();
            size_t ld = ts.find_last_not_of("0123456789");
            if (ld != std::string::npos && ld + 1 < ts.size() && ts[ld] == '.') ts.resize(ld);
            std::string k = "Z|" + n + "|%" + ts + "|?";
            auto &e = t[k];
            if (e.in.empty()) e.in = funcOfLoc(cb);
            e.v[0].insert(at(md, cb) + "/" + std::to_string(local.size()));
        } else if (!f.empty()) add("Z|" + n + "|" + f, 0, cb);
        else if (auto *a = dyn_cast<Argument>(b)) add("Z|" + n + "|#" + std::to_string(a->getArgNo()), 0, cb);
    }
    void run()
    {
        for (Instruction &I : instructions(*F)) {
            if (isDbg(&I)) continue;
            if (auto *tr = dyn_cast<TruncInst>(&I)) { if (tr->getType()->isIntegerTy(1) && !tr->getOperand(0)->getType()->isIntegerTy(1)) cmp(CmpInst::ICMP_NE, tr->getOperand(0), ConstantInt::get(tr->getOperand(0)->getType(), 0), tr); }
            else if (auto *c = dyn_cast<ICmpInst>(&I)) cmp(c->getPredicate(), c->getOperand(0), c->getOperand(1), c);
            else if (auto *s = dyn_cast<SwitchInst>(&I)) { for (auto &k : s->cases()) cmp(CmpInst::ICMP_EQ, s->getCondition(), k.getCaseValue(), s); }
            else if (auto *m = dyn_cast<MemIntrinsic>(&I)) { value(isa<MemSetInst>(m) ? "A|memset#2" : "A|memcpy#2", m->getLength(), m); }
            else if (auto *cb = dyn_cast<CallBase>(&I)) {
                Function *c = directCallee(cb);
                if (c && c->isIntrinsic()) continue;
                std::string n = md.calleeName(cb);
                if (n.empty() || n.find("ERR_") != std::string::npos || n.find("LOG") != std::string::npos || n.find("ErrorProcess") != std::string::npos || n.find("ErrorNumberProcess") != std::string::npos) continue;
                unsigned line = I.getDebugLoc() ? I.getDebugLoc().getLine() : 0;
                add("K|" + n, 0, cb);
                if (n == "BSL_SAL_CleanseData" || n == "BSL_SAL_ClearFree") wiped(n, cb);
                for (unsigned i = 0; i < cb->arg_size(); i++) {
                    auto *k = dyn_cast<ConstantInt>(cb->getArgOperand(i));
                    if (k && line && k->getBitWidth() <= 64 && k->getZExtValue() == line) continue;
                    if (cb->getArgOperand(i)->getType()->isPointerTy()) {
                        std::vector<const Value *> vs; std::set<const Value *> seen;
                        sources(cb->getArgOperand(i), vs, seen);
                        for (auto *u : vs) if (auto *g = dyn_cast<GlobalVariable>(u->stripPointerCasts())) if (g->isConstant() && g->hasInitializer() && g->hasPrivateLinkage()) add("A|" + n + "#" + std::to_string(i) + "|$", hashOf(constText(md, g->getInitializer(), 0)), cb);
                        if (vs.size() == 1) { Canon::Lin l = cn.lin(vs[0], 0); strip(l); if (l.ok && l.t.size() == 1 && l.t.begin()->second == 1 && l.t.begin()->first[0] != '&') add("A|" + n + "#" + std::to_string(i) + "|" + body(l), l.c, cb); }
                        continue;
                    }
                    // flags: only those written as a constant at the call (a tested flag may be folded to a constant on one side)
                    if (cb->getArgOperand(i)->getType()->isIntegerTy(1) && !literalArg(cb, i)) continue;
                    value("A|" + n + "#" + std::to_string(i), cb->getArgOperand(i), cb);
                }
            } else if (auto *st = dyn_cast<StoreInst>(&I)) {
                std::string f = md.fieldOfAcc(st);
                if (!f.empty()) { add("T|" + f, 0, st); value("S|" + f, st->getValueOperand(), st); continue; }
                int64_t off; std::string b = place(st->getPointerOperand(), off);
                if (!b.empty()) { std::string w = ":" + std::to_string(widthOf(st->getValueOperand()->getType())); add("W|" + b + w, off, st); }
            } else if (auto *l = dyn_cast<LoadInst>(&I)) {
                if (!l->getType()->isIntegerTy() || !md.fieldOfAcc(l).empty()) continue;
                int64_t off; std::string b = place(l->getPointerOperand(), off);
                if (!b.empty()) { std::string w = ":" + std::to_string(widthOf(l->getType())); add("E|" + b + w, off, l); }
            } else if (auto *r = dyn_cast<ReturnInst>(&I)) { if (rets && r->getReturnValue()) value("R", r->getReturnValue(), r); }
        }
    }
};
static json::Value tableRoot(Mod &md, const std::string &rn, const std::string &file, const std::set<std::string> &stat, const std::set<std::string> &known, const std::set<std::string> &leaf, unsigned budget)
{
    json::Object o;
    o["root"] = rn; o["file"] = file;
    Function *root = md.get(rn, file);
    if (!root) root = md.get(rn);
    if (!root || root->isDeclaration()) { o["status"] = "missing"; return o; }
    Function *F = prep(md, root, stat, known, false, 2 * budget, nullptr, leaf.empty() ? nullptr : &leaf);
    Canon cn(md);
    g_canon = &cn;
    SinkK sk;
    bool status = statusRoot(md, root) || statusFn(md, root);
    sinkKind(md, root, sk);
    Table t(md, cn, F, !status);
    t.run();
    g_canon = nullptr;
    json::Object k;
    for (auto &e : t.t) { json::Array v, at, n; for (auto &x : e.second.v) { v.push_back(x.first); at.push_back(*x.second.begin()); n.push_back((int64_t)x.second.size()); } k[e.first] = json::Object{{"v", std::move(v)}, {"at", std::move(at)}, {"n", std::move(n)}, {"in", e.second.in}}; }
    o["status"] = "ok"; o["nargs"] = (int64_t)root->arg_size();
    json::Array nc; for (auto &c : calleeSet(md, F)) nc.push_back(c);
    o["callees"] = std::move(nc);
    {
        std::set<std::string> inl; // functions that are new since the freeze and became part of this root
        for (Instruction &I : instructions(*F)) { std::string n = funcOfLoc(&I); n = n.substr(0, n.find('.')); if (!n.empty() && !known.count(n) && !stat.count(n)) inl.insert(n); }
        inl.erase(rn);
        json::Array a; for (auto &n : inl) a.push_back(n);
        o["inl"] = std::move(a);
    }
    o["t"] = std::move(k);
    F->eraseFromParent();
    return o;
}
void guardAnalysis(Mod &md, const json::Object &spec, json::Object &res)
{
    int jobs = (int)spec.getInteger("jobs").value_or(8);
    if (auto *o = spec.getObject("mine")) {
        std::vector<std::string> scope;
        if (auto *a = o->getArray("scope")) for (auto &x : *a) scope.push_back(x.getAsString()->str());
        unsigned budget = (unsigned)o->getInteger("budget").value_or(3000);
        bool reject = o->getBoolean("reject").value_or(true), duties = o->getBoolean("duties").value_or(false), bans = o->getBoolean("bans").value_or(false);
        std::set<std::string> extra;
        if (auto *a = o->getArray("extra")) for (auto &x : *a) extra.insert(x.getAsString()->str());
        std::vector<Function *> roots;
        for (Function &F : *md.M) {
            if (F.isDeclaration()) continue;
            if (F.hasInternalLinkage() && !F.hasAddressTaken() && !extra.count(md.nameOf(&F))) continue;
            SinkK k;
            if (!sinkKind(md, &F, k) && !duties && !bans) continue;
            std::string f = md.fileOf(&F);
            if (f.empty() || f.find(".c") == std::string::npos) continue;
            bool in = scope.empty();
            for (auto &s : scope) if (!f.compare(0, s.size(), s)) in = true;
            if (in) roots.push_back(&F);
        }
        std::vector<json::Value> out;
        std::vector<std::pair<Function *, int>> work;
        for (auto *f : roots) { work.push_back({f, 0}); SinkK k; bool hs = sinkKind(md, f, k); if (reject && hs && k == S_TRUE) work.push_back({f, 1}); if (reject && !hs && f->getReturnType()->isIntegerTy()) { work.push_back({f, 1}); work.push_back({f, 2}); } }
        roots.clear(); for (auto &w : work) roots.push_back(w.first);
        parallelFor(work.size(), jobs, [&](size_t i) -> json::Value { return mineRoot(md, work[i].first, budget, reject, duties, bans, work[i].second); }, out);
        json::Array a; for (size_t i = 0; i < out.size(); i++) { if (out[i].kind() == json::Value::Null) a.push_back(json::Object{{"root", md.nameOf(roots[i])}, {"note", "crash"}}); else a.push_back(std::move(out[i])); }
        res["mine"] = std::move(a);
    }
    if (auto *o = spec.getObject("contracts")) {
        std::set<std::string> stat, known;
        if (auto *a = o->getArray("static")) for (auto &x : *a) stat.insert(x.getAsString()->str());
        if (auto *a = o->getArray("known")) for (auto &x : *a) known.insert(x.getAsString()->str());
        unsigned budget = (unsigned)o->getInteger("budget").value_or(3000);
        auto *rs = o->getArray("roots");
        std::set<std::string> fields, sfields;
        for (Function &F : *md.M) for (Instruction &I : instructions(F)) if (isa<StoreInst>(I)) { std::string f = md.fieldOfAcc(&I); if (!f.empty()) sfields.insert(f); } else if (isa<LoadInst>(I)) { std::string f = md.fieldOfAcc(&I); if (!f.empty()) fields.insert(f); }
        std::vector<json::Value> out;
        parallelFor(rs->size(), jobs, [&](size_t i) -> json::Value { return evalRoot(md, *(*rs)[i].getAsObject(), stat, known, budget, fields, sfields); }, out);
        json::Array a; for (size_t i = 0; i < out.size(); i++) { if (out[i].kind() == json::Value::Null) a.push_back(json::Object{{"root", (*rs)[i].getAsObject()->getString("root").value_or("").str()}, {"status", "crash"}}); else a.push_back(std::move(out[i])); }
        res["contracts"] = std::move(a);
    }
    if (auto *o = spec.getObject("tables")) {
        std::set<std::string> stat, known;
        if (auto *a = o->getArray("static")) for (auto &x : *a) stat.insert(x.getAsString()->str());
        if (auto *a = o->getArray("known")) for (auto &x : *a) known.insert(x.getAsString()->str());
        unsigned budget = (unsigned)o->getInteger("budget").value_or(3000);
        struct Job { std::string n, f; std::set<std::string> leaf; };
        std::vector<Job> work;
        if (auto *rs = o->getArray("roots")) { for (auto &x : *rs) { auto *r = x.getAsObject(); Job j; j.n = r->getString("root").value_or("").str(); j.f = r->getString("file").value_or("").str(); if (auto *a = r->getArray("callees")) for (auto &c : *a) j.leaf.insert(c.getAsString()->str()); work.push_back(j); } }
        else {
            std::set<std::string> extra;
            if (auto *a = o->getArray("extra")) for (auto &x : *a) extra.insert(x.getAsString()->str());
            for (Function &F : *md.M) {
                if (F.isDeclaration() || (F.hasInternalLinkage() && !F.hasAddressTaken() && !extra.count(md.nameOf(&F)))) continue;
                std::string f = md.fileOf(&F);
                if (f.empty() || f.find(".c") == std::string::npos) continue;
                work.push_back({md.nameOf(&F), f, {}});
            }
        }
        std::vector<json::Value> out;
        parallelFor(work.size(), jobs, [&](size_t i) -> json::Value { return tableRoot(md, work[i].n, work[i].f, stat, known, work[i].leaf, budget); }, out);
        json::Array a; for (size_t i = 0; i < out.size(); i++) { if (out[i].kind() == json::Value::Null) a.push_back(json::Object{{"root", work[i].n}, {"file", work[i].f}, {"status", "crash"}}); else a.push_back(std::move(out[i])); }
        json::Array fs; std::set<std::string> fields;
        for (Function &F : *md.M) for (Instruction &I : instructions(F)) if (isa<StoreInst>(I) || isa<LoadInst>(I)) { std::string f = md.fieldOfAcc(&I); if (!f.empty()) fields.insert(f); }
        for (auto &f : fields) fs.push_back(f);
        res["fields"] = std::move(fs);
        json::Array gs;
        for (auto &G : md.M->globals()) {
            if (!G.isConstant() || !G.hasInitializer() || G.hasPrivateLinkage() || !G.hasName()) continue;
            SmallVector<DIGlobalVariableExpression *, 1> dis;
            G.getDebugInfo(dis);
            if (dis.empty()) continue;
            auto *dv = dis[0]->getVariable();
            json::Object o;
            o["name"] = dv->getName(); o["file"] = md.fileOfDI(dv->getFile()); o["line"] = (int64_t)dv->getLine();
            if (auto *sp = dyn_cast_or_null<DISubprogram>(dv->getScope())) o["fn"] = sp->getName();
            const Constant *c = G.getInitializer();
            json::Array el;
            if (auto *a = dyn_cast<ConstantDataSequential>(c)) {
                if (a->getNumElements() > 512 || !a->getElementType()->isIntegerTy()) el.push_back(std::to_string(hashOf(constText(md, c, 0))));
                else for (unsigned i = 0; i < a->getNumElements(); i++) el.push_back(std::to_string(a->getElementAsInteger(i)));
            } else if (auto *a = dyn_cast<ConstantArray>(c)) { for (auto &q : a->operands()) { std::string t = constText(md, cast<Constant>(q), 0); el.push_back(t.size() > 160 ? t.substr(0, 60) + "..#" + std::to_string(hashOf(t)) : t); } }
            else { std::string t = constText(md, c, 0); el.push_back(t.size() > 160 ? t.substr(0, 60) + "..#" + std::to_string(hashOf(t)) : t); }
            o["el"] = std::move(el);
            gs.push_back(std::move(o));
        }
        res["globals"] = std::move(gs);
        res["tables"] = std::move(a);
    }
}
} // namespace hsa
