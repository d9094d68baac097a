// hsa core implementation
#include "core.h"
#include "llvm/Analysis/ConstantFolding.h"
#include "llvm/ADT/MapVector.h"
#include "llvm/Analysis/CFG.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/IRBuilder.h"
#include <algorithm>
#include <deque>

namespace hsa {
static std::string gRoot = "/repo/";
void setRoot(const std::string &r) { gRoot = r; if (gRoot.empty() || gRoot.back() != '/') gRoot += '/'; }
static std::string relPath(const DIFile *f)
{
    if (!f) return "";
    std::string p = f->getFilename().str();
    if (!p.empty() && p[0] != '/') p = f->getDirectory().str() + "/" + p;
    if (p.compare(0, gRoot.size(), gRoot) == 0) p = p.substr(gRoot.size());
    return p;
}
static std::string stripNum(StringRef n)
{
    // struct.Foo.123 -> Foo ; struct.Foo -> Foo
    if (n.starts_with("struct.")) n = n.drop_front(7);
    else if (n.starts_with("union.")) n = n.drop_front(6);
    size_t p = n.rfind('.');
    if (p != StringRef::npos && p + 1 < n.size()) {
        bool dig = true;
        for (char c : n.substr(p + 1)) if (!isdigit((unsigned char)c)) dig = false;
        if (dig) n = n.substr(0, p);
    }
    if (n.starts_with("anon.")) n = "anon"; // the number of an anonymous struct depends on its unit
    return n.str();
}
static const DIType *stripDI(const DIType *t)
{
    while (t) {
        auto *d = dyn_cast<DIDerivedType>(t);
        if (!d) break;
        unsigned tag = d->getTag();
        if (tag == dwarf::DW_TAG_typedef || tag == dwarf::DW_TAG_const_type || tag == dwarf::DW_TAG_volatile_type ||
            tag == dwarf::DW_TAG_atomic_type || tag == dwarf::DW_TAG_member) t = d->getBaseType();
        else break;
    }
    return t;
}
static std::string diName(const DIType *t)
{
    std::string td;
    while (t) {
        if (auto *c = dyn_cast<DICompositeType>(t)) return c->getName().empty() ? td : c->getName().str();
        auto *d = dyn_cast<DIDerivedType>(t);
        if (!d) return "";
        if (d->getTag() == dwarf::DW_TAG_typedef) td = d->getName().str();
        t = d->getBaseType();
    }
    return "";
}
std::string Mod::fileOfDI(const DIFile *f) { return f ? relPath(f) : ""; }
std::string Mod::nameOf(const Function *F) const
{
    auto it = srcName.find(F);
    if (it != srcName.end()) return it->second;
    if (auto *sp = F->getSubprogram()) return sp->getName().str();
    return F->getName().str();
}
std::string Mod::fileOf(const Function *F) const
{
    auto it = srcFile.find(F);
    if (it != srcFile.end()) return it->second;
    if (auto *sp = F->getSubprogram()) return relPath(sp->getFile());
    return "";
}
Function *Mod::get(const std::string &n, const std::string &file) const
{
    auto it = byName.find(n);
    if (it == byName.end()) return nullptr;
    if (file.empty()) return it->second.front();
    for (Function *f : it->second) if (fileOf(f).find(file) != std::string::npos) return f;
    return nullptr;
}
std::string Mod::loc(const Instruction *I) const
{
    const DebugLoc &dl = I->getDebugLoc();
    if (!dl) {
        // fall back to function
        return fileOf(I->getFunction());
    }
    auto *sc = cast<DIScope>(dl.getScope());
    return relPath(sc->getFile()) + ":" + std::to_string(dl.getLine());
}
std::string Mod::locFn(const Function *F) const
{
    if (auto *sp = F->getSubprogram()) return relPath(sp->getFile()) + ":" + std::to_string(sp->getLine());
    return F->getName().str();
}
std::string funcOfLoc(const Instruction *I)
{
    const DebugLoc &dl = I->getDebugLoc();
    if (!dl) return I->getFunction()->getName().str();
    if (auto *ls = dyn_cast<DILocalScope>(dl.getScope())) if (auto *sp = ls->getSubprogram()) return sp->getName().str();
    return "";
}
static const DIDerivedType *memberAt(const DICompositeType *ct, uint64_t bitOff, bool isUnion)
{
    const DIDerivedType *best = nullptr;
    for (auto *el : ct->getElements()) {
        auto *m = dyn_cast<DIDerivedType>(el);
        if (!m || m->getTag() != dwarf::DW_TAG_member) continue;
        if (isUnion) return m;
        if (m->getOffsetInBits() == bitOff) return m;
        if (m->getOffsetInBits() < bitOff) best = m;
    }
    return best;
}
const DICompositeType *Mod::diOfStruct(StructType *st) const
{
    if (!st->hasName()) return nullptr;
    auto it = structDI.find(stripNum(st->getName()));
    return it == structDI.end() ? nullptr : it->second;
}
// DI type of the object a pointer-producing GEP chain denotes (for anonymous members)
static const DIType *diMember(const Mod &md, const DICompositeType *ct, StructType *st, unsigned idx, std::string &nm)
{
    const DataLayout &dl = md.M->getDataLayout();
    uint64_t off = dl.getStructLayout(st)->getElementOffsetInBits(idx);
    auto *m = memberAt(ct, off, ct->getTag() == dwarf::DW_TAG_union_type);
    if (!m) { nm = ""; return nullptr; }
    nm = m->getName().str();
    return stripDI(m->getBaseType());
}
static const DICompositeType *diOfPtr(const Mod &md, const Value *p, int depth = 0);
static std::string fieldWalk(const Mod &md, const GEPOperator *g, const DIType *&outTy)
{
    outTy = nullptr;
    auto *st = dyn_cast<StructType>(g->getSourceElementType());
    Type *ty = g->getSourceElementType();
    const DIType *cur = nullptr;
    std::string owner, res;
    auto it = g->idx_begin();
    if (it == g->idx_end()) return "";
    ++it; // first index
    if (st) {
        if (auto *c = md.diOfStruct(st)) { cur = c; owner = stripNum(st->getName()); }
        else { cur = diOfPtr(md, g->getPointerOperand(), 1); owner = st->hasName() ? stripNum(st->getName()) : "anon"; }
    }
    for (; it != g->idx_end(); ++it) {
        if (auto *s = dyn_cast<StructType>(ty)) {
            auto *ci = dyn_cast<ConstantInt>(*it);
            if (!ci) return "";
            unsigned idx = ci->getZExtValue();
            std::string nm;
            if (auto *ct = dyn_cast_or_null<DICompositeType>(cur)) {
                std::string o = owner;
                if (o.empty() || o.compare(0, 4, "anon") == 0) { /* keep */ }
                cur = diMember(md, ct, s, idx, nm);
            } else cur = nullptr;
            res = owner + "." + (nm.empty() ? std::to_string(idx) : nm);
            ty = s->getElementType(idx);
            if (auto *ns = dyn_cast<StructType>(ty)) {
                if (auto *c = md.diOfStruct(ns)) { cur = c; owner = stripNum(ns->getName()); }
                else owner = res;
            }
        } else if (auto *a = dyn_cast<ArrayType>(ty)) {
            ty = a->getElementType();
            if (auto *ct = dyn_cast_or_null<DICompositeType>(cur)) if (ct->getTag() == dwarf::DW_TAG_array_type) cur = stripDI(ct->getBaseType());
            if (auto *ns = dyn_cast<StructType>(ty)) if (auto *c = md.diOfStruct(ns)) { cur = c; owner = stripNum(ns->getName()); }
        } else return res;
    }
    outTy = cur;
    return res;
}
static const DICompositeType *diOfPtr(const Mod &md, const Value *p, int depth)
{
    if (depth > 6) return nullptr;
    while (auto *c = dyn_cast<BitCastOperator>(p)) p = c->getOperand(0);
    if (auto *g = dyn_cast<GEPOperator>(p)) {
        const DIType *t = nullptr;
        fieldWalk(md, g, t);
        return dyn_cast_or_null<DICompositeType>(t);
    }
    return nullptr;
}
static const char *TAG = "llvm.preserve.access.index"; // a kind EarlyCSE keeps when it merges loads;
static std::string tagOf(const Instruction *I)
{
    if (auto *n = I->getMetadata(TAG)) if (auto *s = dyn_cast<MDString>(n->getOperand(0))) return s->getString().str();
    return "";
}
std::string Mod::fieldOfGEP(const GEPOperator *g) const
{
    if (linked) {
        if (auto *I = dyn_cast<Instruction>(g)) {
            std::string s = tagOf(I);
            if (!s.empty()) return s;
        }
        if (isa<ArrayType>(g->getSourceElementType()) || g->getSourceElementType()->isIntegerTy()) return fieldOfPtr(g->getPointerOperand());
        return "";
    }
    const DIType *t;
    std::string s = fieldWalk(*this, g, t);
    // arrays of scalars inside a struct: gep [N x T], ptr, 0, i  -> name of the array field
    if (s.empty() && isa<ArrayType>(g->getSourceElementType())) s = fieldOfPtr(g->getPointerOperand());
    return s;
}
std::string Mod::fieldOfPtr(const Value *p) const
{
    while (auto *c = dyn_cast<BitCastOperator>(p)) p = c->getOperand(0);
    if (auto *g = dyn_cast<GEPOperator>(p)) return fieldOfGEP(g);
    return "";
}
std::string Mod::calleeName(const CallBase *cb) const
{
    if (Function *f = directCallee(cb)) return nameOf(f);
    const Value *v = cb->getCalledOperand()->stripPointerCasts();
    if (auto *l = dyn_cast<LoadInst>(v)) {
        std::string s = fieldOfAcc(l);
        if (!s.empty()) return "*" + s;
    }
    return "";
}
void Mod::scanInit(const Constant *c, const DIType *di, const std::string &ctxField, int depth)
{
    // di: debug type of the constant, typedefs kept (struct types of the linked module may have been merged)
    if (depth > 8) return;
    c = cast<Constant>(c->stripPointerCasts());
    if (auto *f = dyn_cast<Function>(c)) { if (!ctxField.empty()) fieldFns[ctxField].insert(const_cast<Function *>(f)); return; }
    if (auto *cs = dyn_cast<ConstantStruct>(c)) {
        StructType *st = cs->getType();
        const DICompositeType *ct = dyn_cast_or_null<DICompositeType>(stripDI(di));
        std::string owner = diName(di);
        if (!ct || ct->getTag() == dwarf::DW_TAG_array_type) return;
        if (owner.empty()) owner = ctxField.empty() ? "anon" : ctxField;
        const DataLayout &dl = M->getDataLayout();
        for (unsigned i = 0; i < cs->getNumOperands(); i++) {
            auto *m = memberAt(ct, dl.getStructLayout(st)->getElementOffsetInBits(i), ct->getTag() == dwarf::DW_TAG_union_type);
            if (!m) continue;
            scanInit(cs->getOperand(i), m->getBaseType(), owner + "." + m->getName().str(), depth + 1);
        }
    } else if (auto *ca = dyn_cast<ConstantArray>(c)) {
        const DIType *mt = nullptr;
        if (auto *ct = dyn_cast_or_null<DICompositeType>(stripDI(di))) if (ct->getTag() == dwarf::DW_TAG_array_type) mt = ct->getBaseType();
        for (unsigned i = 0; i < ca->getNumOperands(); i++) scanInit(ca->getOperand(i), mt, ctxField, depth + 1);
    }
}
void Mod::initTypes(Module *m)
{
    M = m;
    DebugInfoFinder fd;
    fd.processModule(*m);
    for (auto *t : fd.types()) {
        if (auto *ct = dyn_cast<DICompositeType>(t)) {
            unsigned tag = ct->getTag();
            if ((tag == dwarf::DW_TAG_structure_type || tag == dwarf::DW_TAG_union_type) && !ct->getName().empty() && !ct->isForwardDecl() && ct->getElements().size())
                structDI.insert({ct->getName().str(), ct});
            if (tag == dwarf::DW_TAG_enumeration_type)
                for (auto *el : ct->getElements()) if (auto *e = dyn_cast<DIEnumerator>(el)) enums[e->getName().str()] = e->getValue().getSExtValue();
        }
    }
    for (auto *t : fd.types()) {
        auto *d = dyn_cast<DIDerivedType>(t);
        if (!d || d->getTag() != dwarf::DW_TAG_typedef) continue;
        const DIType *b = stripDI(d);
        auto *ct = dyn_cast_or_null<DICompositeType>(b);
        if (ct && ct->getName().empty() && (ct->getTag() == dwarf::DW_TAG_structure_type || ct->getTag() == dwarf::DW_TAG_union_type))
            structDI.insert({d->getName().str(), const_cast<DICompositeType *>(ct)});
    }
}
// The linker merges structurally equal struct types, so field names are computed per unit and attached as metadata.
void tagFields(Module &m)
{
    Mod t;
    t.initTypes(&m);
    LLVMContext &c = m.getContext();
    unsigned kind = c.getMDKindID(TAG);
    for (Function &F : m) for (Instruction &I : instructions(F)) {
        std::string n;
        if (auto *g = dyn_cast<GEPOperator>(&I)) n = t.fieldOfGEP(g);
        else if (auto *l = dyn_cast<LoadInst>(&I)) n = t.fieldOfPtr(l->getPointerOperand());
        else if (auto *s = dyn_cast<StoreInst>(&I)) n = t.fieldOfPtr(s->getPointerOperand());
        if (!n.empty() && !I.getMetadata(kind)) I.setMetadata(kind, MDNode::get(c, {MDString::get(c, n)}));
        if (auto *cb = dyn_cast<CallBase>(&I)) {
            if (cb->getMetadata("hsa.lit")) continue;
            std::vector<Metadata *> ops;
            for (unsigned i = 0; i < cb->arg_size(); i++) if (isa<ConstantInt>(cb->getArgOperand(i)) && cb->getArgOperand(i)->getType()->isIntegerTy(1)) ops.push_back(ConstantAsMetadata::get(ConstantInt::get(Type::getInt32Ty(c), i)));
            if (!ops.empty()) cb->setMetadata("hsa.lit", MDNode::get(c, ops));
        }
    }
}
bool literalArg(const CallBase *cb, unsigned i)
{
    auto *n = cb->getMetadata("hsa.lit");
    if (!n) return false;
    for (auto &o : n->operands()) if (auto *v = mdconst::dyn_extract<ConstantInt>(o)) if (v->getZExtValue() == i) return isa<ConstantInt>(cb->getArgOperand(i));
    return false;
}
std::string Mod::fieldOfAcc(const Instruction *I) const
{
    std::string s = tagOf(I);
    if (!s.empty()) return s;
    if (auto *l = dyn_cast<LoadInst>(I)) return fieldOfPtr(l->getPointerOperand());
    if (auto *st = dyn_cast<StoreInst>(I)) return fieldOfPtr(st->getPointerOperand());
    return "";
}
void Mod::init(Module *m)
{
    initTypes(m);
    linked = true;
    for (Function &F : *m) {
        if (F.isDeclaration()) { byName[F.getName().str()].push_back(&F); continue; }
        auto *sp = F.getSubprogram();
        std::string n = sp ? sp->getName().str() : F.getName().str();
        srcName[&F] = n; srcFile[&F] = sp ? relPath(sp->getFile()) : "";
        auto &v = byName[n];
        v.insert(v.begin(), &F); // definitions first
    }
    for (auto &kv : byName) std::stable_sort(kv.second.begin(), kv.second.end(), [&](Function *a, Function *b) {
        if (a->isDeclaration() != b->isDeclaration()) return !a->isDeclaration();
        return fileOf(a) < fileOf(b); });
    buildCG();
    for (GlobalVariable &g : m->globals()) if (g.hasInitializer()) {
        const DIType *dt = nullptr;
        SmallVector<DIGlobalVariableExpression *, 1> ge;
        g.getDebugInfo(ge);
        if (!ge.empty()) dt = ge[0]->getVariable()->getType();
        scanInit(g.getInitializer(), dt, "");
    }
    for (Function &F : *m) for (Instruction &I : instructions(F)) {
        if (auto *s = dyn_cast<StoreInst>(&I)) if (auto *f = dyn_cast<Function>(s->getValueOperand()->stripPointerCasts())) {
            std::string fn = fieldOfAcc(s);
            if (!fn.empty()) fieldFns[fn].insert(f);
        }
        if (auto *s = dyn_cast<StoreInst>(&I)) { std::string fn = fieldOfAcc(s); if (!fn.empty()) fieldStores[fn].insert(&F); }
        else if (auto *l = dyn_cast<LoadInst>(&I)) { std::string fn = fieldOfAcc(l); if (!fn.empty()) fieldLoads[fn].insert(&F); }
        else if (auto *cb = dyn_cast<CallBase>(&I)) { if (!directCallee(cb)) { std::string n = calleeName(cb); if (n.size() > 1) indirectSites[n.substr(1)].push_back(cb); } else if (directCallee(cb) == &F) recur.insert(&F); }
    }
    buildMods();
}
int Mod::fid(const std::string &s)
{
    auto it = fieldId.find(s);
    if (it != fieldId.end()) return it->second;
    int n = (int)fieldNames.size();
    fieldNames.push_back(s);
    fieldId[s] = n;
    return n;
}
int Mod::fidOf(const Value *p) const
{
    auto it = fidCache.find(p);
    if (it != fidCache.end()) return it->second;
    std::string s = isa<LoadInst>(p) || isa<StoreInst>(p) ? fieldOfAcc(cast<Instruction>(p)) : fieldOfPtr(p);
    int r = -1;
    if (!s.empty()) { auto f = fieldId.find(s); if (f != fieldId.end()) r = f->second; }
    fidCache[p] = r;
    return r;
}
void Mod::buildMods()
{
    for (auto &kv : fieldStores) fid(kv.first);
    for (auto &kv : fieldLoads) fid(kv.first);
    size_t n = fieldNames.size();
    std::vector<Function *> fns;
    std::unordered_map<const Function *, std::set<Function *>> rev;
    for (Function &F : *M) if (!F.isDeclaration()) { fns.push_back(&F); modSet[&F].resize(n); }
    for (auto &kv : fieldStores) for (auto *f : kv.second) modSet[f].set(fieldId[kv.first]);
    for (auto &kv : callees) for (auto *c : kv.second) if (!c->isDeclaration()) rev[c].insert(const_cast<Function *>(kv.first));
    for (auto &kv : indirectSites) { auto it = fieldFns.find(kv.first); if (it == fieldFns.end()) continue; for (auto *cb : kv.second) for (auto *t : it->second) if (!t->isDeclaration()) rev[t].insert(cb->getFunction()); }
    std::vector<Function *> w(fns);
    while (!w.empty()) {
        Function *f = w.back(); w.pop_back();
        auto it = rev.find(f);
        if (it == rev.end()) continue;
        for (auto *c : it->second) { BitVector &b = modSet[c]; BitVector old = b; b |= modSet[f]; if (b != old) w.push_back(c); }
    }
}
void Mod::buildCG()
{
    callees.clear(); callersOf.clear();
    for (Function &F : *M) {
        if (F.isDeclaration()) continue;
        std::set<Function *> seen;
        for (Instruction &I : instructions(F)) if (auto *cb = dyn_cast<CallBase>(&I)) {
            Function *c = directCallee(cb);
            if (!c || c->isIntrinsic()) continue;
            callersOf[c].push_back(cb);
            if (seen.insert(c).second) callees[&F].push_back(c);
        }
    }
}
// ---------------- Env ----------------
static bool kless(const std::pair<const Value *, AV> &a, const Value *k) { return a.first < k; }
const AV *Env::get(const Value *k) const
{
    auto it = std::lower_bound(v.begin(), v.end(), k, kless);
    return it != v.end() && it->first == k ? &it->second : nullptr;
}
void Env::set(const Value *k, const AV &a)
{
    auto it = std::lower_bound(v.begin(), v.end(), k, kless);
    if (it != v.end() && it->first == k) it->second = a; else v.insert(it, {k, a});
}
void Env::erase(const Value *k)
{
    auto it = std::lower_bound(v.begin(), v.end(), k, kless);
    if (it != v.end() && it->first == k) v.erase(it);
}
size_t Env::hash() const
{
    size_t h = 1469598103934665603ULL;
    auto mix = [&](size_t x) { h ^= x + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); };
    for (auto &p : v) { mix((size_t)p.first); mix(p.second.lo); mix(p.second.hi); mix(p.second.nz); }
    for (auto &p : rep) { mix((size_t)p.first); mix((size_t)p.second); }
    for (auto &p : mem) { mix((size_t)p.base); mix(p.off); mix((size_t)p.idx); mix(p.a.lo); mix(p.a.hi); mix(p.a.nz); mix((size_t)p.val); }
    for (auto &p : facts) { mix(std::hash<std::string>()(p.first)); mix(p.second.lo); mix(p.second.hi); mix(p.second.nz); }
    return h;
}
// ---------------- Explorer ----------------
bool Explorer::trackedAlloca(const AllocaInst *a)
{
    if (a->isArrayAllocation()) return false;
    return tracked(a->getAllocatedType());
}
int Explorer::keep = 0;
std::unordered_map<const Function *, std::shared_ptr<Explorer::Shape>> Explorer::shapes;
void Explorer::prepare()
{
    // liveness of SSA values (and cells treated as always live)
    std::unordered_map<const BasicBlock *, std::unordered_set<const Value *>> use, def, out;
    std::vector<const BasicBlock *> order;
    for (auto &B : F) order.push_back(&B);
    for (auto *B : order) {
        auto &u = use[B]; auto &d = def[B];
        for (auto &I : *B) {
            if (isDbg(&I)) continue;
            if (!isa<PHINode>(I)) {
                for (auto &op : I.operands()) { const Value *v = op.get(); if ((isa<Instruction>(v) || isa<Argument>(v)) && !d.count(v)) u.insert(v); }
            }
            d.insert(&I);
        }
    }
    bool ch = true;
    while (ch) {
        ch = false;
        for (auto it = order.rbegin(); it != order.rend(); ++it) {
            const BasicBlock *B = *it;
            std::unordered_set<const Value *> o;
            for (const BasicBlock *S : successors(B)) {
                for (auto *v : liveIn[S]) o.insert(v);
                for (auto &ph : S->phis()) { const Value *v = ph.getIncomingValueForBlock(B); if (isa<Instruction>(v) || isa<Argument>(v)) o.insert(v); }
            }
            // phi defs are live-in at block start after edge processing
            auto &li = liveIn[B];
            size_t before = li.size();
            for (auto *v : use[B]) li.insert(v);
            for (auto *v : o) if (!def[B].count(v)) li.insert(v);
            // phis of B used in B or later: they are set on the edge, so keep them
            for (auto &ph : B->phis()) li.insert(&ph);
            if (li.size() != before) ch = true;
        }
    }
    if (useMem) {
        Env e0;
        std::unordered_map<const BasicBlock *, std::set<std::pair<int64_t, int>>> gen;
        for (auto *B : order) for (auto &I : *B) if (auto *l = dyn_cast<LoadInst>(&I)) { if (!tracked(l->getType())) continue; MK k = memKey(l->getPointerOperand(), e0); if (k.ok) gen[B].insert({k.off, 0}); }
        bool c2 = true;
        while (c2) {
            c2 = false;
            for (auto it = order.rbegin(); it != order.rend(); ++it) {
                auto &s = memLive[*it];
                size_t b4 = s.size();
                s.insert(gen[*it].begin(), gen[*it].end());
                for (const BasicBlock *S : successors(*it)) { auto &t = memLive[S]; s.insert(t.begin(), t.end()); }
                if (s.size() != b4) c2 = true;
            }
        }
    }
    DominatorTree DT(F);
    for (auto &B : F) for (const BasicBlock *S : successors(&B)) if (DT.dominates(S, &B)) loopHeads.insert(S);
    // which alloca cells are ever clobbered only by calls that get their address
}
// value of a load from a constant table, when its index is known well enough
AV Explorer::constLoad(const LoadInst *l, const Env &e) const
{
    unsigned w = widthOf(l->getType());
    const DataLayout &dl = md.M->getDataLayout();
    const Value *p = l->getPointerOperand();
    int64_t off = 0, scale = 0; AV ix; bool var = false;
    for (int i = 0; i < 12; i++) {
        p = p->stripPointerCasts();
        if (auto *g = dyn_cast<GEPOperator>(p)) {
            MapVector<Value *, APInt> vs; APInt c(64, 0);
            if (!const_cast<GEPOperator *>(g)->collectOffset(dl, 64, vs, c)) return AV::top(w);
            off += c.getSExtValue();
            for (auto &kv : vs) {
                AV a = eval(kv.first, e);
                if (a.isConst()) off += (int64_t)a.lo * kv.second.getSExtValue();
                else if (var || a.hi - a.lo > 64) return AV::top(w);
                else { var = true; ix = a; scale = kv.second.getSExtValue(); }
            }
            p = g->getPointerOperand();
            continue;
        }
        const Value *r = e.root(p);
        if (r == p) break;
        p = r;
    }
    auto *gv = dyn_cast<GlobalVariable>(p);
    if (!gv || !gv->isConstant() || !gv->hasDefinitiveInitializer()) return AV::top(w);
    auto one = [&](int64_t o) -> AV {
        Constant *c = o < 0 ? nullptr : ConstantFoldLoadFromConst(const_cast<Constant *>(gv->getInitializer()), l->getType(), APInt(64, (uint64_t)o), dl);
        if (!c) return AV::top(w);
        if (auto *k = dyn_cast<ConstantInt>(c)) return AV::cst(k->getZExtValue(), w);
        if (isa<ConstantPointerNull>(c)) return AV::cst(0, w);
        if (c->getType()->isPointerTy() && isa<GlobalObject>(c->stripPointerCasts())) return AV::nonzero(w);
        return AV::top(w);
    };
    if (!var) return one(off);
    AV r; bool first = true;
    for (uint64_t i = ix.lo; i <= ix.hi; i++) { AV a = one(off + (int64_t)i * scale); r = first ? a : r.join(a); first = false; if (r.isTop(w)) break; }
    return r;
}
Explorer::MK Explorer::memKey(const Value *p, const Env &e) const
{
    const DataLayout &dl = md.M->getDataLayout();
    MK k{nullptr, 0, nullptr, false};
    for (int i = 0; i < 12; i++) {
        APInt o(64, 0);
        p = p->stripAndAccumulateConstantOffsets(dl, o, true);
        k.off += o.getSExtValue();
        if (auto *g = dyn_cast<GEPOperator>(p)) {
            // one variable index is allowed; constant struct parts around it are folded into the offset
            const Value *var = nullptr; int nv = 0;
            for (auto &x : g->indices()) if (!isa<ConstantInt>(x)) { var = x; nv++; }
            if (nv != 1 || k.idx) { k.base = g->getPointerOperand(); return k; }
            k.idx = e.root(var);
            unsigned n = 0;
            for (auto &x : g->indices()) { if (auto *ci = dyn_cast<ConstantInt>(x)) k.off += (int64_t)ci->getSExtValue() * 1000003 * (int64_t)(n + 1); n++; }
            p = g->getPointerOperand();
            continue;
        }
        const Value *r = e.root(p);
        if (r != p) { p = r; continue; }
        break;
    }
    k.base = p;
    if (isa<ConstantPointerNull>(p) || isa<GEPOperator>(p)) return k;
    k.ok = true;
    return k;
}
static void memSort(std::vector<MemE> &m)
{
    std::sort(m.begin(), m.end(), [](const MemE &x, const MemE &y) { return x.base != y.base ? x.base < y.base : x.off != y.off ? x.off < y.off : x.idx < y.idx; });
}
// two different objects that cannot overlap: distinct locals, or a local and something the caller handed in
static bool distinctObj(const Value *a, const Value *b)
{
    auto id = [](const Value *v) { return isa<AllocaInst>(v) || isa<GlobalVariable>(v); };
    if (a == b) return false;
    if (id(a) && id(b)) return true;
    if (isa<AllocaInst>(a) && isa<Argument>(b)) return true;
    if (isa<AllocaInst>(b) && isa<Argument>(a)) return true;
    return false;
}
void Explorer::memStore(PState &ps, const Value *p, const Value *v, unsigned w, const Instruction *si) const
{
    auto &m = ps.env.mem;
    int f = md.fidOf(si ? (const Value *)si : p);
    MK k = memKey(p, ps.env);
    if (!k.ok) {
        const Value *ub = k.base ? k.base : p;
        ub = ub->stripPointerCasts();
        while (auto *g = dyn_cast<GEPOperator>(ub)) ub = g->getPointerOperand()->stripPointerCasts();
        ub = ps.env.root(ub);
        m.erase(std::remove_if(m.begin(), m.end(), [&](MemE &e) { return e.base == ub || (f >= 0 && e.fid == f && !distinctObj(e.base, ub)); }), m.end());
        return;
    }
    int64_t n = w / 8 ? w / 8 : 1;
    m.erase(std::remove_if(m.begin(), m.end(), [&](MemE &e) {
        if (e.base == k.base) {
            if (e.idx != k.idx) return true; // array element against another element or plain field of the object
            int64_t el = e.w / 8 ? e.w / 8 : 1; return e.off < k.off + n && k.off < e.off + el;
        }
        return f >= 0 && e.fid == f && !distinctObj(e.base, k.base); }), m.end());
    if (!v || !w || w > 64) return;
    AV a = eval(v, ps.env);
    m.push_back({k.base, k.off, k.idx, w, f, a, isa<Constant>(v) ? nullptr : ps.env.root(v)});
    memSort(m);
}
void Explorer::setMem(PState &ps, const Value *ptr, const AV &a, unsigned w) const
{
    memStore(ps, ptr, nullptr, w);
    MK k = memKey(ptr, ps.env);
    if (!k.ok) return;
    ps.env.mem.push_back({k.base, k.off, k.idx, w, md.fidOf(ptr), a, nullptr});
    memSort(ps.env.mem);
}
void Explorer::redefine(Env &e, const Value *I) const
{
    if (!e.mem.empty()) e.mem.erase(std::remove_if(e.mem.begin(), e.mem.end(), [&](MemE &x) { return x.base == I || x.idx == I; }), e.mem.end());
    for (auto &x : e.mem) if (x.val == I) x.val = nullptr;
    if (!e.rep.empty()) {
        const AV *old = e.get(I);
        AV o = old ? *old : AV::top(64);
        for (size_t i = 0; i < e.rep.size();) {
            if (e.rep[i].first == I) { e.rep.erase(e.rep.begin() + i); continue; }
            if (e.rep[i].second == I) { if (old) e.set(e.rep[i].first, o); e.rep.erase(e.rep.begin() + i); continue; }
            i++;
        }
    }
}
bool Explorer::hasMem(const LoadInst *l, const Env &e) const
{
    MK k = memKey(l->getPointerOperand(), e);
    if (!k.ok) return false;
    unsigned lw = widthOf(l->getType());
    for (auto &m : e.mem) if (m.base == k.base && m.off == k.off && m.idx == k.idx && m.w == lw) return true;
    return false;
}
void Explorer::memCall(PState &ps, const CallBase *cb) const
{
    auto &m = ps.env.mem;
    if (m.empty()) return;
    Function *c = directCallee(cb);
    std::vector<const BitVector *> many;
    bool ext = true;
    if (c && !c->isDeclaration()) { auto it = md.modSet.find(c); if (it != md.modSet.end()) { ext = false; many.push_back(&it->second); } }
    else if (!c) {
        std::string n = md.calleeName(cb);
        if (n.size() > 1) { auto it = md.fieldFns.find(n.substr(1)); if (it != md.fieldFns.end()) for (auto *t : it->second) { auto j = md.modSet.find(t); if (j != md.modSet.end()) many.push_back(&j->second); } }
    }
    std::vector<const Value *> ab, direct;
    for (auto &a : cb->args()) if (a->getType()->isPointerTy()) {
        const Value *x = a->stripPointerCasts();
        bool gep = false;
        while (auto *g = dyn_cast<GEPOperator>(x)) { x = g->getPointerOperand()->stripPointerCasts(); gep = true; }
        ab.push_back(ps.env.root(x));
        (void)gep;
    }
    // address of a scalar field handed over: its content may change
    std::vector<MK> addr;
    for (auto &a : cb->args()) if (a->getType()->isPointerTy() && isa<GEPOperator>(a->stripPointerCasts())) { MK k = memKey(a, ps.env); if (k.ok) addr.push_back(k); }
    m.erase(std::remove_if(m.begin(), m.end(), [&](MemE &e) {
        if (e.fid >= 0) for (auto *s : many) if ((unsigned)e.fid < s->size() && s->test(e.fid)) return true;
        for (auto &k : addr) if (e.base == k.base && e.off == k.off && e.idx == k.idx) return true;
        // memory without a field name, or an external callee: lost when its base is handed over
        if (e.fid < 0 || ext) for (auto *x : ab) if (x == e.base) return true;
        return false; }), m.end());
}
static AV avTopOf(const Value *v) { unsigned w = widthOf(v->getType()); return AV::top(w ? w : 64); }
AV Explorer::eval(const Value *v, const Env &e) const
{
    unsigned w = widthOf(v->getType());
    if (!w) return AV::top(64);
    if (!e.rep.empty() && isa<LoadInst>(v)) v = e.root(v);
    if (auto *ci = dyn_cast<ConstantInt>(v)) return ci->getBitWidth() <= 64 ? AV::cst(ci->getZExtValue(), ci->getBitWidth()) : AV::top(64);
    if (isa<ConstantPointerNull>(v)) return AV::cst(0, 64);
    if (isa<UndefValue>(v)) return AV::top(w);
    if (isa<GlobalValue>(v) || isa<AllocaInst>(v)) return AV::nonzero(64);
    if (auto *ce = dyn_cast<ConstantExpr>(v)) {
        if (ce->getOpcode() == Instruction::GetElementPtr) return AV::nonzero(64);
        if (ce->isCast()) { AV a = eval(ce->getOperand(0), e); return a.isConst() ? AV::cst(a.lo, w) : (a.nz && ce->getOpcode() != Instruction::Trunc ? AV::nonzero(w) : AV::top(w)); }
        return AV::top(w);
    }
    if (const AV *a = e.get(v)) return *a;
    if (auto *I = dyn_cast<Instruction>(v)) return pureEval(I, e, 0);
    return AV::top(w);
}
// values of instructions that were pruned from the environment are recomputed from their operands
AV Explorer::pureEval(const Instruction *I, const Env &e, int) const
{
    if (isa<CastInst>(I) || isa<ICmpInst>(I) || isa<BinaryOperator>(I) || isa<GetElementPtrInst>(I)) return avTopOf(I);
    return avTopOf(I);
}
static bool sgnNonNeg(const AV &a, unsigned w) { return a.hi <= (AV::mask(w) >> 1); }
static bool sgnNeg(const AV &a, unsigned w) { return a.lo > (AV::mask(w) >> 1); }
// three-valued compare: 0,1,2(unknown)
static int cmpAV(CmpInst::Predicate p, const AV &a, const AV &b, unsigned w)
{
    switch (p) {
        case CmpInst::ICMP_EQ: if (a.isConst() && b.isConst()) return a.lo == b.lo; if (!a.intersects(b)) return 0; return 2;
        case CmpInst::ICMP_NE: { int r = cmpAV(CmpInst::ICMP_EQ, a, b, w); return r == 2 ? 2 : !r; }
        case CmpInst::ICMP_ULT: if (a.hi < b.lo) return 1; if (a.lo >= b.hi) return 0; return 2;
        case CmpInst::ICMP_ULE: if (a.hi <= b.lo) return 1; if (a.lo > b.hi) return 0; return 2;
        case CmpInst::ICMP_UGT: return cmpAV(CmpInst::ICMP_ULT, b, a, w);
        case CmpInst::ICMP_UGE: return cmpAV(CmpInst::ICMP_ULE, b, a, w);
        case CmpInst::ICMP_SLT: case CmpInst::ICMP_SLE: {
            bool an = sgnNeg(a, w), ap = sgnNonNeg(a, w), bn = sgnNeg(b, w), bp = sgnNonNeg(b, w);
            if ((an && bn) || (ap && bp)) return cmpAV(p == CmpInst::ICMP_SLT ? CmpInst::ICMP_ULT : CmpInst::ICMP_ULE, a, b, w);
            if (an && bp) return 1;
            if (ap && bn) return 0;
            return 2;
        }
        case CmpInst::ICMP_SGT: return cmpAV(CmpInst::ICMP_SLT, b, a, w);
        case CmpInst::ICMP_SGE: return cmpAV(CmpInst::ICMP_SLE, b, a, w);
        default: return 2;
    }
}
static AV binop(unsigned op, const AV &a, const AV &b, unsigned w)
{
    uint64_t m = AV::mask(w);
    if (a.isConst() && b.isConst()) {
        uint64_t x = a.lo, y = b.lo;
        switch (op) {
            case Instruction::Add: return AV::cst(x + y, w);
            case Instruction::Sub: return AV::cst(x - y, w);
            case Instruction::Mul: return AV::cst(x * y, w);
            case Instruction::And: return AV::cst(x & y, w);
            case Instruction::Or: return AV::cst(x | y, w);
            case Instruction::Xor: return AV::cst(x ^ y, w);
            case Instruction::Shl: return y < w ? AV::cst(x << y, w) : AV::top(w);
            case Instruction::LShr: return y < w ? AV::cst(x >> y, w) : AV::top(w);
            case Instruction::AShr: { if (y >= w) return AV::top(w); int64_t s = (int64_t)(x << (64 - w)) >> (64 - w); return AV::cst((uint64_t)(s >> y), w); }
            case Instruction::UDiv: return y ? AV::cst(x / y, w) : AV::top(w);
            case Instruction::URem: return y ? AV::cst(x % y, w) : AV::top(w);
            default: return AV::top(w);
        }
    }
    switch (op) {
        case Instruction::Add: if (a.hi <= m - b.hi) return AV::range(a.lo + b.lo, a.hi + b.hi); break;
        case Instruction::Sub: if (a.lo >= b.hi) return AV::range(a.lo - b.hi, a.hi - b.lo); break;
        case Instruction::Mul: if ((a.isConst() && a.lo == 0) || (b.isConst() && b.lo == 0)) return AV::cst(0, w);
            if (b.hi && a.hi <= m / b.hi) return AV::range(a.lo * b.lo, a.hi * b.hi); break;
        case Instruction::And: { AV r; r.lo = 0; r.hi = std::min(a.hi, b.hi); return r; }
        case Instruction::Or: { AV r; r.lo = std::max(a.lo, b.lo); r.hi = m; r.nz = a.nz || b.nz; uint64_t h = a.hi | b.hi; while (h & (h + 1)) h |= h >> 1; r.hi = std::min(m, h); r.norm(); return r; }
        case Instruction::Xor: break;
        case Instruction::LShr: if (b.isConst() && b.lo < w) return AV::range(a.lo >> b.lo, a.hi >> b.lo); { AV r; r.lo = 0; r.hi = a.hi; return r; }
        case Instruction::Shl: if (b.isConst() && b.lo < w && a.hi <= (m >> b.lo)) return AV::range(a.lo << b.lo, a.hi << b.lo); break;
        case Instruction::UDiv: if (b.lo > 0) return AV::range(a.lo / b.hi, a.hi / b.lo); break;
        case Instruction::URem: if (b.hi > 0) { if (b.lo > a.hi) return a; AV r; r.lo = 0; r.hi = std::min(a.hi, b.hi - 1); return r; } break;
        default: break;
    }
    return AV::top(w);
}
// Small functions that hand one of their arguments (an error code) back: a call yields what the function returns for
// the argument values known at the call.
struct RetFn { Function *body = nullptr; std::map<std::vector<uint64_t>, AV> memo; };
static RetFn &retFn(const Mod &md, Function *f)
{
    static std::unordered_map<const Function *, RetFn> all;
    auto it = all.find(f);
    if (it != all.end()) return it->second;
    RetFn &r = all[f];
    if (f->isDeclaration() || !f->getReturnType()->isIntegerTy() || f->getReturnType()->getIntegerBitWidth() < 8 || !tracked(f->getReturnType()) || f->isVarArg() || md.recursive(f) || instrCount(*f) > 200) return r;
    bool ia = false;
    for (auto &a : f->args()) if (a.getType() == f->getReturnType()) ia = true;
    if (!ia) return r;
    md.fidCache.clear();
    ValueToValueMapTy vm;
    Function *c = CloneFunction(f, vm);
    cleanup(*c);
    SmallVector<std::pair<const BasicBlock *, const BasicBlock *>, 4> be;
    FindFunctionBackedges(*c, be);
    bool arg = false, ok = be.empty();
    for (auto &B : *c) if (auto *ri = dyn_cast<ReturnInst>(B.getTerminator())) {
        std::vector<const Value *> w{ri->getReturnValue()};
        std::set<const Value *> seen;
        while (ok && !w.empty()) {
            const Value *v = w.back(); w.pop_back();
            if (!seen.insert(v).second) continue;
            if (auto *p = dyn_cast<PHINode>(v)) { for (auto &o : p->incoming_values()) w.push_back(o); }
            else if (auto *sl = dyn_cast<SelectInst>(v)) { w.push_back(sl->getTrueValue()); w.push_back(sl->getFalseValue()); }
            else if (isa<Argument>(v)) arg = true;
            else if (!isa<ConstantInt>(v)) ok = false;
        }
    }
    if (ok && arg) r.body = c; else { md.fidCache.clear(); c->eraseFromParent(); }
    return r;
}
std::set<unsigned> returnedArgs(const Mod &md, Function *f)
{
    std::set<unsigned> out;
    RetFn &r = retFn(md, f);
    if (!r.body) return out;
    for (auto &B : *r.body) if (auto *ri = dyn_cast<ReturnInst>(B.getTerminator())) {
        std::vector<const Value *> w{ri->getReturnValue()};
        std::set<const Value *> seen;
        while (!w.empty()) {
            const Value *v = w.back(); w.pop_back();
            if (!seen.insert(v).second) continue;
            if (auto *p = dyn_cast<PHINode>(v)) { for (auto &o : p->incoming_values()) w.push_back(o); }
            else if (auto *sl = dyn_cast<SelectInst>(v)) { w.push_back(sl->getTrueValue()); w.push_back(sl->getFalseValue()); }
            else if (auto *a = dyn_cast<Argument>(v)) out.insert(a->getArgNo());
        }
    }
    return out;
}
static AV retOf(const Explorer &x, const CallBase *cb, const Env &e, unsigned w)
{
    Function *f = directCallee(cb);
    if (!f || f->isIntrinsic() || cb->arg_size() != f->arg_size()) return AV::top(w);
    RetFn &r = retFn(x.md, f);
    if (!r.body) return AV::top(w);
    std::vector<uint64_t> key;
    PState init;
    for (unsigned i = 0; i < cb->arg_size(); i++) {
        if (!tracked(cb->getArgOperand(i)->getType())) { key.insert(key.end(), {0, ~0ULL, 2}); continue; }
        AV a = x.eval(cb->getArgOperand(i), e);
        key.insert(key.end(), {a.lo, a.hi, a.nz});
        if (!a.isTop(widthOf(cb->getArgOperand(i)->getType()))) init.env.set(r.body->getArg(i), a);
    }
    auto it = r.memo.find(key);
    if (it != r.memo.end()) return it->second;
    Explorer n(x.md, *r.body);
    n.keepArgs = true;
    n.maxSteps = 4000;
    AV res; bool any = false;
    n.onRet = [&](const ReturnInst *ri, PState &ps, Explorer &y) { AV v = y.eval(ri->getReturnValue(), ps.env); res = any ? res.join(v) : v; any = true; };
    n.run(init);
    if (!any || n.overflow) res = AV::top(w);
    return r.memo[key] = res;
}
AV Explorer::transfer(const Instruction *I, const Env &e) const
{
    unsigned w = widthOf(I->getType());
    if (!w || w > 64) return AV::top(64);
    if (auto *bo = dyn_cast<BinaryOperator>(I)) {
        if (bo->getOperand(0) == bo->getOperand(1) && (bo->getOpcode() == Instruction::Sub || bo->getOpcode() == Instruction::Xor)) return AV::cst(0, w);
        return binop(bo->getOpcode(), eval(bo->getOperand(0), e), eval(bo->getOperand(1), e), w);
    }
    if (auto *ic = dyn_cast<ICmpInst>(I)) {
        unsigned ow = widthOf(ic->getOperand(0)->getType());
        if (!ow || ow > 64) return AV::top(1);
        if (ic->getOperand(0) == ic->getOperand(1)) {
            if (ic->isTrueWhenEqual()) return AV::cst(1, 1);
            if (ic->isFalseWhenEqual()) return AV::cst(0, 1);
        }
        int r = cmpAV(ic->getPredicate(), eval(ic->getOperand(0), e), eval(ic->getOperand(1), e), ow);
        return r == 2 ? AV::top(1) : AV::cst(r, 1);
    }
    if (auto *s = dyn_cast<SelectInst>(I)) {
        AV c = eval(s->getCondition(), e);
        if (c.isConst()) return eval(c.lo ? s->getTrueValue() : s->getFalseValue(), e);
        return eval(s->getTrueValue(), e).join(eval(s->getFalseValue(), e));
    }
    if (auto *c = dyn_cast<CastInst>(I)) {
        unsigned ow = widthOf(c->getOperand(0)->getType());
        if (!ow || ow > 64) return AV::top(w);
        AV a = eval(c->getOperand(0), e);
        switch (c->getOpcode()) {
            case Instruction::ZExt: case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
                if (w < ow) { if (a.hi <= AV::mask(w)) return a; return a.isConst() ? AV::cst(a.lo, w) : AV::top(w); }
                return a;
            }
            case Instruction::Trunc: if (a.isConst()) return AV::cst(a.lo, w); if (a.hi <= AV::mask(w)) return a; return AV::top(w);
            case Instruction::SExt:
                if (a.isConst()) { int64_t s = (int64_t)(a.lo << (64 - ow)) >> (64 - ow); return AV::cst((uint64_t)s, w); }
                if (sgnNonNeg(a, ow)) return a;
                { AV r = AV::top(w); r.nz = a.nz; r.norm(); return r; }
            default: return AV::top(w);
        }
    }
    if (auto *g = dyn_cast<GetElementPtrInst>(I)) {
        AV b = eval(g->getPointerOperand(), e);
        if (b.nz) return AV::nonzero(64);
        if (b.isConst()) { APInt off(64, 0); if (g->accumulateConstantOffset(md.M->getDataLayout(), off)) return AV::cst(b.lo + off.getZExtValue(), 64); }
        return AV::top(64);
    }
    if (auto *l = dyn_cast<LoadInst>(I)) return constLoad(l, e);
    if (isa<FreezeInst>(I)) return eval(I->getOperand(0), e);
    if (auto *cb = dyn_cast<CallBase>(I)) {
        if (auto *f = directCallee(cb)) if (f->getIntrinsicID() == Intrinsic::expect) return eval(cb->getArgOperand(0), e);
        return retOf(*this, cb, e, w);
    }
    return AV::top(w);
}
bool Explorer::refine(Env &e, const Value *v, const AV &a, int depth) const
{
    unsigned w = widthOf(v->getType());
    if (!w || w > 64) return true;
    if (!e.rep.empty() && isa<LoadInst>(v)) v = e.root(v);
    AV cur = eval(v, e);
    AV n = cur.meet(a);
    if (n.empty()) return false;
    if (isa<Constant>(v) || isa<AllocaInst>(v)) return true;
    bool changed = !(n == cur);
    if (changed) {
        e.set(v, n);
        for (auto &p : e.falias) if (p.second == v) e.setFact(p.first, n);
        for (auto &p : e.mem) if (p.val == v && p.w == w) p.a = n;
    }
    if (depth > 12) return true;
    auto *I = dyn_cast<Instruction>(v);
    if (!I) return true;
    if (auto *ic = dyn_cast<ICmpInst>(I)) {
        if (!n.isConst()) return true;
        const Value *x = ic->getOperand(0), *y = ic->getOperand(1);
        unsigned ow = widthOf(x->getType());
        if (!ow || ow > 64) return true;
        CmpInst::Predicate p = n.lo ? ic->getPredicate() : ic->getInversePredicate();
        AV ax = eval(x, e), ay = eval(y, e);
        if (cmpAV(p, ax, ay, ow) == 0) return false;
        uint64_t m = AV::mask(ow), sm = m >> 1;
        AV rx = AV::top(ow), ry = AV::top(ow);
        switch (p) {
            case CmpInst::ICMP_EQ: rx = ay; ry = ax; break;
            case CmpInst::ICMP_NE:
                if (ay.isConst()) { if (ay.lo == 0) rx = AV::nonzero(ow); else if (ax.lo == ay.lo) rx = AV::range(ax.lo + 1, m); else if (ax.hi == ay.lo) rx = AV::range(0, ax.hi - 1); }
                if (ax.isConst()) { if (ax.lo == 0) ry = AV::nonzero(ow); else if (ay.lo == ax.lo) ry = AV::range(ay.lo + 1, m); else if (ay.hi == ax.lo) ry = AV::range(0, ay.hi - 1); }
                break;
            case CmpInst::ICMP_ULT: if (ay.hi == 0) return false; rx = AV::range(0, ay.hi - 1); ry = AV::range(ax.lo + 1, m); break;
            case CmpInst::ICMP_ULE: rx = AV::range(0, ay.hi); ry = AV::range(ax.lo, m); break;
            case CmpInst::ICMP_UGT: if (ax.hi == 0) return false; rx = AV::range(ay.lo + 1, m); ry = AV::range(0, ax.hi - 1); break;
            case CmpInst::ICMP_UGE: rx = AV::range(ay.lo, m); ry = AV::range(0, ax.hi); break;
            case CmpInst::ICMP_SLT:
                if (ay.isConst() && ay.lo == 0) rx = AV::range(sm + 1, m);
                else if (sgnNonNeg(ax, ow) && sgnNonNeg(ay, ow) && ay.hi) { rx = AV::range(0, ay.hi - 1); ry = AV::range(ax.lo + 1, sm); }
                else if (sgnNeg(ay, ow)) rx = AV::range(sm + 1, ay.hi);
                else if (sgnNonNeg(ax, ow)) ry = AV::range(ax.lo + 1, sm);
                break;
            case CmpInst::ICMP_SLE:
                if (sgnNonNeg(ax, ow) && sgnNonNeg(ay, ow)) { rx = AV::range(0, ay.hi); ry = AV::range(ax.lo, sm); }
                else if (sgnNeg(ay, ow)) rx = AV::range(sm + 1, ay.hi);
                else if (sgnNonNeg(ax, ow)) ry = AV::range(ax.lo, sm);
                break;
            case CmpInst::ICMP_SGT:
                if (ay.isConst() && ay.lo == m) rx = AV::range(0, sm);
                else if (sgnNonNeg(ay, ow)) rx = AV::range(ay.lo + 1, sm);
                if (sgnNonNeg(ax, ow) && sgnNonNeg(ay, ow) && ax.hi) ry = AV::range(0, ax.hi - 1);
                break;
            case CmpInst::ICMP_SGE:
                if (sgnNonNeg(ay, ow)) rx = AV::range(ay.lo, sm);
                if (sgnNonNeg(ax, ow) && sgnNonNeg(ay, ow)) ry = AV::range(0, ax.hi);
                break;
            default: break;
        }
        return refine(e, x, rx, depth + 1) && refine(e, y, ry, depth + 1);
    }
    if (auto *bo = dyn_cast<BinaryOperator>(I)) {
        const Value *x = bo->getOperand(0), *y = bo->getOperand(1);
        if (w == 1 && n.isConst()) {
            if (bo->getOpcode() == Instruction::And && n.lo == 1) return refine(e, x, n, depth + 1) && refine(e, y, n, depth + 1);
            if (bo->getOpcode() == Instruction::Or && n.lo == 0) return refine(e, x, n, depth + 1) && refine(e, y, n, depth + 1);
            if (bo->getOpcode() == Instruction::Xor) { if (auto *c = dyn_cast<ConstantInt>(y)) return refine(e, x, AV::cst(n.lo ^ c->getZExtValue(), 1), depth + 1); }
        }
        if (bo->getOpcode() == Instruction::Or && n.isConst() && n.lo == 0) return refine(e, x, n, depth + 1) && refine(e, y, n, depth + 1);
        if (bo->getOpcode() == Instruction::And && n.nz) { AV z = AV::nonzero(w); return refine(e, x, z, depth + 1) && refine(e, y, z, depth + 1); }
        if (auto *c = dyn_cast<ConstantInt>(y)) {
            if (n.isConst() && bo->getOpcode() == Instruction::Add) return refine(e, x, AV::cst(n.lo - c->getZExtValue(), w), depth + 1);
            if (n.isConst() && bo->getOpcode() == Instruction::Sub) return refine(e, x, AV::cst(n.lo + c->getZExtValue(), w), depth + 1);
            if (n.isConst() && bo->getOpcode() == Instruction::Xor) return refine(e, x, AV::cst(n.lo ^ c->getZExtValue(), w), depth + 1);
        }
        return true;
    }
    if (auto *c = dyn_cast<CastInst>(I)) {
        const Value *x = c->getOperand(0);
        unsigned ow = widthOf(x->getType());
        if (!ow || ow > 64) return true;
        if (c->getOpcode() == Instruction::ZExt) { AV r = n; if (r.lo > AV::mask(ow)) return false; r.hi = std::min(r.hi, AV::mask(ow)); return refine(e, x, r, depth + 1); }
        if (c->getOpcode() == Instruction::SExt) { if (n.isConst()) return refine(e, x, AV::cst(n.lo, ow), depth + 1); if (n.nz) return refine(e, x, AV::nonzero(ow), depth + 1); return true; }
        if (c->getOpcode() == Instruction::Trunc) { // bool stored as i8
            AV ox = eval(x, e);
            if (ox.hi <= AV::mask(w)) return refine(e, x, n, depth + 1);
            if (n.nz) return refine(e, x, AV::nonzero(ow), depth + 1);
            if (w == 1 && n.isConst() && n.lo == 0) if (isBoolByte(x)) return refine(e, x, AV::cst(0, ow), depth + 1);
            return true;
        }
        if (w == ow) return refine(e, x, n, depth + 1);
        return true;
    }
    if (isa<FreezeInst>(I)) return refine(e, I->getOperand(0), n, depth + 1);
    if (auto *cb = dyn_cast<CallBase>(I)) if (auto *f = directCallee(cb)) if (f->getIntrinsicID() == Intrinsic::expect) return refine(e, cb->getArgOperand(0), n, depth + 1);
    if (auto *g = dyn_cast<GetElementPtrInst>(I)) if (n.isConst() && n.lo == 0 && g->hasAllZeroIndices()) return refine(e, g->getPointerOperand(), n, depth + 1);
    if (auto *s = dyn_cast<SelectInst>(I)) {
        // if one arm is incompatible, the condition is decided
        bool t = eval(s->getTrueValue(), e).intersects(n), f = eval(s->getFalseValue(), e).intersects(n);
        if (!t && !f) return false;
        if (!t) return refine(e, s->getCondition(), AV::cst(0, 1), depth + 1) && refine(e, s->getFalseValue(), n, depth + 1);
        if (!f) return refine(e, s->getCondition(), AV::cst(1, 1), depth + 1) && refine(e, s->getTrueValue(), n, depth + 1);
    }
    return true;
}
bool Explorer::isBoolByte(const Value *v) const
{
    // an i8 that only ever holds a C bool: load of a bool, zext i1, or parameter marked zeroext bool; be liberal
    if (auto *z = dyn_cast<ZExtInst>(v)) return z->getOperand(0)->getType()->isIntegerTy(1);
    if (isa<LoadInst>(v)) return v->getType()->isIntegerTy(8);
    if (auto *p = dyn_cast<PHINode>(v)) return p->getType()->isIntegerTy(8);
    return false;
}
void Explorer::phiEdge(const BasicBlock *from, const BasicBlock *to, PState &ps) const
{
    std::vector<std::pair<const PHINode *, AV>> nv;
    bool back = loopHeads.count(to) && backEdge(from, to);
    for (auto &ph : to->phis()) {
        if (!tracked(ph.getType())) continue;
        const Value *in = ph.getIncomingValueForBlock(from);
        AV a = eval(in, ps.env);
        if (back && isa<BinaryOperator>(in)) { a = AV::top(widthOf(ph.getType())); }
        if (back && isa<GetElementPtrInst>(in)) { a = eval(in, ps.env); }
        nv.push_back({&ph, a});
    }
    for (auto &ph : to->phis()) redefine(ps.env, &ph);
    for (auto &p : nv) {
        if (p.second.isTop(widthOf(p.first->getType()))) ps.env.erase(p.first);
        else ps.env.set(p.first, p.second);
    }
}
bool Explorer::backEdge(const BasicBlock *from, const BasicBlock *to) const
{
    return backEdges.count({from, to});
}
bool Explorer::execBlock(const BasicBlock *bb, PState ps, const Instruction *startAfter, std::vector<std::pair<const BasicBlock *, PState>> &out)
{
    auto it = startAfter ? std::next(startAfter->getIterator()) : bb->begin();
    for (; it != bb->end(); ++it) {
        const Instruction *I = &*it;
        if (isDbg(I) || isa<PHINode>(I)) continue;
        if (onInst && !onInst(I, ps, *this)) return true;
        if (stop) return false;
        if (I->isTerminator()) break;
        if (auto *s = dyn_cast<StoreInst>(I)) {
            if (useMem) memStore(ps, s->getPointerOperand(), s->getValueOperand(), widthOf(s->getValueOperand()->getType()), s);
        } else if (auto *cb = dyn_cast<CallBase>(I)) {
            Function *cf = directCallee(cb);
            if (cf && cf->isIntrinsic() && (cf->getIntrinsicID() == Intrinsic::lifetime_start || cf->getIntrinsicID() == Intrinsic::lifetime_end)) continue;
            if (useMem) memCall(ps, cb);
        }
        if (tracked(I->getType())) {
            redefine(ps.env, I);
            AV a;
            unsigned lw = widthOf(I->getType());
            auto *l = dyn_cast<LoadInst>(I);
            MK k{nullptr, 0, nullptr, false};
            MemE *me = nullptr;
            if (useMem && l && !l->isVolatile()) {
                k = memKey(l->getPointerOperand(), ps.env);
                if (k.ok) for (auto &e : ps.env.mem) if (e.base == k.base && e.off == k.off && e.idx == k.idx && e.w == lw) { me = &e; break; }
            }
            if (assumeVal && assumeVal(I, ps, a)) {
                ps.env.set(I, a);
            } else if (me && me->val && me->val != I) {
                ps.env.erase(I);
                const Value *r = ps.env.root(me->val);
                auto &rp = ps.env.rep;
                rp.insert(std::lower_bound(rp.begin(), rp.end(), std::make_pair((const Value *)I, (const Value *)nullptr)), {I, r});
            } else {
                a = me ? me->a : transfer(I, ps.env);
                if (k.ok) {
                    if (me) me->val = I;
                    else { ps.env.mem.push_back({k.base, k.off, k.idx, lw, md.fidOf(l), a, I}); memSort(ps.env.mem); }
                }
                if (a.isTop(lw)) ps.env.erase(I); else ps.env.set(I, a);
            }
        }
        if (onAfter && !onAfter(I, ps, *this)) return true;
        if (stop) return false;
    }
    const Instruction *T = bb->getTerminator();
    if (auto *r = dyn_cast<ReturnInst>(T)) { if (onRet) onRet(r, ps, *this); return !stop; }
    auto go = [&](const BasicBlock *to, PState &&n) { phiEdge(bb, to, n); out.push_back({to, std::move(n)}); };
    if (forceTerm == T) {
        ps.path = std::make_shared<Step>(Step{bb, ps.path, T, "forced"});
        if (auto *fb = dyn_cast<BranchInst>(T)) { PState n = ps; if (refine(n.env, fb->getCondition(), AV::cst(forceIdx == 0 ? 1 : 0, 1))) ps = std::move(n); }
        else if (auto *fs = dyn_cast<SwitchInst>(T)) for (auto &cs : fs->cases()) if (cs.getSuccessorIndex() == forceIdx) { PState n = ps; unsigned w = widthOf(fs->getCondition()->getType()); if (refine(n.env, fs->getCondition(), AV::cst(cs.getCaseValue()->getZExtValue() & AV::mask(w), w))) ps = std::move(n); break; }
        go(T->getSuccessor(forceIdx), std::move(ps));
        return true;
    }
    if (auto *b = dyn_cast<BranchInst>(T)) {
        if (b->isUnconditional()) { go(b->getSuccessor(0), std::move(ps)); return true; }
        for (int i = 0; i < 2; i++) {
            PState n = ps;
            if (!refine(n.env, b->getCondition(), AV::cst(i == 0 ? 1 : 0, 1))) continue;
            n.path = std::make_shared<Step>(Step{bb, ps.path, T, i == 0 ? "T" : "F"});
            go(b->getSuccessor(i), std::move(n));
        }
        return true;
    }
    if (auto *s = dyn_cast<SwitchInst>(T)) {
        AV c = eval(s->getCondition(), ps.env);
        unsigned w = widthOf(s->getCondition()->getType());
        bool decided = false;
        for (auto &cs : s->cases()) {
            uint64_t k = cs.getCaseValue()->getZExtValue() & AV::mask(w);
            if (!c.contains(k)) continue;
            PState n = ps;
            if (!refine(n.env, s->getCondition(), AV::cst(k, w))) continue;
            n.path = std::make_shared<Step>(Step{bb, ps.path, T, "case " + std::to_string(k)});
            go(cs.getCaseSuccessor(), std::move(n));
            if (c.isConst()) decided = true;
        }
        if (!decided) {
            PState n = ps;
            n.path = std::make_shared<Step>(Step{bb, ps.path, T, "default"});
            go(s->getDefaultDest(), std::move(n));
        }
        return true;
    }
    return true; // unreachable etc.
}
void Explorer::run(PState init, const BasicBlock *startBB, const Instruction *startAfter)
{
    if (!backReady) {
        DominatorTree DT(F);
        for (auto &B : F) for (const BasicBlock *S : successors(&B)) if (DT.isReachableFromEntry(&B) && DT.dominates(S, &B)) { backEdges.insert({&B, S}); loopHeads.insert(S); }
        backReady = true;
    }
    std::deque<std::pair<const BasicBlock *, PState>> work;
    std::unordered_map<const BasicBlock *, std::unordered_map<size_t, std::vector<std::pair<Env, int>>>> seen;
    std::unordered_map<const BasicBlock *, unsigned> cnt;
    std::vector<std::pair<const BasicBlock *, PState>> out;
    bool first = true;
    work.push_back({startBB ? startBB : &F.getEntryBlock(), std::move(init)});
    while (!work.empty() && !stop) {
        auto cur = std::move(work.back()); // depth first
        work.pop_back();
        if (++steps > maxSteps) { overflow = true; return; }
        out.clear();
        if (!execBlock(cur.first, std::move(cur.second), first ? startAfter : nullptr, out)) return;
        first = false;
        for (auto &o : out) {
            auto &li = liveIn[o.first];
            auto &ev = o.second.env.v;
            auto &rp = o.second.env.rep;
            rp.erase(std::remove_if(rp.begin(), rp.end(), [&](auto &p) { return !li.count(p.first); }), rp.end());
            auto &me = o.second.env.mem;
            auto &ml = memLive[o.first];
            me.erase(std::remove_if(me.begin(), me.end(), [&](MemE &e) { return !ml.count({e.off, 0}); }), me.end());
            std::unordered_set<const Value *> need;
            for (auto &p : rp) need.insert(p.second);
            for (auto &e : me) need.insert(e.base);
            for (auto &e : me) if (e.val && !li.count(e.val) && !need.count(e.val)) e.val = nullptr;
            me.erase(std::remove_if(me.begin(), me.end(), [&](MemE &e) { return !e.val && e.a.isTop(e.w); }), me.end());
            for (auto &e : me) if (e.val) need.insert(e.val);
            ev.erase(std::remove_if(ev.begin(), ev.end(), [&](auto &p) { return !li.count(p.first) && !need.count(p.first) && !(keepArgs && isa<Argument>(p.first)); }), ev.end());
            size_t h = o.second.env.hash() * 31 + o.second.st;
            auto &bucket = seen[o.first][h];
            bool dup = false;
            for (auto &p : bucket) if (p.second == o.second.st && p.first == o.second.env) { dup = true; break; }
            if (dup) continue;
            if (cnt[o.first] >= maxStatesPerBlock) { overflow = true; continue; }
            cnt[o.first]++;
            bucket.push_back({o.second.env, o.second.st});
            statesSeen++;
            work.push_back(std::move(o));
        }
    }
}
std::string Explorer::pathText(const StepP &p, unsigned maxn) const
{
    std::vector<std::string> v;
    for (StepP s = p; s && v.size() < 400; s = s->prev) {
        const Instruction *T = s->note;
        const DebugLoc &dl = T->getDebugLoc();
        if (!dl) continue;
        std::string l = md.loc(T);
        size_t sl = l.rfind('/');
        if (sl != std::string::npos) l = l.substr(sl + 1);
        v.push_back(l + "=" + s->txt);
    }
    std::reverse(v.begin(), v.end());
    std::string r;
    size_t start = v.size() > maxn ? v.size() - maxn : 0;
    if (start) r = "... ";
    for (size_t i = start; i < v.size(); i++) r += (i > start ? " " : "") + v[i];
    return r;
}
// ---------------- transforms ----------------
unsigned instrCount(const Function &F) { unsigned n = 0; for (auto &B : F) for (auto &I : B) if (!isDbg(&I)) n++; return n; }
struct PM {
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM; PassBuilder PB;
    FunctionPassManager FPM;
    PM() {
        PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
        PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
        FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
        FPM.addPass(EarlyCSEPass(false));
    }
};
static PM &pm() { static PM p; return p; }
void cleanup(Function &F)
{
    removeUnreachableBlocks(F);
    PM &p = pm();
    p.FAM.clear();
    p.FPM.run(F, p.FAM);
    p.FAM.clear();
    removeUnreachableBlocks(F);
}
Function *cloneAndInline(Mod &md, Function *root, const InlineOpts &o, std::string &err)
{
    md.fidCache.clear(); // keyed by address: an earlier clone may have lived there
    ValueToValueMapTy vm;
    Function *F = CloneFunction(root, vm);
    md.srcName[F] = md.nameOf(root);
    md.srcFile[F] = md.fileOf(root);
    // iterative inlining, tracking the inline stack per call site
    struct WI { CallBase *cb; std::vector<Function *> stack; };
    std::vector<WI> work;
    auto resolveCall = [&](CallBase *cb, const std::vector<Function *> &stack) {
        Function *c = directCallee(cb);
        if (c) { if (!c->isIntrinsic()) work.push_back({cb, stack}); return; }
        std::string n = md.calleeName(cb);
        if (n.size() < 2 || n[0] != '*') return;
        auto it = o.resolve.find(n.substr(1));
        if (it == o.resolve.end()) return;
        std::vector<Function *> ts;
        for (auto &s : it->second) {
            if (s == "@all") { auto f = md.fieldFns.find(n.substr(1)); if (f != md.fieldFns.end()) for (auto *x : f->second) if (!x->isDeclaration()) ts.push_back(x); }
            else if (Function *f = md.get(s)) ts.push_back(f);
        }
        std::vector<Function *> ok;
        for (auto *t : ts) if (t->getFunctionType()->getNumParams() == cb->arg_size() && t->getReturnType() == cb->getType()) ok.push_back(t);
        if (ok.empty()) return;
        // chain of nondeterministic choices, last alternative unconditional
        for (size_t i = 0; i + 1 < ok.size(); i++) {
            IRBuilder<> B(cb);
            AllocaInst *nd = new AllocaInst(B.getInt1Ty(), 0, "hsa.nd", &*F->getEntryBlock().getFirstInsertionPt());
            LoadInst *ld = B.CreateLoad(B.getInt1Ty(), nd, true, "hsa.choice");
            Instruction *tt, *ft;
            SplitBlockAndInsertIfThenElse(ld, cb, &tt, &ft);
            CallBase *c1 = cast<CallBase>(cb->clone());
            c1->insertBefore(tt);
            c1->setCalledOperand(ok[i]);
            CallBase *c2 = cast<CallBase>(cb->clone());
            c2->insertBefore(ft);
            if (!cb->getType()->isVoidTy()) {
                PHINode *ph = PHINode::Create(cb->getType(), 2, "", cb->getParent()->getFirstNonPHI());
                ph->addIncoming(c1, tt->getParent());
                ph->addIncoming(c2, ft->getParent());
                cb->replaceAllUsesWith(ph);
            }
            cb->eraseFromParent();
            work.push_back({c1, stack});
            cb = c2;
        }
        cb->setCalledOperand(ok.back());
        work.push_back({cb, stack});
    };
    std::vector<CallBase *> initCalls;
    for (Instruction &I : instructions(*F)) if (auto *cb = dyn_cast<CallBase>(&I)) initCalls.push_back(cb);
    for (auto *cb : initCalls) resolveCall(cb, {root});
    unsigned size = instrCount(*F);
    while (!work.empty()) {
        WI wi = work.back();
        work.pop_back();
        Function *c = directCallee(wi.cb);
        if (!c || c->isDeclaration() || c->isVarArg()) continue;
        if (std::find(wi.stack.begin(), wi.stack.end(), c) != wi.stack.end()) continue;
        if (wi.stack.size() >= o.maxDepth) continue;
        if (!o.want(c)) continue;
        unsigned cs = instrCount(*c);
        if (size + cs > o.maxInstrs) { err = "inline budget exceeded in " + md.nameOf(root); continue; }
        if (c->getFunctionType() != wi.cb->getFunctionType()) continue;
        InlineFunctionInfo IFI;
        IFI.InlinedCalls.clear();
        // remember calls of the inlined body
        auto r = InlineFunction(*wi.cb, IFI, false, nullptr, false);
        if (!r.isSuccess()) continue;
        size += cs;
        auto st = wi.stack;
        st.push_back(c);
        SmallVector<CallBase *, 8> ics(IFI.InlinedCallSites.begin(), IFI.InlinedCallSites.end());
        for (auto *cb : ics) if (!directCallee(cb) || !directCallee(cb)->isIntrinsic()) resolveCall(cb, st);
    }
    cleanup(*F);
    return F;
}
bool derives(const Value *v, const std::function<bool(const Value *)> &pred, unsigned budget)
{
    std::vector<const Value *> w{v};
    std::unordered_set<const Value *> seen;
    while (!w.empty() && seen.size() < budget) {
        const Value *x = w.back(); w.pop_back();
        if (!seen.insert(x).second) continue;
        if (pred(x)) return true;
        if (auto *l = dyn_cast<LoadInst>(x)) {
            w.push_back(l->getPointerOperand());
            // through stores to the same alloca
            const Value *b = l->getPointerOperand()->stripPointerCasts();
            if (isa<AllocaInst>(b)) for (auto *u : b->users()) if (auto *s = dyn_cast<StoreInst>(u)) if (s->getPointerOperand() == b) w.push_back(s->getValueOperand());
            continue;
        }
        if (isa<CallBase>(x)) continue;
        if (auto *u = dyn_cast<User>(x)) if (!isa<GlobalValue>(x) && !isa<AllocaInst>(x)) for (auto &op : u->operands()) w.push_back(op.get());
    }
    return false;
}
int64_t constFromJSON(const Mod &md, const json::Value &v, bool &ok)
{
    ok = true;
    if (auto i = v.getAsInteger()) return *i;
    if (auto s = v.getAsString()) {
        auto it = md.enums.find(s->str());
        if (it != md.enums.end()) return it->second;
        long long x;
        if (!s->getAsInteger(0, x)) return x;
    }
    ok = false;
    return 0;
}
// value spec: integer | enum name | "nonzero" | "any" | {"lo":..,"hi":..}
bool avFromJSON(const Mod &md, const json::Value *v, unsigned w, AV &out)
{
    if (!v) return false;
    if (auto s = v->getAsString()) {
        if (*s == "nonzero") { out = AV::nonzero(w); return true; }
        if (*s == "any") { out = AV::top(w); return true; }
        if (*s == "neg") { out = AV::range((AV::mask(w) >> 1) + 1, AV::mask(w)); return true; }
        if (*s == "maxm1") { out = AV::cst(AV::mask(w) - 1, w); return true; }
        if (*s == "max") { out = AV::cst(AV::mask(w), w); return true; }
    }
    if (auto *o = v->getAsObject()) {
        bool ok1 = true, ok2 = true;
        uint64_t lo = 0, hi = AV::mask(w);
        if (auto *l = o->get("lo")) lo = (uint64_t)constFromJSON(md, *l, ok1) & AV::mask(w);
        if (auto *h = o->get("hi")) hi = (uint64_t)constFromJSON(md, *h, ok2) & AV::mask(w);
        out = AV::range(lo, hi);
        return ok1 && ok2;
    }
    bool ok;
    int64_t c = constFromJSON(md, *v, ok);
    if (!ok) return false;
    out = AV::cst((uint64_t)c, w);
    return true;
}
} // namespace hsa
