// hsa: static analyser for openHiTLS. Core: module loading, field naming, abstract values,
// path-sensitive conditional-constant-propagation explorer.
#pragma once
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/ADT/BitVector.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <functional>
#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <memory>

namespace hsa {
using namespace llvm;

// ---------- abstract value: unsigned interval of a given width, minus {0} if nz ----------
struct AV {
    uint64_t lo = 0, hi = ~0ULL;
    bool nz = false;
    static uint64_t mask(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
    static AV top(unsigned w) { AV a; a.lo = 0; a.hi = mask(w); return a; }
    static AV cst(uint64_t v, unsigned w) { AV a; a.lo = a.hi = v & mask(w); a.nz = a.lo != 0; return a; }
    static AV range(uint64_t l, uint64_t h) { AV a; a.lo = l; a.hi = h; a.norm(); return a; }
    static AV nonzero(unsigned w) { AV a; a.lo = 1; a.hi = mask(w); a.nz = true; return a; }
    void norm() { if (lo > 0) nz = true; if (nz && lo == 0 && lo <= hi) lo = 1; }
    bool empty() const { return lo > hi; }
    bool isConst() const { return lo == hi; }
    bool isTop(unsigned w) const { return lo == 0 && hi == mask(w) && !nz; }
    bool contains(uint64_t v) const { return v >= lo && v <= hi && !(v == 0 && nz); }
    AV meet(const AV &o) const { AV r; r.lo = std::max(lo, o.lo); r.hi = std::min(hi, o.hi); r.nz = nz || o.nz; r.norm(); return r; }
    AV join(const AV &o) const { if (empty()) return o; if (o.empty()) return *this; AV r; r.lo = std::min(lo, o.lo); r.hi = std::max(hi, o.hi); r.nz = nz && o.nz; return r; }
    bool operator==(const AV &o) const { return lo == o.lo && hi == o.hi && nz == o.nz; }
    bool intersects(const AV &o) const { return !meet(o).empty(); }
    bool subsetOf(const AV &o) const { if (empty()) return true; return lo >= o.lo && hi <= o.hi && (!o.nz || nz || lo > 0); }
};
inline unsigned widthOf(Type *t) {
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy()) return 64;
    return 0;
}
inline bool tracked(Type *t) { unsigned w = widthOf(t); return w > 0 && w <= 64; }

// ---------- module wrapper ----------
struct Mod {
    Module *M = nullptr;
    std::unordered_map<std::string, std::vector<Function *>> byName; // source name -> defs
    std::unordered_map<const Function *, std::string> srcName, srcFile;
    std::map<std::string, DICompositeType *> structDI;
    std::map<std::string, int64_t> enums;
    std::unordered_map<const Function *, std::vector<Function *>> callees; // direct
    std::unordered_map<const Function *, std::vector<CallBase *>> callersOf;
    // struct.field -> functions stored there by constant initialisers or stores
    std::map<std::string, std::set<Function *>> fieldFns;
    std::map<std::string, std::vector<CallBase *>> indirectSites; // Struct.field -> calls through it
    std::map<std::string, std::set<Function *>> fieldLoads, fieldStores;
    std::set<const Function *> recur;
    std::map<std::string, int> fieldId;
    std::vector<std::string> fieldNames;
    int fid(const std::string &s);
    int fidOf(const Value *p) const;                       // interned field id of a pointer, -1 if none
    std::unordered_map<const Function *, BitVector> modSet; // fields a function may store to, transitively
    mutable std::unordered_map<const Value *, int> fidCache;
    void buildMods();
    bool recursive(const Function *f) const { return recur.count(f); }
    bool linked = false;
    void init(Module *m);
    void initTypes(Module *m);
    std::string fieldOfAcc(const Instruction *I) const; // field read or written by a load or store
    std::string nameOf(const Function *F) const;      // source name
    static std::string fileOfDI(const DIFile *f);
    std::string fileOf(const Function *F) const;      // path relative to the repository root
    Function *get(const std::string &n, const std::string &file = "") const;
    // "Struct.field" of a pointer-producing GEP (last struct step) or "" if none
    std::string fieldOfGEP(const GEPOperator *g) const;
    std::string fieldOfPtr(const Value *p) const;     // strips casts; follows GEP only
    std::string fieldName(StructType *st, unsigned idx) const;
    std::string loc(const Instruction *I) const;
    std::string locFn(const Function *F) const;
    std::string calleeName(const CallBase *cb) const; // source name, or "*Struct.field" for calls through a field, or ""
private:
    std::map<std::string, int> dummy;
    void scanInit(const Constant *c, const DIType *di, const std::string &ctxField, int depth = 0);
public:
    void buildCG();
    const DICompositeType *diOfStruct(StructType *st) const;
};
void tagFields(Module &m);
void setRoot(const std::string &r);
std::string funcOfLoc(const Instruction *I); // source function an (inlined) instruction came from
inline Function *directCallee(const CallBase *cb) { return dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts()); }
inline bool isDbg(const Instruction *I) { return isa<DbgInfoIntrinsic>(I); }

// ---------- explorer ----------
struct MemE {
    const Value *base; int64_t off; const Value *idx; unsigned w; int fid; AV a; const Value *val;
    bool operator==(const MemE &o) const { return base == o.base && off == o.off && idx == o.idx && w == o.w && a == o.a && val == o.val; }
};
struct Env {
    std::vector<MemE> mem; // known contents of struct fields / memory, keyed by (base value, constant offset)
    // sorted by key
    std::vector<std::pair<const Value *, AV>> v;
    std::vector<std::pair<const Value *, const Value *>> rep;           // load -> value it is known to equal
    const Value *root(const Value *x) const { for (auto &p : rep) if (p.first == x) return p.second; return x; }
    std::vector<std::pair<std::string, AV>> facts;                      // tracked field facts ("Struct.field")
    std::vector<std::pair<std::string, const Value *>> falias;          // field -> load that read it last
    const AV *getFact(const std::string &k) const { for (auto &p : facts) if (p.first == k) return &p.second; return nullptr; }
    void setFact(const std::string &k, const AV &a) { for (auto &p : facts) if (p.first == k) { p.second = a; return; } facts.push_back({k, a}); std::sort(facts.begin(), facts.end(), [](auto &x, auto &y) { return x.first < y.first; }); }
    void dropFact(const std::string &k) { for (size_t i = 0; i < facts.size(); i++) if (facts[i].first == k) { facts.erase(facts.begin() + i); break; } for (size_t i = 0; i < falias.size(); i++) if (falias[i].first == k) { falias.erase(falias.begin() + i); break; } }
    const AV *get(const Value *k) const;
    void set(const Value *k, const AV &a);
    void erase(const Value *k);
    bool operator==(const Env &o) const { return v == o.v && rep == o.rep && facts == o.facts && mem == o.mem; }
    size_t hash() const;
};
struct Step; // path node
typedef std::shared_ptr<Step> StepP;
struct Step { const BasicBlock *bb; StepP prev; const Instruction *note; std::string txt; };

struct PState { Env env; int st = 0; StepP path; };

struct Explorer {
    const Mod &md;
    Function &F;
    // hooks ------------------------------------------------------------
    // assumption about the value an instruction yields (call return / load); returns true if set
    std::function<bool(const Instruction *, PState &, AV &)> assumeVal;
    // called before an instruction is interpreted: may change ps.st; returns false to end the path here
    std::function<bool(const Instruction *, PState &, Explorer &)> onInst;
    // called on return instruction
    std::function<void(const ReturnInst *, PState &, Explorer &)> onRet;
    // after the instruction has been interpreted (value of call known)
    std::function<bool(const Instruction *, PState &, Explorer &)> onAfter;
    unsigned maxStatesPerBlock = 96;
    unsigned maxSteps = 400000;
    bool overflow = false;
    unsigned long steps = 0, statesSeen = 0;
    bool stop = false;
    bool keepArgs = false;
    bool useMem = true;
    const Instruction *forceTerm = nullptr; // this terminator only takes successor forceIdx, whatever its condition
    unsigned forceIdx = 0;
    bool hasMem(const LoadInst *l, const Env &e) const; // is the content of the location known on this path?
    AV constLoad(const LoadInst *l, const Env &e) const;
    // facts about the function that every exploration of it shares
    struct Shape {
        std::unordered_map<const BasicBlock *, std::unordered_set<const Value *>> liveIn;
        std::unordered_set<const BasicBlock *> loopHeads;
        std::set<std::pair<const BasicBlock *, const BasicBlock *>> backEdges;
        bool backReady = false;
        // load sites by (offset, field) still ahead of a block, used to drop useless memory facts
        std::unordered_map<const BasicBlock *, std::set<std::pair<int64_t, int>>> memLive;
    };
    // while one of these is alive, explorations of functions that do not change share their shapes
    struct Keep { Keep() { keep++; } ~Keep() { if (--keep == 0) shapes.clear(); } };
    static int keep;
    static std::unordered_map<const Function *, std::shared_ptr<Shape>> shapes;
private:
    std::shared_ptr<Shape> shape;
    std::unordered_map<const BasicBlock *, std::unordered_set<const Value *>> &liveIn;
    std::unordered_set<const BasicBlock *> &loopHeads;
    std::set<std::pair<const BasicBlock *, const BasicBlock *>> &backEdges;
    bool &backReady;
    std::unordered_map<const BasicBlock *, std::set<std::pair<int64_t, int>>> &memLive;
    static std::shared_ptr<Shape> shapeOf(const Function *f, bool &fresh)
    {
        fresh = true;
        if (!keep) return std::make_shared<Shape>();
        auto &s = shapes[f];
        if (s) fresh = false; else s = std::make_shared<Shape>();
        return s;
    }
    Explorer(const Mod &m, Function &f, std::shared_ptr<Shape> s, bool fresh) : md(m), F(f), shape(s), liveIn(s->liveIn), loopHeads(s->loopHeads), backEdges(s->backEdges), backReady(s->backReady), memLive(s->memLive) { if (fresh) prepare(); }
    struct Got { std::shared_ptr<Shape> s; bool fresh; Got(const Function *f) { s = shapeOf(f, fresh); } };
    Explorer(const Mod &m, Function &f, const Got &g) : Explorer(m, f, g.s, g.fresh) {}
public:
    Explorer(const Mod &m, Function &f) : Explorer(m, f, Got(&f)) {}
    AV eval(const Value *v, const Env &e) const;
    bool refine(Env &e, const Value *v, const AV &a, int depth = 0) const; // false = infeasible
    void run(PState init, const BasicBlock *startBB = nullptr, const Instruction *startAfter = nullptr);
    std::string pathText(const StepP &p, unsigned maxn = 40) const;
    static bool trackedAlloca(const AllocaInst *a);
private:
    bool backEdge(const BasicBlock *from, const BasicBlock *to) const;
    bool isBoolByte(const Value *v) const;
    AV pureEval(const Instruction *I, const Env &e, int depth) const;
    struct MK { const Value *base; int64_t off; const Value *idx; bool ok; };
    MK memKey(const Value *p, const Env &e) const;
    void memStore(PState &ps, const Value *p, const Value *v, unsigned w, const Instruction *si = nullptr) const;
    void memCall(PState &ps, const CallBase *cb) const;
    void redefine(Env &e, const Value *I) const;
    void prepare();
public:
    void setMem(PState &ps, const Value *ptr, const AV &a, unsigned w) const;
private:
    bool execBlock(const BasicBlock *bb, PState ps, const Instruction *startAfter, std::vector<std::pair<const BasicBlock *, PState>> &out);
    void phiEdge(const BasicBlock *from, const BasicBlock *to, PState &ps) const;
    AV transfer(const Instruction *I, const Env &e) const;
};
// inlining of a root for a query
struct InlineOpts {
    std::function<bool(Function *)> want; // inline this callee?
    unsigned maxInstrs = 60000;
    unsigned maxDepth = 14;
    std::map<std::string, std::vector<std::string>> resolve; // Struct.field -> functions
};
Function *cloneAndInline(Mod &md, Function *root, const InlineOpts &o, std::string &err);
void cleanup(Function &F);
bool literalArg(const CallBase *cb, unsigned i); // a flag argument written as a constant in the source
unsigned instrCount(const Function &F);
// does value v derive (through casts, GEPs, arithmetic, phi, select, loads of promoted memory) from a predicate-matching value
bool derives(const Value *v, const std::function<bool(const Value *)> &pred, unsigned budget = 400);
int64_t constFromJSON(const Mod &md, const json::Value &v, bool &ok);
bool avFromJSON(const Mod &md, const json::Value *v, unsigned w, AV &out);

// analyses
void lockAnalysis(Mod &md, const json::Object &o, json::Object &res);
void releaseAnalysis(Mod &md, const json::Object &o, json::Object &res, int jobs);
void uafAnalysis(Mod &md, const json::Object &o, json::Object &res, int jobs);
void parallelFor(size_t n, int jobs, const std::function<json::Value(size_t)> &fn, std::vector<json::Value> &out);
int runAnalyses(Mod &md, const json::Object &spec, json::Object &result);
void guardAnalysis(Mod &md, const json::Object &spec, json::Object &res);
std::set<unsigned> returnedArgs(const Mod &md, Function *f); // arguments a small function hands back as its result
bool statusFn(const Mod &md, const Function *F);
int runQueries(Mod &md, const json::Object &spec, json::Object &result);
} // namespace hsa
