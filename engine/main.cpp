#include "core.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Bitcode/BitcodeReader.h"
#include "llvm/Bitcode/BitcodeWriter.h"
#include <fstream>
#include <chrono>
#include "llvm/Transforms/Utils/Cloning.h"
using namespace hsa;
// Functions that did not exist when the baselines were frozen (extracted helpers) are analysed as part of their callers.
static unsigned inlineNew(Module &M, const json::Object &names)
{
    std::set<std::string> known;
    for (const char *k : {"static", "known"}) if (auto *a = names.getArray(k)) for (auto &x : *a) if (auto s = x.getAsString()) known.insert(s->str());
    if (known.empty()) return 0;
    std::set<Function *> fresh;
    for (Function &F : M) {
        if (F.isDeclaration() || F.isVarArg()) continue;
        auto *sp = F.getSubprogram();
        std::string n = sp ? sp->getName().str() : F.getName().str();
        if (F.hasInternalLinkage() && !known.count(n)) fresh.insert(&F);
    }
    if (fresh.empty()) return 0;
    unsigned done = 0;
    std::set<Function *> changed;
    for (int round = 0; round < 6; round++) {
        std::vector<CallBase *> calls;
        for (Function *H : fresh) for (User *u : H->users()) if (auto *cb = dyn_cast<CallBase>(u)) if (directCallee(cb) == H && cb->getFunction() != H && cb->getFunctionType() == H->getFunctionType()) calls.push_back(cb);
        if (calls.empty()) break;
        std::set<Function *> leaf; // innermost first: helpers that call no other new function
        for (Function *H : fresh) { bool l = true; for (Instruction &I : instructions(*H)) if (auto *cb = dyn_cast<CallBase>(&I)) if (Function *c = directCallee(cb)) if (c != H && fresh.count(c)) l = false; if (l) leaf.insert(H); }
        unsigned before = done;
        for (CallBase *cb : calls) {
            if (!leaf.count(directCallee(cb))) continue;
            Function *F = cb->getFunction();
            InlineFunctionInfo IFI;
            if (InlineFunction(*cb, IFI, false, nullptr, false).isSuccess()) { changed.insert(F); done++; }
        }
        for (Function *H : leaf) if (H->use_empty()) { changed.erase(H); fresh.erase(H); H->eraseFromParent(); }
        if (done == before) break;
    }
    for (Function *F : changed) cleanup(*F);
    return done;
}
int main(int argc, char **argv)
{
    // hsa <bc-list> <spec.json> <result.json> [repo-root]
    if (argc == 4 && !strcmp(argv[1], "--tag")) { // development aid: one unit with its field tags written back
        LLVMContext c; SMDiagnostic d; auto m = parseIRFile(argv[2], d, c);
        if (!m) return 2;
        tagFields(*m);
        std::error_code ec; raw_fd_ostream os(argv[3], ec); WriteBitcodeToFile(*m, os);
        return 0;
    }
    if (argc < 4) { errs() << "usage: hsa bclist spec result [root]\n"; return 2; }
    if (argc > 4) setRoot(argv[4]);
    auto t0 = std::chrono::steady_clock::now();
    auto lap = [&](const char *w) { if (getenv("HSA_TIME")) errs() << w << " " << std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() << "\n"; };
    LLVMContext ctx;
    ctx.setDiscardValueNames(false);
    auto mod = std::make_unique<Module>("hsa", ctx);
    Linker lk(*mod);
    std::ifstream in(argv[1]);
    std::string line;
    unsigned units = 0;
    while (std::getline(in, line)) {
        if (line.empty()) continue;
        SMDiagnostic d;
        auto m = parseIRFile(line, d, ctx);
        if (!m) { errs() << "cannot read " << line << ": " << d.getMessage() << "\n"; return 2; }
        tagFields(*m);
        if (lk.linkInModule(std::move(m))) { errs() << "link failed: " << line << "\n"; return 2; }
        units++;
    }
    lap("linked");
    unsigned nf = 0, ni = 0;
    for (Function &F : *mod) if (!F.isDeclaration()) { F.removeFnAttr(Attribute::OptimizeNone); F.removeFnAttr(Attribute::NoInline); cleanup(F); nf++; ni += instrCount(F); }
    lap("cleaned");
    auto buf = MemoryBuffer::getFile(argv[2]);
    if (!buf) { errs() << "no spec\n"; return 2; }
    auto js = json::parse((*buf)->getBuffer());
    if (!js) { errs() << "bad spec json: " << toString(js.takeError()) << "\n"; return 2; }
    unsigned inl = 0;
    if (auto *o = js->getAsObject()->getObject("names")) inl = inlineNew(*mod, *o);
    Mod md;
    md.init(mod.get());
    lap("init");
    json::Object res;
    res["units"] = (int64_t)units;
    res["functions"] = (int64_t)nf;
    if (inl) res["inlined_new"] = (int64_t)inl;
    res["instructions"] = (int64_t)ni;
    runQueries(md, *js->getAsObject(), res);
    lap("queries");
    runAnalyses(md, *js->getAsObject(), res);
    lap("analyses");
    std::error_code ec;
    raw_fd_ostream os(argv[3], ec);
    os << json::Value(std::move(res)) << "\n";
    os.close();
    _Exit(0);
}
