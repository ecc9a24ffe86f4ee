// fweff: effects of one translation unit on memory that outlives a call and on the outside.
//
//   fweff IN.ll OUT.json ROOT...        (ROOT: directories whose code is the subject)
//
// The unit is optimised as a whole (so that wrappers and closures disappear), then for every
// instruction that belongs to code below a ROOT (innermost frame of its inlining chain):
//   - stores, atomics and calls that may write through a pointer derived from a mutable global,
//     except while that global is initialised;
//   - what the initialiser of a function-local static takes from the call it runs in;
//   - references to external functions and objects, directly or through library code.
#include <llvm/Analysis/CFG.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;

static std::vector<std::string> Roots;
static std::string fileOf(const DIFile* f) {
    if (!f) return "";
    std::string n = f->getFilename().str(), d = f->getDirectory().str();
    return !n.empty() && n[0] == '/' ? n : d + "/" + n;
}
static bool below(const std::string& f) {
    for (auto& r : Roots) if (f.compare(0, r.size(), r) == 0) return true;
    return false;
}
// innermost frame below a root: "file:line", and the function it belongs to
struct Frame { std::string loc, fn; };
static bool frame(const Instruction& I, Frame& f) {
    const DILocation* L = I.getDebugLoc().get();
    for (; L; L = L->getInlinedAt()) {
        std::string p = fileOf(L->getFile());
        if (below(p)) {
            f.loc = p + ":" + std::to_string(L->getLine());
            if (auto* sp = L->getScope()->getSubprogram()) f.fn = sp->getLinkageName().empty() ? sp->getName().str() : demangle(sp->getLinkageName().str());
            return true;
        }
    }
    if (auto* sp = I.getFunction()->getSubprogram()) {
        std::string p = fileOf(sp->getFile());
        if (below(p) && !I.getDebugLoc()) { f.loc = p + ":" + std::to_string(sp->getLine()); f.fn = demangle(I.getFunction()->getName().str()); return true; }
    }
    return false;
}
static bool isInit(const Function& F) {
    StringRef n = F.getName();
    return n.starts_with("_GLOBAL__") || n.starts_with("__cxx_global_var_init") || n.starts_with("__tls_init") || n.starts_with("_ZTH") || n.starts_with("__cxx_global_array_dtor") || F.getSection() == ".text.startup";
}
static bool isGuard(const GlobalVariable& G) { return G.getName().starts_with("_ZGV") || G.getName() == "__tls_guard"; }

// parameter list of a demangled signature, split at top level; whether the method is const
static bool signature(const std::string& d, std::vector<std::string>& ps, bool& cm, std::string& name) {
    int depth = 0; size_t e = d.rfind(')');
    if (e == std::string::npos) return false;
    cm = d.substr(e + 1).find("const") != std::string::npos;
    size_t i = e;
    for (;; --i) { if (d[i] == ')' || d[i] == '>') ++depth; if (d[i] == '(' || d[i] == '<') --depth; if (!depth) break; if (!i) return false; }
    name = d.substr(0, i);
    std::string cur; depth = 0;
    for (size_t k = i + 1; k < e; ++k) {
        char c = d[k];
        if (c == '<' || c == '(') ++depth;
        if (c == '>' || c == ')') --depth;
        if (c == ',' && !depth) { ps.push_back(cur); cur.clear(); ++k; continue; }
        cur += c;
    }
    if (!cur.empty()) ps.push_back(cur);
    return true;
}
static bool constParam(const std::string& p) { return p.find("const&") != std::string::npos || p.find("const*") != std::string::npos || (p.find('&') == std::string::npos && p.find('*') == std::string::npos); }

// may a call write through (memory reached from) its pointer argument?
static std::map<std::pair<const Function*, unsigned>, int> Wmemo;
static bool writesThrough(const Value* V, std::set<const Value*>& seen, int depth, const Instruction** where);
static bool callWrites(const CallBase& C, unsigned i, int depth) {
    if (C.onlyReadsMemory() || C.doesNotAccessMemory() || C.onlyReadsMemory(i) || C.doesNotAccessMemory(i)) return false;
    if (auto* II = dyn_cast<IntrinsicInst>(&C)) {
        switch (II->getIntrinsicID()) {
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memset: return i == 0;
        default: return false;
        }
    }
    const Function* F = C.getCalledFunction();
    if (!F) return false;       // a callable given by the caller
    if (!F->isDeclaration() && i < F->arg_size()) {
        auto k = std::make_pair(F, i);
        auto it = Wmemo.find(k);
        if (it != Wmemo.end()) return it->second;
        Wmemo[k] = 0;
        std::set<const Value*> seen; const Instruction* w = nullptr;
        bool r = writesThrough(F->getArg(i), seen, depth + 1, &w);
        return Wmemo[k] = r;
    }
    std::string d = demangle(F->getName().str());
    StringRef n = F->getName();
    if (n == "memcmp" || n == "strlen" || n == "bcmp" || n == "memchr" || n == "strcmp" || n == "__cxa_atexit" || n == "atexit" || n == "__cxa_guard_acquire" || n == "__cxa_guard_release" || n == "__assert_fail") return false;
    if (n == "memcpy" || n == "memmove" || n == "strcpy" || n == "memset") return i == 0;
    static const std::map<StringRef, std::vector<unsigned>> writers{
        {"snprintf", {0}}, {"vsnprintf", {0}}, {"sprintf", {0}}, {"vsprintf", {0}}, {"__snprintf_chk", {0}}, {"__sprintf_chk", {0}}, {"__memcpy_chk", {0}}, {"__memset_chk", {0}},
        {"strncpy", {0}}, {"strcat", {0}}, {"strncat", {0}}, {"stpcpy", {0}}, {"bzero", {0}}, {"explicit_bzero", {0}}, {"qsort", {0}}, {"strtok", {0}}, {"strtok_r", {0, 2}},
        {"strtol", {1}}, {"strtoul", {1}}, {"strtoll", {1}}, {"strtoull", {1}}, {"strtod", {1}}, {"inet_pton", {2}}, {"inet_ntop", {2}}, {"inet_aton", {1}},
        {"ERR_error_string_n", {1}}, {"ERR_error_string", {1}}, {"EVP_DigestInit", {0}}, {"EVP_DigestInit_ex", {0}}, {"EVP_DigestUpdate", {0}}, {"EVP_DigestFinal", {0, 1, 2}}, {"EVP_DigestFinal_ex", {0, 1, 2}},
        {"EVP_MD_CTX_reset", {0}}, {"EVP_MD_CTX_copy", {0}}, {"EVP_MD_CTX_copy_ex", {0}}, {"EVP_Digest", {2, 3}}, {"SHA1", {2}}, {"HMAC", {5, 6}}};
    if (auto wr = writers.find(n); wr != writers.end()) return std::find(wr->second.begin(), wr->second.end(), i) != wr->second.end();
    std::vector<std::string> ps; bool cm = false; std::string name;
    if (n.starts_with("_Z") && signature(d, ps, cm, name)) {
        bool sret = C.hasStructRetAttr();
        size_t np = ps.size() == 1 && ps[0] == "void" ? 0 : ps.size();
        size_t extra = C.arg_size() - (sret ? 1 : 0);
        bool method = extra == np + 1;
        int k = int(i) - (sret ? 1 : 0);
        if (k < 0) return true;
        if (method) { if (k == 0) return !cm; --k; }
        if (k < int(np)) return !constParam(ps[k]);
        return false;
    }
    return false;               // plain C functions: their effects are judged by name
}
// follows every pointer derived from V (arithmetic, loaded pointers, returned pointers)
static bool writesThrough(const Value* V, std::set<const Value*>& seen, int depth, const Instruction** where) {
    if (depth > 12 || !seen.insert(V).second) return false;
    for (const User* U : V->users()) {
        if (auto* S = dyn_cast<StoreInst>(U)) { if (S->getPointerOperand() == V) { *where = S; return true; } continue; }
        if (auto* A = dyn_cast<AtomicRMWInst>(U)) { if (A->getPointerOperand() == V) { *where = A; return true; } continue; }
        if (auto* A = dyn_cast<AtomicCmpXchgInst>(U)) { if (A->getPointerOperand() == V) { *where = A; return true; } continue; }
        if (auto* C = dyn_cast<CallBase>(U)) {
            for (unsigned i = 0; i < C->arg_size(); ++i)
                if (C->getArgOperand(i) == V && callWrites(*C, i, depth)) { *where = C; return true; }
            if (C->getType()->isPointerTy() && C->getCalledFunction() && (C->getCalledFunction()->isIntrinsic() || !C->getCalledFunction()->isDeclaration()) && writesThrough(C, seen, depth, where)) return true;
            continue;
        }
        if (auto* L = dyn_cast<LoadInst>(U)) { if (L->getType()->isPointerTy() && writesThrough(L, seen, depth, where)) return true; continue; }
        if (isa<GEPOperator>(U) || isa<BitCastOperator>(U) || isa<PHINode>(U) || isa<SelectInst>(U) || isa<ConstantExpr>(U) || isa<AddrSpaceCastInst>(U))
            if (writesThrough(cast<Value>(U), seen, depth, where)) return true;
    }
    return false;
}

int main(int argc, char** argv) {
    for (int i = 3; i < argc; ++i) { std::string r = argv[i]; if (r.back() != '/') r += '/'; Roots.push_back(r); }
    LLVMContext ctx; SMDiagnostic err;
    auto M = parseIRFile(argv[1], err, ctx);
    if (!M) { err.print("fweff", errs()); return 1; }
    for (auto& F : *M) {
        if (F.isDeclaration()) continue;
        if (F.hasLinkOnceODRLinkage() || F.hasWeakODRLinkage()) { F.setLinkage(GlobalValue::ExternalLinkage); F.setComdat(nullptr); }   // exact, and kept
        F.removeFnAttr(Attribute::OptimizeNone); 
        for (auto& BB : F) for (auto& I : BB) for (auto& op : I.operands())
            if (auto* G = dyn_cast<GlobalVariable>(op.get())) if (isGuard(*G)) { F.addFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::AlwaysInline); }
    }
    {
        LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
        PipelineTuningOptions PTO; PTO.LoopVectorization = false; PTO.SLPVectorization = false; PTO.LoopUnrolling = false; PTO.MergeFunctions = false;
        PassBuilder PB(nullptr, PTO);
        PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
        PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
        ModulePassManager MPM = PB.buildPerModuleDefaultPipeline(OptimizationLevel::O2);
        MPM.run(*M, MAM);
    }
    if (getenv("FWEFF_LL")) { std::error_code ec; raw_fd_ostream o(getenv("FWEFF_LL"), ec); M->print(o, nullptr); }

    // initialisation regions of function-local statics: blocks dominated by the edge on which the guard is still zero
    std::map<const BasicBlock*, const GlobalVariable*> region;
    for (auto& F : *M) {
        if (F.isDeclaration()) continue;
        std::unique_ptr<DominatorTree> DT;
        for (auto& BB : F) for (auto& I : BB) {
            auto* L = dyn_cast<LoadInst>(&I);
            auto* G = L ? dyn_cast<GlobalVariable>(L->getPointerOperand()->stripPointerCasts()) : nullptr;
            if (!G || !isGuard(*G)) continue;
            for (auto* U : L->users()) {
                auto* C = dyn_cast<ICmpInst>(U);
                std::vector<std::pair<const User*, bool>> brs;      // branch, whether true means "still zero"
                if (C && C->isEquality()) for (auto* B : C->users()) brs.push_back({B, C->getPredicate() == ICmpInst::ICMP_EQ});
                if (auto* T = dyn_cast<TruncInst>(U)) for (auto* B : T->users()) brs.push_back({B, false});
                if (L->getType()->isIntegerTy(1)) {
                    brs.push_back({U, false});
                    if (auto* X = dyn_cast<BinaryOperator>(U)) if (X->getOpcode() == Instruction::Xor) for (auto* B : X->users()) brs.push_back({B, true});
                }
                for (auto& [B, z] : brs) if (auto* Br = dyn_cast<BranchInst>(B)) if (Br->isConditional()) {
                    const BasicBlock* S = Br->getSuccessor(z ? 0 : 1);
                    if (S == Br->getSuccessor(z ? 1 : 0)) continue;
                    if (!DT) DT = std::make_unique<DominatorTree>(F);
                    BasicBlockEdge E(Br->getParent(), S);
                    for (auto& Q : F) if (DT->dominates(E, &Q)) region[&Q] = G;
                }
            }
        }
    }
    auto staticOf = [&](const GlobalVariable* guard) -> const GlobalVariable* {
        // _ZGV<name> guards _Z<name>
        return M->getNamedGlobal(("_Z" + guard->getName().drop_front(4)).str());
    };

    json::Array writes, inits, exts, globals;
    unsigned nf = 0, ni = 0;
    std::set<std::string> funcs;
    // ---- globals
    for (auto& G : M->globals()) {
        if (isGuard(G) || G.getName().starts_with("llvm.") || G.isConstant()) continue;
        std::string name = demangle(G.getName().str());
        std::set<const Value*> work{&G}, done; std::vector<std::pair<const Instruction*, const char*>> bad;
        std::vector<const Value*> st{&G};
        unsigned uses = 0;
        while (!st.empty()) {
            const Value* V = st.back(); st.pop_back();
            if (!done.insert(V).second) continue;
            for (const User* U : V->users()) {
                if (isa<Constant>(U) && !isa<GlobalValue>(U)) { st.push_back(U); continue; }
                auto* I = dyn_cast<Instruction>(U);
                if (!I) continue;
                const Function& F = *I->getFunction();
                if (isInit(F)) continue;
                auto it = region.find(I->getParent());
                if (it != region.end() && staticOf(it->second) == &G) continue;
                Frame f; bool mine = frame(*I, f); uses += mine;
                if (auto* S = dyn_cast<StoreInst>(I)) { if (S->getPointerOperand() == V) bad.push_back({I, "stores to it"}); }
                else if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) bad.push_back({I, "updates it"});
                else if (auto* C = dyn_cast<CallBase>(I)) {
                    for (unsigned i = 0; i < C->arg_size(); ++i) if (C->getArgOperand(i) == V && callWrites(*C, i, 0)) bad.push_back({I, "hands it to code that writes to it"});
                    if (C->getType()->isPointerTy() && C->getCalledFunction() && (C->getCalledFunction()->isIntrinsic() || !C->getCalledFunction()->isDeclaration())) st.push_back(C);
                }
                else if (auto* L = dyn_cast<LoadInst>(I)) { if (L->getType()->isPointerTy()) st.push_back(L); }
                else if (isa<ReturnInst>(I)) { for (auto* FU : F.users()) if (auto* C = dyn_cast<CallBase>(FU)) if (C->getCalledFunction() == &F) st.push_back(C); }
                else if (isa<GetElementPtrInst>(I) || isa<BitCastInst>(I) || isa<PHINode>(I) || isa<SelectInst>(I)) st.push_back(I);
            }
        }
        globals.push_back(json::Object{{"name", name}, {"external", G.isDeclaration()}, {"uses", (int64_t)uses}});
        for (auto& [I, what] : bad) {
            Frame f;
            if (!frame(*I, f)) continue;
            writes.push_back(json::Object{{"global", name}, {"tls", G.isThreadLocal()}, {"external", G.isDeclaration()}, {"what", what}, {"loc", f.loc}, {"fn", f.fn.empty() ? demangle(I->getFunction()->getName().str()) : f.fn}});
        }
    }
    // ---- what initialisers of local statics take from the call
    for (auto& [BB, G] : region) {
        for (auto& I : *BB) {
            for (auto& op : I.operands()) {
                const Value* V = op.get();
                if (isa<PHINode>(I)) continue;
                std::set<const Value*> seen; std::vector<const Value*> st{V}; const Value* bad = nullptr;
                while (!st.empty() && !bad) {
                    const Value* X = st.back(); st.pop_back();
                    if (!seen.insert(X).second) continue;
                    if (auto* A = dyn_cast<Argument>(X)) { if (!A->hasStructRetAttr()) bad = X; continue; }
                    auto* XI = dyn_cast<Instruction>(X);
                    if (!XI) continue;
                    auto it = region.find(XI->getParent());
                    if (it != region.end() && it->second == G) continue;
                    if (isa<AllocaInst>(XI)) continue;
                    if (isa<LoadInst>(XI) || isa<CallBase>(XI)) { bad = X; continue; }
                    for (auto& o : XI->operands()) st.push_back(o.get());
                }
                if (bad) {
                    Frame f;
                    if (!frame(I, f)) continue;
                    const GlobalVariable* SG = staticOf(G);
                    inits.push_back(json::Object{{"global", SG ? demangle(SG->getName().str()) : G->getName().str()}, {"loc", f.loc}, {"fn", f.fn}});
                }
            }
        }
    }
    // ---- references to what lies outside
    std::map<const Function*, std::set<std::string>> reach; std::set<const Function*> busy;
    auto extName = [](const GlobalValue* G) { return demangle(G->getName().str()); };
    std::map<const Function*, std::set<std::string>> direct; std::map<const Function*, std::set<const Function*>> calls;
    for (auto& F : *M) for (auto& I : instructions(F)) {
        std::vector<const Value*> st; std::set<const Value*> seen;
        for (auto& op : I.operands()) st.push_back(op.get());
        while (!st.empty()) {
            const Value* V = st.back(); st.pop_back();
            if (!isa<Constant>(V) || !seen.insert(V).second) continue;
            if (auto* G = dyn_cast<GlobalValue>(V)) {
                if (auto* H = dyn_cast<Function>(G)) { if (H->isIntrinsic()) continue; if (H->isDeclaration()) direct[&F].insert(extName(H)); else calls[&F].insert(H); }
                else if (G->isDeclaration()) direct[&F].insert(extName(G));
                continue;
            }
            for (auto& o : cast<Constant>(V)->operands()) st.push_back(o.get());
        }
    }
    auto mine = [](const Function* F) { auto* sp = F->getSubprogram(); return sp && below(fileOf(sp->getFile())); };
    for (auto& F : *M) {
        if (F.isDeclaration() || isInit(F)) continue;
        bool any = false;
        for (auto& I : instructions(F)) {
            Frame f;
            if (!frame(I, f)) continue;
            any = true; ++ni; if (!f.fn.empty()) funcs.insert(f.fn);
            std::vector<const Value*> st; std::set<const Value*> seen; std::set<std::string> names; std::set<const Function*> fs;
            for (auto& op : I.operands()) st.push_back(op.get());
            while (!st.empty()) {
                const Value* V = st.back(); st.pop_back();
                if (!isa<Constant>(V) || !seen.insert(V).second) continue;
                if (auto* G = dyn_cast<GlobalValue>(V)) {
                    if (auto* H = dyn_cast<Function>(G)) {
                        if (H->isIntrinsic()) continue;
                        if (H->isDeclaration()) names.insert(extName(H));
                        else if (!mine(H)) {                       // library code: everything it reaches
                            std::vector<const Function*> w{H}; std::set<const Function*> d;
                            while (!w.empty()) {
                                auto* X = w.back(); w.pop_back();
                                if (!d.insert(X).second || mine(X)) continue;
                                for (auto& n : direct[X]) names.insert(n);
                                for (auto* c : calls[X]) w.push_back(c);
                            }
                        }
                    } else if (G->isDeclaration()) names.insert(extName(G));
                    continue;
                }
                for (auto& o : cast<Constant>(V)->operands()) st.push_back(o.get());
            }
            for (auto& n : names) exts.push_back(json::Object{{"name", n}, {"loc", f.loc}, {"fn", f.fn.empty() ? demangle(F.getName().str()) : f.fn}});
        }
        nf += any;
    }
    json::Array fl; for (auto& f : funcs) fl.push_back(f);
    std::error_code ec; raw_fd_ostream out(argv[2], ec);
    out << json::Value(json::Object{{"functions", std::move(fl)}, {"instructions", (int64_t)ni}, {"globals", std::move(globals)}, {"writes", std::move(writes)}, {"inits", std::move(inits)}, {"externals", std::move(exts)}});
    return 0;
}
