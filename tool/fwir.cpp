// fwir: links the LLVM IR of the translation units under analysis, drops the
// bodies of functions that the analysis treats as events, canonicalises the
// rest with semantics-preserving scalar passes and prints the module as JSON
// for the abstract interpreter in ../fw.
//
//   fwir OUT.json --opaque REGEXFILE --keep REGEXFILE --entry NAME... -- IN.ll...
#include <llvm/Analysis/InlineCost.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/TargetParser/Triple.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <llvm/Analysis/TargetLibraryInfo.h>
#include <llvm/Transforms/Utils/Evaluator.h>
#include <fstream>
#include <map>
#include <regex>
#include <set>
#include <string>
#include <vector>

using namespace llvm;

static std::vector<std::regex> loadRegexes(const std::string& f) {
    std::vector<std::regex> r;
    std::ifstream in(f);
    std::string line;
    while (std::getline(in, line)) {
        if (line.empty() || line[0] == '#') continue;
        r.emplace_back(line, std::regex::ECMAScript | std::regex::optimize);
    }
    return r;
}
static bool matches(const std::vector<std::regex>& rs, const std::string& s) {
    for (auto& r : rs) if (std::regex_search(s, r)) return true;
    return false;
}

// "std::vector::emplace_back(freewebrtc::stun::RawAttr const&)": the demangled name
// without return type, template arguments, trailing qualifiers and ABI tags.
static std::string stripTemplates(const std::string& d) {
    std::string o;
    int depth = 0;
    for (size_t i = 0; i < d.size(); ++i) {
        if (depth == 0 && d.compare(i, 8, "operator") == 0 && (i == 0 || !(isalnum(d[i - 1]) || d[i - 1] == '_'))) {
            static const char* ops[] = {"<=>", "<<=", ">>=", "->*", "<<", ">>", "<=", ">=", "->", "<", ">"};
            o += "operator"; i += 8;
            for (auto* op : ops) { size_t n = strlen(op); if (d.compare(i, n, op) == 0) { o += op; i += n; break; } }
            --i; continue;
        }
        char c = d[i];
        if (c == '<') { ++depth; continue; }
        if (c == '>' && depth && !(i && d[i - 1] == '-')) { --depth; continue; }
        if (!depth) o += c;
    }
    size_t p;
    while ((p = o.find("[abi:")) != std::string::npos) o.erase(p, o.find(']', p) - p + 1);
    return o;
}
static std::string simpleName(const std::string& dem) {
    std::string s = stripTemplates(dem);
    if (dem.rfind("vtable for", 0) == 0) return s;
    // find the parameter list: last top-level (...) group not part of "(anonymous namespace)" / operator()
    int depth = 0; size_t open = std::string::npos;
    for (size_t i = s.size(); i-- > 0;) {
        if (s[i] == ')') ++depth;
        else if (s[i] == '(') { if (--depth == 0) { open = i; break; } }
    }
    std::string head = open == std::string::npos ? s : s.substr(0, open), tail = open == std::string::npos ? "" : s.substr(open);
    // drop the return type: last space at depth 0 before the name (operator names may contain spaces)
    size_t opn = head.find("operator");
    size_t lim = opn == std::string::npos ? head.size() : opn;
    depth = 0; size_t cut = std::string::npos;
    for (size_t i = 0; i < lim; ++i) {
        if (head[i] == '(' || head[i] == '{') ++depth; else if (head[i] == ')' || head[i] == '}') --depth;
        else if (head[i] == ' ' && !depth) cut = i;
    }
    if (cut != std::string::npos) head = head.substr(cut + 1);
    return head + tail;
}

static const DataLayout* DL;
static std::map<const Value*, int> ids;

static json::Value tyJson(Type* t) {
    if (t->isIntegerTy()) return json::Value((int64_t)t->getIntegerBitWidth());
    if (t->isPointerTy()) return json::Value("p");
    if (t->isVoidTy()) return json::Value("v");
    if (t->isFloatTy()) return json::Value("f32");
    if (t->isDoubleTy()) return json::Value("f64");
    if (auto* st = dyn_cast<StructType>(t)) {
        json::Array a;
        for (auto* e : st->elements()) a.push_back(tyJson(e));
        return json::Array{"S", std::move(a)};
    }
    if (auto* at = dyn_cast<ArrayType>(t))
        return json::Array{"A", tyJson(at->getElementType()), (int64_t)at->getNumElements()};
    if (auto* vt = dyn_cast<FixedVectorType>(t))
        return json::Array{"V", tyJson(vt->getElementType()), (int64_t)vt->getNumElements()};
    std::string s; raw_string_ostream os(s); t->print(os);
    return json::Array{"?", s};
}

static json::Value valJson(const Value* v);

static json::Value constJson(const Constant* c) {
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
        SmallString<40> s; ci->getValue().toString(s, 10, false);
        return json::Array{"c", (int64_t)ci->getBitWidth(), s.str().str()};
    }
    if (isa<ConstantPointerNull>(c)) return json::Array{"c", 64, "0"};
    if (isa<UndefValue>(c)) return json::Array{"u", tyJson(c->getType())};
    if (auto* gv = dyn_cast<GlobalValue>(c)) return json::Array{"g", gv->getName().str(), 0};
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        if (ce->getOpcode() == Instruction::GetElementPtr) {
            APInt off(64, 0);
            const Value* b = ce->stripAndAccumulateConstantOffsets(*DL, off, true);
            if (auto* gv = dyn_cast<GlobalValue>(b)) return json::Array{"g", gv->getName().str(), (int64_t)off.getSExtValue()};
        }
        json::Array ops;
        for (auto& o : ce->operands()) ops.push_back(valJson(o.get()));
        return json::Array{"ce", std::string(ce->getOpcodeName()), tyJson(ce->getType()), std::move(ops)};
    }
    if (isa<ConstantAggregateZero>(c)) return json::Array{"z", tyJson(c->getType())};
    if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
        json::Array ops;
        for (auto& o : ca->operands()) ops.push_back(valJson(o.get()));
        return json::Array{"agg", std::move(ops)};
    }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
        json::Array ops;
        for (unsigned i = 0; i < cd->getNumElements(); ++i) ops.push_back(constJson(cd->getElementAsConstant(i)));
        return json::Array{"agg", std::move(ops)};
    }
    if (auto* cf = dyn_cast<ConstantFP>(c)) {
        SmallString<40> s; cf->getValueAPF().bitcastToAPInt().toString(s, 10, false);
        return json::Array{"c", (int64_t)cf->getType()->getPrimitiveSizeInBits(), s.str().str()};
    }
    std::string s; raw_string_ostream os(s); c->print(os);
    return json::Array{"?", s};
}
static json::Value valJson(const Value* v) {
    if (auto* c = dyn_cast<Constant>(v)) return constJson(c);
    auto it = ids.find(v);
    if (it != ids.end()) return json::Array{"r", it->second};
    if (isa<MetadataAsValue>(v)) return json::Array{"m"};
    if (auto* ia = dyn_cast<InlineAsm>(v)) return json::Array{"asm", ia->getAsmString()};
    return json::Array{"?", "val"};
}

// an internal global that no instruction of the program writes or lets escape
static bool onlyRead(const Value* v, unsigned depth = 0) {
    if (depth > 8) return false;
    for (const User* u : v->users()) {
        if (isa<LoadInst>(u)) continue;
        if (isa<GEPOperator>(u)) { if (!onlyRead(u, depth + 1)) return false; continue; }
        return false;
    }
    return true;
}
static void initBytes(const Constant* c, uint64_t off, std::string& bytes, json::Array& relocs) {
    uint64_t sz = DL->getTypeAllocSize(c->getType());
    if (isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) return;
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
        APInt v = ci->getValue().zextOrTrunc(sz * 8);
        for (uint64_t i = 0; i < sz; ++i) bytes[off + i] = (char)v.extractBitsAsZExtValue(8, i * 8);
        return;
    }
    if (auto* cf = dyn_cast<ConstantFP>(c)) {
        APInt v = cf->getValueAPF().bitcastToAPInt();
        for (uint64_t i = 0; i < sz && i * 8 < v.getBitWidth(); ++i) bytes[off + i] = (char)v.extractBitsAsZExtValue(8, i * 8);
        return;
    }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
        uint64_t es = DL->getTypeAllocSize(cd->getElementType());
        for (unsigned i = 0; i < cd->getNumElements(); ++i) initBytes(cd->getElementAsConstant(i), off + i * es, bytes, relocs);
        return;
    }
    if (auto* st = dyn_cast<ConstantStruct>(c)) {
        auto* sl = DL->getStructLayout(st->getType());
        for (unsigned i = 0; i < st->getNumOperands(); ++i) initBytes(st->getOperand(i), off + sl->getElementOffset(i), bytes, relocs);
        return;
    }
    if (auto* ca = dyn_cast<ConstantArray>(c)) {
        uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType());
        for (unsigned i = 0; i < ca->getNumOperands(); ++i) initBytes(ca->getOperand(i), off + i * es, bytes, relocs);
        return;
    }
    relocs.push_back(json::Array{(int64_t)off, valJson(c)});
}

int main(int argc, char** argv) {
    std::string out = argv[1];
    std::vector<std::regex> opaque, keep;
    std::set<std::string> entries;
    std::vector<std::string> ins;
    bool rest = false;
    for (int i = 2; i < argc; ++i) {
        std::string a = argv[i];
        if (rest) { ins.push_back(a); continue; }
        if (a == "--opaque") opaque = loadRegexes(argv[++i]);
        else if (a == "--keep") keep = loadRegexes(argv[++i]);
        else if (a == "--entry") entries.insert(argv[++i]);
        else if (a == "--") rest = true;
    }
    LLVMContext ctx;
    std::unique_ptr<Module> M;
    for (auto& f : ins) {
        SMDiagnostic err;
        auto m = parseIRFile(f, err, ctx);
        if (!m) { err.print("fwir", errs()); return 2; }
        if (!M) { M = std::move(m); continue; }
        if (Linker::linkModules(*M, std::move(m))) { errs() << "link failed " << f << "\n"; return 2; }
    }
    DL = &M->getDataLayout();
    if (entries.empty()) {
        for (auto& F : *M) if (!F.isDeclaration() && F.getName().starts_with("fw_e_")) entries.insert(F.getName().str());
    }
    {
        std::vector<GlobalAlias*> as;
        for (auto& A : M->aliases()) as.push_back(&A);
        for (auto* A : as) { auto* t = A->getAliaseeObject(); if (!t || entries.count(A->getName().str())) continue; A->replaceAllUsesWith(t); A->eraseFromParent(); }
    }
    std::map<std::string, std::string> dem, sim;
    for (auto& F : *M) { auto n = F.getName().str(); dem[n] = demangle(n); sim[n] = simpleName(dem[n]); }
    int stripped = 0;
    for (auto& F : *M) {
        if (F.isDeclaration()) continue;
        if (entries.count(F.getName().str())) continue;
        const auto& d = sim[F.getName().str()];
        if (matches(opaque, d)) { F.deleteBody(); F.setComdat(nullptr); ++stripped; }
    }
    for (auto& F : *M) {
        F.removeFnAttr(Attribute::OptimizeNone);
        if (F.isDeclaration()) continue;
        F.removeFnAttr(Attribute::NoInline);
        F.removeFnAttr(Attribute::AlwaysInline);
        if (!entries.count(F.getName().str()) && matches(keep, sim[F.getName().str()])) F.addFnAttr(Attribute::NoInline);
        if (entries.count(F.getName().str())) F.addFnAttr(Attribute::NoInline);
        if (F.hasLinkOnceLinkage() || F.hasWeakLinkage() || F.hasAvailableExternallyLinkage()) { F.setLinkage(GlobalValue::ExternalLinkage); F.setComdat(nullptr); }
    }
    {
        LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
        PipelineTuningOptions pto;
        pto.LoopUnrolling = false; pto.LoopVectorization = false; pto.SLPVectorization = false; pto.LoopInterleaving = false;
        PassBuilder PB(nullptr, pto);
        PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
        PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
        ModulePassManager MPM;
        MPM.addPass(InternalizePass([&](const GlobalValue& gv) { return entries.count(gv.getName().str()) != 0; }));
        MPM.addPass(GlobalDCEPass());
        const char* pipe = "function(sroa<modify-cfg>,early-cse,simplifycfg,instsimplify),"
                           "cgscc(inline,function(sroa<modify-cfg>,early-cse,instcombine<no-verify-fixpoint>,simplifycfg)),"
                           "function(sroa<modify-cfg>,early-cse,instcombine<no-verify-fixpoint>,simplifycfg,loop-simplify,instcombine<no-verify-fixpoint>,simplifycfg),globaldce";
        if (auto e = PB.parsePassPipeline(MPM, pipe)) { errs() << toString(std::move(e)) << "\n"; return 2; }
        MPM.run(*M, MAM);
    }
    // Static initialisers that evaluate to constants become initial values; what the others may
    // write is not constant.
    std::set<const GlobalVariable*> dynInit;
    if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (gc->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
        TargetLibraryInfoImpl tlii(Triple(M->getTargetTriple())); TargetLibraryInfo tli(tlii);
        std::vector<Function*> units;
        for (auto& op : ca->operands()) {
            auto* f = dyn_cast<Function>(cast<ConstantStruct>(op)->getOperand(1)->stripPointerCasts());
            if (!f || f->isDeclaration()) continue;
            bool flat = f->size() == 1; std::vector<Function*> cs;
            if (flat) for (auto& I : f->front()) {
                if (auto* c = dyn_cast<CallBase>(&I)) { if (c->getCalledFunction() && !c->getCalledFunction()->isDeclaration() && c->arg_empty()) { cs.push_back(c->getCalledFunction()); continue; } flat = false; }
                else if (!isa<ReturnInst>(I)) flat = false;
            }
            if (flat) units.insert(units.end(), cs.begin(), cs.end()); else units.push_back(f);
        }
        for (auto* f : units) {
            Evaluator ev(*DL, &tli); Constant* rv = nullptr;
            if (ev.EvaluateFunction(f, rv, SmallVector<Constant*, 0>())) {
                for (const auto& p : ev.getMutatedInitializers()) p.first->setInitializer(p.second);
                continue;
            }
            if (getenv("FWIR_DEBUG")) errs() << "not evaluated: " << f->getName() << "\n" << *f;
            std::set<const Value*> seen; std::vector<const Value*> work{f};
            while (!work.empty()) {
                auto* v = work.back(); work.pop_back();
                if (!seen.insert(v).second) continue;
                if (auto* g = dyn_cast<GlobalVariable>(v)) { dynInit.insert(g); continue; }
                if (auto* fn = dyn_cast<Function>(v)) { for (auto& I : instructions(*fn)) for (auto& o : I.operands()) if (isa<Constant>(o)) work.push_back(o); continue; }
                if (auto* u = dyn_cast<User>(v)) for (auto& o : u->operands()) work.push_back(o);
            }
        }
    }
    if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) gc->eraseFromParent();
    {
        ModuleAnalysisManager MAM; PassBuilder PB; PB.registerModuleAnalyses(MAM);
        ModulePassManager MPM; MPM.addPass(GlobalDCEPass()); MPM.run(*M, MAM);
    }
    if (verifyModule(*M, &errs())) return 2;
    if (getenv("FWIR_LL")) { std::error_code ec; raw_fd_ostream os(getenv("FWIR_LL"), ec); M->print(os, nullptr); }
    json::Object root;
    json::Object globals;
    for (auto& g : M->globals()) {
        json::Object o;
        o["size"] = (int64_t)DL->getTypeAllocSize(g.getValueType());
        o["const"] = g.isConstant() || (g.hasLocalLinkage() && g.hasInitializer() && !dynInit.count(&g) && onlyRead(&g));
        o["dem"] = demangle(g.getName().str());
        if (g.hasInitializer()) {
            std::string bytes((size_t)DL->getTypeAllocSize(g.getValueType()), '\0');
            json::Array rel;
            initBytes(g.getInitializer(), 0, bytes, rel);
            std::string hex;
            static const char* H = "0123456789abcdef";
            for (unsigned char b : bytes) { hex += H[b >> 4]; hex += H[b & 15]; }
            o["init"] = hex;
            o["rel"] = std::move(rel);
        }
        globals[g.getName()] = std::move(o);
    }
    root["globals"] = std::move(globals);
    json::Object funcs;
    for (auto& F : *M) {
        json::Object fo;
        fo["dem"] = demangle(F.getName().str());
        fo["sim"] = simpleName(demangle(F.getName().str()));
        json::Array args;
        ids.clear();
        int n = 0;
        for (auto& a : F.args()) {
            ids[&a] = n++;
            json::Object ao;
            ao["ty"] = tyJson(a.getType());
            if (a.hasStructRetAttr()) ao["sret"] = (int64_t)DL->getTypeAllocSize(a.getParamStructRetType());
            if (a.hasByValAttr()) ao["byval"] = (int64_t)DL->getTypeAllocSize(a.getParamByValType());
            if (auto n = a.getDereferenceableBytes()) ao["deref"] = (int64_t)(a.getParamAlign() ? alignTo(n, *a.getParamAlign()) : n);
            if (a.hasAttribute(Attribute::NonNull) || a.getDereferenceableBytes()) ao["nonnull"] = true;
            if (a.onlyReadsMemory()) ao["ro"] = true;
            ao["name"] = a.getName().str();
            args.push_back(std::move(ao));
        }
        fo["args"] = std::move(args);
        fo["ret"] = tyJson(F.getReturnType());
        // the bytes known of a reference leave out tail padding: they are counted up to the alignment
        if (auto n = F.getAttributes().getRetDereferenceableBytes()) { auto A = F.getAttributes().getRetAlignment(); fo["rderef"] = (int64_t)(A ? alignTo(n, *A) : n); }
        if (auto* sp = F.getSubprogram()) { fo["file"] = sp->getFilename().str(); fo["line"] = (int64_t)sp->getLine(); }
        fo["noreturn"] = F.doesNotReturn();
        fo["mem"] = F.doesNotAccessMemory() ? "none" : F.onlyReadsMemory() ? "read" : "any";
        if (!F.isDeclaration()) {
            std::map<const BasicBlock*, int> bbs;
            int bn = 0;
            for (auto& bb : F) bbs[&bb] = bn++;
            for (auto& bb : F) for (auto& I : bb) if (!I.getType()->isVoidTy()) ids[&I] = n++;
            json::Array blocks;
            for (auto& bb : F) {
                json::Array instrs;
                for (auto& I : bb) {
                    if (isa<DbgInfoIntrinsic>(&I)) continue;
                    if (auto* ii = dyn_cast<IntrinsicInst>(&I)) {
                        auto id = ii->getIntrinsicID();
                        if (id == Intrinsic::experimental_noalias_scope_decl) continue;
                    }
                    json::Object io;
                    io["o"] = std::string(I.getOpcodeName());
                    if (!I.getType()->isVoidTy()) { io["d"] = ids[&I]; io["t"] = tyJson(I.getType()); }
                    if (auto dl = I.getDebugLoc()) {
                        io["l"] = (dl->getFilename() + ":" + std::to_string(dl.getLine())).str();
                        // nearest inlined-at frame inside the repository is resolved by the client
                        json::Array chain;
                        const DILocation* L = dl.get();
                        while (L) {
                            auto* sc = L->getScope()->getSubprogram();
                            chain.push_back((L->getFilename() + ":" + std::to_string(L->getLine()) + ":" + (sc ? sc->getName().str() : "")).str());
                            L = L->getInlinedAt();
                            if (chain.size() > 12) break;
                        }
                        io["lc"] = std::move(chain);
                    }
                    json::Array ops;
                    if (auto* p = dyn_cast<PHINode>(&I)) {
                        for (unsigned i = 0; i < p->getNumIncomingValues(); ++i)
                            ops.push_back(json::Array{bbs[p->getIncomingBlock(i)], valJson(p->getIncomingValue(i))});
                    } else if (auto* br = dyn_cast<BranchInst>(&I)) {
                        if (br->isConditional()) { ops.push_back(valJson(br->getCondition())); ops.push_back(bbs[br->getSuccessor(0)]); ops.push_back(bbs[br->getSuccessor(1)]); }
                        else ops.push_back(bbs[br->getSuccessor(0)]);
                    } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
                        ops.push_back(valJson(sw->getCondition()));
                        ops.push_back(bbs[sw->getDefaultDest()]);
                        for (auto& c : sw->cases()) {
                            ops.push_back(json::Array{constJson(c.getCaseValue()), bbs[c.getCaseSuccessor()]});
                        }
                    } else if (auto* cb = dyn_cast<CallBase>(&I)) {
                        io["f"] = valJson(cb->getCalledOperand());
                        json::Array aa;
                        for (unsigned i = 0; i < cb->arg_size(); ++i) {
                            ops.push_back(valJson(cb->getArgOperand(i)));
                            json::Object ao;
                            if (cb->paramHasAttr(i, Attribute::StructRet)) ao["sret"] = (int64_t)DL->getTypeAllocSize(cb->getParamStructRetType(i));
                            if (cb->paramHasAttr(i, Attribute::ByVal)) ao["byval"] = (int64_t)DL->getTypeAllocSize(cb->getParamByValType(i));
                            aa.push_back(std::move(ao));
                        }
                        io["aa"] = std::move(aa);
                        if (cb->doesNotReturn()) io["noret"] = true;
                    } else if (auto* ic = dyn_cast<ICmpInst>(&I)) {
                        io["p"] = ICmpInst::getPredicateName(ic->getPredicate()).str();
                        ops.push_back(valJson(ic->getOperand(0))); ops.push_back(valJson(ic->getOperand(1)));
                    } else if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
                        APInt off(64, 0);
                        MapVector<Value*, APInt> vo;
                        if (g->collectOffset(*DL, 64, vo, off)) {
                            ops.push_back(valJson(g->getPointerOperand()));
                            ops.push_back((int64_t)off.getSExtValue());
                            for (auto& kv : vo) ops.push_back(json::Array{valJson(kv.first), (int64_t)kv.second.getSExtValue()});
                        } else ops.push_back("?");
                    } else if (auto* a = dyn_cast<AllocaInst>(&I)) {
                        ops.push_back((int64_t)DL->getTypeAllocSize(a->getAllocatedType()));
                    } else if (auto* l = dyn_cast<LoadInst>(&I)) {
                        ops.push_back(valJson(l->getPointerOperand()));
                        ops.push_back((int64_t)DL->getTypeStoreSize(l->getType()));
                        ops.push_back((int64_t)l->getAlign().value());
                        if (auto* md = l->getMetadata(LLVMContext::MD_range)) if (md->getNumOperands() == 2) {
                            auto* lo = mdconst::extract<ConstantInt>(md->getOperand(0)); auto* hi = mdconst::extract<ConstantInt>(md->getOperand(1));
                            if (lo->getBitWidth() <= 32 && lo->getZExtValue() < hi->getZExtValue()) io["rng"] = json::Array{(int64_t)lo->getZExtValue(), (int64_t)hi->getZExtValue()};
                        }
                    } else if (auto* s = dyn_cast<StoreInst>(&I)) {
                        ops.push_back(valJson(s->getValueOperand()));
                        ops.push_back(valJson(s->getPointerOperand()));
                        ops.push_back((int64_t)DL->getTypeStoreSize(s->getValueOperand()->getType()));
                        io["t"] = tyJson(s->getValueOperand()->getType());
                    } else if (auto* ev = dyn_cast<ExtractValueInst>(&I)) {
                        ops.push_back(valJson(ev->getAggregateOperand()));
                        json::Array ix; for (auto i : ev->indices()) ix.push_back((int64_t)i);
                        ops.push_back(std::move(ix));
                    } else if (auto* iv = dyn_cast<InsertValueInst>(&I)) {
                        ops.push_back(valJson(iv->getAggregateOperand()));
                        ops.push_back(valJson(iv->getInsertedValueOperand()));
                        json::Array ix; for (auto i : iv->indices()) ix.push_back((int64_t)i);
                        ops.push_back(std::move(ix));
                    } else {
                        for (auto& o : I.operands()) ops.push_back(valJson(o.get()));
                        if (I.getNumOperands()) io["st"] = tyJson(I.getOperand(0)->getType());
                    }
                    io["a"] = std::move(ops);
                    instrs.push_back(std::move(io));
                }
                blocks.push_back(std::move(instrs));
            }
            fo["blocks"] = std::move(blocks);
        }
        funcs[F.getName()] = std::move(fo);
    }
    root["funcs"] = std::move(funcs);
    json::Array en; for (auto& e : entries) en.push_back(e);
    root["entries"] = std::move(en);
    root["stripped"] = stripped;
    std::error_code ec;
    raw_fd_ostream os(out, ec);
    os << json::Value(std::move(root));
    return 0;
}
