// irdump: link the bitcode of a harness + the real sources it includes, normalise it
// (inline everything that is not kept, promote memory to SSA), and print it as JSON for llvc.py.
//
//   irdump IN.bc OUT.json --root f ... --keep g ... --replace real=stub ...
#include "llvm/ADT/MapVector.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/IPO/GlobalDCE.h"
#include "llvm/Transforms/InstCombine/InstCombine.h"
#include "llvm/Transforms/Scalar/DCE.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/SCCP.h"
#include "llvm/Transforms/Scalar/ADCE.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/Utils/LoopSimplify.h"
#include "llvm/Transforms/Utils/LCSSA.h"
#include "llvm/Transforms/Scalar/Reg2Mem.h"
#include "llvm/Demangle/Demangle.h"
#include <set>
using namespace llvm;

static const DataLayout *DL;
static DenseMap<const Value *, unsigned> ids;

static json::Value tyJ(Type *t) {
    if (t->isVoidTy()) return "void";
    if (t->isPointerTy()) return "ptr";
    if (t->isFloatTy()) return "float";
    if (t->isDoubleTy()) return "double";
    if (t->isX86_FP80Ty()) return "x86_fp80";
    if (t->isFP128Ty()) return "fp128";
    if (t->isIntegerTy()) return "i" + std::to_string(t->getIntegerBitWidth());
    if (auto *v = dyn_cast<FixedVectorType>(t)) return json::Array{"v", (int64_t)v->getNumElements(), tyJ(v->getElementType())};
    if (auto *a = dyn_cast<ArrayType>(t))
        return json::Array{"a", (int64_t)a->getNumElements(), tyJ(a->getElementType()), (int64_t)DL->getTypeAllocSize(a->getElementType()).getFixedValue()};
    if (auto *s = dyn_cast<StructType>(t)) {
        if (s->isOpaque()) return "opaque";
        json::Array el, off;
        auto *sl = DL->getStructLayout(s);
        for (unsigned i = 0; i < s->getNumElements(); i++) { el.push_back(tyJ(s->getElementType(i))); off.push_back((int64_t)sl->getElementOffset(i).getFixedValue()); }
        return json::Array{"s", std::move(el), std::move(off), (int64_t)sl->getSizeInBytes().getFixedValue()};
    }
    if (t->isMetadataTy()) return "metadata";
    if (t->isLabelTy()) return "label";
    return "unknown";
}

static json::Value valJ(const Value *v);

static std::string apS(const APInt &a) { SmallString<40> s; a.toStringUnsigned(s); return s.str().str(); }

static json::Value constJ(const Constant *c) {
    Type *t = c->getType();
    if (isa<UndefValue>(c)) return json::Array{"u", tyJ(t)};
    if (auto *ci = dyn_cast<ConstantInt>(c)) return json::Array{"i", (int64_t)ci->getBitWidth(), apS(ci->getValue())};
    if (auto *cf = dyn_cast<ConstantFP>(c)) return json::Array{"f", tyJ(t), apS(cf->getValueAPF().bitcastToAPInt())};
    if (isa<ConstantPointerNull>(c)) return json::Array{"n"};
    if (auto *f = dyn_cast<Function>(c)) return json::Array{"fn", f->getName().str()};
    if (auto *g = dyn_cast<GlobalVariable>(c)) return json::Array{"g", g->getName().str(), 0};
    if (auto *al = dyn_cast<GlobalAlias>(c)) return valJ(al->getAliasee());
    if (isa<ConstantAggregateZero>(c)) return json::Array{"z", tyJ(t)};
    if (isa<ConstantAggregate>(c) || isa<ConstantDataSequential>(c)) {
        json::Array el;
        unsigned n = 0;
        if (auto *cds = dyn_cast<ConstantDataSequential>(c)) n = cds->getNumElements(); else n = c->getNumOperands();
        for (unsigned i = 0; i < n; i++) el.push_back(constJ(c->getAggregateElement(i)));
        return json::Array{"agg", tyJ(t), std::move(el)};
    }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
        if (ce->getOpcode() == Instruction::GetElementPtr) {
            APInt off(64, 0);
            if (cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) return json::Array{"off", valJ(ce->getOperand(0)), off.getSExtValue()};
        }
        if (ce->getOpcode() == Instruction::PtrToInt || ce->getOpcode() == Instruction::IntToPtr || ce->getOpcode() == Instruction::BitCast) {
            return json::Array{"cast", tyJ(t), valJ(ce->getOperand(0))};
        }
        json::Array ops;
        for (auto &o : ce->operands()) ops.push_back(valJ(o.get()));
        return json::Array{"ce", ce->getOpcodeName(), tyJ(t), std::move(ops)};
    }
    return json::Array{"?", "const"};
}

static json::Value valJ(const Value *v) {
    if (auto *c = dyn_cast<Constant>(v)) return constJ(c);
    if (auto *m = dyn_cast<MetadataAsValue>(v)) return json::Array{"md"};
    if (auto *bb = dyn_cast<BasicBlock>(v)) return json::Array{"b", (int64_t)ids[bb]};
    return json::Array{"l", (int64_t)ids[v]};
}

static json::Value funcJ(Function &F) {
    json::Object o;
    o["name"] = F.getName().str();
    o["ret"] = tyJ(F.getReturnType());
    ids.clear();
    unsigned n = 0;
    json::Array args;
    for (auto &a : F.args()) {
        ids[&a] = n;
        json::Object ao{{"id", (int64_t)n}, {"t", tyJ(a.getType())}};
        if (a.hasStructRetAttr()) ao["sret"] = (int64_t)DL->getTypeAllocSize(a.getParamStructRetType());
        if (a.hasByValAttr()) ao["byval"] = (int64_t)DL->getTypeAllocSize(a.getParamByValType());
        args.push_back(std::move(ao)); n++;
    }
    o["args"] = std::move(args);
    unsigned b = 0;
    for (auto &bb : F) ids[&bb] = b++;
    for (auto &I : instructions(F)) ids[&I] = n++;
    json::Array blocks;
    for (auto &bb : F) {
        json::Array ins;
        for (auto &I : bb) {
            if (isa<DbgInfoIntrinsic>(I)) continue;
            json::Object io;
            io["op"] = I.getOpcodeName();
            io["id"] = (int64_t)ids[&I];
            io["t"] = tyJ(I.getType());
            if (auto &d = I.getDebugLoc()) {
                std::string s;
                auto *sc = d->getScope();
                s = (sc->getFilename() + ":" + Twine(d.getLine())).str();
                if (auto *sp = dyn_cast_or_null<DISubprogram>(d->getInlinedAtScope() ? cast<DILocalScope>(d->getScope())->getSubprogram() : nullptr)) s += " in " + sp->getName().str();
                io["d"] = s;
            }
            if (auto *p = dyn_cast<PHINode>(&I)) {
                json::Array in;
                for (unsigned i = 0; i < p->getNumIncomingValues(); i++)
                    in.push_back(json::Array{(int64_t)ids[p->getIncomingBlock(i)], valJ(p->getIncomingValue(i))});
                io["in"] = std::move(in);
            } else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
                MapVector<Value *, APInt> var; APInt co(64, 0);
                if (g->getType()->isVectorTy() || !cast<GEPOperator>(g)->collectOffset(*DL, 64, var, co)) { io["op"] = "unsupported-gep"; }
                json::Array vs;
                for (auto &kv : var) vs.push_back(json::Array{valJ(kv.first), tyJ(kv.first->getType()), kv.second.getSExtValue()});
                io["base"] = valJ(g->getPointerOperand());
                io["c"] = co.getSExtValue();
                io["vars"] = std::move(vs);
            } else if (auto *c = dyn_cast<CallBase>(&I)) {
                json::Array ops;
                for (auto &a : c->args()) ops.push_back(valJ(a.get()));
                io["a"] = std::move(ops);
                json::Array ats;
                for (auto &a : c->args()) ats.push_back(tyJ(a->getType()));
                io["at"] = std::move(ats);
                io["op"] = "call";
                if (auto *ia = dyn_cast<InlineAsm>(c->getCalledOperand())) io["asm"] = ia->getAsmString();
                else io["callee"] = valJ(c->getCalledOperand()->stripPointerCasts());
                if (c->doesNotReturn()) io["noreturn"] = true;
            } else {
                json::Array ops;
                for (auto &a : I.operands()) ops.push_back(valJ(a.get()));
                io["a"] = std::move(ops);
                if (I.getNumOperands()) io["t0"] = tyJ(I.getOperand(0)->getType());
                if (auto *cm = dyn_cast<CmpInst>(&I)) io["pred"] = CmpInst::getPredicateName(cm->getPredicate()).str();
                if (auto *al = dyn_cast<AllocaInst>(&I)) { io["size"] = (int64_t)DL->getTypeAllocSize(al->getAllocatedType()); io["cnt"] = valJ(al->getArraySize()); }
                if (auto *st = dyn_cast<StoreInst>(&I)) { io["vt"] = tyJ(st->getValueOperand()->getType()); }
                if (auto *ev = dyn_cast<ExtractValueInst>(&I)) { json::Array ix; for (auto i : ev->indices()) ix.push_back((int64_t)i); io["ix"] = std::move(ix); }
                if (auto *iv = dyn_cast<InsertValueInst>(&I)) { json::Array ix; for (auto i : iv->indices()) ix.push_back((int64_t)i); io["ix"] = std::move(ix); }
                if (auto *sv = dyn_cast<ShuffleVectorInst>(&I)) { json::Array ix; for (auto i : sv->getShuffleMask()) ix.push_back((int64_t)i); io["ix"] = std::move(ix); }
                if (auto *ob = dyn_cast<OverflowingBinaryOperator>(&I)) { if (ob->hasNoSignedWrap()) io["nsw"] = true; if (ob->hasNoUnsignedWrap()) io["nuw"] = true; }
                if (auto *pe = dyn_cast<PossiblyExactOperator>(&I)) { if (pe->isExact()) io["exact"] = true; }
            }
            ins.push_back(std::move(io));
        }
        blocks.push_back(std::move(ins));
    }
    o["blocks"] = std::move(blocks);
    // loops
    DominatorTree DT(F); LoopInfo LI(DT);
    json::Array loops;
    for (auto *L : LI.getLoopsInPreorder()) {
        json::Array bl, la;
        for (auto *bb : L->blocks()) bl.push_back((int64_t)ids[bb]);
        SmallVector<BasicBlock *, 4> lat; L->getLoopLatches(lat);
        for (auto *bb : lat) la.push_back((int64_t)ids[bb]);
        std::string where;
        if (auto d = L->getStartLoc()) where = (cast<DIScope>(d.getScope())->getFilename() + ":" + Twine(d.getLine())).str();
        loops.push_back(json::Object{{"h", (int64_t)ids[L->getHeader()]}, {"blocks", std::move(bl)}, {"latches", std::move(la)}, {"depth", (int64_t)L->getLoopDepth()}, {"where", where},
             {"parent", L->getParentLoop() ? (int64_t)ids[L->getParentLoop()->getHeader()] : (int64_t)-1}});
    }
    o["loops"] = std::move(loops);
    return json::Value(std::move(o));
}

int main(int argc, char **argv) {
    LLVMContext ctx; SMDiagnostic err;
    auto M = parseIRFile(argv[1], err, ctx);
    if (!M) { err.print(argv[0], errs()); return 2; }
    DL = &M->getDataLayout();
    std::set<std::string> roots, keep;
    std::vector<std::pair<std::string, std::string>> repl;
    bool noinst = false;
    for (int i = 3; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--root") roots.insert(argv[++i]);
        else if (a == "--keep") keep.insert(argv[++i]);
        else if (a == "--noinstcombine") noinst = true;
        else if (a == "--replace") { std::string s = argv[++i]; auto p = s.rfind('='); repl.push_back({s.substr(0, p), s.substr(p + 1)}); }
    }
    // functions may be named by mangled name or by a prefix of the demangled name ("ns::f(")
    auto find = [&](const std::string &n) -> Function * {
        if (auto *F = M->getFunction(n)) return F;
        for (auto &F : *M) { auto d = llvm::demangle(F.getName().str()); if (d.compare(0, n.size(), n) == 0) return &F; }
        return nullptr;
    };
    { std::set<std::string> k2; for (auto &k : keep) if (auto *F = find(k)) k2.insert(F->getName().str()); keep = k2; }
    for (auto &[real, stub] : repl) {
        auto *R = find(real), *S = M->getFunction(stub);
        if (!S) { errs() << "irdump: no stub " << stub << "\n"; return 3; }
        if (!R) { errs() << "irdump: note: contract target " << real << " not referenced\n"; continue; }
        if (R->getFunctionType() != S->getFunctionType()) { errs() << "irdump: contract stub type mismatch for " << real << "\n"; return 3; }
        R->replaceUsesWithIf(S, [&](Use &U) { auto *I = dyn_cast<Instruction>(U.getUser()); return !(I && I->getFunction() == S); });
    }
    for (auto &F : *M) {
        if (F.isDeclaration()) continue;
        F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::OptimizeNone); F.removeFnAttr(Attribute::OptimizeForSize);
        F.removeFnAttr("target-features"); F.removeFnAttr("target-cpu"); F.removeFnAttr("tune-cpu"); F.removeFnAttr("min-legal-vector-width");
        F.removeFnAttr(Attribute::StackProtectStrong);
        F.setComdat(nullptr);
        std::string nm = F.getName().str();
        if (roots.count(nm)) { F.setLinkage(GlobalValue::ExternalLinkage); F.removeFnAttr(Attribute::AlwaysInline); }
        else {
            F.setLinkage(GlobalValue::InternalLinkage); F.setVisibility(GlobalValue::DefaultVisibility); F.setDLLStorageClass(GlobalValue::DefaultStorageClass);
            if (keep.count(nm)) { F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline); }
            else F.addFnAttr(Attribute::AlwaysInline);
        }
        for (auto &I : instructions(F)) if (auto *cb = dyn_cast<CallBase>(&I)) {
            cb->removeFnAttr(Attribute::NoInline);
        }
    }
    // functions of the code under verification reachable from the roots (for the evidence)
    json::Array covered;
    {   std::set<Function *> seen; std::vector<Function *> wl;
        for (auto &F : *M) if (roots.count(F.getName().str())) { seen.insert(&F); wl.push_back(&F); }
        while (!wl.empty()) {
            auto *F = wl.back(); wl.pop_back();
            if (auto *sp = F->getSubprogram()) {
                std::string fn = sp->getFilename().str(), dir = sp->getDirectory().str();
                if (fn.find("/repo/") != std::string::npos) covered.push_back((sp->getScope() ? sp->getScope()->getName() + "::" : Twine("")).str() + sp->getName().str() + " (" + fn.substr(fn.find("/repo/") + 6) + ")");
            }
            for (auto &I : instructions(*F)) for (auto &o : I.operands()) if (auto *g = dyn_cast<Function>(o.get()->stripPointerCasts())) if (!g->isDeclaration() && seen.insert(g).second) wl.push_back(g);
        }
    }
    // drop llvm.used / global ctors that keep unrelated things alive
    for (auto n : {"llvm.used", "llvm.compiler.used", "llvm.global_ctors", "llvm.global_dtors"})
        if (auto *g = M->getGlobalVariable(n)) g->eraseFromParent();
    for (auto &g : M->globals()) if (!g.isDeclaration()) { g.setComdat(nullptr); g.setLinkage(GlobalValue::InternalLinkage); g.setVisibility(GlobalValue::DefaultVisibility); }
    std::vector<GlobalAlias *> als; for (auto &a : M->aliases()) als.push_back(&a);
    for (auto *a : als) { a->replaceAllUsesWith(a->getAliasee()); a->eraseFromParent(); }

    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PassBuilder PB;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    MPM.addPass(GlobalDCEPass());
    {   FunctionPassManager FPM; FPM.addPass(SROAPass(SROAOptions::ModifyCFG)); FPM.addPass(SimplifyCFGPass(SimplifyCFGOptions().convertSwitchRangeToICmp(false)));
        MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM))); }
    MPM.addPass(AlwaysInlinerPass(false));
    MPM.addPass(GlobalDCEPass());
    FunctionPassManager FPM;
    FPM.addPass(SROAPass(SROAOptions::ModifyCFG));
    FPM.addPass(EarlyCSEPass(true));
    FPM.addPass(SimplifyCFGPass());
    if (!noinst) FPM.addPass(InstCombinePass());
    FPM.addPass(SROAPass(SROAOptions::ModifyCFG));
    FPM.addPass(SCCPPass());
    FPM.addPass(SimplifyCFGPass());
    FPM.addPass(EarlyCSEPass(true));
    if (!noinst) FPM.addPass(InstCombinePass());
    FPM.addPass(SimplifyCFGPass());
    FPM.addPass(ADCEPass());
    FPM.addPass(LoopSimplifyPass());
    MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
    MPM.addPass(GlobalDCEPass());
    MPM.run(*M, MAM);

    json::Object out;
    json::Array fs, gs, decl;
    for (auto &F : *M) { if (F.isDeclaration()) decl.push_back(F.getName().str()); else fs.push_back(funcJ(F)); }
    ids.clear();
    for (auto &g : M->globals()) {
        json::Object o{{"name", g.getName().str()}, {"size", (int64_t)DL->getTypeAllocSize(g.getValueType()).getFixedValue()}, {"const", g.isConstant()}, {"t", tyJ(g.getValueType())}};
        if (g.hasInitializer()) o["init"] = constJ(g.getInitializer());
        gs.push_back(std::move(o));
    }
    out["functions"] = std::move(fs); out["globals"] = std::move(gs); out["decls"] = std::move(decl); out["covered"] = std::move(covered);
    std::error_code ec; raw_fd_ostream os(argv[2], ec);
    os << json::Value(std::move(out)) << "\n";
    if (std::getenv("IRDUMP_LL")) { std::error_code e2; raw_fd_ostream o2(std::getenv("IRDUMP_LL"), e2); M->print(o2, nullptr); }
    return 0;
}
