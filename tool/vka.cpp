// vka: prepares a contract module and reports the proof obligations that the
// compiler's dataflow analyses could not discharge.
//
// Input: unoptimised LLVM bitcode of one contract translation unit.
//   VK__<name>      contract functions (roots)
//   vk_fail(t, l)   obligation failure; must be unreachable
//   vk_reach(t, l)  reachability witness; must stay reachable
#include <llvm/Transforms/Utils/Cloning.h>
#include <llvm/IR/PatternMatch.h>
#include <llvm/Analysis/AliasAnalysis.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Analysis/ScalarEvolution.h>
#include <llvm/Analysis/ScalarEvolutionExpressions.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/PassManager.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/OptimizationLevel.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/CommandLine.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include "absint.hpp"
#include <set>
#include <map>
#include <functional>
#include <chrono>
#include <poll.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace llvm;

static cl::opt<std::string> InFile(cl::Positional, cl::Required);
static cl::opt<std::string> OutFile("o", cl::init("-"));
static cl::opt<std::string> DumpLL("dump", cl::init(""));
static cl::opt<std::string> Explain("explain", cl::init(""));
static cl::opt<std::string> Prefix("prefix", cl::init(""), cl::desc("analyse only contracts with this prefix"));
static cl::opt<unsigned> Shard("shard", cl::init(0)), Shards("shards", cl::init(1));
static cl::opt<unsigned> Jobs("j", cl::init(8));
static cl::opt<double> Limit("limit", cl::init(150), cl::desc("seconds per contract"));
static cl::list<std::string> Keep("keep", cl::desc("extra noinline substrings (demangled)"));

static bool failureIsFatal = false; // the contracts define abort(): an internal failure ends there
static bool isOpaqueName(const std::string &dem) {
    if(failureIsFatal && dem.find("::internal_failure(") != std::string::npos)
        return false;
    static const char *pats[] = {"::bootstrap_throw(", "::PyException::PyException(",
                                 "::internal_failure(", "vk_opaque"};
    for(auto p : pats)
        if(dem.find(p) != std::string::npos)
            return true;
    for(auto &k : Keep)
        if(dem.find(k) != std::string::npos)
            return true;
    return false;
}

static void fatalEnds(Module &M) {
    Function *A = M.getFunction("abort");
    failureIsFatal = A && !A->isDeclaration();
    if(!failureIsFatal)
        return;
    // an exception that leaves a noexcept function ends the program just the same
    for(auto *n : {"__clang_call_terminate", "_ZSt9terminatev"})
        if(Function *T = M.getFunction(n)) {
            T->deleteBody();
            T->setLinkage(GlobalValue::InternalLinkage);
            T->setComdat(nullptr);
            T->setDoesNotThrow();
            IRBuilder<> B(BasicBlock::Create(M.getContext(), "", T));
            B.CreateCall(A);
            B.CreateUnreachable();
            T->removeFnAttr(Attribute::NoInline);
        }
}

static void prepare(Module &M) {
    LLVMContext &C = M.getContext();
    auto inacc = MemoryEffects::inaccessibleMemOnly();
    for(Function &F : M) {
        if(F.getName() == "vk_fail" || F.getName() == "vk_stop") {
            F.addFnAttr(Attribute::NoReturn);
            F.addFnAttr(Attribute::NoUnwind);
            F.addFnAttr(Attribute::Cold);
            F.addFnAttr(Attribute::NoCallback);
            F.setMemoryEffects(inacc);
            F.addFnAttr(Attribute::NoMerge);
        } else if(F.getName() == "vk_reach" || F.getName().starts_with("vk_touch")) {
            F.addFnAttr(Attribute::NoUnwind);
            F.addFnAttr(Attribute::WillReturn);
            F.addFnAttr(Attribute::NoCallback);
            F.addFnAttr(Attribute::NoMerge);
            F.setMemoryEffects(inacc);
        }
        if(F.getName().starts_with("vk_watch")) {
            F.addFnAttr(Attribute::NoUnwind);
            F.addFnAttr(Attribute::WillReturn);
            F.addFnAttr(Attribute::NoCallback);
            F.addFnAttr(Attribute::NoMerge);
            F.setMemoryEffects(MemoryEffects::inaccessibleOrArgMemOnly());
        } else if(F.getName() == "vk_guard" || F.getName() == "vk_guard_hit") {
            F.addFnAttr(Attribute::NoUnwind);
            F.addFnAttr(Attribute::WillReturn);
            F.addFnAttr(Attribute::NoCallback);
            F.addFnAttr(Attribute::NoMerge);
            F.setMemoryEffects(MemoryEffects::readOnly() | MemoryEffects::inaccessibleMemOnly());
        } else if(F.getName() == "vk_unroll") {
            F.addFnAttr(Attribute::NoUnwind);
            F.addFnAttr(Attribute::WillReturn);
            F.setMemoryEffects(inacc);
        }
        if(F.getName().starts_with("vk_opaque_") && F.isDeclaration()) {
            F.addFnAttr(Attribute::NoUnwind);
            F.addFnAttr(Attribute::WillReturn);
            F.addFnAttr(Attribute::NoCallback);
            F.setMemoryEffects(inacc);
            if(F.getName() == "vk_opaque_alloc")
                F.addRetAttr(Attribute::NoAlias);
        }
        if(F.getName() == "__cxa_begin_catch" || F.getName() == "__cxa_end_catch" ||
           F.getName() == "__cxa_allocate_exception" || F.getName() == "__cxa_free_exception" ||
           F.getName() == "__cxa_rethrow")
            F.setMemoryEffects(MemoryEffects::inaccessibleMemOnly());
        if(F.isDeclaration())
            continue;
        F.removeFnAttr(Attribute::OptimizeNone);
        std::string dem = demangle(F.getName().str());
        if(F.getName().starts_with("VK__"))
            continue;
        if(isOpaqueName(dem)) {
            F.removeFnAttr(Attribute::AlwaysInline);
            F.addFnAttr(Attribute::NoInline);
            // raising an exception changes no object of the caller
            if(dem.find("::bootstrap_throw(") != std::string::npos ||
               dem.find("::internal_failure(") != std::string::npos)
                F.setMemoryEffects(MemoryEffects::inaccessibleOrArgMemOnly());
        } else if(!F.hasFnAttribute(Attribute::NoInline)) {
            F.addFnAttr(Attribute::AlwaysInline);
        } else {
            F.removeFnAttr(Attribute::NoInline);
            F.addFnAttr(Attribute::AlwaysInline);
        }
    }
    (void)C;
}

// Induction variables of one loop that always differ by the same constant become one.
struct CongruentIVs : PassInfoMixin<CongruentIVs> {
    PreservedAnalyses run(Function &F, FunctionAnalysisManager &AM) {
        auto &SE = AM.getResult<ScalarEvolutionAnalysis>(F);
        auto &LI = AM.getResult<LoopAnalysis>(F);
        bool changed = false;
        for(Loop *L : LI.getLoopsInPreorder()) {
            auto plain = [&](PHINode &P) {
                auto *A = dyn_cast<SCEVAddRecExpr>(SE.getSCEV(&P));
                return A && A->getLoop() == L && A->isAffine() && !isa<SCEVAddExpr>(A->getStart());
            };
            std::vector<std::pair<PHINode *, Value *>> repl;
            for(PHINode &A : L->getHeader()->phis()) {
                if(!A.getType()->isIntegerTy() || !SE.isSCEVable(A.getType()) || plain(A))
                    continue;
                auto *RA = dyn_cast<SCEVAddRecExpr>(SE.getSCEV(&A));
                if(!RA || RA->getLoop() != L || !RA->isAffine())
                    continue;
                for(PHINode &B : L->getHeader()->phis()) {
                    if(&A == &B || A.getType() != B.getType() || !plain(B))
                        continue;
                    auto *D = dyn_cast<SCEVConstant>(SE.getMinusSCEV(RA, SE.getSCEV(&B)));
                    if(!D)
                        continue;
                    IRBuilder<> b(L->getHeader(), L->getHeader()->getFirstInsertionPt());
                    repl.push_back({&A, b.CreateAdd(&B, D->getValue())});
                    break;
                }
            }
            for(auto &[A, v] : repl) {
                SE.forgetValue(A);
                A->replaceAllUsesWith(v);
                A->eraseFromParent();
                changed = true;
            }
        }
        return changed ? PreservedAnalyses::none() : PreservedAnalyses::all();
    }
};

static void run(Module &M, const char *pipeline, bool O2) {
    LoopAnalysisManager LAM;
    FunctionAnalysisManager FAM;
    CGSCCAnalysisManager CGAM;
    ModuleAnalysisManager MAM;
    PipelineTuningOptions PTO;
    PTO.LoopUnrolling = false;
    PTO.LoopVectorization = false;
    PTO.SLPVectorization = false;
    PTO.LoopInterleaving = false;
    PassBuilder PB(nullptr, PTO);
    PB.registerModuleAnalyses(MAM);
    PB.registerCGSCCAnalyses(CGAM);
    PB.registerFunctionAnalyses(FAM);
    PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    if(O2) {
        MPM = PB.buildPerModuleDefaultPipeline(OptimizationLevel::O2);
    } else {
        PB.registerPipelineParsingCallback([](StringRef name, FunctionPassManager &FPM, ArrayRef<PassBuilder::PipelineElement>) {
            if(name != "congruent-ivs")
                return false;
            FPM.addPass(CongruentIVs());
            return true;
        });
        if(auto E = PB.parsePassPipeline(MPM, pipeline)) {
            errs() << "pipeline: " << toString(std::move(E)) << "\n";
            exit(3);
        }
    }
    MPM.run(M, MAM);
}

// Are the addresses of this function's locals only used here (or compared with ghost variables)?
static bool localsStay(Value *V, std::set<Value *> &seen) {
    if(!seen.insert(V).second)
        return true;
    for(User *U : V->users()) {
        if(isa<LoadInst>(U) || isa<ICmpInst>(U) || isa<MemIntrinsic>(U))
            continue;
        if(auto *ST = dyn_cast<StoreInst>(U)) {
            if(ST->getValueOperand() == V && !isa<GlobalVariable>(ST->getPointerOperand()))
                return false;
            continue;
        }
        if(auto *II = dyn_cast<IntrinsicInst>(U); II && II->isLifetimeStartOrEnd())
            continue;
        if(isa<GetElementPtrInst>(U) || isa<PHINode>(U) || isa<SelectInst>(U)) {
            if(!localsStay(U, seen))
                return false;
            continue;
        }
        return false;
    }
    return true;
}
// What follows a recursive call up to the return moves into its block, and the call becomes a tail call.
static void tailCallShape(Function *F) {
    std::vector<CallInst *> self;
    for(auto &I : instructions(*F)) {
        if(auto *A = dyn_cast<AllocaInst>(&I)) {
            std::set<Value *> seen;
            if(!localsStay(A, seen))
                return;
        }
        if(auto *CI = dyn_cast<CallInst>(&I); CI && CI->getCalledFunction() == F)
            self.push_back(CI);
    }
    for(auto &I : make_early_inc_range(instructions(*F)))
        if(auto *II = dyn_cast<IntrinsicInst>(&I); II && II->isLifetimeStartOrEnd())
            II->eraseFromParent();
    for(auto *CI : self) {
        BasicBlock *B = CI->getParent();
        for(int n = 0; n < 8; ++n) {
            auto *Br = dyn_cast<BranchInst>(B->getTerminator());
            if(!Br || !Br->isUnconditional())
                break;
            BasicBlock *S = Br->getSuccessor(0);
            auto *T = S->getTerminator();
            auto *SB = dyn_cast<BranchInst>(T);
            if(S == B || S->size() > 12 || !(isa<ReturnInst>(T) || (SB && SB->isUnconditional())))
                break;
            bool ok = true;
            for(auto &I : *S)
                for(User *U : I.users())
                    ok = ok && (cast<Instruction>(U)->getParent() == S || isa<PHINode>(U));
            if(!ok)
                break;
            ValueToValueMapTy map;
            for(auto &P : S->phis())
                map[&P] = P.getIncomingValueForBlock(B);
            Br->eraseFromParent();
            for(auto &I : *S) {
                if(isa<PHINode>(I))
                    continue;
                Instruction *N = I.clone();
                N->insertInto(B, B->end());
                RemapInstruction(N, map, RF_NoModuleLevelChanges | RF_IgnoreMissingLocals);
                map[&I] = N;
            }
            if(SB)
                for(auto &P : SB->getSuccessor(0)->phis()) {
                    Value *V = P.getIncomingValueForBlock(S);
                    auto it = map.find(V);
                    P.addIncoming(it == map.end() ? V : (Value *)it->second, B);
                }
            S->removePredecessor(B);
        }
        CI->setTailCall();
    }
}
// A function that ends by calling itself is a loop.
static void tailCalls(std::vector<Function *> &rec) {
    LoopAnalysisManager LAM;
    FunctionAnalysisManager FAM;
    CGSCCAnalysisManager CGAM;
    ModuleAnalysisManager MAM;
    PassBuilder PB;
    PB.registerModuleAnalyses(MAM);
    PB.registerCGSCCAnalyses(CGAM);
    PB.registerFunctionAnalyses(FAM);
    PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    auto calls = [](Function *F) {
        for(auto &I : instructions(*F))
            if(auto *CB = dyn_cast<CallBase>(&I); CB && CB->getCalledFunction() == F)
                return true;
        return false;
    };
    for(Function *F : rec) {
        for(int n = 0; n < 400; ++n) {
            CallBase *next = nullptr;
            for(auto &I : instructions(*F))
                if(auto *CB = dyn_cast<CallBase>(&I))
                    if(auto *T = CB->getCalledFunction(); T && T != F && !T->isDeclaration() &&
                       std::find(rec.begin(), rec.end(), T) == rec.end() && !T->hasFnAttribute(Attribute::NoInline)) {
                        next = CB;
                        break;
                    }
            InlineFunctionInfo info;
            if(!next || !InlineFunction(*next, info).isSuccess())
                break;
        }
        FAM.invalidate(*F, PreservedAnalyses::none());
        auto pass = [&](const char *text) {
            FunctionPassManager FPM;
            cantFail(PB.parsePassPipeline(FPM, text));
            FPM.run(*F, FAM);
        };
        pass("sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,sroa,gvn,instcombine<no-verify-fixpoint>,simplifycfg");
        bool throws = false;
        for(auto &I : instructions(*F))
            if(auto *CB = dyn_cast<CallBase>(&I); CB && CB->getCalledFunction() != F && !CB->doesNotThrow())
                throws = true;
        if(!throws)
            F->setDoesNotThrow();
        pass("simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg,adce");
        tailCallShape(F);
        FAM.invalidate(*F, PreservedAnalyses::none());
        pass("tailcallelim,simplifycfg");
    }
    for(Function *F : rec)
        if(getenv("VKA_REC") && calls(F))
            F->print(errs());
    std::erase_if(rec, [&](Function *F) { return !calls(F); });
}

// Recursion is followed to its second level; that it goes no deeper is an obligation.
static void unrollRecursion(Module &M) {
    // A unit that defines vk_rec_<name> judges one step of the recursive function <name>: the library's own calls of it
    // go there instead (where their precondition is an obligation, and their answer is anything the unit allows).
    for(Function &G : M) {
        if(G.isDeclaration() || !G.getName().starts_with("vk_rec_"))
            continue;
        const std::string base = G.getName().drop_front(7).str();
        for(Function &F : M) {
            if(&F == &G || F.isDeclaration() || F.getFunctionType() != G.getFunctionType())
                continue;
            const std::string d = demangle(F.getName().str());
            // (with its parameters, if several functions of that name have the same type)
            const size_t at = d.find(base.find('(') == std::string::npos ? base + "(" : base);
            if(at == std::string::npos || (at && d[at - 1] != ':'))
                continue;
            std::vector<CallBase *> calls;
            for(Function &C : M)
                if(!C.getName().starts_with("VK__") && &C != &G)
                    for(auto &I : instructions(C))
                        if(auto *CB = dyn_cast<CallBase>(&I); CB && CB->getCalledOperand()->stripPointerCastsAndAliases() == &F)
                            calls.push_back(CB);
            for(auto *CB : calls)
                CB->setCalledFunction(&G);
        }
    }
    std::vector<Function *> rec;
    for(Function &F : M)
        if(!F.isDeclaration() && !F.getName().starts_with("VK__") && !isOpaqueName(demangle(F.getName().str())))
            for(auto &I : instructions(F))
                if(auto *CB = dyn_cast<CallBase>(&I); CB && CB->getCalledOperand()->stripPointerCastsAndAliases() == &F) {
                    rec.push_back(&F);
                    break;
                }
    // a unit may have the library's own recursive calls taken as calls of something unknown
    if(M.getNamedGlobal("vk_opaque_recursion")) {
        for(Function *F : rec) {
            Function *again = nullptr;
            for(auto &I : instructions(*F))
                if(auto *CB = dyn_cast<CallBase>(&I); CB && CB->getCalledOperand()->stripPointerCastsAndAliases() == F) {
                    if(!again)
                        again = Function::Create(F->getFunctionType(), GlobalValue::ExternalLinkage, F->getName() + ".again", M);
                    CB->setCalledFunction(again);
                }
        }
        // and the making of an exception, which runs the functions that raise one
        for(Function &F : M)
            if(!F.isDeclaration() && demangle(F.getName().str()).find("::PyException::PyException(") != std::string::npos) {
                F.deleteBody();
                F.setComdat(nullptr);
            }
        for(auto &A : make_early_inc_range(M.aliases()))
            if(auto *F = dyn_cast<Function>(A.getAliasee()); F && F->isDeclaration()) {
                A.replaceAllUsesWith(F);
                A.eraseFromParent();
            }
        return;
    }
    if(!rec.empty())
        tailCalls(rec);
    for(Function *F : rec) {
        Function *deep = Function::Create(F->getFunctionType(), GlobalValue::ExternalLinkage, F->getName() + ".deep", M);
        IRBuilder<> b(BasicBlock::Create(M.getContext(), "", deep));
        auto *text = b.CreateGlobalString("recursion deeper than two levels in " + demangle(F->getName().str()), "", 0, &M);
        b.CreateCall(M.getOrInsertFunction("vk_fail", FunctionType::get(b.getVoidTy(), {b.getPtrTy(), b.getInt32Ty()}, false)),
                     {text, b.getInt32(0)});
        b.CreateUnreachable();
        deep->setLinkage(GlobalValue::InternalLinkage);
        deep->addFnAttr(Attribute::AlwaysInline);
        ValueToValueMapTy map;
        Function *second = CloneFunction(F, map);
        second->setLinkage(GlobalValue::InternalLinkage);
        auto redirect = [&](Function *in, Function *to) {
            for(auto &I : instructions(*in))
                if(auto *CB = dyn_cast<CallBase>(&I); CB && (CB->getCalledFunction() == F || CB->getCalledFunction() == second))
                    CB->setCalledFunction(to);
        };
        redirect(second, deep);
        redirect(F, second);
    }
}

// A local object has no address in common with anything an argument points to.
static void foldLocalCompares(Module &M) {
    for(Function &F : M) {
        std::vector<ICmpInst *> cmps;
        for(auto &I : instructions(F))
            if(auto *C = dyn_cast<ICmpInst>(&I))
                if(C->isEquality() && C->getOperand(0)->getType()->isPointerTy())
                    cmps.push_back(C);
        for(auto *C : cmps) {
            Value *a = C->getOperand(0)->stripPointerCasts(), *b = C->getOperand(1)->stripPointerCasts();
            if((isa<AllocaInst>(a) && isa<Argument>(b)) || (isa<AllocaInst>(b) && isa<Argument>(a))) {
                C->replaceAllUsesWith(ConstantInt::getBool(C->getType(), C->getPredicate() == CmpInst::ICMP_NE));
                C->eraseFromParent();
            }
        }
    }
}

// Comparisons of floating point numbers become comparisons of integers that order the same way, with NaN
// apart: exact for arguments, constants and what is selected from them, arbitrary for computed numbers.
struct FloatKeys {
    Module &M;
    std::map<Value *, std::pair<Value *, Value *>> done; // number -> key, is it NaN?
    std::pair<Value *, Value *> of(Value *V) {
        auto it = done.find(V);
        if(it != done.end())
            return it->second;
        LLVMContext &C = M.getContext();
        Type *I64 = Type::getInt64Ty(C), *I1 = Type::getInt1Ty(C);
        if(auto *K = dyn_cast<ConstantFP>(V)) {
            APFloat f = K->getValueAPF();
            bool lost;
            f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lost);
            const uint64_t b = f.bitcastToAPInt().getZExtValue(), mag = b & ~(1ull << 63);
            return done[V] = {ConstantInt::get(I64, b >> 63 ? (1ull << 63) - mag : (1ull << 63) + mag), ConstantInt::get(I1, f.isNaN())};
        }
        if(auto *P = dyn_cast<PHINode>(V)) {
            auto *k = PHINode::Create(I64, P->getNumIncomingValues(), "", P->getIterator());
            auto *n = PHINode::Create(I1, P->getNumIncomingValues(), "", P->getIterator());
            done[V] = {k, n};
            for(unsigned i = 0; i < P->getNumIncomingValues(); ++i) {
                auto x = of(P->getIncomingValue(i));
                k->addIncoming(x.first, P->getIncomingBlock(i));
                n->addIncoming(x.second, P->getIncomingBlock(i));
            }
            return done[V];
        }
        if(auto *S = dyn_cast<SelectInst>(V)) {
            auto x = of(S->getTrueValue()), y = of(S->getFalseValue());
            auto *k = SelectInst::Create(S->getCondition(), x.first, y.first, "", S->getIterator());
            auto *n = SelectInst::Create(S->getCondition(), x.second, y.second, "", S->getIterator());
            return done[V] = {k, n};
        }
        if(auto *F = dyn_cast<FreezeInst>(V))
            return done[V] = of(F->getOperand(0));
        BasicBlock::iterator at;
        if(auto *I = dyn_cast<Instruction>(V)) {
            auto ip = I->getInsertionPointAfterDef();
            if(!ip)
                return {nullptr, nullptr};
            at = *ip;
        } else if(auto *A = dyn_cast<Argument>(V))
            at = A->getParent()->getEntryBlock().getFirstInsertionPt();
        else
            return {nullptr, nullptr};
        auto *k = CallInst::Create(M.getOrInsertFunction("vk_float_key", I64), "", at);
        auto *n = CallInst::Create(M.getOrInsertFunction("vk_float_nan", I1), "", at);
        return done[V] = {k, n};
    }
    void run() {
        std::vector<FCmpInst *> cmps;
        for(Function &F : M)
            if(F.getName().starts_with("VK__"))
                for(auto &I : instructions(F))
                    if(auto *C = dyn_cast<FCmpInst>(&I))
                        if(C->getOperand(0)->getType()->isDoubleTy() || C->getOperand(0)->getType()->isFloatTy())
                            cmps.push_back(C);
        for(auto *C : cmps) {
            auto x = of(C->getOperand(0)), y = of(C->getOperand(1));
            if(!x.first || !y.first)
                continue;
            IRBuilder<> B(C);
            Value *nan = B.CreateOr(x.second, y.second), *r;
            switch(C->getPredicate()) {
            case CmpInst::FCMP_FALSE: r = B.getFalse(); break;
            case CmpInst::FCMP_TRUE: r = B.getTrue(); break;
            case CmpInst::FCMP_ORD: r = B.CreateNot(nan); break;
            case CmpInst::FCMP_UNO: r = nan; break;
            case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = B.CreateICmpEQ(x.first, y.first); break;
            case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: r = B.CreateICmpNE(x.first, y.first); break;
            case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = B.CreateICmpULT(x.first, y.first); break;
            case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = B.CreateICmpULE(x.first, y.first); break;
            case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = B.CreateICmpUGT(x.first, y.first); break;
            case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: r = B.CreateICmpUGE(x.first, y.first); break;
            default: continue;
            }
            if(CmpInst::isOrdered(C->getPredicate()) && C->getPredicate() != CmpInst::FCMP_ORD)
                r = B.CreateAnd(B.CreateNot(nan), r);
            if(CmpInst::isUnordered(C->getPredicate()) && C->getPredicate() != CmpInst::FCMP_UNO)
                r = B.CreateOr(nan, r);
            C->replaceAllUsesWith(r);
            C->eraseFromParent();
        }
    }
};

// Checked additions and subtractions: the result and a comparison that tells of the overflow.
static void plainOverflow(Module &M) {
    std::vector<WithOverflowInst *> todo;
    for(Function &F : M)
        for(auto &I : instructions(F))
            if(auto *W = dyn_cast<WithOverflowInst>(&I))
                if(W->getBinaryOp() != Instruction::Mul && W->getType()->getStructElementType(0)->isIntegerTy())
                    todo.push_back(W);
    for(auto *W : todo) {
        IRBuilder<> B(W);
        Value *a = W->getLHS(), *b = W->getRHS(), *r = B.CreateBinOp(W->getBinaryOp(), a, b), *o;
        const bool add = W->getBinaryOp() == Instruction::Add;
        if(W->isSigned())
            o = B.CreateXor(add ? B.CreateICmpSLT(b, ConstantInt::get(b->getType(), 0)) : B.CreateICmpSGT(b, ConstantInt::get(b->getType(), 0)),
                            B.CreateICmpSLT(r, a));
        else
            o = add ? B.CreateICmpULT(r, a) : B.CreateICmpULT(a, b);
        std::vector<ExtractValueInst *> ex;
        bool plain = true;
        for(auto *U : W->users())
            if(auto *E = dyn_cast<ExtractValueInst>(U))
                ex.push_back(E);
            else
                plain = false;
        for(auto *E : ex) {
            E->replaceAllUsesWith(E->getIndices()[0] == 0 ? r : o);
            E->eraseFromParent();
        }
        if(plain)
            W->eraseFromParent();
    }
}

static std::string strArg(Value *V) {
    V = V->stripPointerCasts();
    if(auto *G = dyn_cast<GlobalVariable>(V))
        if(G->hasInitializer())
            if(auto *CDA = dyn_cast<ConstantDataArray>(G->getInitializer()))
                if(CDA->isCString())
                    return CDA->getAsCString().str();
    return "?";
}

static void addLocs(const DebugLoc &DL, std::vector<std::string> &out) {
    for(const DILocation *L = DL.get(); L; L = L->getInlinedAt()) {
        std::string file = L->getFilename().str();
        if(file.find("/repo") == std::string::npos && !L->getDirectory().contains("/repo"))
            continue;
        std::string fn;
        if(auto *SP = L->getScope()->getSubprogram())
            fn = demangle(SP->getLinkageName().empty() ? SP->getName().str()
                                                       : SP->getLinkageName().str());
        std::string s = file + ":" + std::to_string(L->getLine()) + " in " + fn;
        if(std::find(out.begin(), out.end(), s) == out.end())
            out.push_back(s);
    }
}

// In contracts that ask for it: x & M is x up to M and starts anew behind it, for M one less than a power of two.
static void wrapMasks(Module &M) {
    using namespace PatternMatch;
    for(Function &F : M) {
        if(!F.getName().starts_with("VK__") || F.isDeclaration())
            continue;
        std::vector<BinaryOperator *> ands;
        bool wanted = false;
        for(auto &I : instructions(F)) {
            if(auto *CB = dyn_cast<CallBase>(&I))
                if(Function *C = CB->getCalledFunction(); C && C->getName() == "vk_wrap_masks")
                    wanted = true;
            if(auto *B = dyn_cast<BinaryOperator>(&I); B && B->getOpcode() == Instruction::And)
                ands.push_back(B);
        }
        if(!wanted)
            continue;
        for(auto *B : ands)
            for(int k = 0; k < 2; ++k) {
                Value *m = B->getOperand(k), *x = B->getOperand(1 - k), *p;
                if(!match(m, m_Not(m_Shl(m_AllOnes(), m_Value(p)))) && !match(m, m_Add(m_Shl(m_One(), m_Value(p)), m_AllOnes())))
                    continue;
                if(!match(x, m_Add(m_Value(p), m_One())))
                    continue;
                IRBuilder<> b(B);
                auto *first = b.CreateICmpULE(x, m);
                auto *past = b.CreateSub(b.CreateSub(x, m), ConstantInt::get(x->getType(), 1));
                auto *again = b.CreateBinOp(Instruction::And, x, m);
                B->replaceAllUsesWith(b.CreateSelect(first, x, b.CreateSelect(b.CreateICmpULE(past, m), past, again)));
                B->eraseFromParent();
                break;
            }
    }
}

// A number read from a short constant table is one of its elements, chosen by the index.
static void constTables(Module &M) {
    for(Function &F : M) {
        if(!F.getName().starts_with("VK__") || F.isDeclaration())
            continue;
        for(auto &I : make_early_inc_range(instructions(F))) {
            auto *L = dyn_cast<LoadInst>(&I);
            if(!L || L->isVolatile() || !L->getType()->isIntegerTy())
                continue;
            auto *P = dyn_cast<GEPOperator>(L->getPointerOperand());
            auto *G = P ? dyn_cast<GlobalVariable>(P->getPointerOperand()) : nullptr;
            if(!G || !G->isConstant() || !G->hasInitializer())
                continue;
            auto *T = dyn_cast<ArrayType>(G->getValueType());
            if(!T || T->getElementType() != L->getType() || T->getNumElements() > 16)
                continue;
            Value *idx = P->getOperand(P->getNumOperands() - 1);
            const bool plain = P->getNumOperands() == 2 && P->getSourceElementType() == L->getType();
            const bool nested = P->getNumOperands() == 3 && P->getSourceElementType() == T && isa<ConstantInt>(P->getOperand(1)) &&
                                cast<ConstantInt>(P->getOperand(1))->isZero();
            if((!plain && !nested) || isa<ConstantInt>(idx))
                continue;
            IRBuilder<> B(L);
            Value *v = G->getInitializer()->getAggregateElement(0u);
            for(unsigned k = 1; k < T->getNumElements(); ++k)
                v = B.CreateSelect(B.CreateICmpEQ(idx, ConstantInt::get(idx->getType(), k)), G->getInitializer()->getAggregateElement(k), v);
            L->replaceAllUsesWith(v);
            L->eraseFromParent();
        }
    }
}


// The bytes of small local arrays are followed exactly where the contract asks for it.
static void followLocals(Module &M) {
    for(Function &F : M) {
        if(!F.getName().starts_with("VK__") || F.isDeclaration())
            continue;
        bool wanted = false;
        std::vector<AllocaInst *> as;
        for(auto &I : instructions(F)) {
            if(auto *CB = dyn_cast<CallBase>(&I))
                if(Function *C = CB->getCalledFunction(); C && C->getName() == "vk_follow_locals")
                    wanted = true;
            if(auto *A = dyn_cast<AllocaInst>(&I))
                if(auto *T = dyn_cast<ArrayType>(A->getAllocatedType()); T && T->getElementType()->isIntegerTy(8) && T->getNumElements() <= 8)
                    as.push_back(A);
        }
        if(!wanted)
            continue;
        unsigned slot = 20;
        auto *I32 = Type::getInt32Ty(M.getContext());
        auto fn = M.getOrInsertFunction("vk_watch8", Type::getVoidTy(M.getContext()), I32, PointerType::get(M.getContext(), 0));
        for(auto *A : as)
            for(uint64_t i = 0; i < cast<ArrayType>(A->getAllocatedType())->getNumElements() && slot < 36; ++i) {
                IRBuilder<> B(A->getNextNode());
                auto *P = B.CreateGEP(Type::getInt8Ty(M.getContext()), A, {B.getInt64(i)});
                auto *C = B.CreateCall(fn, {B.getInt32(slot++), P});
                C->setDoesNotThrow();
                (void)C;
            }
    }
}

int main(int argc, char **argv) {
    cl::ParseCommandLineOptions(argc, argv);
    LLVMContext C;
    SMDiagnostic Err;
    auto M = parseIRFile(InFile, Err, C);
    if(!M) {
        Err.print("vka", errs());
        return 3;
    }
    fatalEnds(*M);
    {
        LoopAnalysisManager LAM;
        FunctionAnalysisManager FAM;
        CGSCCAnalysisManager CGAM;
        ModuleAnalysisManager MAM;
        PassBuilder PB;
        PB.registerModuleAnalyses(MAM);
        PB.registerCGSCCAnalyses(CGAM);
        PB.registerFunctionAnalyses(FAM);
        PB.registerLoopAnalyses(LAM);
        PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
        ModulePassManager MPM;
        // contracts of other properties, and those another process analyses
        unsigned index = 0;
        for(Function &F : *M)
            if(F.getName().starts_with("VK__") && !F.isDeclaration()) {
                bool mine = F.getName().drop_front(4).starts_with(Prefix) &&
                            (Explain.empty() || F.getName().drop_front(4) == Explain || getenv("VKA_ALL"));
                if(mine)
                    mine = Explain.empty() ? index++ % Shards == Shard : true;
                if(!mine)
                    F.deleteBody();
            }
        MPM.addPass(InternalizePass([](const GlobalValue &GV) {
            return GV.getName().starts_with("VK__") || GV.getName().starts_with("vk_");
        }));
        MPM.addPass(GlobalDCEPass());
        MPM.run(*M, MAM);
    }
    std::map<std::string, std::set<std::string>> analysed;
    std::map<std::string, int> nObl;
    for(Function &F : *M) {
        if(!F.getName().starts_with("VK__") || F.isDeclaration())
            continue;
        std::string key = F.getName().drop_front(4).str();
        std::set<Function *> seen{&F};
        std::vector<Function *> wl{&F};
        while(!wl.empty()) {
            Function *G = wl.back();
            wl.pop_back();
            if(auto *SP = G->getSubprogram())
                if((SP->getFilename().contains("/repo/") || SP->getDirectory().contains("/repo")))
                    analysed[key].insert(demangle(G->getName().str()));
            for(auto &I : instructions(*G)) {
                if(auto *CB = dyn_cast<CallBase>(&I)) {
                    if(auto *T = CB->getCalledFunction()) {
                        if(T->getName() == "vk_fail")
                            ++nObl[key];
                        else if(!T->isDeclaration() && seen.insert(T).second)
                            wl.push_back(T);
                    }
                }
            }
        }
    }
    prepare(*M);
    unrollRecursion(*M);
    run(*M, nullptr, true);
    foldLocalCompares(*M);
    const char *extra =
        "globalopt,require<globals-aa>,function(mem2reg,sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,"
        "constraint-elimination,correlated-propagation,jump-threading,gvn,"
        "instcombine<no-verify-fixpoint>,simplifycfg,dse,loop-simplify,lcssa,loop(loop-rotate),loop-mssa(licm),loop(indvars),"
        "constraint-elimination,correlated-propagation,gvn,instcombine<no-verify-fixpoint>,simplifycfg,adce)";
    run(*M, extra, false);
    run(*M, nullptr, true);
    run(*M, extra, false);
    plainOverflow(*M);
    FloatKeys{*M}.run();
    followLocals(*M);
    constTables(*M);
    wrapMasks(*M);
    // compute values only where they are needed: after the branches that bound their operands
    run(*M, "function(congruent-ivs,instcombine<no-verify-fixpoint>,loop-simplify,break-crit-edges,sink)", false);

    if(!DumpLL.empty()) {
        std::error_code EC;
        raw_fd_ostream os(DumpLL, EC);
        M->print(os, nullptr);
    }

    auto analyse = [&](Function &F) {
        json::Object o;
        o["name"] = F.getName().drop_front(4).str();
        o["obligations"] = (int64_t)nObl[F.getName().drop_front(4).str()];
        json::Array fa;
        for(auto &x : analysed[F.getName().drop_front(4).str()])
            fa.push_back(x);
        o["functions"] = std::move(fa);
        json::Array fails, reaches;
        size_t ninst = 0;
        bool anyFail = false;
        for(auto &I : instructions(F))
            if(auto *CB = dyn_cast<CallBase>(&I))
                if(CB->getCalledFunction() && CB->getCalledFunction()->getName() == "vk_fail")
                    anyFail = true;
        // What is not established is tried once more with more states kept apart.
        auto attempt = [&](size_t cap, size_t loopCap) {
            auto a = std::make_unique<absint::Interp>(F);
            a->explain = !Explain.empty() && F.getName().drop_front(4) == Explain;
            a->limit = Limit;
            a->CAP = cap;
            a->LOOPCAP = loopCap;
            if(anyFail)
                a->run();
            return a;
        };
        auto tried = attempt(160, 64);
        if(!tried->gaveUp && !tried->failed.empty()) {
            auto again = attempt(400, 250);
            if(!again->gaveUp && again->failed.size() < tried->failed.size())
                tried = std::move(again);
        }
        absint::Interp &AI = *tried;
        o["gaveup"] = AI.gaveUp;
        o["queries"] = (int64_t)AI.queries;
        for(auto &I : instructions(F)) {
            ++ninst;
            auto *CB = dyn_cast<CallBase>(&I);
            if(!CB || !CB->getCalledFunction())
                continue;
            StringRef n = CB->getCalledFunction()->getName();
            if(n == "vk_fail" || n == "vk_reach") {
                json::Object f;
                f["text"] = strArg(CB->getArgOperand(0));
                if(auto *ci = dyn_cast<ConstantInt>(CB->getArgOperand(1)))
                    f["line"] = (int64_t)ci->getZExtValue();
                if(n == "vk_reach") {
                    if(anyFail && !AI.gaveUp && !AI.reached.count(CB))
                        continue;
                    reaches.push_back(std::move(f));
                    continue;
                }
                if(!AI.gaveUp && !AI.failed.count(CB))
                    continue; // discharged by the linear domain
                std::vector<std::string> locs;
                std::set<BasicBlock *> seen;
                std::vector<BasicBlock *> wl{CB->getParent()};
                int budget = 12;
                while(!wl.empty() && budget-- > 0) {
                    BasicBlock *B = wl.front();
                    wl.erase(wl.begin());
                    for(BasicBlock *P : predecessors(B)) {
                        if(!seen.insert(P).second)
                            continue;
                        addLocs(P->getTerminator()->getDebugLoc(), locs);
                        if(auto *br = dyn_cast<BranchInst>(P->getTerminator()))
                            if(br->isConditional())
                                if(auto *ci = dyn_cast<Instruction>(br->getCondition())) {
                                    addLocs(ci->getDebugLoc(), locs);
                                    for(auto &op : ci->operands())
                                        if(auto *oi = dyn_cast<Instruction>(&op))
                                            addLocs(oi->getDebugLoc(), locs);
                                }
                        for(auto &PI : *P)
                            addLocs(PI.getDebugLoc(), locs);
                        wl.push_back(P);
                    }
                }
                json::Array la;
                for(auto &l : locs)
                    if(la.size() < 8)
                        la.push_back(l);
                f["locs"] = std::move(la);
                fails.push_back(std::move(f));
            }
        }
        o["insts"] = (int64_t)ninst;
        o["fails"] = std::move(fails);
        o["reaches"] = std::move(reaches);
        return o;
    };
    // every contract in a process of its own, a few at a time
    std::vector<Function *> todo;
    for(Function &F : *M)
        if(F.getName().starts_with("VK__") && !F.isDeclaration() &&
           (Explain.empty() || F.getName().drop_front(4) == Explain || getenv("VKA_ALL")))
            todo.push_back(&F);
    std::vector<std::string> results(todo.size());
    std::map<int, size_t> fds; // read end -> index
    size_t next = 0;
    bool broken = false;
    while(next < todo.size() || !fds.empty()) {
        while(next < todo.size() && fds.size() < Jobs) {
            int p[2];
            if(pipe(p))
                return 3;
            pid_t pid = fork();
            if(pid == 0) {
                close(p[0]);
                auto t0 = std::chrono::steady_clock::now();
                json::Object o = analyse(*todo[next]);
                o["seconds"] = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
                std::string text;
                raw_string_ostream ts(text);
                ts << json::Value(std::move(o));
                ts.flush();
                size_t done = 0;
                while(done < text.size()) {
                    ssize_t k = write(p[1], text.data() + done, text.size() - done);
                    if(k <= 0)
                        _exit(3);
                    done += k;
                }
                _exit(0);
            }
            close(p[1]);
            if(pid < 0)
                return 3;
            fds[p[0]] = next++;
        }
        std::vector<pollfd> pf;
        for(auto &x : fds)
            pf.push_back({x.first, POLLIN, 0});
        poll(pf.data(), pf.size(), -1);
        for(auto &x : pf) {
            if(!x.revents)
                continue;
            char buf[65536];
            ssize_t k = read(x.fd, buf, sizeof buf);
            if(k > 0)
                results[fds[x.fd]].append(buf, k);
            else {
                close(x.fd);
                fds.erase(x.fd);
                int st;
                wait(&st);
                if(st)
                    broken = true;
            }
        }
    }
    if(broken)
        return 3;
    json::Array contracts;
    for(auto &r : results) {
        auto v = json::parse(r);
        if(!v) {
            consumeError(v.takeError());
            return 3;
        }
        contracts.push_back(std::move(*v));
    }
    std::error_code EC;
    raw_fd_ostream os(OutFile, EC);
    os << json::Value(std::move(contracts)) << "\n";
    return 0;
}
