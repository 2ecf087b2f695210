// irx: normalise an LLVM module (selected functions kept opaque, everything
// else inlined, loops of constant trip count unrolled) and dump the SSA of the
// entry functions as JSON.  It never executes anything.
//
//   irx in.bc out.json --entry=REGEX [--opaque=REGEX]... [--pure=REGEX]... [--passes=PIPELINE]
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Analysis/TargetLibraryInfo.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/ScalarEvolutionExpressions.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/ADT/SCCIterator.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Transforms/IPO/Internalize.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/UnrollLoop.h"
#include "llvm/Transforms/Utils/LoopUtils.h"
#include "llvm/Transforms/Utils/LoopSimplify.h"
#include "llvm/Analysis/TargetTransformInfo.h"
#include "llvm/Analysis/OptimizationRemarkEmitter.h"
#include <functional>
#include <map>
#include <set>
using namespace llvm;

static cl::opt<std::string> In(cl::Positional, cl::Required);
static cl::opt<std::string> Out(cl::Positional, cl::Required);
static cl::opt<std::string> Entry("entry", cl::init("^(t|r)_"));
static cl::list<std::string> Opaque("opaque");
static cl::list<std::string> Inl("inline");
static cl::list<std::string> Pure("pure");
static cl::list<std::string> PureRef("pureref");
static cl::list<std::string> OutRef("outref");
static cl::list<std::string> TopOnly("toponly");
static cl::list<std::string> Unfold("unfold");
static cl::opt<int> UnfoldDepth("unfold-depth", cl::init(2));
static cl::list<std::string> Fail("fail");
static cl::opt<std::string> Passes("pipeline", cl::init(""));
static cl::opt<bool> NoPre("no-pre", cl::desc("keep array-carried values of a loop in memory"));
static cl::opt<unsigned> Bound("bound", cl::desc("copies of a loop's body"), cl::init(0));
static cl::opt<bool> NoUpper("exact-unroll", cl::desc("unroll only loops of exactly known trip count"));
static cl::opt<bool> DumpLL("dump-ll");
static cl::opt<bool> NoOpt("no-opt");

static std::string tystr(Type *T) { std::string s; raw_string_ostream os(s); T->print(os); return os.str(); }

struct Dumper {
  Module &M; const DataLayout &DL; json::OStream &J;
  std::map<const Value*, int> ids;
  Dumper(Module &m, json::OStream &j) : M(m), DL(m.getDataLayout()), J(j) {}

  std::string dem(StringRef n) { return demangle(n.str()); }

  void val(const Value *V) {
    if (auto *CI = dyn_cast<ConstantInt>(V)) {
      SmallString<40> s; CI->getValue().toString(s, 10, true);
      J.array([&]{ J.value("ci"); J.value(s.str()); J.value((int64_t)CI->getBitWidth()); });
    } else if (auto *CF = dyn_cast<ConstantFP>(V)) {
      SmallString<40> s; CF->getValueAPF().bitcastToAPInt().toString(s, 16, false);
      J.array([&]{ J.value("cf"); J.value(s.str()); J.value(tystr(CF->getType())); });
    } else if (isa<ConstantPointerNull>(V)) J.array([&]{ J.value("null"); });
    else if (isa<UndefValue>(V)) J.array([&]{ J.value("undef"); });
    else if (auto *A = dyn_cast<Argument>(V)) J.array([&]{ J.value("a"); J.value((int64_t)A->getArgNo()); });
    else if (auto *F = dyn_cast<Function>(V)) J.array([&]{ J.value("f"); J.value(F->getName()); J.value(dem(F->getName())); });
    else if (auto *G = dyn_cast<GlobalVariable>(V)) gval(G, 0);
    else if (auto *I = dyn_cast<Instruction>(V)) J.array([&]{ J.value("i"); J.value((int64_t)ids[I]); });
    else if (auto *C = dyn_cast<Constant>(V)) {
      if (V->getType()->isPointerTy()) {
        APInt off(DL.getIndexTypeSizeInBits(V->getType()), 0);
        const Value *B = V->stripAndAccumulateConstantOffsets(DL, off, true);
        if (auto *G = dyn_cast<GlobalVariable>(B)) { gval(G, off.getSExtValue()); return; }
      }
      if (C->isNullValue()) { J.array([&]{ J.value("zero"); J.value(tystr(C->getType())); }); return; }
      if (auto *CA = dyn_cast<ConstantAggregate>(C)) {
        J.array([&]{ J.value("agg"); J.value(tystr(C->getType())); for (auto &o : CA->operands()) val(o.get()); });
        return;
      }
      if (auto *CD = dyn_cast<ConstantDataSequential>(C)) {
        J.array([&]{ J.value("agg"); J.value(tystr(C->getType())); for (unsigned i=0;i<CD->getNumElements();++i) val(CD->getElementAsConstant(i)); });
        return;
      }
      std::string s; raw_string_ostream os(s); C->print(os);
      J.array([&]{ J.value("c"); J.value(os.str()); });
    } else {
      std::string s; raw_string_ostream os(s); V->print(os);
      J.array([&]{ J.value("x"); J.value(os.str()); });
    }
  }
  void gval(const GlobalVariable *G, int64_t off) {
    J.array([&]{
      J.value("g"); J.value(dem(G->getName())); J.value(off);
      if (G->isConstant() && G->hasInitializer()) {
        auto *I = G->getInitializer();
        if (auto *CD = dyn_cast<ConstantDataSequential>(I)) if (CD->isString(8)) {
          std::string s = CD->getAsString().str();
          if (off>=0 && (size_t)off<=s.size()) { s = s.substr(off); auto p = s.find('\0'); if (p!=std::string::npos) s = s.substr(0,p); }
          J.value(json::fixUTF8(s));
        }
        if (isa<ConstantAggregateZero>(I)) if (auto *AT = dyn_cast<ArrayType>(I->getType())) if (AT->getElementType()->isIntegerTy(8) && AT->getNumElements()==1) J.value("");
      }
    });
  }
  void loc(const Instruction &I) {
    J.attributeArray("loc", [&]{
      const DILocation *L = I.getDebugLoc().get();
      while (L) {
        auto *SP = L->getScope()->getSubprogram();
        J.array([&]{ J.value(L->getFilename()); J.value((int64_t)L->getLine()); J.value(SP ? SP->getName() : StringRef("")); });
        L = L->getInlinedAt();
      }
    });
  }
  std::string scevs(const SCEV *S) { std::string s; raw_string_ostream os(s); S->print(os); return os.str(); }

  void fn(Function &F, FunctionAnalysisManager &FAM) {
    ids.clear();
    int n = 0;
    std::map<const BasicBlock*, int> bid; int nb = 0;
    for (auto &B : F) { bid[&B] = nb++; for (auto &I : B) ids[&I] = n++; }
    auto &LI = FAM.getResult<LoopAnalysis>(F);
    auto &DT = FAM.getResult<DominatorTreeAnalysis>(F);
    auto &SE = FAM.getResult<ScalarEvolutionAnalysis>(F);
    J.object([&]{
      J.attribute("name", F.getName());
      J.attribute("dem", dem(F.getName()));
      if (auto *SP = F.getSubprogram()) { J.attribute("file", SP->getFilename()); J.attribute("line", (int64_t)SP->getLine()); }
      J.attribute("ret", tystr(F.getReturnType()));
      J.attributeArray("args", [&]{ for (auto &A : F.args()) J.object([&]{
        J.attribute("ty", tystr(A.getType())); J.attribute("name", A.getName());
        J.attribute("noalias", A.hasNoAliasAttr());
        J.attribute("sret", A.hasStructRetAttr());
        if (A.hasByValAttr()) J.attribute("byval", (int64_t)DL.getTypeAllocSize(A.getParamByValType()));
      }); });
      J.attributeArray("loops", [&]{
        for (auto *L : LI.getLoopsInPreorder()) J.object([&]{
          J.attribute("header", bid[L->getHeader()]);
          J.attribute("depth", (int64_t)L->getLoopDepth());
          if (auto *P = L->getParentLoop()) J.attribute("parent", bid[P->getHeader()]);
          J.attributeArray("blocks", [&]{ for (auto *B : L->blocks()) J.value(bid[B]); });
          J.attributeArray("latches", [&]{ SmallVector<BasicBlock*,4> ls; L->getLoopLatches(ls); for (auto *B : ls) J.value(bid[B]); });
          if (SE.hasLoopInvariantBackedgeTakenCount(L)) J.attribute("btc", scevs(SE.getBackedgeTakenCount(L)));
        });
      });
      J.attributeArray("blocks", [&]{
        for (auto &B : F) J.object([&]{
          J.attribute("id", bid[&B]);
          if (auto *Id = DT.getNode(&B)) if (Id->getIDom()) J.attribute("idom", bid[Id->getIDom()->getBlock()]);
          J.attributeArray("preds", [&]{ for (auto *P : predecessors(&B)) J.value(bid[P]); });
          J.attributeArray("insts", [&]{
            for (auto &I : B) {
              if (isa<DbgInfoIntrinsic>(I)) continue;
              if (auto *II = dyn_cast<IntrinsicInst>(&I)) { auto id = II->getIntrinsicID();
                if (id==Intrinsic::lifetime_start||id==Intrinsic::lifetime_end||id==Intrinsic::experimental_noalias_scope_decl||id==Intrinsic::assume) continue; }
              J.object([&]{ inst(I, bid, LI, SE); });
            }
          });
        });
      });
    });
  }
  void inst(Instruction &I, std::map<const BasicBlock*,int> &bid, LoopInfo &LI, ScalarEvolution &SE) {
    J.attribute("id", (int64_t)ids[&I]);
    J.attribute("op", I.getOpcodeName());
    J.attribute("ty", tystr(I.getType()));
    loc(I);
    auto ops = [&](auto b, auto e){ J.attributeArray("ops", [&]{ for (auto it=b; it!=e; ++it) val(*it); }); };
    if (auto *C = dyn_cast<CmpInst>(&I)) J.attribute("pred", CmpInst::getPredicateName(C->getPredicate()));
    if (auto *C = dyn_cast<ICmpInst>(&I)) if (C->getOperand(0)->getType()->isIntegerTy()) J.attribute("width", (int64_t)C->getOperand(0)->getType()->getIntegerBitWidth());
    if (auto *P = dyn_cast<PHINode>(&I)) {
      J.attributeArray("inc", [&]{ for (unsigned i=0;i<P->getNumIncomingValues();++i) J.value(bid[P->getIncomingBlock(i)]); });
    }
    if (auto *A = dyn_cast<AllocaInst>(&I)) { J.attribute("aty", tystr(A->getAllocatedType())); if (!A->isArrayAllocation()) J.attribute("size", (int64_t)DL.getTypeAllocSize(A->getAllocatedType())); }
    if (auto *G = dyn_cast<GEPOperator>(&I)) {
      MapVector<Value*, APInt> vo; APInt co(64,0);
      if (G->collectOffset(DL, 64, vo, co)) {
        J.attribute("coff", co.getSExtValue());
        J.attributeArray("voff", [&]{ for (auto &p : vo) J.array([&]{ val(p.first); J.value(p.second.getSExtValue()); }); });
      }
      J.attribute("srcty", tystr(G->getSourceElementType()));
    }
    if (auto *L = dyn_cast<LoadInst>(&I)) { J.attribute("size", (int64_t)DL.getTypeStoreSize(L->getType())); J.attribute("vol", L->isVolatile()); }
    if (auto *S = dyn_cast<StoreInst>(&I)) { J.attribute("size", (int64_t)DL.getTypeStoreSize(S->getValueOperand()->getType())); J.attribute("vol", S->isVolatile()); J.attribute("sty", tystr(S->getValueOperand()->getType())); }
    if (auto *E = dyn_cast<ExtractValueInst>(&I)) J.attributeArray("idx", [&]{ for (auto x : E->indices()) J.value((int64_t)x); });
    if (auto *E = dyn_cast<InsertValueInst>(&I)) J.attributeArray("idx", [&]{ for (auto x : E->indices()) J.value((int64_t)x); });
    if (auto *A = dyn_cast<AtomicRMWInst>(&I)) { J.attribute("rmw", AtomicRMWInst::getOperationName(A->getOperation())); }
    if (auto *CB = dyn_cast<CallBase>(&I)) {
      auto *F = CB->getCalledFunction();
      J.attribute("callee", F ? F->getName() : StringRef("?"));
      J.attribute("dem", F ? dem(F->getName()) : "?");
      if (!F) { J.attributeBegin("fptr"); val(CB->getCalledOperand()); J.attributeEnd(); }
      J.attribute("noreturn", CB->doesNotReturn());
      J.attribute("readnone", CB->doesNotAccessMemory());
      J.attribute("readonly", CB->onlyReadsMemory());
      if (CB->arg_size()>0 && CB->paramHasAttr(0, Attribute::StructRet)) J.attribute("sret", true);
      J.attributeArray("nocap", [&]{ for (unsigned i=0;i<CB->arg_size();++i) J.value(CB->doesNotCapture(i)); });
      J.attributeArray("ro", [&]{ for (unsigned i=0;i<CB->arg_size();++i) J.value(CB->onlyReadsMemory(i)); });
      ops(CB->arg_begin(), CB->arg_end());
    } else if (isa<BranchInst>(I) || isa<SwitchInst>(I)) {
      // only the condition is a value operand
      if (auto *B = dyn_cast<BranchInst>(&I)) { J.attributeArray("ops", [&]{ if (B->isConditional()) val(B->getCondition()); }); }
      else { auto *S = cast<SwitchInst>(&I); J.attributeArray("ops", [&]{ val(S->getCondition()); });
        J.attributeArray("cases", [&]{ for (auto &c : S->cases()) J.array([&]{ val(c.getCaseValue()); J.value(bid[c.getCaseSuccessor()]); }); }); 
        J.attribute("default", bid[S->getDefaultDest()]); }
    } else ops(I.op_begin(), I.op_end());
    if (auto *PD = dyn_cast<PossiblyDisjointInst>(&I)) if (PD->isDisjoint()) J.attribute("disjoint", true);
    if (isa<OverflowingBinaryOperator>(I)) { if (I.hasNoSignedWrap()) J.attribute("nsw", true); if (I.hasNoUnsignedWrap()) J.attribute("nuw", true); }
    if (I.isTerminator()) J.attributeArray("succ", [&]{ for (auto *S : successors(&I)) J.value(bid[S]); });
    if (auto *O = dyn_cast<FPMathOperator>(&I)) if (O->getFastMathFlags().any()) J.attribute("fmf", true);
    if (LI.getLoopFor(I.getParent()) && SE.isSCEVable(I.getType()) && !isa<CallBase>(I)) J.attribute("scev", scevs(SE.getSCEV(&I)));
  }
};


// Accesses which are certainly outside the array they go into: on the last
// iteration of a loop of known trip count, or at a constant index.
struct Oob { std::string loc; int64_t idx, n; bool store; };
static void findOob(Module &M0, const std::function<std::string(const Instruction&)> &where, const std::function<bool(const DILocation*)> &mine, std::vector<Oob> &out) {
  auto M = CloneModule(M0);
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PassBuilder PB;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  ModulePassManager MPM;
  if (PB.parsePassPipeline(MPM, "always-inline,globaldce,function(mem2reg,simplifycfg,loop-simplify,lcssa)")) return;
  MPM.run(*M, MAM);
  std::set<std::string> seen;
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    auto &SE = FAM.getResult<ScalarEvolutionAnalysis>(F); auto &LI = FAM.getResult<LoopAnalysis>(F); auto &DT = FAM.getResult<DominatorTreeAnalysis>(F);
    for (auto &B : F) for (auto &I : B) {
      Value *P = nullptr; bool st = false;
      if (auto *S = dyn_cast<StoreInst>(&I)) { P = S->getPointerOperand(); st = true; }
      else if (auto *L = dyn_cast<LoadInst>(&I)) P = L->getPointerOperand();
      while (auto *G = dyn_cast_or_null<GetElementPtrInst>(P)) {
        P = G->getPointerOperand();
        auto *AT = dyn_cast<ArrayType>(G->getSourceElementType());
        if (!AT || AT->getNumElements()==0 || G->getNumIndices()<2) continue;
        if (!mine(G->getDebugLoc().get())) continue;    // libraries have their own conventions
        auto it = G->idx_begin(); auto *Z = dyn_cast<ConstantInt>(*it++);
        if (!Z || !Z->isZero()) continue;
        auto *S = SE.getSCEV(*it);
        if (auto *AR = dyn_cast<SCEVAddRecExpr>(S)) {
          auto *L = AR->getLoop();
          auto *EB = L->getExitingBlock(); auto *LB = L->getLoopLatch();
          if (!AR->isAffine() || !EB || !LB || !L->contains(&B) || !DT.dominates(&B, LB)) continue;
          auto *C = dyn_cast<SCEVConstant>(SE.getBackedgeTakenCount(L));
          if (!C) continue;
          APInt k = C->getAPInt();
          bool after = &B!=EB && DT.dominates(EB, &B);
          if (after) { if (k.isZero()) continue; k -= 1; }
          S = AR->evaluateAtIteration(SE.getConstant(k), SE);
        }
        auto *C = dyn_cast<SCEVConstant>(S);
        if (!C) continue;
        int64_t v = C->getAPInt().getSExtValue(), n = AT->getNumElements();
        if (v>=0 && v<n) continue;
        auto w = where(I);
        if (!w.empty() && seen.insert(w).second) out.push_back({w, v, n, st});
      }
    }
  }
}

int main(int argc, char **argv) {
  std::vector<const char*> av(argv, argv+argc);
  for (auto s : {"-unroll-threshold=4000000","-unroll-full-max-count=128","-unroll-max-upperbound=128","-disable-loop-idiom-memset","-disable-loop-idiom-memcpy"}) av.push_back(s);
  cl::ParseCommandLineOptions(av.size(), av.data());
  LLVMContext C; SMDiagnostic Err;
  auto M = parseIRFile(In, Err, C);
  if (!M) { Err.print(argv[0], errs()); return 3; }
  // a constructor may be an alias of another one
  for (auto &A : make_early_inc_range(M->aliases())) { A.replaceAllUsesWith(A.getAliasee()); }
  Regex entry(Entry);
  auto any = [](auto &l, StringRef s){ for (auto &r : l) if (Regex(r).match(s)) return true; return false; };
  // only entries call the body of these, and one of them that hands its own
  // argument on; any other call goes to an external function (named .rec)
  auto handsOn = [](CallBase *CB){
    for (auto &A : CB->args()) {
      auto *L = dyn_cast<LoadInst>(A.get());
      auto *AI = L ? dyn_cast<AllocaInst>(L->getPointerOperand()) : nullptr;
      if (!AI) continue;
      unsigned n = 0; bool arg = false;
      for (auto *U : AI->users()) if (auto *St = dyn_cast<StoreInst>(U)) if (St->getPointerOperand()==AI) { ++n; if (auto *P = dyn_cast<Argument>(St->getValueOperand())) arg = P->getArgNo()>0; }
      if (n==1 && arg) return true;
    }
    return false; };
  if (!TopOnly.empty()) {
    std::vector<Function*> tops;
    for (auto &F : *M) if (!F.isDeclaration() && any(TopOnly, demangle(F.getName().str()))) tops.push_back(&F);
    for (auto *F : tops) {
      auto *S = Function::Create(F->getFunctionType(), GlobalValue::ExternalLinkage, F->getName()+".rec", M.get());
      S->copyAttributesFrom(F); S->removeFnAttr(Attribute::AlwaysInline); S->setLinkage(GlobalValue::ExternalLinkage); S->setComdat(nullptr);
      F->replaceUsesWithIf(S, [&](Use &U){
        auto *CB = dyn_cast<CallBase>(U.getUser());
        if (!CB || !CB->isCallee(&U)) return true;
        auto *P = CB->getFunction();
        return !(entry.match(P->getName()) || (P!=F && is_contained(tops, P) && handsOn(CB))); });
    }
  }
  // recursion: functions in a non-trivial SCC must not be alwaysinline
  std::set<Function*> rec;
  std::vector<std::vector<Function*>> cycles;
  { CallGraph CG(*M);
    for (auto it = scc_begin(&CG); !it.isAtEnd(); ++it) if (it.hasCycle()) {
      cycles.emplace_back();
      for (auto *N : *it) if (N->getFunction()) { rec.insert(N->getFunction()); cycles.back().push_back(N->getFunction()); } } }
  unsigned nop=0, ninl=0;
  // recursive functions: a fixed number of calls is inlined, the one below these becomes
  // an external function (named .rec) the analysis must account for.  Functions that call
  // one another count together.
  std::vector<std::string> UnfoldRx;
  for (auto &u : Unfold) UnfoldRx.push_back(u.substr(0,u.find('@')));
  for (auto &cyc : cycles) {
    std::vector<Function*> unf;
    int depth = 0;
    for (auto *F : cyc) {
      auto d = demangle(F->getName().str());
      if (F->isDeclaration() || !any(UnfoldRx, d)) continue;
      unf.push_back(F);
      int n = UnfoldDepth;    // REGEX@N: this many levels
      for (auto &u : Unfold) { auto p=u.find('@'); if (p!=std::string::npos && Regex(StringRef(u).take_front(p)).match(d)) n=atoi(u.c_str()+p+1); }
      depth = std::max(depth,n);
    }
    std::map<Function*,Function*> next;
    for (auto *F : unf) {
      rec.erase(F);
      auto *S = Function::Create(F->getFunctionType(), GlobalValue::ExternalLinkage, F->getName()+".rec", M.get());
      S->copyAttributesFrom(F); S->removeFnAttr(Attribute::AlwaysInline); S->setLinkage(GlobalValue::ExternalLinkage); S->setComdat(nullptr);
      next[F] = S;
    }
    for (int k=0;k<depth;++k) {
      std::map<Function*,Function*> lev;
      for (auto *F : unf) {
        ValueToValueMapTy vm;
        lev[F] = k+1<depth ? CloneFunction(F, vm) : F;
      }
      for (auto &[F,G] : lev) {
        std::vector<CallBase*> cs;
        for (auto &B : *G) for (auto &I : B) if (auto *CB = dyn_cast<CallBase>(&I)) if (next.count(CB->getCalledFunction())) cs.push_back(CB);
        for (auto *CB : cs) CB->setCalledFunction(next[CB->getCalledFunction()]);
      }
      next = lev;
    }
  }
  for (auto &F : *M) {
    std::string d = demangle(F.getName().str());
    if (StringRef(d).starts_with("operator new")) F.addFnAttr(Attribute::NoUnwind);    // running out of memory is left out
    if (any(Pure, d)) {
      F.setMemoryEffects(MemoryEffects::none()); F.addFnAttr(Attribute::NoUnwind); F.addFnAttr(Attribute::WillReturn);
    }
    if (any(PureRef, d)) {
      F.setMemoryEffects(MemoryEffects::argMemOnly(F.hasStructRetAttr() ? ModRefInfo::ModRef : ModRefInfo::Ref)); F.addFnAttr(Attribute::NoUnwind); F.addFnAttr(Attribute::WillReturn);
      for (auto &A : F.args()) if (A.getType()->isPointerTy()) { A.addAttr(Attribute::NoCapture); A.addAttr(A.hasStructRetAttr() ? Attribute::WriteOnly : Attribute::ReadOnly); }
    }
    for (auto &o : OutRef) {
      // a function of its arguments that writes the given (pointer) arguments
      auto [rx, list] = StringRef(o).rsplit('@');
      if (!Regex(rx).match(d)) continue;
      SmallVector<StringRef> ks; list.split(ks, ',');
      F.setMemoryEffects(MemoryEffects::argMemOnly(ModRefInfo::ModRef)); F.addFnAttr(Attribute::NoUnwind); F.addFnAttr(Attribute::WillReturn);
      for (auto &A : F.args()) if (A.getType()->isPointerTy()) {
        bool out = is_contained(ks, std::to_string(A.getArgNo()));
        bool both = is_contained(ks, std::to_string(A.getArgNo())+"+");
        A.addAttr(Attribute::NoCapture); A.removeAttr(Attribute::ReadOnly); A.removeAttr(Attribute::WriteOnly);
        if (!both) A.addAttr(out ? Attribute::WriteOnly : Attribute::ReadOnly); }
      F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline);
      if (!F.isDeclaration()) { F.deleteBody(); F.setLinkage(GlobalValue::ExternalLinkage); F.setComdat(nullptr); }
    }
    if (any(Fail, d)) {
      // a call to it is a failing end of the path
      F.removeFnAttr(Attribute::AlwaysInline); F.removeFnAttr(Attribute::OptimizeNone); F.addFnAttr(Attribute::NoInline);
      F.addFnAttr(Attribute::NoReturn); F.addFnAttr(Attribute::NoUnwind); F.addFnAttr(Attribute::Cold);
      if (!F.isDeclaration()) { F.deleteBody(); F.setLinkage(GlobalValue::ExternalLinkage); F.setComdat(nullptr); }
      continue;
    }
    if (F.isDeclaration()) continue;
    F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::OptimizeNone); F.removeFnAttr(Attribute::AlwaysInline);
    if (entry.match(F.getName())) { F.addFnAttr(Attribute::NoInline); continue; }
    if ((any(Opaque, d) && !any(Inl, d)) || any(Pure,d) || any(PureRef,d)) {
      F.addFnAttr(Attribute::NoInline); ++nop; 
      // opaque: its body must not inform the optimiser
      if (!F.isDeclaration()) { F.deleteBody(); F.setLinkage(GlobalValue::ExternalLinkage); F.setComdat(nullptr); }
      continue; }
    if (rec.count(&F)) continue;
    F.addFnAttr(Attribute::AlwaysInline); ++ninl;
  }
  // copies of 4-byte aligned aggregates become element-wise copies, so that
  // SROA does not fuse neighbouring 32-bit fields into one 64-bit value
  for (auto &F : *M) for (auto &B : F) for (auto it = B.begin(); it != B.end();) {
    auto *MC = dyn_cast<MemCpyInst>(&*it++);
    if (!MC) continue;
    auto *L = dyn_cast<ConstantInt>(MC->getLength());
    if (!L || MC->isVolatile()) continue;
    uint64_t n = L->getZExtValue();
    auto da = MC->getDestAlign().valueOrOne().value(), sa = MC->getSourceAlign().valueOrOne().value();
    if (std::min(da, sa) != 4 || n % 4 || n > 512) continue;
    IRBuilder<> IB(MC);
    std::vector<Value*> vs;
    auto *I8 = IB.getInt8Ty(); auto *I32 = IB.getInt32Ty();
    for (uint64_t o = 0; o < n; o += 4) vs.push_back(IB.CreateAlignedLoad(I32, IB.CreateConstInBoundsGEP1_64(I8, MC->getRawSource(), o), Align(4)));
    for (uint64_t o = 0; o < n; o += 4) IB.CreateAlignedStore(vs[o/4], IB.CreateConstInBoundsGEP1_64(I8, MC->getRawDest(), o), Align(4));
    MC->eraseFromParent();
  }
  // internalise everything that is not an entry
  for (auto &F : *M) if (!F.isDeclaration() && !entry.match(F.getName())) { F.setLinkage(GlobalValue::InternalLinkage); F.setComdat(nullptr); F.setVisibility(GlobalValue::DefaultVisibility);} 
  PipelineTuningOptions PTO; PTO.LoopVectorization=false; PTO.SLPVectorization=false;
  PassBuilder PB(nullptr, PTO);
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  TargetLibraryInfoImpl TLII(Triple(M->getTargetTriple())); TLII.disableAllFunctions();
  FAM.registerPass([&]{ return TargetLibraryAnalysis(TLII); });
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  std::string pl = Passes;
  if (pl.empty()) {
    std::string round = "sroa<modify-cfg>,early-cse<memssa>,simplifycfg,jump-threading,simplifycfg,instcombine<no-verify-fixpoint>,";
    std::string loops = "loop-simplify,lcssa,loop-mssa(loop-rotate,licm<allowspeculation>),simplifycfg,instcombine<no-verify-fixpoint>,loop-simplify,lcssa,loop(indvars,loop-deletion),loop-simplify,lcssa,loop-unroll<O3;full-unroll-max=128;upperbound;no-partial;no-peeling;no-runtime>,";
    if (NoUpper) { auto k = loops.find("upperbound;"); loops.replace(k, 11, "no-upperbound;"); }
    pl = "always-inline,globaldce,function(" + round + loops + round + loops + round + std::string("gvn") + (NoPre ? "<no-pre;no-load-pre;no-split-backedge-load-pre>" : "") + ",dse,adce,simplifycfg,instcombine<no-verify-fixpoint>,early-cse<memssa>,adce),globaldce";
  }
  auto run = [&](std::string pl) {
    ModulePassManager MPM;
    if (auto E = PB.parsePassPipeline(MPM, pl)) { errs() << "pipeline: " << toString(std::move(E)) << "\n"; exit(3); }
    MPM.run(*M, MAM); };
  std::vector<Oob> oobs;
  if (!NoOpt) findOob(*M, [&](const Instruction &I) -> std::string {
      for (const DILocation *L = I.getDebugLoc().get(); L; L = L->getInlinedAt()) {
        std::string f = L->getFilename().str();
        if (f.empty()) continue;
        if (f[0]!='/') f = (L->getDirectory() + "/" + f).str();
        if (f.find("/src/")==std::string::npos) continue;
        return (Twine(f) + ":" + Twine(L->getLine()) + " (" + (L->getScope()->getSubprogram() ? L->getScope()->getSubprogram()->getName() : "") + ")").str(); }
      return ""; }, [](const DILocation *L) {
      if (!L) return false;
      std::string f = (L->getFilename().starts_with("/") ? "" : L->getDirectory().str() + "/") + L->getFilename().str();
      for (auto *d : {"/src/core/", "/src/kokkos/", "/src/pack/", "/src/algorithm/", "/src/expression/", "/src/logging/", "/src/parser/"}) if (f.find(d)!=std::string::npos && f.find("/ekat_")!=std::string::npos) return true;
      return false; }, oobs);
  if (!NoOpt) run(pl);
  if (Bound && !NoOpt) {
    // loops become a given number of copies of their body; going round once
    // more is a call the analysis must prove unreachable
    auto *BF = cast<Function>(M->getOrInsertFunction("verif_bound", Type::getVoidTy(M->getContext())).getCallee());
    BF->addFnAttr(Attribute::NoReturn); BF->addFnAttr(Attribute::NoUnwind);
    for (auto &F : *M) {
      if (F.isDeclaration()) continue;
      for (int guard = 0; ; ++guard) {
        FAM.invalidate(F, PreservedAnalyses::none());
        auto &LI = FAM.getResult<LoopAnalysis>(F); auto &DT = FAM.getResult<DominatorTreeAnalysis>(F);
        auto &SE = FAM.getResult<ScalarEvolutionAnalysis>(F); auto &AC = FAM.getResult<AssumptionAnalysis>(F);
        auto &TTI = FAM.getResult<TargetIRAnalysis>(F); auto &ORE = FAM.getResult<OptimizationRemarkEmitterAnalysis>(F);
        Loop *L = nullptr;
        for (auto *X : LI.getLoopsInPreorder()) if (X->isInnermost()) { L = X; break; }
        if (!L) break;
        if (guard > 200) { errs() << "too many loops\n"; return 3; }
        auto *H = L->getHeader();
        simplifyLoop(L, &DT, &LI, &SE, &AC, nullptr, false);
        formLCSSARecursively(*L, DT, &LI, &SE);
        UnrollLoopOptions U{}; U.Count = Bound; U.Force = true; U.Runtime = false; U.AllowExpensiveTripCount = true; U.UnrollRemainder = false; U.ForgetAllSCEV = true;
        auto R = UnrollLoop(L, U, &LI, &SE, &DT, &AC, &TTI, &ORE, false);
        if (R == LoopUnrollResult::FullyUnrolled) continue;
        if (R == LoopUnrollResult::Unmodified) { errs() << "loop not bounded in " << F.getName() << "\n"; return 3; }
        // cut the way back
        DominatorTree D2(F); LoopInfo L2(D2);
        auto *N = L2.getLoopFor(H);
        if (!N || N->getHeader() != H) continue;
        SmallVector<BasicBlock*> ls; N->getLoopLatches(ls);
        for (auto *B : ls) {
          auto *C = BasicBlock::Create(M->getContext(), "bound", &F);
          CallInst::Create(BF, "", C); new UnreachableInst(M->getContext(), C);
          for (unsigned i = 0; i < B->getTerminator()->getNumSuccessors(); ++i) if (B->getTerminator()->getSuccessor(i) == H) {
            H->removePredecessor(B, true); B->getTerminator()->setSuccessor(i, C); }
        }
      }
    }
    run("function(sroa<modify-cfg>,early-cse<memssa>,simplifycfg,instcombine<no-verify-fixpoint>,gvn<no-pre;no-load-pre;no-split-backedge-load-pre>,dse,adce,simplifycfg,instcombine<no-verify-fixpoint>,early-cse<memssa>,adce)");
  }
  if (DumpLL) { std::error_code EC; raw_fd_ostream o(Out + ".ll", EC); M->print(o, nullptr); }
  std::error_code EC; raw_fd_ostream os(Out, EC);
  json::OStream J(os);
  Dumper D(*M, J);
  J.object([&]{
    J.attribute("opaque_defs", (int64_t)nop); J.attribute("inlined_defs", (int64_t)ninl);
    J.attributeArray("functions", [&]{ for (auto &F : *M) if (!F.isDeclaration()) D.fn(F, FAM); });
    J.attributeArray("oob", [&]{ for (auto &o : oobs) J.object([&]{ J.attribute("loc", o.loc); J.attribute("idx", o.idx); J.attribute("n", o.n); J.attribute("store", o.store); }); });
    // the variables of the module and what they start with
    J.attributeObject("vars", [&]{
      for (auto &G : M->globals()) {
        auto *CI = G.hasInitializer() && !G.isConstant() ? dyn_cast<ConstantInt>(G.getInitializer()) : nullptr;
        if (!CI) continue;
        J.attributeArray(demangle(G.getName().str()), [&]{ J.value((int64_t)CI->getSExtValue()); J.value(G.isThreadLocal()); });
      }
    });
    // contents of constant globals, as [offset, bytes, value]
    J.attributeObject("consts", [&]{
      for (auto &G : M->globals()) {
        if (!G.isConstant() || !G.hasDefinitiveInitializer()) continue;
        auto &DL = M->getDataLayout();
        if (DL.getTypeAllocSize(G.getValueType()) > 1024) continue;
        J.attributeArray(demangle(G.getName().str()), [&]{
          std::function<void(Constant*, uint64_t)> go = [&](Constant *C, uint64_t off) {
            if (auto *CI = dyn_cast<ConstantInt>(C)) {
              SmallString<40> t; CI->getValue().toString(t, 10, true);
              J.array([&]{ J.value((int64_t)off); J.value((int64_t)DL.getTypeStoreSize(C->getType())); J.value(t.str()); });
            } else if (auto *ST = dyn_cast<StructType>(C->getType())) {
              for (unsigned i=0;i<ST->getNumElements();++i) if (auto *E = C->getAggregateElement(i)) go(E, off + DL.getStructLayout(ST)->getElementOffset(i));
            } else if (auto *AT = dyn_cast<ArrayType>(C->getType())) {
              for (unsigned i=0;i<AT->getNumElements();++i) if (auto *E = C->getAggregateElement(i)) go(E, off + i*DL.getTypeAllocSize(AT->getElementType()));
            }
          };
          go(G.getInitializer(), 0);
        });
      }
    });
    // the pointers in constant globals, as [offset, operand]
    J.attributeObject("gptrs", [&]{
      for (auto &G : M->globals()) {
        if (!G.isConstant() || !G.hasDefinitiveInitializer()) continue;
        auto &DL = M->getDataLayout();
        if (DL.getTypeAllocSize(G.getValueType()) > 1024) continue;
        std::vector<std::pair<uint64_t, Constant*>> ps;
        std::function<void(Constant*, uint64_t)> go = [&](Constant *C, uint64_t off) {
          if (C->getType()->isPointerTy()) ps.push_back({off, C});
          else if (auto *ST = dyn_cast<StructType>(C->getType())) {
            for (unsigned i=0;i<ST->getNumElements();++i) if (auto *E = C->getAggregateElement(i)) go(E, off + DL.getStructLayout(ST)->getElementOffset(i));
          } else if (auto *AT = dyn_cast<ArrayType>(C->getType())) {
            for (unsigned i=0;i<AT->getNumElements();++i) if (auto *E = C->getAggregateElement(i)) go(E, off + i*DL.getTypeAllocSize(AT->getElementType()));
          }
        };
        go(G.getInitializer(), 0);
        if (!ps.empty()) J.attributeArray(demangle(G.getName().str()), [&]{ for (auto &p : ps) J.array([&]{ J.value((int64_t)p.first); D.val(p.second); }); });
      }
    });
    J.attributeArray("decls", [&]{ for (auto &F : *M) if (F.isDeclaration()) J.value(demangle(F.getName().str())); });
  });
  return 0;
}
