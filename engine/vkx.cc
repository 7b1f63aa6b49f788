// vkx: load the bitcode of every translation unit of the repository, link it
// into one module, inline functions that are not frozen anchors, bring the
// code to SSA form, and print the repository's functions as JSON facts.
//
//   vkx REPO ANCHORS OUT.json [-k anchor.txt] app1=a.bc x.bc ...
#include "llvm/ADT/StringSet.h"
#include "llvm/Analysis/CGSCCPassManager.h"
#include "llvm/Analysis/LoopAnalysisManager.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/Scalar/ADCE.h"
#include "llvm/Transforms/Scalar/DCE.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Analysis/AliasAnalysis.h"
#include "llvm/Analysis/CFG.h"
#include "llvm/Analysis/MemoryLocation.h"
#include "llvm/Transforms/Scalar/LoopUnrollPass.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/Utils/LCSSA.h"
#include "llvm/Transforms/Utils/LowerInvoke.h"
#include "llvm/Transforms/Utils/LoopSimplify.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <string>
using namespace llvm;

// a loop whose body has several ends ("continue") gets one, so that it is not
// taken for a nest of loops
struct OneLatch : PassInfoMixin<OneLatch> {
  PreservedAnalyses run(Function &F, FunctionAnalysisManager &FAM) {
    auto &LI = FAM.getResult<LoopAnalysis>(F);
    bool Ch = false;
    auto LP = LI.getLoopsInPreorder();
    std::vector<Loop *> Ls(LP.begin(), LP.end());
    for (Loop *L : Ls) {
      SmallVector<BasicBlock *, 4> La;
      L->getLoopLatches(La);
      if (La.size() < 2)
        continue;
      bool Ok = true;
      for (auto *B : La)
        Ok &= isa<BranchInst>(B->getTerminator()) || isa<SwitchInst>(B->getTerminator());
      if (!Ok)
        continue;
      BasicBlock *H = L->getHeader();
      BasicBlock *N = BasicBlock::Create(F.getContext(), "latch", &F, H);
      BranchInst *Br = BranchInst::Create(H, N);
      Br->setDebugLoc(La[0]->getTerminator()->getDebugLoc());
      for (PHINode &P : H->phis()) {
        PHINode *Q = PHINode::Create(P.getType(), La.size(), "", Br);
        for (int I = P.getNumIncomingValues() - 1; I >= 0; I--)
          if (is_contained(La, P.getIncomingBlock(I))) {
            Q->addIncoming(P.getIncomingValue(I), P.getIncomingBlock(I));
            P.removeIncomingValue(I, false);
          }
        P.addIncoming(Q, N);
      }
      for (auto *B : La)
        B->getTerminator()->replaceSuccessorWith(H, N);
      Ch = true;
    }
    return Ch ? PreservedAnalyses::none() : PreservedAnalyses::all();
  }
};

// "if (c) do {} while (c)" is "while (c) {}": a test that is made once more
// before the loop is made where the loop makes it
struct Unguard : PassInfoMixin<Unguard> {
  static BasicBlock *to(BasicBlock *B) {
    for (int I = 0; I < 10; I++) {
      auto *Br = dyn_cast<BranchInst>(&B->front());
      if (!Br || Br->isConditional())
        break;
      B = Br->getSuccessor(0);
    }
    return B;
  }
  // the instruction before this one on the only way here
  static Instruction *before(Instruction *I) {
    if (auto *P = I->getPrevNode())
      return P;
    auto *B = I->getParent()->getSinglePredecessor();
    if (!B || !B->getSingleSuccessor())
      return nullptr;
    return B->getTerminator();
  }
  static bool merge(BranchInst *A, BranchInst *G) {
    if (to(A->getSuccessor(0)) != to(G->getSuccessor(0)) || to(A->getSuccessor(1)) != to(G->getSuccessor(1)))
      return false;
    for (int I : {0, 1})
      if (isa<PHINode>(to(A->getSuccessor(I))->front()))
        return false;
    std::map<Value *, Value *> Open;
    std::set<Value *> Gone{G};
    Open[A->getCondition()] = G->getCondition();
    Instruction *X = A, *Y = G;
    for (int N = 0; N < 60; N++) {
      if (!X->getPrevNode() && Open.empty() && !isa<BranchInst>(X)) {
        for (Value *V : Gone)
          for (User *U : V->users())
            if (!Gone.count(U))
              return false;
        BasicBlock *T = X->getParent(), *B = Y->getParent();
        if (T == B || pred_empty(B) && Y == &B->front() && B != &B->getParent()->getEntryBlock())
          return false;
        // the rest of the guard is no longer reached
        B->splitBasicBlock(Y);
        B->getTerminator()->setSuccessor(0, T);
        return true;
      }
      X = before(X);
      while (X && isa<BranchInst>(X))
        X = before(X);
      Y = before(Y);
      while (Y && isa<BranchInst>(Y))
        Y = before(Y);
      if (!X || !Y || X == Y || isa<PHINode>(X) || isa<AllocaInst>(X) || !X->isSameOperationAs(Y))
        return false;
      auto It = Open.find(X);
      if (It != Open.end()) {
        if (It->second != Y)
          return false;
        Open.erase(It);
      }
      for (unsigned I = 0; I < X->getNumOperands(); I++) {
        Value *P = X->getOperand(I), *Q = Y->getOperand(I);
        if (P == Q)
          continue;
        if (!isa<Instruction>(P) || !isa<Instruction>(Q) || Open.count(P) && Open[P] != Q)
          return false;
        Open[P] = Q;
      }
      Gone.insert(Y);
    }
    return false;
  }
  PreservedAnalyses run(Function &F, FunctionAnalysisManager &FAM) {
    auto &LI = FAM.getResult<LoopAnalysis>(F);
    std::vector<std::pair<BranchInst *, Loop *>> C;
    std::vector<BranchInst *> All;
    for (auto &B : F)
      if (auto *Br = dyn_cast<BranchInst>(B.getTerminator()))
        if (Br->isConditional()) {
          All.push_back(Br);
          for (Loop *L = LI.getLoopFor(&B); L; L = L->getParentLoop())
            if (to(Br->getSuccessor(0)) == L->getHeader() || to(Br->getSuccessor(1)) == L->getHeader())
              C.push_back({Br, L});
        }
    std::vector<std::pair<BranchInst *, BranchInst *>> W;
    for (auto &P : C)
      for (auto *G : All)
        if (!P.second->contains(G))
          W.push_back({P.first, G});
    bool Ch = false;
    for (auto &P : W)
      Ch |= merge(P.first, P.second);
    if (Ch)
      removeUnreachableBlocks(F);
    return Ch ? PreservedAnalyses::none() : PreservedAnalyses::all();
  }
};

// a copy of a copy of something that did not change is a copy of it
struct CopyOfCopy : PassInfoMixin<CopyOfCopy> {
  PreservedAnalyses run(Function &F, FunctionAnalysisManager &FAM) {
    auto &AA = FAM.getResult<AAManager>(F);
    bool Ch = false;
    std::set<AllocaInst *> Locals;
    for (auto &B : F)
      for (auto &I : B) {
        auto *M = dyn_cast<MemCpyInst>(&I);
        auto *N = M ? dyn_cast<ConstantInt>(M->getLength()) : nullptr;
        auto *A = M ? dyn_cast<AllocaInst>(M->getSource()) : nullptr;
        if (!N || !A)
          continue;
        std::vector<Instruction *> Between;
        for (Instruction *P = Unguard::before(M); P && Between.size() < 200; P = Unguard::before(P)) {
          auto *C = dyn_cast<MemCpyInst>(P);
          if (!C || C->getDest() != A) {
            if (P->mayWriteToMemory())
              Between.push_back(P);
            continue;
          }
          if (C->getLength() != N || C->isVolatile() || M->isVolatile() || C->getSource()->getType() != A->getType())
            break;
          auto SL = MemoryLocation::getForSource(C), AL = MemoryLocation::getForDest(C);
          bool Ok = true;
          for (auto *W : Between)
            Ok &= !isModSet(AA.getModRefInfo(W, SL)) && !isModSet(AA.getModRefInfo(W, AL));
          if (!Ok)
            break;
          M->setSource(C->getSource());
          Locals.insert(A);
          Ch = true;
          break;
        }
      }
    for (auto *A : Locals) {
      std::vector<MemCpyInst *> In;
      for (User *U : A->users()) {
        auto *C = dyn_cast<MemCpyInst>(U);
        if (!C || C->getDest() != A || C->getSource() == A) {
          In.clear();
          break;
        }
        In.push_back(C);
      }
      for (auto *C : In)
        C->eraseFromParent();
    }
    return Ch ? PreservedAnalyses::none() : PreservedAnalyses::all();
  }
};

// a local object that is copied or moved to the result and then destroyed is
// the result
struct Returned : PassInfoMixin<Returned> {
  static bool copies(Function *F) {
    if (!F)
      return false;
    std::string D = demangle(F->getName().str());
    if (D.empty() || D.back() != ')')
      return false;
    int Dep = 0;
    size_t O = D.size();
    while (O-- > 0) {
      Dep += D[O] == ')';
      Dep -= D[O] == '(';
      if (!Dep)
        break;
    }
    if (O == std::string::npos)
      return false;
    std::string P = D.substr(O + 1, D.size() - O - 2), C = D.substr(0, O);
    for (const char *E : {" const&", "&&"})
      if (StringRef(P).endswith(E) && P.size() > strlen(E)) {
        P.resize(P.size() - strlen(E));
        if (!StringRef(C).starts_with(P + "::"))
          return false;
        std::string N = C.substr(P.size() + 2); // the constructor's own name
        if (N.find("::") != std::string::npos)
          return false;
        StringRef Cls(P);
        int A = 0;
        size_t B = 0;
        for (size_t I = 0; I + 1 < Cls.size(); I++) {
          A += Cls[I] == '<';
          A -= Cls[I] == '>';
          if (!A && Cls[I] == ':' && Cls[I + 1] == ':')
            B = I + 2;
        }
        return Cls.substr(B).split('<').first.split('[').first == StringRef(N).split('<').first.split('[').first;
      }
    return false;
  }
  static bool destroys(Instruction *I) {
    auto *C = dyn_cast<CallBase>(I);
    auto *F = C ? C->getCalledFunction() : nullptr;
    return F && StringRef(demangle(F->getName().str())).contains("::~") && C->arg_size() == 1;
  }
  PreservedAnalyses run(Function &F, FunctionAnalysisManager &FAM) {
    if (F.arg_empty() || !F.getArg(0)->hasStructRetAttr())
      return PreservedAnalyses::all();
    Argument *R = F.getArg(0);
    CallBase *M = nullptr;
    for (User *U : R->users()) {
      auto *S = dyn_cast<StoreInst>(U);
      auto *C = dyn_cast<CallBase>(U);
      if (S && S->getValueOperand() == R && isa<AllocaInst>(S->getPointerOperand()) && S->getPointerOperand()->hasOneUse())
        continue; // kept for the debugger
      if (C && destroys(C))
        continue; // when it is not returned after all
      if (M || !C || C->arg_size() != 2 || C->getArgOperand(0) != R || !copies(C->getCalledFunction()))
        return PreservedAnalyses::all();
      M = C;
    }
    auto *A = M ? dyn_cast<AllocaInst>(M->getArgOperand(1)) : nullptr;
    if (!A || isa<InvokeInst>(M))
      return PreservedAnalyses::all();
    std::vector<Instruction *> Dead{M};
    for (User *U : A->users()) {
      auto *I = cast<Instruction>(U);
      if (I == M || !isPotentiallyReachable(M, I))
        continue;
      if (!destroys(I))
        return PreservedAnalyses::all();
      Dead.push_back(I);
    }
    for (auto *I : Dead)
      I->eraseFromParent();
    A->replaceAllUsesWith(R);
    return PreservedAnalyses::none();
  }
};

static std::string Repo;
static std::set<std::string> Anchors, Force, Both;

// "HashGram_t<int>::foo(std::vector<...> const&)" -> "HashGram_t::foo"
static std::string baseName(StringRef Mangled) {
  std::string D = demangle(Mangled.str());
  for (const char *Pre : {"non-virtual thunk to ", "virtual thunk to "})
    if (StringRef(D).starts_with(Pre))
      D = D.substr(strlen(Pre));
  std::string R;
  int Ang = 0, Par = 0;
  size_t I = 0;
  auto isOp = [&](size_t P) {
    return R.size() >= 8 && R.compare(R.size() - 8, 8, "operator") == 0;
  };
  for (; I < D.size(); I++) {
    char C = D[I];
    if (Par == 0 && Ang == 0 && isOp(I)) {
      // operator name: copy verbatim up to the parameter list
      if (C == '(' && I + 1 < D.size() && D[I + 1] == ')') {
        R += "()";
        I++;
        continue;
      }
      static const char *Ops[] = {"<<=", ">>=", "<=", ">=", "<<", ">>",
                                  "->*", "->", "<", ">"};
      bool Hit = false;
      for (const char *O : Ops)
        if (D.compare(I, strlen(O), O) == 0) {
          R += O;
          I += strlen(O) - 1;
          Hit = true;
          break;
        }
      if (Hit)
        continue;
    }
    if (C == '<') {
      Ang++;
      continue;
    }
    if (C == '>' && Ang) {
      Ang--;
      continue;
    }
    if (Ang)
      continue;
    if (C == '(') {
      // "(anonymous namespace)" or "{lambda(...)#1}" keep going
      if (D.compare(I, 21, "(anonymous namespace)") == 0) {
        R += "(anon)";
        I += 20;
        continue;
      }
      if (R.size() >= 7 && R.compare(R.size() - 7, 7, "{lambda") == 0) {
        int P = 0;
        for (; I < D.size(); I++) {
          if (D[I] == '(')
            P++;
          if (D[I] == ')' && --P == 0)
            break;
        }
        continue;
      }
      // A parameter list; anything following (" const", "::{lambda") handled:
      int P = 0;
      size_t J = I;
      for (; J < D.size(); J++) {
        if (D[J] == '(')
          P++;
        if (D[J] == ')' && --P == 0)
          break;
      }
      size_t K = J + 1;
      if (D.compare(K, 6, " const") == 0)
        K += 6;
      if (D.compare(K, 2, "::") == 0) { // local entity
        I = K - 1;
        continue;
      }
      break;
    }
    R += C;
  }
  // Drop a return type: everything up to the last top-level space, unless it
  // is an operator ("operator new", conversion operators).
  size_t OpPos = R.find("operator");
  size_t Sp = R.rfind(' ', OpPos == std::string::npos ? std::string::npos : OpPos);
  if (Sp != std::string::npos)
    R = R.substr(Sp + 1);
  return R;
}

static std::string fnFile(const Function &F) {
  if (auto *SP = F.getSubprogram()) {
    std::string P = SP->getFilename().str();
    if (!P.empty() && P[0] != '/')
      P = (SP->getDirectory() + "/" + P).str();
    return P;
  }
  return "";
}
static bool inRepo(const std::string &P) {
  return P.compare(0, Repo.size() + 5, Repo + "/src/") == 0 ||
         P.compare(0, Repo.size() + 5, Repo + "/app/") == 0;
}
static bool isRepoFn(const Function &F) {
  return !F.isDeclaration() && inRepo(fnFile(F));
}

// ---------------------------------------------------------------- struct names
static std::map<std::string, std::vector<DICompositeType *>> DITypes;
static std::map<std::string, DICompositeType *> DIById;
static std::map<const StructType *, std::pair<std::string, DICompositeType *>> STMap;

static std::string stripT(StringRef N) {
  std::string R;
  int A = 0;
  for (char C : N) {
    if (C == '<')
      A++;
    else if (C == '>')
      A--;
    else if (!A)
      R += C;
  }
  return R;
}
static std::string diQual(const DICompositeType *T) {
  std::string R = stripT(T->getName());
  const DIScope *S = T->getScope();
  while (S) {
    if (isa<DINamespace>(S) || isa<DICompositeType>(S)) {
      std::string N = isa<DINamespace>(S) ? S->getName().str() : stripT(S->getName());
      if (!N.empty())
        R = N + "::" + R;
      S = S->getScope();
    } else
      break;
  }
  return R;
}
static std::string irName(const StructType *ST) {
  if (!ST->hasName())
    return "";
  StringRef N = ST->getName();
  for (const char *P : {"class.", "struct.", "union."})
    if (N.starts_with(P))
      N = N.substr(strlen(P));
  std::string S = N.str();
  while (true) { // numeric suffixes
    size_t D = S.rfind('.');
    if (D == std::string::npos)
      break;
    std::string Suf = S.substr(D + 1);
    if (!Suf.empty() && Suf.find_first_not_of("0123456789") == std::string::npos)
      S = S.substr(0, D);
    else
      break;
  }
  if (StringRef(S).ends_with(".base"))
    S = S.substr(0, S.size() - 5);
  return S;
}
static std::pair<std::string, DICompositeType *> mapST(const StructType *ST,
                                                       const DataLayout &DL) {
  auto It = STMap.find(ST);
  if (It != STMap.end())
    return It->second;
  std::string N = stripT(irName(ST));
  DICompositeType *Best = nullptr;
  uint64_t Sz = ST->isSized() ? DL.getTypeAllocSizeInBits(const_cast<StructType *>(ST)).getFixedValue() : 0;
  auto C = DITypes.find(N);
  if (C != DITypes.end()) {
    for (auto *T : C->second)
      if (T->getSizeInBits() == Sz) {
        Best = T;
        break;
      }
    if (!Best && !C->second.empty())
      Best = C->second[0];
  }
  return STMap[ST] = {N, Best};
}
static std::string fieldName(const StructType *ST, unsigned Idx, const DataLayout &DL) {
  auto P = mapST(ST, DL);
  uint64_t Off = DL.getStructLayout(const_cast<StructType *>(ST))->getElementOffsetInBits(Idx);
  std::string F;
  if (P.second)
    for (auto *E : P.second->getElements())
      if (auto *M = dyn_cast<DIDerivedType>(E)) {
        if (M->isStaticMember())
          continue;
        if (M->getTag() == dwarf::DW_TAG_member && M->getOffsetInBits() == Off) {
          F = M->getName().str();
          break;
        }
        if (M->getTag() == dwarf::DW_TAG_inheritance && M->getOffsetInBits() == Off)
          F = "^base";
      }
  if (F.empty())
    F = "#" + std::to_string(Idx);
  return P.first + "." + F;
}

static std::string tbField2(const DICompositeType *T, uint64_t Off, int Depth) {
  for (auto *E : T->getElements())
    if (auto *M = dyn_cast<DIDerivedType>(E)) {
      if (M->isStaticMember())
        continue;
      if (M->getTag() != dwarf::DW_TAG_member && M->getTag() != dwarf::DW_TAG_inheritance)
        continue;
      uint64_t O = M->getOffsetInBits() / 8;
      const DIType *BT = M->getBaseType();
      while (BT && isa<DIDerivedType>(BT) && BT->getTag() != dwarf::DW_TAG_pointer_type &&
             BT->getTag() != dwarf::DW_TAG_reference_type)
        BT = cast<DIDerivedType>(BT)->getBaseType();
      uint64_t Sz = BT ? BT->getSizeInBits() / 8 : 0;
      if (Off < O || Off >= O + std::max<uint64_t>(Sz, 1))
        continue;
      if (auto *C = dyn_cast_or_null<DICompositeType>(BT);
          C && Depth < 8 && (C->getTag() == dwarf::DW_TAG_class_type || C->getTag() == dwarf::DW_TAG_structure_type)) {
        if (C->isForwardDecl()) {
          auto It = DIById.find(C->getIdentifier().str());
          if (It != DIById.end())
            C = It->second;
        }
        std::string R = tbField2(C, Off - O, Depth + 1);
        if (!R.empty())
          return R;
      }
      if (M->getTag() == dwarf::DW_TAG_member && Off == O)
        return diQual(T) + "." + M->getName().str();
    }
  return "";
}
static std::string tbField(const std::string &Id, uint64_t Off) {
  auto It = DIById.find(Id);
  if (It == DIById.end())
    return "";
  return tbField2(It->second, Off, 0);
}

// ---------------------------------------------------------------- vtables
struct VT {
  GlobalVariable *G;
  uint64_t Off;
};
static std::map<const Metadata *, std::vector<VT>> VTs;
static Function *vtSlot(GlobalVariable *G, uint64_t Byte, const DataLayout &DL) {
  if (!G->hasInitializer())
    return nullptr;
  Constant *C = G->getInitializer();
  uint64_t O = Byte;
  while (C) {
    if (auto *CS = dyn_cast<ConstantStruct>(C)) {
      auto *SL = DL.getStructLayout(CS->getType());
      if (O >= SL->getSizeInBytes())
        return nullptr;
      unsigned I = SL->getElementContainingOffset(O);
      O -= SL->getElementOffset(I);
      C = CS->getOperand(I);
    } else if (auto *CA = dyn_cast<ConstantArray>(C)) {
      uint64_t I = O / 8;
      if (I >= CA->getNumOperands())
        return nullptr;
      O -= I * 8;
      C = CA->getOperand(I);
    } else
      return dyn_cast<Function>(C->stripPointerCasts());
  }
  return nullptr;
}
static std::vector<Function *> resolveVirtual(CallBase *CB, const DataLayout &DL) {
  std::vector<Function *> R;
  auto *L = dyn_cast<LoadInst>(CB->getCalledOperand());
  if (!L)
    return R;
  APInt Off(64, 0);
  Value *P = L->getPointerOperand()->stripAndAccumulateConstantOffsets(DL, Off, true);
  std::set<Function *> S;
  for (User *U : P->users())
    if (auto *C = dyn_cast<CallInst>(U))
      if (auto *F = C->getCalledFunction())
        if (F->getName() == "llvm.type.test" || F->getName() == "llvm.public.type.test") {
          Metadata *Id = cast<MetadataAsValue>(C->getArgOperand(1))->getMetadata();
          for (auto &V : VTs[Id])
            if (Function *T = vtSlot(V.G, V.Off + Off.getZExtValue(), DL))
              if (T->getName() != "__cxa_pure_virtual")
                S.insert(T);
        }
  R.assign(S.begin(), S.end());
  return R;
}

// Names of the struct fields a GEP steps through and of the types of locals are
// attached before linking: the linker unifies structurally equal struct types.
static void annotate(Module &M) {
  const DataLayout &DL = M.getDataLayout();
  LLVMContext &C = M.getContext();
  STMap.clear();
  for (auto &F : M)
    for (auto &I : instructions(F)) {
      if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
        std::vector<Metadata *> V;
        for (auto GI = gep_type_begin(G), GE = gep_type_end(G); GI != GE; ++GI)
          if (StructType *ST = GI.getStructTypeOrNull())
            V.push_back(MDString::get(C, fieldName(ST, cast<ConstantInt>(GI.getOperand())->getZExtValue(), DL)));
        if (!V.empty())
          G->setMetadata("vkx", MDNode::get(C, V));
      } else if (auto *A = dyn_cast<AllocaInst>(&I)) {
        std::string S;
        raw_string_ostream O(S);
        if (auto *ST = dyn_cast<StructType>(A->getAllocatedType()); ST && ST->hasName())
          O << "%" << stripT(irName(ST));
        else
          A->getAllocatedType()->print(O, false, true);
        A->setMetadata("vkx", MDNode::get(C, {MDString::get(C, O.str())}));
      }
    }
}
static void collectTypes(Module &M) {
  DebugInfoFinder DF;
  DF.processModule(M);
  for (auto *T : DF.types())
    if (auto *C = dyn_cast<DICompositeType>(T))
      if (!C->isForwardDecl() && (C->getTag() == dwarf::DW_TAG_class_type ||
                                  C->getTag() == dwarf::DW_TAG_structure_type)) {
        auto &V = DITypes[diQual(C)];
        if (std::find(V.begin(), V.end(), C) == V.end())
          V.push_back(C);
        DIById[C->getIdentifier().str()] = C;
        if (C->getIdentifier().empty())
          DIById[C->getName().str()] = C;
      }
}

// ---------------------------------------------------------------- output
struct Emitter {
  json::OStream &J;
  const DataLayout &DL;
  DenseMap<const Value *, int> Id;
  Emitter(json::OStream &J, const DataLayout &DL) : J(J), DL(DL) {}

  void cstr(const Value *V) {}
  void typ(Type *T) {
    std::string S;
    raw_string_ostream O(S);
    if (auto *ST = dyn_cast<StructType>(T); ST && ST->hasName())
      O << "%" << irName(ST);
    else
      T->print(O, false, true);
    J.value(O.str());
  }
  bool strOf(const Value *V, std::string &Out) {
    V = V->stripPointerCasts();
    if (auto *G = dyn_cast<GlobalVariable>(V))
      if (G->isConstant() && G->hasInitializer()) {
        if (auto *D = dyn_cast<ConstantDataSequential>(G->getInitializer()))
          if (D->isString()) {
            Out = D->getAsString().str();
            while (!Out.empty() && Out.back() == 0)
              Out.pop_back();
            return true;
          }
        if (isa<ConstantAggregateZero>(G->getInitializer()) &&
            G->getName().starts_with(".str")) {
          Out = "";
          return true;
        }
      }
    return false;
  }
  void operand(const Value *V) {
    J.arrayBegin();
    std::string S;
    if (auto *CI = dyn_cast<ConstantInt>(V)) {
      J.value("c");
      if (CI->getBitWidth() <= 64)
        J.value(CI->getBitWidth() == 1 ? (int64_t)CI->getZExtValue() : CI->getSExtValue());
      else
        J.value(0);
    } else if (auto *CF = dyn_cast<ConstantFP>(V)) {
      APFloat F = CF->getValueAPF();
      bool L;
      F.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &L);
      J.value("f");
      SmallString<32> B;
      F.toString(B, 9);
      J.value(B.str());
    } else if (isa<ConstantPointerNull>(V))
      J.value("n");
    else if (isa<UndefValue>(V))
      J.value("u");
    else if (auto *F = dyn_cast<Function>(V)) {
      J.value("fn");
      J.value(F->getName());
    } else if (isa<GlobalVariable>(V)) {
      if (strOf(V, S)) {
        J.value("s");
        J.value(json::fixUTF8(S));
      } else {
        J.value("g");
        J.value(demangle(V->getName().str()));
      }
    } else if (auto *A = dyn_cast<Argument>(V)) {
      J.value("a");
      J.value((int64_t)A->getArgNo());
    } else if (isa<Instruction>(V)) {
      J.value("i");
      J.value(Id.lookup(V));
    } else if (auto *CE = dyn_cast<ConstantExpr>(V)) {
      if (auto *G = dyn_cast<GEPOperator>(CE)) {
        J.value("ge");
        gep(G);
      } else {
        J.value("ce");
        J.value(CE->getOpcodeName());
        operand(CE->getOperand(0));
      }
    } else if (auto *BB = dyn_cast<BasicBlock>(V)) {
      J.value("b");
      J.value(Id.lookup(BB));
    } else if (isa<ConstantAggregateZero>(V)) {
      J.value("c");
      J.value(0);
    } else {
      J.value("?");
      raw_string_ostream O(S);
      V->print(O);
      J.value(json::fixUTF8(O.str()));
    }
    J.arrayEnd();
  }
  void gep(const GEPOperator *G) {
    // base, then path steps
    operand(G->getPointerOperand());
    J.arrayBegin();
    bool First = true;
    MDNode *MD = nullptr;
    unsigned NS = 0;
    Type *Prev = nullptr;
    if (auto *GI = dyn_cast<GetElementPtrInst>(G))
      MD = GI->getMetadata("vkx");
    for (auto GI = gep_type_begin(G), GE = gep_type_end(G); GI != GE; ++GI) {
      const Value *Ix = GI.getOperand();
      if (StructType *ST = GI.getStructTypeOrNull()) {
        unsigned I = cast<ConstantInt>(Ix)->getZExtValue();
        First = false;
        unsigned K = NS++;
        if (DL.getStructLayout(ST)->getElementOffset(I).getFixedValue() == 0)
          continue; // implied; accesses carry their field in "tf"
        J.arrayBegin();
        J.value("f");
        if (MD && K < MD->getNumOperands())
          J.value(cast<MDString>(MD->getOperand(K))->getString());
        else
          J.value(fieldName(ST, I, DL));
        J.value((int64_t)DL.getStructLayout(ST)->getElementOffset(I).getFixedValue());
        J.arrayEnd();
      } else {
        auto *CI = dyn_cast<ConstantInt>(Ix);
        if (!(First && CI && CI->isZero())) {
          J.arrayBegin();
          J.value(First ? "x" : "e");
          operand(Ix);
          J.value((int64_t)DL.getTypeAllocSize(GI.getIndexedType()).getFixedValue());
          if (!First) // number of elements
            J.value((int64_t)(Prev && isa<ArrayType>(Prev) ? Prev->getArrayNumElements() : 0));
          J.arrayEnd();
        }
      }
      First = false;
      Prev = GI.getIndexedType();
    }
    J.arrayEnd();
  }
  void func(Function &F, bool Inlined) {
    Id.clear();
    int N = 0;
    for (auto &BB : F)
      Id[&BB] = N++;
    N = 0;
    for (auto &I : instructions(F))
      Id[&I] = N++;
    std::map<const Value *, std::string> VarNames;
    for (auto &I : instructions(F)) {
      if (auto *D = dyn_cast<DbgDeclareInst>(&I)) {
        if (D->getAddress())
          VarNames[D->getAddress()] = D->getVariable()->getName().str();
      } else if (auto *D = dyn_cast<DbgValueInst>(&I)) {
        if (D->getNumVariableLocationOps() == 1 && D->getValue())
          VarNames.emplace(D->getValue(), D->getVariable()->getName().str());
      }
    }
    J.objectBegin();
    J.attribute("name", F.getName());
    J.attribute("dem", demangle(F.getName().str()));
    J.attribute("base", baseName(F.getName()));
    J.attribute("file", fnFile(F).substr(Repo.size() + 1));
    J.attribute("line", (int64_t)F.getSubprogram()->getLine());
    J.attribute("inlined", Inlined);
    J.attributeBegin("ret");
    typ(F.getReturnType());
    J.attributeEnd();
    J.attributeBegin("args");
    J.arrayBegin();
    for (auto &A : F.args()) {
      J.arrayBegin();
      auto VN = VarNames.find(&A);
      J.value(VN != VarNames.end() ? VN->second : A.getName().str());
      typ(A.getType());
      J.value(A.hasStructRetAttr() ? "sret" : A.hasByValAttr() ? "byval" : "");
      J.arrayEnd();
    }
    J.arrayEnd();
    J.attributeEnd();
    J.attributeBegin("blocks");
    J.arrayBegin();
    for (auto &BB : F) {
      J.arrayBegin();
      for (auto &I : BB) {
        if (isa<DbgInfoIntrinsic>(I))
          continue;
        if (auto *II = dyn_cast<IntrinsicInst>(&I)) {
          switch (II->getIntrinsicID()) {
          case Intrinsic::lifetime_start:
          case Intrinsic::lifetime_end:
          case Intrinsic::assume:
          case Intrinsic::type_test:
          case Intrinsic::public_type_test:
          case Intrinsic::experimental_noalias_scope_decl:
          case Intrinsic::stacksave:
          case Intrinsic::stackrestore:
            continue;
          default:
            break;
          }
        }
        inst(I, VarNames);
      }
      J.arrayEnd();
    }
    J.arrayEnd();
    J.attributeEnd();
    J.objectEnd();
  }
  void inst(Instruction &I, std::map<const Value *, std::string> &VN) {
    J.objectBegin();
    J.attribute("id", (int64_t)Id.lookup(&I));
    J.attribute("op", I.getOpcodeName());
    if (!I.getType()->isVoidTy()) {
      J.attributeBegin("ty");
      typ(I.getType());
      J.attributeEnd();
    }
    if (auto &L = I.getDebugLoc()) {
      J.attribute("ln", (int64_t)L.getLine());
      auto *Sc = L->getScope();
      std::string P = Sc->getFilename().str();
      if (!P.empty() && P[0] != '/')
        P = (Sc->getDirectory() + "/" + P).str();
      if (inRepo(P))
        P = P.substr(Repo.size() + 1);
      J.attribute("fl", P);
      if (isa<LoadInst>(I) && I.getType()->isPointerTy())
        if (auto *SP = dyn_cast<DILocalScope>(Sc)->getSubprogram())
          if (SP->getName() == "__normal_iterator")
            J.attribute("it", true);
    }
    auto It = VN.find(&I);
    if (It != VN.end())
      J.attribute("vn", It->second);
    if (MDNode *TB = I.getMetadata(LLVMContext::MD_tbaa)) {
      std::string B, A;
      uint64_t Off = 0;
      if (TB->getNumOperands() >= 3) {
        auto *BT = dyn_cast<MDNode>(TB->getOperand(0));
        auto *AT = dyn_cast<MDNode>(TB->getOperand(1));
        Off = mdconst::extract<ConstantInt>(TB->getOperand(2))->getZExtValue();
        if (BT && BT->getNumOperands())
          if (auto *S = dyn_cast<MDString>(BT->getOperand(0)))
            B = S->getString().str();
        if (AT && AT->getNumOperands())
          if (auto *S = dyn_cast<MDString>(AT->getOperand(0)))
            A = S->getString().str();
        if (BT != AT) {
          std::string F = tbField(B, Off);
          if (!F.empty())
            J.attribute("tf", F);
        }
        J.attribute("tt", A);
      }
    }
    J.attributeBegin("o");
    J.arrayBegin();
    if (auto *G = dyn_cast<GetElementPtrInst>(&I))
      gep(cast<GEPOperator>(G)); // (constant offset: see "off")
    else if (auto *P = dyn_cast<PHINode>(&I)) {
      for (unsigned K = 0; K < P->getNumIncomingValues(); K++) {
        J.arrayBegin();
        operand(P->getIncomingValue(K));
        J.value((int64_t)Id.lookup(P->getIncomingBlock(K)));
        J.arrayEnd();
      }
    } else if (auto *C = dyn_cast<CallBase>(&I)) {
      for (auto &A : C->args()) {
        if (isa<MetadataAsValue>(A.get())) {
          J.arrayBegin();
          J.value("?");
          J.value("metadata");
          J.arrayEnd();
        } else
          operand(A.get());
      }
    } else if (auto *B = dyn_cast<BranchInst>(&I)) {
      if (B->isConditional())
        operand(B->getCondition());
    } else if (auto *S = dyn_cast<SwitchInst>(&I)) {
      operand(S->getCondition());
    } else
      for (auto &O : I.operands())
        operand(O.get());
    J.arrayEnd();
    J.attributeEnd();
    if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
      APInt Off(64, 0);
      if (cast<GEPOperator>(G)->accumulateConstantOffset(DL, Off))
        J.attribute("off", Off.getSExtValue());
    }
    if (auto *C = dyn_cast<CallBase>(&I)) {
      Value *CV = C->getCalledOperand()->stripPointerCasts();
      if (auto *F = dyn_cast<Function>(CV)) {
        J.attribute("fn", F->getName());
        J.attribute("cb", baseName(F->getName()));
        if (F->doesNotReturn() || C->doesNotReturn())
          J.attribute("noret", true);
      } else if (isa<InlineAsm>(CV)) {
        J.attribute("cb", "asm");
      } else {
        auto T = resolveVirtual(C, DL);
        J.attribute("indirect", true);
        J.attributeBegin("tg");
        J.arrayBegin();
        for (auto *F : T)
          J.value(F->getName());
        J.arrayEnd();
        J.attributeEnd();
        std::set<std::string> B;
        std::string Last;
        for (auto *F : T)
          B.insert(baseName(F->getName()));
        J.attributeBegin("tb");
        J.arrayBegin();
        for (auto &S : B)
          J.value(S);
        J.arrayEnd();
        J.attributeEnd();
        J.attributeBegin("callee");
        operand(C->getCalledOperand());
        J.attributeEnd();
      }
      J.attributeBegin("at");
      J.arrayBegin();
      for (unsigned K = 0; K < C->arg_size(); K++)
        J.value(C->isByValArgument(K) ? "byval" : C->paramHasAttr(K, Attribute::StructRet) ? "sret" : "");
      J.arrayEnd();
      J.attributeEnd();
    } else if (auto *Cm = dyn_cast<CmpInst>(&I))
      J.attribute("pr", CmpInst::getPredicateName(Cm->getPredicate()));
    else if (auto *A = dyn_cast<AllocaInst>(&I)) {
      J.attributeBegin("aty");
      if (auto *MD = A->getMetadata("vkx"))
        J.value(cast<MDString>(MD->getOperand(0))->getString());
      else
        typ(A->getAllocatedType());
      J.attributeEnd();
      J.attribute("sz", (int64_t)DL.getTypeAllocSize(A->getAllocatedType()).getFixedValue());
    } else if (auto *S = dyn_cast<StoreInst>(&I)) {
      J.attributeBegin("sty");
      typ(S->getValueOperand()->getType());
      J.attributeEnd();
    }
    if (I.isTerminator()) {
      J.attributeBegin("su");
      J.arrayBegin();
      for (unsigned K = 0; K < I.getNumSuccessors(); K++)
        J.value((int64_t)Id.lookup(I.getSuccessor(K)));
      J.arrayEnd();
      J.attributeEnd();
      if (auto *S = dyn_cast<SwitchInst>(&I)) {
        J.attributeBegin("cs");
        J.arrayBegin();
        for (auto &C : S->cases()) {
          J.arrayBegin();
          J.value(C.getCaseValue()->getSExtValue());
          J.value((int64_t)Id.lookup(C.getCaseSuccessor()));
          J.arrayEnd();
        }
        J.arrayEnd();
        J.attributeEnd();
      }
    }
    J.objectEnd();
  }
};

int main(int argc, char **argv) {
  {
    const char *A[] = {"vkx", "-two-entry-phi-node-folding-threshold=0",
                       "-phi-node-folding-threshold=0", "-bonus-inst-threshold=0",
                       "-simplifycfg-hoist-common=false", "-simplifycfg-sink-common=false",
                       "-simplifycfg-merge-cond-stores=false", "-speculate-one-expensive-inst=false"};
    cl::ParseCommandLineOptions(sizeof(A) / sizeof(*A), A);
  }
  if (argc < 5)
    return 2;
  Repo = argv[1];
  {
    std::ifstream F(argv[2]);
    std::string L;
    while (std::getline(F, L))
      if (!L.empty() && L[0] == '+') // inlined, but judged on its own too
        Both.insert(L.substr(1));
      else if (!L.empty() && L[0] != '#')
        Anchors.insert(L);
  }
  LLVMContext Ctx;
  Ctx.enableDebugTypeODRUniquing();
  std::unique_ptr<Module> M;
  std::unique_ptr<Linker> Lk;
  int K = 4;
  for (; K < argc; K++) {
    std::string Arg = argv[K];
    if (Arg.compare(0, 2, "-i") == 0) { // force-inline an anchor in this view
      Anchors.erase(Arg.substr(2));
      Force.insert(Arg.substr(2));
      continue;
    }
    if (Arg.compare(0, 2, "-b") == 0) { // likewise, but kept on its own too
      Anchors.erase(Arg.substr(2));
      Both.insert(Arg.substr(2));
      continue;
    }
    if (Arg.compare(0, 2, "-a") == 0) { // one more anchor
      Anchors.insert(Arg.substr(2));
      continue;
    }
    std::string App;
    size_t E = Arg.find('=');
    if (E != std::string::npos) {
      App = Arg.substr(0, E);
      Arg = Arg.substr(E + 1);
    }
    SMDiagnostic Err;
    auto N = parseIRFile(Arg, Err, Ctx);
    if (!N) {
      Err.print("vkx", errs());
      return 2;
    }
    if (!App.empty())
      for (auto &F : *N)
        if (!F.isDeclaration() && isRepoFn(F) && (F.getName() == "main"))
          F.setName("main@" + App);
    // helper functions of an application must not collide with those of others
    if (!App.empty())
      for (auto &F : *N)
        if (!F.isDeclaration() && F.hasExternalLinkage() && isRepoFn(F) &&
            !F.getName().starts_with("main@")) {
          std::string P = fnFile(F);
          if (P.compare(0, Repo.size() + 5, Repo + "/app/") == 0)
            F.setLinkage(GlobalValue::InternalLinkage);
        }
    if (!App.empty())
      for (auto &G : N->globals())
        if (!G.isDeclaration() && G.hasExternalLinkage())
          G.setLinkage(GlobalValue::InternalLinkage);
    collectTypes(*N);
    annotate(*N);
    if (!M) {
      M = std::move(N);
      Lk = std::make_unique<Linker>(*M);
    } else if (Lk->linkInModule(std::move(N))) {
      errs() << "link failed: " << Arg << "\n";
      return 2;
    }
  }
  const DataLayout &DL = M->getDataLayout();

  for (auto &A : M->aliases())
    if (auto *F = dyn_cast<Function>(A.getAliasee()->stripPointerCasts()))
      A.replaceAllUsesWith(F);

  STMap.clear();
  for (auto &G : M->globals()) {
    SmallVector<MDNode *, 4> MDs;
    G.getMetadata(LLVMContext::MD_type, MDs);
    for (auto *N : MDs) {
      uint64_t Off = cast<ConstantInt>(cast<ConstantAsMetadata>(N->getOperand(0))->getValue())->getZExtValue();
      VTs[N->getOperand(1).get()].push_back({&G, Off});
    }
  }

  // Which functions are inlined: repository functions that are no anchors, and
  // a few transparent library templates.
  static const std::set<std::string> Lib = {
      "std::min", "std::max", "std::move", "std::forward", "std::addressof",
      "std::__addressof", "std::fabs", "std::abs", "std::pow", "std::log10", "std::get", "std::swap",
      "std::vector::operator[]", "std::vector::at", "std::vector::size", "std::vector::empty",
      "std::vector::begin", "std::vector::end", "std::vector::cbegin", "std::vector::cend",
      "std::vector::front", "std::vector::back", "std::vector::data", "std::vector::_M_data_ptr",
      "std::vector::_M_range_check", "std::begin", "std::end", "std::next", "std::prev", "std::advance",
      "std::__advance", "std::__iterator_category", "std::array::operator[]", "std::isnan", "std::isinf",
      "std::isfinite", "std::round", "std::floor", "std::sqrt", "std::exp", "std::log", "std::distance", "std::__distance",
      "__gnu_cxx::operator==", "__gnu_cxx::operator!=", "__gnu_cxx::operator-", "__gnu_cxx::operator<",
      "std::make_pair", "std::pair::pair", "std::numeric_limits::max", "std::numeric_limits::min"};
  std::set<Function *> Inl;
  for (auto &F : *M) {
    if (F.isDeclaration())
      continue;
    std::string B = baseName(F.getName());
    bool Want = false;
    if (isRepoFn(F))
      Want = !Anchors.count("*") && !Anchors.count(B) && !F.getName().starts_with("main@");
    else
      Want = Lib.count(B) || StringRef(B).starts_with("__gnu_cxx::__normal_iterator");
    if (Want) {
      // not directly recursive
      bool Rec = false;
      for (auto &I : instructions(F))
        if (auto *C = dyn_cast<CallBase>(&I))
          if (C->getCalledFunction() == &F)
            Rec = true;
      if (!Rec)
        Inl.insert(&F);
    }
    if (Both.count(B))
      F.setLinkage(GlobalValue::WeakODRLinkage);
    F.removeFnAttr(Attribute::NoInline);
    F.removeFnAttr(Attribute::OptimizeNone);
    F.removeFnAttr(Attribute::AlwaysInline);
  }
  for (auto *F : Inl)
    F->addFnAttr(Attribute::AlwaysInline);
  // every function of the repository, inlined ones included
  std::map<std::string, std::pair<std::string, std::set<std::string>>> Defined;
  for (auto &F : *M)
    if (!F.isDeclaration() && isRepoFn(F)) {
      auto &D = Defined[baseName(F.getName())];
      D.first = fnFile(F).substr(Repo.size() + 1);
      std::string S = demangle(F.getName().str());
      if (S.find('(') == std::string::npos) {
        D.second.insert("");
        continue;
      }
      size_t E = std::string::npos, B = StringRef(S).endswith(" const") ? S.size() - 6 : S.size();
      int Dep = 0; // parameter list only
      for (size_t I = B; I-- > 0;) {
        Dep += S[I] == ')';
        Dep -= S[I] == '(';
        if (!Dep) {
          E = I;
          break;
        }
      }
      D.second.insert(E == std::string::npos ? "" : S.substr(E));
    }

  {
    const char *Opt[] = {"vkx", "-unroll-threshold=20000"};
    cl::ParseCommandLineOptions(2, Opt);
  }
  PassBuilder PB;
  LoopAnalysisManager LAM;
  FunctionAnalysisManager FAM;
  CGSCCAnalysisManager CAM;
  ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM);
  PB.registerCGSCCAnalyses(CAM);
  PB.registerFunctionAnalyses(FAM);
  PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
  ModulePassManager MPM;
  MPM.addPass(createModuleToFunctionPassAdaptor(LowerInvokePass()));
  MPM.addPass(createModuleToFunctionPassAdaptor(Returned()));
  MPM.addPass(createModuleToFunctionPassAdaptor(Unguard()));
  MPM.addPass(AlwaysInlinerPass(false));
  auto SOpt = SimplifyCFGOptions().speculateBlocks(false).hoistCommonInsts(false).sinkCommonInsts(false).needCanonicalLoops(true).bonusInstThreshold(0);
  FunctionPassManager FPM;
  FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
  FPM.addPass(EarlyCSEPass(true));
  FPM.addPass(CopyOfCopy());
  FPM.addPass(SimplifyCFGPass(SOpt));
  FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
  FPM.addPass(EarlyCSEPass(true));
  FPM.addPass(ADCEPass());
  FPM.addPass(OneLatch());
  // loops over a few elements and their written-out form are one thing
  FPM.addPass(LoopUnrollPass(LoopUnrollOptions(2, false, false).setPartial(false).setPeeling(false).setRuntime(false)
                                 .setUpperBound(false).setProfileBasedPeeling(false).setFullUnrollMaxCount(4)));
  FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
  FPM.addPass(EarlyCSEPass(true));
  FPM.addPass(ADCEPass());
  FPM.addPass(SimplifyCFGPass(SOpt));
  FPM.addPass(LCSSAPass());
  MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));

  for (auto &F : *M)
    for (auto &BB : F)
      if (BB.getTerminator())
        BB.getTerminator()->setMetadata(LLVMContext::MD_loop, nullptr);
  // run only on functions of interest: drop bodies of library functions that
  // are not inlined
  for (auto &F : *M)
    if (!F.isDeclaration() && !isRepoFn(F) && !Inl.count(&F)) {
      F.deleteBody();
      F.setComdat(nullptr);
    }
  MPM.run(*M, MAM);

  std::error_code EC;
  raw_fd_ostream OS(argv[3], EC);
  json::OStream J(OS);
  Emitter E(J, DL);
  J.objectBegin();
  J.attributeBegin("functions");
  J.arrayBegin();
  for (auto &F : *M)
    if (isRepoFn(F))
      E.func(F, Inl.count(&F) && !Both.count(baseName(F.getName())));
  J.arrayEnd();
  J.attributeEnd();
  J.attributeBegin("defined");
  J.objectBegin();
  for (auto &D : Defined) {
    J.attributeBegin(D.first);
    J.arrayBegin();
    J.value(D.second.first);
    for (auto &S : D.second.second)
      J.value(S);
    J.arrayEnd();
    J.attributeEnd();
  }
  J.objectEnd();
  J.attributeEnd();
  // names of every function referenced, demangled
  J.attributeBegin("demangled");
  J.objectBegin();
  for (auto &F : *M)
    if (!F.isIntrinsic())
      J.attribute(F.getName(), demangle(F.getName().str()));
  J.objectEnd();
  J.attributeEnd();
  J.attributeBegin("types");
  J.objectBegin();
  for (auto &P : DITypes) {
    bool R = false;
    DICompositeType *T = P.second[0];
    std::string Fl = T->getFilename().str();
    if (!Fl.empty() && Fl[0] != '/')
      Fl = (T->getDirectory() + "/" + Fl).str();
    if (!inRepo(Fl))
      continue;
    J.attributeBegin(P.first);
    J.arrayBegin();
    for (auto *E : T->getElements())
      if (auto *D = dyn_cast<DIDerivedType>(E)) {
        J.arrayBegin();
        J.value(D->getTag() == dwarf::DW_TAG_inheritance ? "base" : D->isStaticMember() ? "static" : "field");
        if (D->getTag() == dwarf::DW_TAG_inheritance) {
          auto *BT = dyn_cast_or_null<DICompositeType>(D->getBaseType());
          J.value(BT ? diQual(BT) : "");
        } else
          J.value(D->getName());
        std::string TN;
        const DIType *BT = D->getBaseType();
        while (BT) {
          if (auto *DD = dyn_cast<DIDerivedType>(BT)) {
            if (DD->getTag() == dwarf::DW_TAG_pointer_type)
              TN = "*" + TN;
            if (!DD->getName().empty() && DD->getTag() != dwarf::DW_TAG_typedef) {
            }
            BT = DD->getBaseType();
          } else {
            if (auto *CT = dyn_cast<DICompositeType>(BT); CT && CT->getTag() == dwarf::DW_TAG_array_type)
              TN = "[" + std::to_string(CT->getSizeInBits() / 8) + "]" + TN;
            else
              TN = BT->getName().str() + TN;
            break;
          }
        }
        J.value(TN);
        J.arrayEnd();
      }
    J.arrayEnd();
    J.attributeEnd();
  }
  J.objectEnd();
  J.attributeEnd();
  J.objectEnd();
  return 0;
}
