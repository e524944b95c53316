// LLVM-18 pass plugin: instruments every function with shadow expressions
// (a symbolic expression pointer per SSA value, null = concrete).
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IR/CFG.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/ADT/MapVector.h"
#include "llvm/ADT/StringSet.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include <cstdlib>
#include <fstream>
#include <map>
#include <set>
using namespace llvm;

namespace {

std::set<std::string>& wrapped()
{
  static std::set<std::string> s;
  static bool init = false;
  if (!init)
  {
    init = true;
    if (const char* f = getenv("SX_WRAPLIST"))
    {
      std::ifstream in(f);
      std::string n;
      while (in >> n) s.insert(n);
    }
  }
  return s;
}

// ---------------------------------------------------------------- stage 1
// Runs before any optimisation: drop inline copies of library functions that
// the run-time models, replace hash functions by constants (see DESIGN.md).
struct EarlyPass : PassInfoMixin<EarlyPass>
{
  PreservedAnalyses run(Module& M, ModuleAnalysisManager&)
  {
    bool noHashStub = getenv("SX_NO_HASHSTUB") != nullptr;
    for (Function& F : M)
    {
      if (F.isDeclaration()) continue;
      if (F.hasAvailableExternallyLinkage())
      {
        if (F.getName().starts_with("__gmp"))
        {
          F.deleteBody();
          F.setLinkage(GlobalValue::ExternalLinkage);
          continue;
        }
        F.setLinkage(GlobalValue::LinkOnceODRLinkage);
        F.setComdat(M.getOrInsertComdat(F.getName()));
      }
      else if (F.getName().starts_with("__gmp"))
      {
        // gmp.h emits its inline functions as `extern inline`
        F.deleteBody();
        F.setLinkage(GlobalValue::ExternalLinkage);
        F.setComdat(nullptr);
        continue;
      }
      if (!noHashStub && F.getReturnType()->isIntegerTy(64)
          && F.getName().contains("HashFunction") && F.getName().contains("clE"))
      {
        F.deleteBody();
        F.setLinkage(GlobalValue::InternalLinkage);
        F.setComdat(nullptr);
        BasicBlock* B = BasicBlock::Create(M.getContext(), "entry", &F);
        IRBuilder<> I(B);
        I.CreateRet(ConstantInt::get(F.getReturnType(), 0));
      }
    }
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};

// ---------------------------------------------------------------- stage 2
struct Sx
{
  Module& M;
  LLVMContext& C;
  const DataLayout& DL;
  PointerType* PT;
  Type *I64, *I32, *I8, *VoidT;
  GlobalVariable *gCallee, *gRtok, *gArg, *gRet, *gPage, *gOvf, *gArgPtr;
  static const unsigned NARG = 64;

  Sx(Module& M) : M(M), C(M.getContext()), DL(M.getDataLayout())
  {
    PT = PointerType::getUnqual(C);
    I64 = Type::getInt64Ty(C);
    I32 = Type::getInt32Ty(C);
    I8 = Type::getInt8Ty(C);
    VoidT = Type::getVoidTy(C);
    auto ext = [&](const char* n, Type* t) {
      auto* g = cast<GlobalVariable>(M.getOrInsertGlobal(n, t));
      g->setDSOLocal(true);
      return g;
    };
    gCallee = ext("__sx_callee", PT);
    gRtok = ext("__sx_rtok", PT);
    gArg = ext("__sx_arg", ArrayType::get(PT, NARG));
    gRet = ext("__sx_ret", ArrayType::get(PT, NARG));
    gArgPtr = ext("__sx_argptr", ArrayType::get(PT, NARG));
    gPage = ext("__sx_pagemap", ArrayType::get(I8, 65536));
    gOvf = ext("__sx_ovf", PT);
  }

  FunctionCallee rt(const char* name, Type* ret, ArrayRef<Type*> args)
  {
    FunctionCallee f =
        M.getOrInsertFunction(name, FunctionType::get(ret, args, false));
    if (auto* F = dyn_cast<Function>(f.getCallee()))
    {
      F->setDoesNotThrow();
    }
    return f;
  }

  // per function
  Function* F = nullptr;
  DenseMap<Value*, Value*> S;
  Constant* Null() { return ConstantPointerNull::get(PT); }

  Type* shTy(Type* t)
  {
    if (auto* st = dyn_cast<StructType>(t))
    {
      SmallVector<Type*, 8> e;
      for (Type* x : st->elements()) e.push_back(shTy(x));
      return StructType::get(C, e);
    }
    if (auto* at = dyn_cast<ArrayType>(t))
    {
      return ArrayType::get(shTy(at->getElementType()), at->getNumElements());
    }
    return PT;
  }
  static bool isScalar(Type* t)
  {
    return (t->isIntegerTy() && t->getIntegerBitWidth() <= 128)
           || t->isPointerTy() || t->isFloatTy() || t->isDoubleTy();
  }
  static bool isAgg(Type* t) { return t->isStructTy() || t->isArrayTy(); }
  Constant* nullSh(Type* t) { return Constant::getNullValue(shTy(t)); }
  Value* sh(Value* v)
  {
    if (isa<Constant>(v) || isa<MetadataAsValue>(v) || isa<InlineAsm>(v)
        || isa<BasicBlock>(v))
      return nullSh(v->getType());
    auto it = S.find(v);
    if (it != S.end()) return it->second;
    return nullSh(v->getType());
  }
  static bool isNull(Value* v)
  {
    auto* c = dyn_cast<Constant>(v);
    return c && c->isNullValue();
  }
  unsigned width(Type* t)
  {
    if (t->isPointerTy()) return 64;
    return DL.getTypeSizeInBits(t).getFixedValue();
  }
  // value as (i64 lo) for passing concrete values; >64-bit: passes lo and hi
  Value* lo64(IRBuilder<>& B, Value* v)
  {
    Type* t = v->getType();
    if (t->isPointerTy()) return B.CreatePtrToInt(v, I64);
    if (t->isFloatTy()) return B.CreateZExt(B.CreateBitCast(v, I32), I64);
    if (t->isDoubleTy()) return B.CreateBitCast(v, I64);
    return B.CreateZExtOrTrunc(v, I64);
  }
  Value* hi64(IRBuilder<>& B, Value* v)
  {
    Type* t = v->getType();
    if (t->isIntegerTy() && t->getIntegerBitWidth() > 64)
    {
      return B.CreateZExtOrTrunc(
          B.CreateLShr(v, ConstantInt::get(t, 64)), I64);
    }
    return ConstantInt::get(I64, 0);
  }
  // Emits `if (any shadow non-null) r = slow() else r = null`.
  Value* anyNonNull(IRBuilder<>& B, ArrayRef<Value*> shs)
  {
    Value* acc = nullptr;
    for (Value* s : shs)
    {
      if (isNull(s)) continue;
      Value* i = B.CreatePtrToInt(s, I64);
      acc = acc ? B.CreateOr(acc, i) : i;
    }
    if (!acc) return nullptr;
    return B.CreateICmpNE(acc, ConstantInt::get(I64, 0));
  }
  // Value versions of a shadow expr: node for (shadow, conc)
  Value* node(IRBuilder<>& B, Value* s, Value* v)
  {
    // __sx_node(shadow, lo, hi, width) -> shadow or constant node
    FunctionCallee f = rt("__sx_node", PT, {PT, I64, I64, I32});
    return B.CreateCall(f, {s, lo64(B, v), hi64(B, v),
                            ConstantInt::get(I32, width(v->getType()))});
  }
  template <typename Fn>
  Value* guarded(Instruction* before, ArrayRef<Value*> shs, Fn slow)
  {
    IRBuilder<> B(before);
    Value* c = anyNonNull(B, shs);
    if (!c) return Null();
    BasicBlock* head = before->getParent();
    Instruction* thenT = SplitBlockAndInsertIfThen(c, before, false);
    IRBuilder<> T(thenT);
    Value* r = slow(T);
    BasicBlock* thenB = T.GetInsertBlock();
    (void)head;
    if (!r) return nullptr;
    IRBuilder<> J(before);
    J.SetInsertPoint(before->getParent(), before->getParent()->getFirstInsertionPt());
    PHINode* p = J.CreatePHI(PT, 2);
    for (BasicBlock* pr : predecessors(before->getParent()))
    {
      p->addIncoming(pr == thenB ? r : Null(), pr);
    }
    return p;
  }
  Instruction* next(Instruction* I) { return I->getNextNode(); }

  bool skip(Function& Fn)
  {
    if (Fn.isDeclaration()) return true;
    if (Fn.getName().starts_with("__sx")) return true;
    if (Fn.getName().starts_with("__clang_call_terminate")) return true;
    return false;
  }

  // record in section sx_fn that the function was executed
  std::vector<GlobalValue*> used;
  void markEntry(Function& Fn)
  {
    Constant* nm = ConstantDataArray::getString(C, Fn.getName());
    auto* gn = new GlobalVariable(M, nm->getType(), true, GlobalValue::PrivateLinkage, nm, "sx.fn");
    StructType* st = StructType::get(C, {PT, I64});
    auto* ge = new GlobalVariable(M, st, false, GlobalValue::PrivateLinkage,
                                  ConstantStruct::get(st, {gn, ConstantInt::get(I64, 0)}), "sx.fe");
    ge->setSection("sx_fn");
    ge->setAlignment(Align(16));
    used.push_back(ge);
    BasicBlock& E = Fn.getEntryBlock();
    Instruction* ip = &*E.getFirstInsertionPt();
    while (isa<AllocaInst>(ip)) ip = ip->getNextNode();
    IRBuilder<> B(ip);
    B.CreateStore(ConstantInt::get(I64, 1), B.CreateStructGEP(st, ge, 1));
  }
  Value* argSlot(IRBuilder<>& B, GlobalVariable* g, unsigned i)
  {
    return B.CreateConstInBoundsGEP2_32(g->getValueType(), g, 0, i);
  }

  void run(Function& Fn)
  {
    if (skip(Fn)) return;
    F = &Fn;
    S.clear();
    // split invoke normal edges
    SmallVector<InvokeInst*, 16> inv;
    for (BasicBlock& BB : Fn)
      if (auto* I = dyn_cast<InvokeInst>(BB.getTerminator())) inv.push_back(I);
    for (InvokeInst* I : inv)
    {
      BasicBlock* nd = I->getNormalDest();
      BasicBlock* nb = BasicBlock::Create(C, "sx.norm", &Fn, nd);
      BranchInst::Create(nd, nb);
      for (PHINode& p : nd->phis())
      {
        for (unsigned k = 0; k < p.getNumIncomingValues(); k++)
          if (p.getIncomingBlock(k) == I->getParent())
            p.setIncomingBlock(k, nb);
      }
      I->setNormalDest(nb);
    }
    if (Fn.getName().contains("5ethos") && !Fn.getName().starts_with("_ZNSt")
        && !Fn.getName().starts_with("_ZSt"))
      markEntry(Fn);
    // collect in RPO
    std::vector<Instruction*> work;
    ReversePostOrderTraversal<Function*> rpo(&Fn);
    for (BasicBlock* BB : rpo)
      for (Instruction& I : *BB) work.push_back(&I);
    // entry: argument shadows
    {
      BasicBlock& E = Fn.getEntryBlock();
      Instruction* ip = &*E.getFirstInsertionPt();
      while (isa<AllocaInst>(ip)) ip = ip->getNextNode();
      IRBuilder<> B(ip);
      bool anyArg = Fn.arg_size() > 0;
      if (anyArg)
      {
        Value* tok = B.CreateLoad(PT, gCallee);
        Value* same = B.CreateICmpEQ(tok, &Fn);
        unsigned k = 0;
        for (Argument& a : Fn.args())
        {
          unsigned idx = k++;
          if (idx >= NARG) break;
          if (a.hasByValAttr())
          {
            Value* src = B.CreateSelect(
                same, B.CreateLoad(PT, argSlot(B, gArgPtr, idx)), Null());
            B.CreateCall(rt("__sx_byval", VoidT, {PT, PT, I64}),
                         {&a, src,
                          ConstantInt::get(I64, DL.getTypeAllocSize(
                                                     a.getParamByValType()))});
            continue;
          }
          // pointer arguments are always concretised by the caller
          if (!isScalar(a.getType()) || a.getType()->isPointerTy()) continue;
          Value* s = B.CreateSelect(
              same, B.CreateLoad(PT, argSlot(B, gArg, idx)), Null());
          S[&a] = s;
        }
        B.CreateStore(Null(), gCallee);
      }
      // clear shadows of allocas
      for (Instruction& I : E)
      {
        auto* A = dyn_cast<AllocaInst>(&I);
        if (!A) break;
        if (!A->isStaticAlloca()) continue;
        uint64_t sz = DL.getTypeAllocSize(A->getAllocatedType())
                      * cast<ConstantInt>(A->getArraySize())->getZExtValue();
        emitClear(ip, A, ConstantInt::get(I64, sz));
      }
    }
    // shadow phis first
    for (Instruction* I : work)
    {
      if (auto* P = dyn_cast<PHINode>(I))
      {
        Type* t = P->getType();
        if (isScalar(t) || isAgg(t))
        {
          PHINode* sp = PHINode::Create(shTy(t), P->getNumIncomingValues(), "", P);
          S[P] = sp;
        }
      }
    }
    for (Instruction* I : work) visit(I);
    for (Instruction* I : work)
    {
      if (auto* P = dyn_cast<PHINode>(I))
      {
        auto it = S.find(P);
        if (it == S.end()) continue;
        PHINode* sp = cast<PHINode>(it->second);
        for (unsigned k = 0; k < P->getNumIncomingValues(); k++)
          sp->addIncoming(sh(P->getIncomingValue(k)), P->getIncomingBlock(k));
      }
    }
  }

  // clear shadow in [p,p+n) if any page flag set (inline check of the first page only when small)
  void emitClear(Instruction* before, Value* p, Value* n)
  {
    IRBuilder<> B(before);
    B.CreateCall(rt("__sx_clear", VoidT, {PT, I64}), {p, n});
  }

  Value* pageFlag(IRBuilder<>& B, Value* addr)
  {
    Value* a = B.CreatePtrToInt(addr, I64);
    Value* ix = B.CreateAnd(B.CreateLShr(a, 12), ConstantInt::get(I64, 65535));
    Value* g = B.CreateInBoundsGEP(gPage->getValueType(), gPage,
                                   {ConstantInt::get(I64, 0), ix});
    Value* f = B.CreateLoad(I8, g);
    return f;
  }

  void concretize(Instruction* before, Value* v, Value* s)
  {
    if (isNull(s) || isAgg(v->getType())) return;
    IRBuilder<> B(before);
    Value* c = anyNonNull(B, {s});
    if (!c) return;
    Instruction* T = SplitBlockAndInsertIfThen(c, before, false);
    IRBuilder<> TB(T);
    TB.CreateCall(rt("__sx_concretize", VoidT, {PT}), {s});
  }

  Value* loadShadow(Instruction* before, Value* addr, Value* addrS, unsigned nbytes, unsigned bits)
  {
    // returns shadow for loading nbytes at addr
    IRBuilder<> B(before);
    Value* cond = B.CreateICmpNE(pageFlag(B, addr), ConstantInt::get(I8, 0));
    // last byte may be on the next page: check too
    if (nbytes > 1)
    {
      Value* last = B.CreateConstInBoundsGEP1_64(I8, addr, nbytes - 1);
      cond = B.CreateOr(cond, B.CreateICmpNE(pageFlag(B, last), ConstantInt::get(I8, 0)));
    }
    if (!isNull(addrS))
    {
      cond = B.CreateOr(cond, B.CreateICmpNE(addrS, Null()));
    }
    Instruction* T = SplitBlockAndInsertIfThen(cond, before, false);
    IRBuilder<> TB(T);
    Value* r = TB.CreateCall(
        rt("__sx_load", PT, {PT, PT, I32, I32}),
        {addr, addrS, ConstantInt::get(I32, nbytes), ConstantInt::get(I32, bits)});
    IRBuilder<> J(before->getParent(), before->getParent()->getFirstInsertionPt());
    PHINode* p = J.CreatePHI(PT, 2);
    for (BasicBlock* pr : predecessors(before->getParent()))
      p->addIncoming(pr == T->getParent() ? r : Null(), pr);
    return p;
  }

  void storeShadow(Instruction* before, Value* addr, Value* vs, unsigned nbytes)
  {
    IRBuilder<> B(before);
    Value* cond = B.CreateICmpNE(pageFlag(B, addr), ConstantInt::get(I8, 0));
    if (nbytes > 1)
    {
      Value* last = B.CreateConstInBoundsGEP1_64(I8, addr, nbytes - 1);
      cond = B.CreateOr(cond, B.CreateICmpNE(pageFlag(B, last), ConstantInt::get(I8, 0)));
    }
    if (!isNull(vs)) cond = B.CreateOr(cond, B.CreateICmpNE(vs, Null()));
    Instruction* T = SplitBlockAndInsertIfThen(cond, before, false);
    IRBuilder<> TB(T);
    TB.CreateCall(rt("__sx_store", VoidT, {PT, PT, I32}),
                  {addr, vs, ConstantInt::get(I32, nbytes)});
  }

  void visit(Instruction* I)
  {
    if (auto* P = dyn_cast<PHINode>(I)) { (void)P; return; }
    if (auto* B = dyn_cast<BinaryOperator>(I)) return visitBin(B);
    if (auto* Cm = dyn_cast<ICmpInst>(I)) return visitCmp(Cm);
    if (auto* Ca = dyn_cast<CastInst>(I)) return visitCast(Ca);
    if (auto* G = dyn_cast<GetElementPtrInst>(I)) return visitGep(G);
    if (auto* L = dyn_cast<LoadInst>(I)) return visitLoad(L);
    if (auto* St = dyn_cast<StoreInst>(I)) return visitStore(St);
    if (auto* Se = dyn_cast<SelectInst>(I)) return visitSelect(Se);
    if (auto* Br = dyn_cast<BranchInst>(I)) return visitBr(Br);
    if (auto* Sw = dyn_cast<SwitchInst>(I)) return visitSwitch(Sw);
    if (auto* R = dyn_cast<ReturnInst>(I)) return visitRet(R);
    if (auto* CB = dyn_cast<CallBase>(I)) return visitCall(CB);
    if (auto* E = dyn_cast<ExtractValueInst>(I))
    {
      Value* a = sh(E->getAggregateOperand());
      if (!isNull(a) && (isScalar(E->getType()) || isAgg(E->getType())))
      {
        IRBuilder<> B(I->getNextNode());
        S[I] = B.CreateExtractValue(a, E->getIndices());
      }
      return;
    }
    if (auto* E = dyn_cast<InsertValueInst>(I))
    {
      Value* a = sh(E->getAggregateOperand());
      Value* v = sh(E->getInsertedValueOperand());
      if (!isNull(a) || !isNull(v))
      {
        IRBuilder<> B(I->getNextNode());
        S[I] = B.CreateInsertValue(a, v, E->getIndices());
      }
      return;
    }
    if (isa<FreezeInst>(I))
    {
      if (!isAgg(I->getType())) S[I] = sh(I->getOperand(0));
      return;
    }
    if (isa<AllocaInst>(I) || isa<LandingPadInst>(I) || isa<UnreachableInst>(I)
        || isa<FenceInst>(I))
    {
      if (auto* A = dyn_cast<AllocaInst>(I))
        if (!A->isStaticAlloca())
        {
          IRBuilder<> B(I->getNextNode());
          Value* n = B.CreateMul(B.CreateZExtOrTrunc(A->getArraySize(), I64),
              ConstantInt::get(I64, DL.getTypeAllocSize(A->getAllocatedType())));
          B.CreateCall(rt("__sx_clear", VoidT, {PT, I64}), {A, n});
        }
      return;
    }
    if (auto* X = dyn_cast<AtomicRMWInst>(I))
    {
      concretize(I, X->getValOperand(), sh(X->getValOperand()));
      IRBuilder<> B(I);
      B.CreateCall(rt("__sx_concmem", VoidT, {PT, I64}),
                   {X->getPointerOperand(),
                    ConstantInt::get(I64, DL.getTypeStoreSize(X->getType()))});
      return;
    }
    if (auto* X = dyn_cast<AtomicCmpXchgInst>(I))
    {
      concretize(I, X->getNewValOperand(), sh(X->getNewValOperand()));
      concretize(I, X->getCompareOperand(), sh(X->getCompareOperand()));
      IRBuilder<> B(I);
      B.CreateCall(rt("__sx_concmem", VoidT, {PT, I64}),
                   {X->getPointerOperand(),
                    ConstantInt::get(I64, DL.getTypeStoreSize(
                                              X->getNewValOperand()->getType()))});
      return;
    }
    // anything else: operands become concrete
    for (Value* o : I->operands())
    {
      if (isScalar(o->getType())) concretize(I, o, sh(o));
    }
  }

  void visitBin(BinaryOperator* I)
  {
    Value *a = I->getOperand(0), *b = I->getOperand(1);
    Value *sa = sh(a), *sb = sh(b);
    if (isNull(sa) && isNull(sb)) return;
    if (!I->getType()->isIntegerTy() || width(I->getType()) > 128)
    {
      concretize(I, a, sa);
      concretize(I, b, sb);
      return;
    }
    unsigned op = I->getOpcode();
    S[I] = guarded(next(I), {sa, sb}, [&](IRBuilder<>& B) {
      return B.CreateCall(rt("__sx_bin", PT, {I32, PT, PT}),
                          {ConstantInt::get(I32, op), node(B, sa, a), node(B, sb, b)});
    });
  }
  void visitCmp(ICmpInst* I)
  {
    Value *a = I->getOperand(0), *b = I->getOperand(1);
    if (!isScalar(a->getType())) return;
    Value *sa = sh(a), *sb = sh(b);
    if (isNull(sa) && isNull(sb)) return;
    unsigned op = I->getPredicate();
    S[I] = guarded(next(I), {sa, sb}, [&](IRBuilder<>& B) {
      return B.CreateCall(rt("__sx_cmp", PT, {I32, PT, PT}),
                          {ConstantInt::get(I32, op), node(B, sa, a), node(B, sb, b)});
    });
  }
  void visitCast(CastInst* I)
  {
    Value* a = I->getOperand(0);
    Value* sa = sh(a);
    if (isNull(sa)) return;
    switch (I->getOpcode())
    {
      case Instruction::Trunc:
      case Instruction::ZExt:
      case Instruction::SExt:
      {
        if (!isScalar(I->getType()) || !isScalar(a->getType())) break;
        unsigned sg = I->getOpcode() == Instruction::SExt;
        S[I] = guarded(next(I), {sa}, [&](IRBuilder<>& B) {
          return B.CreateCall(rt("__sx_cast", PT, {PT, I32, I32}),
                              {sa, ConstantInt::get(I32, width(I->getType())),
                               ConstantInt::get(I32, sg)});
        });
        return;
      }
      case Instruction::PtrToInt:
      case Instruction::IntToPtr:
      case Instruction::BitCast:
        if (isScalar(I->getType()) && isScalar(a->getType())
            && width(I->getType()) == width(a->getType()))
        {
          S[I] = sa;
          return;
        }
        break;
      default: break;
    }
    concretize(I, a, sa);
  }
  void visitGep(GetElementPtrInst* I)
  {
    if (!I->getType()->isPointerTy()) return;
    SmallVector<Value*, 4> shs;
    shs.push_back(sh(I->getPointerOperand()));
    for (Value* ix : I->indices()) shs.push_back(sh(ix));
    bool any = false;
    for (Value* s : shs) any |= !isNull(s);
    if (!any) return;
    MapVector<Value*, APInt> var;
    APInt cst(64, 0);
    if (!cast<GEPOperator>(I)->collectOffset(DL, 64, var, cst))
    {
      for (Value* ix : I->indices()) concretize(I, ix, sh(ix));
      return;
    }
    S[I] = guarded(next(I), shs, [&](IRBuilder<>& B) -> Value* {
      Value* base = I->getPointerOperand();
      Value* acc = node(B, sh(base), base);
      for (auto& kv : var)
      {
        acc = B.CreateCall(rt("__sx_gep", PT, {PT, PT, I64}),
                           {acc, node(B, sh(kv.first), kv.first),
                            ConstantInt::get(I64, kv.second.getSExtValue())});
      }
      acc = B.CreateCall(rt("__sx_addc", PT, {PT, I64}),
                         {acc, ConstantInt::get(I64, cst.getSExtValue())});
      return acc;
    });
  }
  Value* aggLoad(Instruction* before, Value* addr, Type* t, uint64_t off)
  {
    if (isScalar(t))
    {
      IRBuilder<> B(before);
      Value* p = B.CreateConstInBoundsGEP1_64(I8, addr, off);
      return loadShadow(before, p, Null(), DL.getTypeStoreSize(t), width(t));
    }
    Value* r = nullSh(t);
    if (auto* st = dyn_cast<StructType>(t))
    {
      const StructLayout* sl = DL.getStructLayout(st);
      for (unsigned k = 0; k < st->getNumElements(); k++)
      {
        Value* e = aggLoad(before, addr, st->getElementType(k), off + sl->getElementOffset(k));
        IRBuilder<> B(before);
        r = B.CreateInsertValue(r, e, k);
      }
    }
    else if (auto* at = dyn_cast<ArrayType>(t))
    {
      uint64_t es = DL.getTypeAllocSize(at->getElementType());
      for (unsigned k = 0; k < at->getNumElements(); k++)
      {
        Value* e = aggLoad(before, addr, at->getElementType(), off + es * k);
        IRBuilder<> B(before);
        r = B.CreateInsertValue(r, e, k);
      }
    }
    return r;
  }
  void aggStore(Instruction* before, Value* addr, Type* t, uint64_t off, Value* s)
  {
    if (isScalar(t))
    {
      IRBuilder<> B(before);
      Value* p = B.CreateConstInBoundsGEP1_64(I8, addr, off);
      storeShadow(before, p, s, DL.getTypeStoreSize(t));
      return;
    }
    if (auto* st = dyn_cast<StructType>(t))
    {
      const StructLayout* sl = DL.getStructLayout(st);
      for (unsigned k = 0; k < st->getNumElements(); k++)
      {
        IRBuilder<> B(before);
        aggStore(before, addr, st->getElementType(k), off + sl->getElementOffset(k),
                 B.CreateExtractValue(s, k));
      }
    }
    else if (auto* at = dyn_cast<ArrayType>(t))
    {
      uint64_t es = DL.getTypeAllocSize(at->getElementType());
      for (unsigned k = 0; k < at->getNumElements(); k++)
      {
        IRBuilder<> B(before);
        aggStore(before, addr, at->getElementType(), off + es * k, B.CreateExtractValue(s, k));
      }
    }
  }
  void visitLoad(LoadInst* I)
  {
    Type* t = I->getType();
    Value* p = I->getPointerOperand();
    if (isScalar(t))
    {
      S[I] = loadShadow(I, p, sh(p), DL.getTypeStoreSize(t), width(t));
    }
    else if (isAgg(t))
    {
      concretize(I, p, sh(p));
      S[I] = aggLoad(I, p, t, 0);
    }
    else
    {
      concretize(I, p, sh(p));
      IRBuilder<> B(I);
      B.CreateCall(rt("__sx_concmem", VoidT, {PT, I64}),
                   {p, ConstantInt::get(I64, DL.getTypeStoreSize(t))});
    }
  }
  void visitStore(StoreInst* I)
  {
    Value* v = I->getValueOperand();
    Value* p = I->getPointerOperand();
    Type* t = v->getType();
    concretize(I, p, sh(p));
    if (t->isPointerTy())
    {
      concretize(I, v, sh(v));
      storeShadow(I, p, Null(), 8);
    }
    else if (isScalar(t))
    {
      storeShadow(I, p, sh(v), DL.getTypeStoreSize(t));
    }
    else if (isAgg(t))
    {
      aggStore(I, p, t, 0, sh(v));
    }
    else
    {
      IRBuilder<> B(I);
      B.CreateCall(rt("__sx_clear", VoidT, {PT, I64}),
                   {p, ConstantInt::get(I64, DL.getTypeStoreSize(t))});
    }
  }
  void branchOn(Instruction* before, Value* cond, Value* s)
  {
    if (isNull(s)) return;
    IRBuilder<> B(before);
    Value* c = B.CreateICmpNE(s, Null());
    Instruction* T = SplitBlockAndInsertIfThen(c, before, false);
    IRBuilder<> TB(T);
    TB.CreateCall(rt("__sx_branch", VoidT, {PT, I32}), {s, TB.CreateZExt(cond, I32)});
  }
  void visitSelect(SelectInst* I)
  {
    Value *c = I->getCondition(), *t = I->getTrueValue(), *f = I->getFalseValue();
    Type* ty = I->getType();
    if (!c->getType()->isIntegerTy(1))
    {
      return;  // vector select
    }
    Value *sc = sh(c), *st = sh(t), *sf = sh(f);
    if (isNull(sc) && isNull(st) && isNull(sf)) return;
    if (!ty->isIntegerTy() || width(ty) > 128)
    {
      branchOn(I, c, sc);
      if (isScalar(ty) || isAgg(ty))
      {
        IRBuilder<> B(next(I));
        S[I] = B.CreateSelect(c, st, sf);
      }
      return;
    }
    if (isNull(sc))
    {
      IRBuilder<> B(next(I));
      S[I] = B.CreateSelect(c, st, sf);
      return;
    }
    IRBuilder<> B0(next(I));
    Value* base = B0.CreateSelect(c, st, sf);
    Instruction* nx = cast<Instruction>(base)->getNextNode();
    if (isa<Constant>(base)) nx = next(I);
    Value* r = guarded(nx, {sc}, [&](IRBuilder<>& B) {
      return B.CreateCall(rt("__sx_ite", PT, {PT, PT, PT}),
                          {sc, node(B, st, t), node(B, sf, f)});
    });
    // if sc null: base
    IRBuilder<> B(nx);
    Value* isn = B.CreateICmpEQ(sc, Null());
    S[I] = B.CreateSelect(isn, base, r);
  }
  void visitBr(BranchInst* I)
  {
    if (!I->isConditional()) return;
    branchOn(I, I->getCondition(), sh(I->getCondition()));
  }
  void visitSwitch(SwitchInst* I)
  {
    Value* c = I->getCondition();
    Value* s = sh(c);
    if (isNull(s)) return;
    unsigned n = I->getNumCases();
    SmallVector<Constant*, 16> vals, dests;
    std::map<BasicBlock*, unsigned> did;
    did[I->getDefaultDest()] = 0;
    for (auto& cs : I->cases())
    {
      if (!did.count(cs.getCaseSuccessor()))
      {
        unsigned k = did.size();
        did[cs.getCaseSuccessor()] = k;
      }
      vals.push_back(ConstantInt::get(I64, cs.getCaseValue()->getZExtValue()));
      dests.push_back(ConstantInt::get(I32, did[cs.getCaseSuccessor()]));
    }
    auto mk = [&](Type* t, ArrayRef<Constant*> e) {
      auto* at = ArrayType::get(t, e.size());
      return new GlobalVariable(M, at, true, GlobalValue::PrivateLinkage,
                                ConstantArray::get(at, e), "sx.sw");
    };
    Value* gv = n ? (Value*)mk(I64, vals) : Null();
    Value* gd = n ? (Value*)mk(I32, dests) : Null();
    IRBuilder<> B(I);
    Value* cn = B.CreateICmpNE(s, Null());
    Instruction* T = SplitBlockAndInsertIfThen(cn, I, false);
    IRBuilder<> TB(T);
    TB.CreateCall(rt("__sx_switch", VoidT, {PT, I32, PT, PT}),
                  {s, ConstantInt::get(I32, n), gv, gd});
  }
  void flat(IRBuilder<>& B, Value* s, Type* t, SmallVectorImpl<Value*>& out)
  {
    if (isAgg(t))
    {
      unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
      for (unsigned k = 0; k < n; k++)
        flat(B, B.CreateExtractValue(s, k),
             t->isStructTy() ? t->getStructElementType(k) : t->getArrayElementType(), out);
      return;
    }
    out.push_back(s);
  }
  Value* unflat(IRBuilder<>& B, Type* t, ArrayRef<Value*> in, unsigned& pos)
  {
    if (isAgg(t))
    {
      Value* r = nullSh(t);
      unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
      for (unsigned k = 0; k < n; k++)
      {
        Value* e = unflat(B, t->isStructTy() ? t->getStructElementType(k) : t->getArrayElementType(), in, pos);
        r = B.CreateInsertValue(r, e, k);
      }
      return r;
    }
    return in[pos++];
  }
  unsigned leaves(Type* t)
  {
    if (isAgg(t))
    {
      unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
      unsigned r = 0;
      for (unsigned k = 0; k < n; k++)
        r += leaves(t->isStructTy() ? t->getStructElementType(k) : t->getArrayElementType());
      return r;
    }
    return 1;
  }
  void visitRet(ReturnInst* I)
  {
    Value* v = I->getReturnValue();
    if (v && v->getType()->isPointerTy()) concretize(I, v, sh(v));
    IRBuilder<> B(I);
    if (v && (isScalar(v->getType()) || isAgg(v->getType())))
    {
      SmallVector<Value*, 8> out;
      if (v->getType()->isPointerTy())
        out.push_back(Null());
      else
        flat(B, sh(v), v->getType(), out);
      for (unsigned k = 0; k < out.size() && k < NARG; k++)
        B.CreateStore(out[k], argSlot(B, gRet, k));
    }
    B.CreateStore(F, gRtok);
  }

  void visitIntrinsic(IntrinsicInst* I)
  {
    switch (I->getIntrinsicID())
    {
      case Intrinsic::dbg_declare:
      case Intrinsic::dbg_value:
      case Intrinsic::dbg_label:
      case Intrinsic::dbg_assign:
      case Intrinsic::lifetime_end:
      case Intrinsic::assume:
      case Intrinsic::experimental_noalias_scope_decl:
      case Intrinsic::invariant_start:
      case Intrinsic::invariant_end:
      case Intrinsic::var_annotation:
      case Intrinsic::stacksave:
      case Intrinsic::stackrestore:
      case Intrinsic::eh_typeid_for:
      case Intrinsic::trap:
      case Intrinsic::prefetch:
      case Intrinsic::is_constant:
      case Intrinsic::objectsize:
      case Intrinsic::vastart:
      case Intrinsic::vaend: return;
      case Intrinsic::lifetime_start:
      {
        auto* n = dyn_cast<ConstantInt>(I->getArgOperand(0));
        if (n && n->getSExtValue() > 0) emitClear(I, I->getArgOperand(1), n);
        return;
      }
      case Intrinsic::launder_invariant_group:
      case Intrinsic::strip_invariant_group:
      case Intrinsic::expect:
      case Intrinsic::expect_with_probability:
        S[I] = sh(I->getArgOperand(0));
        return;
      case Intrinsic::memcpy:
      case Intrinsic::memmove:
      case Intrinsic::memcpy_inline:
      {
        for (unsigned k = 0; k < 3; k++)
          concretize(I, I->getArgOperand(k), sh(I->getArgOperand(k)));
        IRBuilder<> B(I);
        B.CreateCall(rt("__sx_memcpy", VoidT, {PT, PT, I64}),
                     {I->getArgOperand(0), I->getArgOperand(1),
                      B.CreateZExtOrTrunc(I->getArgOperand(2), I64)});
        return;
      }
      case Intrinsic::memset:
      case Intrinsic::memset_inline:
      {
        concretize(I, I->getArgOperand(0), sh(I->getArgOperand(0)));
        concretize(I, I->getArgOperand(2), sh(I->getArgOperand(2)));
        IRBuilder<> B(I);
        B.CreateCall(rt("__sx_memset", VoidT, {PT, PT, I64}),
                     {I->getArgOperand(0), sh(I->getArgOperand(1)),
                      B.CreateZExtOrTrunc(I->getArgOperand(2), I64)});
        return;
      }
      case Intrinsic::umin:
      case Intrinsic::umax:
      case Intrinsic::smin:
      case Intrinsic::smax:
      case Intrinsic::abs:
      case Intrinsic::uadd_sat:
      case Intrinsic::usub_sat:
      case Intrinsic::bswap:
      case Intrinsic::fshl:
      case Intrinsic::fshr:
      {
        if (!I->getType()->isIntegerTy()) break;
        unsigned n = I->getIntrinsicID() == Intrinsic::fshl || I->getIntrinsicID() == Intrinsic::fshr ? 3
                     : (I->getIntrinsicID() == Intrinsic::abs || I->getIntrinsicID() == Intrinsic::bswap) ? 1 : 2;
        SmallVector<Value*, 3> ss;
        bool any = false;
        for (unsigned k = 0; k < n; k++)
        {
          ss.push_back(sh(I->getArgOperand(k)));
          any |= !isNull(ss.back());
        }
        if (!any) return;
        unsigned op = 0;
        switch (I->getIntrinsicID())
        {
          case Intrinsic::umin: op = 0; break;
          case Intrinsic::umax: op = 1; break;
          case Intrinsic::smin: op = 2; break;
          case Intrinsic::smax: op = 3; break;
          case Intrinsic::abs: op = 4; break;
          case Intrinsic::uadd_sat: op = 5; break;
          case Intrinsic::usub_sat: op = 6; break;
          case Intrinsic::bswap: op = 7; break;
          case Intrinsic::fshl: op = 8; break;
          case Intrinsic::fshr: op = 9; break;
          default: break;
        }
        S[I] = guarded(next(I), ss, [&](IRBuilder<>& B) {
          Value* a[3] = {Null(), Null(), Null()};
          for (unsigned k = 0; k < n; k++) a[k] = node(B, ss[k], I->getArgOperand(k));
          return B.CreateCall(rt("__sx_intr", PT, {I32, PT, PT, PT}),
                              {ConstantInt::get(I32, op), a[0], a[1], a[2]});
        });
        return;
      }
      case Intrinsic::uadd_with_overflow:
      case Intrinsic::sadd_with_overflow:
      case Intrinsic::usub_with_overflow:
      case Intrinsic::ssub_with_overflow:
      case Intrinsic::umul_with_overflow:
      case Intrinsic::smul_with_overflow:
      {
        Value *a = I->getArgOperand(0), *b = I->getArgOperand(1);
        Value *sa = sh(a), *sb = sh(b);
        if (isNull(sa) && isNull(sb)) return;
        unsigned op = 0;
        switch (I->getIntrinsicID())
        {
          case Intrinsic::uadd_with_overflow: op = 0; break;
          case Intrinsic::sadd_with_overflow: op = 1; break;
          case Intrinsic::usub_with_overflow: op = 2; break;
          case Intrinsic::ssub_with_overflow: op = 3; break;
          case Intrinsic::umul_with_overflow: op = 4; break;
          default: op = 5; break;
        }
        IRBuilder<> B0(next(I));
        // clear the overflow slot before
        Instruction* st = B0.CreateStore(Null(), gOvf);
        Value* r = guarded(st->getNextNode(), {sa, sb}, [&](IRBuilder<>& B) {
          return B.CreateCall(rt("__sx_ovfop", PT, {I32, PT, PT}),
                              {ConstantInt::get(I32, op), node(B, sa, a), node(B, sb, b)});
        });
        IRBuilder<> B(cast<Instruction>(r)->getNextNode());
        if (isa<PHINode>(r)) B.SetInsertPoint(cast<Instruction>(r)->getParent(), cast<Instruction>(r)->getParent()->getFirstInsertionPt());
        Value* o = B.CreateLoad(PT, gOvf);
        Value* agg = nullSh(I->getType());
        agg = B.CreateInsertValue(agg, r, 0);
        agg = B.CreateInsertValue(agg, o, 1);
        S[I] = agg;
        return;
      }
      default: break;
    }
    for (Value* o : I->args())
      if (isScalar(o->getType())) concretize(I, o, sh(o));
  }

  void visitCall(CallBase* I)
  {
    if (auto* II = dyn_cast<IntrinsicInst>(I)) return visitIntrinsic(II);
    if (I->isInlineAsm())
    {
      for (Value* o : I->args())
        if (isScalar(o->getType())) concretize(I, o, sh(o));
      return;
    }
    Function* callee = I->getCalledFunction();
    if (callee && callee->getName().starts_with("__sx_")) return;
    if (callee && callee->isDeclaration() && wrapped().count(callee->getName().str()))
    {
      std::string wn = "__sxw_" + callee->getName().str();
      FunctionCallee w = M.getOrInsertFunction(wn, callee->getFunctionType());
      I->setCalledFunction(w);
      callee = dyn_cast<Function>(w.getCallee());
      I->removeFnAttr(Attribute::Builtin);
      // the wrapper reads and writes engine state
      I->setAttributes(AttributeList());
      if (auto* CI = dyn_cast<CallInst>(I)) CI->setTailCallKind(CallInst::TCK_None);
    }
    if (auto* CI = dyn_cast<CallInst>(I)) CI->setTailCallKind(CallInst::TCK_None);
    Value* target = I->getCalledOperand();
    if (!callee) concretize(I, target, sh(target));
    // pointer args are concretised
    unsigned n = I->arg_size();
    SmallVector<Value*, 8> ss;
    bool any = false, byval = false;
    for (unsigned k = 0; k < n; k++)
    {
      Value* a = I->getArgOperand(k);
      Value* s = Null();
      if (I->isByValArgument(k)) byval = true;
      if (a->getType()->isPointerTy())
      {
        concretize(I, a, sh(a));
      }
      else if (isScalar(a->getType()))
      {
        s = sh(a);
      }
      else if (isAgg(a->getType()))
      {
        // not produced by the x86-64 C++ ABI lowering
      }
      ss.push_back(s);
      any |= !isNull(s);
    }
    {
      IRBuilder<> B(I);
      if (any || byval)
      {
        for (unsigned k = 0; k < n && k < NARG; k++)
        {
          B.CreateStore(ss[k], argSlot(B, gArg, k));
          if (I->isByValArgument(k))
            B.CreateStore(I->getArgOperand(k), argSlot(B, gArgPtr, k));
        }
        B.CreateStore(target, gCallee);
      }
      else
      {
        B.CreateStore(Null(), gCallee);
      }
      B.CreateStore(Null(), gRtok);
    }
    Instruction* after = nullptr;
    if (auto* iv = dyn_cast<InvokeInst>(I))
      after = &*iv->getNormalDest()->getFirstInsertionPt();
    else
      after = I->getNextNode();
    if (!after || isa<UnreachableInst>(after)) return;
    IRBuilder<> B(after);
    Value* ok = B.CreateICmpEQ(B.CreateLoad(PT, gRtok), target);
    Type* t = I->getType();
    if (!t->isVoidTy() && !t->isPointerTy() && (isScalar(t) || isAgg(t)))
    {
      SmallVector<Value*, 8> in;
      unsigned lv = leaves(t);
      for (unsigned k = 0; k < lv && k < NARG; k++)
        in.push_back(B.CreateSelect(ok, B.CreateLoad(PT, argSlot(B, gRet, k)), Null()));
      unsigned pos = 0;
      S[I] = unflat(B, t, in, pos);
    }
    if (any)
    {
      Value* c = B.CreateAnd(anyNonNull(B, ss), B.CreateNot(ok));
      Instruction* T = SplitBlockAndInsertIfThen(c, after, false);
      IRBuilder<> TB(T);
      for (unsigned k = 0; k < n; k++)
        if (!isNull(ss[k]))
          TB.CreateCall(rt("__sx_concretize_ext", VoidT, {PT, PT}), {ss[k], target});
    }
  }
};

struct SxPass : PassInfoMixin<SxPass>
{
  PreservedAnalyses run(Module& M, ModuleAnalysisManager&)
  {
    Sx sx(M);
    std::vector<Function*> fs;
    for (Function& F : M)
      if (!F.isDeclaration()) fs.push_back(&F);
    for (Function* F : fs) sx.run(*F);
    if (!sx.used.empty()) appendToUsed(M, sx.used);
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};

}  // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo()
{
  return {LLVM_PLUGIN_API_VERSION, "SxPass", "1", [](PassBuilder& PB) {
            PB.registerPipelineStartEPCallback(
                [](ModulePassManager& MPM, OptimizationLevel) { MPM.addPass(EarlyPass()); });
            PB.registerOptimizerLastEPCallback(
                [](ModulePassManager& MPM, OptimizationLevel) { MPM.addPass(SxPass()); });
          }};
}
