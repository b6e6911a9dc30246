// irdump: dumps an LLVM module as JSON lines (one per function / global) for the VC generator.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/DebugLoc.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/ADT/MapVector.h"
#include "llvm/Demangle/Demangle.h"
using namespace llvm;
static const DataLayout *DL;
static json::Value ty(Type *T) {
  if (T->isVoidTy()) return "void";
  if (T->isIntegerTy()) return "i" + std::to_string(T->getIntegerBitWidth());
  if (T->isPointerTy()) return "ptr";
  if (T->isFloatTy()) return "float";
  if (T->isDoubleTy()) return "double";
  if (T->isX86_FP80Ty()) return "x86_fp80";
  if (auto *S = dyn_cast<StructType>(T)) {
    json::Array f, o; 
    if (S->isSized()) { const StructLayout *L = DL->getStructLayout(S);
      for (unsigned i = 0; i < S->getNumElements(); i++) { f.push_back(ty(S->getElementType(i))); o.push_back((int64_t)L->getElementOffset(i)); } }
    return json::Object{{"struct", std::move(f)}, {"off", std::move(o)}, {"size", S->isSized() ? (int64_t)DL->getTypeAllocSize(S) : -1}};
  }
  if (auto *A = dyn_cast<ArrayType>(T))
    return json::Object{{"arr", ty(A->getElementType())}, {"n", (int64_t)A->getNumElements()}, {"esz", (int64_t)DL->getTypeAllocSize(A->getElementType())}};
  std::string s; raw_string_ostream os(s); T->print(os); return json::Object{{"other", os.str()}};
}
static DenseMap<const Value *, int> ids;
static std::string hexint(const APInt &v) { SmallString<40> s; v.toString(s, 10, false); return std::string(s.str()); }
static json::Value constant(const Constant *C);
static json::Value operand(const Value *V) {
  if (auto *C = dyn_cast<Constant>(V)) return constant(C);
  if (isa<BasicBlock>(V)) return json::Array{"b", ids[V]};
  if (isa<MetadataAsValue>(V)) return json::Array{"md"};
  if (isa<InlineAsm>(V)) return json::Array{"asm"};
  return json::Array{"v", ids[V]};
}
static json::Value constant(const Constant *C) {
  if (auto *I = dyn_cast<ConstantInt>(C)) return json::Array{"i", (int64_t)I->getBitWidth(), hexint(I->getValue())};
  if (auto *F = dyn_cast<ConstantFP>(C)) return json::Array{"f", ty(F->getType()), hexint(F->getValueAPF().bitcastToAPInt())};
  if (isa<ConstantPointerNull>(C)) return json::Array{"null"};
  if (isa<UndefValue>(C)) return json::Array{"undef", ty(C->getType())};
  if (isa<ConstantAggregateZero>(C)) return json::Array{"zero", ty(C->getType())};
  if (auto *G = dyn_cast<GlobalAlias>(C)) { if (auto *O = G->getAliaseeObject()) return json::Array{"g", O->getName().str(), 0}; }
  if (auto *G = dyn_cast<GlobalValue>(C)) return json::Array{"g", G->getName().str(), 0};
  if (C->getType()->isPointerTy()) {
    APInt off(64, 0);
    const Value *b = C->stripAndAccumulateConstantOffsets(*DL, off, true);
    if (auto *G = dyn_cast<GlobalValue>(b)) return json::Array{"g", G->getName().str(), off.getSExtValue()};
    if (isa<ConstantPointerNull>(b)) return json::Array{"nullp", off.getSExtValue()};
    if (auto *CE = dyn_cast<ConstantExpr>(b)) if (CE->getOpcode() == Instruction::IntToPtr)
      return json::Array{"inttoptr", operand(CE->getOperand(0))};
  }
  if (auto *CE = dyn_cast<ConstantExpr>(C)) {
    json::Array a{"ce", CE->getOpcodeName(), ty(CE->getType())};
    for (auto &o : CE->operands()) a.push_back(operand(o));
    return std::move(a);
  }
  if (auto *CD = dyn_cast<ConstantDataSequential>(C)) {
    json::Array a;
    for (unsigned i = 0; i < CD->getNumElements(); i++) a.push_back(constant(CD->getElementAsConstant(i)));
    return json::Array{"agg", ty(C->getType()), std::move(a)};
  }
  if (isa<ConstantStruct>(C) || isa<ConstantArray>(C) || isa<ConstantVector>(C)) {
    json::Array a;
    for (auto &o : C->operands()) a.push_back(constant(cast<Constant>(o)));
    return json::Array{"agg", ty(C->getType()), std::move(a)};
  }
  return json::Array{"unk"};
}
static void dumpFn(Function &F, raw_ostream &os) {
  ids.clear(); int n = 0;
  json::Array args;
  for (auto &A : F.args()) { ids[&A] = n++; 
    json::Object a{{"id", ids[&A]}, {"ty", ty(A.getType())}, {"name", A.getName().str()}};
    if (A.hasStructRetAttr()) a["sret"] = true;
    if (A.hasByValAttr()) a["byval"] = (int64_t)DL->getTypeAllocSize(A.getParamByValType());
    if (auto b = A.getDereferenceableBytes()) a["deref"] = (int64_t)b;
    args.push_back(std::move(a)); }
  int b = 0;
  for (auto &B : F) ids[&B] = b++;
  for (auto &B : F) for (auto &I : B) if (!I.getType()->isVoidTy()) ids[&I] = n++;
  json::Array blocks;
  for (auto &B : F) {
    json::Array insts;
    for (auto &I : B) {
      if (isa<DbgInfoIntrinsic>(&I)) continue;
      json::Object o{{"op", I.getOpcodeName()}, {"ty", ty(I.getType())}};
      if (!I.getType()->isVoidTy()) { o["id"] = ids[&I]; if (I.hasName()) o["nm"] = I.getName().str(); }
      if (auto &L = I.getDebugLoc()) { o["ln"] = (int64_t)L.getLine();
         if (auto *sc = dyn_cast_or_null<DIScope>(L.getScope())) o["fl"] = sc->getFilename().str(); }
      if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
        MapVector<Value *, APInt> vo; APInt co(64, 0);
        if (G->getType()->isPointerTy() && G->collectOffset(*DL, 64, vo, co)) {
          json::Array vs;
          for (auto &p : vo) vs.push_back(json::Array{operand(p.first), ty(p.first->getType()), p.second.getSExtValue()});
          o["base"] = operand(G->getPointerOperand()); o["c"] = co.getSExtValue(); o["vs"] = std::move(vs);
        } else o["op"] = "badgep";
        if (G->isInBounds()) o["ib"] = true;
      } else if (auto *P = dyn_cast<PHINode>(&I)) {
        json::Array in; for (unsigned i = 0; i < P->getNumIncomingValues(); i++) in.push_back(json::Array{operand(P->getIncomingValue(i)), ids[P->getIncomingBlock(i)]});
        o["in"] = std::move(in);
      } else if (auto *C = dyn_cast<CallBase>(&I)) {
        json::Array as; for (auto &a : C->args()) as.push_back(operand(a.get()));
        json::Array at; for (auto &a : C->args()) at.push_back(ty(a->getType()));
        json::Array bv; bool anybv=false; for (unsigned i=0;i<C->arg_size();i++){ if(C->isByValArgument(i)){anybv=true; bv.push_back((int64_t)DL->getTypeAllocSize(C->getParamByValType(i)));} else bv.push_back(0);} 
        if (anybv) o["byval"] = std::move(bv);
        o["args"] = std::move(as); o["aty"] = std::move(at); o["callee"] = operand(C->getCalledOperand());
        if (C->doesNotReturn()) o["nr"] = true;
        if (auto *IV = dyn_cast<InvokeInst>(&I)) { o["normal"] = ids[IV->getNormalDest()]; o["unwind"] = ids[IV->getUnwindDest()]; }
      } else if (auto *B2 = dyn_cast<BranchInst>(&I)) {
        if (B2->isConditional()) o["cond"] = operand(B2->getCondition());
        json::Array s; for (unsigned i = 0; i < B2->getNumSuccessors(); i++) s.push_back(ids[B2->getSuccessor(i)]); o["succ"] = std::move(s);
      } else if (auto *S = dyn_cast<SwitchInst>(&I)) {
        o["cond"] = operand(S->getCondition()); o["def"] = ids[S->getDefaultDest()]; o["cty"] = ty(S->getCondition()->getType());
        json::Array cs; for (auto &c : S->cases()) cs.push_back(json::Array{hexint(c.getCaseValue()->getValue()), ids[c.getCaseSuccessor()]}); o["cases"] = std::move(cs);
      } else {
        json::Array as, at; for (auto &x : I.operands()) { as.push_back(operand(x.get())); at.push_back(ty(x->getType())); }
        o["args"] = std::move(as); o["aty"] = std::move(at);
        if (auto *A = dyn_cast<AllocaInst>(&I)) { o["aty0"] = ty(A->getAllocatedType()); auto sz = A->getAllocationSize(*DL); o["size"] = sz ? (int64_t)sz->getFixedValue() : -1; }
        if (auto *Cm = dyn_cast<CmpInst>(&I)) o["pred"] = CmpInst::getPredicateName(Cm->getPredicate()).str();
        if (auto *OB = dyn_cast<OverflowingBinaryOperator>(&I)) { if (OB->hasNoSignedWrap()) o["nsw"] = true; if (OB->hasNoUnsignedWrap()) o["nuw"] = true; }
        if (auto *EV = dyn_cast<ExtractValueInst>(&I)) { json::Array ix; for (unsigned i : EV->indices()) ix.push_back((int64_t)i); o["ix"] = std::move(ix); }
        if (auto *IV = dyn_cast<InsertValueInst>(&I)) { json::Array ix; for (unsigned i : IV->indices()) ix.push_back((int64_t)i); o["ix"] = std::move(ix); }
        if (auto *LP = dyn_cast<LandingPadInst>(&I)) { o["cleanup"] = LP->isCleanup(); }
        if (auto *LI = dyn_cast<LoadInst>(&I)) { if (LI->isVolatile()) o["vol"] = true; }
      }
      insts.push_back(std::move(o));
    }
    blocks.push_back(json::Object{{"name", B.getName().str()}, {"insts", std::move(insts)}});
  }
  json::Object f{{"kind", "fn"}, {"name", F.getName().str()}, {"dem", demangle(F.getName().str())}, {"args", std::move(args)}, {"ret", ty(F.getReturnType())}, {"blocks", std::move(blocks)},
    {"local", F.hasLocalLinkage()}, {"vararg", F.isVarArg()}};
  os << json::Value(std::move(f)) << "\n";
}
int main(int argc, char **argv) {
  LLVMContext ctx; SMDiagnostic err;
  auto M = parseIRFile(argv[1], err, ctx);
  if (!M) { err.print(argv[0], errs()); return 2; }
  DL = &M->getDataLayout();
  std::error_code ec; raw_fd_ostream os(argv[2], ec);
  for (auto &G : M->globals()) {
    json::Object g{{"kind", "gv"}, {"name", G.getName().str()}, {"const", G.isConstant()}, {"size", G.getValueType()->isSized() ? (int64_t)DL->getTypeAllocSize(G.getValueType()) : -1}, {"ty", ty(G.getValueType())}, {"local", G.hasLocalLinkage()}};
    if (G.hasInitializer()) g["init"] = constant(G.getInitializer());
    os << json::Value(std::move(g)) << "\n";
  }
  for (auto &A : M->aliases())
    if (auto *O = A.getAliaseeObject()) os << json::Value(json::Object{{"kind", "alias"}, {"name", A.getName().str()}, {"to", O->getName().str()}}) << "\n";
  for (auto &F : *M) {
    if (F.isDeclaration()) { os << json::Value(json::Object{{"kind", "decl"}, {"name", F.getName().str()}, {"dem", demangle(F.getName().str())}, {"nr", F.doesNotReturn()}, {"nounwind", F.doesNotThrow()}}) << "\n"; continue; }
    dumpFn(F, os);
  }
  return 0;
}
