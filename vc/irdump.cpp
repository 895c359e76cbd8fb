// irdump: LLVM bitcode -> JSON lines (one function / global / type per line).
// Input is what clang-20 emits for the real /repo sources; nothing is rewritten here.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Support/JSON.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include <map>
#include <set>
using namespace llvm;
using json::Array; using json::Object; using JV = json::Value;
static const DataLayout *DL;

static JV ty(Type *T) {
  if (T->isVoidTy()) return "void";
  if (T->isPointerTy()) return "ptr";
  if (T->isFloatTy()) return "f32";
  if (T->isDoubleTy()) return "f64";
  if (T->isIntegerTy()) return "i" + std::to_string(T->getIntegerBitWidth());
  if (auto *S = dyn_cast<StructType>(T)) {
    if (!S->isSized()) return "opaque";
    auto *L = DL->getStructLayout(S);
    Array e;
    for (unsigned i = 0; i < S->getNumElements(); i++)
      e.push_back(Array{(int64_t)L->getElementOffset(i), ty(S->getElementType(i))});
    return Object{{"k","struct"},{"size",(int64_t)L->getSizeInBytes()},{"e",std::move(e)}};
  }
  if (auto *A = dyn_cast<ArrayType>(T))
    return Object{{"k","array"},{"n",(int64_t)A->getNumElements()},{"e",ty(A->getElementType())},
                  {"es",(int64_t)DL->getTypeAllocSize(A->getElementType())}};
  if (auto *V = dyn_cast<FixedVectorType>(T))
    return Object{{"k","vec"},{"n",(int64_t)V->getNumElements()},{"e",ty(V->getElementType())}};
  std::string s; raw_string_ostream os(s); T->print(os);
  return s;
}
static std::map<const llvm::Value*, int> ids;
static JV op(const llvm::Value *V);
static bool constOffset(const GEPOperator *G, int64_t &off, Array &idx, bool &ok) {
  off = 0; ok = true;
  for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
    const llvm::Value *I = it.getOperand();
    if (StructType *S = it.getStructTypeOrNull()) {
      off += DL->getStructLayout(S)->getElementOffset(cast<ConstantInt>(I)->getZExtValue());
    } else {
      int64_t sz = DL->getTypeAllocSize(it.getIndexedType());
      if (auto *C = dyn_cast<ConstantInt>(I)) off += C->getSExtValue() * sz;
      else idx.push_back(Array{sz, op(I), ty(I->getType())});
    }
  }
  return true;
}
static JV op(const llvm::Value *V) {
  if (auto *C = dyn_cast<ConstantInt>(V)) {
    SmallString<64> s; C->getValue().toString(s, 10, false);
    return Array{"i", (int64_t)C->getBitWidth(), s.str().str()};
  }
  if (auto *C = dyn_cast<ConstantFP>(V)) {
    APInt b = C->getValueAPF().bitcastToAPInt();
    SmallString<64> s; b.toString(s, 10, false);
    return Array{"f", (int64_t)b.getBitWidth(), s.str().str()};
  }
  if (isa<ConstantPointerNull>(V)) return Array{"null"};
  if (isa<PoisonValue>(V) || isa<UndefValue>(V)) return Array{"undef", ty(V->getType())};
  if (auto *GV = dyn_cast<GlobalValue>(V)) return Array{"g", GV->getName().str()};
  if (isa<ConstantAggregateZero>(V)) return Array{"zero", ty(V->getType())};
  if (auto *CE = dyn_cast<ConstantExpr>(V)) {
    if (auto *G = dyn_cast<GEPOperator>(CE)) {
      int64_t off; Array idx; bool ok; constOffset(G, off, idx, ok);
      return Array{"gep", op(G->getPointerOperand()), off};
    }
    Array a{"ce", std::string(CE->getOpcodeName()), ty(CE->getType())};
    for (auto &o : CE->operands()) a.push_back(op(o.get()));
    return a;
  }
  if (auto *CA = dyn_cast<ConstantAggregate>(V)) {
    Array a; for (auto &o : CA->operands()) a.push_back(op(o.get()));
    return Array{"agg", ty(V->getType()), std::move(a)};
  }
  if (auto *CD = dyn_cast<ConstantDataSequential>(V)) {
    Array a; for (unsigned i = 0; i < CD->getNumElements(); i++) a.push_back(op(CD->getElementAsConstant(i)));
    return Array{"agg", ty(V->getType()), std::move(a)};
  }
  if (isa<BasicBlock>(V)) return Array{"b", ids[V]};
  auto it = ids.find(V);
  if (it != ids.end()) return Array{"v", it->second};
  return Array{"other"};
}
static JV inst(const Instruction &I) {
  Object o{{"op", std::string(I.getOpcodeName())}};
  if (!I.getType()->isVoidTy()) { o["id"] = ids[&I]; o["ty"] = ty(I.getType()); }
  if (I.getDebugLoc()) {
    o["ln"] = (int64_t)I.getDebugLoc().getLine();
  }
  if (auto *A = dyn_cast<AllocaInst>(&I)) {
    o["size"] = (int64_t)DL->getTypeAllocSize(A->getAllocatedType());
    o["cnt"] = op(A->getArraySize());
    o["aty"] = ty(A->getAllocatedType());
  } else if (auto *L = dyn_cast<LoadInst>(&I)) {
    o["ptr"] = op(L->getPointerOperand());
    o["size"] = (int64_t)DL->getTypeStoreSize(L->getType());
  } else if (auto *S = dyn_cast<StoreInst>(&I)) {
    o["ptr"] = op(S->getPointerOperand()); o["val"] = op(S->getValueOperand());
    o["vty"] = ty(S->getValueOperand()->getType());
    o["size"] = (int64_t)DL->getTypeStoreSize(S->getValueOperand()->getType());
  } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
    int64_t off; Array idx; bool ok; constOffset(cast<GEPOperator>(G), off, idx, ok);
    o["ptr"] = op(G->getPointerOperand()); o["off"] = off; o["idx"] = std::move(idx);
  } else if (auto *CB = dyn_cast<CallBase>(&I)) {
    const Function *F = CB->getCalledFunction();
    if (F) o["fn"] = F->getName().str();
    else if (CB->isInlineAsm()) o["fn"] = "asm";
    else o["callee"] = op(CB->getCalledOperand());
    Array a, t;
    for (auto &x : CB->args()) { a.push_back(op(x.get())); t.push_back(ty(x->getType())); }
    o["args"] = std::move(a); o["aty"] = std::move(t);
    Array bv;
    for (unsigned i = 0; i < CB->arg_size(); i++)
      if (CB->isByValArgument(i)) bv.push_back(Array{(int64_t)i,(int64_t)DL->getTypeAllocSize(CB->getParamByValType(i))});
    if (!bv.empty()) o["byval"] = std::move(bv);
    if (CB->arg_size() && CB->paramHasAttr(0, Attribute::StructRet)) o["sret"] = (int64_t)DL->getTypeAllocSize(CB->getParamStructRetType(0));
    if (CB->doesNotReturn()) o["noret"] = true;
    if (auto *IV = dyn_cast<InvokeInst>(CB)) {
      o["normal"] = ids[IV->getNormalDest()]; o["unwind"] = ids[IV->getUnwindDest()];
    }
  } else if (auto *B = dyn_cast<BranchInst>(&I)) {
    if (B->isConditional()) { o["cond"] = op(B->getCondition()); o["t"] = ids[B->getSuccessor(0)]; o["f"] = ids[B->getSuccessor(1)]; }
    else o["t"] = ids[B->getSuccessor(0)];
  } else if (auto *S = dyn_cast<SwitchInst>(&I)) {
    o["cond"] = op(S->getCondition()); o["def"] = ids[S->getDefaultDest()];
    Array c; for (auto &x : S->cases()) c.push_back(Array{op(x.getCaseValue()), ids[x.getCaseSuccessor()]});
    o["cases"] = std::move(c);
    o["cty"] = ty(S->getCondition()->getType());
  } else if (auto *P = dyn_cast<PHINode>(&I)) {
    Array c; for (unsigned i = 0; i < P->getNumIncomingValues(); i++) c.push_back(Array{op(P->getIncomingValue(i)), ids[P->getIncomingBlock(i)]});
    o["in"] = std::move(c);
  } else if (auto *E = dyn_cast<ExtractValueInst>(&I)) {
    o["agg"] = op(E->getAggregateOperand()); Array x; for (unsigned i : E->indices()) x.push_back((int64_t)i); o["idx"] = std::move(x);
  } else if (auto *E = dyn_cast<InsertValueInst>(&I)) {
    o["agg"] = op(E->getAggregateOperand()); o["val"] = op(E->getInsertedValueOperand());
    Array x; for (unsigned i : E->indices()) x.push_back((int64_t)i); o["idx"] = std::move(x);
  } else {
    Array a; for (auto &x : I.operands()) a.push_back(op(x.get()));
    o["ops"] = std::move(a);
    if (I.getNumOperands()) o["oty"] = ty(I.getOperand(0)->getType());
    if (auto *C = dyn_cast<CmpInst>(&I)) o["pred"] = CmpInst::getPredicateName(C->getPredicate()).str();
    if (auto *X = dyn_cast<PossiblyExactOperator>(&I)) if (X->isExact()) o["exact"] = true;
    if (auto *X = dyn_cast<OverflowingBinaryOperator>(&I)) { if (X->hasNoSignedWrap()) o["nsw"] = true; if (X->hasNoUnsignedWrap()) o["nuw"] = true; }
    if (auto *R = dyn_cast<AtomicRMWInst>(&I)) o["rmw"] = AtomicRMWInst::getOperationName(R->getOperation()).str();
  }
  return JV(std::move(o));
}
static void constBytes(const Constant *C, uint64_t off, std::string &buf, Array &relocs) {
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C) || isa<ConstantPointerNull>(C)) return;
  if (auto *I = dyn_cast<ConstantInt>(C)) {
    unsigned n = DL->getTypeStoreSize(I->getType());
    APInt v = I->getValue().zext(n * 8);
    for (unsigned i = 0; i < n; i++) buf[off + i] = (char)v.extractBitsAsZExtValue(8, i * 8);
    return;
  }
  if (auto *F = dyn_cast<ConstantFP>(C)) {
    APInt v = F->getValueAPF().bitcastToAPInt(); unsigned n = v.getBitWidth() / 8;
    for (unsigned i = 0; i < n; i++) buf[off + i] = (char)v.extractBitsAsZExtValue(8, i * 8);
    return;
  }
  if (auto *D = dyn_cast<ConstantDataSequential>(C)) {
    uint64_t es = DL->getTypeAllocSize(D->getElementType());
    for (unsigned i = 0; i < D->getNumElements(); i++) constBytes(D->getElementAsConstant(i), off + i * es, buf, relocs);
    return;
  }
  if (auto *S = dyn_cast<ConstantStruct>(C)) {
    auto *L = DL->getStructLayout(S->getType());
    for (unsigned i = 0; i < S->getNumOperands(); i++) constBytes(S->getOperand(i), off + L->getElementOffset(i), buf, relocs);
    return;
  }
  if (auto *A = dyn_cast<ConstantArray>(C)) {
    uint64_t es = DL->getTypeAllocSize(A->getType()->getElementType());
    for (unsigned i = 0; i < A->getNumOperands(); i++) constBytes(A->getOperand(i), off + i * es, buf, relocs);
    return;
  }
  relocs.push_back(Array{(int64_t)off, op(C)});
}
static std::string scopeName(const DIScope *S) {
  std::string r;
  while (S && (isa<DINamespace>(S) || isa<DICompositeType>(S))) {
    std::string n = S->getName().str();
    r = r.empty() ? n : n + "::" + r;
    S = S->getScope();
  }
  return r;
}
static std::string dityname(const DIType *T) {
  if (!T) return "void";
  if (auto *D = dyn_cast<DIDerivedType>(T)) {
    if (D->getTag() == dwarf::DW_TAG_pointer_type || D->getTag() == dwarf::DW_TAG_reference_type) return dityname(D->getBaseType()) + "*";
    if (D->getTag() == dwarf::DW_TAG_const_type) return dityname(D->getBaseType());
    return scopeName(T).empty() ? T->getName().str() : scopeName(T);
  }
  if (auto *C = dyn_cast<DICompositeType>(T)) {
    if (C->getTag() == dwarf::DW_TAG_array_type) return dityname(C->getBaseType()) + "[]";
    return scopeName(C);
  }
  return T->getName().str();
}
int main(int argc, char **argv) {
  LLVMContext Ctx; SMDiagnostic Err;
  auto M = parseIRFile(argv[1], Err, Ctx);
  if (!M) { Err.print(argv[0], errs()); return 1; }
  DL = &M->getDataLayout();
  std::error_code EC; raw_fd_ostream OS(argv[2], EC);
  for (auto &F : *M) {
    Object o{{"t","F"},{"name",F.getName().str()},{"dem",demangle(F.getName().str())}};
    o["ret"] = ty(F.getReturnType());
    if (F.isDeclaration()) { o["decl"] = true; OS << JV(std::move(o)) << "\n"; continue; }
    ids.clear(); int n = 0;
    Array args;
    for (auto &A : F.args()) {
      ids[&A] = n; Object a{{"id",n},{"ty",ty(A.getType())}};
      if (A.hasStructRetAttr()) a["sret"] = (int64_t)DL->getTypeAllocSize(A.getParamStructRetType());
      if (A.hasByValAttr()) a["byval"] = (int64_t)DL->getTypeAllocSize(A.getParamByValType());
      args.push_back(JV(std::move(a))); n++;
    }
    int bn = 0; for (auto &B : F) { ids[&B] = bn++; for (auto &I : B) ids[&I] = n++; }
    o["args"] = std::move(args);
    Array bs;
    for (auto &B : F) { Array is; for (auto &I : B) is.push_back(inst(I)); bs.push_back(JV(std::move(is))); }
    o["blocks"] = std::move(bs);
    if (auto *SP = F.getSubprogram()) { o["file"] = SP->getFilename().str(); o["line"] = (int64_t)SP->getLine(); }
    OS << JV(std::move(o)) << "\n";
  }
  ids.clear();
  for (auto &G : M->globals()) {
    Object o{{"t","G"},{"name",G.getName().str()},{"const",G.isConstant()}};
    Type *T = G.getValueType();
    if (T->isSized()) o["size"] = (int64_t)DL->getTypeAllocSize(T);
    if (G.hasInitializer()) {
      std::string b(DL->getTypeAllocSize(T), 0); Array rel; constBytes(G.getInitializer(), 0, b, rel);
      std::string hex; static const char *H = "0123456789abcdef";
      for (unsigned char c : b) { hex += H[c >> 4]; hex += H[c & 15]; }
      o["hex"] = hex; o["rel"] = std::move(rel);
    }
    OS << JV(std::move(o)) << "\n";
  }
  DebugInfoFinder DF; DF.processModule(*M);
  std::set<std::string> seen;
  for (auto *T : DF.types()) {
    auto *C = dyn_cast<DICompositeType>(T);
    if (!C || C->isForwardDecl()) continue;
    if (C->getTag() != dwarf::DW_TAG_structure_type && C->getTag() != dwarf::DW_TAG_class_type && C->getTag() != dwarf::DW_TAG_union_type && C->getTag() != dwarf::DW_TAG_enumeration_type) continue;
    std::string nm = scopeName(C); if (nm.empty()) continue;
    if (StringRef(nm).starts_with("llvm::") || StringRef(nm).starts_with("clang::")) continue;
    if (!seen.insert(nm + "|" + C->getIdentifier().str()).second) continue;
    Array m; bool en = C->getTag() == dwarf::DW_TAG_enumeration_type;
    for (auto *E : C->getElements()) {
      if (auto *D = dyn_cast<DIDerivedType>(E)) {
        if (D->isStaticMember()) continue;
        if (D->getTag() == dwarf::DW_TAG_inheritance)
          m.push_back(Array{"<base>", (int64_t)D->getOffsetInBits() / 8, dityname(D->getBaseType())});
        else if (D->getTag() == dwarf::DW_TAG_member)
          m.push_back(Array{D->getName().str(), (int64_t)D->getOffsetInBits() / 8, dityname(D->getBaseType()), (int64_t)D->getSizeInBits() / 8});
      } else if (auto *X = dyn_cast<DIEnumerator>(E)) {
        m.push_back(Array{X->getName().str(), X->getValue().getSExtValue()});
      }
    }
    OS << JV(Object{{"t",en ? "E" : "T"},{"name",nm},{"size",(int64_t)C->getSizeInBits()/8},{"m",std::move(m)}}) << "\n";
  }
  return 0;
}
