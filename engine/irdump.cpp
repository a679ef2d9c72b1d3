// irdump: LLVM bitcode -> JSON for the analyser (engine/vfa).
// Emits every defined function reachable from the roots (functions whose name
// starts with a given prefix), with GEPs folded to (base + const + sum scale*idx),
// debug locations, natural loops and constant globals.
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>
#include <string>
using namespace llvm;
namespace J = llvm::json;

static const DataLayout *DL;
static std::set<const GlobalVariable *> usedGlobals;
static std::set<const Function *> usedFns;
static std::vector<const Function *> work;

static std::string tyStr(Type *T) {
  if (T->isIntegerTy()) return "i" + std::to_string(T->getIntegerBitWidth());
  if (T->isPointerTy()) return "p";
  if (T->isDoubleTy()) return "f64";
  if (T->isFloatTy()) return "f32";
  if (T->isX86_FP80Ty()) return "f80";
  if (T->isVoidTy()) return "v";
  if (auto *ST = dyn_cast<StructType>(T)) {
    std::string s = "{";
    for (unsigned i = 0; i < ST->getNumElements(); i++) {
      if (i) s += ",";
      s += std::to_string((uint64_t)DL->getStructLayout(ST)->getElementOffset(i)) + ":" + tyStr(ST->getElementType(i));
    }
    return s + "}";
  }
  if (auto *AT = dyn_cast<ArrayType>(T))
    return "[" + std::to_string(AT->getNumElements()) + "x" +
           std::to_string((uint64_t)DL->getTypeAllocSize(AT->getElementType())) + ":" + tyStr(AT->getElementType()) + "]";
  if (auto *VT = dyn_cast<FixedVectorType>(T))
    return "<" + std::to_string(VT->getNumElements()) + "x" + tyStr(VT->getElementType()) + ">";
  return "?";
}

static void useFn(const Function *F) {
  if (usedFns.insert(F).second && !F->isDeclaration()) work.push_back(F);
}

static J::Value constVal(const Constant *C);

static J::Value fpVal(const APFloat &A) {
  APFloat B = A;
  bool li;
  B.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
  if (B.isNaN()) return J::Array{"f", "nan"};
  if (B.isInfinity()) return J::Array{"f", B.isNegative() ? "-inf" : "inf"};
  return J::Array{"f", (int64_t)0 + 0.0 == 1 ? "" : [&] {
                    char buf[64];
                    snprintf(buf, sizeof buf, "%a", B.convertToDouble());
                    return std::string(buf);
                  }()};
}

static J::Value constVal(const Constant *C) {
  if (auto *CI = dyn_cast<ConstantInt>(C)) {
    SmallString<40> s;
    CI->getValue().toStringSigned(s);
    return J::Array{"c", s.str().str()};
  }
  if (auto *CF = dyn_cast<ConstantFP>(C)) return fpVal(CF->getValueAPF());
  if (isa<ConstantPointerNull>(C)) return J::Array{"null"};
  if (isa<UndefValue>(C)) return J::Array{"undef", tyStr(C->getType())};
  if (auto *F = dyn_cast<Function>(C)) {
    useFn(F);
    return J::Array{"fn", F->getName().str()};
  }
  if (auto *A = dyn_cast<GlobalAlias>(C)) return constVal(A->getAliasee());
  if (auto *G = dyn_cast<GlobalVariable>(C)) {
    usedGlobals.insert(G);
    return J::Array{"@", G->getName().str(), 0};
  }
  if (auto *CE = dyn_cast<ConstantExpr>(C)) {
    if (CE->getOpcode() == Instruction::GetElementPtr) {
      auto *GO = cast<GEPOperator>(CE);
      APInt off(64, 0);
      if (GO->accumulateConstantOffset(*DL, off)) {
        J::Value b = constVal(cast<Constant>(GO->getPointerOperand()));
        if (auto *arr = b.getAsArray()) {
          if ((*arr)[0] == J::Value("@")) {
            int64_t o = *(*arr)[2].getAsInteger();
            return J::Array{"@", (*arr)[1].getAsString()->str(), o + off.getSExtValue()};
          }
        }
      }
    }
    if (CE->isCast()) {
      J::Value b = constVal(CE->getOperand(0));
      return J::Array{"castc", CE->getOpcodeName(), std::move(b)};
    }
    return J::Array{"cexpr", CE->getOpcodeName()};
  }
  if (isa<ConstantAggregateZero>(C)) return J::Array{"zero", tyStr(C->getType())};
  if (auto *DS = dyn_cast<ConstantDataSequential>(C)) {
    if (DS->getElementType()->isIntegerTy(8)) {
      J::Array a;
      for (unsigned i = 0; i < DS->getNumElements(); i++) a.push_back((int64_t)(int8_t)DS->getElementAsInteger(i));
      return J::Array{"bytes", std::move(a)};
    }
    J::Array a;
    for (unsigned i = 0; i < DS->getNumElements(); i++) a.push_back(constVal(DS->getElementAsConstant(i)));
    return J::Array{"agg", tyStr(C->getType()), std::move(a)};
  }
  if (auto *CA = dyn_cast<ConstantAggregate>(C)) {
    J::Array a;
    for (unsigned i = 0; i < CA->getNumOperands(); i++) a.push_back(constVal(CA->getOperand(i)));
    return J::Array{"agg", tyStr(C->getType()), std::move(a)};
  }
  return J::Array{"unk"};
}

struct FnEmit {
  const Function &F;
  std::map<const Value *, int> ids;
  std::map<const BasicBlock *, int> bbs;
  FnEmit(const Function &f) : F(f) {
    int n = 0;
    for (auto &A : F.args()) ids[&A] = n++;
    int b = 0;
    for (auto &BB : F) {
      bbs[&BB] = b++;
      for (auto &I : BB)
        if (!I.getType()->isVoidTy()) ids[&I] = n++;
    }
  }
  J::Value val(const Value *V) {
    auto it = ids.find(V);
    if (it != ids.end()) return J::Array{"%", it->second};
    if (auto *C = dyn_cast<Constant>(V)) return constVal(C);
    return J::Array{"unk"};
  }
  J::Value emit() {
    J::Object o;
    o["name"] = F.getName().str();
    o["dem"] = demangle(F.getName().str());
    J::Array args;
    for (auto &A : F.args()) {
      J::Object ao{{"t", tyStr(A.getType())}};
      if (A.hasByValAttr()) ao["byval"] = (int64_t)DL->getTypeAllocSize(A.getParamByValType());
      if (A.hasStructRetAttr()) ao["sret"] = (int64_t)DL->getTypeAllocSize(A.getParamStructRetType());
      if (auto n = A.getDereferenceableBytes()) ao["deref"] = (int64_t)n;
      args.push_back(std::move(ao));
    }
    o["args"] = std::move(args);
    o["ret"] = tyStr(F.getReturnType());
    if (auto *SP = F.getSubprogram()) {
      o["file"] = SP->getFilename().str();
      o["line"] = (int64_t)SP->getLine();
    }
    DominatorTree DT(const_cast<Function &>(F));
    LoopInfo LI(DT);
    J::Array blocks;
    for (auto &BB : F) {
      J::Array insts;
      for (auto &I : BB) insts.push_back(inst(I));
      J::Object bo{{"insts", std::move(insts)}};
      if (auto *L = LI.getLoopFor(&BB))
        if (L->getHeader() == &BB) {
          J::Array lb;
          for (auto *B : L->blocks()) lb.push_back(bbs[B]);
          bo["loop"] = std::move(lb);
        }
      blocks.push_back(std::move(bo));
    }
    o["blocks"] = std::move(blocks);
    return o;
  }
  J::Value inst(const Instruction &I) {
    J::Object o;
    o["op"] = I.getOpcodeName();
    if (ids.count(&I)) o["id"] = ids[&I];
    o["t"] = tyStr(I.getType());
    if (auto &D = I.getDebugLoc()) {
      if (auto *sc = dyn_cast<DIScope>(D.getScope())) o["loc"] = J::Array{sc->getFilename().str(), (int64_t)D.getLine()};
    }
    if (auto *A = dyn_cast<AllocaInst>(&I)) {
      o["size"] = (int64_t)DL->getTypeAllocSize(A->getAllocatedType());
      o["n"] = val(A->getArraySize());
      o["ty"] = tyStr(A->getAllocatedType());
      return o;
    }
    if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
      o["base"] = val(G->getPointerOperand());
      MapVector<Value *, APInt> vo;
      APInt co(64, 0);
      cast<GEPOperator>(G)->collectOffset(*DL, 64, vo, co);
      o["off"] = co.getSExtValue();
      J::Array a;
      for (auto &p : vo) a.push_back(J::Array{val(p.first), p.second.getSExtValue(), tyStr(p.first->getType())});
      o["idx"] = std::move(a);
      o["esz"] = (int64_t)DL->getTypeAllocSize(G->getResultElementType());
      // indices into arrays of fixed length (members included), and whether the element is accessed right away
      J::Array bd;
      Type *T = G->getSourceElementType();
      for (auto gi = G->idx_begin() + 1; gi != G->idx_end(); ++gi) {
        if (auto *AT = dyn_cast<ArrayType>(T)) {
          if (AT->getNumElements() > 0) bd.push_back(J::Array{val(*gi), (int64_t)AT->getNumElements()});
          T = AT->getElementType();
        } else if (auto *ST = dyn_cast<StructType>(T)) {
          T = ST->getElementType(cast<ConstantInt>(*gi)->getZExtValue());
        } else {
          break;
        }
      }
      if (!bd.empty()) {
        bool acc = !G->use_empty();
        for (auto *U : G->users()) {
          if (isa<LoadInst>(U)) continue;
          auto *S = dyn_cast<StoreInst>(U);
          if (S && S->getPointerOperand() == G && S->getValueOperand() != G) continue;
          if (isa<ReturnInst>(U) && G->getFunction()->getReturnType()->isPointerTy() &&
              G->getFunction()->getAttributes().hasRetAttr(Attribute::Dereferenceable)) continue;
          acc = false;
        }
        o["bnd"] = std::move(bd);
        o["acc"] = acc;
      }
      return o;
    }
    if (auto *P = dyn_cast<PHINode>(&I)) {
      J::Array a;
      for (unsigned i = 0; i < P->getNumIncomingValues(); i++)
        a.push_back(J::Array{val(P->getIncomingValue(i)), bbs[P->getIncomingBlock(i)]});
      o["in"] = std::move(a);
      return o;
    }
    if (auto *B = dyn_cast<BranchInst>(&I)) {
      J::Array s;
      for (unsigned i = 0; i < B->getNumSuccessors(); i++) s.push_back(bbs[B->getSuccessor(i)]);
      o["succ"] = std::move(s);
      if (B->isConditional()) o["cond"] = val(B->getCondition());
      return o;
    }
    if (auto *S = dyn_cast<SwitchInst>(&I)) {
      o["cond"] = val(S->getCondition());
      o["ct"] = tyStr(S->getCondition()->getType());
      o["def"] = bbs[S->getDefaultDest()];
      J::Array cs;
      for (auto &c : S->cases()) cs.push_back(J::Array{constVal(c.getCaseValue()), bbs[c.getCaseSuccessor()]});
      o["cases"] = std::move(cs);
      return o;
    }
    if (auto *CB = dyn_cast<CallBase>(&I)) {
      if (isa<DbgInfoIntrinsic>(&I)) { o["op"] = "nop"; return o; }
      const Value *cv = CB->getCalledOperand()->stripPointerCasts();
      if (auto *cf = dyn_cast<Function>(cv)) {
        o["fn"] = cf->getName().str();
        useFn(cf);
      } else o["fp"] = val(cv);
      J::Array a, at;
      for (unsigned i = 0; i < CB->arg_size(); i++) {
        a.push_back(val(CB->getArgOperand(i)));
        at.push_back(tyStr(CB->getArgOperand(i)->getType()));
      }
      o["args"] = std::move(a);
      o["at"] = std::move(at);
      if (auto *II = dyn_cast<InvokeInst>(&I)) {
        o["succ"] = J::Array{bbs[II->getNormalDest()], bbs[II->getUnwindDest()]};
        o["op"] = "invoke";
      } else o["op"] = "call";
      J::Array bv;
      for (unsigned i = 0; i < CB->arg_size(); i++)
        bv.push_back(CB->isByValArgument(i) ? (int64_t)DL->getTypeAllocSize(CB->getParamByValType(i)) : (int64_t)0);
      o["byval"] = std::move(bv);
      if (CB->arg_size() && CB->paramHasAttr(0, Attribute::StructRet)) o["sret"] = (int64_t)DL->getTypeAllocSize(CB->getParamStructRetType(0));
      if (CB->doesNotReturn()) o["noret"] = true;
      return o;
    }
    if (auto *C = dyn_cast<CmpInst>(&I)) {
      o["pred"] = CmpInst::getPredicateName(C->getPredicate()).str();
      o["ot"] = tyStr(C->getOperand(0)->getType());
    }
    if (auto *C = dyn_cast<CastInst>(&I)) o["st"] = tyStr(C->getSrcTy());
    if (auto *L = dyn_cast<LoadInst>(&I)) o["size"] = (int64_t)DL->getTypeStoreSize(L->getType());
    if (auto *S = dyn_cast<StoreInst>(&I)) {
      o["size"] = (int64_t)DL->getTypeStoreSize(S->getValueOperand()->getType());
      o["vt"] = tyStr(S->getValueOperand()->getType());
    }
    if (auto *B = dyn_cast<OverflowingBinaryOperator>(&I)) {
      if (B->hasNoSignedWrap()) o["nsw"] = true;
      if (B->hasNoUnsignedWrap()) o["nuw"] = true;
    }
    if (auto *E = dyn_cast<ExtractValueInst>(&I)) {
      J::Array a;
      for (auto i : E->indices()) a.push_back((int64_t)i);
      o["ix"] = std::move(a);
    }
    if (auto *E = dyn_cast<InsertValueInst>(&I)) {
      J::Array a;
      for (auto i : E->indices()) a.push_back((int64_t)i);
      o["ix"] = std::move(a);
    }
    if (auto *LP = dyn_cast<LandingPadInst>(&I)) o["clauses"] = (int64_t)LP->getNumClauses(), o["cleanup"] = LP->isCleanup();
    J::Array a;
    for (auto &U : I.operands()) a.push_back(isa<BasicBlock>(U.get()) ? J::Value(J::Array{"bb", bbs[cast<BasicBlock>(U.get())]}) : val(U.get()));
    o["o"] = std::move(a);
    return o;
  }
};

int main(int argc, char **argv) {
  LLVMContext Ctx;
  SMDiagnostic Err;
  auto M = parseIRFile(argv[1], Err, Ctx);
  if (!M) {
    Err.print(argv[0], errs());
    return 2;
  }
  std::string prefix = argc > 2 ? argv[2] : "spec_";
  DL = &M->getDataLayout();
  for (auto &F : *M)
    if (F.getName().starts_with(prefix) || F.getName().starts_with("_GLOBAL__sub_I") || F.getName().starts_with("__cxx_global_var_init")) useFn(&F);
  J::Object out;
  J::Object fns;
  while (!work.empty()) {
    auto *F = work.back();
    work.pop_back();
    fns[F->getName().str()] = FnEmit(*F).emit();
    // vtables / constant globals may reference more functions
    std::vector<const GlobalVariable *> gs(usedGlobals.begin(), usedGlobals.end());
    for (auto *G : gs)
      if (G->hasInitializer()) (void)constVal(G->getInitializer());
  }
  for (size_t prev = 0; prev != usedGlobals.size();) {
    prev = usedGlobals.size();
    std::vector<const GlobalVariable *> gs(usedGlobals.begin(), usedGlobals.end());
    for (auto *G : gs)
      if (G->hasInitializer()) (void)constVal(G->getInitializer());
    while (!work.empty()) {
      auto *F = work.back();
      work.pop_back();
      fns[F->getName().str()] = FnEmit(*F).emit();
    }
  }
  J::Object gl;
  for (auto *G : usedGlobals) {
    J::Object g;
    g["const"] = G->isConstant();
    g["size"] = G->getValueType()->isSized() ? (int64_t)DL->getTypeAllocSize(G->getValueType()) : (int64_t)-1;
    g["ty"] = tyStr(G->getValueType());
    g["dem"] = demangle(G->getName().str());
    g["tls"] = G->isThreadLocal();
    g["decl"] = G->isDeclaration();
    SmallVector<DIGlobalVariableExpression *, 1> dbg;
    G->getDebugInfo(dbg);
    for (auto *e : dbg) {
      auto *v = e->getVariable();
      g["file"] = v->getFilename().str();
      g["line"] = (int64_t)v->getLine();
      g["vname"] = v->getName().str();
    }
    if (G->hasInitializer()) g["init"] = constVal(G->getInitializer());
    gl[G->getName().str()] = std::move(g);
  }
  J::Object types;
  {
    DebugInfoFinder DF;
    DF.processModule(*M);
    auto tname = [&](const DIType *T) -> std::string {
      std::string ptr;
      while (T) {
        if (auto *D = dyn_cast<DIDerivedType>(T)) {
          unsigned tag = D->getTag();
          if (tag == dwarf::DW_TAG_pointer_type || tag == dwarf::DW_TAG_reference_type || tag == dwarf::DW_TAG_rvalue_reference_type) return "ptr";
          T = D->getBaseType();
          continue;
        }
        if (auto *C = dyn_cast<DICompositeType>(T)) {
          if (!C->getIdentifier().empty()) {
            std::string n = demangle(C->getIdentifier().str());
            if (n.rfind("typeinfo name for ", 0) == 0) n = n.substr(18);
            return n;
          }
          if (C->getTag() == dwarf::DW_TAG_array_type) return "array";
          if (C->getTag() == dwarf::DW_TAG_union_type) return "union";
          return C->getName().str();
        }
        return T->getName().str();
      }
      return "void";
    };
    for (auto *T : DF.types()) {
      auto *C = dyn_cast<DICompositeType>(T);
      if (!C || C->getIdentifier().empty() || C->isForwardDecl()) continue;
      std::string n = demangle(C->getIdentifier().str());
      if (n.rfind("typeinfo name for ", 0) == 0) n = n.substr(18);
      if (types.get(n)) continue;
      J::Array mem;
      for (auto *E : C->getElements()) {
        auto *D = dyn_cast_or_null<DIDerivedType>(E);
        if (!D) continue;
        if (D->isStaticMember()) continue;
        if (D->getTag() == dwarf::DW_TAG_member || D->getTag() == dwarf::DW_TAG_inheritance)
          mem.push_back(J::Array{D->getTag() == dwarf::DW_TAG_inheritance ? "<base>" : D->getName().str(), (int64_t)(D->getOffsetInBits() / 8),
                                 (int64_t)(D->getSizeInBits() / 8), tname(D->getBaseType())});
      }
      types[n] = J::Object{{"size", (int64_t)(C->getSizeInBits() / 8)}, {"m", std::move(mem)}, {"file", C->getFilename().str()}};
    }
  }
  out["types"] = std::move(types);
  J::Object decls;
  for (auto *F : usedFns) decls[F->getName().str()] = demangle(F->getName().str());
  out["functions"] = std::move(fns);
  out["globals"] = std::move(gl);
  out["names"] = std::move(decls);
  outs() << J::Value(std::move(out)) << "\n";
  return 0;
}
