// irdump: print one LLVM module (after mem2reg) as JSON for the Python analyses in /verif/sa.
// Usage: irdump in.bc > out.json
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace llvm;
static const DataLayout *DL;
static std::map<std::string, const DICompositeType *> DIStruct;
static std::string structName(const StructType *ST) {
  if (!ST->hasName()) return "anon";
  std::string n = ST->getName().str();
  size_t p = n.find('.');
  if (p != std::string::npos) n = n.substr(p + 1);
  // strip numeric suffix .N
  size_t q = n.rfind('.');
  if (q != std::string::npos && q + 1 < n.size() && isdigit((unsigned char)n[q + 1])) n = n.substr(0, q);
  return n;
}
static const DIType *strip(const DIType *T) {
  while (T) {
    if (auto *D = dyn_cast<DIDerivedType>(T)) {
      if (D->getTag() == dwarf::DW_TAG_typedef || D->getTag() == dwarf::DW_TAG_const_type ||
          D->getTag() == dwarf::DW_TAG_volatile_type) { T = D->getBaseType(); continue; }
    }
    break;
  }
  return T;
}
static std::string diName(const DIType *T) {
  if (!T) return "void";
  if (auto *D = dyn_cast<DIDerivedType>(T)) {
    if (D->getTag() == dwarf::DW_TAG_pointer_type) return diName(D->getBaseType()) + "*";
    if (D->getTag() == dwarf::DW_TAG_typedef) return D->getName().str();
    if (D->getTag() == dwarf::DW_TAG_const_type || D->getTag() == dwarf::DW_TAG_volatile_type) return diName(D->getBaseType());
    return D->getName().str();
  }
  if (auto *C = dyn_cast<DICompositeType>(T)) {
    if (C->getTag() == dwarf::DW_TAG_array_type) return diName(C->getBaseType()) + "[]";
    return C->getName().str();
  }
  if (isa<DISubroutineType>(T)) return "fn";
  return T->getName().str();
}
static std::string fieldName(StructType *ST, unsigned idx) {
  auto it = DIStruct.find(structName(ST));
  if (it != DIStruct.end()) {
    uint64_t off = DL->getStructLayout(ST)->getElementOffsetInBits(idx);
    for (auto *E : it->second->getElements())
      if (auto *M = dyn_cast_or_null<DIDerivedType>(E))
        if (M->getOffsetInBits() == off) return M->getName().str();
  }
  return std::to_string(idx);
}
static std::string tyStr(Type *T) {
  if (T->isPointerTy()) return "p";
  if (T->isVoidTy()) return "v";
  if (auto *I = dyn_cast<IntegerType>(T)) return "i" + std::to_string(I->getBitWidth());
  if (auto *S = dyn_cast<StructType>(T)) return "s:" + structName(S);
  if (auto *A = dyn_cast<ArrayType>(T)) return "[" + std::to_string(A->getNumElements()) + "]" + tyStr(A->getElementType());
  if (T->isDoubleTy()) return "d";
  if (T->isFloatTy()) return "f";
  std::string s; raw_string_ostream o(s); T->print(o); return o.str();
}
static std::map<const Value *, int> Ids;
static json::Value initVal(const Constant *C, int depth);
static json::Value val(const Value *V);
static void gepPath(const GEPOperator *G, json::Array &path, json::Array &idx, int64_t &coff, bool &allc) {
  // path entries: ["f",struct,field] or ["a",elemsize,count] ; idx: [value,scale] for variable ones
  Type *T = G->getSourceElementType();
  coff = 0; allc = true;
  bool first = true;
  for (auto it = G->idx_begin(); it != G->idx_end(); ++it) {
    const Value *I = *it;
    if (first) {
      first = false;
      uint64_t sz = T->isSized() ? DL->getTypeAllocSize(T).getFixedValue() : 1;
      if (auto *CI = dyn_cast<ConstantInt>(I)) {
        int64_t c = CI->getSExtValue();
        coff += c * (int64_t)sz;
        if (c != 0) path.push_back(json::Array{"p", (int64_t)sz, c});
      } else {
        allc = false;
        idx.push_back(json::Array{val(I), (int64_t)sz});
        path.push_back(json::Array{"p", (int64_t)sz, val(I)});
      }
      continue;
    }
    if (auto *ST = dyn_cast<StructType>(T)) {
      unsigned k = cast<ConstantInt>(I)->getZExtValue();
      path.push_back(json::Array{"f", structName(ST), fieldName(ST, k),
        (int64_t)DL->getTypeAllocSize(ST->getElementType(k)).getFixedValue(), tyStr(ST->getElementType(k))});
      coff += DL->getStructLayout(ST)->getElementOffset(k);
      T = ST->getElementType(k);
    } else if (auto *AT = dyn_cast<ArrayType>(T)) {
      uint64_t sz = DL->getTypeAllocSize(AT->getElementType()).getFixedValue();
      if (auto *CI = dyn_cast<ConstantInt>(I)) {
        int64_t c = CI->getSExtValue();
        coff += c * (int64_t)sz;
        path.push_back(json::Array{"a", (int64_t)sz, (int64_t)AT->getNumElements(), c});
      } else {
        allc = false;
        idx.push_back(json::Array{val(I), (int64_t)sz});
        path.push_back(json::Array{"a", (int64_t)sz, (int64_t)AT->getNumElements(), val(I)});
      }
      T = AT->getElementType();
    } else { allc = false; }
  }
}
static json::Value val(const Value *V) {
  if (auto *CI = dyn_cast<ConstantInt>(V)) {
    if (CI->getBitWidth() <= 64) return json::Array{"i", CI->getBitWidth() == 1 ? (int64_t)CI->getZExtValue() : CI->getSExtValue(), (int64_t)CI->getBitWidth()};
    return json::Array{"?"};
  }
  if (isa<ConstantPointerNull>(V)) return json::Array{"n"};
  if (isa<UndefValue>(V)) return json::Array{"u"};
  if (auto *F = dyn_cast<Function>(V)) return json::Array{"f", F->getName()};
  if (auto *G = dyn_cast<GlobalVariable>(V)) return json::Array{"g", G->getName()};
  if (auto *CF = dyn_cast<ConstantFP>(V)) { (void)CF; return json::Array{"d"}; }
  if (auto *CE = dyn_cast<ConstantExpr>(V)) {
    if (auto *G = dyn_cast<GEPOperator>(CE)) {
      json::Array path, idx; int64_t off; bool allc;
      gepPath(G, path, idx, off, allc);
      return json::Array{"ce", val(G->getPointerOperand()), off, std::move(path)};
    }
    if (CE->isCast()) return val(CE->getOperand(0));
    return json::Array{"?"};
  }
  auto it = Ids.find(V);
  if (it != Ids.end()) return json::Array{"v", it->second};
  return json::Array{"?"};
}
static json::Value initVal(const Constant *C, int depth) {
  if (depth > 6) return nullptr;
  if (auto *CI = dyn_cast<ConstantInt>(C)) return CI->getBitWidth() <= 64 ? json::Value(CI->getSExtValue()) : json::Value(nullptr);
  if (auto *S = dyn_cast<ConstantDataSequential>(C)) {
    if (S->isString() || (S->getElementType()->isIntegerTy(8))) {
      // latin-1 -> emit as array of bytes if not plain ASCII
      StringRef r = S->getRawDataValues();
      std::string out; bool ascii = true;
      size_t n = r.size();
      for (char c : r) if ((unsigned char)c >= 128) ascii = false;
      if (ascii) return json::Object{{"str", std::string(r.data(), n)}};
      for (char c : r) { unsigned char u = c; if (u < 128) out += c; else { out += (char)(0xC0 | (u >> 6)); out += (char)(0x80 | (u & 0x3f)); } }
      return json::Object{{"str", out}};
    }
    json::Array a;
    for (unsigned i = 0; i < S->getNumElements() && i < 4096; i++)
      a.push_back(S->getElementType()->isIntegerTy() ? json::Value((int64_t)S->getElementAsInteger(i)) : json::Value(nullptr));
    return json::Object{{"arr", std::move(a)}};
  }
  if (isa<ConstantPointerNull>(C)) return json::Array{"n"};
  if (isa<ConstantAggregateZero>(C)) return json::Object{{"zero", true}};
  if (auto *A = dyn_cast<ConstantAggregate>(C)) {
    json::Array a;
    for (unsigned i = 0; i < A->getNumOperands(); i++) a.push_back(initVal(cast<Constant>(A->getOperand(i)), depth + 1));
    return json::Object{{"agg", std::move(a)}};
  }
  return val(C);
}
int main(int argc, char **argv) {
  LLVMContext Ctx; SMDiagnostic Err;
  auto M = parseIRFile(argv[1], Err, Ctx);
  if (!M) { Err.print("irdump", errs()); return 1; }
  DataLayout dl = M->getDataLayout(); DL = &dl;
  DebugInfoFinder Fi; Fi.processModule(*M);
  for (auto *T : Fi.types()) {
    if (auto *C = dyn_cast<DICompositeType>(T)) {
      if (!C->getName().empty() && C->getElements().size()) DIStruct[C->getName().str()] = C;
    } else if (auto *D = dyn_cast<DIDerivedType>(T)) {
      if (D->getTag() == dwarf::DW_TAG_typedef)
        if (auto *C = dyn_cast_or_null<DICompositeType>(D->getBaseType()))
          if (C->getName().empty() && C->getElements().size()) DIStruct[D->getName().str()] = C;
    }
  }
  json::Object Root;
  Root["source"] = M->getSourceFileName();
  json::Object Structs;
  for (auto *ST : M->getIdentifiedStructTypes()) {
    if (ST->isOpaque()) continue;
    json::Array fs;
    for (unsigned i = 0; i < ST->getNumElements(); i++)
      fs.push_back(json::Array{fieldName(ST, i), (int64_t)DL->getStructLayout(ST)->getElementOffset(i),
        (int64_t)DL->getTypeAllocSize(ST->getElementType(i)).getFixedValue(), tyStr(ST->getElementType(i))});
    Structs[structName(ST)] = std::move(fs);
  }
  Root["structs"] = std::move(Structs);
  // enum constants
  json::Object Enums;
  for (auto *T : Fi.types())
    if (auto *C = dyn_cast<DICompositeType>(T))
      if (C->getTag() == dwarf::DW_TAG_enumeration_type)
        for (auto *E : C->getElements())
          if (auto *En = dyn_cast_or_null<DIEnumerator>(E)) Enums[En->getName()] = En->getValue().getSExtValue();
  Root["enums"] = std::move(Enums);
  json::Array Globals;
  for (auto &G : M->globals()) {
    json::Object o;
    o["name"] = G.getName(); o["internal"] = G.hasLocalLinkage(); o["const"] = G.isConstant();
    o["decl"] = G.isDeclaration(); o["ty"] = tyStr(G.getValueType());
    o["size"] = G.getValueType()->isSized() ? (int64_t)DL->getTypeAllocSize(G.getValueType()).getFixedValue() : -1;
    SmallVector<DIGlobalVariableExpression *, 1> GV; G.getDebugInfo(GV);
    if (!GV.empty()) {
      o["line"] = (int64_t)GV[0]->getVariable()->getLine();
      o["src"] = GV[0]->getVariable()->getName();
      o["cty"] = diName(GV[0]->getVariable()->getType());
      if (auto *S = GV[0]->getVariable()->getScope()) if (auto *SP = dyn_cast<DISubprogram>(S)) o["fn"] = SP->getName();
    }
    if (G.hasInitializer()) o["init"] = initVal(G.getInitializer(), 0);
    Globals.push_back(std::move(o));
  }
  Root["globals"] = std::move(Globals);
  json::Array Funcs;
  for (auto &F : *M) {
    json::Object fo;
    fo["name"] = F.getName(); fo["internal"] = F.hasLocalLinkage(); fo["vararg"] = F.isVarArg();
    fo["decl"] = F.isDeclaration(); fo["ret"] = tyStr(F.getReturnType());
    json::Array attrs; if (F.doesNotReturn()) fo["noreturn"] = true;
    json::Array pa;
    Ids.clear(); int n = 0;
    std::map<const Value *, std::pair<std::string, std::string>> names;
    for (auto &A : F.args()) Ids[&A] = n++;
    for (auto &B : F) for (auto &I : B) {
      Ids[&I] = n++;
      if (auto *DD = dyn_cast<DbgDeclareInst>(&I)) {
        if (DD->getAddress()) names[DD->getAddress()] = {DD->getVariable()->getName().str(), diName(DD->getVariable()->getType())};
      } else if (auto *DV = dyn_cast<DbgValueInst>(&I)) {
        if (DV->getNumVariableLocationOps() == 1) {
          const Value *V = DV->getVariableLocationOp(0);
          if (V && !isa<Constant>(V) && !names.count(V)) names[V] = {DV->getVariable()->getName().str(), diName(DV->getVariable()->getType())};
        }
      }
    }
    std::map<const BasicBlock *, int> BId; int b = 0;
    for (auto &B : F) BId[&B] = b++;
    for (auto &A : F.args()) {
      std::string nm = A.getName().str(); std::string cty;
      auto it = names.find(&A); if (it != names.end()) { nm = it->second.first; cty = it->second.second; }
      pa.push_back(json::Array{nm, tyStr(A.getType()), cty});
    }
    fo["params"] = std::move(pa);
    if (auto *SP = F.getSubprogram()) {
      fo["line"] = (int64_t)SP->getLine(); fo["file"] = SP->getFilename();
      if (auto *ST = SP->getType()) { json::Array ta; for (auto *T : ST->getTypeArray()) ta.push_back(diName(T)); fo["ctys"] = std::move(ta); }
    }
    if (!F.isDeclaration()) {
      json::Array blocks;
      for (auto &B : F) {
        json::Array ins;
        for (auto &I : B) {
          if (isa<DbgInfoIntrinsic>(&I)) continue;
          if (auto *II = dyn_cast<IntrinsicInst>(&I)) { auto id = II->getIntrinsicID(); if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::stacksave || id == Intrinsic::stackrestore || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::assume) continue; }
          json::Object o;
          o["i"] = Ids[&I]; o["t"] = tyStr(I.getType());
          if (auto &L = I.getDebugLoc()) { o["l"] = (int64_t)L.getLine(); }
          auto nit = names.find(&I);
          if (nit != names.end()) { o["n"] = nit->second.first; o["ct"] = nit->second.second; }
          if (I.hasMetadata(LLVMContext::MD_annotation)) o["ai"] = true;
          if (auto *A = dyn_cast<AllocaInst>(&I)) {
            o["o"] = "alloca"; o["at"] = tyStr(A->getAllocatedType());
            if (auto *CI = dyn_cast<ConstantInt>(A->getArraySize())) o["sz"] = (int64_t)(DL->getTypeAllocSize(A->getAllocatedType()).getFixedValue() * CI->getZExtValue());
            else o["sz"] = -1;
          } else if (auto *L = dyn_cast<LoadInst>(&I)) {
            o["o"] = "load"; o["p"] = val(L->getPointerOperand());
            o["sz"] = (int64_t)DL->getTypeStoreSize(L->getType()).getFixedValue();
          } else if (auto *S = dyn_cast<StoreInst>(&I)) {
            o["o"] = "store"; o["p"] = val(S->getPointerOperand()); o["v"] = val(S->getValueOperand());
            o["sz"] = (int64_t)DL->getTypeStoreSize(S->getValueOperand()->getType()).getFixedValue();
            o["vt"] = tyStr(S->getValueOperand()->getType());
          } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
            json::Array path, idx; int64_t off; bool allc;
            gepPath(cast<GEPOperator>(G), path, idx, off, allc);
            o["o"] = "gep"; o["p"] = val(G->getPointerOperand()); o["path"] = std::move(path);
            o["idx"] = std::move(idx); o["off"] = off; o["st"] = tyStr(G->getSourceElementType());
          } else if (auto *C = dyn_cast<CallBase>(&I)) {
            o["o"] = "call"; o["f"] = val(C->getCalledOperand()->stripPointerCasts());
            json::Array as, ats;
            for (auto &A : C->args()) { as.push_back(val(A.get())); ats.push_back(tyStr(A->getType())); }
            o["a"] = std::move(as); o["ats"] = std::move(ats);
            if (C->doesNotReturn()) o["nr"] = true;
            if (C->getFunctionType()->isVarArg()) o["nfix"] = (int64_t)C->getFunctionType()->getNumParams();
          } else if (auto *Br = dyn_cast<BranchInst>(&I)) {
            o["o"] = "br";
            json::Array s; for (unsigned k = 0; k < Br->getNumSuccessors(); k++) s.push_back(BId[Br->getSuccessor(k)]);
            o["s"] = std::move(s);
            if (Br->isConditional()) o["c"] = val(Br->getCondition());
          } else if (auto *Sw = dyn_cast<SwitchInst>(&I)) {
            o["o"] = "switch"; o["c"] = val(Sw->getCondition()); o["d"] = BId[Sw->getDefaultDest()];
            json::Array cs; for (auto &c : Sw->cases()) cs.push_back(json::Array{c.getCaseValue()->getSExtValue(), BId[c.getCaseSuccessor()]});
            o["cs"] = std::move(cs);
          } else if (auto *P = dyn_cast<PHINode>(&I)) {
            o["o"] = "phi"; json::Array in;
            for (unsigned k = 0; k < P->getNumIncomingValues(); k++) in.push_back(json::Array{val(P->getIncomingValue(k)), BId[P->getIncomingBlock(k)]});
            o["in"] = std::move(in);
          } else if (auto *C = dyn_cast<CmpInst>(&I)) {
            o["o"] = isa<ICmpInst>(C) ? "icmp" : "fcmp"; o["pr"] = CmpInst::getPredicateName(C->getPredicate());
            o["a"] = json::Array{val(C->getOperand(0)), val(C->getOperand(1))}; o["ot"] = tyStr(C->getOperand(0)->getType());
          } else if (auto *Bo = dyn_cast<BinaryOperator>(&I)) {
            o["o"] = "bin"; o["k"] = Bo->getOpcodeName(); o["a"] = json::Array{val(Bo->getOperand(0)), val(Bo->getOperand(1))};
          } else if (auto *Ca = dyn_cast<CastInst>(&I)) {
            o["o"] = "cast"; o["k"] = Ca->getOpcodeName(); o["a"] = json::Array{val(Ca->getOperand(0))}; o["ot"] = tyStr(Ca->getOperand(0)->getType());
          } else if (isa<SelectInst>(&I)) {
            o["o"] = "select"; o["a"] = json::Array{val(I.getOperand(0)), val(I.getOperand(1)), val(I.getOperand(2))};
          } else if (auto *R = dyn_cast<ReturnInst>(&I)) {
            o["o"] = "ret"; if (R->getReturnValue()) o["v"] = val(R->getReturnValue());
          } else if (isa<UnreachableInst>(&I)) {
            o["o"] = "unreachable";
          } else {
            o["o"] = I.getOpcodeName(); json::Array as; for (auto &A : I.operands()) as.push_back(val(A.get())); o["a"] = std::move(as);
          }
          ins.push_back(std::move(o));
        }
        blocks.push_back(std::move(ins));
      }
      fo["blocks"] = std::move(blocks);
    }
    Funcs.push_back(std::move(fo));
  }
  Root["functions"] = std::move(Funcs);
  outs() << json::Value(std::move(Root)) << "\n";
  return 0;
}
