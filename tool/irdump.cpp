// irdump: print an LLVM module as JSON for the Python analyses.
// Every operand, type offset and debug location the analyses use comes from
// here, i.e. from the resolved program the compiler built, not from text.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Demangle/Demangle.h"
#include <map>
#include <set>
using namespace llvm;

static std::string fullname(StringRef d, StringRef f) { return f.empty() || f.starts_with("/") || d.empty() ? f.str() : (d + "/" + f).str(); }

static std::string tyName(Type *T) {
  if (T->isPointerTy()) return "ptr";
  if (T->isVoidTy()) return "void";
  if (auto *I = dyn_cast<IntegerType>(T)) return "i" + std::to_string(I->getBitWidth());
  if (auto *S = dyn_cast<StructType>(T)) { if (S->hasName()) return "%" + S->getName().str(); }
  std::string s; raw_string_ostream os(s); T->print(os, false, true); return os.str();
}

struct Dumper {
  Module &M; const DataLayout &DL; json::OStream J;
  std::map<const Value *, int> ids;
  std::map<const BasicBlock *, int> bbs;
  std::set<std::string> structs;
  std::set<StructType *> structTypes;
  Dumper(Module &m, raw_ostream &os) : M(m), DL(m.getDataLayout()), J(os) {}

  void gepParts(GEPOperator *G) {
    int64_t off = 0;
    std::vector<std::pair<Value *, uint64_t>> vars;
    std::vector<std::pair<std::string, unsigned>> path;
    std::vector<bool> arr;
    unsigned n = 0;
    for (gep_type_iterator it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it, ++n) {
      Value *idx = it.getOperand();
      if (StructType *ST = it.getStructTypeOrNull()) {
        unsigned f = cast<ConstantInt>(idx)->getZExtValue();
        off += DL.getStructLayout(ST)->getElementOffset(f);
        structTypes.insert(ST);
        path.push_back({tyName(ST), f});
      } else {
        uint64_t st = DL.getTypeAllocSize(it.getIndexedType());
        if (auto *C = dyn_cast<ConstantInt>(idx)) off += C->getSExtValue() * (int64_t)st;
        else vars.push_back({idx, st});
      }
    }
    J.attribute("off", off);
    J.attribute("src", tyName(G->getSourceElementType()));
    J.attributeArray("path", [&] { for (auto &p : path) { J.array([&]{ J.value(p.first); J.value((int64_t)p.second); }); } });
    J.attributeArray("var", [&] { for (auto &p : vars) { J.array([&]{ opnd(p.first); J.value((int64_t)p.second); }); } });
  }

  void opnd(Value *V) {
    auto it = ids.find(V);
    if (it != ids.end()) { J.value(it->second); return; }
    if (auto *C = dyn_cast<ConstantInt>(V)) {
      J.object([&] { J.attribute("w", (int64_t)C->getBitWidth());
        if (C->getBitWidth() <= 64) { J.attribute("c", C->getSExtValue()); }
        else { SmallString<40> s; C->getValue().toStringSigned(s); J.attribute("big", s.str()); } });
      return;
    }
    if (isa<ConstantPointerNull>(V)) { J.object([&] { J.attribute("null", true); }); return; }
    if (auto *A = dyn_cast<GlobalAlias>(V)) if (auto *O = A->getAliaseeObject()) V = O;
    if (auto *G = dyn_cast<GlobalValue>(V)) { J.object([&] { J.attribute("g", G->getName()); }); return; }
    if (isa<UndefValue>(V)) { J.object([&] { J.attribute("undef", true); }); return; }
    if (auto *CE = dyn_cast<ConstantExpr>(V)) {
      if (auto *G = dyn_cast<GEPOperator>(CE)) {
        J.object([&] { J.attribute("op", "gep"); J.attributeBegin("base"); opnd(G->getPointerOperand()); J.attributeEnd(); gepParts(G); });
        return;
      }
      J.object([&] { J.attribute("op", CE->getOpcodeName()); J.attributeArray("ops", [&]{ for (auto &o : CE->operands()) opnd(o.get()); }); });
      return;
    }
    if (isa<BasicBlock>(V)) { J.object([&]{ J.attribute("bb", bbs[cast<BasicBlock>(V)]); }); return; }
    if (auto *Z = dyn_cast<ConstantAggregateZero>(V)) { (void)Z; J.object([&]{ J.attribute("zero", true); }); return; }
    std::string s; raw_string_ostream os(s); V->printAsOperand(os, false);
    J.object([&] { J.attribute("x", os.str()); });
  }

  void inst(Instruction &I) {
    J.object([&] {
      J.attribute("id", ids[&I]);
      J.attribute("op", I.getOpcodeName());
      if (I.hasName()) J.attribute("name", I.getName());
      J.attribute("ty", tyName(I.getType()));
      if (const DebugLoc &L = I.getDebugLoc()) {
        J.attribute("line", (int64_t)L.getLine());
        if (auto *S = dyn_cast<DIScope>(L.getScope())) {
          if (DIFile *F = S->getFile()) J.attribute("file", fullname(F->getDirectory(), F->getFilename()));
        }
      }
      if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
        J.attributeBegin("base"); opnd(G->getPointerOperand()); J.attributeEnd();
        gepParts(cast<GEPOperator>(G));
        return;
      }
      if (auto *C = dyn_cast<CallBase>(&I)) {
        J.attributeBegin("callee"); opnd(C->getCalledOperand()); J.attributeEnd();
        J.attributeArray("ops", [&] { for (auto &a : C->args()) opnd(a.get()); });
        bool nr = C->doesNotReturn(); if (nr) J.attribute("noreturn", true);
        if (auto *II = dyn_cast<InvokeInst>(&I)) {
          J.attribute("normal", bbs[II->getNormalDest()]);
          J.attribute("unwind", bbs[II->getUnwindDest()]);
        }
        return;
      }
      if (auto *P = dyn_cast<PHINode>(&I)) {
        J.attributeArray("in", [&] { for (unsigned i = 0; i < P->getNumIncomingValues(); i++) J.array([&]{ opnd(P->getIncomingValue(i)); J.value(bbs[P->getIncomingBlock(i)]); }); });
        return;
      }
      if (auto *A = dyn_cast<AllocaInst>(&I)) {
        J.attribute("at", tyName(A->getAllocatedType()));
        J.attribute("size", (int64_t)DL.getTypeAllocSize(A->getAllocatedType()).getFixedValue());
        return;
      }
      if (auto *C = dyn_cast<CmpInst>(&I)) J.attribute("pred", CmpInst::getPredicateName(C->getPredicate()));
      if (auto *L = dyn_cast<LoadInst>(&I)) { J.attribute("size", (int64_t)DL.getTypeStoreSize(L->getType()).getFixedValue()); }
      if (auto *S = dyn_cast<StoreInst>(&I)) { J.attribute("size", (int64_t)DL.getTypeStoreSize(S->getValueOperand()->getType()).getFixedValue()); J.attribute("vty", tyName(S->getValueOperand()->getType())); }
      if (auto *EV = dyn_cast<ExtractValueInst>(&I)) J.attributeArray("idx", [&]{ for (unsigned x : EV->indices()) J.value((int64_t)x); });
      if (auto *IV = dyn_cast<InsertValueInst>(&I)) J.attributeArray("idx", [&]{ for (unsigned x : IV->indices()) J.value((int64_t)x); });
      if (isa<CastInst>(&I)) J.attribute("from", tyName(I.getOperand(0)->getType()));
      if (auto *B = dyn_cast<BranchInst>(&I)) {
        if (B->isConditional()) { J.attributeBegin("cond"); opnd(B->getCondition()); J.attributeEnd(); }
        J.attributeArray("succ", [&]{ for (unsigned i = 0; i < B->getNumSuccessors(); i++) J.value(bbs[B->getSuccessor(i)]); });
        return;
      }
      if (auto *S = dyn_cast<SwitchInst>(&I)) {
        J.attributeBegin("cond"); opnd(S->getCondition()); J.attributeEnd();
        J.attribute("default", bbs[S->getDefaultDest()]);
        J.attributeArray("cases", [&]{ for (auto &c : S->cases()) J.array([&]{ J.value(c.getCaseValue()->getSExtValue()); J.value(bbs[c.getCaseSuccessor()]); }); });
        return;
      }
      if (auto *LP = dyn_cast<LandingPadInst>(&I)) {
        J.attribute("cleanup", LP->isCleanup());
        J.attributeArray("clauses", [&]{ for (unsigned i = 0; i < LP->getNumClauses(); i++) opnd(LP->getClause(i)); });
        return;
      }
      J.attributeArray("ops", [&] { for (auto &o : I.operands()) opnd(o.get()); });
    });
  }

  void diTypes() {
    DebugInfoFinder Fi; Fi.processModule(M);
    std::map<std::string, const DICompositeType *> best;
    for (DIType *T : Fi.types()) {
      auto *C = dyn_cast<DICompositeType>(T);
      if (!C || C->isForwardDecl()) continue;
      if (C->getTag() != dwarf::DW_TAG_structure_type && C->getTag() != dwarf::DW_TAG_union_type && C->getTag() != dwarf::DW_TAG_class_type && C->getTag() != dwarf::DW_TAG_enumeration_type) continue;
      std::string n = C->getName().str();
      if (n.empty()) {
        // anonymous: named by a typedef
        for (DIType *U : Fi.types()) if (auto *D = dyn_cast<DIDerivedType>(U)) if (D->getTag() == dwarf::DW_TAG_typedef && D->getBaseType() == C) n = D->getName().str();
      }
      if (n.empty()) continue;
      if (!best.count(n)) best[n] = C;
      if (!C->getIdentifier().empty()) {
        // C++: also under its full name
        std::string d = demangle(C->getIdentifier().str());
        const std::string pre = "typeinfo name for ";
        if (d.compare(0, pre.size(), pre) == 0 && d.compare(pre.size(), 8, "FILEDB::") == 0) best[d.substr(pre.size())] = C;
      }
    }
    J.attributeObject("di", [&] {
      for (auto &kv : best) {
        const DICompositeType *C = kv.second;
        J.attributeObject(kv.first, [&] {
          J.attribute("size", (int64_t)(C->getSizeInBits() / 8));
          J.attribute("tag", dwarf::TagString(C->getTag()));
          J.attributeArray("members", [&] {
            for (DINode *E : C->getElements()) {
              if (auto *En = dyn_cast<DIEnumerator>(E)) { J.object([&]{ J.attribute("name", En->getName()); J.attribute("value", En->getValue().getSExtValue()); }); continue; }
              auto *D = dyn_cast<DIDerivedType>(E);
              if (!D || D->getTag() != dwarf::DW_TAG_member || D->isStaticMember()) continue;
              J.object([&] {
                J.attribute("name", D->getName());
                J.attribute("off", (int64_t)(D->getOffsetInBits() / 8));
                J.attribute("size", (int64_t)(D->getSizeInBits() / 8));
                DIType *B = D->getBaseType();
                std::string k; unsigned esz = 0;
                while (B) {
                  if (auto *DD = dyn_cast<DIDerivedType>(B)) {
                    if (DD->getTag() == dwarf::DW_TAG_pointer_type) { k += "*"; B = DD->getBaseType(); continue; }
                    if (!DD->getName().empty() && DD->getTag() == dwarf::DW_TAG_typedef && k.empty()) { }
                    B = DD->getBaseType(); continue;
                  }
                  if (auto *CC = dyn_cast<DICompositeType>(B)) {
                    if (CC->getTag() == dwarf::DW_TAG_array_type) { k += "[]"; B = CC->getBaseType(); continue; }
                    k += CC->getName().str(); if (!esz) esz = CC->getSizeInBits() / 8; break;
                  }
                  if (auto *BB = dyn_cast<DIBasicType>(B)) { k += BB->getName().str(); esz = BB->getSizeInBits() / 8; break; }
                  break;
                }
                J.attribute("kind", k); J.attribute("esize", (int64_t)esz);
              });
            }
          });
        });
      }
    });
  }

  void run() {
    J.object([&] {
      J.attributeArray("functions", [&] {
        for (Function &F : M) {
          if (F.isIntrinsic()) continue;
          J.object([&] {
            ids.clear(); bbs.clear();
            J.attribute("name", F.getName());
            J.attribute("dem", demangle(F.getName().str()));
            J.attribute("ret", tyName(F.getReturnType()));
            J.attribute("decl", F.isDeclaration());
            J.attribute("local", F.hasLocalLinkage());
            J.attribute("nounwind", F.doesNotThrow());
            J.attribute("vararg", F.isVarArg());
            if (DISubprogram *S = F.getSubprogram()) {
              J.attribute("line", (int64_t)S->getLine());
              J.attribute("file", fullname(S->getDirectory(), S->getFilename()));
              J.attribute("src", S->getName());
            }
            int n = 0;
            J.attributeArray("args", [&] { for (Argument &A : F.args()) { ids[&A] = n; J.object([&]{ J.attribute("id", n); J.attribute("name", A.getName()); J.attribute("ty", tyName(A.getType())); if (A.hasByValAttr()) J.attribute("byval", true); if (A.hasStructRetAttr()) J.attribute("sret", true); }); n++; } });
            if (F.isDeclaration()) return;
            int b = 0;
            for (BasicBlock &B : F) { bbs[&B] = b++; for (Instruction &I : B) ids[&I] = n++; }
            J.attributeArray("blocks", [&] {
              for (BasicBlock &B : F) J.array([&] {
                for (Instruction &I : B) { if (isa<DbgInfoIntrinsic>(&I)) continue; inst(I); }
              });
            });
          });
        }
      });
      J.attributeObject("globals", [&] {
        for (GlobalVariable &G : M.globals()) J.attributeObject(G.getName(), [&] {
          J.attribute("ty", tyName(G.getValueType()));
          J.attribute("const", G.isConstant());
          if (G.hasInitializer()) {
            if (auto *CI = dyn_cast<ConstantInt>(G.getInitializer())) { if (CI->getBitWidth() <= 64) J.attribute("init", CI->getSExtValue()); }
            else if (isa<ConstantStruct>(G.getInitializer()) && G.getName().starts_with("_ZTV")) {
              // virtual table: the functions in it, by offset
              auto *CS = cast<ConstantStruct>(G.getInitializer());
              J.attributeArray("vt", [&]{
                for (unsigned i = 0; i < CS->getNumOperands(); i++) {
                  auto *CA = dyn_cast<ConstantArray>(CS->getOperand(i));
                  if (!CA) continue;
                  int64_t base = DL.getStructLayout(CS->getType())->getElementOffset(i);
                  for (unsigned k = 0; k < CA->getNumOperands(); k++)
                    if (auto *F = dyn_cast<Function>(CA->getOperand(k)->stripPointerCasts()))
                      J.array([&]{ J.value(base + 8 * (int64_t)k); J.value(F->getName()); });
                }
              });
            }
            else if (auto *CDS = dyn_cast<ConstantDataSequential>(G.getInitializer())) {
              if (CDS->isString()) J.attribute("str", json::fixUTF8(CDS->getAsString()));
              else if (CDS->getElementType()->isIntegerTy()) J.attributeArray("arr", [&]{ for (unsigned i = 0; i < CDS->getNumElements(); i++) J.value((int64_t)CDS->getElementAsInteger(i)); });
            }
          }
        });
      });
      diTypes();
      for (StructType *S : M.getIdentifiedStructTypes()) structTypes.insert(S);
      J.attributeObject("structs", [&] {
        std::set<std::string> seen;
        for (StructType *S : structTypes) {
          if (S->isOpaque() || !S->hasName()) continue;
          std::string n = tyName(S); if (!seen.insert(n).second) continue;
          J.attributeObject(n, [&] {
            const StructLayout *SL = DL.getStructLayout(S);
            J.attribute("size", (int64_t)SL->getSizeInBytes().getFixedValue());
            J.attributeArray("offs", [&]{ for (unsigned i = 0; i < S->getNumElements(); i++) J.value((int64_t)SL->getElementOffset(i).getFixedValue()); });
            J.attributeArray("tys", [&]{ for (unsigned i = 0; i < S->getNumElements(); i++) J.value(tyName(S->getElementType(i))); });
          });
        }
      });
    });
  }
};

int main(int argc, char **argv) {
  if (argc != 3) { errs() << "usage: irdump in.bc out.json\n"; return 2; }
  LLVMContext C; SMDiagnostic E;
  std::unique_ptr<Module> M = parseIRFile(argv[1], E, C);
  if (!M) { E.print(argv[0], errs()); return 2; }
  std::error_code EC; raw_fd_ostream os(argv[2], EC);
  if (EC) { errs() << EC.message() << "\n"; return 2; }
  Dumper D(*M, os); D.run(); os << "\n";
  return 0;
}
