// fkir: lowers one translation unit to LLVM IR and writes, for selected
// functions, a graph in which FakeIt helpers are expanded in place and virtual
// calls, field accesses and exception edges are named. Nothing is executed.
//
// usage: fkir SPEC OUT.json -- clang++ <args> file.cpp
//
// SPEC lines:   root <label> <regex on demangled name>
//               over <label> <regex on qualified interface method>
//               opaque <regex>      keep calls to matching functions
//               inline <regex>      expand calls to matching functions
//               list                only list the functions
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/VTableBuilder.h"
#include "clang/CodeGen/CodeGenAction.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/MultiplexConsumer.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Analysis/AliasAnalysis.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/Regex.h"
#include "llvm/Transforms/Scalar/ADCE.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Scalar/InstSimplifyPass.h"
#include "llvm/Transforms/Scalar/JumpThreading.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include <fstream>
#include <sstream>
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;

struct Spec {
  struct Root { std::string kind, label, re; };
  std::vector<Root> roots;
  std::vector<std::string> opaque, inl;
  bool list = false;
};
static Spec spec;
static std::string outPath;
static bool failed = false;

static std::string demangle(llvm::StringRef s) { return llvm::demangle(s.str()); }

// ---------------------------------------------------------------- AST facts
struct FieldInfo { uint64_t off; std::string name, type; };
struct RecInfo { uint64_t size; bool vdtor = false; std::string full; std::vector<FieldInfo> fields; std::vector<std::pair<uint64_t, std::string>> bases; };
struct AstFacts {
  std::map<std::string, std::vector<RecInfo>> records;              // IR base name -> layouts
  std::map<std::pair<std::string, uint64_t>, std::string> vslot;    // (_ZTS.., slot) -> method
  std::map<std::pair<std::string, uint64_t>, std::string> vsym;     // (_ZTS.., slot) -> symbol
  std::set<std::string> overridden;                                 // symbols that some class overrides
  std::map<std::string, std::vector<std::string>> overrides;       // symbol -> overridden methods
  std::map<std::string, json::Array> captures;                      // lambda operator() symbol -> captures
  std::map<std::string, std::string> defLoc;
};
static AstFacts facts;

// a class can be deleted through a pointer to it when its derived class is meant
static bool virtualDtor(const CXXRecordDecl *RD) {
  if (!RD || !(RD = RD->getDefinition())) return false;
  if (const CXXDestructorDecl *D = RD->getDestructor()) if (D->isVirtual()) return true;
  for (const CXXBaseSpecifier &B : RD->bases()) if (virtualDtor(B.getType()->getAsCXXRecordDecl())) return true;
  return false;
}

static std::string locStr(const SourceManager &SM, SourceLocation L) {
  PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(L));
  if (P.isInvalid()) return "?";
  return std::string(P.getFilename()) + ":" + std::to_string(P.getLine());
}

class Visitor : public RecursiveASTVisitor<Visitor> {
  ASTContext &C;
  std::unique_ptr<ItaniumMangleContext> MC;
  std::set<const CXXRecordDecl *> seen;

public:
  explicit Visitor(ASTContext &C) : C(C), MC(ItaniumMangleContext::create(C, C.getDiagnostics())) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool shouldVisitLambdaBody() const { return true; }

  std::string methodName(const CXXMethodDecl *M) {
    std::string s; llvm::raw_string_ostream os(s);
    PrintingPolicy P(C.getLangOpts()); P.SuppressTagKeyword = true;
    M->getNameForDiagnostic(os, P, true);
    os << "(";
    for (unsigned i = 0; i < M->getNumParams(); i++) { if (i) os << ", "; os << M->getParamDecl(i)->getType().getAsString(P); }
    os << ")";
    if (M->isConst()) os << " const";
    return os.str();
  }
  std::string sym(GlobalDecl GD) {
    std::string s; llvm::raw_string_ostream os(s);
    MC->mangleName(GD, os);
    return os.str();
  }
  void allOverridden(const CXXMethodDecl *M, std::vector<std::string> &out) {
    for (const CXXMethodDecl *O : M->overridden_methods()) { out.push_back(methodName(O)); allOverridden(O, out); }
  }
  bool VisitLambdaExpr(LambdaExpr *L) { if (!L->getType()->isDependentType()) lambda(L); return true; }
  void lambda(LambdaExpr *L) {
    CXXMethodDecl *op = L->getCallOperator();
    if (!op || op->isDependentContext()) return;
    json::Array caps;
    for (const LambdaCapture &c : L->captures()) {
      std::string nm = c.capturesThis() ? "this" : c.capturesVariable() ? c.getCapturedVar()->getNameAsString() : "?";
      std::string ty;
      if (c.capturesVariable()) ty = c.getCapturedVar()->getType().getAsString();
      caps.push_back(json::Object{{"name", nm}, {"ref", c.getCaptureKind() == LCK_ByRef || c.getCaptureKind() == LCK_This}, {"type", ty}});
    }
    if (op->getDescribedFunctionTemplate() || op->isDependentContext()) return;
    facts.captures[sym(GlobalDecl(op))] = std::move(caps);
  }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isDependentContext() || !F->doesThisDeclarationHaveABody() || F->isDependentContext()) return true;
    if (isa<CXXConstructorDecl>(F) || isa<CXXDestructorDecl>(F) || isa<CXXDeductionGuideDecl>(F)) return true;
    if (F->getDescribedFunctionTemplate()) return true;
    if (F->getReturnType()->isUndeducedType()) return true;
    if (!MC->shouldMangleDeclName(F)) return true;
    facts.defLoc[sym(GlobalDecl(F))] = locStr(C.getSourceManager(), F->getLocation());
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *D) {
    const CXXRecordDecl *RD = D->getDefinition();
    if (!RD || RD->isDependentContext() || RD->isInvalidDecl() || !RD->isCompleteDefinition() || !seen.insert(RD).second) return true;
    std::string nm; llvm::raw_string_ostream os(nm);
    PrintingPolicy P(C.getPrintingPolicy());
    P.SuppressInlineNamespace = false;
    if (RD->getIdentifier()) { RD->printQualifiedName(os, P); } else os << "anon";
    os.flush();
    std::string ns = "struct."; if (RD->isClass()) ns = "class."; if (RD->isUnion()) ns = "union.";
    const ASTRecordLayout &L = C.getASTRecordLayout(RD);
    RecInfo R; R.size = L.getSize().getQuantity();
    R.full = QualType(RD->getTypeForDecl(), 0).getAsString();
    R.vdtor = virtualDtor(RD);
    for (const FieldDecl *FD : RD->fields())
      R.fields.push_back({L.getFieldOffset(FD->getFieldIndex()) / 8, FD->getNameAsString(), FD->getType().getCanonicalType().getAsString()});
    for (const CXXBaseSpecifier &B : RD->bases()) {
      const CXXRecordDecl *BD = B.getType()->getAsCXXRecordDecl();
      if (!BD || B.isVirtual()) continue;
      R.bases.push_back({L.getBaseClassOffset(BD).getQuantity(), BD->getNameAsString()});
    }
    facts.records[ns + nm].push_back(R);
    if (RD->isPolymorphic()) {
      std::string zts; llvm::raw_string_ostream zo(zts);
      MC->mangleCXXRTTIName(QualType(RD->getTypeForDecl(), 0), zo); zo.flush();
      auto *VTC = cast<ItaniumVTableContext>(C.getVTableContext());
      for (const CXXMethodDecl *M : RD->methods()) {
        if (!M->isVirtual()) continue;
        if (auto *DD = dyn_cast<CXXDestructorDecl>(M)) {
          std::string dn = methodName(M);
          facts.vslot[{zts, VTC->getMethodVTableIndex(GlobalDecl(DD, Dtor_Complete))}] = dn;
          facts.vslot[{zts, VTC->getMethodVTableIndex(GlobalDecl(DD, Dtor_Deleting))}] = dn + "[deleting]";
        } else {
          facts.vslot[{zts, VTC->getMethodVTableIndex(GlobalDecl(M))}] = methodName(M);
          facts.vsym[{zts, VTC->getMethodVTableIndex(GlobalDecl(M))}] = sym(GlobalDecl(M));
          for (const CXXMethodDecl *O : M->overridden_methods()) facts.overridden.insert(sym(GlobalDecl(O)));
          if (M->size_overridden_methods() && !M->isPureVirtual()) {
            std::vector<std::string> o; allOverridden(M, o);
            facts.overrides[sym(GlobalDecl(M))] = o;
          }
        }
      }
    }
    return true;
  }
};

// ---------------------------------------------------------------- IR
static std::string stripSuffix(llvm::StringRef n) {
  // struct.fakeit::X.123 -> struct.fakeit::X ; X.base -> X
  std::string s = n.str();
  for (;;) {
    size_t p = s.rfind('.');
    if (p == std::string::npos || p + 1 >= s.size()) break;
    std::string t = s.substr(p + 1);
    bool dig = std::all_of(t.begin(), t.end(), [](char c) { return isdigit(c); });
    if ((dig || t == "base") && s.find('.') != p) s = s.substr(0, p); else break;
  }
  return s;
}

static void fieldName(llvm::StructType *ST, unsigned idx, const llvm::DataLayout &DL, std::string &rec, std::string &field, std::string &type) {
  rec = ST->hasName() ? stripSuffix(ST->getName()) : "<literal>";
  field = "#" + std::to_string(idx);
  if (!ST->hasName() || !ST->isSized()) return;
  const llvm::StructLayout *SL = DL.getStructLayout(ST);
  uint64_t off = SL->getElementOffset(idx);
  auto it = facts.records.find(rec);
  if (it == facts.records.end()) return;
  std::string elName;
  if (auto *ES = llvm::dyn_cast<llvm::StructType>(ST->getElementType(idx))) if (ES->hasName()) elName = stripSuffix(ES->getName());
  bool anon = rec.find("anon") != std::string::npos;
  for (int pass = 0; pass < 2; pass++)
    for (auto &R : it->second) {
      if (pass == 0 && R.size != SL->getSizeInBytes()) continue;
      for (auto &b : R.bases)
        if (b.first == off && !elName.empty() && elName.size() >= b.second.size() && elName.substr(elName.size() - b.second.size()) == b.second) { field = "<base " + b.second + ">"; return; }
      for (auto &f : R.fields)
        if (f.off == off) {
          if (anon && f.name.empty()) { field = "capture" + std::to_string(idx); return; }
          field = f.name; type = f.type; return;
        }
    }
}

static bool startsWithAny(llvm::StringRef s, std::initializer_list<const char *> l) {
  for (auto p : l) if (s.starts_with(p)) return true;
  return false;
}
static bool isFakeitSym(llvm::StringRef n) {
  return startsWithAny(n, {"_ZN6fakeit", "_ZNK6fakeit", "_ZNKR6fakeit", "_ZNO6fakeit", "_ZNR6fakeit", "_ZNV6fakeit", "_ZNVK6fakeit", "_ZZN6fakeit", "_ZZNK6fakeit", "_ZZZN6fakeit", "_ZZZNK6fakeit", "_ZNZN6fakeit", "_ZNKZN6fakeit", "_ZNZNK6fakeit", "_ZNKZNK6fakeit"}) || startsWithAny(n, {"w_", "_ZZ2w_"});
}

static std::vector<llvm::Regex> reOpaque, reInline;
static std::map<const llvm::Function *, int> reachMemo;

// does F (a library function) call FakeIt or witness code directly, transitively?
static bool reachesFakeit(llvm::Function *F, std::set<llvm::Function *> &stack, int depth = 0) {
  auto it = reachMemo.find(F);
  if (it != reachMemo.end()) return it->second;
  if (F->isDeclaration() || depth > 12 || !stack.insert(F).second) return false;
  bool r = false;
  for (auto &I : llvm::instructions(*F)) {
    auto *CB = llvm::dyn_cast<llvm::CallBase>(&I);
    if (!CB) continue;
    llvm::Function *G = CB->getCalledFunction();
    if (!G || G->isDeclaration()) continue;
    if (isFakeitSym(G->getName()) || reachesFakeit(G, stack, depth + 1)) { r = true; break; }
  }
  stack.erase(F);
  reachMemo[F] = r;
  return r;
}

static const std::set<std::string> accessorNames = {
  "forward", "move", "addressof", "__addressof", "get", "operator->", "operator*", "operator bool", "begin", "end", "rbegin", "rend", "cbegin", "cend", "crbegin", "crend", "base",
  "size", "operator[]", "front", "back", "data", "empty", "at", "operator++", "operator--", "operator+", "operator-", "operator+=", "operator-=", "operator!=", "operator==", "operator<", "operator>", "operator<=", "operator>=",
  "__normal_iterator", "reverse_iterator", "__make_reverse_iterator", "next", "prev", "distance", "__distance", "advance", "__advance", "__iterator_category", "max", "min", "as_const", "_M_get", "_M_ptr", "__niter_base", "__niter_wrap", "__miter_base", "ref", "swap_ptr", "exchange"};

// unqualified name of a function, without template arguments
static std::string baseName(llvm::StringRef sym) {
  static std::map<std::string, std::string> memo;
  auto it = memo.find(sym.str());
  if (it != memo.end()) return it->second;
  llvm::ItaniumPartialDemangler D;
  std::string r = sym.str();
  if (!D.partialDemangle(r.c_str()) && D.isFunction()) {
    size_t n = 0; char *c = D.getFunctionBaseName(nullptr, &n);
    if (c) { std::string t(c); free(c); r = t; }
  }
  return memo[sym.str()] = r;
}

// members of containers, strings and streams, and operators on them, stay visible as calls
static bool inNodeContainer(llvm::StringRef n, const std::string &bn) {
  if (n.consume_front("_ZNK") || n.consume_front("_ZN"))
    return startsWithAny(n, {"St3set", "St3map", "St8_Rb_tree", "St13_Rb_tree", "St17_Rb_tree", "St23_Rb_tree", "St13unordered", "St10_Hash", "St8__detail", "St7__cxx11", "Ss", "So", "St11char_traits", "St4list"});
  if (bn.compare(0, 8, "operator") == 0)
    return n.contains("unordered") || n.contains("_Hash") || n.contains("Rb_tree") || n.contains("_Node") || n.contains("basic_string") || n.contains("ostream") || n.contains("char_traits");
  return false;
}

static bool shouldInline(llvm::Function *F) {
  if (F->isDeclaration() || F->isIntrinsic()) return false;
  llvm::StringRef n = F->getName();
  std::string d = demangle(n);
  for (auto &r : reOpaque) if (r.match(d)) return false;
  for (auto &r : reInline) if (r.match(d)) return true;
  if (isFakeitSym(n)) return true;
  if (n.starts_with("__clang")) return false;
  bool stdSym = startsWithAny(n, {"_ZNSt", "_ZNKSt", "_ZSt", "_ZN9__gnu_cxx", "_ZNK9__gnu_cxx", "_ZStL"});
  if (!stdSym) {
    // functions of the witness (global lambdas and helper types)
    return false;
  }
  std::string bn = baseName(n);
  if (bn == "get" && d.find("std::get<") != std::string::npos) return false;          // tuple element: keep the index
  bool vec = startsWithAny(n, {"_ZNSt6vector", "_ZNKSt6vector"});
  bool iter = startsWithAny(n, {"_ZN9__gnu_cxx17__normal_iterator", "_ZNK9__gnu_cxx17__normal_iterator", "_ZNSt16reverse_iterator", "_ZNKSt16reverse_iterator", "_ZN9__gnu_cxxeq", "_ZN9__gnu_cxxne", "_ZN9__gnu_cxxmi", "_ZN9__gnu_cxxpl", "_ZN9__gnu_cxxlt", "_ZN9__gnu_cxxgt", "_ZN9__gnu_cxxle", "_ZN9__gnu_cxxge"});
  if (!iter && inNodeContainer(n, bn)) return false;
  bool ptr = startsWithAny(n, {"_ZNSt10shared_ptr", "_ZNKSt10shared_ptr", "_ZNSt12__shared_ptr", "_ZNKSt12__shared_ptr", "_ZNSt19__shared_ptr_access", "_ZNKSt19__shared_ptr_access", "_ZNSt10unique_ptr", "_ZNKSt10unique_ptr", "_ZNSt15__uniq_ptr", "_ZNKSt15__uniq_ptr"});
  bool ilist = startsWithAny(n, {"_ZNSt16initializer_list", "_ZNKSt16initializer_list"});
  if (accessorNames.count(bn) && (vec || iter || ptr || ilist || !n.starts_with("_ZN"))) return true;
  if (iter) return true;
  // insertion through iterators, simple element algorithms
  if (startsWithAny(n, {"_ZNSt15insert_iterator", "_ZNSt20back_insert_iterator", "_ZSt8inserter", "_ZSt13back_inserter", "_ZSt4fill", "_ZSt6fill_n", "_ZSt8__fill_a", "_ZSt9__fill_a1", "_ZSt10__fill_n_a"})) return true;
  if (n.contains("insert_iterator") && startsWithAny(n, {"_ZSt", "_ZNSt11__copy_move"})) return true;
  if (bn == "__invoke" || bn == "__invoke_impl" || bn == "invoke" || bn == "__invoke_r" || bn == "__invfwd") return true;
  // algorithms driven by FakeIt function objects
  bool freeFn = n.starts_with("_ZSt") || n.starts_with("_ZN9__gnu_cxx5__ops") || n.starts_with("_ZNK9__gnu_cxx5__ops");
  if (freeFn && bn.find("sort") == std::string::npos && bn.find("make_shared") == std::string::npos && bn.find("allocate") == std::string::npos && bn.find("_Construct") == std::string::npos && bn.find("_Destroy") == std::string::npos && bn.find("uninitialized") == std::string::npos) {
    std::set<llvm::Function *> st;
    if (n.starts_with("_ZN")) return true;
    return reachesFakeit(F, st);
  }
  return false;
}

static void annotateVirtual(llvm::Module &M) {
  std::vector<llvm::Instruction *> dead;
  std::vector<std::pair<llvm::CallBase *, llvm::Function *>> devirt;
  for (auto &F : M)
    for (auto &I : llvm::instructions(F)) {
      auto *II = llvm::dyn_cast<llvm::IntrinsicInst>(&I);
      if (!II) continue;
      auto id = II->getIntrinsicID();
      if (id == llvm::Intrinsic::dbg_declare || id == llvm::Intrinsic::dbg_value || id == llvm::Intrinsic::dbg_label || id == llvm::Intrinsic::lifetime_start || id == llvm::Intrinsic::lifetime_end) { dead.push_back(II); continue; }
      if (id != llvm::Intrinsic::type_test && id != llvm::Intrinsic::public_type_test) continue;
      llvm::Value *vt = II->getArgOperand(0);
      std::string cls;
      if (auto *MV = llvm::dyn_cast<llvm::MetadataAsValue>(II->getArgOperand(1)))
        if (auto *S = llvm::dyn_cast<llvm::MDString>(MV->getMetadata())) cls = S->getString().str();
      for (auto *U : vt->users()) {
        auto *G = llvm::dyn_cast<llvm::GetElementPtrInst>(U);
        uint64_t slot = 0; llvm::Value *fp = nullptr;
        if (G) {
          if (auto *CI = llvm::dyn_cast<llvm::ConstantInt>(G->getOperand(G->getNumOperands() - 1))) slot = CI->getZExtValue();
          if (!G->getSourceElementType()->isPointerTy()) continue;
          fp = G;
        } else continue;
        for (auto *LU : fp->users()) {
          auto *L = llvm::dyn_cast<llvm::LoadInst>(LU);
          if (!L) continue;
          for (auto *CU : L->users())
            if (auto *CB = llvm::dyn_cast<llvm::CallBase>(CU))
              if (CB->getCalledOperand() == L) {
                auto it = facts.vslot.find({cls, slot});
                std::string nm = it != facts.vslot.end() ? it->second : ("?" + cls + "#" + std::to_string(slot));
                auto vs = facts.vsym.find({cls, slot});
                if (vs != facts.vsym.end() && !facts.overridden.count(vs->second) && isFakeitSym(vs->second))
                  if (llvm::Function *T = M.getFunction(vs->second))
                    if (!T->isDeclaration() && T->getFunctionType() == CB->getFunctionType()) { devirt.push_back({CB, T}); continue; }
                CB->addFnAttr(llvm::Attribute::get(M.getContext(), "fk-virt", nm));
                CB->addFnAttr(llvm::Attribute::get(M.getContext(), "fk-slot", std::to_string(slot)));
                CB->addFnAttr(llvm::Attribute::get(M.getContext(), "fk-vcls", demangle("_ZTS" + (cls.size() > 4 ? cls.substr(4) : cls))));
              }
        }
      }
      for (auto *U : II->users())
        if (auto *A = llvm::dyn_cast<llvm::IntrinsicInst>(U))
          if (A->getIntrinsicID() == llvm::Intrinsic::assume) dead.push_back(A);
      dead.push_back(II);
    }
  for (auto &d : devirt) d.first->setCalledFunction(d.second);
  std::set<llvm::Instruction *> once(dead.begin(), dead.end());
  for (auto *I : once) if (!I->getType()->isVoidTy()) I->replaceAllUsesWith(llvm::UndefValue::get(I->getType()));
  for (auto *I : once) I->eraseFromParent();
}

// field metadata on GEPs, so that later passes keep the names
static void annotateFields(llvm::Module &M) {
  const llvm::DataLayout &DL = M.getDataLayout();
  auto &Ctx = M.getContext();
  for (auto &F : M)
    for (auto &I : llvm::instructions(F)) {
      auto *G = llvm::dyn_cast<llvm::GetElementPtrInst>(&I);
      if (!G) continue;
      auto *ST = llvm::dyn_cast<llvm::StructType>(G->getSourceElementType());
      if (!ST || G->getNumIndices() < 2) continue;
      std::string path, rec0, type;
      llvm::Type *T = ST;
      for (unsigned k = 2; k < G->getNumOperands(); k++) {
        if (auto *S = llvm::dyn_cast<llvm::StructType>(T)) {
          unsigned idx = llvm::cast<llvm::ConstantInt>(G->getOperand(k))->getZExtValue();
          std::string rec, field, ty; fieldName(S, idx, DL, rec, field, ty);
          if (rec0.empty()) rec0 = rec;
          path += (path.empty() ? "" : ".") + field; type = ty; T = S->getElementType(idx);
        } else if (auto *A = llvm::dyn_cast<llvm::ArrayType>(T)) { path += "[]"; T = A->getElementType(); }
      }
      G->setMetadata("fk.field", llvm::MDNode::get(Ctx, {llvm::MDString::get(Ctx, rec0), llvm::MDString::get(Ctx, path), llvm::MDString::get(Ctx, type)}));
    }
}

static void simplify(llvm::Function &F, llvm::FunctionAnalysisManager &FAM, bool last) {
  llvm::FunctionPassManager FPM;
  FPM.addPass(llvm::SROAPass(llvm::SROAOptions::PreserveCFG));
  FPM.addPass(llvm::EarlyCSEPass(true));
  FPM.addPass(llvm::InstSimplifyPass());
  llvm::SimplifyCFGOptions O;
  O.bonusInstThreshold(0).forwardSwitchCondToPhi(false).convertSwitchToLookupTable(false).needCanonicalLoops(true).hoistCommonInsts(false).sinkCommonInsts(false).setSimplifyCondBranch(true);
  FPM.addPass(llvm::SimplifyCFGPass(O));
  FPM.addPass(llvm::SROAPass(llvm::SROAOptions::PreserveCFG));
  if (last) {
    FPM.addPass(llvm::JumpThreadingPass());
    FPM.addPass(llvm::EarlyCSEPass(true));
    FPM.addPass(llvm::InstSimplifyPass());
    FPM.addPass(llvm::SimplifyCFGPass(O));
    FPM.addPass(llvm::ADCEPass());
    FPM.addPass(llvm::SimplifyCFGPass(O));
  }
  FPM.run(F, FAM);
}

struct Chain { std::vector<const llvm::Function *> fns; };

static void expand(llvm::Function &R, llvm::Function *orig, bool &tooBig) {
  std::map<llvm::CallBase *, std::vector<const llvm::Function *>> hist;
  std::vector<llvm::CallBase *> work;
  for (auto &I : llvm::instructions(R)) if (auto *CB = llvm::dyn_cast<llvm::CallBase>(&I)) { hist[CB] = {orig}; work.push_back(CB); }
  size_t n = 0;
  while (!work.empty()) {
    llvm::CallBase *CB = work.back(); work.pop_back();
    llvm::Function *G = CB->getCalledFunction();
    if (!G || !shouldInline(G)) continue;
    auto &h = hist[CB];
    if (std::find(h.begin(), h.end(), G) != h.end() || h.size() > 60) continue;
    auto nh = h; nh.push_back(G);
    llvm::InlineFunctionInfo IFI;
    auto res = llvm::InlineFunction(*CB, IFI);
    if (!res.isSuccess()) continue;
    hist.erase(CB);
    for (auto *NC : IFI.InlinedCallSites) { hist[NC] = nh; work.push_back(NC); }
    if (++n > 6000 || R.getInstructionCount() > 400000) { tooBig = true; return; }
  }
}

// --- std::function objects that live in this function: call their closure directly
static llvm::Value *baseOff(llvm::Value *V, const llvm::DataLayout &DL, int64_t &off) {
  llvm::APInt A(64, 0);
  llvm::Value *B = V->stripAndAccumulateConstantOffsets(DL, A, true);
  off = A.getSExtValue();
  return B;
}
static llvm::Function *closureCall(llvm::Function *ctor) {
  // the invoker stored by the constructor leads to the closure's operator()
  llvm::Function *invoker = nullptr;
  for (auto &I : llvm::instructions(*ctor))
    for (auto &Op : I.operands())
      if (auto *F = llvm::dyn_cast<llvm::Function>(Op.get())) if (F->getName().contains("_M_invoke")) invoker = F;
  if (!invoker) return nullptr;
  std::set<llvm::Function *> seen; std::vector<llvm::Function *> w{invoker};
  while (!w.empty()) {
    llvm::Function *F = w.back(); w.pop_back();
    if (!seen.insert(F).second) continue;
    if (F != invoker && !F->getName().starts_with("_ZNSt") && !F->getName().starts_with("_ZNKSt") && !F->getName().starts_with("_ZSt")) return F;
    for (auto &I : llvm::instructions(*F)) if (auto *CB = llvm::dyn_cast<llvm::CallBase>(&I)) if (auto *G = CB->getCalledFunction()) if (!G->isDeclaration()) w.push_back(G);
  }
  return nullptr;
}
static bool isFnMember(llvm::StringRef n) { return n.starts_with("_ZNSt8functionI") || n.starts_with("_ZNKSt8functionI"); }

static int resolveFunctionObjects(llvm::Function &R) {
  const llvm::DataLayout &DL = R.getParent()->getDataLayout();
  struct Def { llvm::Value *base; int64_t off; llvm::CallBase *CB; llvm::Function *F; };
  std::vector<Def> defs;
  std::vector<llvm::CallBase *> calls;
  for (auto &I : llvm::instructions(R)) {
    auto *CB = llvm::dyn_cast<llvm::CallBase>(&I);
    llvm::Function *F = CB ? CB->getCalledFunction() : nullptr;
    if (!F || !isFnMember(F->getName())) continue;
    std::string bn = baseName(F->getName());
    if (bn == "function" || bn == "swap") { Def d; d.base = baseOff(CB->getArgOperand(0), DL, d.off); d.CB = CB; d.F = F; defs.push_back(d);
      if (bn == "swap") { Def e; e.base = baseOff(CB->getArgOperand(1), DL, e.off); e.CB = CB; e.F = F; defs.push_back(e); } }
    else if (bn == "operator()") calls.push_back(CB);
  }
  int n = 0;
  for (auto *CB : calls) {
    int64_t off; llvm::Value *B = baseOff(CB->getArgOperand(0), DL, off);
    llvm::Function *target = nullptr; llvm::Value *closure = nullptr;
    for (int hop = 0; hop < 8 && B && llvm::isa<llvm::AllocaInst>(B); hop++) {
      std::vector<Def *> m;
      for (auto &d : defs) if (d.base == B && d.off == off) m.push_back(&d);
      if (m.size() != 1) break;
      std::string dm = demangle(m[0]->F->getName());
      if (baseName(m[0]->F->getName()) == "swap") break;
      if (m[0]->CB->arg_size() < 2) break;
      bool copy = dm.find("::function(std::function<") != std::string::npos;
      if (copy) { B = baseOff(m[0]->CB->getArgOperand(1), DL, off); continue; }
      target = closureCall(m[0]->F); closure = m[0]->CB->getArgOperand(1); break;
    }
    if (!target || !closure || !closure->getType()->isPointerTy()) continue;
    if (target->arg_size() != CB->arg_size()) continue;
    bool ok = target->getReturnType() == CB->getType();
    for (unsigned i = 1; ok && i < CB->arg_size(); i++) ok = target->getArg(i)->getType() == CB->getArgOperand(i)->getType();
    if (!ok || !target->getArg(0)->getType()->isPointerTy()) continue;
    CB->setCalledFunction(target);
    CB->setArgOperand(0, closure);
    n++;
  }
  return n;
}

// --- virtual calls on objects that live in this function: call the method directly
static int resolveLocalObjects(llvm::Function &R) {
  const llvm::DataLayout &DL = R.getParent()->getDataLayout();
  struct Set { llvm::Value *base; int64_t off; llvm::GlobalVariable *vt; uint64_t row, idx; };
  std::vector<Set> sets;
  for (auto &I : llvm::instructions(R)) {
    auto *S = llvm::dyn_cast<llvm::StoreInst>(&I);
    auto *GEP = S ? llvm::dyn_cast<llvm::GEPOperator>(S->getValueOperand()) : nullptr;
    auto *GV = GEP ? llvm::dyn_cast<llvm::GlobalVariable>(GEP->getPointerOperand()) : nullptr;
    if (!GV || !GV->getName().starts_with("_ZTV") || GEP->getNumIndices() != 3 || !GV->hasInitializer()) continue;
    Set s; s.base = baseOff(S->getPointerOperand(), DL, s.off); s.vt = GV;
    s.row = llvm::cast<llvm::ConstantInt>(GEP->getOperand(2))->getZExtValue(); s.idx = llvm::cast<llvm::ConstantInt>(GEP->getOperand(3))->getZExtValue();
    sets.push_back(s);
  }
  int n = 0;
  for (auto &I : llvm::instructions(R)) {
    auto *CB = llvm::dyn_cast<llvm::CallBase>(&I);
    if (!CB || !CB->hasFnAttr("fk-slot") || CB->getCalledFunction() || CB->arg_size() == 0) continue;
    unsigned self = CB->paramHasAttr(0, llvm::Attribute::StructRet) ? 1 : 0;
    int64_t off; llvm::Value *B = baseOff(CB->getArgOperand(self), DL, off);
    auto *A = llvm::dyn_cast<llvm::AllocaInst>(B);
    auto *ST = A ? llvm::dyn_cast<llvm::StructType>(A->getAllocatedType()) : nullptr;
    if (!ST || !ST->hasName()) continue;
    uint64_t slot = std::stoull(CB->getFnAttr("fk-slot").getValueAsString().str());
    std::string rec = stripSuffix(ST->getName()); rec = rec.substr(rec.find('.') + 1);
    std::set<llvm::Function *> targets;
    for (auto &s : sets) {
      if (s.base != B || s.off != off) continue;
      std::string cls = demangle(s.vt->getName()); // vtable for X
      if (cls.compare(0, 11, "vtable for ") != 0) continue;
      cls = cls.substr(11); cls = cls.substr(0, cls.find('<'));
      if (cls != rec) continue;
      llvm::Constant *row = s.vt->getInitializer()->getAggregateElement(s.row);
      llvm::Constant *e = row ? row->getAggregateElement(s.idx + slot) : nullptr;
      targets.insert(e ? llvm::dyn_cast<llvm::Function>(e->stripPointerCasts()) : nullptr);
    }
    if (targets.size() != 1 || !*targets.begin()) continue;
    llvm::Function *T = *targets.begin();
    if (T->isDeclaration() || T->getFunctionType() != CB->getFunctionType()) continue;
    CB->setCalledFunction(T);
    CB->removeFnAttr("fk-virt"); CB->removeFnAttr("fk-slot"); CB->removeFnAttr("fk-vcls");
    n++;
  }
  return n;
}

// ---------------------------------------------------------------- dump
// The bytes of a constant, where they are plain data.
static bool constBytes(const llvm::Constant *C, const llvm::DataLayout &DL, std::vector<unsigned char> &out, uint64_t at, std::map<uint64_t, std::string> &rel) {
  if (C->isNullValue() || llvm::isa<llvm::UndefValue>(C)) return true;
  llvm::Type *T = C->getType();
  auto put = [&](const llvm::APInt &A) { uint64_t n = DL.getTypeStoreSize(T); for (uint64_t k = 0; k < n; k++) { if (at + k >= out.size()) return false; out[at + k] = k * 8 < A.getBitWidth() ? (unsigned char)A.extractBitsAsZExtValue(std::min<unsigned>(8, A.getBitWidth() - k * 8), k * 8) : 0; } return true; };
  if (auto *I = llvm::dyn_cast<llvm::ConstantInt>(C)) return put(I->getValue());
  if (auto *F = llvm::dyn_cast<llvm::ConstantFP>(C)) return put(F->getValueAPF().bitcastToAPInt());
  if (auto *S = llvm::dyn_cast<llvm::StructType>(T)) {
    auto *L = DL.getStructLayout(S);
    for (unsigned k = 0; k < S->getNumElements(); k++) { auto *E = C->getAggregateElement(k); if (!E || !constBytes(E, DL, out, at + L->getElementOffset(k), rel)) return false; }
    return true;
  }
  if (auto *A = llvm::dyn_cast<llvm::ArrayType>(T)) {
    uint64_t sz = DL.getTypeAllocSize(A->getElementType());
    for (uint64_t k = 0; k < A->getNumElements(); k++) { auto *E = C->getAggregateElement((unsigned)k); if (!E || !constBytes(E, DL, out, at + k * sz, rel)) return false; }
    return true;
  }
  if (T->isPointerTy()) {
    llvm::APInt A(64, 0);
    auto *G = llvm::dyn_cast<llvm::GlobalValue>(C->stripAndAccumulateConstantOffsets(DL, A, true));
    if (!G) return false;
    rel[at] = G->getName().str() + "+" + std::to_string(A.getSExtValue());
    return true;
  }
  return false;
}

static std::string hexBytes(const llvm::Constant *C, const llvm::DataLayout &DL, std::map<uint64_t, std::string> *relp = nullptr) {
  std::map<uint64_t, std::string> rel;
  uint64_t n = DL.getTypeAllocSize(C->getType());
  if (n == 0 || n > 4096) return "";
  std::vector<unsigned char> b(n);
  if (!constBytes(C, DL, b, 0, rel) || (!relp && !rel.empty())) return "";
  if (relp) *relp = rel;
  return llvm::toHex(b, true);
}

struct Dumper {
  llvm::Function &F;
  const llvm::DataLayout &DL;
  std::map<const llvm::Value *, int> ids;
  std::map<const llvm::BasicBlock *, int> bids;
  explicit Dumper(llvm::Function &F) : F(F), DL(F.getParent()->getDataLayout()) {}

  std::string tyStr(llvm::Type *T) { std::string s; llvm::raw_string_ostream os(s); T->print(os, false, true); os.flush(); if (s.size() > 120) s.resize(120); return s; }

  json::Value operand(llvm::Value *V) {
    if (auto *CI = llvm::dyn_cast<llvm::ConstantInt>(V)) {
      if (CI->getBitWidth() <= 64) return json::Object{{"c", CI->getSExtValue()}, {"w", (int64_t)CI->getBitWidth()}};
      return json::Object{{"c", 0}, {"big", true}};
    }
    if (auto *CF = llvm::dyn_cast<llvm::ConstantFP>(V)) { llvm::SmallString<16> s; CF->getValueAPF().toString(s); return json::Object{{"f", s.str().str()}, {"bytes", hexBytes(CF, DL)}}; }
    if (llvm::isa<llvm::ConstantPointerNull>(V)) return json::Object{{"null", true}};
    if (llvm::isa<llvm::UndefValue>(V)) return json::Object{{"undef", true}};
    if (auto *GV = llvm::dyn_cast<llvm::GlobalValue>(V)) {
      json::Object o{{"g", GV->getName()}, {"d", demangle(GV->getName())}};
      if (auto *Var = llvm::dyn_cast<llvm::GlobalVariable>(GV))
        if (Var->hasInitializer())
          if (auto *CD = llvm::dyn_cast<llvm::ConstantDataSequential>(Var->getInitializer()))
            if (CD->isCString()) { std::string s = CD->getAsCString().str(); if (llvm::json::isUTF8(s)) o["str"] = s; }
      if (auto *Var = llvm::dyn_cast<llvm::GlobalVariable>(GV))
        if (Var->hasInitializer() && !Var->isConstant() && !GV->getName().starts_with("_ZGV")) {
          std::map<uint64_t, std::string> rel; std::string h = hexBytes(Var->getInitializer(), DL, &rel);
          if (!h.empty()) o["bytes"] = h;
          if (!rel.empty()) { json::Object r; for (auto &x : rel) r[std::to_string(x.first)] = x.second; o["rel"] = std::move(r); }
        }
      return o;
    }
    if (auto *CE = llvm::dyn_cast<llvm::ConstantExpr>(V)) {
      json::Array a; for (auto &o : CE->operands()) a.push_back(operand(o.get()));
      json::Object o{{"ce", CE->getOpcodeName()}, {"args", std::move(a)}};
      if (auto *G = llvm::dyn_cast<llvm::GEPOperator>(CE)) { llvm::APInt A(64, 0); if (G->accumulateConstantOffset(DL, A)) o["off"] = A.getSExtValue(); }
      return o;
    }
    if (auto *C = llvm::dyn_cast<llvm::Constant>(V)) {
      if (C->isNullValue()) return json::Object{{"zero", true}};
      json::Array a; for (auto &o : C->operands()) a.push_back(operand(o.get()));
      json::Object o{{"k", tyStr(C->getType())}, {"args", std::move(a)}};
      std::string h = C->getType()->isSized() ? hexBytes(C, DL) : std::string(); if (!h.empty()) o["bytes"] = h;
      return o;
    }
    if (auto *A = llvm::dyn_cast<llvm::Argument>(V)) return json::Object{{"p", (int64_t)A->getArgNo()}};
    if (auto *BB = llvm::dyn_cast<llvm::BasicBlock>(V)) return json::Object{{"b", bids[BB]}};
    auto it = ids.find(V);
    if (it != ids.end()) return json::Object{{"i", it->second}};
    return json::Object{{"x", "?"}};
  }

  json::Value dump(const std::string &label, const std::string &name) {
    int n = 0, b = 0;
    for (auto &BB : F) { bids[&BB] = b++; for (auto &I : BB) ids[&I] = n++; }
    json::Array blocks;
    for (auto &BB : F) {
      json::Array is;
      for (auto &I : BB) {
        json::Object o; o["id"] = ids[&I]; o["op"] = I.getOpcodeName();
        if (!I.getType()->isVoidTy()) o["ty"] = tyStr(I.getType());
        if (I.hasName()) o["nm"] = I.getName().str();
        if (auto &L = I.getDebugLoc()) {
          o["loc"] = L->getFilename().str() + ":" + std::to_string(L->getLine());
          json::Array ch;
          for (llvm::DILocation *D = L.get(); D; D = D->getInlinedAt()) {
            auto *SP = D->getScope()->getSubprogram();
            if (SP) { std::string ln = SP->getLinkageName().str(); ch.push_back(ln.empty() ? SP->getName().str() : ln); }
          }
          o["in"] = std::move(ch);
        }
        if (auto *CB = llvm::dyn_cast<llvm::CallBase>(&I)) {
          json::Array a;
          for (auto &A : CB->args()) a.push_back(operand(A.get()));
          o["args"] = std::move(a);
          json::Array sr; for (unsigned k = 0; k < CB->arg_size(); k++) if (CB->paramHasAttr(k, llvm::Attribute::StructRet)) sr.push_back((int64_t)k);
          if (!sr.empty()) o["sret"] = std::move(sr);
          if (auto *C = CB->getCalledFunction()) { o["sym"] = C->getName().str(); o["callee"] = demangle(C->getName()); o["bn"] = baseName(C->getName()); if (C->isDeclaration()) o["decl"] = true; }
          else o["fp"] = operand(CB->getCalledOperand());
          if (CB->hasFnAttr("fk-virt")) { o["virt"] = CB->getFnAttr("fk-virt").getValueAsString().str(); o["vcls"] = CB->getFnAttr("fk-vcls").getValueAsString().str(); }
          if (CB->doesNotThrow()) o["nounwind"] = true;
          if (auto *IV = llvm::dyn_cast<llvm::InvokeInst>(CB)) { o["normal"] = bids[IV->getNormalDest()]; o["unwind"] = bids[IV->getUnwindDest()]; }
        } else if (auto *PN = llvm::dyn_cast<llvm::PHINode>(&I)) {
          json::Array a; for (unsigned k = 0; k < PN->getNumIncomingValues(); k++) a.push_back(json::Object{{"b", bids[PN->getIncomingBlock(k)]}, {"v", operand(PN->getIncomingValue(k))}});
          o["inc"] = std::move(a);
        } else if (auto *BR = llvm::dyn_cast<llvm::BranchInst>(&I)) {
          if (BR->isConditional()) { o["cond"] = operand(BR->getCondition()); o["succ"] = json::Array{bids[BR->getSuccessor(0)], bids[BR->getSuccessor(1)]}; }
          else o["succ"] = json::Array{bids[BR->getSuccessor(0)]};
        } else if (auto *SW = llvm::dyn_cast<llvm::SwitchInst>(&I)) {
          o["cond"] = operand(SW->getCondition()); json::Array s, cs; s.push_back(bids[SW->getDefaultDest()]);
          for (auto &c : SW->cases()) { s.push_back(bids[c.getCaseSuccessor()]); cs.push_back(c.getCaseValue()->getSExtValue()); }
          o["succ"] = std::move(s); o["cases"] = std::move(cs);
        } else {
          json::Array a; for (auto &A : I.operands()) a.push_back(operand(A.get()));
          o["args"] = std::move(a);
          if (auto *C = llvm::dyn_cast<llvm::CmpInst>(&I)) o["pred"] = llvm::CmpInst::getPredicateName(C->getPredicate()).str();
          if (auto *G = llvm::dyn_cast<llvm::GetElementPtrInst>(&I)) {
            o["sty"] = tyStr(G->getSourceElementType());
            o["ssz"] = (int64_t)(G->getSourceElementType()->isSized() ? DL.getTypeAllocSize(G->getSourceElementType()).getFixedValue() : 0);
            llvm::APInt off(64, 0); if (G->accumulateConstantOffset(DL, off)) o["off"] = off.getSExtValue();
            if (auto *MD = G->getMetadata("fk.field")) { o["rec"] = llvm::cast<llvm::MDString>(MD->getOperand(0))->getString().str(); o["field"] = llvm::cast<llvm::MDString>(MD->getOperand(1))->getString().str(); o["ftype"] = llvm::cast<llvm::MDString>(MD->getOperand(2))->getString().str(); }
          }
          if (auto *A = llvm::dyn_cast<llvm::AllocaInst>(&I)) o["aty"] = tyStr(A->getAllocatedType());
          if (auto *LP = llvm::dyn_cast<llvm::LandingPadInst>(&I)) { o["cleanup"] = LP->isCleanup(); json::Array cl; for (unsigned k = 0; k < LP->getNumClauses(); k++) cl.push_back(operand(LP->getClause(k))); o["clauses"] = std::move(cl); }
          if (auto *LI = llvm::dyn_cast<llvm::LoadInst>(&I)) { if (LI->isAtomic()) o["atomic"] = true; if (LI->isVolatile()) o["volatile"] = true; }
          if (auto *SI = llvm::dyn_cast<llvm::StoreInst>(&I)) { if (SI->isAtomic()) o["atomic"] = true; if (SI->isVolatile()) o["volatile"] = true; }
          if (auto *RM = llvm::dyn_cast<llvm::AtomicRMWInst>(&I)) o["rmw"] = llvm::AtomicRMWInst::getOperationName(RM->getOperation()).str();
          if (auto *EV = llvm::dyn_cast<llvm::ExtractValueInst>(&I)) { json::Array ix; for (unsigned k : EV->indices()) ix.push_back((int64_t)k); o["idx"] = std::move(ix); }
          if (auto *IV = llvm::dyn_cast<llvm::InsertValueInst>(&I)) { json::Array ix; for (unsigned k : IV->indices()) ix.push_back((int64_t)k); o["idx"] = std::move(ix); }
        }
        is.push_back(std::move(o));
      }
      blocks.push_back(json::Object{{"id", bids[&BB]}, {"nm", BB.getName().str()}, {"ins", std::move(is)}});
    }
    json::Array ps;
    for (auto &A : F.args()) { json::Object po{{"nm", A.getName().str()}, {"ty", tyStr(A.getType())}}; if (A.hasStructRetAttr()) po["sret"] = true; if (A.hasByValAttr()) po["byval"] = true; ps.push_back(std::move(po)); }
    return json::Object{{"label", label}, {"sym", name}, {"name", demangle(name)}, {"params", std::move(ps)}, {"ret", tyStr(F.getReturnType())}, {"blocks", std::move(blocks)}};
  }
};

static void process(llvm::Module &M) {
  json::Object out0;
  annotateVirtual(M);
  annotateFields(M);
  json::Object cg; // function -> functions it refers to
  for (auto &F : M) {
    if (F.isDeclaration()) continue;
    std::set<std::string> refs;
    for (auto &I : llvm::instructions(F)) for (auto &Op : I.operands()) { llvm::Value *V = Op.get()->stripPointerCasts(); if (auto *G = llvm::dyn_cast<llvm::Function>(V)) if (!G->isDeclaration()) refs.insert(G->getName().str()); }
    json::Array a; for (auto &r : refs) if (isFakeitSym(r) || isFakeitSym(F.getName())) a.push_back(r);
    if (!a.empty()) cg[F.getName().str()] = std::move(a);
  }
  json::Object vts; // method table -> entries of each of its parts
  for (auto &G : M.globals()) {
    if (!G.getName().starts_with("_ZTV") || !G.hasInitializer()) continue;
    auto *CS = llvm::dyn_cast<llvm::ConstantStruct>(G.getInitializer());
    if (!CS) continue;
    json::Array parts;
    for (auto &P : CS->operands()) {
      auto *CA = llvm::dyn_cast<llvm::ConstantArray>(P.get());
      if (!CA) continue;
      json::Array es;
      for (auto &E : CA->operands()) {
        auto *GV = llvm::dyn_cast<llvm::GlobalValue>(E.get()->stripPointerCasts());
        if (GV) es.push_back(demangle(GV->getName())); else es.push_back(nullptr);
      }
      parts.push_back(std::move(es));
    }
    vts[demangle(G.getName())] = std::move(parts);
  }
  json::Object tis; // class -> its public bases, from the type information exceptions are matched by
  for (auto &G : M.globals()) {
    if (!G.getName().starts_with("_ZTI") || !G.hasInitializer()) continue;
    auto *CS = llvm::dyn_cast<llvm::ConstantStruct>(G.getInitializer());
    if (!CS) continue;
    json::Array bs;
    for (unsigned k = 2; k < CS->getNumOperands(); k++) {
      auto *B = llvm::dyn_cast<llvm::GlobalValue>(CS->getOperand(k)->stripPointerCasts());
      if (!B || !B->getName().starts_with("_ZTI")) continue;
      auto *Fl = k + 1 < CS->getNumOperands() ? llvm::dyn_cast<llvm::ConstantInt>(CS->getOperand(k + 1)) : nullptr;
      if (!Fl || (Fl->getZExtValue() & 2)) bs.push_back(demangle(B->getName()).substr(13));
    }
    tis[demangle(G.getName()).substr(13)] = std::move(bs);
  }
  json::Object gr; // function -> fakeit variables it refers to: [symbol, thread local, location]
  for (auto &F : M) {
    if (F.isDeclaration()) continue;
    std::map<std::string, json::Array> a;
    for (auto &I : llvm::instructions(F)) for (auto &Op : I.operands()) {
      std::vector<llvm::Value *> work{Op.get()};
      while (!work.empty()) {
        llvm::Value *V = work.back()->stripPointerCasts(); work.pop_back();
        if (auto *CE = llvm::dyn_cast<llvm::ConstantExpr>(V)) for (auto &o : CE->operands()) work.push_back(o.get());
        auto *G = llvm::dyn_cast<llvm::GlobalVariable>(V);
        if (!G || G->isConstant() || G->getName().find("6fakeit") == llvm::StringRef::npos || G->getName().starts_with("_ZGV")) continue;
        auto &L = I.getDebugLoc();
        json::Array e; e.push_back(G->getName().str()); e.push_back(G->isThreadLocal()); e.push_back(L ? L->getFilename().str() + ":" + std::to_string(L->getLine()) : std::string());
        a.emplace(G->getName().str(), std::move(e));
      }
    }
    if (a.empty()) continue;
    json::Array l; for (auto &e : a) l.push_back(std::move(e.second));
    gr[F.getName().str()] = std::move(l);
  }
  json::Object fw; // function -> fields it writes: [record, field, constant or null]
  for (auto &F : M) {
    if (F.isDeclaration() || !isFakeitSym(F.getName())) continue;
    json::Array a;
    for (auto &I : llvm::instructions(F)) {
      auto *S = llvm::dyn_cast<llvm::StoreInst>(&I);
      auto *G = S ? llvm::dyn_cast<llvm::GetElementPtrInst>(S->getPointerOperand()) : nullptr;
      auto *MD = G ? G->getMetadata("fk.field") : nullptr;
      if (!MD) continue;
      json::Array e;
      e.push_back(llvm::cast<llvm::MDString>(MD->getOperand(0))->getString().str()); e.push_back(llvm::cast<llvm::MDString>(MD->getOperand(1))->getString().str());
      if (auto *CI = llvm::dyn_cast<llvm::ConstantInt>(S->getValueOperand())) e.push_back(CI->getSExtValue()); else e.push_back(nullptr);
      auto &L = I.getDebugLoc(); e.push_back(L ? L->getFilename().str() + ":" + std::to_string(L->getLine()) : std::string());
      a.push_back(std::move(e));
    }
    if (!a.empty()) fw[F.getName().str()] = std::move(a);
  }
  out0 = std::move(fw);
  for (auto &s : spec.opaque) reOpaque.emplace_back(s);
  for (auto &s : spec.inl) reInline.emplace_back(s);
  json::Object out;
  json::Array fns, caps;
  std::vector<std::pair<std::string, llvm::Function *>> roots;
  std::vector<std::pair<std::string, std::string>> names; // sym, demangled
  for (auto &F : M) if (!F.isDeclaration()) names.push_back({F.getName().str(), demangle(F.getName())});
  if (spec.list) { json::Array l; for (auto &n : names) l.push_back(json::Object{{"sym", n.first}, {"name", n.second}}); out["list"] = std::move(l); }
  for (auto &r : spec.roots) {
    llvm::Regex re(r.re); std::string err;
    if (!re.isValid(err)) { llvm::errs() << "bad regex " << r.re << ": " << err << "\n"; failed = true; return; }
    for (auto &n : names) {
      bool hit = false;
      // a closure inside a function is no root when the function itself is asked for
      size_t cl = n.second.find("::'lambda");
      if (r.kind == "root") hit = re.match(n.second) && (cl == std::string::npos || !re.match(n.second.substr(0, cl)));
      else { auto it = facts.overrides.find(n.first); if (it != facts.overrides.end()) for (auto &o : it->second) if (re.match(o)) hit = true; }
      if (hit) roots.push_back({r.label, M.getFunction(n.first)});
    }
  }
  llvm::PassBuilder PB; llvm::LoopAnalysisManager LAM; llvm::FunctionAnalysisManager FAM; llvm::CGSCCAnalysisManager CGAM; llvm::ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  std::set<std::pair<std::string, llvm::Function *>> done;
  for (size_t k = 0; k < roots.size(); k++) {
    auto [label, F] = roots[k];
    if (!done.insert({label, F}).second) continue;
    llvm::ValueToValueMapTy VM;
    llvm::Function *C = llvm::CloneFunction(F, VM);
    C->setName("fk_clone"); 
    bool big = false;
    expand(*C, F, big);
    if (!big) {
      simplify(*C, FAM, false); FAM.invalidate(*C, llvm::PreservedAnalyses::none());
      for (int it = 0; it < 4 && !big; it++) {
        int n = resolveFunctionObjects(*C) + resolveLocalObjects(*C);
        if (!n) break;
        expand(*C, F, big);
        simplify(*C, FAM, false); FAM.invalidate(*C, llvm::PreservedAnalyses::none());
      }
      simplify(*C, FAM, true); FAM.invalidate(*C, llvm::PreservedAnalyses::none());
    }
    if (big) { llvm::errs() << "function too large after expansion: " << demangle(F->getName()) << "\n"; C->eraseFromParent(); continue; }
    // closures stored from here become roots of their own
    std::string cl = label + "/closure";
    if (std::count(label.begin(), label.end(), '/') < 2)
      for (auto &I : llvm::instructions(*C)) if (auto *CB = llvm::dyn_cast<llvm::CallBase>(&I)) if (auto *G = CB->getCalledFunction())
        if (isFnMember(G->getName()) && baseName(G->getName()) == "function" && !G->isDeclaration())
          if (auto *T = closureCall(G)) if (isFakeitSym(T->getName())) roots.push_back({cl, T});
    Dumper D(*C);
    auto v = D.dump(label, F->getName().str());
    fns.push_back(std::move(v));
    FAM.clear(*C, "x");
    C->eraseFromParent();
  }
  out["functions"] = std::move(fns);
  out["calls"] = std::move(cg);
  out["writes"] = std::move(out0);
  out["globals"] = std::move(gr);
  out["vtables"] = std::move(vts);
  out["bases"] = std::move(tis);
  json::Object cj; for (auto &c : facts.captures) cj[c.first] = std::move(c.second);
  out["captures"] = std::move(cj);
  json::Object rj;
  for (auto &r : facts.records) {
    if (r.first.find("fakeit") == std::string::npos) continue;
    json::Array a;
    for (auto &R : r.second) { json::Array fs; for (auto &f : R.fields) fs.push_back(json::Object{{"off", (int64_t)f.off}, {"name", f.name}, {"type", f.type}}); json::Array bs; for (auto &b : R.bases) bs.push_back(json::Object{{"off", (int64_t)b.first}, {"name", b.second}}); a.push_back(json::Object{{"full", R.full}, {"size", (int64_t)R.size}, {"vdtor", R.vdtor}, {"fields", std::move(fs)}, {"bases", std::move(bs)}}); }
    rj[r.first] = std::move(a);
  }
  out["records"] = std::move(rj);
  json::Object oj; for (auto &o : facts.overrides) { json::Array a; for (auto &s : o.second) a.push_back(s); oj[o.first] = std::move(a); }
  out["overrides"] = std::move(oj);
  json::Object lj; for (auto &l : facts.defLoc) if (l.first.find("6fakeit") != std::string::npos) lj[l.first] = l.second;
  out["locs"] = std::move(lj);
  std::error_code EC; llvm::raw_fd_ostream os(outPath, EC);
  os << json::Value(std::move(out));
}

struct FactsConsumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Visitor V(C); V.TraverseDecl(C.getTranslationUnitDecl());
  }
};

struct Act : EmitLLVMOnlyAction {
  explicit Act(llvm::LLVMContext *c) : EmitLLVMOnlyAction(c) {}
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef F) override {
    std::vector<std::unique_ptr<ASTConsumer>> v;
    v.push_back(std::make_unique<FactsConsumer>());
    v.push_back(EmitLLVMOnlyAction::CreateASTConsumer(CI, F));
    return std::make_unique<MultiplexConsumer>(std::move(v));
  }
  void EndSourceFileAction() override {
    EmitLLVMOnlyAction::EndSourceFileAction();
    auto M = takeModule();
    if (!M || getCompilerInstance().getDiagnostics().hasErrorOccurred()) { failed = true; return; }
    // constructors of explicitly instantiated classes can be aliases of each other
    std::vector<llvm::GlobalAlias *> as;
    for (auto &A : M->aliases()) as.push_back(&A);
    for (auto *A : as) A->replaceAllUsesWith(A->getAliasee());
    process(*M);
  }
};

int main(int argc, char **argv) {
  if (argc < 5) return 2;
  std::ifstream in(argv[1]);
  outPath = argv[2];
  std::string line;
  while (std::getline(in, line)) {
    if (line.empty()) continue;
    std::istringstream ls(line); std::string k; ls >> k;
    if (k == "list") spec.list = true;
    else if (k == "opaque" || k == "inline") { std::string r; std::getline(ls >> std::ws, r); (k == "opaque" ? spec.opaque : spec.inl).push_back(r); }
    else { Spec::Root R; R.kind = k; ls >> R.label; std::getline(ls >> std::ws, R.re); spec.roots.push_back(R); }
  }
  std::vector<std::string> args(argv + 4, argv + argc);
  llvm::LLVMContext ctx; ctx.setDiscardValueNames(false);
  IntrusiveRefCntPtr<FileManager> fm(new FileManager(FileSystemOptions()));
  tooling::ToolInvocation inv(args, std::make_unique<Act>(&ctx), fm.get());
  bool ok = inv.run();
  return ok && !failed ? 0 : 1;
}
