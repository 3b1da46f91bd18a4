// srcfacts: dumps the resolved program (declarations, constants, CFGs with typed expression
// trees) of one translation unit as JSON.  It interprets nothing; every rule lives in /verif/sa.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/ParentMap.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;

static llvm::cl::OptionCategory Cat("srcfacts");
static llvm::cl::opt<std::string> Out("o", llvm::cl::cat(Cat), llvm::cl::Required);
static llvm::cl::list<std::string> Roots("root", llvm::cl::cat(Cat));

namespace {

class Dumper : public RecursiveASTVisitor<Dumper> {
public:
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  json::Object Funcs, Recs, Enums, Vars, Decls;
  json::Array Types;
  std::map<void *, int> TypeIds;
  std::set<const Decl *> DeclsDone;
  std::vector<const FunctionDecl *> Pending;
  std::set<std::string> FuncDone;

  explicit Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
  }

  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto F = SM.getFileEntryRefForID(SM.getFileID(L));
    if (!F) return "";
    llvm::SmallString<256> P(F->getFileEntry().tryGetRealPathName());
    return P.empty() ? F->getName().str() : std::string(P);
  }
  unsigned lineOf(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  bool inRoots(SourceLocation L) {
    if (L.isInvalid()) return false;
    std::string F = fileOf(L);
    for (auto &R : Roots)
      if (F.rfind(R, 0) == 0) return true;
    return false;
  }
  std::string usr(const Decl *D) {
    llvm::SmallString<128> B;
    if (index::generateUSRForDecl(D, B)) return "?" + std::to_string((uintptr_t)D);
    return std::string(B);
  }
  std::string qn(const NamedDecl *D) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    D->printQualifiedName(OS, PP);
    return OS.str();
  }

  int typeId(QualType T) {
    if (T.isNull()) return -1;
    QualType CT = T.getCanonicalType();
    void *K = CT.getAsOpaquePtr();
    auto It = TypeIds.find(K);
    if (It != TypeIds.end()) return It->second;
    int Id = (int)Types.size();
    TypeIds[K] = Id;
    Types.push_back(nullptr);
    json::Object O;
    O["s"] = CT.getAsString(PP);
    O["n"] = T.getAsString(PP);
    if (CT.isConstQualified()) O["c"] = true;
    QualType U = CT.getUnqualifiedType();
    if (U->isPointerType()) { O["k"] = "ptr"; O["p"] = typeId(U->getPointeeType()); }
    else if (U->isReferenceType()) { O["k"] = "ref"; O["p"] = typeId(U->getPointeeType()); }
    else if (U->isBooleanType()) O["k"] = "bool";
    else if (U->isEnumeralType()) { O["k"] = "enum"; O["e"] = usr(U->getAs<EnumType>()->getDecl()); }
    else if (U->isIntegerType()) { O["k"] = "int"; O["u"] = U->isUnsignedIntegerType(); O["w"] = (int64_t)C.getTypeSize(U); }
    else if (U->isFloatingType()) O["k"] = "float";
    else if (U->isVoidType()) O["k"] = "void";
    else if (U->isNullPtrType()) O["k"] = "null";
    else if (U->isArrayType()) {
      O["k"] = "arr"; O["p"] = typeId(C.getAsArrayType(U)->getElementType());
      if (auto *CA = C.getAsConstantArrayType(U)) O["len"] = (int64_t)CA->getSize().getZExtValue();
    }
    else if (U->isFunctionType()) O["k"] = "fun";
    else if (auto *RT = U->getAs<RecordType>()) { O["k"] = "rec"; O["r"] = qn(RT->getDecl()); record(RT->getDecl()); }
    else if (U->isMemberPointerType()) O["k"] = "mptr";
    else O["k"] = "other";
    Types[Id] = std::move(O);
    return Id;
  }

  std::map<const RecordDecl *, bool> RecDone;
  void record(const RecordDecl *R0) {
    const RecordDecl *R = R0->getDefinition();
    if (!R || RecDone.count(R)) return;
    RecDone[R] = true;
    json::Object O;
    bool Mine = inRoots(R->getLocation());
    O["mine"] = Mine;
    O["file"] = fileOf(R->getLocation());
    O["line"] = lineOf(R->getLocation());
    json::Array Fs, Bs;
    if (Mine || R->isUnion() || true) {
      if (Mine)
      for (auto *F : R->fields()) {
        json::Object FO;
        FO["n"] = F->getNameAsString();
        FO["t"] = typeId(F->getType());
        FO["line"] = lineOf(F->getLocation());
        if (F->isMutable()) FO["mutable"] = true;
        if (F->isBitField()) FO["bits"] = F->getBitWidthValue(C);
        if (auto *I = F->getInClassInitializer()) FO["init"] = tree(I);
        Fs.push_back(std::move(FO));
      }
      if (auto *CR = dyn_cast<CXXRecordDecl>(R)) {
        for (auto &B : CR->bases()) {
          if (auto *BR = B.getType()->getAsCXXRecordDecl()) { Bs.push_back(qn(BR)); record(BR); }
        }
        if (auto *DD = CR->getDestructor()) O["dtor"] = usr(DD);
        if (CR->isLambda()) O["lambda"] = true;
      }
    }
    O["fields"] = std::move(Fs);
    O["bases"] = std::move(Bs);
    Recs[qn(R)] = std::move(O);
  }

  // declare a function reference
  std::string declRef(const FunctionDecl *F) {
    F = F->getCanonicalDecl();
    std::string U = usr(F);
    if (DeclsDone.insert(F).second) {
      json::Object O;
      O["qn"] = qn(F);
      O["n"] = F->getNameAsString();
      bool Sys = !inRoots(F->getLocation());
      if (auto *FD = F->getDefinition()) if (inRoots(FD->getLocation())) Sys = false;
      // implicit members of our records are ours
      if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
        O["cls"] = qn(M->getParent());
        O["clst"] = C.getTypeDeclType(M->getParent()).getCanonicalType().getAsString(PP);
        if (M->isVirtual()) O["virt"] = true;
        if (M->isStatic()) O["st"] = true;
        if (M->isConst()) O["const"] = true;
        json::Array Ov;
        for (auto *B : M->overridden_methods()) Ov.push_back(usr(B->getCanonicalDecl()));
        if (!Ov.empty()) O["ov"] = std::move(Ov);
        if (isa<CXXDestructorDecl>(M)) O["dtor"] = true;
        if (auto *CD = dyn_cast<CXXConstructorDecl>(M)) {
          O["ctor"] = true;
          if (CD->isCopyConstructor()) O["copy"] = true;
          if (CD->isMoveConstructor()) O["move"] = true;
        }
        if (M->isCopyAssignmentOperator()) O["casgn"] = true;
        if (M->isMoveAssignmentOperator()) O["masgn"] = true;
        if (M->isDefaulted()) O["dflt"] = true;
        if (M->isImplicit()) O["impl"] = true;
      }
      if (Sys) O["sys"] = true;
      O["file"] = fileOf(F->getLocation());
      O["line"] = lineOf(F->getLocation());
      O["ret"] = typeId(F->getReturnType());
      json::Array Ps;
      for (auto *P : F->parameters()) Ps.push_back(typeId(P->getType()));
      O["ps"] = std::move(Ps);
      if (F->isVariadic()) O["va"] = true;
      if (F->isExternC()) O["ec"] = true;
      if (auto *FP = F->getType()->getAs<FunctionProtoType>()) {
        auto ES = FP->getExceptionSpecType();
        if (ES != EST_None && ES != EST_Uninstantiated && ES != EST_Unevaluated && ES != EST_Unparsed && FP->canThrow() == CT_Cannot) O["ne"] = true;
      }
      if (F->isNoReturn()) O["nr"] = true;
      if (F->isDeleted()) O["del"] = true;
      if (F->isOverloadedOperator()) O["op"] = getOperatorSpelling(F->getOverloadedOperator());
      if (isa<CXXConversionDecl>(F)) O["conv"] = true;
      if (F->getStorageClass() == SC_Static && !isa<CXXMethodDecl>(F)) O["static"] = true;
      if (F->getBuiltinID()) O["builtin"] = true;
      Decls[U] = std::move(O);
    }
    return U;
  }

  // ---- per-function state
  struct FnCtx {
    std::map<const Stmt *, int> Ids;
    json::Object Exprs;
    std::map<const ValueDecl *, std::string> Locals;
    std::map<const Stmt *, int> TryOf; // stmt -> try index
    std::map<const Stmt *, std::pair<int, int>> HandlerOf; // throw or call -> innermost (try, handler) it is written in
    int NextTmp = 0;
  };
  FnCtx *FC = nullptr;

  std::string varRef(const ValueDecl *V) {
    if (auto *VD = dyn_cast<VarDecl>(V)) {
      if (VD->hasGlobalStorage()) {
        globalVar(VD);
        return "G:" + usr(VD->getCanonicalDecl());
      }
    }
    if (!FC) return "L:" + V->getNameAsString();
    auto It = FC->Locals.find(V);
    if (It != FC->Locals.end()) return It->second;
    std::string N = V->getNameAsString() + "#" + std::to_string(FC->Locals.size());
    FC->Locals[V] = N;
    return N;
  }

  std::set<const VarDecl *> VarsDone;
  void globalVar(const VarDecl *V0) {
    const VarDecl *V = V0->getCanonicalDecl();
    if (!VarsDone.insert(V).second) return;
    json::Object O;
    const VarDecl *Def = V->getDefinition();
    if (!Def) Def = V;
    O["qn"] = qn(V);
    O["t"] = typeId(Def->getType());
    O["file"] = fileOf(Def->getLocation());
    O["line"] = lineOf(Def->getLocation());
    O["def"] = V->getDefinition() != nullptr;
    if (!inRoots(Def->getLocation())) O["sys"] = true;
    if (Def->isStaticLocal()) O["slocal"] = true;
    if (Def->isStaticDataMember()) O["smember"] = true;
    if (Def->getTLSKind() != VarDecl::TLS_None) O["tls"] = true;
    if (Def->getType().isConstQualified()) O["const"] = true;
    if (Def->isConstexpr()) O["const"] = true;
    if (auto *F = dyn_cast_or_null<FunctionDecl>(Def->getParentFunctionOrMethod())) O["fn"] = qn(F);
    if (!Def->isExternallyVisible()) O["internal"] = true;
    const VarDecl *ID = nullptr;
    if (auto *Init = V->getAnyInitializer(ID)) {
      if (!O.get("sys")) { FnCtx *Save = FC; FC = nullptr; O["init"] = tree(Init); FC = Save; }
    }
    Vars[usr(V)] = std::move(O);
  }

  // constant value of expression
  void constOf(const Expr *E, json::Object &O) {
    if (E->isValueDependent() || E->isTypeDependent()) return;
    if (E->getType()->isIntegralOrEnumerationType()) {
      Expr::EvalResult R;
      if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects) && R.Val.isInt()) {
        auto &I = R.Val.getInt();
        if (I.isUnsigned() && I.getActiveBits() > 63) O["cv"] = std::to_string(I.getZExtValue());
        else if (I.getSignificantBits() <= 64) O["cv"] = (int64_t)I.getExtValue();
      }
    }
  }

  // Nested tree (for global initialisers): everything inline.
  json::Value tree(const Expr *E) {
    if (!E) return nullptr;
    E = strip(E);
    if (auto *IL = dyn_cast<InitListExpr>(E)) if (IL->isSemanticForm() == false && IL->getSemanticForm()) E = IL->getSemanticForm();
    json::Object O = node(E);
    json::Array A;
    for (const Expr *Op : operands(E)) A.push_back(tree(Op));
    if (!A.empty()) O["ops"] = std::move(A);
    return O;
  }

  const Expr *strip(const Expr *E) {
    while (E) {
      if (auto *P = dyn_cast<ParenExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *X = dyn_cast<ExprWithCleanups>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<ConstantExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = X->getReplacement(); continue; }
      if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) { E = X->getExpr(); continue; }
      if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) { E = X->getExpr(); continue; }
      if (auto *X = dyn_cast<FullExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<OpaqueValueExpr>(E)) { if (X->getSourceExpr()) { E = X->getSourceExpr(); continue; } }
      if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) { E = X->getSubExpr(); continue; }
      break;
    }
    return E;
  }

  std::vector<const Expr *> operands(const Expr *E) {
    std::vector<const Expr *> R;
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      R.push_back(X->getImplicitObjectArgument() ? X->getImplicitObjectArgument() : X->getCallee());
      for (auto *A : X->arguments()) R.push_back(A);
    } else if (auto *X = dyn_cast<CallExpr>(E)) {
      if (!X->getDirectCallee()) R.push_back(X->getCallee());
      for (auto *A : X->arguments()) R.push_back(A);
    } else if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      if (X->getInitializer()) R.push_back(X->getInitializer());
      if (X->isArray() && X->getArraySize()) if (auto *S = *X->getArraySize()) R.push_back(S);
      for (unsigned i = 0; i < X->getNumPlacementArgs(); ++i) R.push_back(X->getPlacementArg(i));
    } else if (auto *X = dyn_cast<LambdaExpr>(E)) {
      for (auto *I : X->capture_inits()) if (I) R.push_back(I);
    } else if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      // unevaluated
    } else if (isa<CXXTypeidExpr>(E) || isa<CXXNoexceptExpr>(E)) {
    } else {
      for (const Stmt *S : E->children())
        if (auto *X = dyn_cast_or_null<Expr>(S)) R.push_back(X);
    }
    return R;
  }

  json::Object node(const Expr *E) {
    json::Object O;
    O["k"] = E->getStmtClassName();
    O["t"] = typeId(E->getType());
    if (E->isGLValue()) O["lv"] = true;
    O["l"] = lineOf(E->getBeginLoc());
    constOf(E, O);
    if (auto *X = dyn_cast<StringLiteral>(E)) { if (X->getCharByteWidth() == 1) { std::string S = X->getString().str(); O["sv"] = json::isUTF8(S) ? json::Value(S) : json::Value(json::fixUTF8(S)); O["len"] = (int64_t)S.size(); } }
    else if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      auto *D = X->getDecl();
      if (auto *F = dyn_cast<FunctionDecl>(D)) O["fn"] = declRef(F);
      else if (isa<EnumConstantDecl>(D)) O["ec"] = qn(D);
      else O["v"] = varRef(D);
      if (X->refersToEnclosingVariableOrCapture()) O["cap"] = true;
    } else if (auto *X = dyn_cast<MemberExpr>(E)) {
      auto *D = X->getMemberDecl();
      if (auto *F = dyn_cast<FieldDecl>(D)) { O["f"] = F->getNameAsString(); O["rec"] = qn(F->getParent()); record(F->getParent()); }
      else if (auto *V = dyn_cast<VarDecl>(D)) O["v"] = varRef(V);
      else if (auto *M = dyn_cast<CXXMethodDecl>(D)) O["fn"] = declRef(M);
      if (X->isArrow()) O["arrow"] = true;
    } else if (auto *X = dyn_cast<UnaryOperator>(E)) { O["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str(); if (X->isPostfix()) O["post"] = true; }
    else if (auto *X = dyn_cast<BinaryOperator>(E)) O["op"] = X->getOpcodeStr().str();
    else if (auto *X = dyn_cast<CastExpr>(E)) {
      O["ck"] = X->getCastKindName();
      if (auto *CF = dyn_cast_or_null<FunctionDecl>(X->getConversionFunction())) O["cfn"] = declRef(CF);
    }
    else if (auto *X = dyn_cast<CallExpr>(E)) {
      if (auto *F = X->getDirectCallee()) {
        O["fn"] = declRef(F);
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
          bool V = M->isVirtual();
          if (auto *MC = dyn_cast<CXXMemberCallExpr>(E))
            if (auto *ME = dyn_cast<MemberExpr>(MC->getCallee()->IgnoreParens())) { if (ME->hasQualifier()) V = false; }
          if (V && M->hasAttr<FinalAttr>()) V = false;
          if (V) O["vc"] = true;
        }
      } else O["ind"] = true;
      if (isa<CXXMemberCallExpr>(E)) O["mc"] = true;
      if (isa<CXXOperatorCallExpr>(E)) O["oc"] = getOperatorSpelling(cast<CXXOperatorCallExpr>(E)->getOperator());
    } else if (auto *X = dyn_cast<CXXConstructExpr>(E)) { O["fn"] = declRef(X->getConstructor()); if (X->isElidable()) O["elide"] = true; if (X->isListInitialization()) O["list"] = true; }
    else if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) O["fn"] = declRef(X->getConstructor());
    else if (auto *X = dyn_cast<CXXNewExpr>(E)) { O["at"] = typeId(X->getAllocatedType()); if (X->isArray()) O["array"] = true; if (X->hasInitializer()) O["ini"] = true; if (X->getNumPlacementArgs()) O["plc"] = (int)X->getNumPlacementArgs(); }
    else if (auto *X = dyn_cast<CXXDeleteExpr>(E)) { O["dt"] = typeId(X->getDestroyedType()); if (X->isArrayForm()) O["array"] = true;
      if (auto *R = X->getDestroyedType().isNull() ? nullptr : X->getDestroyedType()->getAsCXXRecordDecl()) if (R->hasDefinition()) if (auto *DD = R->getDestructor()) O["dfn"] = declRef(DD); }
    else if (auto *X = dyn_cast<LambdaExpr>(E)) {
      O["fn"] = declRef(X->getCallOperator());
      O["rec"] = qn(X->getLambdaClass());
      Pending.push_back(X->getCallOperator());
      json::Array Cs;
      for (auto &Cp : X->captures()) {
        json::Object CO;
        if (Cp.capturesVariable()) { CO["v"] = varRef(Cp.getCapturedVar()); CO["ref"] = Cp.getCaptureKind() == LCK_ByRef; }
        else CO["this"] = true;
        Cs.push_back(std::move(CO));
      }
      O["caps"] = std::move(Cs);
    } else if (auto *X = dyn_cast<FloatingLiteral>(E)) { O["fv"] = X->getValueAsApproximateDouble(); }
    else if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) { O["op"] = "sizeof"; if (X->isArgumentType()) O["at"] = typeId(X->getArgumentType()); }
    return O;
  }

  int exprId(const Expr *E0) {
    const Expr *E = strip(E0);
    auto It = FC->Ids.find(E);
    if (It != FC->Ids.end()) return It->second;
    int Id = (int)FC->Ids.size();
    FC->Ids[E] = Id;
    json::Object O = node(E);
    json::Array A;
    for (auto *Op : operands(E)) A.push_back(exprId(Op));
    if (!A.empty()) O["ops"] = std::move(A);
    auto T = FC->TryOf.find(E);
    if (T != FC->TryOf.end()) O["try"] = T->second;
    auto TH = FC->HandlerOf.find(E);
    if (TH != FC->HandlerOf.end()) O["handler"] = json::Array{TH->second.first, TH->second.second};
    FC->Exprs[std::to_string(Id)] = std::move(O);
    return Id;
  }

  // map sub-statements to enclosing try index (protected bodies only)
  std::vector<const CXXTryStmt *> Trys;
  std::map<const CXXTryStmt *, int> TryParent;
  std::pair<int, int> CurHandler{-1, -1};
  void mapTry(const Stmt *S, int Cur) {
    if (!S) return;
    if (auto *T = dyn_cast<CXXTryStmt>(S)) {
      int Idx = (int)Trys.size();
      Trys.push_back(T);
      TryParent[T] = Cur;
      mapTry(T->getTryBlock(), Idx);
      auto SaveH = CurHandler;
      for (unsigned i = 0; i < T->getNumHandlers(); ++i) {
        CurHandler = {Idx, (int)i};
        mapTry(T->getHandler(i), Cur);
      }
      CurHandler = SaveH;
      return;
    }
    if (Cur >= 0) FC->TryOf[S] = Cur;
    if (CurHandler.first >= 0 && (isa<CXXThrowExpr>(S) || isa<CallExpr>(S) || isa<CXXConstructExpr>(S))) FC->HandlerOf[S] = CurHandler;
    if (isa<LambdaExpr>(S)) {
      for (auto *I : cast<LambdaExpr>(S)->capture_inits()) mapTry(I, Cur);
      return;
    }
    for (auto *Ch : S->children()) mapTry(Ch, Cur);
  }

  void function(const FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody() || !F->getBody()) return;
    if (F->isDependentContext()) return;
    if (!inRoots(F->getLocation()) ) return;
    if (F->isDefaulted() && !isa<CXXConstructorDecl>(F)) { }
    std::string U = usr(F->getCanonicalDecl());
    if (!FuncDone.insert(U).second) return;
    declRef(F);
    FnCtx Ctx;
    FnCtx *Save = FC;
    FC = &Ctx;
    auto SaveTrys = Trys;
    auto SaveCH = CurHandler;
    CurHandler = {-1, -1};
    auto SaveTP = TryParent;
    Trys.clear();
    TryParent.clear();
    json::Object O;
    O["qn"] = qn(F);
    O["n"] = F->getNameAsString();
    O["file"] = fileOf(F->getLocation());
    O["line"] = lineOf(F->getLocation());
    O["end"] = lineOf(F->getEndLoc());
    O["ret"] = typeId(F->getReturnType());
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) { O["cls"] = qn(M->getParent()); if (M->isStatic()) O["st"] = true;
      if (M->getParent()->isLambda()) O["lambda"] = true; }
    if (F->isExternC()) O["ec"] = true;
    if (F->isImplicit()) O["impl"] = true;
    json::Array Ps;
    for (auto *P : F->parameters()) {
      json::Object PO;
      PO["v"] = varRef(P);
      PO["n"] = P->getNameAsString();
      PO["t"] = typeId(P->getType());
      Ps.push_back(std::move(PO));
    }
    O["params"] = std::move(Ps);
    mapTry(F->getBody(), -1);
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F))
      for (auto *I : CD->inits()) mapTry(I->getInit(), -1);

    CFG::BuildOptions BO;
    BO.setAllAlwaysAdd();
    BO.AddImplicitDtors = true;
    BO.AddInitializers = true;
    BO.AddCXXDefaultInitExprInCtors = true;
    BO.AddTemporaryDtors = false;
    BO.PruneTriviallyFalseEdges = true;
    auto G = CFG::buildCFG(F, F->getBody(), &C, BO);
    if (!G) {
      O["nocfg"] = true;
    } else {
      json::Array Bl;
      O["entry"] = (int)G->getEntry().getBlockID();
      O["exit"] = (int)G->getExit().getBlockID();
      std::map<const Stmt *, int> CatchBlock;
      for (auto *B : *G) {
        json::Object BOb;
        BOb["id"] = (int)B->getBlockID();
        json::Array El;
        if (auto *L = B->getLabel()) {
          if (auto *CS = dyn_cast<CXXCatchStmt>(L)) { CatchBlock[CS] = (int)B->getBlockID(); 
            if (auto *ED = CS->getExceptionDecl()) BOb["catchv"] = varRef(ED);
          }
          if (auto *CS = dyn_cast<CaseStmt>(L)) {
            json::Object CO; constOf(CS->getLHS(), CO);
            json::Array CV; 
            if (auto *V = CO.get("cv")) CV.push_back(*V);
            if (CS->getRHS()) { json::Object C2; constOf(CS->getRHS(), C2); if (auto *V = C2.get("cv")) BOb["casehi"] = *V; }
            BOb["case"] = std::move(CV);
          } else if (isa<DefaultStmt>(L)) BOb["default"] = true;
        }
        for (auto &E : *B) {
          json::Object EO;
          switch (E.getKind()) {
          case CFGElement::Statement:
          case CFGElement::Constructor:
          case CFGElement::CXXRecordTypedCall: {
            const Stmt *S = E.castAs<CFGStmt>().getStmt();
            if (auto *X = dyn_cast<Expr>(S)) {
              if (strip(X) != X) continue;
              EO["k"] = "E"; EO["id"] = exprId(X);
            } else if (auto *DS = dyn_cast<DeclStmt>(S)) {
              EO["k"] = "D";
              json::Array Vs;
              for (auto *D : DS->decls())
                if (auto *V = dyn_cast<VarDecl>(D)) {
                  json::Object VO;
                  VO["v"] = varRef(V);
                  VO["n"] = V->getNameAsString();
                  VO["t"] = typeId(V->getType());
                  if (V->hasGlobalStorage()) VO["static"] = true;
                  if (V->getInit()) VO["init"] = exprId(V->getInit());
                  Vs.push_back(std::move(VO));
                }
              if (Vs.empty()) continue;
              EO["vars"] = std::move(Vs);
              EO["l"] = lineOf(S->getBeginLoc());
            } else if (auto *RS = dyn_cast<ReturnStmt>(S)) {
              EO["k"] = "R";
              if (RS->getRetValue()) EO["id"] = exprId(RS->getRetValue());
              EO["l"] = lineOf(S->getBeginLoc());
              EO["le"] = lineOf(S->getEndLoc());
            } else continue;
            break;
          }
          case CFGElement::Initializer: {
            auto *I = E.castAs<CFGInitializer>().getInitializer();
            EO["k"] = "I";
            if (I->isAnyMemberInitializer()) EO["f"] = I->getAnyMember()->getNameAsString();
            else if (I->isBaseInitializer()) EO["b"] = QualType(I->getBaseClass(), 0)->getAsCXXRecordDecl() ? qn(QualType(I->getBaseClass(), 0)->getAsCXXRecordDecl()) : "?";
            else EO["deleg"] = true;
            EO["id"] = exprId(I->getInit());
            EO["l"] = lineOf(I->getSourceLocation());
            break;
          }
          case CFGElement::AutomaticObjectDtor: {
            auto D = E.castAs<CFGAutomaticObjDtor>();
            EO["k"] = "X"; EO["v"] = varRef(D.getVarDecl());
            if (auto *DD = D.getDestructorDecl(C)) EO["fn"] = declRef(DD);
            EO["l"] = lineOf(D.getTriggerStmt() ? D.getTriggerStmt()->getEndLoc() : F->getEndLoc());
            break;
          }
          case CFGElement::MemberDtor: {
            auto D = E.castAs<CFGMemberDtor>();
            EO["k"] = "XM"; EO["f"] = D.getFieldDecl()->getNameAsString(); EO["t"] = typeId(D.getFieldDecl()->getType());
            if (auto *DD = D.getDestructorDecl(C)) EO["fn"] = declRef(DD);
            break;
          }
          default: continue;
          }
          El.push_back(std::move(EO));
        }
        BOb["el"] = std::move(El);
        if (const Stmt *T = B->getTerminatorStmt()) {
          BOb["tk"] = T->getStmtClassName();
          if (auto *BOp = dyn_cast<BinaryOperator>(T)) { BOb["tid"] = exprId(BOp); BOb["top"] = BOp->getOpcodeStr().str(); }
          if (auto *CO = dyn_cast<AbstractConditionalOperator>(T)) BOb["tid"] = exprId(CO);
          BOb["tl"] = lineOf(T->getBeginLoc());
          if (isa<CXXTryStmt>(T)) BOb["tryT"] = true;
          if (const Stmt *Cd = B->getTerminatorCondition())
            if (auto *X = dyn_cast<Expr>(Cd)) BOb["cond"] = exprId(X);
        }
        json::Array Su;
        for (auto It = B->succ_begin(); It != B->succ_end(); ++It) {
          if (const CFGBlock *S = It->getReachableBlock()) Su.push_back((int)S->getBlockID());
          else Su.push_back(-1);
        }
        BOb["succ"] = std::move(Su);
        if (B->hasNoReturnElement()) BOb["nr"] = true;
        Bl.push_back(std::move(BOb));
      }
      O["blocks"] = std::move(Bl);
      json::Array TA;
      for (auto *T : Trys) {
        json::Object TO;
        TO["parent"] = TryParent[T];
        TO["l"] = lineOf(T->getBeginLoc());
        json::Array Hs;
        for (unsigned i = 0; i < T->getNumHandlers(); ++i) {
          auto *H = T->getHandler(i);
          json::Object HO;
          auto It = CatchBlock.find(H);
          HO["block"] = It == CatchBlock.end() ? -1 : It->second;
          if (H->getExceptionDecl()) { QualType CT = H->getCaughtType().getNonReferenceType().getUnqualifiedType(); HO["t"] = typeId(CT); } else HO["all"] = true;
          Hs.push_back(std::move(HO));
        }
        TO["h"] = std::move(Hs);
        TA.push_back(std::move(TO));
      }
      if (!TA.empty()) O["trys"] = std::move(TA);
    }
    O["exprs"] = std::move(Ctx.Exprs);
    Funcs[U] = std::move(O);
    FC = Save;
    Trys = SaveTrys;
    CurHandler = SaveCH;
    TryParent = SaveTP;
  }

  bool VisitFunctionDecl(FunctionDecl *F) { Pending.push_back(F); return true; }
  bool VisitVarDecl(VarDecl *V) {
    if (V->hasGlobalStorage() && inRoots(V->getLocation()) && !V->getDeclContext()->isDependentContext() && !V->isTemplated()) globalVar(V);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (!inRoots(E->getLocation()) || E->isDependentContext()) return true;
    json::Object O;
    O["qn"] = qn(E);
    O["file"] = fileOf(E->getLocation());
    json::Array A;
    for (auto *K : E->enumerators()) { json::Object KO; KO["n"] = qn(K); KO["v"] = (int64_t)K->getInitVal().getExtValue(); KO["l"] = lineOf(K->getLocation()); A.push_back(std::move(KO)); }
    O["k"] = std::move(A);
    Enums[usr(E)] = std::move(O);
    return true;
  }
  bool VisitRecordDecl(RecordDecl *R) {
    if (R->isThisDeclarationADefinition() && inRoots(R->getLocation()) && !R->isDependentContext()) record(R);
    return true;
  }
  // also remember plain declarations (the public header)
  void run() {
    TraverseDecl(C.getTranslationUnitDecl());
    for (size_t i = 0; i < Pending.size(); ++i) {
      auto *F = Pending[i];
      if (F->isDependentContext() || F->isTemplated()) continue;
      if (inRoots(F->getLocation())) declRef(F);
      if (F->doesThisDeclarationHaveABody()) function(F);
    }
  }
};

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    Dumper D(C);
    D.run();
    json::Object O;
    auto &SM = C.getSourceManager();
    auto FE = SM.getFileEntryRefForID(SM.getMainFileID());
    O["main"] = FE ? FE->getName().str() : "";
    O["errors"] = C.getDiagnostics().hasErrorOccurred();
    O["types"] = std::move(D.Types);
    O["decls"] = std::move(D.Decls);
    O["records"] = std::move(D.Recs);
    O["enums"] = std::move(D.Enums);
    O["vars"] = std::move(D.Vars);
    O["funcs"] = std::move(D.Funcs);
    std::error_code EC;
    llvm::raw_fd_ostream OS(Out, EC);
    OS << json::Value(std::move(O));
  }
};

class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); }
};

} // namespace

int main(int argc, const char **argv) {
  auto P = tooling::CommonOptionsParser::create(argc, argv, Cat);
  if (!P) { llvm::errs() << P.takeError(); return 2; }
  tooling::ClangTool T(P->getCompilations(), P->getSourcePathList());
  return T.run(tooling::newFrontendActionFactory<Action>().get());
}
