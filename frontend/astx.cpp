// astx: exports the resolved (type-checked) AST of every function, class and
// global that one translation unit defines inside a given source root, as JSON.
//   astx ROOT OUT.json FILE.cpp -- <clang args>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/AST/OpenMPClause.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;

static std::string Root, OutFile;

class X : public RecursiveASTVisitor<X> {
public:
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  json::Array Funcs, Classes, Globals;
  std::map<const Decl *, int> Ids;
  std::set<const Decl *> Done;
  explicit X(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
    PP.PrintCanonicalTypes = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto F = SM.getFilename(L);
    std::string S = F.str();
    llvm::SmallString<256> P(S);
    return std::string(P.str());
  }
  bool inRoot(SourceLocation L) {
    if (L.isInvalid()) return false;
    std::string F = fileOf(L);
    return F.rfind(Root, 0) == 0;
  }
  unsigned line(SourceLocation L) { return SM.getExpansionLineNumber(L); }

  std::string ty(QualType T) {
    if (T.isNull()) return "";
    T = T.getNonReferenceType().getCanonicalType().getUnqualifiedType();
    return T.getAsString(PP);
  }
  std::string usr(const Decl *D) {
    D = D->getCanonicalDecl();
    llvm::SmallString<256> B;
    if (index::generateUSRForDecl(D, B)) return "?";
    return std::string(B.str());
  }
  int id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto I = Ids.find(D);
    if (I != Ids.end()) return I->second;
    int N = Ids.size() + 1;
    Ids[D] = N;
    return N;
  }
  std::string varId(const VarDecl *V) {
    if (V->hasGlobalStorage() && !V->isStaticLocal()) return "g:" + usr(V) + (V->getFormalLinkage() == Linkage::Internal ? "@" + fileOf(V->getLocation()) : "");
    return "v" + std::to_string(id(V)) + ":" + V->getNameAsString();
  }
  json::Object tyInfo(QualType T) {
    json::Object O;
    O["t"] = ty(T);
    if (T->isLValueReferenceType()) O["ref"] = "l";
    else if (T->isRValueReferenceType()) O["ref"] = "r";
    QualType N = T.getNonReferenceType();
    if (N.isConstQualified()) O["const"] = true;
    if (N->isPointerType()) {
      O["ptr"] = true;
      if (N->getPointeeType().isConstQualified()) O["pconst"] = true;
    }
    return O;
  }
  json::Value varInfo(const VarDecl *V) {
    json::Object O = tyInfo(V->getType());
    O["id"] = varId(V);
    O["name"] = V->getNameAsString();
    O["l"] = line(V->getLocation());
    if (V->isStaticLocal()) O["staticlocal"] = true;
    if (V->getTLSKind() != VarDecl::TLS_None) O["tls"] = true;
    if (V->isConstexpr()) O["constexpr"] = true;
    if (const Expr *I = V->getInit()) O["init"] = expr(I);
    return O;
  }
  // an instantiated class template of the repository is named by its type
  std::string clsName(const RecordDecl *R) {
    if (isa<ClassTemplateSpecializationDecl>(R) && inRoot(R->getLocation())) return ty(C.getRecordType(R));
    return R->getQualifiedNameAsString();
  }
  json::Object fnRef(const FunctionDecl *F) {
    json::Object O;
    O["usr"] = usr(F);
    O["q"] = F->getQualifiedNameAsString();
    O["n"] = F->getNameAsString();
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (isa<ClassTemplateSpecializationDecl>(M->getParent()) && inRoot(M->getLocation())) {
        std::string N = isa<CXXConstructorDecl>(M) ? M->getParent()->getNameAsString()
                      : isa<CXXDestructorDecl>(M) ? "~" + M->getParent()->getNameAsString() : M->getNameAsString();
        O["q"] = clsName(M->getParent()) + "::" + N;
      }
    if (F->isNoReturn()) O["noret"] = true;
    const FunctionDecl *Def = nullptr;
    if (F->hasBody(Def) && inRoot(Def->getLocation())) O["repo"] = true;
    else if (inRoot(F->getLocation())) O["repo"] = true;
    json::Array A;
    for (auto *P : F->parameters()) A.push_back(tyInfo(P->getType()));
    O["ps"] = std::move(A);
    if (F->isVariadic()) O["variadic"] = true;
    O["ret"] = tyInfo(F->getReturnType());
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = clsName(M->getParent());
      if (M->isConst()) O["constm"] = true;
      if (M->isStatic()) O["staticm"] = true;
      if (M->getParent()->isLambda()) O["lambda"] = true;
    }
    if (F->getBuiltinID()) O["builtin"] = (int)F->getBuiltinID();
    return O;
  }
  json::Array exprs(llvm::ArrayRef<const Expr *> A) {
    json::Array R;
    for (auto *E : A) R.push_back(expr(E));
    return R;
  }
  template <class R> json::Array exprRange(R Rg) {
    json::Array A;
    for (auto *E : Rg) A.push_back(expr(cast<Expr>(E)));
    return A;
  }

  json::Value expr(const Expr *E) {
    if (!E) return nullptr;
    // transparent wrappers
    if (auto *P = dyn_cast<ParenExpr>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<FullExpr>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(P->getReplacement());
    if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) return expr(P->getExpr());
    if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) return expr(P->getExpr());
    if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<OpaqueValueExpr>(E)) return expr(P->getSourceExpr());
    json::Object O;
    O["t"] = ty(E->getType());
    O["l"] = line(E->getExprLoc());
    if (auto *P = dyn_cast<IntegerLiteral>(E)) {
      O["k"] = "int";
      llvm::SmallString<32> S;
      P->getValue().toString(S, 10, E->getType()->isSignedIntegerType());
      O["v"] = std::string(S.str());
    } else if (auto *P = dyn_cast<FloatingLiteral>(E)) {
      O["k"] = "float";
      llvm::SmallString<64> S;
      P->getValue().toString(S, 17, 0, false);
      O["v"] = std::string(S.str());
      if (&P->getValue().getSemantics() == &llvm::APFloat::IEEEdouble()) O["d"] = P->getValue().convertToDouble();
    } else if (auto *P = dyn_cast<CXXBoolLiteralExpr>(E)) {
      O["k"] = "bool"; O["v"] = P->getValue();
    } else if (auto *P = dyn_cast<CharacterLiteral>(E)) {
      O["k"] = "char"; O["v"] = (int)P->getValue();
    } else if (auto *P = dyn_cast<StringLiteral>(E)) {
      O["k"] = "str"; O["v"] = P->isOrdinary() ? json::fixUTF8(P->getString()) : std::string("?");
    } else if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) {
      O["k"] = "null";
    } else if (auto *P = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = P->getDecl();
      if (auto *V = dyn_cast<VarDecl>(D)) {
        O["k"] = "ref"; O["id"] = varId(V); O["n"] = V->getNameAsString();
        if (V->hasGlobalStorage()) { O["global"] = true; O["q"] = V->getQualifiedNameAsString(); }
        if (V->getType()->isReferenceType()) O["isref"] = true;
        if (V->getType().getNonReferenceType().isConstQualified()) O["const"] = true;
        if (V->isConstexpr() || (V->getType().isConstQualified() && V->getType()->isIntegralOrEnumerationType() && V->hasInit()))
          if (const Expr *I = V->getAnyInitializer()) if (V->hasGlobalStorage() && !V->isStaticLocal()) O["cinit"] = expr(I);
      } else if (auto *F = dyn_cast<FunctionDecl>(D)) {
        O["k"] = "fref"; O["fn"] = fnRef(F);
      } else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        O["k"] = "int"; O["v"] = std::to_string(EC->getInitVal().getExtValue()); O["enum"] = EC->getNameAsString();
      } else if (auto *B = dyn_cast<BindingDecl>(D)) {
        O["k"] = "binding"; O["n"] = B->getNameAsString();
      } else { O["k"] = "unknown"; O["c"] = "DeclRef"; }
    } else if (auto *P = dyn_cast<MemberExpr>(E)) {
      if (auto *F = dyn_cast<FieldDecl>(P->getMemberDecl())) {
        O["k"] = "member"; O["base"] = expr(P->getBase()); O["f"] = F->getNameAsString();
        O["cls"] = clsName(F->getParent());
        if (P->isArrow()) O["arrow"] = true;
      } else if (auto *V = dyn_cast<VarDecl>(P->getMemberDecl())) {
        O["k"] = "ref"; O["id"] = varId(V); O["n"] = V->getNameAsString(); O["global"] = true;
        O["q"] = V->getQualifiedNameAsString();
        if (const Expr *I = V->getAnyInitializer()) O["cinit"] = expr(I);
      } else if (auto *EC = dyn_cast<EnumConstantDecl>(P->getMemberDecl())) {
        O["k"] = "int"; O["v"] = std::to_string(EC->getInitVal().getExtValue());
      } else { O["k"] = "unknown"; O["c"] = "Member"; }
    } else if (isa<CXXThisExpr>(E)) {
      O["k"] = "this";
    } else if (auto *P = dyn_cast<CXXOperatorCallExpr>(E)) {
      O["k"] = "opcall"; O["op"] = getOperatorSpelling(P->getOperator());
      O["args"] = exprRange(P->arguments());
      if (auto *F = dyn_cast_or_null<FunctionDecl>(P->getCalleeDecl())) { O["fn"] = fnRef(F); if (isa<CXXMethodDecl>(F)) O["ismethod"] = true; }
    } else if (auto *P = dyn_cast<CXXMemberCallExpr>(E)) {
      O["k"] = "mcall";
      O["obj"] = expr(P->getImplicitObjectArgument());
      if (P->getImplicitObjectArgument() && P->getImplicitObjectArgument()->getType()->isPointerType()) O["arrow"] = true;
      if (auto *M = P->getMethodDecl()) O["fn"] = fnRef(M);
      O["args"] = exprRange(P->arguments());
    } else if (auto *P = dyn_cast<CallExpr>(E)) {
      O["k"] = "call";
      if (auto *F = dyn_cast_or_null<FunctionDecl>(P->getCalleeDecl())) O["fn"] = fnRef(F);
      else O["callee"] = expr(P->getCallee());
      O["args"] = exprRange(P->arguments());
    } else if (auto *P = dyn_cast<CXXConstructExpr>(E)) {
      O["k"] = "construct"; O["fn"] = fnRef(P->getConstructor());
      O["args"] = exprRange(P->arguments());
      if (P->isElidable()) O["elidable"] = true;
      if (P->isListInitialization()) O["list"] = true;
      if (P->getConstructor()->isCopyConstructor()) O["copy"] = true;
      if (P->getConstructor()->isMoveConstructor()) O["move"] = true;
      if (P->getConstructor()->isDefaultConstructor()) O["dflt"] = true;
    } else if (auto *P = dyn_cast<InitListExpr>(E)) {
      if (P->isSemanticForm() == false && P->getSemanticForm()) P = P->getSemanticForm();
      O["k"] = "initlist"; O["args"] = exprRange(P->inits());
      if (P->hasArrayFiller()) O["filler"] = expr(P->getArrayFiller());
      if (auto *AT = C.getAsConstantArrayType(P->getType())) O["n"] = (int64_t)AT->getSize().getZExtValue();
    } else if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) {
      O["k"] = "zero";
    } else if (auto *P = dyn_cast<UnaryOperator>(E)) {
      O["k"] = "un"; O["op"] = UnaryOperator::getOpcodeStr(P->getOpcode()).str();
      if (P->isPostfix()) O["post"] = true;
      O["e"] = expr(P->getSubExpr());
    } else if (auto *P = dyn_cast<CompoundAssignOperator>(E)) {
      O["k"] = "cassign"; O["op"] = BinaryOperator::getOpcodeStr(P->getOpcode()).drop_back(1).str();
      O["a"] = expr(P->getLHS()); O["b"] = expr(P->getRHS()); O["ct"] = ty(P->getComputationResultType());
    } else if (auto *P = dyn_cast<BinaryOperator>(E)) {
      O["k"] = P->isAssignmentOp() ? "assign" : "bin";
      O["op"] = P->getOpcodeStr().str();
      O["a"] = expr(P->getLHS()); O["b"] = expr(P->getRHS());
    } else if (auto *P = dyn_cast<ConditionalOperator>(E)) {
      O["k"] = "cond"; O["c"] = expr(P->getCond()); O["a"] = expr(P->getTrueExpr()); O["b"] = expr(P->getFalseExpr());
    } else if (auto *P = dyn_cast<ArraySubscriptExpr>(E)) {
      O["k"] = "sub"; O["a"] = expr(P->getBase()); O["b"] = expr(P->getIdx());
    } else if (auto *P = dyn_cast<CastExpr>(E)) {
      if (auto *FC = dyn_cast<CXXFunctionalCastExpr>(E)) (void)FC;
      O["k"] = "cast"; O["ck"] = P->getCastKindName(); O["e"] = expr(P->getSubExpr());
      O["from"] = ty(P->getSubExpr()->getType());
      if (isa<ExplicitCastExpr>(E)) O["explicit"] = true;
    } else if (auto *P = dyn_cast<CXXNewExpr>(E)) {
      O["k"] = "new"; O["at"] = ty(P->getAllocatedType());
      if (P->isArray()) O["n"] = P->getArraySize() ? expr(*P->getArraySize()) : json::Value(nullptr);
      if (P->hasInitializer()) O["init"] = expr(P->getInitializer());
      else if (P->getConstructExpr()) O["init"] = expr(P->getConstructExpr());
    } else if (auto *P = dyn_cast<CXXDeleteExpr>(E)) {
      O["k"] = "delete"; O["e"] = expr(P->getArgument()); if (P->isArrayForm()) O["array"] = true;
    } else if (auto *P = dyn_cast<LambdaExpr>(E)) {
      O["k"] = "lambda";
      json::Array Ps;
      for (auto *V : P->getCallOperator()->parameters()) Ps.push_back(varInfo(V));
      O["params"] = std::move(Ps);
      json::Array Cs;
      for (auto &Cp : P->captures()) {
        json::Object CO;
        if (Cp.capturesThis()) CO["this"] = true;
        else if (Cp.capturesVariable()) {
          if (auto *V = dyn_cast<VarDecl>(Cp.getCapturedVar())) {
            CO["id"] = varId(V); CO["byref"] = Cp.getCaptureKind() == LCK_ByRef;
            if (V->isInitCapture() && V->getInit()) CO["init"] = expr(V->getInit());
          }
        }
        Cs.push_back(std::move(CO));
      }
      O["captures"] = std::move(Cs);
      O["ret"] = tyInfo(P->getCallOperator()->getReturnType());
      O["body"] = stmt(P->getBody());
    } else if (auto *P = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      Expr::EvalResult R;
      if (P->getKind() == UETT_SizeOf && !P->isValueDependent() && P->EvaluateAsInt(R, C)) {
        O["k"] = "int"; O["v"] = std::to_string(R.Val.getInt().getExtValue());
        O["sizeof"] = ty(P->getTypeOfArgument());
      } else { O["k"] = "unknown"; O["c"] = "sizeof"; }
    } else if (auto *P = dyn_cast<CXXThrowExpr>(E)) {
      O["k"] = "throw"; O["e"] = expr(P->getSubExpr());
    } else {
      O["k"] = "unknown"; O["c"] = E->getStmtClassName();
      json::Array Ch;
      for (auto *S : E->children()) if (auto *SE = dyn_cast_or_null<Expr>(S)) Ch.push_back(expr(SE));
      O["ch"] = std::move(Ch);
    }
    return O;
  }

  json::Array clauses(const OMPExecutableDirective *D) {
    json::Array A;
    for (auto *Cl : D->clauses()) {
      json::Object O;
      O["c"] = llvm::omp::getOpenMPClauseName(Cl->getClauseKind()).str();
      if (Cl->isImplicit()) continue;
      json::Array Vs;
      auto add = [&](auto *L) { for (auto *E : L->varlists()) Vs.push_back(expr(E)); };
      if (auto *P = dyn_cast<OMPReductionClause>(Cl)) { add(P); O["op"] = P->getNameInfo().getAsString(); }
      else if (auto *P = dyn_cast<OMPPrivateClause>(Cl)) add(P);
      else if (auto *P = dyn_cast<OMPFirstprivateClause>(Cl)) add(P);
      else if (auto *P = dyn_cast<OMPLastprivateClause>(Cl)) add(P);
      else if (auto *P = dyn_cast<OMPSharedClause>(Cl)) add(P);
      else if (auto *P = dyn_cast<OMPLinearClause>(Cl)) add(P);
      else if (auto *P = dyn_cast<OMPCollapseClause>(Cl)) O["n"] = expr(P->getNumForLoops());
      O["vars"] = std::move(Vs);
      A.push_back(std::move(O));
    }
    return A;
  }

  json::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) { json::Object O; O["k"] = "expr"; O["e"] = expr(E); O["l"] = line(E->getBeginLoc()); return O; }
    json::Object O;
    O["l"] = line(S->getBeginLoc());
    if (auto *P = dyn_cast<CompoundStmt>(S)) {
      O["k"] = "block"; json::Array A;
      for (auto *T : P->body()) A.push_back(stmt(T));
      O["s"] = std::move(A);
    } else if (auto *P = dyn_cast<DeclStmt>(S)) {
      O["k"] = "decl"; json::Array A;
      for (auto *D : P->decls()) {
        if (auto *V = dyn_cast<VarDecl>(D)) {
          A.push_back(varInfo(V));
          if (isa<DecompositionDecl>(V)) O["decomp"] = true;
        }
      }
      O["d"] = std::move(A);
    } else if (auto *P = dyn_cast<IfStmt>(S)) {
      O["k"] = "if"; if (P->getInit()) O["init"] = stmt(P->getInit());
      if (P->getConditionVariableDeclStmt()) O["cv"] = stmt(P->getConditionVariableDeclStmt());
      O["c"] = expr(P->getCond()); O["a"] = stmt(P->getThen()); O["b"] = stmt(P->getElse());
    } else if (auto *P = dyn_cast<ForStmt>(S)) {
      O["k"] = "for"; O["init"] = stmt(P->getInit()); O["c"] = expr(P->getCond());
      O["inc"] = expr(P->getInc()); O["body"] = stmt(P->getBody());
    } else if (auto *P = dyn_cast<WhileStmt>(S)) {
      O["k"] = "while"; if (P->getConditionVariableDeclStmt()) O["cv"] = stmt(P->getConditionVariableDeclStmt());
      O["c"] = expr(P->getCond()); O["body"] = stmt(P->getBody());
    } else if (auto *P = dyn_cast<DoStmt>(S)) {
      O["k"] = "do"; O["c"] = expr(P->getCond()); O["body"] = stmt(P->getBody());
    } else if (auto *P = dyn_cast<CXXForRangeStmt>(S)) {
      O["k"] = "rangefor"; O["range"] = expr(P->getRangeInit());
      O["var"] = varInfo(P->getLoopVariable()); O["body"] = stmt(P->getBody());
    } else if (auto *P = dyn_cast<ReturnStmt>(S)) {
      O["k"] = "return"; O["e"] = expr(P->getRetValue());
    } else if (isa<BreakStmt>(S)) O["k"] = "break";
    else if (isa<ContinueStmt>(S)) O["k"] = "continue";
    else if (isa<NullStmt>(S)) O["k"] = "null";
    else if (auto *P = dyn_cast<SwitchStmt>(S)) {
      O["k"] = "switch"; if (P->getInit()) O["init"] = stmt(P->getInit());
      O["c"] = expr(P->getCond()); O["body"] = stmt(P->getBody());
    } else if (auto *P = dyn_cast<CaseStmt>(S)) {
      O["k"] = "case"; O["v"] = expr(P->getLHS()); O["s"] = stmt(P->getSubStmt());
    } else if (auto *P = dyn_cast<DefaultStmt>(S)) {
      O["k"] = "default"; O["s"] = stmt(P->getSubStmt());
    } else if (auto *P = dyn_cast<AttributedStmt>(S)) {
      return stmt(P->getSubStmt());
    } else if (auto *P = dyn_cast<CXXTryStmt>(S)) {
      O["k"] = "try"; O["body"] = stmt(P->getTryBlock());
      json::Array H;
      for (unsigned i = 0; i < P->getNumHandlers(); i++) H.push_back(stmt(P->getHandler(i)->getHandlerBlock()));
      O["handlers"] = std::move(H);
    } else if (auto *P = dyn_cast<OMPExecutableDirective>(S)) {
      if (auto *Cr = dyn_cast<OMPCriticalDirective>(P)) { std::string nm = Cr->getDirectiveName().getName().getAsString(); if (!nm.empty()) O["name"] = nm; }
      O["k"] = "omp"; O["dir"] = llvm::omp::getOpenMPDirectiveName(P->getDirectiveKind()).str();
      O["clauses"] = clauses(P);
      const Stmt *B = nullptr;
      if (P->hasAssociatedStmt()) B = P->getRawStmt();
      O["body"] = stmt(B);
    } else if (auto *P = dyn_cast<OMPCanonicalLoop>(S)) {
      return stmt(P->getLoopStmt());
    } else if (auto *P = dyn_cast<CapturedStmt>(S)) {
      return stmt(P->getCapturedStmt());
    } else { O["k"] = "unknown"; O["c"] = S->getStmtClassName(); }
    return O;
  }

  void emitFunction(const FunctionDecl *F) {
    if (F->isDependentContext()) return;
    if (!inRoot(F->getLocation())) return;
    bool special = F->isDeleted() || F->isDefaulted();
    if (!F->isThisDeclarationADefinition() && !special) return;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return;
    if (!Done.insert(F).second) return;
    json::Object O = fnRef(F);
    O["file"] = fileOf(F->getLocation());
    O["l"] = line(F->getLocation());
    if (F->isDeleted()) O["deleted"] = true;
    if (F->isDefaulted()) O["defaulted"] = true;
    json::Array Ps;
    for (auto *V : F->parameters()) {
      json::Object P = tyInfo(V->getType());
      P["id"] = varId(V); P["name"] = V->getNameAsString();
      Ps.push_back(std::move(P));
    }
    O["params"] = std::move(Ps);
    if (F->isInlined()) O["inline"] = true;
    if (F->getFormalLinkage() == Linkage::Internal) O["internal"] = true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["method"] = true;
      O["access"] = (int)M->getAccess();
      if (M->isVirtual()) O["virtual"] = true;
    }
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
      O["ctor"] = true;
      json::Array A;
      for (auto *I : K->inits()) {
        json::Object IO;
        if (I->isAnyMemberInitializer()) IO["f"] = I->getAnyMember()->getNameAsString();
        else if (I->isDelegatingInitializer()) IO["deleg"] = true;
        else IO["baseinit"] = true;
        IO["e"] = expr(I->getInit());
        IO["l"] = line(I->getSourceLocation());
        A.push_back(std::move(IO));
      }
      O["inits"] = std::move(A);
    }
    if (isa<CXXDestructorDecl>(F)) O["dtor"] = true;
    if (F->isThisDeclarationADefinition() && F->getBody()) O["body"] = stmt(F->getBody());
    Funcs.push_back(std::move(O));
  }
  bool VisitFunctionDecl(FunctionDecl *F) { emitFunction(F); return true; }

  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return true;
    if (!inRoot(R->getLocation()) || !Done.insert(R).second) return true;
    json::Object O;
    O["q"] = clsName(R);
    O["file"] = fileOf(R->getLocation()); O["l"] = line(R->getLocation());
    json::Array Fs;
    for (auto *F : R->fields()) {
      json::Object FO = tyInfo(F->getType());
      FO["f"] = F->getNameAsString(); FO["l"] = line(F->getLocation());
      if (F->isMutable()) FO["mutable"] = true;
      if (F->hasInClassInitializer() && F->getInClassInitializer()) FO["init"] = expr(F->getInClassInitializer());
      Fs.push_back(std::move(FO));
    }
    O["fields"] = std::move(Fs);
    json::Array Bs;
    for (auto &B : R->bases()) Bs.push_back(ty(B.getType()));
    O["bases"] = std::move(Bs);
    auto state = [&](const CXXMethodDecl *M) { return M->isDeleted() ? "deleted" : M->isUserProvided() ? "user" : "default"; };
    std::string cc = "implicit", ca = "implicit", mc = "implicit", ma = "implicit";
    for (auto *K : R->ctors()) {
      if (K->isCopyConstructor()) cc = state(K);
      if (K->isMoveConstructor()) mc = state(K);
    }
    for (auto *M : R->methods()) {
      if (M->isCopyAssignmentOperator()) ca = state(M);
      if (M->isMoveAssignmentOperator()) ma = state(M);
    }
    if (cc == "implicit" && (R->hasUserDeclaredMoveConstructor() || R->hasUserDeclaredMoveAssignment())) cc = "deleted";
    O["copyctor"] = cc; O["copyassign"] = ca; O["movector"] = mc; O["moveassign"] = ma;
    O["userdtor"] = R->hasUserDeclaredDestructor();
    O["access_copy"] = "";
    for (auto *K : R->ctors()) if (K->isCopyConstructor()) O["access_copy"] = (int)K->getAccess();
    Classes.push_back(std::move(O));
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (!V->hasGlobalStorage() || isa<ParmVarDecl>(V)) return true;
    if (!inRoot(V->getLocation())) return true;
    if (V->getDeclContext()->isDependentContext()) return true;
    if (!V->isThisDeclarationADefinition()) return true;
    if (!Done.insert(V).second) return true;
    json::Object O = *varInfo(V).getAsObject();
    O["q"] = V->getQualifiedNameAsString();
    O["file"] = fileOf(V->getLocation());
    Globals.push_back(std::move(O));
    return true;
  }
};

class Cons : public ASTConsumer {
  CompilerInstance &CI;
public:
  explicit Cons(CompilerInstance &CI) : CI(CI) {}
  void HandleTranslationUnit(ASTContext &Ctx) override {
    if (CI.getDiagnostics().hasErrorOccurred()) return;
    X V(Ctx);
    V.TraverseDecl(Ctx.getTranslationUnitDecl());
    json::Object O;
    O["functions"] = std::move(V.Funcs);
    O["classes"] = std::move(V.Classes);
    O["globals"] = std::move(V.Globals);
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutFile, EC);
    OS << json::Value(std::move(O)) << "\n";
  }
};
class Act : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, llvm::StringRef) override {
    return std::make_unique<Cons>(CI);
  }
};

int main(int argc, const char **argv) {
  if (argc < 5) { llvm::errs() << "usage: astx ROOT OUT FILE -- args\n"; return 2; }
  Root = argv[1]; OutFile = argv[2];
  std::string File = argv[3];
  std::vector<std::string> Args;
  for (int i = 5; i < argc; i++) Args.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB("/", Args);
  tooling::ClangTool T(DB, {File});
  return T.run(tooling::newFrontendActionFactory<Act>().get());
}
