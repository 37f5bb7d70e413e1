// Lowers the type-checked clang AST of one translation unit to JSON: every
// function definition (template instantiations and lambda bodies included)
// located under the given root directories, plus tables of declarations and types.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace clang;
namespace json = llvm::json;
static std::vector<std::string> Roots;
static std::string OutPath;

class Dumper {
public:
  ASTContext &C;
  SourceManager &SM;
  std::unique_ptr<MangleContext> MC;
  json::Object Types, Decls, Funcs;
  std::map<const void *, std::string> TypeIds;
  std::map<const Decl *, std::string> DeclIds;
  std::set<std::string> DoneDecl, DoneFunc, NameUsed;
  std::vector<const FunctionDecl *> Queue;
  std::set<const FunctionDecl *> Queued;
  int NextLocal = 0, NextType = 0;

  Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()), MC(C.createMangleContext()) {}

  std::string fileOf(SourceLocation L) {
    auto P = SM.getPresumedLoc(SM.getExpansionLoc(L));
    return P.isValid() ? std::string(P.getFilename()) : std::string();
  }
  std::string loc(SourceLocation L) {
    auto P = SM.getPresumedLoc(SM.getExpansionLoc(L));
    if (!P.isValid()) return "";
    return std::string(P.getFilename()) + ":" + std::to_string(P.getLine());
  }
  unsigned line(SourceLocation L) {
    auto P = SM.getPresumedLoc(SM.getExpansionLoc(L));
    return P.isValid() ? P.getLine() : 0;
  }
  bool inRoot(SourceLocation L) {
    std::string F = fileOf(L);
    for (auto &R : Roots) if (F.compare(0, R.size(), R) == 0) return true;
    return false;
  }
  static std::string pstr(QualType T, ASTContext &C) {
    PrintingPolicy PP(C.getPrintingPolicy());
    PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true;
    return T.getAsString(PP);
  }
  std::string type(QualType T) {
    if (T.isNull()) return "";
    T = T.getCanonicalType();
    const void *P = T.getAsOpaquePtr();
    auto It = TypeIds.find(P);
    if (It != TypeIds.end()) return It->second;
    std::string Id = "t" + std::to_string(NextType++);
    TypeIds[P] = Id;
    json::Object O;
    O["s"] = pstr(T, C);
    if (T.isConstQualified()) O["const"] = true;
    QualType U = T.getUnqualifiedType();
    if (U->isDependentType()) O["k"] = "dep";
    else if (U->isBooleanType()) O["k"] = "bool";
    else if (U->isEnumeralType()) O["k"] = "enum";
    else if (U->isIntegerType()) {
      O["k"] = U->isUnsignedIntegerType() ? "uint" : "int";
      O["bits"] = (int64_t)C.getTypeSize(U);
      if (U->isAnyCharacterType()) O["char"] = true;
    } else if (U->isFloatingType()) { O["k"] = "float"; O["bits"] = (int64_t)C.getTypeSize(U); }
    else if (U->isPointerType()) { O["k"] = "ptr"; O["e"] = type(U->getPointeeType()); }
    else if (U->isReferenceType()) {
      O["k"] = "ref"; O["e"] = type(U->getPointeeType());
      if (U->isRValueReferenceType()) O["rv"] = true;
    } else if (auto *A = C.getAsArrayType(U)) {
      O["k"] = "arr"; O["e"] = type(A->getElementType());
      if (auto *CA = dyn_cast<ConstantArrayType>(A)) O["n"] = (int64_t)CA->getSize().getZExtValue();
    } else if (auto *RD = U->getAsCXXRecordDecl()) {
      O["k"] = "rec"; O["d"] = decl(RD);
    } else if (U->isFunctionType()) O["k"] = "func";
    else if (U->isVoidType()) O["k"] = "void";
    else if (U->isMemberPointerType()) O["k"] = "memptr";
    else O["k"] = "other";
    Types[Id] = std::move(O);
    return Id;
  }
  std::string mangled(const FunctionDecl *F) {
    std::string S; llvm::raw_string_ostream OS(S);
    if (F->isMain()) { S = "main@" + fileOf(F->getLocation()); return S; }
    if (F->isDependentContext()) { return "dep:" + F->getQualifiedNameAsString() + "@" + loc(F->getLocation()); }
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) MC->mangleName(GlobalDecl(CD, Ctor_Complete), OS);
    else if (auto *DD = dyn_cast<CXXDestructorDecl>(F)) MC->mangleName(GlobalDecl(DD, Dtor_Complete), OS);
    else if (MC->shouldMangleDeclName(F)) MC->mangleName(GlobalDecl(F), OS);
    else OS << F->getQualifiedNameAsString();
    OS.flush();
    if (!F->isExternallyVisible() ) S += "@" + fileOf(SM.getMainFileID().isValid() ? SM.getLocForStartOfFile(SM.getMainFileID()) : F->getLocation());
    return S;
  }
  std::string decl(const Decl *D0) {
    if (!D0) return "";
    const Decl *D = D0->getCanonicalDecl();
    auto It = DeclIds.find(D);
    if (It != DeclIds.end()) return It->second;
    std::string Id;
    const auto *ND = dyn_cast<NamedDecl>(D);
    if (auto *F = dyn_cast<FunctionDecl>(D)) {
      Id = "f:" + mangled(F);
    } else if (auto *RD = dyn_cast<CXXRecordDecl>(D)) {
      Id = "r:" + pstr(C.getRecordType(RD), C);
    } else if (auto *FD = dyn_cast<FieldDecl>(D)) {
      Id = "m:" + (isa<CXXRecordDecl>(FD->getParent()) ? pstr(C.getRecordType(FD->getParent()), C) : std::string("?")) + "::" + FD->getNameAsString();
    } else if (auto *VD = dyn_cast<VarDecl>(D)) {
      if (VD->hasGlobalStorage() && !VD->isStaticLocal()) {
        Id = "g:";
        if (auto *RD = dyn_cast<CXXRecordDecl>(VD->getDeclContext())) Id += pstr(C.getRecordType(RD), C) + "::" + VD->getNameAsString();
        else Id += VD->getQualifiedNameAsString();
      } else Id = "v:" + std::to_string(NextLocal++);
    } else if (auto *E = dyn_cast<EnumConstantDecl>(D)) Id = "e:" + E->getQualifiedNameAsString();
    else Id = "x:" + std::to_string(NextLocal++);
    DeclIds[D] = Id;
    if (DoneDecl.count(Id)) return Id;
    DoneDecl.insert(Id);
    json::Object O;
    if (ND) { O["n"] = ND->getNameAsString(); O["qn"] = ND->getQualifiedNameAsString(); }
    O["loc"] = loc(D->getLocation());
    if (inRoot(D->getLocation())) O["proj"] = true;
    if (auto *F = dyn_cast<FunctionDecl>(D)) {
      O["k"] = "func"; O["ret"] = type(F->getReturnType());
      json::Array PT; for (auto *P : F->parameters()) PT.push_back(type(P->getType()));
      O["pt"] = std::move(PT);
      if (F->isVariadic()) O["variadic"] = true;
      if (F->isNoReturn()) O["noreturn"] = true;
      if (F->getExceptionSpecType() == EST_BasicNoexcept || F->getExceptionSpecType() == EST_NoexceptTrue || F->getExceptionSpecType() == EST_DynamicNone || F->getExceptionSpecType() == EST_NoThrow) O["noexcept"] = true;
      if (F->isDeleted()) O["deleted"] = true;
      if (F->isDefaulted()) O["defaulted"] = true;
      if (F->isOverloadedOperator()) O["op"] = getOperatorSpelling(F->getOverloadedOperator());
      if (isa<CXXConstructorDecl>(F)) O["fk"] = "ctor";
      else if (isa<CXXDestructorDecl>(F)) O["fk"] = "dtor";
      else if (isa<CXXConversionDecl>(F)) O["fk"] = "conv";
      if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
        O["rec"] = decl(M->getParent());
        if (M->isStatic()) O["static"] = true;
        if (M->isConst()) O["constm"] = true;
        if (M->getAccess() == AS_private || M->getAccess() == AS_protected) O["priv"] = true;
        if (M->isVirtual()) O["virtual"] = true;
        if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) { if (CD->isCopyOrMoveConstructor()) O["copy"] = true; if (CD->isDefaultConstructor()) O["defc"] = true; }
        if (M->isCopyAssignmentOperator() || M->isMoveAssignmentOperator()) O["copyassign"] = true;
        if (M->getParent()->isLambda()) O["lambda"] = true;
      }
      if (auto *TA = F->getTemplateSpecializationArgs()) {
        json::Array A; for (auto &X : TA->asArray()) A.push_back(targ(X)); O["targs"] = std::move(A);
      }
      if (F->isExternC()) O["externc"] = true;
      enqueue(F);
    } else if (auto *RD = dyn_cast<CXXRecordDecl>(D)) {
      O["k"] = "record";
      if (RD->isLambda()) O["lambda"] = true;
      if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(RD)) {
        O["tmpl"] = S->getSpecializedTemplate()->getQualifiedNameAsString();
        json::Array A; for (auto &X : S->getTemplateArgs().asArray()) A.push_back(targ(X)); O["targs"] = std::move(A);
      }
      if (auto *Def = RD->getDefinition()) {
        if (inRoot(Def->getLocation()) || RD->isLambda()) {
          O["proj"] = true; O["loc"] = loc(Def->getLocation());
          json::Array Fs; for (auto *F : Def->fields()) Fs.push_back(decl(F)); O["fields"] = std::move(Fs);
          json::Array Bs; for (auto &B : Def->bases()) Bs.push_back(type(B.getType())); O["bases"] = std::move(Bs);
          json::Array Ms; for (auto *M : Def->methods()) Ms.push_back(decl(M)); O["methods"] = std::move(Ms);
        } else {
          json::Array Bs; if (!Def->isDependentType()) for (auto &B : Def->bases()) if (auto *BR = B.getType()->getAsCXXRecordDecl()) Bs.push_back(BR->getQualifiedNameAsString());
          O["stdbases"] = std::move(Bs);
        }
      }
    } else if (auto *FD = dyn_cast<FieldDecl>(D)) {
      O["k"] = "field"; O["t"] = type(FD->getType());
      if (FD->isMutable()) O["mutable"] = true;
      if (auto *RD = dyn_cast<CXXRecordDecl>(FD->getParent())) O["rec"] = decl(RD);
      if (FD->hasInClassInitializer() && FD->getInClassInitializer() && inRoot(FD->getLocation())) O["init"] = expr(FD->getInClassInitializer());
    } else if (auto *VD = dyn_cast<VarDecl>(D)) {
      O["k"] = isa<ParmVarDecl>(VD) ? "param" : (VD->hasGlobalStorage() ? (VD->isStaticLocal() ? "staticlocal" : "global") : "local");
      O["t"] = type(VD->getType());
      if (VD->getTLSKind() != VarDecl::TLS_None) O["tls"] = true;
      if (VD->getType().isVolatileQualified()) O["volatile"] = true;
      if (VD->isConstexpr() && VD->getType()->isIntegralOrEnumerationType() && !VD->getType()->isDependentType()) {
        const VarDecl *DV = nullptr; const Expr *E = VD->getAnyInitializer(DV);
        if (E && !E->isValueDependent()) { Expr::EvalResult R; if (E->EvaluateAsInt(R, C)) O["cv"] = llvm::toString(R.Val.getInt(), 10); }
      }
      if (VD->hasGlobalStorage() && !VD->getType()->isDependentType() && inRoot(VD->getLocation())) {
        const VarDecl *DV = nullptr; const Expr *E = VD->getAnyInitializer(DV);
        if (!E || E->isValueDependent()) if (auto *P = VD->getTemplateInstantiationPattern()) { const Expr *E2 = P->getAnyInitializer(DV); if (E2 && !E2->isValueDependent()) E = E2; }
        if (E && !E->isValueDependent()) O["init"] = expr(E);
      }
    } else if (auto *E = dyn_cast<EnumConstantDecl>(D)) {
      O["k"] = "enumc"; O["v"] = llvm::toString(E->getInitVal(), 10);
    } else O["k"] = D->getDeclKindName();
    Decls[Id] = std::move(O);
    return Id;
  }
  std::string targ(const TemplateArgument &A) {
    std::string S; llvm::raw_string_ostream OS(S);
    PrintingPolicy PP(C.getPrintingPolicy()); PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.PrintCanonicalTypes = true;
    A.print(PP, OS, false); OS.flush(); return S;
  }
  void enqueue(const FunctionDecl *F) {
    const FunctionDecl *Def = nullptr;
    if (!F->isDefined(Def)) {
      // an instantiation that was never needed has no body: nothing to analyse
      if (auto *P = F->getTemplateInstantiationPattern()) { (void)P; }
      return;
    }
    if (!Def || Def->isDependentContext()) return;
    if (!inRoot(Def->getLocation())) return;
    if (Queued.insert(Def).second) Queue.push_back(Def);
  }
  json::Value kids(const Stmt *S) {
    json::Array A; for (auto *K : S->children()) A.push_back(stmt(K)); return A;
  }
  std::string spelling(const Expr *E) {
    return std::string(Lexer::getSourceText(CharSourceRange::getTokenRange(SM.getSpellingLoc(E->getBeginLoc()), SM.getSpellingLoc(E->getEndLoc())), SM, C.getLangOpts()));
  }
  json::Value expr(const Expr *E) { return stmt(E); }
  json::Value vardecl(const VarDecl *V) {
    json::Object O; O["k"] = "var"; O["d"] = decl(V); O["l"] = line(V->getLocation());
    if (V->isStaticLocal()) O["static"] = true;
    if (V->getInit()) O["i"] = expr(V->getInit());
    return O;
  }
  json::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    json::Object O;
    unsigned L = line(S->getBeginLoc());
    if (auto *E = dyn_cast<Expr>(S)) {
      if (auto *X = dyn_cast<ParenExpr>(E)) return stmt(X->getSubExpr());
      if (auto *X = dyn_cast<FullExpr>(E)) { return stmt(X->getSubExpr()); }
      if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) return stmt(X->getSubExpr());
      if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) return stmt(X->getSubExpr());
      if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) return stmt(X->getExpr());
      if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) return stmt(X->getExpr());
      if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return stmt(X->getReplacement());
      if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) return stmt(X->getSubExpr());
      if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E)) return stmt(X->getSemanticForm());
      if (auto *X = dyn_cast<CastExpr>(E)) {
        switch (X->getCastKind()) {
        case CK_NoOp: case CK_LValueToRValue: case CK_FunctionToPointerDecay: case CK_BuiltinFnToFnPtr:
        case CK_ConstructorConversion: case CK_UserDefinedConversion:
          return stmt(X->getSubExpr());
        default: break;
        }
        O["k"] = "cast"; O["ck"] = X->getCastKindName(); O["e"] = stmt(X->getSubExpr());
      } else if (auto *X = dyn_cast<IntegerLiteral>(E)) { O["k"] = "int"; O["v"] = llvm::toString(X->getValue(), 10, X->getType()->isSignedIntegerType()); }
      else if (auto *X = dyn_cast<CharacterLiteral>(E)) { O["k"] = "int"; O["v"] = std::to_string(X->getValue()); O["chr"] = true; }
      else if (auto *X = dyn_cast<FloatingLiteral>(E)) { O["k"] = "flt"; O["v"] = spelling(E); llvm::SmallString<32> Sx; X->getValue().toString(Sx); O["x"] = std::string(Sx); }
      else if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) { O["k"] = "bool"; O["v"] = X->getValue(); }
      else if (auto *X = dyn_cast<StringLiteral>(E)) { O["k"] = "str"; O["v"] = X->isOrdinary() ? json::fixUTF8(X->getString()) : std::string("?"); }
      else if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { O["k"] = "null"; }
      else if (auto *X = dyn_cast<DeclRefExpr>(E)) { O["k"] = "ref"; O["d"] = decl(X->getDecl()); if (X->refersToEnclosingVariableOrCapture()) O["cap"] = true; }
      else if (auto *X = dyn_cast<MemberExpr>(E)) { O["k"] = "mem"; O["b"] = stmt(X->getBase()); O["d"] = decl(X->getMemberDecl()); if (X->isArrow()) O["arrow"] = true; }
      else if (isa<CXXThisExpr>(E)) O["k"] = "this";
      else if (auto *X = dyn_cast<CallExpr>(E)) {
        O["k"] = "call";
        const FunctionDecl *F = X->getDirectCallee();
        unsigned First = 0;
        if (F) O["f"] = decl(F);
        if (auto *M = dyn_cast<CXXMemberCallExpr>(X)) {
          if (auto *ME = dyn_cast<MemberExpr>(M->getCallee()->IgnoreParens())) {
            O["o"] = stmt(ME->getBase()); if (ME->isArrow()) O["arrow"] = true;
            if (ME->hasQualifier()) O["qualified"] = true;
          } else O["fe"] = stmt(M->getCallee());
        } else if (auto *OC = dyn_cast<CXXOperatorCallExpr>(X)) {
          O["op"] = getOperatorSpelling(OC->getOperator());
          if (F && isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) { O["o"] = stmt(OC->getArg(0)); First = 1; }
        } else if (!F) O["fe"] = stmt(X->getCallee());
        json::Array A; for (unsigned I = First; I < X->getNumArgs(); ++I) A.push_back(stmt(X->getArg(I)));
        O["a"] = std::move(A);
        if (!F && !O.get("fe")) O["fe"] = stmt(X->getCallee());
      } else if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
        O["k"] = "ctor"; O["f"] = decl(X->getConstructor());
        json::Array A; for (auto *Ar : X->arguments()) A.push_back(stmt(Ar)); O["a"] = std::move(A);
        if (X->isElidable()) O["elid"] = true;
        if (X->isListInitialization()) O["list"] = true;
        if (X->requiresZeroInitialization()) O["zeroinit"] = true;
      } else if (auto *X = dyn_cast<UnaryOperator>(E)) { O["k"] = "un"; O["op"] = std::string(UnaryOperator::getOpcodeStr(X->getOpcode())); if (X->isPostfix()) O["post"] = true; O["e"] = stmt(X->getSubExpr()); }
      else if (auto *X = dyn_cast<BinaryOperator>(E)) { O["k"] = X->isAssignmentOp() ? "asg" : "bin"; O["op"] = std::string(X->getOpcodeStr()); O["x"] = stmt(X->getLHS()); O["y"] = stmt(X->getRHS());
        if (auto *CA = dyn_cast<CompoundAssignOperator>(X)) O["ct"] = type(CA->getComputationResultType()); }
      else if (auto *X = dyn_cast<ConditionalOperator>(E)) { O["k"] = "cond"; O["c"] = stmt(X->getCond()); O["x"] = stmt(X->getTrueExpr()); O["y"] = stmt(X->getFalseExpr()); }
      else if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) { O["k"] = "sub"; O["b"] = stmt(X->getBase()); O["i"] = stmt(X->getIdx()); }
      else if (auto *X = dyn_cast<CXXNewExpr>(E)) { O["k"] = "new"; O["at"] = type(X->getAllocatedType()); if (X->isArray()) { O["array"] = true; if (auto Sz = X->getArraySize()) O["n"] = stmt(*Sz); } if (X->getInitializer()) O["i"] = stmt(X->getInitializer()); if (X->getNumPlacementArgs()) O["placement"] = true; }
      else if (auto *X = dyn_cast<CXXDeleteExpr>(E)) { O["k"] = "del"; if (X->isArrayForm()) O["array"] = true; O["e"] = stmt(X->getArgument()); }
      else if (auto *X = dyn_cast<LambdaExpr>(E)) {
        O["k"] = "lam"; O["f"] = decl(X->getCallOperator());
        json::Array A;
        auto CI = X->capture_init_begin();
        for (auto &Cp : X->captures()) {
          json::Object K;
          if (Cp.capturesThis()) K["this"] = true;
          else if (Cp.capturesVariable()) { K["d"] = decl(Cp.getCapturedVar()); K["byref"] = Cp.getCaptureKind() == LCK_ByRef; if (Cp.isImplicit()) K["implicit"] = true; if (auto *VV = dyn_cast<VarDecl>(Cp.getCapturedVar())) if (VV->isInitCapture() && VV->getInit()) K["init"] = stmt(VV->getInit()); }
          ++CI; A.push_back(std::move(K));
        }
        O["caps"] = std::move(A);
      } else if (auto *X = dyn_cast<InitListExpr>(E)) {
        if (X->isSemanticForm() == false && X->getSemanticForm()) X = X->getSemanticForm();
        O["k"] = "ilist"; json::Array A; for (auto *I : X->inits()) A.push_back(stmt(I)); O["a"] = std::move(A);
        if (X->getArrayFiller()) O["fill"] = stmt(X->getArrayFiller());
      } else if (auto *X = dyn_cast<CXXThrowExpr>(E)) { O["k"] = "throw"; if (X->getSubExpr()) { O["e"] = stmt(X->getSubExpr()); O["tt"] = type(X->getSubExpr()->getType()); } }
      else if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) O["k"] = "zero";
      else if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) { Expr::EvalResult R; if (!X->isValueDependent() && X->EvaluateAsInt(R, C)) { O["k"] = "int"; O["v"] = llvm::toString(R.Val.getInt(), 10); O["sizeof"] = true; } else { O["k"] = "other"; O["cls"] = "sizeof"; } }
      else if (auto *X = dyn_cast<CXXPseudoDestructorExpr>(E)) { O["k"] = "other"; O["cls"] = "pseudodtor"; O["c"] = kids(X); }
      else { O["k"] = "other"; O["cls"] = S->getStmtClassName(); O["c"] = kids(S); }
      O["t"] = type(E->getType());
      if (E->isLValue()) O["lv"] = true;
      O["l"] = L;
      return O;
    }
    O["l"] = L;
    if (auto *X = dyn_cast<CompoundStmt>(S)) { O["k"] = "block"; json::Array A; for (auto *K : X->body()) A.push_back(stmt(K)); O["s"] = std::move(A); }
    else if (auto *X = dyn_cast<DeclStmt>(S)) { O["k"] = "decl"; json::Array A; for (auto *D : X->decls()) if (auto *V = dyn_cast<VarDecl>(D)) A.push_back(vardecl(V)); O["v"] = std::move(A); }
    else if (auto *X = dyn_cast<IfStmt>(S)) { O["k"] = "if"; if (X->getInit()) O["init"] = stmt(X->getInit()); if (X->getConditionVariable()) O["cv"] = vardecl(X->getConditionVariable()); O["c"] = stmt(X->getCond()); O["x"] = stmt(X->getThen()); O["y"] = stmt(X->getElse()); }
    else if (auto *X = dyn_cast<ForStmt>(S)) { O["k"] = "for"; O["init"] = stmt(X->getInit()); if (X->getConditionVariable()) O["cv"] = vardecl(X->getConditionVariable()); O["c"] = stmt(X->getCond()); O["inc"] = stmt(X->getInc()); O["b"] = stmt(X->getBody()); }
    else if (auto *X = dyn_cast<WhileStmt>(S)) { O["k"] = "while"; if (X->getConditionVariable()) O["cv"] = vardecl(X->getConditionVariable()); O["c"] = stmt(X->getCond()); O["b"] = stmt(X->getBody()); }
    else if (auto *X = dyn_cast<DoStmt>(S)) { O["k"] = "do"; O["c"] = stmt(X->getCond()); O["b"] = stmt(X->getBody()); }
    else if (auto *X = dyn_cast<CXXForRangeStmt>(S)) { O["k"] = "rfor"; O["range"] = stmt(X->getRangeInit()); O["v"] = vardecl(X->getLoopVariable()); O["rt"] = type(X->getRangeInit()->getType()); O["b"] = stmt(X->getBody()); }
    else if (auto *X = dyn_cast<ReturnStmt>(S)) { O["k"] = "ret"; O["e"] = stmt(X->getRetValue()); }
    else if (isa<BreakStmt>(S)) O["k"] = "break";
    else if (isa<ContinueStmt>(S)) O["k"] = "continue";
    else if (isa<NullStmt>(S)) O["k"] = "block";
    else if (auto *X = dyn_cast<SwitchStmt>(S)) { O["k"] = "switch"; if (X->getInit()) O["init"] = stmt(X->getInit()); if (X->getConditionVariable()) O["cv"] = vardecl(X->getConditionVariable()); O["c"] = stmt(X->getCond()); O["b"] = stmt(X->getBody()); }
    else if (auto *X = dyn_cast<CaseStmt>(S)) { O["k"] = "case"; O["e"] = stmt(X->getLHS()); if (X->getRHS()) O["e2"] = stmt(X->getRHS()); O["b"] = stmt(X->getSubStmt()); }
    else if (auto *X = dyn_cast<DefaultStmt>(S)) { O["k"] = "default"; O["b"] = stmt(X->getSubStmt()); }
    else if (auto *X = dyn_cast<CXXTryStmt>(S)) { O["k"] = "try"; O["b"] = stmt(X->getTryBlock()); json::Array A; for (unsigned I = 0; I < X->getNumHandlers(); ++I) { auto *H = X->getHandler(I); json::Object K; K["l"] = line(H->getBeginLoc()); if (H->getExceptionDecl()) K["d"] = decl(H->getExceptionDecl()); if (!H->getCaughtType().isNull()) K["t"] = type(H->getCaughtType()); K["b"] = stmt(H->getHandlerBlock()); A.push_back(std::move(K)); } O["h"] = std::move(A); }
    else if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    else if (auto *X = dyn_cast<CapturedStmt>(S)) return stmt(X->getCapturedStmt());
    else if (StringRef(S->getStmtClassName()).starts_with("OMP")) {
      O["k"] = "omp"; O["cls"] = S->getStmtClassName();
      if (auto *X = dyn_cast<OMPExecutableDirective>(S)) {
        json::Array Q;
        for (auto *Cl : X->clauses()) {
          if (!Cl || Cl->isImplicit()) continue;
          json::Object K; K["n"] = llvm::omp::getOpenMPClauseName(Cl->getClauseKind()).str();
          json::Array V;
          for (auto *E : Cl->children()) if (E) if (auto *DR = dyn_cast<DeclRefExpr>(E)) { json::Object VO; VO["d"] = decl(DR->getDecl()); V.push_back(std::move(VO)); }
          K["v"] = std::move(V); Q.push_back(std::move(K));
        }
        O["clauses"] = std::move(Q);
      }
      json::Array A; for (auto *K : S->children()) A.push_back(stmt(K)); O["c"] = std::move(A);
    }
    else { O["k"] = "other"; O["cls"] = S->getStmtClassName(); O["c"] = kids(S); }
    return O;
  }
  void function(const FunctionDecl *F) {
    std::string Id = decl(F);
    if (!DoneFunc.insert(Id).second) return;
    json::Object O;
    O["d"] = Id;
    O["loc"] = loc(F->getLocation());
    O["endl"] = line(F->getEndLoc());
    json::Array P; for (auto *V : F->parameters()) P.push_back(decl(V)); O["params"] = std::move(P);
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
      json::Array A;
      for (auto *I : CD->inits()) {
        json::Object K;
        if (I->isAnyMemberInitializer()) K["m"] = decl(I->getAnyMember());
        else if (I->isBaseInitializer()) K["base"] = type(QualType(I->getBaseClass(), 0));
        else if (I->isDelegatingInitializer()) K["delegate"] = true;
        K["e"] = expr(I->getInit());
        if (I->isWritten()) K["written"] = true;
        A.push_back(std::move(K));
      }
      O["inits"] = std::move(A);
    }
    if (F->isDefaulted()) O["defaulted"] = true;
    if (F->isImplicit()) O["implicit"] = true;
    O["body"] = stmt(F->getBody());
    Funcs[Id] = std::move(O);
  }
  void run() {
    for (size_t I = 0; I < Queue.size(); ++I) function(Queue[I]);
  }
};

class V : public RecursiveASTVisitor<V> {
public:
  Dumper &D;
  V(Dumper &D) : D(D) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isDependentContext()) return true;
    if (F->doesThisDeclarationHaveABody() && D.inRoot(F->getLocation())) { D.decl(F); D.enqueue(F); }
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isDependentContext() && R->isThisDeclarationADefinition() && D.inRoot(R->getLocation())) D.decl(R);
    return true;
  }
  bool VisitVarDecl(VarDecl *X) {
    if (X->hasGlobalStorage() && !X->getDeclContext()->isDependentContext() && D.inRoot(X->getLocation())) D.decl(X);
    return true;
  }
};
class Consumer : public ASTConsumer {
public:
  CompilerInstance &CI;
  Consumer(CompilerInstance &CI) : CI(CI) {}
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Dumper D(C);
    V Vis(D); Vis.TraverseDecl(C.getTranslationUnitDecl());
    D.run();
    json::Object O; O["types"] = std::move(D.Types); O["decls"] = std::move(D.Decls); O["funcs"] = std::move(D.Funcs);
    std::error_code EC; llvm::raw_fd_ostream OS(OutPath, EC);
    OS << json::Value(std::move(O));
  }
};
class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override { return std::make_unique<Consumer>(CI); }
};
// usage: dump OUT ROOT[,ROOT...] SOURCE FLAGS...
int main(int argc, const char **argv) {
  if (argc < 4) return 2;
  OutPath = argv[1];
  std::string R = argv[2]; size_t P = 0;
  while (P <= R.size()) { size_t Q = R.find(',', P); if (Q == std::string::npos) Q = R.size(); if (Q > P) Roots.push_back(R.substr(P, Q - P)); P = Q + 1; }
  std::vector<std::string> Flags(argv + 4, argv + argc);
  tooling::FixedCompilationDatabase DB(".", Flags);
  tooling::ClangTool T(DB, {argv[3]});
  return T.run(tooling::newFrontendActionFactory<Action>().get());
}
