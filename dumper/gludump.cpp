// gludump: emits a compact JSON rendering of the resolved (type-checked) clang
// AST of C translation units, OpenMP directives included.
//
// usage: gludump OUT.json SRC.c -- <compile flags>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Decl.h"
#include "clang/AST/Expr.h"
#include "clang/AST/OpenMPClause.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/ADT/SmallString.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <string>
#include <vector>
using namespace clang;
namespace J = llvm::json;

static std::string OutPath;
static int HadError = 0;

namespace {
struct Dumper {
  ASTContext &C;
  SourceManager &SM;
  J::Array Types;
  std::map<const void *, int> TypeIds;
  std::map<const Decl *, int> DeclIds;
  J::Array Globals, Functions, Records, Enums;
  std::map<const RecordDecl *, bool> RecDone;
  std::map<const EnumDecl *, bool> EnumDone;
  std::map<const Decl *, bool> GlobDone;
  std::vector<std::string> Files;
  std::map<std::string, int> FileIds;
  int CurFile = -1;
  Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()) {}

  int fileId(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    std::string F = SM.getFilename(L).str();
    auto It = FileIds.find(F);
    if (It != FileIds.end()) return It->second;
    int Id = Files.size();
    Files.push_back(F);
    FileIds[F] = Id;
    return Id;
  }
  int line(SourceLocation L) { return (int)SM.getExpansionLineNumber(L); }

  int declId(const Decl *D) {
    D = D->getCanonicalDecl();
    auto It = DeclIds.find(D);
    if (It != DeclIds.end()) return It->second;
    int Id = DeclIds.size() + 1;
    DeclIds[D] = Id;
    return Id;
  }

  int type(QualType Q) {
    QualType CQ = Q.getCanonicalType();
    const void *Key = CQ.getAsOpaquePtr();
    auto It = TypeIds.find(Key);
    if (It != TypeIds.end()) return It->second;
    int Id = TypeIds.size();
    TypeIds[Key] = Id;
    Types.push_back(nullptr);
    J::Object O;
    O["s"] = CQ.getAsString();
    if (CQ.isConstQualified()) O["c"] = 1;
    if (CQ.isVolatileQualified()) O["vol"] = 1;
    if (!CQ->isIncompleteType() && !CQ->isFunctionType() && !CQ->isVoidType() &&
        !CQ->isVariableArrayType() && !CQ->isDependentType())
      O["sz"] = (int64_t)C.getTypeSizeInChars(CQ).getQuantity();
    if (auto *P = CQ->getAs<PointerType>()) {
      O["k"] = "ptr";
      O["e"] = type(P->getPointeeType());
    } else if (auto *A = C.getAsConstantArrayType(CQ)) {
      O["k"] = "arr";
      O["n"] = (int64_t)A->getSize().getZExtValue();
      O["e"] = type(A->getElementType());
    } else if (auto *A = C.getAsArrayType(CQ)) {
      O["k"] = "arr";
      O["e"] = type(A->getElementType());
    } else if (auto *R = CQ->getAs<RecordType>()) {
      O["k"] = "rec";
      O["r"] = recName(R->getDecl());
      record(R->getDecl());
    } else if (auto *E = CQ->getAs<EnumType>()) {
      O["k"] = "enum";
      O["r"] = enumName(E->getDecl());
      O["sg"] = CQ->isSignedIntegerOrEnumerationType() ? 1 : 0;
      enumd(E->getDecl());
    } else if (auto *F = CQ->getAs<FunctionProtoType>()) {
      O["k"] = "fn";
      O["ret"] = type(F->getReturnType());
      J::Array Ps;
      for (auto P : F->param_types()) Ps.push_back(type(P));
      O["ps"] = std::move(Ps);
      O["va"] = F->isVariadic() ? 1 : 0;
    } else if (CQ->isAnyComplexType()) {
      O["k"] = "cplx";
    } else if (CQ->isIntegerType()) {
      O["k"] = "int";
      O["sg"] = CQ->isSignedIntegerType() ? 1 : 0;
    } else if (CQ->isRealFloatingType()) {
      O["k"] = "flt";
    } else if (CQ->isVoidType()) {
      O["k"] = "void";
    } else if (CQ->isVectorType()) {
      O["k"] = "vec";
    } else
      O["k"] = "other";
    Types[Id] = std::move(O);
    return Id;
  }
  std::string recName(const RecordDecl *R) {
    std::string N = R->getNameAsString();
    if (N.empty()) {
      if (auto *T = R->getTypedefNameForAnonDecl()) N = T->getNameAsString();
      else N = "anon" + std::to_string(declId(R));
    }
    return N;
  }
  std::string enumName(const EnumDecl *R) {
    std::string N = R->getNameAsString();
    if (N.empty()) {
      if (auto *T = R->getTypedefNameForAnonDecl()) N = T->getNameAsString();
      else N = "anonenum" + std::to_string(declId(R));
    }
    return N;
  }
  void record(const RecordDecl *R0) {
    const RecordDecl *R = R0->getDefinition();
    if (!R || RecDone[R]) return;
    RecDone[R] = true;
    J::Object O;
    O["n"] = recName(R);
    O["sys"] = SM.isInSystemHeader(R->getLocation()) ? 1 : 0;
    J::Array Fs;
    const ASTRecordLayout &L = C.getASTRecordLayout(R);
    unsigned I = 0;
    for (auto *F : R->fields()) {
      J::Object FO;
      FO["n"] = F->getNameAsString();
      FO["t"] = type(F->getType());
      FO["off"] = (int64_t)(L.getFieldOffset(I++) / 8);
      Fs.push_back(std::move(FO));
    }
    O["fields"] = std::move(Fs);
    Records.push_back(std::move(O));
  }
  void enumd(const EnumDecl *E0) {
    const EnumDecl *E = E0->getDefinition();
    if (!E || EnumDone[E]) return;
    EnumDone[E] = true;
    J::Object O;
    O["n"] = enumName(E);
    J::Array Cs;
    for (auto *K : E->enumerators()) {
      J::Array P;
      P.push_back(K->getNameAsString());
      P.push_back(ival(K->getInitVal()));
      Cs.push_back(std::move(P));
    }
    O["c"] = std::move(Cs);
    Enums.push_back(std::move(O));
  }

  J::Value var(const VarDecl *V) {
    J::Object O;
    O["id"] = declId(V);
    O["n"] = V->getNameAsString();
    O["t"] = type(V->getType());
    O["l"] = line(V->getLocation());
    if (isa<ParmVarDecl>(V)) {
      O["t"] = type(V->getType());
      // keep the declared array extent of array parameters
      if (auto *DT = dyn_cast<DecayedType>(V->getType().getTypePtr()))
        O["ot"] = type(DT->getOriginalType());
    }
    if (V->isStaticLocal()) O["static"] = 1;
    if (V->hasGlobalStorage()) {
      O["g"] = 1;
      if (V->getStorageClass() == SC_Static) O["static"] = 1;
      if (V->getStorageClass() == SC_Extern) O["extern"] = 1;
    }
    if (auto *VAT = C.getAsVariableArrayType(V->getType()))
      if (VAT->getSizeExpr()) O["vla"] = expr(VAT->getSizeExpr());
    if (const Expr *I = V->getInit()) O["init"] = expr(I);
    return O;
  }

  void global(const VarDecl *V) {
    const VarDecl *D = V->getDefinition();
    if (!D) D = V;
    if (GlobDone[D->getCanonicalDecl()]) return;
    GlobDone[D->getCanonicalDecl()] = true;
    J::Value J = var(D);
    (*J.getAsObject())["f"] = fileId(D->getLocation());
    if (D->isThisDeclarationADefinition() != VarDecl::DeclarationOnly)
      (*J.getAsObject())["def"] = 1;
    Globals.push_back(std::move(J));
  }

  static J::Value ival(const llvm::APSInt &I) {
    if (I.isUnsigned()) return (uint64_t)I.getZExtValue();
    return (int64_t)I.getSExtValue();
  }
  J::Value exprOrNull(const Expr *E) {
    if (!E) return nullptr;
    return expr(E);
  }

  static bool skipCast(CastKind K) {
    switch (K) {
    case CK_LValueToRValue:
    case CK_NoOp:
    case CK_FunctionToPointerDecay:
    case CK_ArrayToPointerDecay:
    case CK_BuiltinFnToFnPtr:
      return true;
    default:
      return false;
    }
  }

  J::Value expr(const Expr *E) {
    E = E->IgnoreParens();
    if (auto *IC = dyn_cast<ImplicitCastExpr>(E))
      if (skipCast(IC->getCastKind())) return expr(IC->getSubExpr());
    if (auto *FE = dyn_cast<FullExpr>(E)) {
      if (!FE->getType()->isIntegerType() || !isa<ConstantExpr>(E))
        return expr(FE->getSubExpr());
    }
    J::Object O;
    O["l"] = line(E->getExprLoc());
    int F = fileId(E->getExprLoc());
    if (F != CurFile) O["f"] = F;
    O["t"] = type(E->getType());
    // constant value
    if (E->getType()->isIntegralOrEnumerationType() && !isa<IntegerLiteral>(E)) {
      Expr::EvalResult R;
      if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects))
        O["cv"] = ival(R.Val.getInt());
    }
    switch (E->getStmtClass()) {
    case Stmt::IntegerLiteralClass: {
      O["k"] = "int";
      O["v"] = (uint64_t)cast<IntegerLiteral>(E)->getValue().getZExtValue();
      break;
    }
    case Stmt::CharacterLiteralClass:
      O["k"] = "int";
      O["chr"] = 1;
      O["v"] = (int64_t)cast<CharacterLiteral>(E)->getValue();
      break;
    case Stmt::FloatingLiteralClass: {
      O["k"] = "flt";
      llvm::SmallString<32> S;
      cast<FloatingLiteral>(E)->getValue().toString(S);
      O["v"] = std::string(S.str());
      break;
    }
    case Stmt::ImaginaryLiteralClass:
      O["k"] = "imag";
      O["e"] = expr(cast<ImaginaryLiteral>(E)->getSubExpr());
      break;
    case Stmt::StringLiteralClass: {
      O["k"] = "str";
      auto *S = cast<StringLiteral>(E);
      if (S->getCharByteWidth() == 1)
        O["v"] = J::fixUTF8(S->getString());
      break;
    }
    case Stmt::DeclRefExprClass: {
      auto *D = cast<DeclRefExpr>(E)->getDecl();
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        O["k"] = "int";
        O["v"] = ival(EC->getInitVal());
        O["en"] = EC->getNameAsString();
      } else {
        O["k"] = "ref";
        O["n"] = D->getNameAsString();
        O["d"] = declId(D);
        if (isa<FunctionDecl>(D)) O["fn"] = 1;
        else if (auto *V = dyn_cast<VarDecl>(D))
          if (V->hasGlobalStorage()) {
            O["g"] = 1;
            if (!V->isStaticLocal()) global(V);
          }
      }
      break;
    }
    case Stmt::PredefinedExprClass:
      O["k"] = "str";
      O["v"] = "__func__";
      break;
    case Stmt::UnaryOperatorClass: {
      auto *U = cast<UnaryOperator>(E);
      O["k"] = "un";
      std::string Op = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
      if (U->isIncrementDecrementOp())
        Op = (U->isPrefix() ? "p" : "q") + Op; // p++ = ++x ; q++ = x++
      if (U->getOpcode() == UO_Extension) return expr(U->getSubExpr());
      O["o"] = Op;
      O["e"] = expr(U->getSubExpr());
      break;
    }
    case Stmt::BinaryOperatorClass:
    case Stmt::CompoundAssignOperatorClass: {
      auto *B = cast<BinaryOperator>(E);
      O["k"] = B->isAssignmentOp() ? "asg" : "bin";
      O["o"] = B->getOpcodeStr().str();
      O["a"] = expr(B->getLHS());
      O["b"] = expr(B->getRHS());
      break;
    }
    case Stmt::ConditionalOperatorClass: {
      auto *Q = cast<ConditionalOperator>(E);
      O["k"] = "cond";
      O["c"] = expr(Q->getCond());
      O["a"] = expr(Q->getTrueExpr());
      O["b"] = expr(Q->getFalseExpr());
      break;
    }
    case Stmt::CallExprClass: {
      auto *Q = cast<CallExpr>(E);
      O["k"] = "call";
      if (auto *FD = Q->getDirectCallee()) {
        O["fn"] = FD->getNameAsString();
        O["fd"] = declId(FD);
        if (FD->getBuiltinID()) O["bi"] = 1;
      } else
        O["fe"] = expr(Q->getCallee());
      J::Array A;
      for (auto *X : Q->arguments()) A.push_back(expr(X));
      O["args"] = std::move(A);
      break;
    }
    case Stmt::MemberExprClass: {
      auto *M = cast<MemberExpr>(E);
      O["k"] = "mem";
      O["n"] = M->getMemberDecl()->getNameAsString();
      if (auto *FD = dyn_cast<FieldDecl>(M->getMemberDecl()))
        O["r"] = recName(FD->getParent());
      if (M->isArrow()) O["arrow"] = 1;
      O["e"] = expr(M->getBase());
      break;
    }
    case Stmt::ArraySubscriptExprClass: {
      auto *A = cast<ArraySubscriptExpr>(E);
      O["k"] = "idx";
      O["a"] = expr(A->getBase());
      O["i"] = expr(A->getIdx());
      break;
    }
    case Stmt::ImplicitCastExprClass:
    case Stmt::CStyleCastExprClass: {
      auto *K = cast<CastExpr>(E);
      O["k"] = "cast";
      O["ck"] = K->getCastKindName();
      if (isa<CStyleCastExpr>(E)) O["ex"] = 1;
      O["e"] = expr(K->getSubExpr());
      break;
    }
    case Stmt::UnaryExprOrTypeTraitExprClass: {
      auto *U = cast<UnaryExprOrTypeTraitExpr>(E);
      O["k"] = "sizeof";
      O["at"] = type(U->getTypeOfArgument());
      break;
    }
    case Stmt::InitListExprClass: {
      auto *I = cast<InitListExpr>(E);
      if (I->isSemanticForm() == false && I->getSemanticForm())
        I = I->getSemanticForm();
      O["k"] = "init";
      J::Array A;
      for (auto *X : I->inits()) A.push_back(expr(X));
      O["es"] = std::move(A);
      if (I->hasArrayFiller()) O["fill"] = 1;
      break;
    }
    case Stmt::ImplicitValueInitExprClass:
      O["k"] = "zero";
      break;
    case Stmt::CompoundLiteralExprClass:
      O["k"] = "clit";
      O["e"] = expr(cast<CompoundLiteralExpr>(E)->getInitializer());
      break;
    case Stmt::StmtExprClass:
      O["k"] = "stmtexpr";
      O["b"] = stmt(cast<StmtExpr>(E)->getSubStmt());
      break;
    case Stmt::ConstantExprClass:
      O["k"] = "const";
      O["e"] = expr(cast<ConstantExpr>(E)->getSubExpr());
      break;
    default: {
      O["k"] = "other";
      O["cls"] = E->getStmtClassName();
      J::Array A;
      for (auto *X : E->children())
        if (auto *XE = dyn_cast_or_null<Expr>(X)) A.push_back(expr(XE));
      O["ch"] = std::move(A);
    }
    }
    return O;
  }

  J::Value clause(const OMPClause *Cl) {
    J::Object O;
    O["c"] = llvm::omp::getOpenMPClauseName(Cl->getClauseKind()).str();
    auto List = [&](auto *L) {
      J::Array A;
      for (const Expr *X : L->varlists()) A.push_back(expr(X));
      O["v"] = std::move(A);
    };
    if (auto *X = dyn_cast<OMPPrivateClause>(Cl)) List(X);
    else if (auto *X = dyn_cast<OMPFirstprivateClause>(Cl)) List(X);
    else if (auto *X = dyn_cast<OMPLastprivateClause>(Cl)) List(X);
    else if (auto *X = dyn_cast<OMPSharedClause>(Cl)) List(X);
    else if (auto *X = dyn_cast<OMPCopyprivateClause>(Cl)) List(X);
    else if (auto *X = dyn_cast<OMPLinearClause>(Cl)) List(X);
    else if (auto *X = dyn_cast<OMPReductionClause>(Cl)) {
      List(X);
      O["op"] = X->getNameInfo().getName().getAsString();
    } else if (auto *X = dyn_cast<OMPScheduleClause>(Cl)) {
      O["sched"] = llvm::omp::getOpenMPClauseName(llvm::omp::OMPC_schedule).str();
      O["kind"] = std::string(getOpenMPSimpleClauseTypeName(
          llvm::omp::OMPC_schedule, X->getScheduleKind()));
      O["chunk"] = exprOrNull(X->getChunkSize());
    } else if (auto *X = dyn_cast<OMPNumThreadsClause>(Cl))
      O["e"] = expr(X->getNumThreads());
    else if (auto *X = dyn_cast<OMPIfClause>(Cl)) O["e"] = expr(X->getCondition());
    else if (auto *X = dyn_cast<OMPCollapseClause>(Cl))
      O["e"] = expr(X->getNumForLoops());
    else if (auto *X = dyn_cast<OMPDefaultClause>(Cl))
      O["kind"] = (int64_t)X->getDefaultKind();
    return O;
  }

  J::Value stmtOrNull(const Stmt *S) {
    if (!S) return nullptr;
    return stmt(S);
  }

  J::Value stmt(const Stmt *S) {
    if (auto *E = dyn_cast<Expr>(S)) return expr(E);
    J::Object O;
    O["l"] = line(S->getBeginLoc());
    switch (S->getStmtClass()) {
    case Stmt::CompoundStmtClass: {
      O["k"] = "block";
      J::Array A;
      for (auto *X : cast<CompoundStmt>(S)->body()) A.push_back(stmt(X));
      O["b"] = std::move(A);
      O["le"] = line(S->getEndLoc());
      break;
    }
    case Stmt::DeclStmtClass: {
      O["k"] = "decl";
      J::Array A;
      for (auto *D : cast<DeclStmt>(S)->decls())
        if (auto *V = dyn_cast<VarDecl>(D)) A.push_back(var(V));
      O["v"] = std::move(A);
      break;
    }
    case Stmt::NullStmtClass:
      O["k"] = "null";
      break;
    case Stmt::IfStmtClass: {
      auto *I = cast<IfStmt>(S);
      O["k"] = "if";
      O["c"] = expr(I->getCond());
      O["a"] = stmt(I->getThen());
      O["b"] = stmtOrNull(I->getElse());
      break;
    }
    case Stmt::WhileStmtClass: {
      auto *I = cast<WhileStmt>(S);
      O["k"] = "while";
      O["c"] = expr(I->getCond());
      O["b"] = stmt(I->getBody());
      break;
    }
    case Stmt::DoStmtClass: {
      auto *I = cast<DoStmt>(S);
      O["k"] = "do";
      O["c"] = expr(I->getCond());
      O["b"] = stmt(I->getBody());
      break;
    }
    case Stmt::ForStmtClass: {
      auto *I = cast<ForStmt>(S);
      O["k"] = "for";
      O["init"] = stmtOrNull(I->getInit());
      O["c"] = exprOrNull(I->getCond());
      O["inc"] = exprOrNull(I->getInc());
      O["b"] = stmt(I->getBody());
      break;
    }
    case Stmt::SwitchStmtClass: {
      auto *I = cast<SwitchStmt>(S);
      O["k"] = "switch";
      O["c"] = expr(I->getCond());
      // type before promotion
      O["ct"] = type(I->getCond()->IgnoreParenImpCasts()->getType());
      O["b"] = stmt(I->getBody());
      break;
    }
    case Stmt::CaseStmtClass: {
      auto *I = cast<CaseStmt>(S);
      O["k"] = "case";
      O["v"] = expr(I->getLHS());
      if (I->getRHS()) O["v2"] = expr(I->getRHS());
      O["b"] = stmt(I->getSubStmt());
      break;
    }
    case Stmt::DefaultStmtClass:
      O["k"] = "default";
      O["b"] = stmt(cast<DefaultStmt>(S)->getSubStmt());
      break;
    case Stmt::BreakStmtClass:
      O["k"] = "break";
      break;
    case Stmt::ContinueStmtClass:
      O["k"] = "continue";
      break;
    case Stmt::ReturnStmtClass:
      O["k"] = "return";
      O["e"] = exprOrNull(cast<ReturnStmt>(S)->getRetValue());
      break;
    case Stmt::GotoStmtClass:
      O["k"] = "goto";
      O["n"] = cast<GotoStmt>(S)->getLabel()->getNameAsString();
      break;
    case Stmt::LabelStmtClass:
      O["k"] = "label";
      O["n"] = cast<LabelStmt>(S)->getDecl()->getNameAsString();
      O["b"] = stmt(cast<LabelStmt>(S)->getSubStmt());
      break;
    case Stmt::AttributedStmtClass:
      return stmt(cast<AttributedStmt>(S)->getSubStmt());
    default:
      if (auto *D = dyn_cast<OMPExecutableDirective>(S)) {
        O["k"] = "omp";
        O["dir"] = llvm::omp::getOpenMPDirectiveName(D->getDirectiveKind()).str();
        J::Array A;
        for (auto *Cl : D->clauses())
          if (!Cl->isImplicit()) A.push_back(clause(Cl));
        O["cl"] = std::move(A);
        if (auto *LD = dyn_cast<OMPLoopDirective>(S))
          O["nloops"] = (int64_t)LD->getLoopsNumber();
        if (D->hasAssociatedStmt() && D->getAssociatedStmt()) {
          O["b"] = stmt(D->getRawStmt());
          O["le"] = line(D->getRawStmt()->getEndLoc());
        }
        break;
      }
      if (auto *CS = dyn_cast<CapturedStmt>(S)) return stmt(CS->getCapturedStmt());
      O["k"] = "otherstmt";
      O["cls"] = S->getStmtClassName();
    }
    return O;
  }

  void run() {
    for (auto *D : C.getTranslationUnitDecl()->decls()) {
      if (auto *V = dyn_cast<VarDecl>(D)) {
        if (!SM.isInSystemHeader(V->getLocation())) global(V);
      } else if (auto *F = dyn_cast<FunctionDecl>(D)) {
        if (SM.isInSystemHeader(F->getLocation())) continue;
        CurFile = fileId(F->getLocation());
        J::Object O;
        O["n"] = F->getNameAsString();
        O["id"] = declId(F);
        O["f"] = CurFile;
        O["l"] = line(F->getLocation());
        O["ret"] = type(F->getReturnType());
        if (F->getStorageClass() == SC_Static) O["static"] = 1;
        if (F->isInlineSpecified()) O["inline"] = 1;
        J::Array Ps;
        for (auto *P : F->parameters()) Ps.push_back(var(P));
        O["ps"] = std::move(Ps);
        if (F->doesThisDeclarationHaveABody()) {
          O["b"] = stmt(F->getBody());
          O["le"] = line(F->getBody()->getEndLoc());
        }
        Functions.push_back(std::move(O));
      } else if (auto *R = dyn_cast<RecordDecl>(D)) {
        if (!SM.isInSystemHeader(R->getLocation())) record(R);
      } else if (auto *E = dyn_cast<EnumDecl>(D)) {
        if (!SM.isInSystemHeader(E->getLocation())) enumd(E);
      }
    }
    J::Object Top;
    J::Array Fs;
    for (auto &F : Files) Fs.push_back(F);
    Top["files"] = std::move(Fs);
    Top["types"] = std::move(Types);
    Top["globals"] = std::move(Globals);
    Top["functions"] = std::move(Functions);
    Top["records"] = std::move(Records);
    Top["enums"] = std::move(Enums);
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutPath, EC);
    if (EC) { HadError = 1; return; }
    OS << J::Value(std::move(Top));
  }
};

struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) { HadError = 1; return; }
    Dumper D(C);
    D.run();
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override {
    return std::make_unique<Consumer>();
  }
};
} // namespace

int main(int argc, const char **argv) {
  if (argc < 4) return 2;
  OutPath = argv[1];
  std::string Src = argv[2];
  std::vector<std::string> Args;
  for (int i = 4; i < argc; i++) Args.push_back(argv[i]);
  clang::tooling::FixedCompilationDatabase DB(".", Args);
  clang::tooling::ClangTool T(DB, {Src});
  T.setDiagnosticConsumer(nullptr);
  int R = T.run(clang::tooling::newFrontendActionFactory<Action>().get());
  return (R || HadError) ? 1 : 0;
}
