// Type-checks every source of one build configuration in one process and
// reports: front-end errors, external symbols defined and referenced.
//   glucheck OUT src... -- flags...
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Basic/Diagnostic.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include <map>
#include <set>
using namespace clang;

static llvm::json::Array Errors, Units;
static std::string CurFile;

struct Diag : public DiagnosticConsumer {
  void HandleDiagnostic(DiagnosticsEngine::Level L, const Diagnostic &Info) override {
    if (L < DiagnosticsEngine::Error) return;
    llvm::SmallString<256> S;
    Info.FormatDiagnostic(S);
    std::string f = CurFile;
    int line = 0;
    if (Info.hasSourceManager() && Info.getLocation().isValid()) {
      auto P = Info.getSourceManager().getPresumedLoc(Info.getSourceManager().getExpansionLoc(Info.getLocation()));
      if (P.isValid()) { f = P.getFilename(); line = P.getLine(); }
    }
    Errors.push_back(llvm::json::Object{{"unit", CurFile}, {"f", f}, {"l", line}, {"m", S.str().str()}});
  }
};

struct V : public RecursiveASTVisitor<V> {
  ASTContext &C;
  std::map<std::string, std::pair<std::string, int>> Ref, Def;
  std::set<std::string> Vd;
  V(ASTContext &C) : C(C) {}
  int line(SourceLocation L) { auto P = C.getSourceManager().getPresumedLoc(C.getSourceManager().getExpansionLoc(L)); return P.isValid() ? P.getLine() : 0; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->doesThisDeclarationHaveABody() && F->isExternallyVisible()) {
      if (C.getSourceManager().isInSystemHeader(F->getLocation())) return true;
      if (F->isInlineSpecified() && !F->isInlineDefinitionExternallyVisible()) return true;
      Def[F->getNameAsString()] = {F->getType().getCanonicalType().getAsString(), line(F->getLocation())};
    }
    return true;
  }
  bool VisitVarDecl(VarDecl *D) {
    if (D->hasGlobalStorage() && D->isExternallyVisible() && D->isThisDeclarationADefinition() != VarDecl::DeclarationOnly)
      Def[D->getNameAsString()] = {D->getType().getCanonicalType().getAsString(), line(D->getLocation())};
    return true;
  }
  bool VisitDeclRefExpr(DeclRefExpr *E) {
    if (C.getSourceManager().isInSystemHeader(C.getSourceManager().getExpansionLoc(E->getLocation()))) return true;
    if (auto *F = dyn_cast<FunctionDecl>(E->getDecl())) {
      if (F->isExternallyVisible() && !F->getBuiltinID()) {
        const FunctionDecl *B;
        if (F->hasBody(B) && C.getSourceManager().isInSystemHeader(B->getLocation())) return true;
        if (C.getSourceManager().isInSystemHeader(F->getLocation())) return true;
        Ref.insert({F->getNameAsString(), {F->getType().getCanonicalType().getAsString(), line(E->getLocation())}});
      }
    } else if (auto *D = dyn_cast<VarDecl>(E->getDecl())) {
      if (D->hasGlobalStorage() && D->isExternallyVisible() && !C.getSourceManager().isInSystemHeader(D->getLocation()))
        Ref.insert({D->getNameAsString(), {D->getType().getCanonicalType().getAsString(), line(E->getLocation())}});
    }
    return true;
  }
};

struct Cons : public ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    V v(C);
    v.TraverseDecl(C.getTranslationUnitDecl());
    llvm::json::Object R, D;
    for (auto &x : v.Ref) R[x.first] = llvm::json::Array{x.second.first, x.second.second};
    for (auto &x : v.Def) D[x.first] = llvm::json::Array{x.second.first, x.second.second};
    Units.push_back(llvm::json::Object{{"f", CurFile}, {"ref", std::move(R)}, {"def", std::move(D)}});
  }
};
struct Act : public ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef F) override {
    CurFile = F.str();
    return std::make_unique<Cons>();
  }
};

int main(int argc, const char **argv) {
  std::string Out = argv[1];
  std::vector<std::string> Src, Args;
  int i = 2;
  for (; i < argc && std::string(argv[i]) != "--"; i++) Src.push_back(argv[i]);
  for (i++; i < argc; i++) Args.push_back(argv[i]);
  Diag D;
  for (auto &S : Src) {
    CurFile = S;
    clang::tooling::FixedCompilationDatabase DB(".", Args);
    clang::tooling::ClangTool T(DB, {S});
    T.setDiagnosticConsumer(&D);
    T.setPrintErrorMessage(false);
    T.run(clang::tooling::newFrontendActionFactory<Act>().get());
  }
  std::error_code EC;
  llvm::raw_fd_ostream OS(Out, EC);
  OS << llvm::json::Value(llvm::json::Object{{"errors", std::move(Errors)}, {"units", std::move(Units)}});
  return 0;
}
