// Extractor: parses one translation unit of the repository with clang and
// writes, for every function defined in repository sources (template
// instantiations and lambdas included), the resolved control-flow graph and
// the typed expression nodes as JSON.  Nothing is decided here; the rules in
// /verif/sa work on this representation.
#include <map>
#include <regex>
#include <set>
#include <string>
#include <vector>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Analysis/CFG.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Frontend/TextDiagnosticPrinter.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/Path.h"
#include "llvm/Support/VirtualFileSystem.h"

using namespace clang;
namespace json = llvm::json;

static std::string RepoRoot;
static std::string OutFile;

namespace {

class Dumper {
 public:
  Dumper(ASTContext& ctx) : Ctx(ctx), SM(ctx.getSourceManager()), PP(ctx.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.Bool = true;
  }

  ASTContext& Ctx;
  SourceManager& SM;
  PrintingPolicy PP;
  json::Array Functions, Records, Globals, Enums;
  std::set<std::string> DoneFn, DoneRec, DoneVar, DoneEnum;
  std::vector<std::string> Types;
  std::map<std::string, int> TypeIx;

  // ---- locations ---------------------------------------------------------
  bool InRepo(SourceLocation L, std::string* rel = nullptr) {
    if (L.isInvalid()) return false;
    L = SM.getExpansionLoc(L);
    auto FE = SM.getFileEntryRefForID(SM.getFileID(L));
    if (!FE) return false;
    std::string p = FE->getName().str();
    llvm::SmallString<256> abs(p);
    llvm::sys::path::remove_dots(abs, true);
    p = abs.str().str();
    if (p.compare(0, RepoRoot.size(), RepoRoot) != 0) return false;
    std::string r = p.substr(RepoRoot.size());
    while (!r.empty() && r[0] == '/') r = r.substr(1);
    if (r.compare(0, 13, "third_parties") == 0) return false;
    if (r.compare(0, 6, "_build") == 0) return false;
    if (rel) *rel = r;
    return true;
  }
  int Line(SourceLocation L) {
    if (L.isInvalid()) return 0;
    return SM.getExpansionLineNumber(L);
  }
  int Off(SourceLocation L) {
    if (L.isInvalid()) return 0;
    return SM.getFileOffset(SM.getExpansionLoc(L));
  }
  std::string Usr(const Decl* D) {
    D = D->getCanonicalDecl();
    if (auto* M = dyn_cast<CXXMethodDecl>(D)) {
      if (M->getParent()->isLambda()) {
        std::string rel;
        SourceLocation L = M->getParent()->getLocation();
        InRepo(L, &rel);
        std::string base = "lam@" + rel + ":" + std::to_string(Line(L)) + ":" +
                           std::to_string(SM.getExpansionColumnNumber(L));
        // distinguish instantiations of the enclosing template
        const DeclContext* DC = M->getParent()->getDeclContext();
        while (DC && !isa<FunctionDecl>(DC)) DC = DC->getParent();
        if (DC) base += "#" + Usr(cast<FunctionDecl>(DC));
        return base;
      }
    }
    llvm::SmallString<256> buf;
    if (index::generateUSRForDecl(D, buf)) {
      std::string s;
      llvm::raw_string_ostream os(s);
      os << "ptr:" << (const void*)D;
      return os.str();
    }
    return buf.str().str();
  }
  int Ty(QualType T) {
    if (T.isNull()) return -1;
    std::string s = T.getCanonicalType().getAsString(PP);
    auto it = TypeIx.find(s);
    if (it != TypeIx.end()) return it->second;
    int i = Types.size();
    Types.push_back(s);
    TypeIx[s] = i;
    return i;
  }
  static std::string QName(const NamedDecl* D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    PrintingPolicy P{LangOptions()};
    P.SuppressTagKeyword = true;
    D->printQualifiedName(os, P);
    return os.str();
  }
  static std::string RecName(const CXXRecordDecl* R) {
    if (R->isLambda()) return "(lambda)";
    return QName(R);
  }

  // ---- per function state -------------------------------------------------
  struct FnCtx {
    std::map<const Stmt*, int> Id;
    json::Array Nodes;
    std::vector<const LambdaExpr*> Lambdas;
    std::vector<const OMPExecutableDirective*> Omp;
  };
  FnCtx* F = nullptr;
  std::map<const Decl*, int> DeclId;
  std::vector<const Decl*> DeclList;

  int DId(const Decl* D) {
    D = D->getCanonicalDecl();
    auto it = DeclId.find(D);
    if (it != DeclId.end()) return it->second;
    int i = DeclId.size();
    DeclId[D] = i;
    DeclList.push_back(D);
    return i;
  }

  json::Value CalleeInfo(const FunctionDecl* FD) {
    json::Object o;
    o["u"] = Usr(FD);
    o["q"] = QName(FD);
    o["n"] = FD->getNameAsString();
    if (auto* M = dyn_cast<CXXMethodDecl>(FD)) {
      o["c"] = RecName(M->getParent());
      o["ct"] = Ty(Ctx.getRecordType(M->getParent()));
      if (M->isVirtual()) o["virt"] = true;
      if (M->isConst()) o["const"] = true;
      if (M->isStatic()) o["static"] = true;
    }
    if (FD->isNoReturn()) o["noret"] = true;
    const FunctionDecl* Def = nullptr;
    if (FD->hasBody(Def) && Def && InRepo(Def->getLocation())) o["repo"] = true;
    else if (InRepo(FD->getLocation())) o["repo"] = true;
    if (auto* TA = FD->getTemplateSpecializationArgs()) {
      json::Array a;
      for (auto& A : TA->asArray()) {
        if (A.getKind() == TemplateArgument::Type) a.push_back(Ty(A.getAsType()));
        else if (A.getKind() == TemplateArgument::Integral) {
          llvm::SmallString<16> s;
          A.getAsIntegral().toString(s, 10);
          a.push_back(s.str().str());
        }
      }
      o["ta"] = std::move(a);
    }
    json::Array byref;
    for (auto* P : FD->parameters()) {
      QualType T = P->getType();
      int m = 0;
      if (T->isReferenceType()) m = T->getPointeeType().isConstQualified() ? 1 : 2;
      else if (T->isPointerType()) m = T->getPointeeType().isConstQualified() ? 3 : 4;
      byref.push_back(m);
    }
    o["pm"] = std::move(byref);
    return o;
  }

  int E(const Stmt* S) {
    if (!S) return -1;
    auto it = F->Id.find(S);
    if (it != F->Id.end()) return it->second;
    // collapse syntactic sugar
    if (auto* P = dyn_cast<ParenExpr>(S)) return F->Id[S] = E(P->getSubExpr());
    if (auto* P = dyn_cast<FullExpr>(S)) return F->Id[S] = E(P->getSubExpr());
    if (auto* P = dyn_cast<CXXBindTemporaryExpr>(S)) return F->Id[S] = E(P->getSubExpr());
    if (auto* P = dyn_cast<MaterializeTemporaryExpr>(S)) return F->Id[S] = E(P->getSubExpr());
    if (auto* P = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) return F->Id[S] = E(P->getReplacement());
    if (auto* P = dyn_cast<CXXDefaultArgExpr>(S)) return F->Id[S] = E(P->getExpr());
    if (auto* P = dyn_cast<CXXDefaultInitExpr>(S)) return F->Id[S] = E(P->getExpr());
    if (auto* P = dyn_cast<OpaqueValueExpr>(S))
      if (P->getSourceExpr()) return F->Id[S] = E(P->getSourceExpr());
    if (auto* P = dyn_cast<UserDefinedLiteral>(S)) (void)P;

    int id = F->Nodes.size();
    F->Id[S] = id;
    F->Nodes.push_back(nullptr);
    json::Object o;
    o["l"] = Line(S->getBeginLoc());
    o["o"] = Off(S->getBeginLoc());
    if (auto* X = dyn_cast<Expr>(S)) {
      o["t"] = Ty(X->getType());
      if (X->isGLValue()) o["lv"] = true;
      if (!X->isValueDependent() && !X->isTypeDependent() && X->isPRValue() &&
          (X->getType()->isIntegralOrEnumerationType() || X->getType()->isFloatingType())) {
        Expr::EvalResult R;
        if (X->EvaluateAsRValue(R, Ctx) && !R.HasSideEffects) {
          if (R.Val.isInt()) {
            llvm::SmallString<16> s;
            R.Val.getInt().toString(s, 10);
            o["cv"] = s.str().str();
          } else if (R.Val.isFloat()) {
            llvm::APFloat f = R.Val.getFloat();
            bool lose;
            f.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &lose);
            double d = f.convertToDouble();
            char b[64];
            snprintf(b, sizeof b, "%.17g", d);
            o["cvf"] = std::string(b);
          }
        }
      }
    }
    if (auto* X = dyn_cast<CastExpr>(S)) {
      o["k"] = "cast";
      o["ck"] = X->getCastKindName();
      if (isa<ExplicitCastExpr>(X)) o["ex"] = true;
      o["e"] = E(X->getSubExpr());
      if (auto* FD = dyn_cast_or_null<FunctionDecl>(X->getConversionFunction())) o["fn"] = CalleeInfo(FD);
    } else if (auto* X = dyn_cast<DeclRefExpr>(S)) {
      o["k"] = "ref";
      const ValueDecl* D = X->getDecl();
      o["n"] = D->getNameAsString();
      if (auto* FD = dyn_cast<FunctionDecl>(D)) {
        o["dk"] = "func";
        o["fn"] = CalleeInfo(FD);
      } else if (auto* VD = dyn_cast<VarDecl>(D)) {
        if (VD->isLocalVarDecl() || isa<ParmVarDecl>(VD)) {
          o["dk"] = VD->isStaticLocal() ? "slocal" : (isa<ParmVarDecl>(VD) ? "param" : "local");
          o["d"] = DId(VD);
        } else {
          o["dk"] = "global";
          o["q"] = QName(VD);
          o["d"] = DId(VD);
        }
        if (VD->getType()->isReferenceType()) o["isref"] = true;
      } else if (isa<EnumConstantDecl>(D)) {
        o["dk"] = "enum";
        o["q"] = QName(D);
      } else if (isa<BindingDecl>(D)) {
        o["dk"] = "local";
        o["d"] = DId(D);
      } else {
        o["dk"] = "other";
        o["q"] = QName(D);
      }
    } else if (auto* X = dyn_cast<MemberExpr>(S)) {
      o["k"] = "mem";
      o["b"] = E(X->getBase());
      if (X->isArrow()) o["arrow"] = true;
      o["n"] = X->getMemberDecl()->getNameAsString();
      o["q"] = QName(X->getMemberDecl());
      if (auto* FD = dyn_cast<FunctionDecl>(X->getMemberDecl())) o["fn"] = CalleeInfo(FD);
      else if (auto* VD = dyn_cast<VarDecl>(X->getMemberDecl())) { o["static"] = true; o["d"] = DId(VD); }
      if (auto* FD = dyn_cast<FieldDecl>(X->getMemberDecl()))
        if (FD->getType()->isReferenceType()) o["isref"] = true;
    } else if (isa<CXXThisExpr>(S)) {
      o["k"] = "this";
    } else if (auto* X = dyn_cast<CXXMemberCallExpr>(S)) {
      o["k"] = "call";
      if (auto* M = X->getMethodDecl()) o["fn"] = CalleeInfo(M);
      const Expr* Obj = X->getImplicitObjectArgument();
      o["obj"] = E(Obj);
      if (auto* ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) {
        if (ME->isArrow()) o["arrow"] = true;
        if (ME->hasQualifier()) o["qual"] = true;
      } else {
        o["cal"] = E(X->getCallee());
      }
      json::Array a;
      for (auto* A : X->arguments()) a.push_back(E(A));
      o["a"] = std::move(a);
    } else if (auto* X = dyn_cast<CXXOperatorCallExpr>(S)) {
      o["k"] = "call";
      o["op"] = getOperatorSpelling(X->getOperator());
      const FunctionDecl* FD = X->getDirectCallee();
      if (FD) o["fn"] = CalleeInfo(FD);
      json::Array a;
      unsigned i = 0;
      if (FD && isa<CXXMethodDecl>(FD) && !cast<CXXMethodDecl>(FD)->isStatic()) {
        o["obj"] = E(X->getArg(0));
        i = 1;
      }
      for (; i < X->getNumArgs(); ++i) a.push_back(E(X->getArg(i)));
      o["a"] = std::move(a);
    } else if (auto* X = dyn_cast<CallExpr>(S)) {
      o["k"] = "call";
      if (auto* FD = X->getDirectCallee()) o["fn"] = CalleeInfo(FD);
      else o["cal"] = E(X->getCallee());
      json::Array a;
      for (auto* A : X->arguments()) a.push_back(E(A));
      o["a"] = std::move(a);
    } else if (auto* X = dyn_cast<CXXConstructExpr>(S)) {
      o["k"] = "ctor";
      o["fn"] = CalleeInfo(X->getConstructor());
      if (X->getConstructor()->isCopyOrMoveConstructor()) o["copy"] = true;
      if (X->getConstructor()->isDefaultConstructor()) o["def"] = true;
      if (X->isElidable()) o["elide"] = true;
      if (X->requiresZeroInitialization()) o["zero"] = true;
      json::Array a;
      for (auto* A : X->arguments()) a.push_back(E(A));
      o["a"] = std::move(a);
    } else if (auto* X = dyn_cast<CXXNewExpr>(S)) {
      o["k"] = "new";
      o["et"] = Ty(X->getAllocatedType());
      if (X->isArray()) {
        o["arr"] = true;
        if (auto N = X->getArraySize()) o["n"] = E(*N);
      }
      if (X->hasInitializer()) o["e"] = E(X->getInitializer());
    } else if (auto* X = dyn_cast<CXXDeleteExpr>(S)) {
      o["k"] = "delete";
      o["e"] = E(X->getArgument());
    } else if (auto* X = dyn_cast<BinaryOperator>(S)) {
      o["k"] = "bin";
      o["op"] = X->getOpcodeStr().str();
      o["a"] = E(X->getLHS());
      o["b"] = E(X->getRHS());
      if (auto* C = dyn_cast<CompoundAssignOperator>(X)) o["cot"] = Ty(C->getComputationResultType());
    } else if (auto* X = dyn_cast<UnaryOperator>(S)) {
      o["k"] = "un";
      o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if (X->isPostfix()) o["post"] = true;
      o["e"] = E(X->getSubExpr());
    } else if (auto* X = dyn_cast<ArraySubscriptExpr>(S)) {
      o["k"] = "idx";
      o["b"] = E(X->getBase());
      o["i"] = E(X->getIdx());
    } else if (auto* X = dyn_cast<IntegerLiteral>(S)) {
      o["k"] = "int";
      (void)X;
    } else if (isa<FloatingLiteral>(S)) {
      o["k"] = "float";
    } else if (auto* X = dyn_cast<CXXBoolLiteralExpr>(S)) {
      o["k"] = "bool";
      o["v"] = X->getValue();
    } else if (auto* X = dyn_cast<CharacterLiteral>(S)) {
      o["k"] = "int";
      (void)X;
    } else if (auto* X = dyn_cast<clang::StringLiteral>(S)) {
      o["k"] = "str";
      if (X->isOrdinary() || X->isUTF8()) o["v"] = json::fixUTF8(X->getString());
    } else if (isa<CXXNullPtrLiteralExpr>(S) || isa<GNUNullExpr>(S)) {
      o["k"] = "null";
    } else if (isa<ImplicitValueInitExpr>(S) || isa<CXXScalarValueInitExpr>(S)) {
      o["k"] = "zeroinit";
    } else if (auto* X = dyn_cast<LambdaExpr>(S)) {
      o["k"] = "lam";
      o["fn"] = CalleeInfo(X->getCallOperator());
      F->Lambdas.push_back(X);
      json::Array a;
      auto ii = X->capture_init_begin();
      for (auto& C : X->captures()) {
        json::Object c;
        if (C.capturesThis()) c["this"] = true;
        else if (C.capturesVariable()) {
          c["n"] = C.getCapturedVar()->getNameAsString();
          c["d"] = DId(C.getCapturedVar());
        }
        if (C.getCaptureKind() == LCK_ByRef) c["ref"] = true;
        if (ii != X->capture_init_end() && *ii) c["e"] = E(*ii);
        ++ii;
        a.push_back(std::move(c));
      }
      o["caps"] = std::move(a);
    } else if (auto* X = dyn_cast<AbstractConditionalOperator>(S)) {
      o["k"] = "cond";
      o["c"] = E(X->getCond());
      o["a"] = E(X->getTrueExpr());
      o["b"] = E(X->getFalseExpr());
    } else if (auto* X = dyn_cast<InitListExpr>(S)) {
      o["k"] = "init";
      json::Array a;
      for (unsigned i = 0; i < X->getNumInits(); ++i) a.push_back(E(X->getInit(i)));
      o["a"] = std::move(a);
    } else if (auto* X = dyn_cast<CXXStdInitializerListExpr>(S)) {
      o["k"] = "stdinit";
      o["e"] = E(X->getSubExpr());
    } else if (isa<UnaryExprOrTypeTraitExpr>(S)) {
      o["k"] = "sizeof";
      if (auto* U = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) o["at"] = Ty(U->getTypeOfArgument());
    } else if (auto* X = dyn_cast<CXXTypeidExpr>(S)) {
      o["k"] = "typeid";
      if (X->isTypeOperand()) o["at"] = Ty(X->getTypeOperand(Ctx));
      else {
        o["e"] = E(X->getExprOperand());
      }
    } else if (auto* X = dyn_cast<CXXThrowExpr>(S)) {
      o["k"] = "throw";
      o["e"] = E(X->getSubExpr());
    } else if (auto* X = dyn_cast<DeclStmt>(S)) {
      o["k"] = "decl";
      json::Array a;
      for (auto* D : X->decls()) {
        if (auto* VD = dyn_cast<VarDecl>(D)) {
          json::Object v;
          v["d"] = DId(VD);
          v["n"] = VD->getNameAsString();
          v["t"] = Ty(VD->getType());
          if (VD->getType()->isReferenceType()) v["isref"] = true;
          if (VD->isStaticLocal()) v["static"] = true;
          if (VD->getInit()) v["e"] = E(VD->getInit());
          a.push_back(std::move(v));
          if (auto* DD = dyn_cast<DecompositionDecl>(VD))
            for (auto* B : DD->bindings()) (void)DId(B);
        }
      }
      o["v"] = std::move(a);
    } else if (auto* X = dyn_cast<ReturnStmt>(S)) {
      o["k"] = "ret";
      o["e"] = E(X->getRetValue());
    } else if (auto* X = dyn_cast<OMPExecutableDirective>(S)) {
      o["k"] = "omp";
      F->Omp.push_back(X);
    } else if (auto* X = dyn_cast<ArrayInitLoopExpr>(S)) {
      o["k"] = "arrinit";
      o["e"] = E(X->getCommonExpr());
    } else {
      o["k"] = "other";
      o["sc"] = S->getStmtClassName();
      json::Array a;
      if (isa<Expr>(S))
        for (auto* C : S->children())
          if (C) a.push_back(E(C));
      o["a"] = std::move(a);
    }
    F->Nodes[id] = std::move(o);
    return id;
  }

  void CollectOmp(const Stmt* S) {
    if (!S) return;
    if (auto* D = dyn_cast<OMPExecutableDirective>(S)) F->Omp.push_back(D);
    if (isa<LambdaExpr>(S)) return;
    if (auto* CS = dyn_cast<CapturedStmt>(S)) return CollectOmp(CS->getCapturedStmt());
    for (auto* C : S->children()) CollectOmp(C);
  }

  void DumpFunction(const FunctionDecl* FD) {
    const FunctionDecl* Def = nullptr;
    if (!FD->hasBody(Def) || !Def) return;
    FD = Def;
    if (FD->isDependentContext()) return;
    if (FD->isTemplated() && !FD->isTemplateInstantiation() && FD->isDependentContext()) return;
    std::string rel;
    if (!InRepo(FD->getLocation(), &rel)) return;
    std::string usr = Usr(FD);
    if (!DoneFn.insert(usr).second) return;
    FnCtx ctx;
    FnCtx* saved = F;
    F = &ctx;
    json::Object o;
    o["id"] = usr;
    o["q"] = QName(FD);
    o["n"] = FD->getNameAsString();
    o["file"] = rel;
    o["line"] = Line(FD->getLocation());
    o["o0"] = Off(FD->getSourceRange().getBegin());
    o["o1"] = Off(FD->getSourceRange().getEnd());
    o["ret"] = Ty(FD->getReturnType());
    if (FD->isImplicit() || FD->isDefaulted()) o["implicit"] = true;
    std::string kind = "func";
    if (auto* M = dyn_cast<CXXMethodDecl>(FD)) {
      kind = isa<CXXConstructorDecl>(M) ? "ctor" : isa<CXXDestructorDecl>(M) ? "dtor" : "method";
      if (M->getParent()->isLambda()) kind = "lambda";
      o["cls"] = RecName(M->getParent());
      o["clst"] = Ty(Ctx.getRecordType(M->getParent()));
      if (M->isConst()) o["const"] = true;
      if (M->isStatic()) o["static"] = true;
      if (M->isVirtual()) o["virt"] = true;
      static const char* acc[] = {"public", "protected", "private", "none"};
      o["access"] = acc[M->getAccess()];
      json::Array ov;
      for (auto* B : M->overridden_methods()) ov.push_back(Usr(B));
      if (!ov.empty()) o["over"] = std::move(ov);
    }
    o["kind"] = kind;
    json::Array ps;
    for (auto* P : FD->parameters()) {
      json::Object p;
      p["d"] = DId(P);
      p["n"] = P->getNameAsString();
      p["t"] = Ty(P->getType());
      if (P->getType()->isReferenceType()) p["isref"] = true;
      ps.push_back(std::move(p));
    }
    o["params"] = std::move(ps);

    CollectOmp(FD->getBody());
    json::Array omps;
    for (auto* D : ctx.Omp) {
      json::Object d;
      d["kind"] = llvm::omp::getOpenMPDirectiveName(D->getDirectiveKind()).str();
      d["o0"] = Off(D->getBeginLoc());
      if (D->hasAssociatedStmt() && D->getRawStmt()) {
        d["b0"] = Off(D->getRawStmt()->getBeginLoc());
        d["b1"] = Off(D->getRawStmt()->getEndLoc());
        const Stmt* B = D->getRawStmt();
        while (auto* CS = dyn_cast<CapturedStmt>(B)) B = CS->getCapturedStmt();
        if (auto* FS = dyn_cast<ForStmt>(B)) {
          if (auto* DS = dyn_cast_or_null<DeclStmt>(FS->getInit()))
            if (auto* VD = dyn_cast<VarDecl>(DS->getSingleDecl())) d["iv"] = DId(VD);
          if (auto* BO = dyn_cast_or_null<BinaryOperator>(FS->getInit()))
            if (auto* DR = dyn_cast<DeclRefExpr>(BO->getLHS()->IgnoreParens()))
              if (auto* VD = dyn_cast<VarDecl>(DR->getDecl())) d["iv"] = DId(VD);
        }
      }
      d["line"] = Line(D->getBeginLoc());
      json::Array cl;
      for (auto* C : D->clauses())
        if (C) {
          json::Object c;
          c["kind"] = llvm::omp::getOpenMPClauseName(C->getClauseKind()).str();
          json::Array vars;
          if (!C->isImplicit())
            for (auto* ch : C->children())
              if (auto* DR = dyn_cast_or_null<DeclRefExpr>(ch))
                if (auto* VD = dyn_cast<VarDecl>(DR->getDecl())) vars.push_back(DId(VD));
          c["vars"] = std::move(vars);
          cl.push_back(std::move(c));
        }
      d["clauses"] = std::move(cl);
      omps.push_back(std::move(d));
    }
    o["omp"] = std::move(omps);
    ctx.Omp.clear();

    CFG::BuildOptions BO;
    BO.AddImplicitDtors = true;
    BO.AddTemporaryDtors = true;
    BO.AddInitializers = true;
    BO.AddCXXDefaultInitExprInCtors = true;
    BO.AddCXXDefaultInitExprInAggregates = false;
    BO.AddEHEdges = false;
    BO.PruneTriviallyFalseEdges = true;
    BO.setAllAlwaysAdd();
    std::unique_ptr<CFG> G = CFG::buildCFG(FD, FD->getBody(), &Ctx, BO);
    if (!G) {
      o["nocfg"] = true;
      Functions.push_back(std::move(o));
      F = saved;
      return;
    }
    json::Array blocks;
    for (CFGBlock* B : *G) {
      json::Object b;
      b["b"] = (int)B->getBlockID();
      json::Array el;
      for (auto& X : *B) {
        json::Object e;
        if (auto S = X.getAs<CFGStmt>()) {
          e["s"] = E(S->getStmt());
        } else if (auto I = X.getAs<CFGInitializer>()) {
          const CXXCtorInitializer* CI = I->getInitializer();
          if (CI->isAnyMemberInitializer()) {
            e["init"] = CI->getAnyMember()->getNameAsString();
            e["q"] = QName(CI->getAnyMember());
          } else if (CI->isBaseInitializer()) {
            e["base"] = Ty(QualType(CI->getBaseClass(), 0));
          } else {
            e["deleg"] = true;
          }
          if (CI->isWritten()) e["w"] = true;
          e["l"] = Line(CI->getSourceLocation());
          e["e"] = E(CI->getInit());
        } else if (auto D = X.getAs<CFGAutomaticObjDtor>()) {
          e["dtor"] = "auto";
          e["d"] = DId(D->getVarDecl());
          e["n"] = D->getVarDecl()->getNameAsString();
          e["t"] = Ty(D->getVarDecl()->getType());
          if (auto* DD = D->getDestructorDecl(Ctx)) e["fn"] = CalleeInfo(DD);
        } else if (auto D = X.getAs<CFGTemporaryDtor>()) {
          e["dtor"] = "temp";
          e["e"] = E(D->getBindTemporaryExpr());
          if (auto* DD = D->getDestructorDecl(Ctx)) e["fn"] = CalleeInfo(DD);
        } else if (auto D = X.getAs<CFGMemberDtor>()) {
          e["dtor"] = "member";
          e["n"] = D->getFieldDecl()->getNameAsString();
          e["t"] = Ty(D->getFieldDecl()->getType());
        } else if (auto D = X.getAs<CFGBaseDtor>()) {
          e["dtor"] = "base";
          e["t"] = Ty(D->getBaseSpecifier()->getType());
        } else if (auto D = X.getAs<CFGDeleteDtor>()) {
          e["dtor"] = "delete";
          e["e"] = E(D->getDeleteExpr());
        } else {
          continue;
        }
        el.push_back(std::move(e));
      }
      b["e"] = std::move(el);
      json::Array su;
      for (auto& A : B->succs()) {
        if (const CFGBlock* T = A.getReachableBlock()) su.push_back((int)T->getBlockID());
        else su.push_back(-1);
      }
      b["s"] = std::move(su);
      if (const Stmt* T = B->getTerminatorStmt()) {
        b["tk"] = T->getStmtClassName();
        b["to"] = Off(T->getBeginLoc());
        b["tl"] = Line(T->getBeginLoc());
        if (B->getTerminator().isTemporaryDtorsBranch()) {
          b["tdb"] = true;
          b["te"] = E(T);
        } else if (const Stmt* C = B->getTerminatorCondition(false)) b["c"] = E(C);
        if (B->getTerminator().isTemporaryDtorsBranch()) {
        } else if (auto* BOp = dyn_cast<BinaryOperator>(T)) { b["c"] = E(BOp->getLHS()); b["lop"] = BOp->getOpcodeStr().str(); b["te"] = E(BOp);}
        else if (auto* CO = dyn_cast<AbstractConditionalOperator>(T)) { b["c"] = E(CO->getCond()); b["te"] = E(CO); }
      }
      if (const Stmt* L = B->getLabel()) {
        if (auto* CS = dyn_cast<CaseStmt>(L)) b["case"] = E(CS->getLHS());
        else if (isa<DefaultStmt>(L)) b["default"] = true;
      }
      if (const Stmt* L = B->getLoopTarget()) b["lt"] = Off(L->getBeginLoc());
      if (B->hasNoReturnElement()) b["noret"] = true;
      blocks.push_back(std::move(b));
    }
    o["blocks"] = std::move(blocks);
    o["entry"] = (int)G->getEntry().getBlockID();
    o["exit"] = (int)G->getExit().getBlockID();
    std::vector<const LambdaExpr*> lams = ctx.Lambdas;
    o["nodes"] = std::move(ctx.Nodes);
    // captured variables of lambdas: map name of captured decl -> USR-free id
    Functions.push_back(std::move(o));
    F = saved;
    for (auto* L : lams) DumpFunction(L->getCallOperator());
  }

  void DumpRecord(const CXXRecordDecl* R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return;
    std::string rel;
    if (!InRepo(R->getLocation(), &rel)) return;
    std::string name = Ctx.getRecordType(R).getCanonicalType().getAsString(PP);
    if (!DoneRec.insert(name).second) return;
    json::Object o;
    o["q"] = RecName(R);
    o["t"] = name;
    o["file"] = rel;
    o["line"] = Line(R->getLocation());
    json::Array fs;
    FnCtx ctx;
    FnCtx* saved = F;
    F = &ctx;
    for (auto* FD : R->fields()) {
      json::Object f;
      f["n"] = FD->getNameAsString();
      f["t"] = Ty(FD->getType());
      f["line"] = Line(FD->getLocation());
      static const char* acc[] = {"public", "protected", "private", "none"};
      f["access"] = acc[FD->getAccess()];
      if (FD->hasInClassInitializer() && FD->getInClassInitializer()) f["e"] = E(FD->getInClassInitializer());
      QualType T = FD->getType();
      if (T->isScalarType()) f["scalar"] = true;
      fs.push_back(std::move(f));
    }
    o["fields"] = std::move(fs);
    o["nodes"] = std::move(ctx.Nodes);
    F = saved;
    json::Array bs;
    for (auto& B : R->bases()) bs.push_back(Ty(B.getType()));
    o["bases"] = std::move(bs);
    json::Array ms;
    for (auto* M : R->methods()) {
      json::Object m;
      m["u"] = Usr(M);
      m["n"] = M->getNameAsString();
      m["virt"] = M->isVirtual();
      m["pure"] = M->isPureVirtual();
      m["deleted"] = M->isDeleted();
      m["const"] = M->isConst();
      static const char* acc[] = {"public", "protected", "private", "none"};
      m["access"] = acc[M->getAccess()];
      json::Array ov;
      for (auto* B : M->overridden_methods()) ov.push_back(Usr(B));
      m["over"] = std::move(ov);
      ms.push_back(std::move(m));
    }
    o["methods"] = std::move(ms);
    if (R->hasTrivialDefaultConstructor()) o["trivctor"] = true;
    Records.push_back(std::move(o));
  }

  void DumpGlobal(const VarDecl* VD) {
    std::string rel;
    if (!VD->hasGlobalStorage() || VD->isStaticLocal() || VD->getDeclContext()->isDependentContext()) return;
    if (!InRepo(VD->getLocation(), &rel)) return;
    const VarDecl* Def = VD->getDefinition();
    if (!Def) return;
    VD = Def;
    if (!InRepo(VD->getLocation(), &rel)) return;
    std::string q = QName(VD);
    if (!DoneVar.insert(q).second) return;
    json::Object o;
    o["q"] = q;
    o["file"] = rel;
    o["line"] = Line(VD->getLocation());
    o["t"] = Ty(VD->getType());
    FnCtx ctx;
    FnCtx* saved = F;
    F = &ctx;
    if (VD->getInit()) o["e"] = E(VD->getInit());
    o["nodes"] = std::move(ctx.Nodes);
    std::vector<const LambdaExpr*> lams = ctx.Lambdas;
    F = saved;
    Globals.push_back(std::move(o));
    for (auto* L : lams) DumpFunction(L->getCallOperator());
  }

  void DumpEnum(const EnumDecl* D) {
    if (!D->isThisDeclarationADefinition() || D->isDependentContext()) return;
    std::string rel;
    if (!InRepo(D->getLocation(), &rel)) return;
    std::string q = QName(D);
    if (!DoneEnum.insert(q).second) return;
    json::Object o;
    o["q"] = q;
    o["file"] = rel;
    o["line"] = Line(D->getLocation());
    json::Array a;
    for (auto* C : D->enumerators()) {
      llvm::SmallString<16> s;
      C->getInitVal().toString(s, 10);
      a.push_back(json::Array{C->getNameAsString(), s.str().str(), QName(C)});
    }
    o["vals"] = std::move(a);
    Enums.push_back(std::move(o));
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
 public:
  explicit Visitor(Dumper& d) : D(d) {}
  Dumper& D;
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool TraverseDecl(Decl* X) {
    if (!X) return true;
    // do not descend into declarations that lie outside the repository
    if (!isa<TranslationUnitDecl>(X) && !isa<NamespaceDecl>(X) && !isa<LinkageSpecDecl>(X)) {
      SourceLocation L = X->getLocation();
      if (L.isValid() && !D.InRepo(L)) return true;
    }
    return RecursiveASTVisitor<Visitor>::TraverseDecl(X);
  }
  bool VisitFunctionDecl(FunctionDecl* FD) {
    if (FD->doesThisDeclarationHaveABody() || FD->isDefaulted()) D.DumpFunction(FD);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* R) {
    D.DumpRecord(R);
    return true;
  }
  bool VisitVarDecl(VarDecl* V) {
    D.DumpGlobal(V);
    return true;
  }
  bool VisitEnumDecl(EnumDecl* E) {
    D.DumpEnum(E);
    return true;
  }
};

int Errors = 0;

class Consumer : public ASTConsumer {
 public:
  Consumer(CompilerInstance& CI) : CI(CI) {}
  CompilerInstance& CI;
  void HandleTranslationUnit(ASTContext& Ctx) override {
    Dumper D(Ctx);
    Visitor V(D);
    V.TraverseDecl(Ctx.getTranslationUnitDecl());
    json::Object o;
    o["functions"] = std::move(D.Functions);
    o["records"] = std::move(D.Records);
    o["globals"] = std::move(D.Globals);
    o["enums"] = std::move(D.Enums);
    json::Array dn;
    for (auto* X : D.DeclList) {
      std::string n;
      int t = -1;
      if (auto* ND = dyn_cast<NamedDecl>(X)) n = ND->getNameAsString();
      if (auto* VD = dyn_cast<ValueDecl>(X)) t = D.Ty(VD->getType());
      dn.push_back(json::Array{n, t});
    }
    o["decls"] = std::move(dn);
    json::Array ty;
    for (auto& t : D.Types) ty.push_back(t);
    o["types"] = std::move(ty);
    json::Array deps;
    auto& SM = Ctx.getSourceManager();
    for (auto it = SM.fileinfo_begin(); it != SM.fileinfo_end(); ++it) {
      std::string p = it->first.getName().str();
      llvm::SmallString<256> abs(p);
      llvm::sys::path::remove_dots(abs, true);
      p = abs.str().str();
      if (p.compare(0, RepoRoot.size(), RepoRoot) == 0) deps.push_back(p);
    }
    o["deps"] = std::move(deps);
    o["errors"] = (int)CI.getDiagnostics().getClient()->getNumErrors();
    std::error_code EC;
    llvm::raw_fd_ostream os(OutFile, EC);
    os << json::Value(std::move(o));
  }
};

class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, StringRef) override {
    return std::make_unique<Consumer>(CI);
  }
};

// File system view in which `x.template name(` (accepted by g++ for
// non-template members) reads `x.         name(`; offsets are unchanged.
class NormFS : public llvm::vfs::ProxyFileSystem {
 public:
  NormFS(llvm::IntrusiveRefCntPtr<llvm::vfs::FileSystem> fs) : ProxyFileSystem(std::move(fs)) {}
  class NormFile : public llvm::vfs::File {
   public:
    NormFile(std::unique_ptr<llvm::vfs::File> f) : Inner(std::move(f)) {}
    std::unique_ptr<llvm::vfs::File> Inner;
    llvm::ErrorOr<llvm::vfs::Status> status() override { return Inner->status(); }
    llvm::ErrorOr<std::string> getName() override { return Inner->getName(); }
    llvm::ErrorOr<std::unique_ptr<llvm::MemoryBuffer>> getBuffer(const llvm::Twine& Name, int64_t FileSize, bool RNT,
                                                                 bool IsVolatile) override {
      auto B = Inner->getBuffer(Name, FileSize, RNT, IsVolatile);
      if (!B) return B;
      std::string s = (*B)->getBuffer().str();
      static const std::regex re("(\\.|->)(template)(\\s+[A-Za-z_]\\w*\\s*\\()");
      std::string out;
      auto b = std::sregex_iterator(s.begin(), s.end(), re), e = std::sregex_iterator();
      size_t pos = 0;
      for (; b != e; ++b) {
        out += s.substr(pos, b->position(2) - pos);
        out += std::string(8, ' ');
        pos = b->position(2) + 8;
      }
      out += s.substr(pos);
      return llvm::MemoryBuffer::getMemBufferCopy(out, (*B)->getBufferIdentifier());
    }
    std::error_code close() override { return Inner->close(); }
  };
  llvm::ErrorOr<std::unique_ptr<llvm::vfs::File>> openFileForRead(const llvm::Twine& Path) override {
    auto Fl = ProxyFileSystem::openFileForRead(Path);
    if (!Fl) return Fl;
    std::string p = Path.str();
    if (p.compare(0, RepoRoot.size(), RepoRoot) != 0) return Fl;
    return std::unique_ptr<llvm::vfs::File>(new NormFile(std::move(*Fl)));
  }
};

}  // namespace

int main(int argc, char** argv) {
  // extract <repo-root> <out.json> <source> -- <flags...>
  if (argc < 5) {
    llvm::errs() << "usage: extract repo out source -- flags\n";
    return 2;
  }
  RepoRoot = argv[1];
  OutFile = argv[2];
  std::string src = argv[3];
  std::vector<std::string> args = {"clang++", "-fsyntax-only"};
  for (int i = 5; i < argc; ++i) args.push_back(argv[i]);
  args.push_back(src);
  llvm::IntrusiveRefCntPtr<llvm::vfs::FileSystem> fs(new NormFS(llvm::vfs::getRealFileSystem()));
  llvm::IntrusiveRefCntPtr<FileManager> FM(new FileManager(FileSystemOptions(), fs));
  tooling::ToolInvocation inv(args, std::make_unique<Action>(), FM.get());
  bool ok = inv.run();
  return ok ? 0 : 1;
}
