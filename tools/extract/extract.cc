// cxx2json: dumps the bodies of the functions of a translation unit, as clang
// sees them after semantic analysis, in a compact JSON form.
//   extract ROOT[,ROOT...] [--inline REGEX] file -- compiler args
// Every function definition whose spelling location lies below a ROOT is
// dumped, plus every template instantiation of such a function, plus every
// function from elsewhere whose qualified name matches REGEX and whose body is
// visible (used for clang's own inline classification predicates).
#include <map>
#include <set>
#include <string>
#include <vector>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/Expr.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots;
static std::string InlineRegex;
static std::string OutFile;

namespace {
class Dumper {
 public:
  explicit Dumper(ASTContext &C)
      : Ctx(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
    PP.SuppressUnwrittenScope = false;
    PP.PrintCanonicalTypes = true;
  }

  ASTContext &Ctx;
  SourceManager &SM;
  PrintingPolicy PP;
  json::Array Functions, Records, Enums, Globals;
  std::set<std::string> DoneKeys;
  std::set<const Decl *> DoneRecs;
  std::vector<const FunctionDecl *> Work;
  std::map<const Decl *, int> Ids;

  int id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto It = Ids.find(D);
    if (It != Ids.end()) return It->second;
    int N = static_cast<int>(Ids.size());
    Ids[D] = N;
    return N;
  }
  std::string ty(QualType T) {
    if (T.isNull()) return "";
    return T.getCanonicalType().getAsString(PP);
  }
  std::string file(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return "";
    PresumedLoc P = SM.getPresumedLoc(L, false);
    return P.isValid() ? P.getFilename() : "";
  }
  int line(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return 0;
    return static_cast<int>(SM.getExpansionLineNumber(L));
  }
  bool inRoot(const Decl *D) {
    std::string F = file(D->getLocation());
    for (const auto &R : Roots)
      if (llvm::StringRef(F).startswith(R)) return true;
    return false;
  }
  bool wantInline(const FunctionDecl *F) {
    if (InlineRegex.empty()) return false;
    return llvm::Regex(InlineRegex).match(F->getQualifiedNameAsString());
  }

  std::string atomicOp(AtomicExpr::AtomicOp Op) {
    switch (Op) {
#define BUILTIN(ID, TYPE, ATTRS)
#define ATOMIC_BUILTIN(ID, TYPE, ATTRS) \
  case AtomicExpr::AO##ID: return #ID;
#include "clang/Basic/Builtins.def"
      default: return "?";
    }
  }
  void targ(json::Array &A, const TemplateArgument &T) {
    if (T.getKind() == TemplateArgument::Type)
      A.push_back(ty(T.getAsType()));
    else if (T.getKind() == TemplateArgument::Integral) {
      llvm::SmallString<32> S;
      T.getAsIntegral().toString(S, 10);
      A.push_back(std::string(S));
    } else if (T.getKind() == TemplateArgument::Pack)
      for (const auto &U : T.pack_elements()) targ(A, U);
    else
      A.push_back("?");
  }
  json::Array targs(const FunctionDecl *F) {
    json::Array A;
    if (const auto *L = F->getTemplateSpecializationArgs())
      for (const auto &T : L->asArray()) targ(A, T);
    return A;
  }
  std::string key(const FunctionDecl *F) {
    std::string S = F->getQualifiedNameAsString();
    json::Array T = targs(F);
    if (!T.empty()) {
      S += "<";
      for (auto &X : T) S += X.getAsString()->str() + ",";
      S += ">";
    }
    S += "(";
    bool First = true;
    for (const auto *P : F->parameters()) {
      if (!First) S += ", ";
      First = false;
      S += ty(P->getType());
    }
    S += ")";
    if (const auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isConst()) S += " const";
      if (M->getParent()->isLambda()) S += "#" + std::to_string(id(M));
    }
    if (const auto *CS = dyn_cast<ClassTemplateSpecializationDecl>(
            F->getDeclContext()))
      S += "@" + ty(Ctx.getRecordType(CS));
    return S;
  }
  json::Object callee(const FunctionDecl *F) {
    json::Object O;
    O["q"] = F->getQualifiedNameAsString();
    O["n"] = F->getNameAsString();
    O["key"] = key(F);
    O["targs"] = targs(F);
    O["rt"] = ty(F->getReturnType());
    json::Array P;
    for (const auto *X : F->parameters()) P.push_back(ty(X->getType()));
    O["pt"] = std::move(P);
    const FunctionDecl *Def = nullptr;
    bool Body = F->hasBody(Def) && Def;
    bool Repo = inRoot(F) || (Def && inRoot(Def));
    O["repo"] = Repo;
    if (const auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = ty(Ctx.getRecordType(M->getParent()));
      O["const"] = M->isConst();
      O["static"] = M->isStatic();
      O["virtual"] = M->isVirtual();
      if (M->getParent()->isLambda()) O["lambda"] = true;
      if (const auto *CD = dyn_cast<CXXConstructorDecl>(M)) {
        O["copy"] = CD->isCopyConstructor();
        O["move"] = CD->isMoveConstructor();
      }
    }
    bool Inl = !Repo && Body && wantInline(F);
    O["inl"] = Inl;
    if ((Repo || Inl) && Body) Work.push_back(Def);
    return O;
  }

  json::Value var(const VarDecl *V) {
    json::Object O;
    O["id"] = id(V);
    O["name"] = V->getNameAsString();
    O["t"] = ty(V->getType());
    O["static"] = V->isStaticLocal();
    O["tls"] = V->getTLSKind() != clang::VarDecl::TLS_None;
    O["param"] = isa<ParmVarDecl>(V);
    if (const auto *DD = dyn_cast<DecompositionDecl>(V)) {
      json::Array B;
      for (const auto *X : DD->bindings()) {
        json::Object BO;
        BO["id"] = id(X);
        BO["name"] = X->getNameAsString();
        B.push_back(std::move(BO));
      }
      O["bindings"] = std::move(B);
    }
    if (V->getInit() && !isa<ParmVarDecl>(V)) O["init"] = expr(V->getInit());
    return O;
  }

  json::Value ref(const ValueDecl *D) {
    json::Object O;
    O["name"] = D->getNameAsString();
    O["q"] = D->getQualifiedNameAsString();
    if (const auto *E = dyn_cast<EnumConstantDecl>(D)) {
      O["dk"] = "enum";
      llvm::SmallString<32> S;
      E->getInitVal().toString(S, 10);
      O["v"] = std::string(S);
    } else if (const auto *F = dyn_cast<FunctionDecl>(D)) {
      O["dk"] = "func";
      O["callee"] = callee(F);
    } else if (const auto *V = dyn_cast<VarDecl>(D)) {
      O["dk"] = V->isLocalVarDeclOrParm() ? "local" : "global";
      O["id"] = id(V);
      O["vt"] = ty(V->getType());
      if (!V->isLocalVarDeclOrParm() || V->isStaticLocal()) addGlobal(V);
    } else if (isa<BindingDecl>(D)) {
      O["dk"] = "binding";
      O["id"] = id(D);
    } else {
      O["dk"] = "other";
    }
    return O;
  }
  std::set<const Decl *> DoneGlobals;
  void addGlobal(const VarDecl *V) {
    if (V->isStaticLocal()) return;
    if (!DoneGlobals.insert(V->getCanonicalDecl()).second) return;
    const VarDecl *Def = V->getDefinition();
    if (!Def) Def = V;
    if (!inRoot(Def)) return;
    Globals.push_back(var(Def));
  }

  void addRecord(const CXXRecordDecl *R) {
    if (!R) return;
    R = R->getDefinition();
    if (!R || !inRoot(R) || !DoneRecs.insert(R->getCanonicalDecl()).second)
      return;
    if (R->isDependentType()) return;
    json::Object O;
    O["q"] = R->getQualifiedNameAsString();
    O["t"] = ty(Ctx.getRecordType(R));
    json::Array F;
    for (const auto *X : R->fields()) {
      json::Object FO;
      FO["name"] = X->getNameAsString();
      FO["t"] = ty(X->getType());
      if (X->getInClassInitializer())
        FO["init"] = expr(X->getInClassInitializer());
      F.push_back(std::move(FO));
    }
    O["fields"] = std::move(F);
    json::Array B;
    for (const auto &X : R->bases()) B.push_back(ty(X.getType()));
    O["bases"] = std::move(B);
    Records.push_back(std::move(O));
  }

  json::Array exprs(llvm::iterator_range<Expr *const *> R) {
    json::Array A;
    for (const Expr *E : R) A.push_back(expr(E));
    return A;
  }

  json::Object node(const char *K, const Stmt *S) {
    json::Object O;
    O["k"] = K;
    O["l"] = line(S->getBeginLoc());
    if (const auto *E = dyn_cast<Expr>(S)) O["t"] = ty(E->getType());
    return O;
  }

  json::Value expr(const Expr *E) {
    if (!E) return nullptr;
    if (const auto *X = dyn_cast<ParenExpr>(E)) return expr(X->getSubExpr());
    if (const auto *X = dyn_cast<FullExpr>(E)) return expr(X->getSubExpr());
    if (const auto *X = dyn_cast<MaterializeTemporaryExpr>(E))
      return expr(X->getSubExpr());
    if (const auto *X = dyn_cast<CXXBindTemporaryExpr>(E))
      return expr(X->getSubExpr());
    if (const auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E))
      return expr(X->getReplacement());
    if (const auto *X = dyn_cast<CXXDefaultArgExpr>(E)) {
      json::Object O = node("DefaultArg", E);
      O["e"] = expr(X->getExpr());
      return O;
    }
    if (const auto *X = dyn_cast<CXXDefaultInitExpr>(E))
      return expr(X->getExpr());
    if (const auto *X = dyn_cast<CXXStdInitializerListExpr>(E))
      return expr(X->getSubExpr());
    if (const auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E))
      return expr(X->getSemanticForm());
    if (const auto *X = dyn_cast<ImplicitCastExpr>(E)) {
      switch (X->getCastKind()) {
        case CK_LValueToRValue: {
          json::Object O = node("Load", E);
          O["e"] = expr(X->getSubExpr());
          return O;
        }
        case CK_NoOp:
        case CK_ArrayToPointerDecay:
        case CK_FunctionToPointerDecay:
        case CK_BuiltinFnToFnPtr:
        case CK_ConstructorConversion:
        case CK_UserDefinedConversion:
          return expr(X->getSubExpr());
        default: {
          json::Object O = node("Cast", E);
          O["ck"] = X->getCastKindName();
          O["ft"] = ty(X->getSubExpr()->getType());
          O["e"] = expr(X->getSubExpr());
          return O;
        }
      }
    }
    if (const auto *X = dyn_cast<ExplicitCastExpr>(E)) {
      switch (X->getCastKind()) {
        case CK_NoOp:
        case CK_ConstructorConversion:
        case CK_UserDefinedConversion:
          return expr(X->getSubExpr());
        default: {
          json::Object O = node("Cast", E);
          O["ck"] = X->getCastKindName();
          O["ft"] = ty(X->getSubExpr()->getType());
          O["e"] = expr(X->getSubExpr());
          O["explicit"] = true;
          return O;
        }
      }
    }
    if (const auto *X = dyn_cast<IntegerLiteral>(E)) {
      json::Object O = node("Int", E);
      llvm::SmallString<32> S;
      X->getValue().toString(S, 10, E->getType()->isSignedIntegerType());
      O["v"] = std::string(S);
      return O;
    }
    if (const auto *X = dyn_cast<CharacterLiteral>(E)) {
      json::Object O = node("Char", E);
      O["v"] = static_cast<int64_t>(X->getValue());
      return O;
    }
    if (const auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) {
      json::Object O = node("Bool", E);
      O["v"] = X->getValue();
      return O;
    }
    if (const auto *X = dyn_cast<FloatingLiteral>(E)) {
      json::Object O = node("Float", E);
      O["v"] = X->getValueAsApproximateDouble();
      return O;
    }
    if (const auto *X = dyn_cast<StringLiteral>(E)) {
      json::Object O = node("Str", E);
      O["v"] = json::fixUTF8(X->getBytes());
      return O;
    }
    if (isa<PredefinedExpr>(E)) {
      json::Object O = node("Str", E);
      O["v"] = "";
      return O;
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E))
      return node("Null", E);
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E))
      return node("ZeroInit", E);
    if (isa<CXXThisExpr>(E)) return node("This", E);
    if (const auto *X = dyn_cast<DeclRefExpr>(E)) {
      json::Object O = node("Ref", E);
      O["d"] = ref(X->getDecl());
      return O;
    }
    if (const auto *X = dyn_cast<MemberExpr>(E)) {
      json::Object O = node("Member", E);
      O["base"] = expr(X->getBase());
      O["arrow"] = X->isArrow();
      O["name"] = X->getMemberDecl()->getNameAsString();
      if (const auto *F = dyn_cast<FunctionDecl>(X->getMemberDecl()))
        O["callee"] = callee(F);
      else if (const auto *V = dyn_cast<VarDecl>(X->getMemberDecl()))
        O["d"] = ref(V);
      return O;
    }
    if (const auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      json::Object O = node("OpCall", E);
      O["op"] = getOperatorSpelling(X->getOperator());
      if (const auto *F = X->getDirectCallee()) O["callee"] = callee(F);
      json::Array A;
      for (const Expr *Y : X->arguments()) A.push_back(expr(Y));
      O["args"] = std::move(A);
      return O;
    }
    if (const auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      json::Object O = node("MCall", E);
      if (const auto *F = X->getMethodDecl()) O["callee"] = callee(F);
      O["obj"] = expr(X->getImplicitObjectArgument());
      bool Arrow = false, Qualified = false;
      if (const auto *ME = dyn_cast<MemberExpr>(
              X->getCallee()->IgnoreParenImpCasts())) {
        Arrow = ME->isArrow();
        Qualified = ME->hasQualifier();
      }
      O["arrow"] = Arrow;
      O["nonvirtual"] = Qualified;
      json::Array A;
      for (const Expr *Y : X->arguments()) A.push_back(expr(Y));
      O["args"] = std::move(A);
      return O;
    }
    if (const auto *X = dyn_cast<CallExpr>(E)) {
      json::Object O = node("Call", E);
      if (const auto *F = X->getDirectCallee())
        O["callee"] = callee(F);
      else
        O["fn"] = expr(X->getCallee());
      json::Array A;
      for (const Expr *Y : X->arguments()) A.push_back(expr(Y));
      O["args"] = std::move(A);
      return O;
    }
    if (const auto *X = dyn_cast<CXXConstructExpr>(E)) {
      json::Object O = node("Construct", E);
      O["callee"] = callee(X->getConstructor());
      addRecord(X->getConstructor()->getParent());
      O["list"] = X->isListInitialization();
      json::Array A;
      for (const Expr *Y : X->arguments()) A.push_back(expr(Y));
      O["args"] = std::move(A);
      return O;
    }
    if (const auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      (void)X;
      return node("Unsupported", E);
    }
    if (const auto *X = dyn_cast<InitListExpr>(E)) {
      if (X->isTransparent()) return expr(X->getInit(0));
      json::Object O = node("InitList", E);
      json::Array A;
      for (const Expr *Y : X->inits()) A.push_back(expr(Y));
      O["args"] = std::move(A);
      return O;
    }
    if (const auto *X = dyn_cast<LambdaExpr>(E)) {
      json::Object O = node("Lambda", E);
      const CXXMethodDecl *M = X->getCallOperator();
      O["id"] = id(M);
      json::Array P;
      for (const auto *V : M->parameters()) P.push_back(var(V));
      O["params"] = std::move(P);
      json::Array C;
      unsigned I = 0;
      for (const auto &Cap : X->captures()) {
        json::Object CO;
        if (Cap.capturesVariable()) {
          CO["id"] = id(Cap.getCapturedVar());
          CO["byref"] = Cap.getCaptureKind() == LCK_ByRef;
          if (X->isInitCapture(&Cap))
            CO["init"] = expr(cast<VarDecl>(Cap.getCapturedVar())->getInit());
        } else if (Cap.capturesThis()) {
          CO["this"] = true;
        }
        C.push_back(std::move(CO));
        ++I;
      }
      O["captures"] = std::move(C);
      O["generic"] = X->isGenericLambda();
      O["rt"] = ty(M->getReturnType());
      if (!X->isGenericLambda()) O["body"] = stmt(X->getBody());
      return O;
    }
    if (const auto *X = dyn_cast<UnaryOperator>(E)) {
      json::Object O = node("Un", E);
      O["op"] = UnaryOperator::getOpcodeStr(X->getOpcode());
      O["post"] = X->isPostfix();
      O["e"] = expr(X->getSubExpr());
      return O;
    }
    if (const auto *X = dyn_cast<CompoundAssignOperator>(E)) {
      json::Object O = node("Bin", E);
      O["op"] = X->getOpcodeStr();
      O["a"] = expr(X->getLHS());
      O["b"] = expr(X->getRHS());
      O["ct"] = ty(X->getComputationResultType());
      return O;
    }
    if (const auto *X = dyn_cast<BinaryOperator>(E)) {
      json::Object O = node("Bin", E);
      O["op"] = X->getOpcodeStr();
      O["a"] = expr(X->getLHS());
      O["b"] = expr(X->getRHS());
      O["at"] = ty(X->getLHS()->getType());
      return O;
    }
    if (const auto *X = dyn_cast<ConditionalOperator>(E)) {
      json::Object O = node("Cond", E);
      O["c"] = expr(X->getCond());
      O["a"] = expr(X->getTrueExpr());
      O["b"] = expr(X->getFalseExpr());
      return O;
    }
    if (const auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      json::Object O = node("Index", E);
      O["a"] = expr(X->getBase());
      O["b"] = expr(X->getIdx());
      return O;
    }
    if (const auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      Expr::EvalResult R;
      if (!X->isValueDependent() && X->EvaluateAsInt(R, Ctx)) {
        json::Object O = node("Int", E);
        llvm::SmallString<32> S;
        R.Val.getInt().toString(S, 10);
        O["v"] = std::string(S);
        return O;
      }
    }
    if (const auto *X = dyn_cast<CXXNewExpr>(E)) {
      json::Object O = node("New", E);
      O["at"] = ty(X->getAllocatedType());
      O["e"] = X->getInitializer() ? expr(X->getInitializer())
                                   : json::Value(nullptr);
      return O;
    }
    if (const auto *X = dyn_cast<AtomicExpr>(E)) {
      json::Object O = node("Atomic", E);
      O["op"] = atomicOp(X->getOp());
      json::Array A;
      for (unsigned I = 0; I < X->getNumSubExprs(); I++)
        A.push_back(expr(const_cast<AtomicExpr *>(X)->getSubExprs()[I]));
      O["args"] = std::move(A);
      return O;
    }
    if (const auto *X = dyn_cast<CXXDeleteExpr>(E)) {
      json::Object O = node("Delete", E);
      O["e"] = expr(X->getArgument());
      return O;
    }
    if (const auto *X = dyn_cast<CXXThrowExpr>(E)) {
      json::Object O = node("Throw", E);
      (void)X;
      return O;
    }
    if (const auto *X = dyn_cast<OpaqueValueExpr>(E))
      if (X->getSourceExpr()) return expr(X->getSourceExpr());
    json::Object O = node("Unsupported", E);
    O["cls"] = E->getStmtClassName();
    return O;
  }

  json::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (const auto *X = dyn_cast<CompoundStmt>(S)) {
      json::Object O = node("Block", S);
      json::Array A;
      for (const Stmt *Y : X->body()) A.push_back(stmt(Y));
      O["s"] = std::move(A);
      return O;
    }
    if (const auto *X = dyn_cast<DeclStmt>(S)) {
      json::Object O = node("Decl", S);
      json::Array A;
      for (const Decl *D : X->decls()) {
        if (const auto *V = dyn_cast<VarDecl>(D)) A.push_back(var(V));
        if (const auto *R = dyn_cast<CXXRecordDecl>(D)) addRecord(R);
      }
      O["vars"] = std::move(A);
      return O;
    }
    if (const auto *X = dyn_cast<IfStmt>(S)) {
      json::Object O = node("If", S);
      if (X->getInit()) O["init"] = stmt(X->getInit());
      if (X->getConditionVariable())
        O["var"] = var(X->getConditionVariable());
      O["c"] = expr(X->getCond());
      O["a"] = stmt(X->getThen());
      O["b"] = stmt(X->getElse());
      return O;
    }
    if (const auto *X = dyn_cast<WhileStmt>(S)) {
      json::Object O = node("While", S);
      if (X->getConditionVariable())
        O["var"] = var(X->getConditionVariable());
      O["c"] = expr(X->getCond());
      O["a"] = stmt(X->getBody());
      return O;
    }
    if (const auto *X = dyn_cast<DoStmt>(S)) {
      json::Object O = node("Do", S);
      O["c"] = expr(X->getCond());
      O["a"] = stmt(X->getBody());
      return O;
    }
    if (const auto *X = dyn_cast<ForStmt>(S)) {
      json::Object O = node("For", S);
      O["init"] = stmt(X->getInit());
      O["c"] = expr(X->getCond());
      O["inc"] = expr(X->getInc());
      O["a"] = stmt(X->getBody());
      return O;
    }
    if (const auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      json::Object O = node("ForRange", S);
      O["range"] = expr(X->getRangeInit());
      O["var"] = var(X->getLoopVariable());
      O["a"] = stmt(X->getBody());
      return O;
    }
    if (const auto *X = dyn_cast<SwitchStmt>(S)) {
      json::Object O = node("Switch", S);
      if (X->getInit()) O["init"] = stmt(X->getInit());
      if (X->getConditionVariable())
        O["var"] = var(X->getConditionVariable());
      O["c"] = expr(X->getCond());
      O["a"] = stmt(X->getBody());
      return O;
    }
    if (const auto *X = dyn_cast<CaseStmt>(S)) {
      json::Object O = node("Case", S);
      O["c"] = expr(X->getLHS());
      O["a"] = stmt(X->getSubStmt());
      return O;
    }
    if (const auto *X = dyn_cast<DefaultStmt>(S)) {
      json::Object O = node("Default", S);
      O["a"] = stmt(X->getSubStmt());
      return O;
    }
    if (isa<BreakStmt>(S)) return node("Break", S);
    if (isa<ContinueStmt>(S)) return node("Continue", S);
    if (isa<NullStmt>(S)) return node("Nop", S);
    if (const auto *X = dyn_cast<ReturnStmt>(S)) {
      json::Object O = node("Return", S);
      O["e"] = expr(X->getRetValue());
      return O;
    }
    if (const auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    if (const auto *X = dyn_cast<CXXTryStmt>(S)) return stmt(X->getTryBlock());
    if (const auto *X = dyn_cast<Expr>(S)) {
      json::Object O;
      O["k"] = "Expr";
      O["l"] = line(S->getBeginLoc());
      O["e"] = expr(X);
      return O;
    }
    json::Object O = node("UnsupportedStmt", S);
    O["cls"] = S->getStmtClassName();
    return O;
  }

  void function(const FunctionDecl *F) {
    if (F->isDependentContext()) return;
    const FunctionDecl *Def = nullptr;
    if (!F->hasBody(Def) || !Def) return;
    F = Def;
    std::string K = key(F);
    if (!DoneKeys.insert(K).second) return;
    json::Object O;
    O["key"] = K;
    O["q"] = F->getQualifiedNameAsString();
    O["n"] = F->getNameAsString();
    O["rt"] = ty(F->getReturnType());
    O["file"] = file(F->getLocation());
    O["l"] = line(F->getLocation());
    O["el"] = line(F->getEndLoc());
    O["repo"] = inRoot(F);
    O["targs"] = targs(F);
    json::Array P;
    for (const auto *V : F->parameters()) P.push_back(var(V));
    O["params"] = std::move(P);
    if (const auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = ty(Ctx.getRecordType(M->getParent()));
      O["static"] = M->isStatic();
      O["const"] = M->isConst();
      O["implicit"] = M->isImplicit() || M->isDefaulted();
      addRecord(M->getParent());
      json::Array Ov;
      for (const auto *X : M->overridden_methods()) Ov.push_back(key(X));
      O["overrides"] = std::move(Ov);
    }
    if (const auto *C = dyn_cast<CXXConstructorDecl>(F)) {
      O["ctor"] = true;
      json::Array I;
      for (const auto *X : C->inits()) {
        json::Object IO;
        if (X->isMemberInitializer())
          IO["field"] = X->getMember()->getNameAsString();
        else if (X->isBaseInitializer())
          IO["base"] = ty(QualType(X->getBaseClass(), 0));
        else if (X->isDelegatingInitializer())
          IO["delegating"] = true;
        IO["e"] = expr(X->getInit());
        I.push_back(std::move(IO));
      }
      O["inits"] = std::move(I);
    }
    if (isa<CXXDestructorDecl>(F)) O["dtor"] = true;
    O["body"] = stmt(F->getBody());
    Functions.push_back(std::move(O));
  }

  void enumDecl(const EnumDecl *D) {
    json::Object O;
    O["q"] = D->getQualifiedNameAsString();
    json::Array A;
    for (const auto *E : D->enumerators()) {
      llvm::SmallString<32> S;
      E->getInitVal().toString(S, 10);
      A.push_back(json::Array{E->getNameAsString(), std::string(S)});
    }
    O["vals"] = std::move(A);
    Enums.push_back(std::move(O));
  }
};

class V : public RecursiveASTVisitor<V> {
 public:
  explicit V(Dumper &Dm) : D(Dm) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->isThisDeclarationADefinition() || !D.inRoot(F)) return true;
    if (const auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda()) return true;
    D.function(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (R->isThisDeclarationADefinition() && !R->isLambda()) D.addRecord(R);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    std::string Q = E->getQualifiedNameAsString();
    if (E->isThisDeclarationADefinition() &&
        (D.inRoot(E) || llvm::StringRef(Q).startswith("dredd::") ||
         llvm::StringRef(Q).startswith("clang::BinaryOperatorKind") ||
         llvm::StringRef(Q).startswith("clang::UnaryOperatorKind") ||
         Q == "clang::BuiltinType::Kind"))
      D.enumDecl(E);
    return true;
  }
  Dumper &D;
};

class Consumer : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Dumper D(C);
    V Vis(D);
    Vis.TraverseDecl(C.getTranslationUnitDecl());
    while (!D.Work.empty()) {
      const FunctionDecl *F = D.Work.back();
      D.Work.pop_back();
      D.function(F);
    }
    json::Object Top;
    Top["functions"] = std::move(D.Functions);
    Top["records"] = std::move(D.Records);
    Top["enums"] = std::move(D.Enums);
    Top["globals"] = std::move(D.Globals);
    json::Object Ops;
    json::Array B, U;
    for (int I = 0; I <= BO_Comma; ++I) {
      auto K = static_cast<BinaryOperatorKind>(I);
      B.push_back(BinaryOperator::getOpcodeStr(K));
    }
    for (int I = 0; I <= UO_Coawait; ++I) {
      auto K = static_cast<UnaryOperatorKind>(I);
      U.push_back(UnaryOperator::getOpcodeStr(K));
    }
    Ops["binary"] = std::move(B);
    Ops["unary"] = std::move(U);
    Top["opcode_str"] = std::move(Ops);
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutFile, EC);
    OS << json::Value(std::move(Top));
  }
};
class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &,
                                                 StringRef) override {
    return std::make_unique<Consumer>();
  }
};
}  // namespace

int main(int argc, const char **argv) {
  std::string Err;
  auto DB = tooling::FixedCompilationDatabase::loadFromCommandLine(argc, argv,
                                                                   Err);
  if (!DB || argc < 5) {
    llvm::errs() << "usage: extract ROOTS REGEX OUT FILE -- args\n" << Err;
    return 2;
  }
  llvm::SmallVector<llvm::StringRef, 4> Parts;
  llvm::StringRef(argv[1]).split(Parts, ',');
  for (auto P : Parts) Roots.push_back(P.str());
  InlineRegex = argv[2];
  OutFile = argv[3];
  tooling::ClangTool Tool(*DB, {std::string(argv[4])});
  return Tool.run(tooling::newFrontendActionFactory<Action>().get());
}
