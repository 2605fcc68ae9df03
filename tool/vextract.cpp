// vextract: dump the resolved program (classes, variables, function bodies with
// resolved callees) of one translation unit as JSON.  Used by every check.
//   vextract OUT.json FILE ROOT[,ROOT...] -- compiler args
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;
using json::Array;
using json::Object;
using json::Value;

static std::vector<std::string> Roots;
static std::string OutFile;
static int Errors = 0;

static std::string usrOf(const Decl *D) {
  llvm::SmallString<256> B;
  if (!D || index::generateUSRForDecl(D, B))
    return "";
  return std::string(B.str());
}

class Dumper {
public:
  ASTContext &Ctx;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<const Decl *, int> LocalIds;
  int NextId = 1;

  explicit Dumper(ASTContext &C)
      : Ctx(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
    PP.SuppressUnwrittenScope = true;
    PP.TerseOutput = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.AnonymousTagLocations = false;
  }

  int line(SourceLocation L) {
    if (L.isInvalid())
      return 0;
    return (int)SM.getExpansionLineNumber(L);
  }
  std::string file(SourceLocation L) {
    if (L.isInvalid())
      return "";
    auto F = SM.getFilename(SM.getExpansionLoc(L));
    llvm::SmallString<256> RP(F);
    if (!RP.empty() && RP[0] != '/') {
      SM.getFileManager().makeAbsolutePath(RP);
    }
    return std::string(RP.str());
  }
  bool inRoots(SourceLocation L) {
    std::string F = file(L);
    for (auto &R : Roots)
      if (F.compare(0, R.size(), R) == 0)
        return true;
    return false;
  }
  std::string ty(QualType T) {
    if (T.isNull())
      return "";
    return T.getCanonicalType().getAsString(PP);
  }
  std::string qn(const NamedDecl *D) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    D->printQualifiedName(OS, PP);
    return OS.str();
  }
  int lid(const Decl *D) {
    auto It = LocalIds.find(D->getCanonicalDecl());
    if (It != LocalIds.end())
      return It->second;
    return LocalIds[D->getCanonicalDecl()] = NextId++;
  }
  std::string tclass(QualType T) {
    // coarse class of a type: scalar kinds matter to several rules
    T = T.getCanonicalType();
    if (T->isReferenceType())
      return "ref";
    if (T->isPointerType() || T->isMemberPointerType())
      return "ptr";
    if (T->isBooleanType())
      return "bool";
    if (T->isEnumeralType())
      return "enum";
    if (T->isIntegerType())
      return "int";
    if (T->isFloatingType())
      return "float";
    if (T->isArrayType())
      return "array";
    if (T->isRecordType())
      return "rec";
    return "other";
  }
  std::string pmode(QualType T) {
    T = T.getCanonicalType();
    if (T->isRValueReferenceType())
      return "m";
    if (T->isLValueReferenceType())
      return T->getPointeeType().isConstQualified() ? "c" : "r";
    if (T->isPointerType())
      return T->getPointeeType().isConstQualified() ? "k" : "p";
    return "v";
  }
  static bool noexceptSpec(const FunctionDecl *FD) {
    const auto *PT = FD->getType()->getAs<FunctionProtoType>();
    if (!PT)
      return false;
    auto EST = PT->getExceptionSpecType();
    if (EST == EST_Uninstantiated || EST == EST_Unevaluated ||
        EST == EST_Unparsed || EST == EST_DependentNoexcept)
      return isa<CXXDestructorDecl>(FD);
    return PT->isNothrow();
  }

  // template arguments of an instantiated function template
  void targs(Object &O, const FunctionDecl *FD) {
    const TemplateArgumentList *L = FD->getTemplateSpecializationArgs();
    if (!L)
      return;
    Array A;
    for (unsigned i = 0; i < L->size(); ++i)
      A.push_back(L->get(i).getKind() == TemplateArgument::Type ? ty(L->get(i).getAsType()) : std::string("?"));
    O["ta"] = std::move(A);
  }

  void calleeInfo(Object &O, const FunctionDecl *FD) {
    O["q"] = qn(FD);
    O["u"] = usrOf(FD);
    targs(O, FD);
    std::string PM;
    for (auto *P : FD->parameters())
      PM += pmode(P->getType());
    O["pm"] = PM;
    if (FD->isVariadic())
      O["var"] = true;
    if (noexceptSpec(FD))
      O["ne"] = true;
    if (FD->isExternC())
      O["xc"] = true;
    if (FD->isNoReturn())
      O["nr"] = true;
    if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
      if (MD->isConst())
        O["cm"] = true;
      if (MD->isStatic())
        O["st"] = true;
    }
    if (!inRoots(FD->getLocation()))
      O["ext"] = true;
    O["rt"] = ty(FD->getReturnType());
  }

  Value E(const Expr *X) {
    if (!X)
      return nullptr;
    // strip noise
    for (;;) {
      if (auto *P = dyn_cast<ParenExpr>(X)) { X = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<ExprWithCleanups>(X)) { X = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<MaterializeTemporaryExpr>(X)) { X = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<CXXBindTemporaryExpr>(X)) { X = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<ConstantExpr>(X)) { X = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(X)) { X = P->getReplacement(); continue; }
      if (auto *P = dyn_cast<CXXDefaultArgExpr>(X)) { X = P->getExpr(); continue; }
      if (auto *P = dyn_cast<CXXDefaultInitExpr>(X)) { X = P->getExpr(); continue; }
      if (auto *P = dyn_cast<CXXStdInitializerListExpr>(X)) { X = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<OpaqueValueExpr>(X)) { if (P->getSourceExpr()) { X = P->getSourceExpr(); continue; } break; }
      if (auto *P = dyn_cast<ImplicitCastExpr>(X)) {
        auto CK = P->getCastKind();
        if (CK == CK_FloatingToIntegral || CK == CK_IntegralCast ||
            CK == CK_IntegralToFloating || CK == CK_FloatingCast ||
            CK == CK_IntegralToBoolean || CK == CK_FloatingToBoolean) {
          // keep value-changing numeric conversions, unless constant
          Expr::EvalResult R;
          bool isconst = !X->isValueDependent() && X->getType()->isIntegralOrEnumerationType() &&
                         X->EvaluateAsInt(R, Ctx);
          if (!isconst && (CK == CK_FloatingToIntegral || CK == CK_IntegralCast)) {
            Object O;
            O["k"] = "cast"; O["ck"] = "impl"; O["t"] = ty(X->getType());
            O["ft"] = ty(P->getSubExpr()->getType());
            O["e"] = E(P->getSubExpr());
            return O;
          }
        }
        X = P->getSubExpr();
        continue;
      }
      break;
    }
    Object O;
    O["l"] = line(X->getBeginLoc());
    auto cv = [&](const Expr *Y) {
      if (Y->isValueDependent() || Y->isTypeDependent()) return;
      if (!Y->getType()->isIntegralOrEnumerationType()) return;
      Expr::EvalResult R;
      if (Y->EvaluateAsInt(R, Ctx)) {
        llvm::SmallString<32> S;
        R.Val.getInt().toString(S, 10);
        O["cv"] = std::string(S.str());
      }
    };
    if (auto *D = dyn_cast<DeclRefExpr>(X)) {
      const ValueDecl *VD = D->getDecl();
      O["k"] = "ref";
      O["n"] = VD->getNameAsString();
      if (auto *V = dyn_cast<VarDecl>(VD)) {
        if (isa<ParmVarDecl>(V)) { O["s"] = "p"; O["id"] = lid(V); }
        else if (V->isLocalVarDecl() && !V->isStaticLocal()) { O["s"] = "l"; O["id"] = lid(V); }
        else { O["s"] = V->isStaticLocal() ? "sl" : "g"; O["u"] = usrOf(V); O["q"] = qn(V); cv(X); }
      } else if (auto *EC = dyn_cast<EnumConstantDecl>(VD)) {
        O["s"] = "e"; O["q"] = qn(EC);
        llvm::SmallString<32> S; EC->getInitVal().toString(S, 10);
        O["cv"] = std::string(S.str());
      } else if (auto *FD = dyn_cast<FunctionDecl>(VD)) {
        O["s"] = "f"; calleeInfo(O, FD);
      } else if (auto *FD = dyn_cast<FieldDecl>(VD)) {
        O["s"] = "fld"; O["q"] = qn(FD);
      } else { O["s"] = "?"; O["q"] = qn(VD); }
      O["t"] = ty(X->getType());
      return O;
    }
    if (auto *M = dyn_cast<MemberExpr>(X)) {
      if (auto *F = dyn_cast<FieldDecl>(M->getMemberDecl())) {
        O["k"] = "mem"; O["n"] = F->getNameAsString(); O["q"] = qn(F);
        O["b"] = E(M->getBase()); if (M->isArrow()) O["arrow"] = true;
        O["t"] = ty(X->getType());
        return O;
      }
      if (auto *V = dyn_cast<VarDecl>(M->getMemberDecl())) {
        O["k"] = "ref"; O["s"] = "g"; O["n"] = V->getNameAsString(); O["u"] = usrOf(V); O["q"] = qn(V);
        O["t"] = ty(X->getType());
        return O;
      }
      if (auto *FD = dyn_cast<FunctionDecl>(M->getMemberDecl())) {
        O["k"] = "memf"; calleeInfo(O, FD); O["b"] = E(M->getBase());
        return O;
      }
    }
    if (isa<CXXThisExpr>(X)) { O["k"] = "this"; return O; }
    if (auto *C = dyn_cast<CXXOperatorCallExpr>(X)) {
      O["k"] = "call"; O["op"] = getOperatorSpelling(C->getOperator());
      if (auto *FD = C->getDirectCallee()) {
        calleeInfo(O, FD);
        if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
          if (MD->isInstance() && C->getNumArgs() >= 1) {
            O["o"] = E(C->getArg(0));
            Array A;
            for (unsigned i = 1; i < C->getNumArgs(); ++i) A.push_back(E(C->getArg(i)));
            O["a"] = std::move(A);
            if (MD->isVirtual()) O["virt"] = true;
            O["t"] = ty(X->getType());
            return O;
          }
        }
      }
      Array A;
      for (auto *Arg : C->arguments()) A.push_back(E(Arg));
      O["a"] = std::move(A);
      O["t"] = ty(X->getType());
      return O;
    }
    if (auto *C = dyn_cast<CXXMemberCallExpr>(X)) {
      O["k"] = "call";
      const Expr *CE = C->getCallee()->IgnoreParens();
      if (auto *MD = C->getMethodDecl()) {
        calleeInfo(O, MD);
        if (isa<CXXConversionDecl>(MD)) O["conv"] = true;
        if (auto *ME = dyn_cast<MemberExpr>(CE)) {
          if (MD->isVirtual() && !ME->hasQualifier()) O["virt"] = true;
          if (ME->isArrow()) O["arrow"] = true;
          O["o"] = E(ME->getBase());
        } else
          O["o"] = E(C->getImplicitObjectArgument());
      } else {
        O["fp"] = E(CE);
      }
      Array A;
      for (auto *Arg : C->arguments()) A.push_back(E(Arg));
      O["a"] = std::move(A);
      O["t"] = ty(X->getType());
      return O;
    }
    if (auto *C = dyn_cast<CallExpr>(X)) {
      O["k"] = "call";
      if (auto *FD = C->getDirectCallee()) {
        calleeInfo(O, FD);
        if (FD->getBuiltinID()) O["bi"] = true;
      } else
        O["fp"] = E(C->getCallee());
      Array A;
      for (auto *Arg : C->arguments()) A.push_back(E(Arg));
      O["a"] = std::move(A);
      O["t"] = ty(X->getType());
      cv(X);
      return O;
    }
    if (auto *C = dyn_cast<CXXConstructExpr>(X)) {
      O["k"] = "ctor";
      auto *CD = C->getConstructor();
      calleeInfo(O, CD);
      O["c"] = ty(X->getType().getUnqualifiedType());
      if (CD->isCopyConstructor()) O["copy"] = true;
      if (CD->isMoveConstructor()) O["move"] = true;
      if (CD->isImplicit() || CD->isDefaulted()) O["impl"] = true;
      if (C->isElidable()) O["el"] = true;
      if (C->requiresZeroInitialization()) O["zero"] = true;
      Array A;
      for (auto *Arg : C->arguments()) A.push_back(E(Arg));
      O["a"] = std::move(A);
      return O;
    }
    if (auto *C = dyn_cast<CXXInheritedCtorInitExpr>(X)) {
      O["k"] = "ctor"; calleeInfo(O, C->getConstructor());
      O["c"] = ty(X->getType()); O["a"] = Array();
      return O;
    }
    if (auto *N = dyn_cast<CXXNewExpr>(X)) {
      O["k"] = "new"; O["t"] = ty(N->getAllocatedType());
      O["tc"] = tclass(N->getAllocatedType());
      if (N->isArray() && N->getArraySize()) O["n"] = E(*N->getArraySize());
      if (N->isArray()) O["arr"] = true;
      if (N->getInitializer()) O["i"] = E(N->getInitializer());
      if (N->getNumPlacementArgs()) { O["pl"] = true; }
      return O;
    }
    if (auto *N = dyn_cast<CXXDeleteExpr>(X)) {
      O["k"] = "delete"; if (N->isArrayForm()) O["arr"] = true;
      O["e"] = E(N->getArgument()); O["t"] = ty(N->getDestroyedType());
      return O;
    }
    if (auto *T = dyn_cast<CXXThrowExpr>(X)) {
      O["k"] = "throw";
      if (T->getSubExpr()) {
        O["e"] = E(T->getSubExpr());
        QualType QT = T->getSubExpr()->getType();
        O["t"] = ty(QT);
      }
      return O;
    }
    if (auto *B = dyn_cast<BinaryOperator>(X)) {
      O["k"] = B->isAssignmentOp() ? "asg" : "bin";
      O["op"] = std::string(B->getOpcodeStr());
      O["L"] = E(B->getLHS()); O["R"] = E(B->getRHS());
      O["t"] = ty(X->getType());
      if (!B->isAssignmentOp()) cv(X);
      return O;
    }
    if (auto *U = dyn_cast<UnaryOperator>(X)) {
      O["k"] = "un"; O["op"] = std::string(UnaryOperator::getOpcodeStr(U->getOpcode()));
      if (U->isPostfix()) O["post"] = true;
      O["e"] = E(U->getSubExpr()); O["t"] = ty(X->getType());
      cv(X);
      return O;
    }
    if (auto *C = dyn_cast<AbstractConditionalOperator>(X)) {
      O["k"] = "cond"; O["c"] = E(C->getCond()); O["T"] = E(C->getTrueExpr()); O["F"] = E(C->getFalseExpr());
      O["t"] = ty(X->getType());
      cv(X);
      return O;
    }
    if (auto *S = dyn_cast<ArraySubscriptExpr>(X)) {
      O["k"] = "sub"; O["b"] = E(S->getBase()); O["i"] = E(S->getIdx()); O["t"] = ty(X->getType());
      if (auto *AT = Ctx.getAsConstantArrayType(S->getBase()->IgnoreParenImpCasts()->getType()))
        O["n"] = (int64_t)AT->getSize().getZExtValue();
      return O;
    }
    if (auto *I = dyn_cast<IntegerLiteral>(X)) {
      O["k"] = "int"; llvm::SmallString<32> S;
      I->getValue().toString(S, 10, X->getType()->isSignedIntegerType());
      O["v"] = std::string(S.str());
      return O;
    }
    if (auto *I = dyn_cast<CharacterLiteral>(X)) { O["k"] = "int"; O["v"] = std::to_string(I->getValue()); O["ch"] = true; return O; }
    if (auto *I = dyn_cast<CXXBoolLiteralExpr>(X)) { O["k"] = "bool"; O["v"] = I->getValue(); return O; }
    if (isa<CXXNullPtrLiteralExpr>(X) || isa<GNUNullExpr>(X)) { O["k"] = "null"; return O; }
    if (auto *F = dyn_cast<FloatingLiteral>(X)) { O["k"] = "flt"; O["v"] = F->getValueAsApproximateDouble(); return O; }
    if (auto *S = dyn_cast<StringLiteral>(X)) {
      O["k"] = "str";
      if (S->getCharByteWidth() == 1) O["v"] = json::fixUTF8(S->getString()); else O["v"] = "<wide>";
      return O;
    }
    if (auto *P = dyn_cast<PredefinedExpr>(X)) { O["k"] = "str"; O["v"] = "<func>"; (void)P; return O; }
    if (auto *C = dyn_cast<ExplicitCastExpr>(X)) {
      O["k"] = "cast";
      O["ck"] = isa<CXXStaticCastExpr>(C) ? "static" : isa<CXXDynamicCastExpr>(C) ? "dynamic"
              : isa<CXXReinterpretCastExpr>(C) ? "reinterpret" : isa<CXXConstCastExpr>(C) ? "const"
              : isa<CXXFunctionalCastExpr>(C) ? "func" : "c";
      O["t"] = ty(C->getType()); O["ft"] = ty(C->getSubExpr()->getType());
      O["ckk"] = C->getCastKindName();
      O["e"] = E(C->getSubExpr());
      cv(X);
      return O;
    }
    if (auto *L = dyn_cast<LambdaExpr>(X)) {
      O["k"] = "lambda";
      O["u"] = usrOf(L->getCallOperator());
      Array Caps;
      for (auto &C : L->captures()) {
        Object CO;
        if (C.capturesThis()) { CO["this"] = true; }
        else if (C.capturesVariable()) {
          CO["n"] = C.getCapturedVar()->getNameAsString();
          CO["id"] = lid(C.getCapturedVar());
          CO["ref"] = C.getCaptureKind() == LCK_ByRef;
        }
        Caps.push_back(std::move(CO));
      }
      O["caps"] = std::move(Caps);
      Array Ps;
      for (auto *P : L->getCallOperator()->parameters()) Ps.push_back(param(P));
      O["p"] = std::move(Ps);
      O["body"] = S(L->getBody());
      return O;
    }
    if (auto *I = dyn_cast<InitListExpr>(X)) {
      const InitListExpr *Sem = I->isSemanticForm() ? I : (I->getSemanticForm() ? I->getSemanticForm() : I);
      O["k"] = "ilist"; Array A;
      for (auto *Y : Sem->inits()) A.push_back(E(Y));
      O["a"] = std::move(A); O["t"] = ty(X->getType());
      if (Sem->hasArrayFiller()) O["fill"] = true;
      return O;
    }
    if (auto *U = dyn_cast<UnaryExprOrTypeTraitExpr>(X)) {
      O["k"] = "sizeof"; O["t"] = ty(U->getTypeOfArgument()); cv(X);
      return O;
    }
    if (isa<ImplicitValueInitExpr>(X) || isa<CXXScalarValueInitExpr>(X)) {
      O["k"] = "zero"; O["t"] = ty(X->getType());
      return O;
    }
    if (auto *T = dyn_cast<CXXTypeidExpr>(X)) { O["k"] = "typeid"; (void)T; return O; }
    if (auto *P = dyn_cast<CXXNoexceptExpr>(X)) { O["k"] = "bool"; O["v"] = P->getValue(); return O; }
    if (auto *P = dyn_cast<TypeTraitExpr>(X)) { O["k"] = "bool"; O["v"] = !P->isValueDependent() && P->getValue(); return O; }
    if (auto *P = dyn_cast<StmtExpr>(X)) { O["k"] = "stmtexpr"; O["body"] = S(P->getSubStmt()); return O; }
    if (isa<RecoveryExpr>(X)) ++Errors;
    O["k"] = "?"; O["c"] = X->getStmtClassName();
    Array A;
    for (auto *Ch : X->children())
      if (auto *CE = dyn_cast_or_null<Expr>(Ch)) A.push_back(E(CE));
    O["a"] = std::move(A);
    O["t"] = ty(X->getType());
    return O;
  }

  Value param(const ParmVarDecl *P) {
    Object O;
    O["id"] = lid(P); O["n"] = P->getNameAsString(); O["t"] = ty(P->getType()); O["m"] = pmode(P->getType());
    O["tc"] = tclass(P->getType());
    if (P->hasDefaultArg()) O["d"] = true;
    return O;
  }

  Object var(const VarDecl *V) {
    Object O;
    O["n"] = V->getNameAsString(); O["t"] = ty(V->getType()); O["tc"] = tclass(V->getType());
    O["l"] = line(V->getLocation());
    if (V->isStaticLocal()) { O["static"] = true; O["u"] = usrOf(V); O["q"] = qn(V); }
    else O["id"] = lid(V);
    if (V->getType().isConstQualified()) O["const"] = true;
    if (V->getType()->isReferenceType()) O["ref"] = true;
    if (auto *AT = Ctx.getAsConstantArrayType(V->getType())) O["arr"] = (int64_t)AT->getSize().getZExtValue();
    if (V->hasInit()) {
      O["i"] = E(V->getInit());
      O["is"] = V->getInitStyle() == VarDecl::CInit ? "c" : V->getInitStyle() == VarDecl::CallInit ? "call" : "list";
    }
    return O;
  }

  Value S(const Stmt *X) {
    if (!X) return nullptr;
    Object O;
    O["l"] = line(X->getBeginLoc());
    if (auto *C = dyn_cast<CompoundStmt>(X)) {
      O["s"] = "{"; Array A;
      for (auto *Y : C->body()) A.push_back(S(Y));
      O["b"] = std::move(A);
      return O;
    }
    if (auto *D = dyn_cast<DeclStmt>(X)) {
      O["s"] = "decl"; Array A;
      for (auto *Y : D->decls())
        if (auto *V = dyn_cast<VarDecl>(Y)) A.push_back(var(V));
      O["v"] = std::move(A);
      return O;
    }
    if (auto *I = dyn_cast<IfStmt>(X)) {
      O["s"] = "if";
      if (I->getInit()) O["init"] = S(I->getInit());
      if (I->getConditionVariable()) O["cvr"] = var(I->getConditionVariable());
      O["c"] = E(I->getCond()); O["T"] = S(I->getThen());
      if (I->getElse()) O["F"] = S(I->getElse());
      return O;
    }
    if (auto *W = dyn_cast<WhileStmt>(X)) {
      O["s"] = "while";
      if (W->getConditionVariable()) O["cvr"] = var(W->getConditionVariable());
      O["c"] = E(W->getCond()); O["b"] = S(W->getBody());
      return O;
    }
    if (auto *W = dyn_cast<DoStmt>(X)) { O["s"] = "do"; O["c"] = E(W->getCond()); O["b"] = S(W->getBody()); return O; }
    if (auto *F = dyn_cast<ForStmt>(X)) {
      O["s"] = "for"; O["i"] = S(F->getInit());
      if (F->getConditionVariable()) O["cvr"] = var(F->getConditionVariable());
      O["c"] = E(F->getCond()); O["n"] = E(F->getInc()); O["b"] = S(F->getBody());
      return O;
    }
    if (auto *F = dyn_cast<CXXForRangeStmt>(X)) {
      O["s"] = "rfor"; O["v"] = var(F->getLoopVariable()); O["r"] = E(F->getRangeInit()); O["b"] = S(F->getBody());
      return O;
    }
    if (auto *W = dyn_cast<SwitchStmt>(X)) {
      O["s"] = "switch"; O["c"] = E(W->getCond()); O["b"] = S(W->getBody());
      if (W->isAllEnumCasesCovered()) O["all"] = true;
      return O;
    }
    if (auto *C = dyn_cast<CaseStmt>(X)) {
      O["s"] = "case"; O["v"] = E(C->getLHS());
      Expr::EvalResult R;
      if (!C->getLHS()->isValueDependent() && C->getLHS()->EvaluateAsInt(R, Ctx)) {
        llvm::SmallString<32> SS; R.Val.getInt().toString(SS, 10); O["cv"] = std::string(SS.str());
      }
      O["b"] = S(C->getSubStmt());
      return O;
    }
    if (auto *C = dyn_cast<DefaultStmt>(X)) { O["s"] = "default"; O["b"] = S(C->getSubStmt()); return O; }
    if (isa<BreakStmt>(X)) { O["s"] = "break"; return O; }
    if (isa<ContinueStmt>(X)) { O["s"] = "continue"; return O; }
    if (auto *R = dyn_cast<ReturnStmt>(X)) { O["s"] = "return"; if (R->getRetValue()) O["e"] = E(R->getRetValue()); return O; }
    if (auto *T = dyn_cast<CXXTryStmt>(X)) {
      O["s"] = "try"; O["b"] = S(T->getTryBlock()); Array H;
      for (unsigned i = 0; i < T->getNumHandlers(); ++i) {
        auto *C = T->getHandler(i); Object HO;
        HO["l"] = line(C->getBeginLoc());
        if (C->getExceptionDecl()) { HO["v"] = var(C->getExceptionDecl()); HO["t"] = ty(C->getCaughtType()); }
        else HO["t"] = "...";
        HO["b"] = S(C->getHandlerBlock());
        H.push_back(std::move(HO));
      }
      O["h"] = std::move(H);
      return O;
    }
    if (auto *L = dyn_cast<LabelStmt>(X)) { O["s"] = "label"; O["n"] = L->getName(); O["b"] = S(L->getSubStmt()); return O; }
    if (auto *G = dyn_cast<GotoStmt>(X)) { O["s"] = "goto"; O["n"] = G->getLabel()->getNameAsString(); return O; }
    if (auto *A = dyn_cast<AttributedStmt>(X)) return S(A->getSubStmt());
    if (isa<NullStmt>(X)) { O["s"] = ";"; return O; }
    if (auto *Ex = dyn_cast<Expr>(X)) { O["s"] = "e"; O["e"] = E(Ex); return O; }
    O["s"] = "?"; O["c"] = X->getStmtClassName();
    return O;
  }

  Object func(const FunctionDecl *FD) {
    LocalIds.clear(); NextId = 1;
    Object O;
    O["u"] = usrOf(FD); O["q"] = qn(FD);
    targs(O, FD);
    O["n"] = FD->getNameAsString();
    O["file"] = file(FD->getLocation()); O["l"] = line(FD->getLocation());
    O["le"] = line(FD->getEndLoc());
    O["rt"] = ty(FD->getReturnType());
    O["rtc"] = tclass(FD->getReturnType());
    Array Ps;
    for (auto *P : FD->parameters()) Ps.push_back(param(P));
    O["p"] = std::move(Ps);
    if (FD->isVariadic()) O["var"] = true;
    if (FD->isExternC()) O["xc"] = true;
    if (noexceptSpec(FD)) O["ne"] = true;
    if (FD->isTemplateInstantiation()) O["inst"] = true;
    if (FD->getStorageClass() == SC_Static) O["static"] = true;
    if (!FD->isExternallyVisible()) O["internal"] = true;
    if (FD->getVisibility() == DefaultVisibility && FD->isExternallyVisible()) O["vis"] = true;
    if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
      O["cls"] = qn(MD->getParent()); O["clsu"] = usrOf(MD->getParent());
      if (MD->isConst()) O["cm"] = true;
      if (MD->isVirtual()) O["virt"] = true;
      if (MD->isStatic()) O["st"] = true;
      O["acc"] = MD->getAccess() == AS_public ? "public" : MD->getAccess() == AS_protected ? "protected" : "private";
      Array Ov;
      for (auto *B : MD->overridden_methods()) Ov.push_back(usrOf(B));
      O["ov"] = std::move(Ov);
      if (MD->isCopyAssignmentOperator()) O["ca"] = true;
      if (MD->isMoveAssignmentOperator()) O["ma"] = true;
      if (isa<CXXDestructorDecl>(MD)) O["dtor"] = true;
    }
    if (FD->isDefaulted()) O["dflt"] = true;
    if (auto *CD = dyn_cast<CXXConstructorDecl>(FD)) {
      O["ctor"] = true;
      if (CD->isCopyConstructor()) O["cc"] = true;
      if (CD->isMoveConstructor()) O["mc"] = true;
      if (CD->isExplicit()) O["expl"] = true;
      Array I;
      for (auto *Init : CD->inits()) {
        Object IO;
        if (Init->isMemberInitializer()) {
          IO["f"] = Init->getMember()->getNameAsString();
          IO["fq"] = qn(Init->getMember());
        }
        else if (Init->isBaseInitializer()) IO["b"] = ty(QualType(Init->getBaseClass(), 0));
        else if (Init->isDelegatingInitializer()) IO["d"] = true;
        IO["w"] = Init->isWritten();
        IO["l"] = line(Init->getSourceLocation());
        IO["e"] = E(Init->getInit());
        I.push_back(std::move(IO));
      }
      O["inits"] = std::move(I);
    }
    O["body"] = S(FD->getBody());
    return O;
  }

  Object cls(const CXXRecordDecl *R) {
    Object O;
    O["u"] = usrOf(R); O["q"] = qn(R); O["n"] = R->getNameAsString();
    SourceLocation RL = R->getLocation();
    if (isa<ClassTemplateSpecializationDecl>(R))
      if (auto *Pat = R->getTemplateInstantiationPattern()) RL = Pat->getLocation();
    O["file"] = file(RL); O["l"] = line(RL);
    O["abs"] = R->isAbstract(); O["union"] = R->isUnion(); O["lam"] = R->isLambda();
    Array B;
    for (auto &X : R->bases()) {
      Object BO; BO["t"] = ty(X.getType());
      BO["acc"] = X.getAccessSpecifier() == AS_public ? "public" : "nonpublic";
      BO["virt"] = X.isVirtual();
      if (auto *BR = X.getType()->getAsCXXRecordDecl()) BO["u"] = usrOf(BR);
      B.push_back(std::move(BO));
    }
    O["bases"] = std::move(B);
    Array F;
    for (auto *X : R->fields()) {
      Object FO; FO["n"] = X->getNameAsString(); FO["q"] = qn(X); FO["t"] = ty(X->getType()); FO["tc"] = tclass(X->getType());
      FO["st"] = X->getType().getAsString(PrintingPolicy(Ctx.getLangOpts()));
      FO["mut"] = X->isMutable(); FO["const"] = X->getType().isConstQualified();
      FO["di"] = X->hasInClassInitializer(); FO["l"] = line(X->getLocation());
      if (auto *AT = Ctx.getAsConstantArrayType(X->getType())) { FO["arr"] = (int64_t)AT->getSize().getZExtValue(); FO["etc"] = tclass(AT->getElementType()); }
      F.push_back(std::move(FO));
    }
    O["fields"] = std::move(F);
    Array M;
    for (auto *X : R->methods()) {
      Object MO; MO["n"] = X->getNameAsString(); MO["u"] = usrOf(X); MO["q"] = qn(X);
      MO["impl"] = X->isImplicit(); MO["del"] = X->isDeleted(); MO["dflt"] = X->isDefaulted(); MO["pure"] = X->isPureVirtual();
      MO["virt"] = X->isVirtual(); MO["st"] = X->isStatic(); MO["cm"] = X->isConst(); MO["l"] = line(X->getLocation());
      MO["acc"] = X->getAccess() == AS_public ? "public" : X->getAccess() == AS_protected ? "protected" : "private";
      MO["rt"] = ty(X->getReturnType());
      MO["ne"] = noexceptSpec(X);
      Array P; for (auto *Y : X->parameters()) P.push_back(param(Y));
      MO["p"] = std::move(P);
      if (auto *CD = dyn_cast<CXXConstructorDecl>(X)) {
        MO["ctor"] = true; if (CD->isCopyConstructor()) MO["cc"] = true; if (CD->isMoveConstructor()) MO["mc"] = true;
      }
      if (X->isCopyAssignmentOperator()) MO["ca"] = true;
      if (X->isMoveAssignmentOperator()) MO["ma"] = true;
      if (isa<CXXDestructorDecl>(X)) MO["dtor"] = true;
      Array Ov; for (auto *BM : X->overridden_methods()) Ov.push_back(usrOf(BM));
      MO["ov"] = std::move(Ov);
      M.push_back(std::move(MO));
    }
    O["methods"] = std::move(M);
    O["udcc"] = R->hasUserDeclaredCopyConstructor(); O["udca"] = R->hasUserDeclaredCopyAssignment();
    O["udd"] = R->hasUserDeclaredDestructor(); O["udmc"] = R->hasUserDeclaredMoveConstructor();
    O["udma"] = R->hasUserDeclaredMoveAssignment();
    O["icc"] = R->hasSimpleCopyConstructor(); O["ica"] = R->hasSimpleCopyAssignment();
    O["hascc"] = R->hasCopyConstructorWithConstParam() || R->needsImplicitCopyConstructor();
    O["inst"] = isa<ClassTemplateSpecializationDecl>(R);
    O["udctor"] = R->hasUserDeclaredConstructor();
    return O;
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
  Dumper &D;
  Array Funcs, Classes, Vars, Enums, Decls;
  std::set<const Decl *> Seen;
  explicit Visitor(Dumper &D) : D(D) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool TraverseNamespaceDecl(NamespaceDecl *N) {
    if (D.SM.isInSystemHeader(N->getLocation()) && !D.inRoots(N->getLocation())) return true;
    return RecursiveASTVisitor::TraverseNamespaceDecl(N);
  }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isDependentContext()) return true;
    if (!D.inRoots(F->getLocation())) return true;
    if (auto *MD = dyn_cast<CXXMethodDecl>(F))
      if (MD->getParent()->isLambda()) return true;
    if (!F->doesThisDeclarationHaveABody()) {
      if (!isa<CXXMethodDecl>(F) && Seen.insert(F).second) {
        Object O; O["u"] = usrOf(F); O["q"] = D.qn(F); O["n"] = F->getNameAsString();
        O["file"] = D.file(F->getLocation()); O["l"] = D.line(F->getLocation()); O["rt"] = D.ty(F->getReturnType());
        O["xc"] = F->isExternC();
        Array P; for (auto *Y : F->parameters()) P.push_back(D.param(Y));
        O["p"] = std::move(P);
        Decls.push_back(std::move(O));
      }
      return true;
    }
    if (!Seen.insert(F).second) return true;
    Funcs.push_back(D.func(F));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext()) return true;
    if (!D.inRoots(R->getLocation())) return true;
    if (!Seen.insert(R).second) return true;
    if (R->isLambda()) return true;
    D.LocalIds.clear();
    Classes.push_back(D.cls(R));
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (isa<ParmVarDecl>(V)) return true;
    if (!V->hasGlobalStorage()) return true;
    if (V->getDeclContext()->isDependentContext()) return true;
    if (!D.inRoots(V->getLocation())) return true;
    if (!Seen.insert(V).second) return true;
    Object O; O["u"] = usrOf(V); O["q"] = D.qn(V); O["n"] = V->getNameAsString(); O["t"] = D.ty(V->getType());
    O["st"] = V->getType().getAsString(PrintingPolicy(D.Ctx.getLangOpts()));
    O["file"] = D.file(V->getLocation()); O["l"] = D.line(V->getLocation()); O["const"] = V->getType().isConstQualified();
    O["tls"] = V->getTLSKind() != VarDecl::TLS_None; O["sl"] = V->isStaticLocal(); O["def"] = V->isThisDeclarationADefinition() != VarDecl::DeclarationOnly;
    O["mem"] = V->isStaticDataMember(); O["tc"] = D.tclass(V->getType());
    if (auto *FD = dyn_cast_or_null<FunctionDecl>(V->getParentFunctionOrMethod())) O["fn"] = usrOf(FD);
    if (V->hasInit()) { D.LocalIds.clear(); O["i"] = D.E(V->getInit()); }
    Vars.push_back(std::move(O));
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (!E->isThisDeclarationADefinition() || !D.inRoots(E->getLocation())) return true;
    if (!Seen.insert(E).second) return true;
    Object O; O["q"] = D.qn(E); O["file"] = D.file(E->getLocation()); O["l"] = D.line(E->getLocation());
    Array A;
    for (auto *C : E->enumerators()) {
      llvm::SmallString<32> S; C->getInitVal().toString(S, 10);
      A.push_back(Array{C->getNameAsString(), std::string(S.str())});
    }
    O["e"] = std::move(A);
    Enums.push_back(std::move(O));
    return true;
  }
};

class Consumer : public ASTConsumer {
public:
  std::string File;
  CompilerInstance &CI;
  Consumer(CompilerInstance &CI, StringRef F) : File(F.str()), CI(CI) {}
  void HandleTranslationUnit(ASTContext &Ctx) override {
    Dumper D(Ctx);
    Visitor V(D);
    V.TraverseDecl(Ctx.getTranslationUnitDecl());
    Object O;
    O["tu"] = File;
    O["errors"] = (int64_t)(Errors + CI.getDiagnostics().getClient()->getNumErrors());
    O["funcs"] = std::move(V.Funcs); O["classes"] = std::move(V.Classes);
    O["vars"] = std::move(V.Vars); O["enums"] = std::move(V.Enums); O["decls"] = std::move(V.Decls);
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutFile, EC);
    OS << Value(std::move(O));
  }
};
class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef F) override {
    return std::make_unique<Consumer>(CI, F);
  }
};
class Factory : public tooling::FrontendActionFactory {
public:
  std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); }
};

int main(int argc, const char **argv) {
  if (argc < 5) { llvm::errs() << "usage\n"; return 2; }
  OutFile = argv[1];
  std::string File = argv[2], R = argv[3];
  size_t p = 0;
  while (p <= R.size()) {
    size_t q = R.find(',', p); if (q == std::string::npos) q = R.size();
    if (q > p) Roots.push_back(R.substr(p, q - p));
    p = q + 1;
  }
  std::vector<std::string> Args;
  for (int i = 5; i < argc; ++i) Args.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", Args);
  tooling::ClangTool T(DB, {File});
  Factory F;
  return T.run(&F);
}
