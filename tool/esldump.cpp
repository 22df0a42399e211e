// esldump: dumps the resolved program (functions, records, variables) of the
// translation units it is given as JSON, one object per line.
// Only declarations below the root given by -root=DIR are dumped.
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/Mangle.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/StmtCXX.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendActions.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/CommandLine.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots;
static std::set<std::string> Seen;
static int Errors = 0;

namespace {
class Dumper {
public:
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  ASTNameGenerator NG;
  explicit Dumper(ASTContext &C)
      : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()), NG(C) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.Bool = true;
    PP.PrintCanonicalTypes = true;
    PP.SuppressInlineNamespace = true;
  }

  std::string fileOf(SourceLocation L) {
    if (L.isInvalid()) return "";
    L = SM.getExpansionLoc(L);
    auto F = SM.getFilename(L);
    return F.str();
  }
  unsigned lineOf(SourceLocation L) {
    if (L.isInvalid()) return 0;
    return SM.getExpansionLineNumber(L);
  }
  bool inRoot(const Decl *D) {
    std::string F = fileOf(D->getLocation());
    for (auto &R : Roots)
      if (F.compare(0, R.size(), R) == 0) return true;
    return false;
  }
  std::string qname(const NamedDecl *D) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    D->printQualifiedName(OS, PP);
    return OS.str();
  }
  std::string pname(const NamedDecl *D) { return D->getNameAsString(); }
  std::string ty(QualType T) {
    if (T.isNull()) return "";
    return T.getCanonicalType().getAsString(PP);
  }
  std::string id(const Decl *D) {
    D = D->getCanonicalDecl();
    char B[32];
    snprintf(B, sizeof B, "d%llx", (unsigned long long)(uintptr_t)D);
    return B;
  }
  std::string fid(const FunctionDecl *F) {
    if (F->isDependentContext() || F->isTemplated()) return "T:" + qname(F) + ":" + std::to_string(lineOf(F->getLocation()));
    std::string N = NG.getName(F);
    if (N.empty()) return "N:" + qname(F) + ":" + ty(F->getType());
    return N;
  }

  json::Value E(const Expr *X);
  json::Value S(const Stmt *X);
  json::Value lambda(const LambdaExpr *L);

  json::Object node(const char *K, const Stmt *X) {
    json::Object O;
    O["k"] = K;
    if (X) O["l"] = (int64_t)lineOf(X->getBeginLoc());
    return O;
  }
  json::Value args(CallExpr::const_arg_range R) {
    json::Array A;
    for (const Expr *X : R) A.push_back(E(X));
    return A;
  }
  json::Value varDecl(const VarDecl *V) {
    json::Object O;
    O["name"] = V->getNameAsString();
    O["id"] = id(V);
    O["ty"] = ty(V->getType());
    if (V->getType()->isReferenceType()) O["ref"] = true;
    if (V->getType()->isRValueReferenceType()) O["rref"] = true;
    if (V->getType().getNonReferenceType().isConstQualified()) O["const"] = true;
    if (V->getType()->getPointeeType().isNull() == false && V->getType()->isPointerType()) O["ptr"] = true;
    if (V->isStaticLocal()) O["static"] = true;
    if (auto *D = dyn_cast<DecompositionDecl>(V)) {
      json::Array B;
      for (auto *X : D->bindings()) {
        json::Object BO;
        BO["name"] = X->getNameAsString();
        BO["id"] = id(X);
        std::string m;
        if (auto *BE = X->getBinding()) {
          if (auto *ME = dyn_cast<MemberExpr>(BE->IgnoreParenImpCasts()))
            m = ME->getMemberDecl()->getNameAsString();
          if (auto *H = X->getHoldingVar()) BO["holder"] = id(H);
        }
        if (!m.empty()) BO["mem"] = m;
        B.push_back(std::move(BO));
      }
      O["bind"] = std::move(B);
    }
    if (V->getInit()) O["init"] = E(V->getInit());
    return O;
  }
  void calleeInfo(json::Object &O, const FunctionDecl *F) {
    if (!F) return;
    O["fn"] = qname(F);
    O["name"] = F->getNameAsString();
    O["fid"] = fid(F);
    O["rty"] = ty(F->getReturnType());
    if (F->isNoReturn()) O["noret"] = true;
    if (F->getReturnType()->isReferenceType()) O["retref"] = true;
    json::Array PR;
    for (auto *P : F->parameters()) {
      int m = 0;
      QualType T = P->getType();
      if (T->isReferenceType()) m = T.getNonReferenceType().isConstQualified() ? 1 : 2;
      PR.push_back(m);
    }
    O["pm"] = std::move(PR);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = qname(M->getParent());
      if (M->isVirtual()) O["virt"] = true;
      if (M->isConst()) O["cm"] = true;
      if (M->isStatic()) O["smeth"] = true;
      if (M->isCopyAssignmentOperator() || M->isMoveAssignmentOperator()) O["asgop"] = M->isDefaulted() || M->isImplicit() ? 2 : 1;
      O["inrepo"] = inRoot(M);
      if (F->getNameAsString().rfind("emplace", 0) == 0)
        if (auto *CT = dyn_cast<ClassTemplateSpecializationDecl>(M->getParent()))
          if (CT->getTemplateArgs().size() && CT->getTemplateArgs()[0].getKind() == TemplateArgument::Type)
            if (auto *RD = CT->getTemplateArgs()[0].getAsType()->getAsCXXRecordDecl())
              if (inRoot(RD)) O["elem"] = qname(RD);
    } else
      O["inrepo"] = inRoot(F);
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      json::Array A;
      for (auto &T : TA->asArray()) {
        std::string S2;
        llvm::raw_string_ostream OS(S2);
        T.print(PP, OS, true);
        A.push_back(OS.str());
      }
      O["ta"] = std::move(A);
    }
  }

  json::Value function(const FunctionDecl *F) {
    json::Object O;
    O["k"] = "function";
    O["qn"] = qname(F);
    O["name"] = F->getNameAsString();
    O["fid"] = fid(F);
    O["file"] = fileOf(F->getLocation());
    O["line"] = (int64_t)lineOf(F->getLocation());
    O["ret"] = ty(F->getReturnType());
    if (F->getReturnType()->isReferenceType()) O["retref"] = true;
    O["dep"] = F->isDependentContext() || F->isTemplated();
    if (F->isImplicit()) O["implicit"] = true;
    if (F->isDefaulted()) O["defaulted"] = true;
    json::Array P;
    for (auto *V : F->parameters()) {
      json::Object PO;
      PO["name"] = V->getNameAsString();
      PO["id"] = id(V);
      PO["ty"] = ty(V->getType());
      if (V->getType()->isReferenceType()) PO["ref"] = true;
      P.push_back(std::move(PO));
    }
    O["params"] = std::move(P);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = qname(M->getParent());
      O["clsid"] = id(M->getParent());
      if (M->isVirtual()) O["virt"] = true;
      if (M->isConst()) O["cm"] = true;
      if (M->isStatic()) O["smeth"] = true;
      if (M->getParent()->isLambda()) O["lambda"] = true;
      O["access"] = (int64_t)M->getAccess();
      json::Array Ov;
      for (auto *B : M->overridden_methods()) Ov.push_back(fid(B));
      if (!Ov.empty()) O["overrides"] = std::move(Ov);
    }
    if (auto *Ct = dyn_cast<CXXConstructorDecl>(F)) {
      O["ctor"] = true;
      if (Ct->isCopyOrMoveConstructor()) O["copyctor"] = true;
      json::Array In;
      for (auto *I : Ct->inits()) {
        json::Object IO;
        if (I->isAnyMemberInitializer())
          IO["member"] = I->getAnyMember()->getNameAsString();
        else if (I->isBaseInitializer())
          IO["base"] = ty(QualType(I->getBaseClass(), 0));
        else if (I->isDelegatingInitializer())
          IO["delegate"] = true;
        IO["written"] = I->isWritten();
        if (I->getInit()) IO["init"] = E(I->getInit());
        In.push_back(std::move(IO));
      }
      O["inits"] = std::move(In);
    }
    if (isa<CXXDestructorDecl>(F)) O["dtor"] = true;
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      json::Array A;
      for (auto &T : TA->asArray()) {
        std::string S2;
        llvm::raw_string_ostream OS(S2);
        T.print(PP, OS, true);
        A.push_back(OS.str());
      }
      O["ta"] = std::move(A);
    }
    O["body"] = S(F->getBody());
    return O;
  }
};

json::Value Dumper::lambda(const LambdaExpr *L) {
  auto O = node("lambda", L);
  json::Array Cs;
  for (auto &Cp : L->captures()) {
    json::Object CO;
    if (Cp.capturesThis()) CO["this"] = true;
    else if (Cp.capturesVariable()) {
      auto *V = Cp.getCapturedVar();
      CO["id"] = id(V);
      CO["name"] = V->getNameAsString();
      CO["byref"] = Cp.getCaptureKind() == LCK_ByRef;
      if (auto *VD = dyn_cast<VarDecl>(V)) if (VD->isInitCapture() && VD->getInit()) CO["init"] = E(VD->getInit());
    }
    Cs.push_back(std::move(CO));
  }
  O["caps"] = std::move(Cs);
  O["implicitref"] = L->getCaptureDefault() == LCD_ByRef;
  auto *M = L->getCallOperator();
  O["fid"] = fid(M);
  if (L->isGenericLambda())
    // prefer an instance: everything in it is resolved
    if (auto *T = M->getDescribedFunctionTemplate())
      for (auto *Sp : T->specializations())
        if (auto *SM = dyn_cast<CXXMethodDecl>(Sp); SM && SM->getBody()) { M = SM; break; }
  json::Array P;
  for (auto *V : M->parameters()) {
    json::Object PO;
    PO["name"] = V->getNameAsString();
    PO["id"] = id(V);
    PO["ty"] = ty(V->getType());
    if (V->getType()->isReferenceType()) PO["ref"] = true;
    P.push_back(std::move(PO));
  }
  O["params"] = std::move(P);
  O["generic"] = L->isGenericLambda();
  O["body"] = S(M->getBody());
  return O;
}

json::Value Dumper::E(const Expr *X) {
  if (!X) return nullptr;
  // strip noise
  while (true) {
    if (auto *P = dyn_cast<ParenExpr>(X)) { X = P->getSubExpr(); continue; }
    if (auto *P = dyn_cast<FullExpr>(X)) { X = P->getSubExpr(); continue; }
    if (auto *P = dyn_cast<MaterializeTemporaryExpr>(X)) { X = P->getSubExpr(); continue; }
    if (auto *P = dyn_cast<CXXBindTemporaryExpr>(X)) { X = P->getSubExpr(); continue; }
    if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(X)) { X = P->getReplacement(); continue; }
    if (auto *P = dyn_cast<CXXDefaultArgExpr>(X)) { X = P->getExpr(); continue; }
    if (auto *P = dyn_cast<CXXDefaultInitExpr>(X)) { X = P->getExpr(); continue; }
    if (auto *P = dyn_cast<CXXStdInitializerListExpr>(X)) { X = P->getSubExpr(); continue; }
    if (auto *P = dyn_cast<ImplicitCastExpr>(X)) {
      auto K = P->getCastKind();
      if (K == CK_IntegralCast || K == CK_IntegralToFloating || K == CK_FloatingToIntegral) {
        QualType A = P->getSubExpr()->getType(), B = P->getType();
        // only narrowing or representation-changing conversions are kept
        bool keep = K != CK_IntegralCast;
        if (K == CK_IntegralCast && !A->isDependentType() && !B->isDependentType() && !A->isEnumeralType())
          keep = C.getTypeSize(B) < C.getTypeSize(A);
        if (keep && !isa<IntegerLiteral>(P->getSubExpr()->IgnoreParenImpCasts())) {
          auto O = node("icast", X);
          O["ty"] = ty(B);
          O["e"] = E(P->getSubExpr());
          return O;
        }
      }
      X = P->getSubExpr();
      continue;
    }
    if (auto *P = dyn_cast<CXXConstructExpr>(X)) {
      // elide copies/moves of the same class
      if (P->getNumArgs() >= 1 && P->getConstructor()->isCopyOrMoveConstructor()) {
        bool rest = true;
        for (unsigned i = 1; i < P->getNumArgs(); ++i) if (!isa<CXXDefaultArgExpr>(P->getArg(i))) rest = false;
        if (rest) {
          auto O = node("copy", X);
          O["ty"] = ty(P->getType());
          O["move"] = P->getConstructor()->isMoveConstructor();
          O["e"] = E(P->getArg(0));
          return O;
        }
      }
    }
    break;
  }
  if (auto *P = dyn_cast<IntegerLiteral>(X)) {
    auto O = node("int", X);
    llvm::SmallString<32> SS;
    P->getValue().toString(SS, 10, P->getType()->isSignedIntegerType());
    O["v"] = SS.str().str();
    return O;
  }
  if (auto *P = dyn_cast<CharacterLiteral>(X)) { auto O = node("char", X); O["v"] = (int64_t)P->getValue(); return O; }
  if (auto *P = dyn_cast<CXXBoolLiteralExpr>(X)) { auto O = node("bool", X); O["v"] = P->getValue(); return O; }
  if (auto *P = dyn_cast<FloatingLiteral>(X)) { auto O = node("float", X); O["v"] = P->getValueAsApproximateDouble(); return O; }
  if (auto *P = dyn_cast<clang::StringLiteral>(X)) {
    auto O = node("str", X);
    if (P->getCharByteWidth() == 1) O["v"] = json::fixUTF8(P->getString());
    return O;
  }
  if (isa<CXXNullPtrLiteralExpr>(X) || isa<GNUNullExpr>(X)) return node("null", X);
  if (isa<CXXThisExpr>(X)) { auto O = node("this", X); O["ty"] = ty(X->getType()); return O; }
  if (auto *P = dyn_cast<DeclRefExpr>(X)) {
    auto O = node("ref", X);
    auto *D = P->getDecl();
    O["name"] = D->getNameAsString();
    O["id"] = id(D);
    O["ty"] = ty(D->getType());
    if (auto *F = dyn_cast<FunctionDecl>(D)) { O["dk"] = "func"; O["qn"] = qname(F); O["fid"] = fid(F); }
    else if (isa<ParmVarDecl>(D)) O["dk"] = "param";
    else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
      O["dk"] = "enum"; O["qn"] = qname(EC);
      llvm::SmallString<32> SS; EC->getInitVal().toString(SS, 10);
      O["v"] = SS.str().str();
    }
    else if (auto *B = dyn_cast<BindingDecl>(D)) { O["dk"] = "binding"; (void)B; }
    else if (auto *V = dyn_cast<VarDecl>(D)) {
      O["dk"] = V->isLocalVarDecl() ? "local" : "global";
      if (!V->isLocalVarDecl()) O["qn"] = qname(V);
      if (V->getType().isConstQualified() && !V->getType()->isDependentType() && V->getInit() && !V->getInit()->isValueDependent() && V->getType()->isIntegralOrEnumerationType()) {
        Expr::EvalResult R;
        if (V->getInit()->EvaluateAsInt(R, C)) {
          llvm::SmallString<32> SS; R.Val.getInt().toString(SS, 10);
          O["v"] = SS.str().str();
        }
      }
    }
    else { O["dk"] = "other"; O["qn"] = qname(D); }
    return O;
  }
  if (auto *P = dyn_cast<MemberExpr>(X)) {
    auto O = node("mem", X);
    auto *D = P->getMemberDecl();
    O["name"] = D->getNameAsString();
    if (auto *V = dyn_cast<VarDecl>(D)) { // static member
      O["k"] = "ref"; O["dk"] = "global"; O["qn"] = qname(V); O["id"] = id(V); return O;
    }
    if (isa<FunctionDecl>(D)) { O["method"] = true; O["fid"] = fid(cast<FunctionDecl>(D)); }
    O["qn"] = qname(D);
    O["ty"] = ty(D->getType());
    O["e"] = E(P->getBase());
    O["arrow"] = P->isArrow();
    if (P->isImplicitAccess()) O["impl"] = true;
    return O;
  }
  if (auto *P = dyn_cast<CXXOperatorCallExpr>(X)) {
    auto O = node("opcall", X);
    O["op"] = getOperatorSpelling(P->getOperator());
    if (auto *F = P->getDirectCallee()) {
      calleeInfo(O, F);
      if (isa<CXXMethodDecl>(F)) O["member"] = true;
    } else O["callee"] = E(P->getCallee());
    O["args"] = args(P->arguments());
    O["ty"] = ty(P->getType());
    return O;
  }
  if (auto *P = dyn_cast<CXXMemberCallExpr>(X)) {
    auto O = node("mcall", X);
    if (auto *M = P->getMethodDecl()) calleeInfo(O, M);
    if (auto *ME = dyn_cast<MemberExpr>(P->getCallee()->IgnoreParenImpCasts())) {
      O["obj"] = E(ME->getBase());
      O["arrow"] = ME->isArrow();
      if (ME->hasQualifier()) O["qualified"] = true;
    } else O["callee"] = E(P->getCallee());
    O["args"] = args(P->arguments());
    O["ty"] = ty(P->getType());
    return O;
  }
  if (auto *P = dyn_cast<CallExpr>(X)) {
    auto O = node("call", X);
    if (auto *F = P->getDirectCallee()) calleeInfo(O, F);
    else O["callee"] = E(P->getCallee());
    O["args"] = args(P->arguments());
    O["ty"] = ty(P->getType());
    return O;
  }
  if (auto *P = dyn_cast<CXXConstructExpr>(X)) {
    auto O = node("ctor", X);
    O["ty"] = ty(P->getType());
    O["cls"] = qname(P->getConstructor()->getParent());
    O["fid"] = fid(P->getConstructor());
    O["inrepo"] = inRoot(P->getConstructor());
    if (P->isListInitialization()) O["list"] = true;
    json::Array A;
    for (auto *Y : P->arguments()) A.push_back(E(Y));
    O["args"] = std::move(A);
    return O;
  }
  if (auto *P = dyn_cast<CXXInheritedCtorInitExpr>(X)) { auto O = node("ictor", X); O["ty"] = ty(P->getType()); return O; }
  if (auto *P = dyn_cast<BinaryOperator>(X)) {
    auto O = node(P->isAssignmentOp() ? "assign" : "bin", X);
    O["op"] = P->getOpcodeStr().str();
    O["a"] = E(P->getLHS());
    O["b"] = E(P->getRHS());
    O["ty"] = ty(P->getType());
    // an operand that may be negative is taken for an unsigned number
    auto signless = [&](const Expr *Q) {
      Q = Q->IgnoreParens();
      auto *K = dyn_cast<ImplicitCastExpr>(Q);
      if (!K || K->getCastKind() != CK_IntegralCast || K->isTypeDependent()) return false;
      const Expr *F = K->getSubExpr()->IgnoreParens();
      if (F->isTypeDependent() || F->isValueDependent()) return false;
      return K->getType()->isUnsignedIntegerType() && F->getType()->isSignedIntegerType() && !F->isEvaluatable(C);
    };
    if (signless(P->getLHS()) || signless(P->getRHS())) O["mix"] = true;
    if (P->isComparisonOp() && !P->getLHS()->getType()->isDependentType()) O["uns"] = P->getLHS()->getType()->isUnsignedIntegerType();
    return O;
  }
  if (auto *P = dyn_cast<UnaryOperator>(X)) {
    auto O = node("un", X);
    O["op"] = UnaryOperator::getOpcodeStr(P->getOpcode()).str();
    O["post"] = P->isPostfix();
    O["e"] = E(P->getSubExpr());
    O["ty"] = ty(P->getType());
    return O;
  }
  if (auto *P = dyn_cast<AbstractConditionalOperator>(X)) {
    auto O = node("cond", X);
    O["c"] = E(P->getCond()); O["a"] = E(P->getTrueExpr()); O["b"] = E(P->getFalseExpr());
    return O;
  }
  if (auto *P = dyn_cast<ArraySubscriptExpr>(X)) {
    auto O = node("index", X);
    O["e"] = E(P->getBase()); O["i"] = E(P->getIdx());
    return O;
  }
  if (auto *P = dyn_cast<ExplicitCastExpr>(X)) {
    auto O = node("cast", X);
    O["ty"] = ty(P->getType());
    O["fty"] = ty(P->getSubExpr()->getType());
    O["ck"] = P->getCastKindName();
    if (P->getCastKind() == CK_IntegralCast && !P->getType()->isDependentType() && !P->getSubExpr()->getType()->isDependentType() && !P->getSubExpr()->getType()->isEnumeralType()
        && C.getTypeSize(P->getType()) < C.getTypeSize(P->getSubExpr()->getType()))
      O["nar"] = true;
    O["e"] = E(P->getSubExpr());
    return O;
  }
  if (auto *P = dyn_cast<LambdaExpr>(X)) return lambda(P);
  if (auto *P = dyn_cast<CXXThrowExpr>(X)) {
    auto O = node("throw", X);
    if (P->getSubExpr()) { O["e"] = E(P->getSubExpr()); O["ty"] = ty(P->getSubExpr()->getType()); }
    return O;
  }
  if (auto *P = dyn_cast<InitListExpr>(X)) {
    auto O = node("ilist", X);
    O["ty"] = ty(P->getType());
    json::Array A;
    for (auto *Y : P->inits()) A.push_back(E(Y));
    O["args"] = std::move(A);
    if (auto *RT = P->getType()->getAsRecordDecl()) {
      json::Array Fs;
      for (auto *F : RT->fields()) Fs.push_back(F->getNameAsString());
      O["fields"] = std::move(Fs);
    }
    return O;
  }
  if (auto *P = dyn_cast<CXXNewExpr>(X)) {
    auto O = node("new", X);
    O["ty"] = ty(P->getAllocatedType());
    if (P->getNumPlacementArgs()) { json::Array A; for (auto *Y : P->placement_arguments()) A.push_back(E(Y)); O["place"] = std::move(A); }
    if (P->getInitializer()) O["e"] = E(P->getInitializer());
    return O;
  }
  if (auto *P = dyn_cast<CXXDeleteExpr>(X)) { auto O = node("delete", X); O["e"] = E(P->getArgument()); return O; }
  if (auto *P = dyn_cast<UnaryExprOrTypeTraitExpr>(X)) {
    Expr::EvalResult R;
    if (!X->isValueDependent() && X->EvaluateAsInt(R, C)) {
      auto O = node("int", X);
      llvm::SmallString<32> SS; R.Val.getInt().toString(SS, 10);
      O["v"] = SS.str().str(); return O;
    }
    (void)P;
    return node("sizeof", X);
  }
  if (isa<CXXScalarValueInitExpr>(X) || isa<ImplicitValueInitExpr>(X)) { auto O = node("zero", X); O["ty"] = ty(X->getType()); return O; }
  if (auto *P = dyn_cast<TypeTraitExpr>(X)) {
    if (!P->isValueDependent()) { auto O = node("bool", X); O["v"] = P->getValue(); return O; }
  }
  // dependent forms
  if (auto *P = dyn_cast<CXXDependentScopeMemberExpr>(X)) {
    auto O = node("mem", X); O["dep"] = true; O["name"] = P->getMember().getAsString();
    if (!P->isImplicitAccess()) O["e"] = E(P->getBase());
    json::Array TA; for (auto &T : P->template_arguments()) { std::string S2; llvm::raw_string_ostream OS(S2); T.getArgument().print(PP, OS, true); TA.push_back(OS.str()); }
    O["ta"] = std::move(TA);
    return O;
  }
  if (auto *P = dyn_cast<OverloadExpr>(X)) {
    auto O = node("ref", X); O["dk"] = "overload"; O["dep"] = true; O["name"] = P->getName().getAsString();
    json::Array TA; for (auto &T : P->template_arguments()) { std::string S2; llvm::raw_string_ostream OS(S2); T.getArgument().print(PP, OS, true); TA.push_back(OS.str()); }
    O["ta"] = std::move(TA);
    if (auto *UM = dyn_cast<UnresolvedMemberExpr>(P)) if (!UM->isImplicitAccess()) O["e"] = E(UM->getBase());
    return O;
  }
  if (auto *P = dyn_cast<DependentScopeDeclRefExpr>(X)) {
    auto O = node("ref", X); O["dk"] = "dep"; O["dep"] = true; O["name"] = P->getDeclName().getAsString();
    std::string S2; llvm::raw_string_ostream OS(S2); if (P->getQualifier()) P->getQualifier()->print(OS, PP);
    O["qual"] = OS.str();
    return O;
  }
  if (auto *P = dyn_cast<CXXUnresolvedConstructExpr>(X)) {
    auto O = node("ctor", X); O["dep"] = true; O["ty"] = ty(P->getTypeAsWritten());
    json::Array A; for (auto *Y : P->arguments()) A.push_back(E(Y)); O["args"] = std::move(A);
    return O;
  }
  if (auto *P = dyn_cast<ParenListExpr>(X)) {
    auto O = node("plist", X); json::Array A;
    for (unsigned i = 0; i < P->getNumExprs(); ++i) A.push_back(E(P->getExpr(i)));
    O["args"] = std::move(A); return O;
  }
  if (auto *P = dyn_cast<PackExpansionExpr>(X)) { auto O = node("pack", X); O["e"] = E(P->getPattern()); return O; }
  // fallback: dump children
  {
    auto O = node("other", X);
    O["cls"] = X->getStmtClassName();
    json::Array A;
    for (auto *Y : X->children()) if (auto *YE = dyn_cast_or_null<Expr>(Y)) A.push_back(E(YE));
    O["args"] = std::move(A);
    return O;
  }
}

json::Value Dumper::S(const Stmt *X) {
  if (!X) return nullptr;
  if (auto *P = dyn_cast<CompoundStmt>(X)) {
    auto O = node("block", X);
    json::Array A;
    for (auto *Y : P->body()) A.push_back(S(Y));
    O["s"] = std::move(A);
    return O;
  }
  if (auto *P = dyn_cast<IfStmt>(X)) {
    auto O = node("if", X);
    if (P->isConstexpr()) {
      O["cx"] = true;
      if (auto V = P->getNondiscardedCase(C)) {
        // only the live branch
        if (*V) return S(*V);
        return node("empty", X);
      }
    }
    if (P->getInit()) O["init"] = S(P->getInit());
    if (P->getConditionVariableDeclStmt()) O["cvar"] = S(P->getConditionVariableDeclStmt());
    O["c"] = E(P->getCond());
    O["t"] = S(P->getThen());
    if (P->getElse()) O["e"] = S(P->getElse());
    return O;
  }
  if (auto *P = dyn_cast<ForStmt>(X)) {
    auto O = node("for", X);
    O["init"] = S(P->getInit()); O["c"] = E(P->getCond()); O["inc"] = E(P->getInc()); O["body"] = S(P->getBody());
    return O;
  }
  if (auto *P = dyn_cast<CXXForRangeStmt>(X)) {
    auto O = node("rfor", X);
    O["var"] = varDecl(P->getLoopVariable());
    O["range"] = E(P->getRangeInit());
    O["body"] = S(P->getBody());
    return O;
  }
  if (auto *P = dyn_cast<WhileStmt>(X)) {
    auto O = node("while", X);
    if (P->getConditionVariableDeclStmt()) O["cvar"] = S(P->getConditionVariableDeclStmt());
    O["c"] = E(P->getCond()); O["body"] = S(P->getBody());
    return O;
  }
  if (auto *P = dyn_cast<DoStmt>(X)) {
    auto O = node("do", X);
    O["c"] = E(P->getCond()); O["body"] = S(P->getBody());
    return O;
  }
  if (auto *P = dyn_cast<ReturnStmt>(X)) {
    auto O = node("return", X);
    if (P->getRetValue()) O["e"] = E(P->getRetValue());
    return O;
  }
  if (isa<BreakStmt>(X)) return node("break", X);
  if (isa<ContinueStmt>(X)) return node("continue", X);
  if (isa<NullStmt>(X)) return node("empty", X);
  if (auto *P = dyn_cast<DeclStmt>(X)) {
    auto O = node("decl", X);
    json::Array A;
    for (auto *D : P->decls())
      if (auto *V = dyn_cast<VarDecl>(D)) A.push_back(varDecl(V));
    O["vars"] = std::move(A);
    return O;
  }
  if (auto *P = dyn_cast<SwitchStmt>(X)) {
    auto O = node("switch", X);
    O["c"] = E(P->getCond()); O["body"] = S(P->getBody());
    return O;
  }
  if (auto *P = dyn_cast<CaseStmt>(X)) {
    auto O = node("case", X);
    O["v"] = E(P->getLHS()); O["s"] = S(P->getSubStmt());
    return O;
  }
  if (auto *P = dyn_cast<DefaultStmt>(X)) { auto O = node("default", X); O["s"] = S(P->getSubStmt()); return O; }
  if (auto *P = dyn_cast<CXXTryStmt>(X)) {
    auto O = node("try", X);
    O["body"] = S(P->getTryBlock());
    json::Array A;
    for (unsigned i = 0; i < P->getNumHandlers(); ++i) {
      auto *H = P->getHandler(i);
      json::Object HO;
      HO["ty"] = H->getCaughtType().isNull() ? std::string("...") : ty(H->getCaughtType());
      HO["body"] = S(H->getHandlerBlock());
      A.push_back(std::move(HO));
    }
    O["handlers"] = std::move(A);
    return O;
  }
  if (auto *P = dyn_cast<AttributedStmt>(X)) return S(P->getSubStmt());
  if (auto *P = dyn_cast<LabelStmt>(X)) return S(P->getSubStmt());
  if (isa<GotoStmt>(X)) return node("goto", X);
  if (auto *P = dyn_cast<Expr>(X)) {
    auto O = node("expr", X);
    O["e"] = E(P);
    return O;
  }
  auto O = node("sother", X);
  O["cls"] = X->getStmtClassName();
  return O;
}

class V : public RecursiveASTVisitor<V> {
public:
  Dumper D;
  explicit V(ASTContext &C) : D(C) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool shouldVisitLambdaBody() const { return true; }
  void emit(json::Value Val, const std::string &Key) {
    if (!Seen.insert(Key).second) return;
    llvm::outs() << Val << "\n";
  }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody()) return true;
    if (!D.inRoot(F)) return true;
    if (F->isDefaulted() && !F->getBody()) return true;
    std::string Key = "f:" + D.fid(F) + ":" + D.fileOf(F->getLocation()) + ":" + std::to_string(D.lineOf(F->getLocation()));
    if (Seen.count(Key)) return true;
    emit(D.function(F), Key);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isLambda()) return true;
    if (!D.inRoot(R)) return true;
    std::string Q = D.qname(R);
    std::string full = D.ty(D.C.getRecordType(R));
    std::string Key = "r:" + full + ":" + D.fileOf(R->getLocation()) + ":" + std::to_string(D.lineOf(R->getLocation()));
    if (Seen.count(Key)) return true;
    json::Object O;
    O["k"] = "record"; O["qn"] = Q; O["ty"] = full; O["id"] = D.id(R);
    O["file"] = D.fileOf(R->getLocation()); O["line"] = (int64_t)D.lineOf(R->getLocation());
    O["dep"] = R->isDependentContext();
    O["inst"] = isa<ClassTemplateSpecializationDecl>(R);
    if (auto *SP = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
      json::Array A;
      for (auto &T : SP->getTemplateArgs().asArray()) { std::string S2; llvm::raw_string_ostream OS(S2); T.print(D.PP, OS, true); A.push_back(OS.str()); }
      O["ta"] = std::move(A);
    }
    O["poly"] = !R->isDependentContext() && R->isPolymorphic();
    json::Array B;
    for (auto &X : R->bases()) {
      json::Object BO; BO["ty"] = D.ty(X.getType()); BO["virt"] = X.isVirtual();
      if (auto *BR = X.getType()->getAsCXXRecordDecl()) BO["qn"] = D.qname(BR);
      B.push_back(std::move(BO));
    }
    O["bases"] = std::move(B);
    json::Array F;
    for (auto *X : R->fields()) {
      json::Object FO; FO["name"] = X->getNameAsString(); FO["ty"] = D.ty(X->getType()); FO["sty"] = X->getType().getAsString(D.PP);
      FO["access"] = (int64_t)X->getAccess(); FO["line"] = (int64_t)D.lineOf(X->getLocation());
      FO["mutable"] = X->isMutable();
      FO["hasinit"] = X->hasInClassInitializer();
      F.push_back(std::move(FO));
    }
    O["fields"] = std::move(F);
    json::Array Ms;
    for (auto *X : R->methods()) { if (!X->isImplicit()) { json::Object MO; MO["name"] = X->getNameAsString(); MO["fid"] = D.fid(X); MO["ty"]=D.ty(X->getType()); MO["virt"] = X->isVirtual(); MO["access"]=(int64_t)X->getAccess(); MO["del"] = X->isDeleted(); MO["def"] = X->isDefaulted(); Ms.push_back(std::move(MO)); } }
    O["methods"] = std::move(Ms);
    emit(std::move(O), Key);
    return true;
  }
  bool VisitVarDecl(VarDecl *Va) {
    if (isa<ParmVarDecl>(Va) || Va->isLocalVarDecl()) return true;
    if (!D.inRoot(Va) || !Va->hasGlobalStorage()) return true;
    std::string Key = "v:" + D.qname(Va) + ":" + D.fileOf(Va->getLocation()) + ":" + std::to_string(D.lineOf(Va->getLocation()));
    if (Seen.count(Key)) return true;
    json::Object O;
    O["k"] = "var"; O["qn"] = D.qname(Va); O["name"] = Va->getNameAsString(); O["ty"] = D.ty(Va->getType());
    O["file"] = D.fileOf(Va->getLocation()); O["line"] = (int64_t)D.lineOf(Va->getLocation());
    O["const"] = Va->getType().isConstQualified(); O["constexpr"] = Va->isConstexpr();
    O["tls"] = Va->getTLSKind() != VarDecl::TLS_None;
    if (!Va->getType()->isDependentType()) {
      if (Va->getInit() && !Va->getInit()->isValueDependent()) {
        O["init"] = D.E(Va->getInit());
        if (Va->isConstexpr()) {
          if (auto *Val = Va->evaluateValue()) {
            O["value"] = Val->getAsString(D.C, Va->getType());
          }
        }
      }
    }
    emit(std::move(O), Key);
    return true;
  }
};

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    V Vis(C);
    Vis.TraverseDecl(C.getTranslationUnitDecl());
  }
};
class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override {
    return std::make_unique<Consumer>();
  }
};
} // namespace

int main(int argc, char **argv) {
  // usage: esldump root[,root..] file -- flags...
  std::vector<std::string> Files, Flags;
  bool dd = false;
  for (int i = 1; i < argc; ++i) {
    std::string A = argv[i];
    if (!dd && A == "--") { dd = true; continue; }
    if (dd) Flags.push_back(A);
    else if (A.rfind("-root=", 0) == 0) Roots.push_back(A.substr(6));
    else Files.push_back(A);
  }
  tooling::FixedCompilationDatabase DB(".", Flags);
  tooling::ClangTool T(DB, Files);
  int R = T.run(tooling::newFrontendActionFactory<Action>().get());
  llvm::outs().flush();
  return R ? 3 : 0;
}
