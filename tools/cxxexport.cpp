// cxxexport: prints, as JSON, the typed bodies of every function defined in files
// below a given root (by default /repo/src), as clang 18 sees them when compiling
// the given translation unit with the project's flags.  Template functions are
// printed once per instantiation.  Nothing is simplified except that parentheses,
// cleanups, materialisation of temporaries and lvalue-to-rvalue markers are skipped.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace clang;
namespace J = llvm::json;

static std::string Root = "/repo/src/";

struct Exporter : RecursiveASTVisitor<Exporter> {
  ASTContext &C;
  SourceManager &SM;
  J::Array Funcs, Records, Vars, Enums;
  std::map<const Decl *, int> Ids;
  std::set<const Decl *> Seen;

  explicit Exporter(ASTContext &C) : C(C), SM(C.getSourceManager()) {}

  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }

  int id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto It = Ids.find(D);
    if (It != Ids.end()) return It->second;
    int N = Ids.size() + 1;
    Ids[D] = N;
    return N;
  }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto F = SM.getFilename(L);
    return F.str();
  }
  bool inRoot(const Decl *D) {
    auto F = fileOf(D->getLocation());
    return F.rfind(Root, 0) == 0;
  }
  int line(SourceLocation L) { return SM.getExpansionLineNumber(L); }

  std::string qname(const NamedDecl *D) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    PrintingPolicy P(C.getLangOpts());
    P.SuppressTagKeyword = true;
    D->printQualifiedName(OS, P);
    return OS.str();
  }

  J::Value typ(QualType T) {
    // keep the names of FLINT typedefs (fmpz_t is just slong[1] canonically)
    QualType W = T;
    while (true) {
      if (auto *DT = dyn_cast<DecayedType>(W.getTypePtr())) { W = DT->getOriginalType(); continue; }
      if (auto *AT = dyn_cast<AdjustedType>(W.getTypePtr())) { W = AT->getOriginalType(); continue; }
      if (auto *ET = dyn_cast<ElaboratedType>(W.getTypePtr())) { W = ET->getNamedType().withFastQualifiers(W.getLocalFastQualifiers()); continue; }
      if (auto *PT = dyn_cast<ParenType>(W.getTypePtr())) { W = PT->getInnerType(); continue; }
      if (auto *ST = dyn_cast<SubstTemplateTypeParmType>(W.getTypePtr())) { W = ST->getReplacementType().withFastQualifiers(W.getLocalFastQualifiers()); continue; }
      if (auto *DT = dyn_cast<AutoType>(W.getTypePtr())) { if (DT->isDeduced()) { W = DT->getDeducedType().withFastQualifiers(W.getLocalFastQualifiers()); continue; } }
      if (auto *TT = dyn_cast<TypedefType>(W.getTypePtr())) {
        auto F = fileOf(TT->getDecl()->getLocation());
        if (F.find("/flint") != std::string::npos || F.find("gmp") != std::string::npos) {
          auto N = TT->getDecl()->getNameAsString();
          if (N != "ulong" && N != "slong" && N != "mp_limb_t" && N != "mp_limb_signed_t")
            return J::Object{{"k", "flint"}, {"n", N}, {"const", T.isConstQualified() || W.isConstQualified()}};
        }
        bool cq = W.isConstQualified();
        W = TT->desugar();
        if (cq) W = W.withConst();
        continue;
      }
      break;
    }
    // references and pointers keep sugar of the pointee
    if (auto *R = dyn_cast<ReferenceType>(W.getTypePtr()))
      return J::Object{{"k", "ref"}, {"rv", isa<RValueReferenceType>(R)}, {"t", typ(R->getPointeeTypeAsWritten())}};
    if (auto *P = dyn_cast<PointerType>(W.getTypePtr()))
      return J::Object{{"k", "ptr"}, {"t", typ(P->getPointeeType())}};
    QualType Q = W.getCanonicalType();
    bool cst = Q.isConstQualified() || W.isConstQualified();
    const Type *Ty = Q.getTypePtr();
    if (auto *B = dyn_cast<BuiltinType>(Ty)) {
      if (B->isVoidType()) return J::Object{{"k", "void"}};
      if (B->getKind() == BuiltinType::Bool) return J::Object{{"k", "int"}, {"n", "bool"}, {"const", cst}};
      if (B->getKind() == BuiltinType::Char_S || B->getKind() == BuiltinType::Char_U)
        return J::Object{{"k", "int"}, {"n", "char"}, {"const", cst}};
      if (B->isInteger()) {
        std::string N = (B->isSignedInteger() ? "i" : "u") + std::to_string(C.getTypeSize(Q));
        return J::Object{{"k", "int"}, {"n", N}, {"const", cst}};
      }
      if (B->isFloatingPoint()) return J::Object{{"k", "float"}, {"n", (int)C.getTypeSize(Q)}, {"const", cst}};
      if (B->getKind() == BuiltinType::NullPtr) return J::Object{{"k", "nullptr"}};
      return J::Object{{"k", "other"}, {"n", Q.getAsString()}};
    }
    if (auto *E = dyn_cast<EnumType>(Ty))
      return J::Object{{"k", "enum"}, {"n", qname(E->getDecl())}, {"const", cst}};
    if (auto *A = dyn_cast<ConstantArrayType>(Ty))
      return J::Object{{"k", "arr"}, {"t", typ(A->getElementType())}, {"n", (int64_t)A->getSize().getZExtValue()}};
    if (auto *R = dyn_cast<RecordType>(Ty)) {
      auto *RD = R->getDecl();
      if (auto *CR = dyn_cast<CXXRecordDecl>(RD))
        if (CR->isLambda()) return J::Object{{"k", "lambda"}, {"id", id(CR)}};
      J::Array Args;
      if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(RD)) {
        for (auto &A : S->getTemplateArgs().asArray()) targ(Args, A);
      }
      return J::Object{{"k", "rec"}, {"n", qname(RD)}, {"args", std::move(Args)}, {"const", cst}};
    }
    return J::Object{{"k", "other"}, {"n", Q.getAsString()}};
  }
  void targ(J::Array &Args, const TemplateArgument &A) {
    if (A.getKind() == TemplateArgument::Type) Args.push_back(typ(A.getAsType()));
    else if (A.getKind() == TemplateArgument::Integral) Args.push_back(J::Object{{"k", "val"}, {"v", (int64_t)A.getAsIntegral().getExtValue()}});
    else if (A.getKind() == TemplateArgument::Pack) for (auto &X : A.pack_elements()) targ(Args, X);
    else Args.push_back(J::Object{{"k", "other"}, {"n", "targ"}});
  }

  std::string fid(const FunctionDecl *F) {
    // identity of a function across translation units
    std::string S = qname(F);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (auto *Sp = dyn_cast<ClassTemplateSpecializationDecl>(M->getParent())) {
        S += "<";
        for (auto &A : Sp->getTemplateArgs().asArray()) if (A.getKind() == TemplateArgument::Type) S += A.getAsType().getCanonicalType().getAsString() + ",";
        S += ">";
      }
    }
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      S += "<";
      for (auto &A : TA->asArray()) if (A.getKind() == TemplateArgument::Type) S += A.getAsType().getCanonicalType().getAsString() + ",";
      S += ">";
    }
    S += "(";
    bool first = true;
    for (auto *P : F->parameters()) { if (!first) S += ","; first = false; S += P->getType().getCanonicalType().getAsString(); }
    S += ")";
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->isConst()) S += "const";
    return S;
  }

  J::Value exprs(ArrayRef<const Expr *> L) { J::Array A; for (auto *E : L) A.push_back(expr(E)); return A; }
  template <class R> J::Value exprRange(R Rg) { J::Array A; for (auto *E : Rg) A.push_back(expr(E)); return A; }

  J::Value un(const char *K, const Stmt *S) {
    std::string T; llvm::raw_string_ostream OS(T);
    S->printPretty(OS, nullptr, PrintingPolicy(C.getLangOpts()));
    return J::Object{{"k", "Unsupported"}, {"what", std::string(K) + ":" + S->getStmtClassName()}, {"text", OS.str()}, {"line", line(S->getBeginLoc())}};
  }

  J::Value callee(const FunctionDecl *F) {
    J::Object O{{"name", qname(F)}, {"fid", fid(F)}, {"repo", inRoot(F)}, {"variadic", F->isVariadic()}};
    J::Array P;
    for (auto *A : F->parameters()) P.push_back(typ(A->getType()));
    O["params"] = std::move(P);
    O["ret"] = typ(F->getReturnType());
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      J::Array T;
      for (auto &A : TA->asArray()) targ(T, A);
      O["targs"] = std::move(T);
    }
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["method"] = true; O["const"] = M->isConst(); O["static"] = M->isStatic(); O["virtual"] = M->isVirtual();
      O["cls"] = qname(M->getParent());
    }
    return O;
  }

  J::Value expr(const Expr *E) {
    if (!E) return nullptr;
    if (auto *P = dyn_cast<ParenExpr>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<FullExpr>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(P->getReplacement());
    if (auto *P = dyn_cast<CXXRewrittenBinaryOperator>(E)) return expr(P->getSemanticForm());
    if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) return J::Object{{"k", "StdInit"}, {"e", expr(P->getSubExpr())}};
    J::Object O;
    O["line"] = line(E->getBeginLoc());
    O["t"] = typ(E->getType());
    if (auto *X = dyn_cast<IntegerLiteral>(E)) {
      llvm::SmallString<32> S; X->getValue().toString(S, 10, X->getType()->isSignedIntegerType());
      O["k"] = "Int"; O["v"] = std::string(S.str()); return O;
    }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) { O["k"] = "Bool"; O["v"] = X->getValue(); return O; }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) { O["k"] = "Char"; O["v"] = (int64_t)X->getValue(); return O; }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) { O["k"] = "Float"; O["v"] = X->getValueAsApproximateDouble(); return O; }
    if (auto *X = dyn_cast<StringLiteral>(E)) { O["k"] = "Str"; O["v"] = X->getString().str(); return O; }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { O["k"] = "Null"; return O; }
    if (isa<CXXThisExpr>(E)) { O["k"] = "This"; return O; }
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      auto *D = X->getDecl();
      O["k"] = "Ref"; O["name"] = D->getNameAsString(); O["q"] = qname(D); O["id"] = id(D);
      O["dk"] = isa<ParmVarDecl>(D) ? "param" : isa<EnumConstantDecl>(D) ? "enumc" : isa<FunctionDecl>(D) ? "func" :
                isa<VarDecl>(D) ? (cast<VarDecl>(D)->isLocalVarDecl() ? "local" : "global") : isa<BindingDecl>(D) ? "binding" : "other";
      if (auto *V = dyn_cast<VarDecl>(D)) { if (V->isStaticLocal()) O["dk"] = "staticlocal"; O["dt"] = typ(V->getType()); }
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) O["v"] = (int64_t)EC->getInitVal().getExtValue();
      if (auto *F = dyn_cast<FunctionDecl>(D)) O["fn"] = callee(F);
      if (auto *BD = dyn_cast<BindingDecl>(D)) if (BD->getBinding()) O["bind"] = expr(BD->getBinding());
      return O;
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      O["k"] = "Member"; O["name"] = X->getMemberDecl()->getNameAsString(); O["arrow"] = X->isArrow();
      O["base"] = expr(X->getBase());
      if (auto *V = dyn_cast<VarDecl>(X->getMemberDecl())) { O["staticvar"] = qname(V); }
      if (auto *F = dyn_cast<FieldDecl>(X->getMemberDecl())) { O["fieldt"] = typ(F->getType()); O["cls"] = qname(cast<NamedDecl>(F->getParent())); }
      return O;
    }
    if (auto *X = dyn_cast<CastExpr>(E)) {
      auto K = X->getCastKind();
      switch (K) {
      case CK_LValueToRValue: case CK_FunctionToPointerDecay: case CK_ArrayToPointerDecay: case CK_NoOp:
      case CK_ConstructorConversion: case CK_UserDefinedConversion: case CK_BuiltinFnToFnPtr:
        if (isa<ImplicitCastExpr>(E) || K != CK_NoOp) { return expr(X->getSubExpr()); }
        // explicit no-op cast (e.g. static_cast<X&&>)
        return expr(X->getSubExpr());
      default: break;
      }
      O["k"] = "Cast"; O["ck"] = X->getCastKindName(); O["e"] = expr(X->getSubExpr()); O["explicit"] = isa<ExplicitCastExpr>(E);
      O["from"] = typ(X->getSubExpr()->getType());
      return O;
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      O["k"] = "Unary"; O["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str(); O["post"] = X->isPostfix(); O["e"] = expr(X->getSubExpr()); return O;
    }
    if (auto *X = dyn_cast<CompoundAssignOperator>(E)) {
      O["k"] = "CompoundAssign"; O["op"] = BinaryOperator::getOpcodeStr(X->getOpcode()).str();
      O["l"] = expr(X->getLHS()); O["r"] = expr(X->getRHS()); O["ct"] = typ(X->getComputationLHSType()); O["cr"] = typ(X->getComputationResultType()); return O;
    }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      O["k"] = X->isAssignmentOp() ? "Assign" : "Binary"; O["op"] = BinaryOperator::getOpcodeStr(X->getOpcode()).str();
      O["l"] = expr(X->getLHS()); O["r"] = expr(X->getRHS()); return O;
    }
    if (auto *X = dyn_cast<ConditionalOperator>(E)) {
      O["k"] = "Cond"; O["c"] = expr(X->getCond()); O["a"] = expr(X->getTrueExpr()); O["b"] = expr(X->getFalseExpr()); return O;
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) { O["k"] = "Index"; O["base"] = expr(X->getBase()); O["i"] = expr(X->getIdx()); return O; }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      O["k"] = "OpCall"; O["op"] = getOperatorSpelling(X->getOperator());
      O["args"] = exprRange(X->arguments());
      if (auto *F = X->getDirectCallee()) O["fn"] = callee(F);
      return O;
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      auto *Obj = X->getImplicitObjectArgument();
      O["k"] = "MCall"; O["obj"] = expr(Obj); O["objt"] = typ(Obj->getType());
      bool arrow = false;
      if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) arrow = ME->isArrow();
      O["arrow"] = arrow;
      if (auto *M = X->getMethodDecl()) { O["name"] = M->getNameAsString(); O["fn"] = callee(M); }
      O["args"] = exprRange(X->arguments());
      return O;
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      O["k"] = "Call";
      if (auto *F = X->getDirectCallee()) { O["fn"] = callee(F); O["name"] = qname(F); }
      else O["target"] = expr(X->getCallee());
      O["args"] = exprRange(X->arguments());
      return O;
    }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) return un("expr", X);
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      auto *CD = X->getConstructor();
      O["k"] = "Construct"; O["args"] = exprRange(X->arguments());
      O["copy"] = CD->isCopyConstructor(); O["move"] = CD->isMoveConstructor(); O["default"] = CD->isDefaultConstructor();
      O["list"] = X->isListInitialization(); O["userprovided"] = CD->isUserProvided();
      O["fn"] = callee(CD);
      return O;
    }
    if (auto *X = dyn_cast<CXXScalarValueInitExpr>(E)) { O["k"] = "ValueInit"; return O; }
    if (auto *X = dyn_cast<ImplicitValueInitExpr>(E)) { O["k"] = "ValueInit"; return O; }
    if (auto *X = dyn_cast<InitListExpr>(E)) { O["k"] = "InitList"; O["args"] = exprRange(X->inits()); return O; }
    if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) return expr(X->getExpr());
    if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) return expr(X->getExpr());
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) { O["k"] = "Throw"; O["e"] = expr(X->getSubExpr()); return O; }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) { O["k"] = "New"; O["alloc"] = typ(X->getAllocatedType()); O["init"] = expr(X->getInitializer()); O["array"] = X->isArray(); return O; }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) { O["k"] = "Delete"; O["e"] = expr(X->getArgument()); return O; }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      O["k"] = "Lambda"; O["lid"] = id(X->getLambdaClass());
      J::Array Cs;
      for (auto &Cp : X->captures()) {
        if (Cp.capturesThis()) Cs.push_back(J::Object{{"this", true}});
        else if (Cp.capturesVariable()) Cs.push_back(J::Object{{"name", Cp.getCapturedVar()->getNameAsString()}, {"id", id(Cp.getCapturedVar())}, {"ref", Cp.getCaptureKind() == LCK_ByRef}});
      }
      O["captures"] = std::move(Cs);
      O["fdef"] = func(X->getCallOperator());
      return O;
    }
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      Expr::EvalResult R;
      if (X->EvaluateAsInt(R, C)) { O["k"] = "Int"; O["v"] = std::to_string(R.Val.getInt().getExtValue()); return O; }
      return un("expr", E);
    }
    if (auto *X = dyn_cast<SizeOfPackExpr>(E)) { O["k"] = "Int"; O["v"] = std::to_string(X->getPackLength()); return O; }
    if (auto *X = dyn_cast<StmtExpr>(E)) return un("expr", X);
    return un("expr", E);
  }

  J::Value varDecl(const VarDecl *V) {
    J::Object O{{"name", V->getNameAsString()}, {"id", id(V)}, {"t", typ(V->getType())}, {"line", line(V->getLocation())}};
    if (V->hasInit()) O["init"] = expr(V->getInit());
    if (V->isStaticLocal()) O["static"] = true;
    if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
      J::Array B; for (auto *X : DD->bindings()) B.push_back(J::Object{{"name", X->getNameAsString()}, {"id", id(X)}, {"t", typ(X->getType())}, {"e", X->getBinding() ? expr(X->getBinding()) : J::Value(nullptr)}});
      O["bindings"] = std::move(B);
    }
    return O;
  }

  J::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) return J::Object{{"k", "Expr"}, {"e", expr(E)}, {"line", line(E->getBeginLoc())}};
    J::Object O; O["line"] = line(S->getBeginLoc());
    if (auto *X = dyn_cast<CompoundStmt>(S)) { J::Array A; for (auto *B : X->body()) A.push_back(stmt(B)); O["k"] = "Block"; O["b"] = std::move(A); return O; }
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      J::Array A;
      for (auto *D : X->decls()) { if (auto *V = dyn_cast<VarDecl>(D)) A.push_back(varDecl(V)); else if (isa<TypedefNameDecl>(D) || isa<UsingDecl>(D) || isa<UsingDirectiveDecl>(D) || isa<StaticAssertDecl>(D) || isa<EmptyDecl>(D) || isa<TagDecl>(D)) continue; else A.push_back(J::Object{{"name", "?"}, {"unsupported", D->getDeclKindName()}}); }
      O["k"] = "Decl"; O["d"] = std::move(A); return O;
    }
    if (auto *X = dyn_cast<IfStmt>(S)) {
      if (X->isConstexpr()) { Expr::EvalResult R; if (X->getCond()->EvaluateAsInt(R, C)) { const Stmt *B = R.Val.getInt().getBoolValue() ? X->getThen() : X->getElse(); if (!B) { O["k"] = "Null"; return O; } return stmt(B); } }
      O["k"] = "If"; O["init"] = stmt(X->getInit()); if (X->getConditionVariable()) O["condvar"] = varDecl(X->getConditionVariable());
      O["c"] = expr(X->getCond()); O["a"] = stmt(X->getThen()); O["b"] = stmt(X->getElse()); return O;
    }
    if (auto *X = dyn_cast<WhileStmt>(S)) { O["k"] = "While"; if (X->getConditionVariable()) O["condvar"] = varDecl(X->getConditionVariable()); O["c"] = expr(X->getCond()); O["body"] = stmt(X->getBody()); return O; }
    if (auto *X = dyn_cast<DoStmt>(S)) { O["k"] = "Do"; O["c"] = expr(X->getCond()); O["body"] = stmt(X->getBody()); return O; }
    if (auto *X = dyn_cast<ForStmt>(S)) { O["k"] = "For"; O["init"] = stmt(X->getInit()); if (X->getConditionVariable()) O["condvar"] = varDecl(X->getConditionVariable()); O["c"] = expr(X->getCond()); O["inc"] = expr(X->getInc()); O["body"] = stmt(X->getBody()); return O; }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) { O["k"] = "RangeFor"; O["init"] = stmt(X->getInit()); O["var"] = varDecl(X->getLoopVariable()); O["range"] = expr(X->getRangeInit()); O["ranget"] = typ(X->getRangeInit()->getType()); O["body"] = stmt(X->getBody()); return O; }
    if (auto *X = dyn_cast<ReturnStmt>(S)) { O["k"] = "Return"; O["e"] = X->getRetValue() ? expr(X->getRetValue()) : J::Value(nullptr); return O; }
    if (isa<BreakStmt>(S)) { O["k"] = "Break"; return O; }
    if (isa<ContinueStmt>(S)) { O["k"] = "Continue"; return O; }
    if (isa<NullStmt>(S)) { O["k"] = "Null"; return O; }
    if (auto *X = dyn_cast<SwitchStmt>(S)) { O["k"] = "Switch"; O["c"] = expr(X->getCond()); O["body"] = stmt(X->getBody()); return O; }
    if (auto *X = dyn_cast<CaseStmt>(S)) {
      O["k"] = "Case"; Expr::EvalResult R; if (X->getLHS()->EvaluateAsInt(R, C)) O["v"] = (int64_t)R.Val.getInt().getExtValue(); O["s"] = stmt(X->getSubStmt()); return O; }
    if (auto *X = dyn_cast<DefaultStmt>(S)) { O["k"] = "Default"; O["s"] = stmt(X->getSubStmt()); return O; }
    if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    if (auto *X = dyn_cast<LabelStmt>(S)) { return un("stmt", X); }
    if (auto *X = dyn_cast<GCCAsmStmt>(S)) { if (X->getAsmString()->getString().empty() && X->getNumOutputs() == 0) { O["k"] = "Null"; return O; } return un("stmt", X); }
    return un("stmt", S);
  }

  J::Value func(const FunctionDecl *F) {
    J::Object O{{"name", qname(F)}, {"fid", fid(F)}, {"file", fileOf(F->getLocation())}, {"line", line(F->getBeginLoc())},
                {"endline", line(F->getEndLoc())}, {"ret", typ(F->getReturnType())}};
    J::Array P;
    for (auto *A : F->parameters()) P.push_back(J::Object{{"name", A->getNameAsString()}, {"id", id(A)}, {"t", typ(A->getType())}});
    O["params"] = std::move(P);
    if (auto *TA = F->getTemplateSpecializationArgs()) { J::Array T; for (auto &A : TA->asArray()) targ(T, A); O["targs"] = std::move(T); }
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = qname(M->getParent()); O["clst"] = typ(C.getRecordType(M->getParent()));
      O["static"] = M->isStatic(); O["const"] = M->isConst(); O["virtual"] = M->isVirtual();
    }
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
      O["ctor"] = true;
      J::Array I;
      for (auto *Init : K->inits()) {
        J::Object X; X["written"] = Init->isWritten();
        if (Init->isAnyMemberInitializer()) { X["kind"] = "field"; X["name"] = Init->getAnyMember()->getNameAsString(); X["ft"] = typ(Init->getAnyMember()->getType()); }
        else if (Init->isDelegatingInitializer()) X["kind"] = "delegating";
        else { X["kind"] = "base"; X["bt"] = typ(QualType(Init->getBaseClass(), 0)); }
        X["e"] = expr(Init->getInit());
        I.push_back(std::move(X));
      }
      O["inits"] = std::move(I);
    }
    if (isa<CXXDestructorDecl>(F)) O["dtor"] = true;
    O["body"] = stmt(F->getBody());
    return O;
  }

  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody() || F->isDependentContext() || F->isImplicit() || F->isDefaulted() || F->isDeleted()) return true;
    if (!inRoot(F)) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
    if (!Seen.insert(F).second) return true;
    Funcs.push_back(func(F));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || !inRoot(R) || R->isLambda()) return true;
    if (!Seen.insert(R).second) return true;
    J::Object O{{"name", qname(R)}, {"t", typ(C.getRecordType(R))}, {"line", line(R->getLocation())}, {"file", fileOf(R->getLocation())}};
    J::Array F;
    for (auto *X : R->fields()) { J::Object Y{{"name", X->getNameAsString()}, {"t", typ(X->getType())}}; if (X->hasInClassInitializer() && X->getInClassInitializer()) Y["init"] = expr(X->getInClassInitializer()); F.push_back(std::move(Y)); }
    O["fields"] = std::move(F);
    J::Array B; for (auto &X : R->bases()) B.push_back(typ(X.getType()));
    O["bases"] = std::move(B);
    O["dtor_user"] = R->getDestructor() && R->getDestructor()->isUserProvided();
    bool cc = false, ca = false; for (auto *K : R->ctors()) if (K->isCopyConstructor() && K->isUserProvided()) cc = true;
    for (auto *M : R->methods()) if (M->isCopyAssignmentOperator() && M->isUserProvided()) ca = true;
    O["copyctor_user"] = cc; O["copyassign_user"] = ca;
    Records.push_back(std::move(O));
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (!inRoot(E) || !Seen.insert(E).second) return true;
    J::Array A; for (auto *X : E->enumerators()) A.push_back(J::Object{{"name", X->getNameAsString()}, {"v", (int64_t)X->getInitVal().getExtValue()}});
    Enums.push_back(J::Object{{"name", qname(E)}, {"consts", std::move(A)}});
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (!inRoot(V) || V->isLocalVarDecl() || isa<ParmVarDecl>(V) || V->getDeclContext()->isDependentContext()) return true;
    if (!V->isThisDeclarationADefinition()) return true;
    if (!Seen.insert(V).second) return true;
    J::Object O{{"name", qname(V)}, {"t", typ(V->getType())}};
    if (V->hasInit()) O["init"] = expr(V->getInit());
    Vars.push_back(std::move(O));
    return true;
  }
};

struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    Exporter E(C);
    E.TraverseDecl(C.getTranslationUnitDecl());
    J::Object O{{"functions", std::move(E.Funcs)}, {"records", std::move(E.Records)}, {"vars", std::move(E.Vars)}, {"enums", std::move(E.Enums)}};
    llvm::outs() << J::Value(std::move(O)) << "\n";
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); }
};

int main(int argc, const char **argv) {
  if (const char *R = getenv("CXXEXPORT_ROOT")) Root = R;
  if (argc < 2) return 2;
  std::string File = argv[1];
  std::vector<std::string> Args;
  for (int i = 2; i < argc; ++i) Args.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", Args);
  tooling::ClangTool Tool(DB, {File});
  struct Fac : tooling::FrontendActionFactory { std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); } } F;
  return Tool.run(&F);
}
