// tvmx: type-resolved program extractor for jrl-umi3218/tvm (libTooling, clang 18).
//
// Parses one translation unit and writes, as one JSON document, every record, enum, namespace-scope
// variable and *defined* function (template instantiations included, uninstantiated patterns skipped)
// whose source lies under the given root. Bodies are written as a compact typed syntax tree with all
// callees and declarations resolved; implicit casts, parentheses and temporaries are stripped.
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <fstream>
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;

static std::string gRoot;
static std::string gOut;

namespace
{
struct Extractor : RecursiveASTVisitor<Extractor>
{
  ASTContext & C;
  SourceManager & SM;
  PrintingPolicy PP;
  json::Array funcs, records, enums, globals;
  std::set<std::string> seenF, seenR, seenE, seenG;
  std::map<const Decl *, int> localIds; // per function

  explicit Extractor(ASTContext & c) : C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy())
  {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.TerseOutput = true;
    PP.PrintCanonicalTypes = true;
    PP.SuppressUnwrittenScope = true;
    PP.SuppressDefaultTemplateArgs = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool shouldVisitLambdaBody() const { return true; }

  std::string fileOf(SourceLocation L)
  {
    L = SM.getExpansionLoc(L);
    if(L.isInvalid()) return "";
    auto f = SM.getFilename(L);
    llvm::SmallString<256> p(f);
    llvm::sys::fs::make_absolute(p);
    llvm::sys::path::remove_dots(p, true);
    return std::string(p.str());
  }
  bool inRoot(const Decl * D)
  {
    auto f = fileOf(D->getLocation());
    return f.rfind(gRoot, 0) == 0;
  }
  int line(SourceLocation L) { return (int)SM.getExpansionLineNumber(L); }
  std::string rel(std::string f) { return f.rfind(gRoot, 0) == 0 ? f.substr(gRoot.size()) : f; }

  std::string ty(QualType T)
  {
    if(T.isNull()) return "";
    return T.getCanonicalType().getAsString(PP);
  }
  std::string qn(const NamedDecl * D)
  {
    std::string s;
    llvm::raw_string_ostream os(s);
    D->getNameForDiagnostic(os, PP, true);
    return os.str();
  }
  // qualified name without template arguments
  std::string qplain(const NamedDecl * D)
  {
    std::string s;
    llvm::raw_string_ostream os(s);
    PrintingPolicy P2 = PP;
    D->printQualifiedName(os, P2);
    return os.str();
  }
  std::string fid(const FunctionDecl * F)
  {
    std::string s;
    if(auto * M = dyn_cast<CXXMethodDecl>(F); M && M->getParent()->isLambda())
      s = "lambda@" + rel(fileOf(M->getLocation())) + ":" + std::to_string(line(M->getLocation())) + ":"
          + std::to_string(SM.getExpansionColumnNumber(M->getLocation())) + "::" + M->getNameAsString();
    else
      s = qn(F);
    s += "(";
    bool first = true;
    for(auto * P : F->parameters())
    {
      if(!first) s += ", ";
      first = false;
      s += ty(P->getType());
    }
    s += ")";
    if(auto * M = dyn_cast<CXXMethodDecl>(F))
    {
      if(M->isConst()) s += " const";
      if(M->getRefQualifier() == RQ_RValue) s += " &&";
    }
    return s;
  }
  int localId(const Decl * D)
  {
    auto it = localIds.find(D);
    if(it != localIds.end()) return it->second;
    int n = (int)localIds.size();
    localIds[D] = n;
    return n;
  }

  // ---------------------------------------------------------------- expressions
  json::Object node(const char * k, const Stmt * S)
  {
    json::Object o;
    o["k"] = k;
    if(S) o["l"] = line(S->getBeginLoc());
    return o;
  }
  void constVal(json::Object & o, const Expr * E)
  {
    if(E->isValueDependent() || E->isTypeDependent()) return;
    QualType T = E->getType();
    if(T.isNull() || !T->isIntegralOrEnumerationType()) return;
    Expr::EvalResult R;
    if(E->EvaluateAsInt(R, C) && !R.HasSideEffects) o["cv"] = llvm::toString(R.Val.getInt(), 10);
  }
  json::Value list(llvm::ArrayRef<const Expr *> A)
  {
    json::Array a;
    for(auto * e : A) a.push_back(expr(e));
    return a;
  }
  template<typename R>
  json::Array args(R range)
  {
    json::Array a;
    for(auto * e : range) a.push_back(expr(e));
    return a;
  }
  void callee(json::Object & o, const FunctionDecl * F)
  {
    if(!F) return;
    o["f"] = qplain(F);
    o["fid"] = fid(F);
    o["n"] = F->getNameAsString();
    json::Array pt;
    for(auto * P : F->parameters()) pt.push_back(ty(P->getType()));
    o["pt"] = std::move(pt);
    if(inRoot(F)) o["repo"] = true;
    if(auto * M = dyn_cast<CXXMethodDecl>(F))
    {
      o["cls"] = qn(M->getParent());
      if(M->isConst()) o["const"] = true;
      if(M->isVirtual()) o["virt"] = true;
      if(M->isStatic()) o["static"] = true;
      if(M->getParent()->isLambda()) o["lambda"] = true;
    }
    if(F->isVariadic()) o["variadic"] = true;
    if(F->isNoReturn()) o["noreturn"] = true;
  }
  static const Expr * strip(const Expr * E)
  {
    while(true)
    {
      if(!E) return E;
      if(auto * X = dyn_cast<ParenExpr>(E)) { E = X->getSubExpr(); continue; }
      if(auto * X = dyn_cast<FullExpr>(E)) { E = X->getSubExpr(); continue; }
      if(auto * X = dyn_cast<MaterializeTemporaryExpr>(E)) { E = X->getSubExpr(); continue; }
      if(auto * X = dyn_cast<CXXBindTemporaryExpr>(E)) { E = X->getSubExpr(); continue; }
      if(auto * X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = X->getReplacement(); continue; }
      if(auto * X = dyn_cast<CXXStdInitializerListExpr>(E)) { E = X->getSubExpr(); continue; }
      if(auto * X = dyn_cast<CXXDefaultArgExpr>(E)) { E = X->getExpr(); continue; }
      if(auto * X = dyn_cast<CXXDefaultInitExpr>(E)) { E = X->getExpr(); continue; }
      if(auto * X = dyn_cast<CXXRewrittenBinaryOperator>(E)) { E = X->getSemanticForm(); continue; }
      if(auto * X = dyn_cast<ImplicitCastExpr>(E)) { E = X->getSubExpr(); continue; }
      if(auto * X = dyn_cast<OpaqueValueExpr>(E)) { if(X->getSourceExpr()) { E = X->getSourceExpr(); continue; } }
      return E;
    }
  }
  json::Value declRef(const ValueDecl * D, const Expr * E, const NestedNameSpecifier * = nullptr)
  {
    json::Object o = node("ref", E);
    o["n"] = D->getNameAsString();
    if(auto * P = dyn_cast<ParmVarDecl>(D)) { o["dk"] = "param"; o["d"] = localId(P); }
    else if(auto * B = dyn_cast<BindingDecl>(D)) { o["dk"] = "bind"; o["d"] = localId(B); }
    else if(auto * V = dyn_cast<VarDecl>(D))
    {
      if(V->isLocalVarDecl() && !V->isStaticLocal()) { o["dk"] = "var"; o["d"] = localId(V); }
      else if(V->isStaticLocal()) { o["dk"] = "var"; o["d"] = localId(V); o["staticlocal"] = true; }
      else { o["dk"] = "global"; o["q"] = qn(V); }
      if(V->getType()->isReferenceType()) o["isref"] = true;
    }
    else if(auto * EC = dyn_cast<EnumConstantDecl>(D))
    {
      o["dk"] = "enum"; o["q"] = qn(EC);
      o["v"] = llvm::toString(EC->getInitVal(), 10);
      if(auto * ED = dyn_cast<EnumDecl>(EC->getDeclContext())) o["et"] = qn(ED);
    }
    else if(auto * F = dyn_cast<FunctionDecl>(D)) { o["dk"] = "func"; o["q"] = qplain(F); o["fid"] = fid(F); if(inRoot(F)) o["repo"] = true; if(isa<CXXMethodDecl>(F)) o["meth"] = true; }
    else if(auto * F = dyn_cast<FieldDecl>(D)) { o["dk"] = "field"; o["q"] = qn(F); }
    else { o["dk"] = "other"; o["q"] = qn(D); }
    o["t"] = ty(D->getType());
    return o;
  }
  json::Value expr(const Expr * E0)
  {
    const Expr * E = strip(E0);
    if(!E) return nullptr;
    json::Object o;
    if(auto * X = dyn_cast<IntegerLiteral>(E)) { o = node("lit", E); o["v"] = llvm::toString(X->getValue(), 10, false); o["lt"] = "int"; return o; }
    if(auto * X = dyn_cast<CXXBoolLiteralExpr>(E)) { o = node("lit", E); o["v"] = X->getValue() ? "true" : "false"; o["lt"] = "bool"; return o; }
    if(auto * X = dyn_cast<FloatingLiteral>(E))
    {
      o = node("lit", E);
      llvm::SmallString<32> s; X->getValue().toString(s); o["v"] = s.str().str(); o["lt"] = "float"; return o;
    }
    if(auto * X = dyn_cast<clang::StringLiteral>(E)) { o = node("lit", E); o["v"] = X->isOrdinary() ? json::fixUTF8(X->getString()) : std::string("?"); o["lt"] = "str"; return o; }
    if(auto * X = dyn_cast<CharacterLiteral>(E)) { o = node("lit", E); o["v"] = std::to_string(X->getValue()); o["lt"] = "char"; return o; }
    if(isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { o = node("lit", E); o["v"] = "nullptr"; o["lt"] = "null"; return o; }
    if(isa<CXXThisExpr>(E)) { o = node("this", E); o["t"] = ty(E->getType()); return o; }
    if(auto * X = dyn_cast<DeclRefExpr>(E)) return declRef(X->getDecl(), E);
    if(auto * X = dyn_cast<MemberExpr>(E))
    {
      o = node("mem", E);
      o["n"] = X->getMemberDecl()->getNameAsString();
      if(auto * V = dyn_cast<VarDecl>(X->getMemberDecl())) { return declRef(V, E); }
      if(auto * V = dyn_cast<EnumConstantDecl>(X->getMemberDecl())) { return declRef(V, E); }
      o["q"] = qn(X->getMemberDecl());
      if(auto * F = dyn_cast<FunctionDecl>(X->getMemberDecl())) { o["dk"] = "method"; o["fid"] = fid(F); }
      else o["dk"] = "field";
      if(X->isArrow()) o["arrow"] = true;
      o["t"] = ty(E->getType());
      o["b"] = expr(X->getBase());
      return o;
    }
    if(auto * X = dyn_cast<CXXMemberCallExpr>(E))
    {
      o = node("call", E);
      o["t"] = ty(E->getType());
      if(X->getMethodDecl())
      {
        callee(o, X->getMethodDecl());
        const Expr * calleeE = strip(X->getCallee());
        if(auto * ME = dyn_cast<MemberExpr>(calleeE); ME && ME->hasQualifier()) o["nonvirt"] = true;
        o["obj"] = expr(X->getImplicitObjectArgument());
        o["objt"] = ty(X->getImplicitObjectArgument()->getType());
      }
      else
      { // pointer to member call
        o["n"] = "->*";
        o["fn"] = expr(X->getCallee());
        o["obj"] = expr(X->getImplicitObjectArgument());
      }
      o["args"] = args(X->arguments());
      return o;
    }
    if(auto * X = dyn_cast<CXXOperatorCallExpr>(E))
    {
      o = node("call", E);
      o["t"] = ty(E->getType());
      o["op"] = getOperatorSpelling(X->getOperator());
      auto * F = X->getDirectCallee();
      callee(o, F);
      if(F && isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic())
      {
        o["obj"] = expr(X->getArg(0));
        o["objt"] = ty(X->getArg(0)->getType());
        json::Array a;
        for(unsigned i = 1; i < X->getNumArgs(); ++i) a.push_back(expr(X->getArg(i)));
        o["args"] = std::move(a);
      }
      else
        o["args"] = args(X->arguments());
      return o;
    }
    if(auto * X = dyn_cast<CallExpr>(E))
    {
      o = node("call", E);
      o["t"] = ty(E->getType());
      if(auto * F = X->getDirectCallee()) callee(o, F);
      else o["fn"] = expr(X->getCallee());
      o["args"] = args(X->arguments());
      constVal(o, E);
      return o;
    }
    if(auto * X = dyn_cast<CXXConstructExpr>(E))
    {
      auto * Cd = X->getConstructor();
      // elide copy/move of temporaries and transparent wrappers
      if((X->isElidable()) && X->getNumArgs() >= 1) return expr(X->getArg(0));
      o = node("ctor", E);
      o["t"] = ty(E->getType());
      callee(o, Cd);
      if(Cd->isCopyConstructor()) o["copy"] = true;
      if(Cd->isMoveConstructor()) o["move"] = true;
      if(X->isListInitialization()) o["list"] = true;
      o["args"] = args(X->arguments());
      return o;
    }
    if(auto * X = dyn_cast<CXXInheritedCtorInitExpr>(E))
    {
      o = node("ctor", E); o["t"] = ty(E->getType()); callee(o, X->getConstructor()); o["inherited"] = true; o["args"] = json::Array(); return o;
    }
    if(auto * X = dyn_cast<CXXNewExpr>(E))
    {
      o = node("new", E);
      o["t"] = ty(X->getAllocatedType());
      if(X->getInitializer()) o["init"] = expr(X->getInitializer());
      if(X->getNumPlacementArgs() == 1) o["place"] = expr(X->getPlacementArg(0));
      if(X->isArray() && X->getArraySize() && *X->getArraySize()) o["size"] = expr(*X->getArraySize());
      return o;
    }
    if(auto * X = dyn_cast<CXXDeleteExpr>(E)) { o = node("delete", E); o["e"] = expr(X->getArgument()); if(X->isArrayForm()) o["array"] = true; return o; }
    if(auto * X = dyn_cast<CXXThrowExpr>(E))
    {
      o = node("throw", E);
      if(X->getSubExpr()) { o["t"] = ty(X->getSubExpr()->getType()); o["e"] = expr(X->getSubExpr()); }
      return o;
    }
    if(auto * X = dyn_cast<LambdaExpr>(E))
    {
      o = node("lambda", E);
      json::Array ps;
      auto * M = X->getCallOperator();
      if(M->isDependentContext()) { o["generic"] = true; o["fid"] = "lambda@" + rel(fileOf(M->getLocation())) + ":" + std::to_string(line(M->getLocation())) + ":" + std::to_string(SM.getExpansionColumnNumber(M->getLocation())); 
        json::Array fs;
        if(auto * FT = X->getLambdaClass()->getDependentLambdaCallOperator())
          for(auto * sp : FT->specializations()) if(sp->hasBody())
          {
            json::Object so; json::Array sps;
            for(auto * P : sp->parameters()) { json::Object po; po["n"] = P->getNameAsString(); po["d"] = localId(P); po["t"] = ty(P->getType()); sps.push_back(std::move(po)); }
            so["params"] = std::move(sps); so["body"] = stmt(sp->getBody()); fs.push_back(std::move(so));
          }
        o["specs"] = std::move(fs);
        return o; }
      for(auto * P : M->parameters()) { json::Object po; po["n"] = P->getNameAsString(); po["d"] = localId(P); po["t"] = ty(P->getType()); ps.push_back(std::move(po)); }
      o["params"] = std::move(ps);
      json::Array caps;
      auto ii = X->capture_init_begin();
      for(auto it = X->capture_begin(); it != X->capture_end(); ++it, ++ii)
      {
        json::Object c;
        if(it->capturesThis()) c["this"] = true;
        else if(it->capturesVariable())
        {
          c["n"] = it->getCapturedVar()->getNameAsString(); c["d"] = localId(it->getCapturedVar());
          c["byref"] = it->getCaptureKind() == LCK_ByRef;
          if(auto * VD = dyn_cast<VarDecl>(it->getCapturedVar()); VD && VD->isInitCapture() && *ii) c["init"] = expr(*ii);
        }
        caps.push_back(std::move(c));
      }
      o["caps"] = std::move(caps);
      o["fid"] = fid(M);
      o["body"] = stmt(M->getBody());
      return o;
    }
    if(auto * X = dyn_cast<InitListExpr>(E))
    {
      auto * S = X->isSemanticForm() ? X : (X->getSemanticForm() ? X->getSemanticForm() : X);
      o = node("init", E); o["t"] = ty(E->getType());
      json::Array a; for(auto * e : S->inits()) a.push_back(expr(e)); o["args"] = std::move(a);
      return o;
    }
    if(auto * X = dyn_cast<ConditionalOperator>(E))
    { o = node("cond", E); o["c"] = expr(X->getCond()); o["a"] = expr(X->getTrueExpr()); o["b"] = expr(X->getFalseExpr()); o["t"] = ty(E->getType()); constVal(o, E); return o; }
    if(auto * X = dyn_cast<CompoundAssignOperator>(E))
    { o = node("asg", E); o["op"] = X->getOpcodeStr().str(); o["a"] = expr(X->getLHS()); o["b"] = expr(X->getRHS()); return o; }
    if(auto * X = dyn_cast<BinaryOperator>(E))
    {
      if(X->getOpcode() == BO_Assign) { o = node("asg", E); o["op"] = "="; }
      else { o = node("bin", E); o["op"] = X->getOpcodeStr().str(); o["t"] = ty(E->getType()); constVal(o, E); }
      o["a"] = expr(X->getLHS()); o["b"] = expr(X->getRHS());
      return o;
    }
    if(auto * X = dyn_cast<UnaryOperator>(E))
    {
      o = node("un", E); o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if(X->isPostfix()) o["post"] = true;
      o["e"] = expr(X->getSubExpr()); o["t"] = ty(E->getType()); constVal(o, E); return o;
    }
    if(auto * X = dyn_cast<ArraySubscriptExpr>(E)) { o = node("sub", E); o["b"] = expr(X->getBase()); o["i"] = expr(X->getIdx()); o["t"] = ty(E->getType()); return o; }
    if(auto * X = dyn_cast<ExplicitCastExpr>(E))
    {
      o = node("cast", E); o["t"] = ty(X->getType()); o["e"] = expr(X->getSubExpr());
      o["ck"] = X->getStmtClassName(); constVal(o, E);
      return o;
    }
    if(auto * X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) { o = node("sizeof", E); constVal(o, E); return o; }
    if(auto * X = dyn_cast<SizeOfPackExpr>(E)) { o = node("lit", E); o["lt"] = "int"; if(!X->isValueDependent()) o["v"] = std::to_string(X->getPackLength()); return o; }
    if(auto * X = dyn_cast<CXXScalarValueInitExpr>(E)) { o = node("lit", E); o["v"] = "0"; o["lt"] = "zeroinit"; o["t"] = ty(E->getType()); return o; }
    if(isa<ImplicitValueInitExpr>(E)) { o = node("lit", E); o["v"] = "0"; o["lt"] = "zeroinit"; o["t"] = ty(E->getType()); return o; }
    if(auto * X = dyn_cast<TypeTraitExpr>(E)) { o = node("lit", E); o["lt"] = "bool"; if(!X->isValueDependent()) o["v"] = X->getValue() ? "true" : "false"; return o; }
    if(auto * X = dyn_cast<CXXNoexceptExpr>(E)) { o = node("lit", E); o["lt"] = "bool"; if(!X->isValueDependent()) o["v"] = X->getValue() ? "true" : "false"; return o; }
    if(auto * X = dyn_cast<CXXPseudoDestructorExpr>(E)) { o = node("pseudodtor", E); return o; }
    if(auto * X = dyn_cast<StmtExpr>(E)) { o = node("stmtexpr", E); o["body"] = stmt(X->getSubStmt()); return o; }
    if(auto * X = dyn_cast<CXXTypeidExpr>(E)) { o = node("typeid", E); if(!X->isTypeOperand()) o["e"] = expr(X->getExprOperand()); else o["t"] = ty(X->getTypeOperandSourceInfo()->getType()); return o; }
    if(auto * X = dyn_cast<PredefinedExpr>(E)) { o = node("lit", E); o["lt"] = "str"; o["v"] = "__func__"; return o; }
    if(auto * X = dyn_cast<ConceptSpecializationExpr>(E)) { o = node("lit", E); o["lt"] = "bool"; return o; }
    o = node("unk", E);
    o["cls"] = E->getStmtClassName();
    json::Array a; for(auto * s : E->children()) if(s) a.push_back(stmt(s)); o["args"] = std::move(a);
    return o;
  }
  // ---------------------------------------------------------------- statements
  json::Value varDecl(const VarDecl * V)
  {
    json::Object o;
    o["k"] = "var"; o["l"] = line(V->getLocation()); o["n"] = V->getNameAsString(); o["d"] = localId(V); o["t"] = ty(V->getType());
    if(V->getType()->isReferenceType()) o["isref"] = true;
    if(V->isStaticLocal()) o["static"] = true;
    if(V->getInit()) o["init"] = expr(V->getInit());
    if(auto * DD = dyn_cast<DecompositionDecl>(V))
    {
      json::Array b;
      for(auto * B : DD->bindings())
      {
        json::Object bo; bo["n"] = B->getNameAsString(); bo["d"] = localId(B);
        if(B->getBinding())
        {
          if(auto * DR = dyn_cast<DeclRefExpr>(strip(B->getBinding())))
          {
            if(auto * HV = dyn_cast<VarDecl>(DR->getDecl()); HV && HV->getInit()) bo["e"] = expr(HV->getInit());
            else bo["e"] = expr(B->getBinding());
          }
          else bo["e"] = expr(B->getBinding());
        }
        b.push_back(std::move(bo));
      }
      o["binds"] = std::move(b);
    }
    return o;
  }
  json::Value stmt(const Stmt * S)
  {
    if(!S) return nullptr;
    if(auto * E = dyn_cast<Expr>(S)) { json::Object o = node("expr", S); o["e"] = expr(E); return o; }
    json::Object o;
    if(auto * X = dyn_cast<CompoundStmt>(S)) { o = node("block", S); json::Array a; for(auto * s : X->body()) a.push_back(stmt(s)); o["s"] = std::move(a); return o; }
    if(auto * X = dyn_cast<DeclStmt>(S))
    {
      o = node("decl", S); json::Array a;
      for(auto * D : X->decls()) if(auto * V = dyn_cast<VarDecl>(D)) a.push_back(varDecl(V));
      o["vars"] = std::move(a); return o;
    }
    if(auto * X = dyn_cast<IfStmt>(S))
    {
      o = node("if", S);
      if(X->isConstexpr()) o["constexpr"] = true;
      if(X->getInit()) o["init"] = stmt(X->getInit());
      if(X->getConditionVariable()) o["var"] = varDecl(X->getConditionVariable());
      o["c"] = expr(X->getCond()); o["a"] = stmt(X->getThen()); if(X->getElse()) o["b"] = stmt(X->getElse());
      if(X->isConstexpr() && !X->getCond()->isValueDependent())
      { bool r; if(X->getCond()->EvaluateAsBooleanCondition(r, C)) o["cc"] = r; }
      return o;
    }
    if(auto * X = dyn_cast<ForStmt>(S))
    {
      o = node("for", S); if(X->getInit()) o["init"] = stmt(X->getInit()); if(X->getCond()) o["c"] = expr(X->getCond()); if(X->getInc()) o["inc"] = expr(X->getInc());
      o["body"] = stmt(X->getBody()); return o;
    }
    if(auto * X = dyn_cast<CXXForRangeStmt>(S))
    { o = node("rfor", S); o["var"] = varDecl(X->getLoopVariable()); o["range"] = expr(X->getRangeInit()); o["rt"] = ty(X->getRangeInit()->getType()); o["body"] = stmt(X->getBody()); return o; }
    if(auto * X = dyn_cast<WhileStmt>(S)) { o = node("while", S); if(X->getConditionVariable()) o["var"] = varDecl(X->getConditionVariable()); o["c"] = expr(X->getCond()); o["body"] = stmt(X->getBody()); return o; }
    if(auto * X = dyn_cast<DoStmt>(S)) { o = node("do", S); o["c"] = expr(X->getCond()); o["body"] = stmt(X->getBody()); return o; }
    if(auto * X = dyn_cast<ReturnStmt>(S)) { o = node("ret", S); if(X->getRetValue()) o["e"] = expr(X->getRetValue()); return o; }
    if(isa<BreakStmt>(S)) return node("break", S);
    if(isa<ContinueStmt>(S)) return node("continue", S);
    if(isa<NullStmt>(S)) return node("null", S);
    if(auto * X = dyn_cast<SwitchStmt>(S))
    { o = node("switch", S); if(X->getInit()) o["init"] = stmt(X->getInit()); if(X->getConditionVariable()) o["var"] = varDecl(X->getConditionVariable()); o["c"] = expr(X->getCond()); o["ct"] = ty(strip(X->getCond())->getType()); o["body"] = stmt(X->getBody()); if(X->isAllEnumCasesCovered()) o["covered"] = true; return o; }
    if(auto * X = dyn_cast<CaseStmt>(S)) { o = node("case", S); o["v"] = expr(X->getLHS()); o["s"] = stmt(X->getSubStmt()); return o; }
    if(auto * X = dyn_cast<DefaultStmt>(S)) { o = node("default", S); o["s"] = stmt(X->getSubStmt()); return o; }
    if(auto * X = dyn_cast<CXXTryStmt>(S))
    {
      o = node("try", S); o["body"] = stmt(X->getTryBlock()); json::Array h;
      for(unsigned i = 0; i < X->getNumHandlers(); ++i)
      { json::Object ho = node("catch", X->getHandler(i)); if(X->getHandler(i)->getExceptionDecl()) ho["var"] = varDecl(X->getHandler(i)->getExceptionDecl()); ho["body"] = stmt(X->getHandler(i)->getHandlerBlock()); h.push_back(std::move(ho)); }
      o["h"] = std::move(h); return o;
    }
    if(auto * X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    if(auto * X = dyn_cast<LabelStmt>(S)) { o = node("label", S); o["s"] = stmt(X->getSubStmt()); return o; }
    if(isa<GotoStmt>(S)) return node("goto", S);
    o = node("unkstmt", S); o["cls"] = S->getStmtClassName();
    return o;
  }
  // ---------------------------------------------------------------- declarations
  bool dependent(const FunctionDecl * F)
  {
    return F->isDependentContext() || F->getDescribedFunctionTemplate();
  }
  bool VisitFunctionDecl(FunctionDecl * F)
  {
    if(!F->doesThisDeclarationHaveABody() && !F->isDefaulted()) return true;
    if(!inRoot(F) || dependent(F)) return true;
    if(auto * M = dyn_cast<CXXMethodDecl>(F); M && M->getParent()->isLambda()) return true;
    if(F->isDefaulted() && !F->doesThisDeclarationHaveABody())
      return true;
    auto id = fid(F);
    if(F->isDeleted()) return true;
    if(!F->isExternallyVisible() && F->isGlobal() == false) {}
    if(!seenF.insert(id).second) return true;
    localIds.clear();
    json::Object o;
    o["fid"] = id;
    o["q"] = qplain(F);
    o["n"] = F->getNameAsString();
    o["file"] = rel(fileOf(F->getLocation()));
    o["l"] = line(F->getLocation());
    o["el"] = line(F->getEndLoc());
    o["rt"] = ty(F->getReturnType());
    json::Array ps;
    for(auto * P : F->parameters())
    {
      json::Object po; po["n"] = P->getNameAsString(); po["d"] = localId(P); po["t"] = ty(P->getType());
      if(P->hasDefaultArg() && !P->hasUninstantiatedDefaultArg() && !P->hasUnparsedDefaultArg()) po["def"] = expr(P->getDefaultArg());
      ps.push_back(std::move(po));
    }
    o["params"] = std::move(ps);
    if(F->isImplicit()) o["implicit"] = true;
    if(F->isDefaulted()) o["defaulted"] = true;
    if(F->isTemplateInstantiation()) o["inst"] = true;
    if(F->isInAnonymousNamespace() || F->getStorageClass() == SC_Static) o["internal"] = true;
    if(auto * M = dyn_cast<CXXMethodDecl>(F))
    {
      o["cls"] = qn(M->getParent());
      o["clsplain"] = qplain(M->getParent());
      if(M->isConst()) o["const"] = true;
      if(M->isVirtual()) o["virt"] = true;
      if(M->isStatic()) o["static"] = true;
      o["acc"] = (int)M->getAccess();
      json::Array ov; for(auto * b : M->overridden_methods()) ov.push_back(fid(b)); o["over"] = std::move(ov);
    }
    if(auto * K = dyn_cast<CXXConstructorDecl>(F))
    {
      o["ctor"] = true;
      if(K->isCopyConstructor()) o["copy"] = true;
      if(K->isMoveConstructor()) o["move"] = true;
      json::Array in;
      for(auto * I : K->inits())
      {
        json::Object io; io["l"] = line(I->getSourceLocation());
        if(I->isWritten()) io["written"] = true;
        if(I->isAnyMemberInitializer()) { io["field"] = qn(I->getAnyMember()); io["n"] = I->getAnyMember()->getNameAsString(); io["ft"] = ty(I->getAnyMember()->getType()); }
        else if(I->isBaseInitializer()) io["base"] = ty(QualType(I->getBaseClass(), 0));
        else if(I->isDelegatingInitializer()) io["deleg"] = true;
        io["e"] = expr(I->getInit());
        in.push_back(std::move(io));
      }
      o["inits"] = std::move(in);
    }
    if(isa<CXXDestructorDecl>(F)) o["dtor"] = true;
    if(auto * TA = F->getTemplateSpecializationArgs())
    { std::string s; llvm::raw_string_ostream os(s); for(auto & a : TA->asArray()) { a.print(PP, os, true); os << ";"; } o["targs"] = os.str(); }
    o["body"] = stmt(F->getBody());
    funcs.push_back(std::move(o));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl * R)
  {
    if(!R->isThisDeclarationADefinition() || !R->hasDefinition() || !inRoot(R) || R->isDependentContext() || R->isLambda() || R->getDescribedClassTemplate()) return true;
    if(isa<ClassTemplatePartialSpecializationDecl>(R)) return true;
    auto n = qn(R);
    if(!seenR.insert(n).second) return true;
    json::Object o;
    o["q"] = n; o["plain"] = qplain(R); o["file"] = rel(fileOf(R->getLocation())); o["l"] = line(R->getLocation());
    if(R->isPolymorphic()) o["poly"] = true;
    if(R->isAbstract()) o["abstract"] = true;
    if(auto * S = dyn_cast<ClassTemplateSpecializationDecl>(R))
    { json::Array ta; for(auto & a : S->getTemplateArgs().asArray()) { std::string s; llvm::raw_string_ostream os(s); a.print(PP, os, true); ta.push_back(os.str()); } o["targs"] = std::move(ta); }
    json::Array b;
    for(auto & B : R->bases()) { json::Object bo; bo["t"] = ty(B.getType()); bo["virt"] = B.isVirtual(); bo["acc"] = (int)B.getAccessSpecifier(); b.push_back(std::move(bo)); }
    o["bases"] = std::move(b);
    json::Array f;
    for(auto * F : R->fields())
    {
      json::Object fo; fo["n"] = F->getNameAsString(); fo["q"] = qn(F); fo["t"] = ty(F->getType()); fo["l"] = line(F->getLocation()); fo["acc"] = (int)F->getAccess();
      if(F->isMutable()) fo["mutable"] = true;
      if(F->hasInClassInitializer()) { if(F->getInClassInitializer()) { localIds.clear(); fo["init"] = expr(F->getInClassInitializer()); } else fo["hasinit"] = true; }
      f.push_back(std::move(fo));
    }
    o["fields"] = std::move(f);
    json::Array m;
    for(auto * M : R->methods())
    {
      json::Object mo; mo["fid"] = fid(M); mo["n"] = M->getNameAsString(); mo["l"] = line(M->getLocation()); mo["acc"] = (int)M->getAccess(); mo["rt"] = ty(M->getReturnType());
      if(M->isVirtual()) mo["virt"] = true;
      if(M->isPureVirtual()) mo["pure"] = true;
      if(M->isDeleted()) mo["deleted"] = true;
      if(M->isDefaulted()) mo["defaulted"] = true;
      if(M->isImplicit()) mo["implicit"] = true;
      if(M->isConst()) mo["const"] = true;
      if(M->isStatic()) mo["static"] = true;
      if(isa<CXXConstructorDecl>(M)) mo["ctor"] = true;
      if(isa<CXXDestructorDecl>(M)) mo["dtor"] = true;
      if(auto * K = dyn_cast<CXXConstructorDecl>(M)) { if(K->isCopyConstructor()) mo["copy"] = true; if(K->isMoveConstructor()) mo["move"] = true; }
      if(M->isCopyAssignmentOperator()) mo["copyasg"] = true;
      if(M->isMoveAssignmentOperator()) mo["moveasg"] = true;
      json::Array ov; for(auto * x : M->overridden_methods()) ov.push_back(fid(x)); mo["over"] = std::move(ov);
      m.push_back(std::move(mo));
    }
    o["methods"] = std::move(m);
    // method templates (names only) and friends
    json::Array fr;
    for(auto * F : R->friends()) { if(F->getFriendDecl()) fr.push_back(qn(F->getFriendDecl())); else if(F->getFriendType()) fr.push_back(ty(F->getFriendType()->getType())); }
    o["friends"] = std::move(fr);
    records.push_back(std::move(o));
    return true;
  }
  bool VisitEnumDecl(EnumDecl * E)
  {
    if(!E->isThisDeclarationADefinition() || !inRoot(E) || E->isDependentContext()) return true;
    auto n = qn(E);
    if(!seenE.insert(n).second) return true;
    json::Object o; o["q"] = n; o["file"] = rel(fileOf(E->getLocation())); o["l"] = line(E->getLocation());
    json::Array a; for(auto * c : E->enumerators()) { json::Object co; co["n"] = c->getNameAsString(); co["v"] = llvm::toString(c->getInitVal(), 10); a.push_back(std::move(co)); }
    o["vals"] = std::move(a);
    enums.push_back(std::move(o));
    return true;
  }
  bool VisitVarDecl(VarDecl * V)
  {
    if(V->isLocalVarDecl() || isa<ParmVarDecl>(V) || !inRoot(V)) return true;
    if(V->getDeclContext()->isDependentContext() || V->isTemplated()) return true;
    auto n = qn(V);
    if(!V->hasInit() && !V->isThisDeclarationADefinition()) return true;
    if(!seenG.insert(n).second) return true;
    localIds.clear();
    json::Object o; o["q"] = n; o["n"] = V->getNameAsString(); o["t"] = ty(V->getType()); o["file"] = rel(fileOf(V->getLocation())); o["l"] = line(V->getLocation());
    if(V->getInit() && !V->getInit()->isValueDependent()) o["init"] = expr(V->getInit());
    globals.push_back(std::move(o));
    return true;
  }
};

struct Consumer : ASTConsumer
{
  std::vector<Decl *> tops; // declarations of this unit (not those of the precompiled third-party headers)
  bool HandleTopLevelDecl(DeclGroupRef g) override
  {
    for(auto * D : g) tops.push_back(D);
    return true;
  }
  void HandleTranslationUnit(ASTContext & C) override
  {
    Extractor X(C);
    for(auto * D : tops)
      if(!C.getSourceManager().isInSystemHeader(C.getSourceManager().getExpansionLoc(D->getLocation()))) X.TraverseDecl(D);
    json::Object top;
    top["errors"] = (int)C.getDiagnostics().getClient()->getNumErrors();
    top["funcs"] = std::move(X.funcs);
    top["records"] = std::move(X.records);
    top["enums"] = std::move(X.enums);
    top["globals"] = std::move(X.globals);
    std::error_code ec;
    llvm::raw_fd_ostream os(gOut, ec);
    os << json::Value(std::move(top));
  }
};
struct Action : ASTFrontendAction
{
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override { return std::make_unique<Consumer>(); }
};
struct Factory : tooling::FrontendActionFactory
{
  std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); }
};
} // namespace

// usage: tvmx ROOT OUT.json FILE -- flags...
int main(int argc, char ** argv)
{
  if(argc < 5) { llvm::errs() << "usage: tvmx ROOT OUT FILE -- flags\n"; return 2; }
  gRoot = argv[1]; gOut = argv[2];
  std::string file = argv[3];
  std::vector<std::string> flags;
  for(int i = 5; i < argc; ++i) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool tool(db, {file});
  Factory f;
  return tool.run(&f);
}
