// lcvx: mechanical extractor.  Parses a translation unit with clang and prints,
// as JSON, every non-dependent function definition (template instantiations
// included) whose qualified name matches one of the requested prefixes, plus
// the records they use.  Nothing is rewritten: the output is clang's typed AST
// with integral constant expressions folded.
#include <map>
#include <set>
#include <string>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/Mangle.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;
static llvm::cl::OptionCategory Cat("lcvx");
static llvm::cl::list<std::string> Prefixes("lcv-prefix", llvm::cl::desc("qualified-name prefix"), llvm::cl::cat(Cat));

struct X {
  ASTContext& C;
  PrintingPolicy PP;
  std::map<const Decl*, int> ids;
  std::set<const RecordDecl*> recs;
  std::vector<const RecordDecl*> recq;
  explicit X(ASTContext& c) : C(c), PP(c.getLangOpts()) { PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; }
  int id(const Decl* d) { d = d->getCanonicalDecl(); auto it = ids.find(d); if (it != ids.end()) return it->second; int n = ids.size() + 1; return ids[d] = n; }
  std::string tstr(QualType t) { return t.getCanonicalType().getUnqualifiedType().getAsString(PP); }
  Value type(QualType q) {
    q = q.getCanonicalType();
    bool cst = q.isConstQualified();
    Object o;
    const Type* t = q.getTypePtr();
    if (auto* r = dyn_cast<ReferenceType>(t)) { o["k"] = "ref"; o["to"] = type(r->getPointeeType()); }
    else if (auto* p = dyn_cast<PointerType>(t)) { o["k"] = "ptr"; o["to"] = type(p->getPointeeType()); }
    else if (auto* a = dyn_cast<ConstantArrayType>(t)) { o["k"] = "arr"; o["n"] = (int64_t)a->getSize().getZExtValue(); o["of"] = type(a->getElementType()); }
    else if (auto* b = dyn_cast<BuiltinType>(t)) {
      if (b->isVoidType()) o["k"] = "void";
      else if (b->getKind() == BuiltinType::Bool) o["k"] = "bool";
      else if (b->isInteger()) { o["k"] = "int"; o["w"] = (int64_t)C.getTypeSize(q); o["s"] = b->isSignedInteger(); }
      else if (b->isFloatingPoint()) { o["k"] = "float"; o["w"] = (int64_t)C.getTypeSize(q); }
      else { o["k"] = "other"; o["name"] = tstr(q); }
    } else if (auto* e = dyn_cast<EnumType>(t)) { o["k"] = "enum"; o["name"] = tstr(q); auto it = e->getDecl()->getIntegerType(); if (!it.isNull()) { o["w"] = (int64_t)C.getTypeSize(it); o["s"] = it->isSignedIntegerType(); } }
    else if (auto* r = dyn_cast<RecordType>(t)) { o["k"] = "rec"; o["name"] = tstr(q); use(r->getDecl()); }
    else { o["k"] = "other"; o["name"] = tstr(q); }
    if (cst) o["const"] = true;
    return Value(std::move(o));
  }
  void use(const RecordDecl* r) { r = cast<RecordDecl>(r->getCanonicalDecl()); if (recs.insert(r).second) recq.push_back(r); }
  Object loc(SourceLocation l) {
    auto& SM = C.getSourceManager(); l = SM.getExpansionLoc(l); auto p = SM.getPresumedLoc(l);
    Object o; if (p.isValid()) { o["f"] = p.getFilename(); o["l"] = (int64_t)p.getLine(); } return o;
  }
  int line(SourceLocation l) { auto& SM = C.getSourceManager(); auto p = SM.getPresumedLoc(SM.getExpansionLoc(l)); return p.isValid() ? p.getLine() : 0; }
  std::string qn(const NamedDecl* d) { std::string s; llvm::raw_string_ostream os(s); d->printQualifiedName(os, PP); return os.str(); }
  Array targs(const FunctionDecl* f) {
    Array a;
    if (auto* l = f->getTemplateSpecializationArgs()) for (auto& x : l->asArray()) a.push_back(targ(x));
    return a;
  }
  std::string targ(const TemplateArgument& x) { std::string s; llvm::raw_string_ostream os(s); x.print(PP, os, false); return os.str(); }
  std::string recname(const DeclContext* dc) { if (auto* r = dyn_cast<RecordDecl>(dc)) return tstr(C.getRecordType(r)); return ""; }
  bool constval(const Expr* e, Object& o) {
    if (e->isValueDependent() || e->isTypeDependent()) return false;
    QualType t = e->getType();
    if (!t->isIntegralOrEnumerationType()) return false;
    if (e->isGLValue()) return false;
    Expr::EvalResult r;
    if (!e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects)) return false;
    llvm::SmallString<32> s; r.Val.getInt().toString(s, 10);
    o["x"] = "const"; o["v"] = std::string(s.str()); return true;
  }
  Value exprOrNull(const Expr* e) { if (!e) return nullptr; return expr(e); }
  Array args(llvm::ArrayRef<const Expr*> a) { Array r; for (auto* e : a) { if (isa<CXXDefaultArgExpr>(e)) r.push_back(expr(cast<CXXDefaultArgExpr>(e)->getExpr())); else r.push_back(expr(e)); } return r; }
  template <class T> Array argsOf(T* c) { Array r; for (unsigned i = 0; i < c->getNumArgs(); i++) { const Expr* e = c->getArg(i); if (auto* d = dyn_cast<CXXDefaultArgExpr>(e)) e = d->getExpr(); r.push_back(expr(e)); } return r; }
  void callee(const FunctionDecl* f, Object& o) {
    o["fn"] = qn(f); o["targs"] = targs(f); o["id"] = id(f); o["fty"] = tstr(f->getType());
    Array pt; for (auto* p : f->parameters()) pt.push_back(type(p->getType())); o["pt"] = std::move(pt);
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) { o["rec"] = recname(m->getParent()); if (m->isStatic()) o["static"] = true; if (m->isVirtual()) o["virtual"] = true; }
  }
  Value expr(const Expr* e0) {
    Object o;
    const Expr* e = e0;
    while (true) {
      if (auto* p = dyn_cast<ParenExpr>(e)) e = p->getSubExpr();
      else if (auto* p = dyn_cast<ExprWithCleanups>(e)) e = p->getSubExpr();
      else if (auto* p = dyn_cast<MaterializeTemporaryExpr>(e)) e = p->getSubExpr();
      else if (auto* p = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = p->getReplacement();
      else if (auto* p = dyn_cast<CXXBindTemporaryExpr>(e)) e = p->getSubExpr();
      else if (auto* p = dyn_cast<ConstantExpr>(e)) { Object c; if (constval(p, c)) { c["t"] = type(e->getType()); return Value(std::move(c)); } e = p->getSubExpr(); }
      else break;
    }
    o["t"] = type(e->getType());
    o["ln"] = line(e->getBeginLoc());
    if (constval(e, o)) {
      if (auto* ic = dyn_cast<ImplicitCastExpr>(e)) { (void)ic; }
      return Value(std::move(o));
    }
    if (isa<CallExpr>(e) && !e->isValueDependent() && e->getType()->isRealFloatingType()) {
      Expr::EvalResult r;
      if (e->EvaluateAsRValue(r, C) && !r.HasSideEffects && r.Val.isFloat()) {
        o["x"] = "flt"; llvm::APInt b = r.Val.getFloat().bitcastToAPInt(); llvm::SmallString<32> h; b.toString(h, 10, false); o["bits"] = std::string(h.str());
        return Value(std::move(o));
      }
    }
    if (auto* l = dyn_cast<FloatingLiteral>(e)) { llvm::SmallString<32> s; l->getValue().toString(s); o["x"] = "flt"; o["v"] = std::string(s.str());
      llvm::APInt b = l->getValue().bitcastToAPInt(); llvm::SmallString<32> h; b.toString(h, 10, false); o["bits"] = std::string(h.str()); }
    else if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) o["x"] = "null";
    else if (auto* s = dyn_cast<StringLiteral>(e)) { o["x"] = "str"; o["v"] = s->isOrdinary() ? s->getString().str() : ""; }
    else if (isa<CXXThisExpr>(e)) o["x"] = "this";
    else if (auto* d = dyn_cast<DeclRefExpr>(e)) {
      auto* vd = d->getDecl();
      const StringLiteral* text = nullptr;   // a named constant text stands for that text
      if (auto* v = dyn_cast<VarDecl>(vd)) if (!v->hasLocalStorage() && v->getType()->isConstantArrayType() && v->getType().isConstant(v->getASTContext()) && v->getAnyInitializer()) text = dyn_cast<StringLiteral>(v->getAnyInitializer()->IgnoreParenImpCasts());
      if (auto* f = dyn_cast<FunctionDecl>(vd)) { o["x"] = "fn"; callee(f, o); }
      else if (text && text->isOrdinary()) { o["x"] = "str"; o["v"] = text->getString().str(); }
      else { o["x"] = "var"; o["n"] = vd->getNameAsString(); o["id"] = id(vd); o["q"] = qn(vd);
        if (auto* v = dyn_cast<VarDecl>(vd)) { if (!v->hasLocalStorage()) o["global"] = true; o["dt"] = type(v->getType());} }
    }
    else if (auto* m = dyn_cast<MemberExpr>(e)) { o["x"] = "mem"; o["n"] = m->getMemberDecl()->getNameAsString(); o["b"] = expr(m->getBase()); o["arrow"] = m->isArrow(); }
    else if (auto* s = dyn_cast<ArraySubscriptExpr>(e)) { o["x"] = "idx"; o["b"] = expr(s->getBase()); o["i"] = expr(s->getIdx()); }
    else if (auto* u = dyn_cast<UnaryOperator>(e)) { o["x"] = "un"; o["op"] = UnaryOperator::getOpcodeStr(u->getOpcode()).str(); o["post"] = u->isPostfix(); o["e"] = expr(u->getSubExpr()); }
    else if (auto* b = dyn_cast<CompoundAssignOperator>(e)) { o["x"] = "asg"; std::string s = b->getOpcodeStr().str(); s.pop_back(); o["op"] = s; o["l"] = expr(b->getLHS()); o["r"] = expr(b->getRHS()); o["ct"] = type(b->getComputationResultType()); o["clt"] = type(b->getComputationLHSType()); }
    else if (auto* b = dyn_cast<BinaryOperator>(e)) {
      if (b->getOpcode() == BO_Assign) { o["x"] = "asg"; o["op"] = ""; } else { o["x"] = "bin"; o["op"] = b->getOpcodeStr().str(); }
      o["l"] = expr(b->getLHS()); o["r"] = expr(b->getRHS());
    }
    else if (auto* c = dyn_cast<ConditionalOperator>(e)) { o["x"] = "cond"; o["c"] = expr(c->getCond()); o["a"] = expr(c->getTrueExpr()); o["b"] = expr(c->getFalseExpr()); }
    else if (auto* c = dyn_cast<CastExpr>(e)) { o["x"] = "cast"; o["ck"] = c->getCastKindName(); o["e"] = expr(c->getSubExpr()); o["impl"] = isa<ImplicitCastExpr>(c); }
    else if (auto* c = dyn_cast<CXXOperatorCallExpr>(e)) { o["x"] = "opcall"; if (auto* f = c->getDirectCallee()) callee(f, o); o["op"] = getOperatorSpelling(c->getOperator()); o["a"] = argsOf(c); }
    else if (auto* c = dyn_cast<CXXMemberCallExpr>(e)) { o["x"] = "mcall"; if (auto* f = c->getDirectCallee()) callee(f, o); o["n"] = c->getMethodDecl() ? c->getMethodDecl()->getNameAsString() : ""; o["o"] = expr(c->getImplicitObjectArgument()); o["a"] = argsOf(c); }
    else if (auto* c = dyn_cast<CallExpr>(e)) { o["x"] = "call"; if (auto* f = c->getDirectCallee()) callee(f, o); else o["ce"] = expr(c->getCallee()); o["a"] = argsOf(c); }
    else if (auto* c = dyn_cast<CXXConstructExpr>(e)) { o["x"] = "ctor"; o["rec"] = tstr(c->getType()); o["cid"] = id(c->getConstructor()); o["a"] = argsOf(c); o["elidable"] = c->isElidable(); o["copy"] = c->getConstructor()->isCopyOrMoveConstructor(); Array pt; for (auto* p : c->getConstructor()->parameters()) pt.push_back(type(p->getType())); o["pt"] = std::move(pt); }
    else if (auto* c = dyn_cast<InitListExpr>(e)) { o["x"] = "init"; Array a; for (auto* i : c->inits()) a.push_back(expr(i)); o["a"] = std::move(a); if (c->hasArrayFiller()) o["fill"] = exprOrNull(c->getArrayFiller()); }
    else if (auto* l = dyn_cast<CXXStdInitializerListExpr>(e)) { o["x"] = "ilist"; const Expr* s = l->getSubExpr(); while (auto* m = dyn_cast<MaterializeTemporaryExpr>(s)) s = m->getSubExpr(); Array a; if (auto* i = dyn_cast<InitListExpr>(s)) { for (auto* x : i->inits()) a.push_back(expr(x)); o["a"] = std::move(a); } else { o["x"] = "unk"; o["k"] = "std::initializer_list"; } }
    else if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) o["x"] = "zero";
    else if (auto* n = dyn_cast<CXXNewExpr>(e)) { o["x"] = "new"; o["nt"] = type(n->getAllocatedType()); if (n->getInitializer()) o["e"] = expr(n->getInitializer()); }
    else if (isa<CXXThrowExpr>(e)) o["x"] = "throw";
    else if (auto* n = dyn_cast<CXXDeleteExpr>(e)) { o["x"] = "delete"; o["e"] = expr(n->getArgument()); }
    else if (auto* d = dyn_cast<CXXDefaultInitExpr>(e)) { return expr(d->getExpr()); }
    else if (auto* l = dyn_cast<LambdaExpr>(e)) { o["x"] = "lambda"; o["body"] = stmt(l->getBody()); Array ps; for (auto* p : l->getCallOperator()->parameters()) ps.push_back(param(p)); o["params"] = std::move(ps); o["ret"]=type(l->getCallOperator()->getReturnType()); }
    else { o["x"] = "unk"; o["k"] = e->getStmtClassName(); std::string s; llvm::raw_string_ostream os(s); e->printPretty(os, nullptr, PP); o["src"] = os.str(); }
    return Value(std::move(o));
  }
  Value param(const ParmVarDecl* p) { Object q; q["n"] = p->getNameAsString(); q["id"] = id(p); q["t"] = type(p->getType()); return Value(std::move(q)); }
  Value vardecl(const VarDecl* v) {
    Object o; o["n"] = v->getNameAsString(); o["id"] = id(v); o["t"] = type(v->getType()); o["cexpr"] = v->isConstexpr(); o["static"] = v->isStaticLocal();
    if (v->getInit()) o["init"] = expr(v->getInit()); return Value(std::move(o));
  }
  Value stmt(const Stmt* s) {
    Object o;
    if (!s) { o["s"] = "null"; return Value(std::move(o)); }
    o["ln"] = line(s->getBeginLoc());
    if (auto* c = dyn_cast<CompoundStmt>(s)) { o["s"] = "block"; Array a; for (auto* x : c->body()) a.push_back(stmt(x)); o["b"] = std::move(a); }
    else if (auto* d = dyn_cast<DeclStmt>(s)) { o["s"] = "decl"; Array a; for (auto* x : d->decls()) if (auto* v = dyn_cast<VarDecl>(x)) a.push_back(vardecl(v)); o["d"] = std::move(a); }
    else if (auto* i = dyn_cast<IfStmt>(s)) { o["s"] = "if"; if (i->getInit()) o["init"] = stmt(i->getInit()); if (i->getConditionVariableDeclStmt()) o["cv"] = stmt(i->getConditionVariableDeclStmt()); o["c"] = expr(i->getCond()); o["a"] = stmt(i->getThen()); o["b"] = i->getElse() ? stmt(i->getElse()) : Value(nullptr); }
    else if (auto* w = dyn_cast<WhileStmt>(s)) { o["s"] = "while"; o["c"] = expr(w->getCond()); o["b"] = stmt(w->getBody()); }
    else if (auto* w = dyn_cast<DoStmt>(s)) { o["s"] = "do"; o["c"] = expr(w->getCond()); o["b"] = stmt(w->getBody()); }
    else if (auto* f = dyn_cast<ForStmt>(s)) { o["s"] = "for"; o["i"] = f->getInit() ? stmt(f->getInit()) : Value(nullptr); o["c"] = exprOrNull(f->getCond()); o["u"] = exprOrNull(f->getInc()); o["b"] = stmt(f->getBody()); }
    else if (auto* f = dyn_cast<CXXForRangeStmt>(s)) { o["s"] = "range"; o["v"] = vardecl(f->getLoopVariable()); o["r"] = exprOrNull(f->getRangeInit()); o["b"] = stmt(f->getBody()); }
    else if (auto* r = dyn_cast<ReturnStmt>(s)) { o["s"] = "ret"; o["e"] = exprOrNull(r->getRetValue()); }
    else if (isa<BreakStmt>(s)) o["s"] = "break";
    else if (isa<ContinueStmt>(s)) o["s"] = "continue";
    else if (isa<NullStmt>(s)) o["s"] = "null";
    else if (auto* w = dyn_cast<SwitchStmt>(s)) { o["s"] = "switch"; o["c"] = expr(w->getCond()); o["b"] = stmt(w->getBody()); }
    else if (auto* w = dyn_cast<CaseStmt>(s)) { o["s"] = "case"; o["c"] = expr(w->getLHS()); o["b"] = stmt(w->getSubStmt()); }
    else if (auto* w = dyn_cast<DefaultStmt>(s)) { o["s"] = "default"; o["b"] = stmt(w->getSubStmt()); }
    else if (auto* a = dyn_cast<GCCAsmStmt>(s)) {
      o["s"] = "asm"; o["str"] = a->getAsmString()->getString().str(); Array outs, ins, cl;
      for (unsigned i = 0; i < a->getNumOutputs(); i++) { Object q; q["c"] = a->getOutputConstraint(i).str(); q["n"] = a->getOutputName(i).str(); q["e"] = expr(a->getOutputExpr(i)); outs.push_back(std::move(q)); }
      for (unsigned i = 0; i < a->getNumInputs(); i++) { Object q; q["c"] = a->getInputConstraint(i).str(); q["n"] = a->getInputName(i).str(); q["e"] = expr(a->getInputExpr(i)); ins.push_back(std::move(q)); }
      for (unsigned i = 0; i < a->getNumClobbers(); i++) cl.push_back(a->getClobber(i).str());
      o["out"] = std::move(outs); o["in"] = std::move(ins); o["clob"] = std::move(cl);
    }
    else if (auto* e = dyn_cast<Expr>(s)) { o["s"] = "expr"; o["e"] = expr(e); }
    else { o["s"] = "unk"; o["k"] = s->getStmtClassName(); }
    return Value(std::move(o));
  }
  Value func(const FunctionDecl* f) {
    Object o; o["q"] = qn(f); o["n"] = f->getNameAsString(); o["targs"] = targs(f); o["id"] = id(f); o["loc"] = loc(f->getLocation()); o["ret"] = type(f->getReturnType()); o["fty"] = tstr(f->getType());
    Array ps; for (auto* p : f->parameters()) ps.push_back(param(p)); o["params"] = std::move(ps);
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) { o["rec"] = recname(m->getParent()); use(m->getParent()); if (m->isStatic()) o["static"] = true; if (m->isConst()) o["const"] = true; if (m->isVirtual()) o["virtual"] = true; }
    if (auto* c = dyn_cast<CXXConstructorDecl>(f)) { Array in; for (auto* i : c->inits()) { Object q; if (i->isMemberInitializer()) q["m"] = i->getMember()->getNameAsString(); else if (i->isBaseInitializer()) q["base"] = tstr(QualType(i->getBaseClass(), 0)); q["e"] = expr(i->getInit()); in.push_back(std::move(q)); } o["inits"] = std::move(in); o["isctor"] = true; }
    o["body"] = stmt(f->getBody());
    return Value(std::move(o));
  }
};
struct V : RecursiveASTVisitor<V> {
  X& x; Array& out; std::set<const FunctionDecl*> seen;
  V(X& x, Array& o) : x(x), out(o) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl* f) {
    if (!f->isThisDeclarationADefinition() || !f->hasBody() || f->isDependentContext()) return true;
    if (f->isDefaulted()) return true;
    std::string q = x.qn(f);
    bool ok = false; for (auto& p : Prefixes) if (llvm::StringRef(q).starts_with(p)) ok = true;
    if (!ok || !seen.insert(f).second) return true;
    out.push_back(x.func(f)); return true;
  }
};
struct Cons : ASTConsumer {
  void HandleTranslationUnit(ASTContext& C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    X x(C); Array fs; V v(x, fs); v.TraverseDecl(C.getTranslationUnitDecl());
    Array rs;
    for (size_t i = 0; i < x.recq.size(); i++) {
      const RecordDecl* r = x.recq[i]->getDefinition(); if (!r) continue;
      Object o; o["name"] = x.tstr(C.getRecordType(r)); o["union"] = r->isUnion();
      Array fl; for (auto* f : r->fields()) { Object q; q["n"] = f->getNameAsString(); q["t"] = x.type(f->getType()); if (f->isBitField()) q["bits"] = (int64_t)f->getBitWidthValue(C); if (f->hasInClassInitializer() && f->getInClassInitializer()) q["init"] = x.expr(f->getInClassInitializer()); fl.push_back(std::move(q)); }
      Array bs; if (auto* cr = dyn_cast<CXXRecordDecl>(r)) for (auto& b : cr->bases()) bs.push_back(x.tstr(b.getType()));
      o["fields"] = std::move(fl); o["bases"] = std::move(bs);
      rs.push_back(std::move(o));
    }
    Object top; top["functions"] = std::move(fs); top["records"] = std::move(rs);
    llvm::outs() << Value(std::move(top)) << "\n";
  }
};
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override { return std::make_unique<Cons>(); }
};
int main(int argc, const char** argv) {
  auto P = tooling::CommonOptionsParser::create(argc, argv, Cat);
  if (!P) { llvm::errs() << P.takeError(); return 2; }
  tooling::ClangTool T(P->getCompilations(), P->getSourcePathList());
  return T.run(tooling::newFrontendActionFactory<Act>().get());
}
