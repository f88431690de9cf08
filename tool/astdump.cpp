// astdump: parses one translation unit of /repo with clang and prints the resolved, desugared
// program of every function defined below a given source root as JSON (one object per line).
// Purely a front end: names are resolved to declarations, operators to callees, implicit
// conversions to explicit casts where they change a value.  It decides nothing by itself.
#include <clang/AST/AST.h>
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/Sema/Sema.h>
#include <clang/Sema/SemaConsumer.h>
#include <clang/Frontend/ASTConsumers.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendActions.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>
using namespace clang;
namespace json = llvm::json;
static std::string Root;

struct Dumper {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  llvm::DenseMap<const Decl *, int> ids;
  int next = 1;
  std::vector<const LambdaExpr *> lambdas;
  Dumper(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true; PP.Bool = true; PP.SuppressInlineNamespace = true;
    PP.SuppressDefaultTemplateArgs = true; PP.AnonymousTagLocations = false;
  }
  int id(const Decl *d) { d = d->getCanonicalDecl(); auto &x = ids[d]; if (!x) x = next++; return x; }
  std::string type(QualType t) {
    if (t.isNull()) return "?";
    return t.getCanonicalType().getAsString(PP);
  }
  std::string qname(const NamedDecl *d) {
    std::string s; llvm::raw_string_ostream os(s); d->printQualifiedName(os, PP); return os.str();
  }
  std::string file(SourceLocation l) {
    l = SM.getExpansionLoc(l);
    return SM.getFilename(l).str();
  }
  int line(SourceLocation l) { return SM.getExpansionLineNumber(l); }
  bool inRoot(SourceLocation l) {
    if (l.isInvalid()) return false;
    auto f = SM.getExpansionLoc(l);
    auto fe = SM.getFileEntryRefForID(SM.getFileID(f));
    if (!fe) return false;
    llvm::StringRef n = fe->getFileEntry().tryGetRealPathName();
    if (n.empty()) n = fe->getName();
    return n.starts_with(Root);
  }
  std::string fnkey(const FunctionDecl *f) {
    std::string s = qname(f); s += "(";
    bool first = true;
    for (auto *p : f->parameters()) { if (!first) s += ","; first = false; s += type(p->getType()); }
    s += ")";
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
      if (m->getParent()->isLambda()) s = "lambda@" + std::to_string(id(m));
      else if (m->isConst()) s += " const";
    }
    return s;
  }
  json::Value opaque(const char *cls, const Stmt *s) {
    json::Object o{{"k", "opaque"}, {"cls", cls}, {"l", line(s->getBeginLoc())}};
    json::Array a;
    for (auto *c : s->children()) if (c) { if (auto *e = dyn_cast<Expr>(c)) a.push_back(expr(e)); }
    o["a"] = std::move(a);
    return o;
  }
  json::Array args(llvm::ArrayRef<const Expr *> v) { json::Array a; for (auto *e : v) a.push_back(expr(e)); return a; }
  template <class R> json::Array argsOf(R r) { json::Array a; for (const Expr *e : r) a.push_back(expr(e)); return a; }

  json::Value vardecl(const VarDecl *v) {
    json::Object o{{"id", id(v)}, {"n", v->getNameAsString()}, {"t", type(v->getType())}, {"l", line(v->getLocation())}};
    if (v->isStaticLocal()) o["static"] = true;
    if (v->getType()->isReferenceType()) o["ref"] = true;
    if (v->getInit()) o["init"] = expr(v->getInit());
    if (auto *va = dyn_cast<VariableArrayType>(v->getType().getTypePtr())) if (va->getSizeExpr()) o["vla"] = expr(va->getSizeExpr());
    if (auto *ca = dyn_cast<ConstantArrayType>(v->getType().getTypePtr())) o["arr"] = (int64_t)ca->getSize().getZExtValue();
    if (auto *d = dyn_cast<DecompositionDecl>(v)) {
      json::Array b;
      for (auto *x : d->bindings()) {
        json::Object bo{{"id", id(x)}, {"n", x->getNameAsString()}};
        if (auto *h = x->getHoldingVar()) bo["hold"] = vardecl(h);
        else if (x->getBinding()) bo["e"] = expr(x->getBinding());
        b.push_back(std::move(bo));
      }
      o["binds"] = std::move(b);
    }
    return o;
  }
  json::Value refTo(const ValueDecl *d, const Expr *e) {
    json::Object o{{"k", "ref"}, {"n", d->getNameAsString()}, {"id", id(d)}, {"t", type(d->getType())}};
    if (auto *v = dyn_cast<VarDecl>(d)) {
      if (isa<ParmVarDecl>(v)) o["vk"] = "param";
      else if (v->isLocalVarDecl()) o["vk"] = "local";
      else { o["vk"] = "global"; o["q"] = qname(v); }
    } else if (isa<EnumConstantDecl>(d)) {
      o["vk"] = "enum"; o["q"] = qname(d);
      o["v"] = (int64_t)cast<EnumConstantDecl>(d)->getInitVal().getExtValue();
    }
    else if (auto *f = dyn_cast<FunctionDecl>(d)) { o["vk"] = "fn"; o["q"] = qname(f); o["fn"] = fnkey(f); }
    else if (auto *b = dyn_cast<BindingDecl>(d)) {
      if (b->getBinding() && !b->getHoldingVar()) return expr(b->getBinding());
      if (b->getHoldingVar()) return refTo(b->getHoldingVar(), e);
      o["vk"] = "bind";
    }
    else o["vk"] = "other";
    return o;
  }
  static bool isArith(QualType t) { return t->isArithmeticType() || t->isEnumeralType(); }
  json::Value castExpr(const CastExpr *ce) {
    const Expr *s = ce->getSubExpr();
    QualType to = ce->getType(), from = s->getType();
    switch (ce->getCastKind()) {
      case CK_IntegralToFloating: return json::Object{{"k", "cast"}, {"ck", "i2f"}, {"t", type(to)}, {"e", expr(s)}};
      case CK_FloatingToIntegral: return json::Object{{"k", "cast"}, {"ck", "f2i"}, {"t", type(to)}, {"e", expr(s)}};
      case CK_FloatingCast: return json::Object{{"k", "cast"}, {"ck", "f2f"}, {"t", type(to)}, {"e", expr(s)}};
      case CK_IntegralCast: case CK_BooleanToSignedIntegral: return json::Object{{"k", "cast"}, {"ck", "i2i"}, {"t", type(to)}, {"from", type(from)}, {"e", expr(s)}};
      case CK_IntegralToBoolean: case CK_FloatingToBoolean:
        return json::Object{{"k", "cast"}, {"ck", "tobool"}, {"t", "bool"}, {"from", type(from)}, {"e", expr(s)}};
      case CK_PointerToBoolean: case CK_MemberPointerToBoolean:
        return json::Object{{"k", "cast"}, {"ck", "p2b"}, {"t", "bool"}, {"e", expr(s)}};
      case CK_NullToPointer: return json::Object{{"k", "null"}};
      case CK_Dynamic: {
        return json::Object{{"k", "cast"}, {"ck", "dyn"}, {"t", type(to)}, {"e", expr(s)}, {"l", line(ce->getBeginLoc())}};
      }
      case CK_BitCast: case CK_LValueBitCast: case CK_IntegralToPointer: case CK_PointerToIntegral:
        return json::Object{{"k", "cast"}, {"ck", "bit"}, {"t", type(to)}, {"from", type(from)}, {"e", expr(s)}};
      case CK_ArrayToPointerDecay: {
        if (isa<StringLiteral>(s->IgnoreParens()) || isa<PredefinedExpr>(s->IgnoreParens())) return expr(s);
        return json::Object{{"k", "cast"}, {"ck", "decay"}, {"t", type(to)}, {"e", expr(s)}};
      }
      case CK_ToVoid: return json::Object{{"k", "cast"}, {"ck", "void"}, {"t", "void"}, {"e", expr(s)}};
      default: return expr(s);
    }
  }
  json::Value callee(json::Object o, const FunctionDecl *f) {
    if (f) {
      o["q"] = qname(f);
      o["fn"] = fnkey(f);
      if (inRoot(f->getLocation())) o["repo"] = true;
      if (auto *ta = f->getTemplateSpecializationArgs())
        if (ta->size() && ta->get(0).getKind() == TemplateArgument::Integral) o["ti"] = (int64_t)ta->get(0).getAsIntegral().getExtValue();
      if (auto *m = dyn_cast<CXXMethodDecl>(f)) { if (m->isVirtual()) o["virt"] = true; if (m->isConst()) o["const"] = true; if (m->isStatic()) o["static"] = true; o["cls"] = qname(m->getParent()); 
        if (!m->getParent()->isLambda() ) o["clst"] = type(C.getRecordType(m->getParent())); }
      json::Array pr;
      for (auto *p : f->parameters()) {
        QualType t = p->getType();
        // r: non-const lvalue reference / non-const pointer (callee may write through it)
        int w = 0;
        if (t->isLValueReferenceType() && !t->getPointeeType().isConstQualified()) w = 1;
        else if (t->isPointerType() && !t->getPointeeType().isConstQualified()) w = 2;
        else if (t->isReferenceType()) w = 3;
        pr.push_back(w);
      }
      o["pw"] = std::move(pr);
    } else o["q"] = "?";
    return o;
  }
  json::Value expr(const Expr *e0) {
    const Expr *e = e0;
    if (!e) return json::Object{{"k", "none"}};
    // strip syntax-only wrappers
    while (true) {
      if (auto *x = dyn_cast<ParenExpr>(e)) e = x->getSubExpr();
      else if (auto *x = dyn_cast<ExprWithCleanups>(e)) e = x->getSubExpr();
      else if (auto *x = dyn_cast<MaterializeTemporaryExpr>(e)) e = x->getSubExpr();
      else if (auto *x = dyn_cast<CXXBindTemporaryExpr>(e)) e = x->getSubExpr();
      else if (auto *x = dyn_cast<ConstantExpr>(e)) e = x->getSubExpr();
      else if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = x->getReplacement();
      else if (auto *x = dyn_cast<CXXStdInitializerListExpr>(e)) e = x->getSubExpr();
      else if (auto *x = dyn_cast<OpaqueValueExpr>(e)) { if (!x->getSourceExpr()) break; e = x->getSourceExpr(); }
      else if (auto *x = dyn_cast<GenericSelectionExpr>(e)) e = x->getResultExpr();
      else break;
    }
    int L = line(e->getExprLoc());
    if (auto *x = dyn_cast<CXXDefaultArgExpr>(e)) { auto v = expr(x->getExpr()); if (auto *o = v.getAsObject()) (*o)["def"] = true; return v; }
    if (auto *x = dyn_cast<CXXDefaultInitExpr>(e)) return expr(x->getExpr());
    if (auto *x = dyn_cast<IntegerLiteral>(e)) { return json::Object{{"k", "int"}, {"v", (int64_t)x->getValue().getSExtValue()}}; }
    if (auto *x = dyn_cast<FloatingLiteral>(e)) { return json::Object{{"k", "flt"}, {"v", x->getValueAsApproximateDouble()}}; }
    if (auto *x = dyn_cast<CharacterLiteral>(e)) return json::Object{{"k", "chr"}, {"v", (int64_t)x->getValue()}};
    if (auto *x = dyn_cast<CXXBoolLiteralExpr>(e)) return json::Object{{"k", "bool"}, {"v", x->getValue()}};
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) return json::Object{{"k", "null"}};
    if (auto *x = dyn_cast<StringLiteral>(e)) {
      std::string s;
      if (x->getCharByteWidth() == 1) s = x->getString().str();
      return json::Object{{"k", "str"}, {"v", json::fixUTF8(s)}};
    }
    if (auto *x = dyn_cast<PredefinedExpr>(e)) return json::Object{{"k", "str"}, {"v", "__func__"}};
    if (auto *x = dyn_cast<DeclRefExpr>(e)) { auto v = refTo(x->getDecl(), x); if (auto *o = v.getAsObject()) (*o)["l"] = L; return v; }
    if (isa<CXXThisExpr>(e)) return json::Object{{"k", "this"}, {"t", type(e->getType())}};
    if (auto *x = dyn_cast<MemberExpr>(e)) {
      if (auto *v = dyn_cast<VarDecl>(x->getMemberDecl())) return refTo(v, x);
      if (auto *v = dyn_cast<EnumConstantDecl>(x->getMemberDecl())) return refTo(v, x);
      json::Object o{{"k", "mem"}, {"f", x->getMemberDecl()->getNameAsString()}, {"arrow", x->isArrow()}, {"t", type(x->getType())}, {"l", L}, {"b", expr(x->getBase())}};
      if (auto *fd = dyn_cast<FieldDecl>(x->getMemberDecl())) o["own"] = qname(fd->getParent());
      if (auto *md = dyn_cast<CXXMethodDecl>(x->getMemberDecl())) o["fn"] = fnkey(md);
      return o;
    }
    if (auto *x = dyn_cast<CXXOperatorCallExpr>(e)) {
      json::Object o{{"k", "call"}, {"op", getOperatorSpelling(x->getOperator())}, {"t", type(x->getType())}, {"l", L}};
      bool mem = x->getDirectCallee() && isa<CXXMethodDecl>(x->getDirectCallee());
      o["m"] = mem;
      o["lv"] = x->isLValue();
      o["a"] = argsOf(x->arguments());
      if (x->getOperator() == OO_PlusPlus || x->getOperator() == OO_MinusMinus) o["post"] = x->getNumArgs() == 2;
      return callee(std::move(o), x->getDirectCallee());
    }
    if (auto *x = dyn_cast<CXXMemberCallExpr>(e)) {
      json::Object o{{"k", "call"}, {"m", true}, {"t", type(x->getType())}, {"l", L}, {"lv", x->isLValue()}};
      json::Array a;
      const Expr *obj = x->getImplicitObjectArgument();
      bool arrow = false;
      if (auto *me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) arrow = me->isArrow();
      o["arrow"] = arrow;
      a.push_back(expr(obj));
      for (auto *y : x->arguments()) a.push_back(expr(y));
      o["a"] = std::move(a);
      if (auto *md = x->getMethodDecl()) { if (isa<CXXConversionDecl>(md)) o["conv"] = true; }
      return callee(std::move(o), x->getDirectCallee());
    }
    if (auto *x = dyn_cast<UserDefinedLiteral>(e)) {
      json::Object o{{"k", "call"}, {"m", false}, {"t", type(x->getType())}, {"l", L}};
      o["a"] = argsOf(x->arguments());
      return callee(std::move(o), x->getDirectCallee());
    }
    if (auto *x = dyn_cast<CallExpr>(e)) {
      json::Object o{{"k", "call"}, {"m", false}, {"t", type(x->getType())}, {"l", L}, {"lv", x->isLValue()}};
      o["a"] = argsOf(x->arguments());
      if (!x->getDirectCallee()) o["ce"] = expr(x->getCallee());
      return callee(std::move(o), x->getDirectCallee());
    }
    if (auto *x = dyn_cast<CXXConstructExpr>(e)) {
      auto *cd = x->getConstructor();
      json::Object o{{"k", "ctor"}, {"t", type(x->getType())}, {"l", L}};
      if (cd->isCopyConstructor()) o["copy"] = true;
      if (cd->isMoveConstructor()) o["move"] = true;
      if (cd->isDefaultConstructor()) o["dflt"] = true;
      if (x->isListInitialization()) o["list"] = true;
      if (x->isStdInitListInitialization()) o["sil"] = true;
      if (x->requiresZeroInitialization()) o["zero"] = true;
      o["a"] = argsOf(x->arguments());
      if (isa<CXXTemporaryObjectExpr>(x)) o["tmp"] = true;
      return callee(std::move(o), cd);
    }
    if (auto *x = dyn_cast<CXXInheritedCtorInitExpr>(e)) return opaque("inhctor", x);
    if (auto *x = dyn_cast<CastExpr>(e)) return castExpr(x);
    if (auto *x = dyn_cast<InitListExpr>(e)) {
      if (x->isSemanticForm() == false && x->getSemanticForm()) x = x->getSemanticForm();
      if (x->isTransparent() && x->getNumInits() == 1) return expr(x->getInit(0));
      json::Object o{{"k", "init"}, {"t", type(x->getType())}, {"l", L}};
      o["a"] = argsOf(llvm::ArrayRef<const Expr *>((const Expr *const *)x->getInits(), x->getNumInits()));
      if (auto *rt = x->getType()->getAs<RecordType>()) {
        json::Array f;
        if (!rt->getDecl()->isUnion())
          for (auto *fd : rt->getDecl()->fields()) f.push_back(fd->getNameAsString());
        o["f"] = std::move(f);
      }
      return o;
    }
    if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) return json::Object{{"k", "zero"}, {"t", type(e->getType())}};
    if (auto *x = dyn_cast<UnaryOperator>(e)) {
      return json::Object{{"k", "un"}, {"op", UnaryOperator::getOpcodeStr(x->getOpcode())}, {"post", x->isPostfix()}, {"t", type(x->getType())}, {"l", L}, {"e", expr(x->getSubExpr())}};
    }
    if (auto *x = dyn_cast<CompoundAssignOperator>(e)) {
      return json::Object{{"k", "asg"}, {"op", x->getOpcodeStr()}, {"t", type(x->getType())}, {"ct", type(x->getComputationResultType())}, {"l", L}, {"a", expr(x->getLHS())}, {"b", expr(x->getRHS())}};
    }
    if (auto *x = dyn_cast<BinaryOperator>(e)) {
      const char *k = x->isAssignmentOp() ? "asg" : "bin";
      return json::Object{{"k", k}, {"op", x->getOpcodeStr()}, {"t", type(x->getType())}, {"lt", type(x->getLHS()->getType())}, {"l", L}, {"a", expr(x->getLHS())}, {"b", expr(x->getRHS())}};
    }
    if (auto *x = dyn_cast<AbstractConditionalOperator>(e)) {
      return json::Object{{"k", "cond"}, {"t", type(x->getType())}, {"l", L}, {"c", expr(x->getCond())}, {"a", expr(x->getTrueExpr())}, {"b", expr(x->getFalseExpr())}};
    }
    if (auto *x = dyn_cast<ArraySubscriptExpr>(e)) {
      return json::Object{{"k", "idx"}, {"t", type(x->getType())}, {"l", L}, {"a", expr(x->getBase())}, {"b", expr(x->getIdx())}};
    }
    if (auto *x = dyn_cast<LambdaExpr>(e)) {
      json::Object o{{"k", "lambda"}, {"l", L}};
      auto *m = x->getCallOperator();
      o["fn"] = "lambda@" + std::to_string(id(m));
      json::Array p;
      for (auto *q : m->parameters()) p.push_back(vardecl(q));
      o["p"] = std::move(p);
      json::Array caps;
      for (auto &c : x->captures()) {
        if (c.capturesThis()) { caps.push_back(json::Object{{"n", "this"}}); continue; }
        if (!c.capturesVariable()) continue;
        auto *v = c.getCapturedVar();
        json::Object co{{"id", id(v)}, {"n", v->getNameAsString()}, {"byref", c.getCaptureKind() == LCK_ByRef}};
        if (auto *vd = dyn_cast<VarDecl>(v)) if (vd->isInitCapture() && vd->getInit()) co["init"] = expr(vd->getInit());
        caps.push_back(std::move(co));
      }
      o["caps"] = std::move(caps);
      o["generic"] = x->isGenericLambda();
      if (x->isGenericLambda()) {
        json::Array inst;
        if (auto *ft = m->getDescribedFunctionTemplate())
          for (auto *sp : ft->specializations()) {
            if (!sp->hasBody()) continue;
            json::Array p2; for (auto *q : sp->parameters()) p2.push_back(vardecl(q));
            inst.push_back(json::Object{{"fn", "lambda@" + std::to_string(id(sp))}, {"p", std::move(p2)}, {"body", stmt(sp->getBody())}});
          }
        o["inst"] = std::move(inst);
        if (x->getBody()) o["body"] = json::Object{{"k","nop"}};
      } else o["body"] = stmt(x->getBody());
      o["rt"] = type(m->getReturnType());
      return o;
    }
    if (auto *x = dyn_cast<CXXNewExpr>(e)) {
      json::Object o{{"k", "new"}, {"t", type(x->getAllocatedType())}, {"l", L}};
      if (x->getInitializer()) o["e"] = expr(x->getInitializer());
      if (x->isArray()) o["arr"] = true;
      return o;
    }
    if (auto *x = dyn_cast<CXXDeleteExpr>(e)) return json::Object{{"k", "del"}, {"l", L}, {"e", expr(x->getArgument())}};
    if (auto *x = dyn_cast<CXXThrowExpr>(e)) {
      json::Object o{{"k", "throw"}, {"l", L}};
      if (x->getSubExpr()) o["e"] = expr(x->getSubExpr());
      return o;
    }
    if (auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
      Expr::EvalResult r;
      if (x->EvaluateAsInt(r, C)) return json::Object{{"k", "int"}, {"v", (int64_t)r.Val.getInt().getExtValue()}};
      return opaque("sizeof", x);
    }
    if (auto *x = dyn_cast<ArrayInitLoopExpr>(e)) return expr(x->getCommonExpr());
    if (auto *x = dyn_cast<StmtExpr>(e)) return json::Object{{"k", "stmtexpr"}, {"s", stmt(x->getSubStmt())}};
    if (auto *x = dyn_cast<CXXFoldExpr>(e)) return opaque("fold", x);
    return opaque(e->getStmtClassName(), e);
  }
  json::Value stmt(const Stmt *s) {
    if (!s) return json::Object{{"k", "nop"}};
    int L = line(s->getBeginLoc());
    if (auto *x = dyn_cast<CompoundStmt>(s)) {
      json::Array a; for (auto *c : x->body()) a.push_back(stmt(c));
      return json::Object{{"k", "block"}, {"l", L}, {"el", line(x->getEndLoc())}, {"s", std::move(a)}};
    }
    if (auto *x = dyn_cast<DeclStmt>(s)) {
      json::Array a;
      for (auto *d : x->decls()) if (auto *v = dyn_cast<VarDecl>(d)) a.push_back(vardecl(v));
      return json::Object{{"k", "decl"}, {"l", L}, {"v", std::move(a)}};
    }
    if (auto *x = dyn_cast<IfStmt>(s)) {
      json::Object o{{"k", "if"}, {"l", L}};
      if (x->isConstexpr()) {
        o["constexpr"] = true;
      }
      if (x->getInit()) o["init"] = stmt(x->getInit());
      if (x->getConditionVariable()) o["cv"] = vardecl(x->getConditionVariable());
      o["c"] = expr(x->getCond());
      o["a"] = stmt(x->getThen());
      if (x->getElse()) o["b"] = stmt(x->getElse());
      return o;
    }
    if (auto *x = dyn_cast<ForStmt>(s)) {
      json::Object o{{"k", "for"}, {"l", L}};
      if (x->getInit()) o["init"] = stmt(x->getInit());
      if (x->getConditionVariable()) o["cv"] = vardecl(x->getConditionVariable());
      if (x->getCond()) o["c"] = expr(x->getCond());
      if (x->getInc()) o["inc"] = expr(x->getInc());
      o["s"] = stmt(x->getBody());
      return o;
    }
    if (auto *x = dyn_cast<WhileStmt>(s)) {
      json::Object o{{"k", "while"}, {"l", L}};
      if (x->getConditionVariable()) o["cv"] = vardecl(x->getConditionVariable());
      o["c"] = expr(x->getCond());
      o["s"] = stmt(x->getBody());
      return o;
    }
    if (auto *x = dyn_cast<DoStmt>(s)) return json::Object{{"k", "do"}, {"l", L}, {"c", expr(x->getCond())}, {"s", stmt(x->getBody())}};
    if (auto *x = dyn_cast<CXXForRangeStmt>(s)) {
      json::Object o{{"k", "rfor"}, {"l", L}};
      if (x->getInit()) o["init"] = stmt(x->getInit());
      o["v"] = vardecl(x->getLoopVariable());
      o["r"] = expr(x->getRangeInit());
      o["rt"] = type(x->getRangeInit()->getType());
      o["s"] = stmt(x->getBody());
      return o;
    }
    if (auto *x = dyn_cast<SwitchStmt>(s)) {
      json::Object o{{"k", "switch"}, {"l", L}, {"c", expr(x->getCond())}};
      if (x->getInit()) o["init"] = stmt(x->getInit());
      o["s"] = stmt(x->getBody());
      return o;
    }
    if (auto *x = dyn_cast<CaseStmt>(s)) return json::Object{{"k", "case"}, {"l", L}, {"e", expr(x->getLHS())}, {"s", stmt(x->getSubStmt())}};
    if (auto *x = dyn_cast<DefaultStmt>(s)) return json::Object{{"k", "default"}, {"l", L}, {"s", stmt(x->getSubStmt())}};
    if (isa<BreakStmt>(s)) return json::Object{{"k", "break"}, {"l", L}};
    if (isa<ContinueStmt>(s)) return json::Object{{"k", "continue"}, {"l", L}};
    if (auto *x = dyn_cast<ReturnStmt>(s)) {
      json::Object o{{"k", "return"}, {"l", L}};
      if (x->getRetValue()) o["e"] = expr(x->getRetValue());
      return o;
    }
    if (auto *x = dyn_cast<CXXTryStmt>(s)) {
      json::Array h;
      for (unsigned i = 0; i < x->getNumHandlers(); i++) {
        auto *c = x->getHandler(i);
        json::Object ho{{"t", c->getExceptionDecl() ? type(c->getExceptionDecl()->getType()) : "..."}, {"s", stmt(c->getHandlerBlock())}};
        if (c->getExceptionDecl()) ho["v"] = vardecl(c->getExceptionDecl());
        h.push_back(std::move(ho));
      }
      return json::Object{{"k", "try"}, {"l", L}, {"s", stmt(x->getTryBlock())}, {"h", std::move(h)}};
    }
    if (auto *x = dyn_cast<LabelStmt>(s)) return json::Object{{"k", "label"}, {"s", stmt(x->getSubStmt())}};
    if (isa<GotoStmt>(s)) return json::Object{{"k", "goto"}, {"l", L}};
    if (isa<NullStmt>(s)) return json::Object{{"k", "nop"}};
    if (auto *x = dyn_cast<AttributedStmt>(s)) return stmt(x->getSubStmt());
    if (auto *x = dyn_cast<Expr>(s)) return json::Object{{"k", "expr"}, {"l", L}, {"e", expr(x)}};
    return json::Object{{"k", "opaque"}, {"cls", s->getStmtClassName()}, {"l", L}};
  }
  void function(const FunctionDecl *f, llvm::raw_ostream &os) {
    json::Object o{{"kind", "fn"}, {"key", fnkey(f)}, {"q", qname(f)}, {"n", f->getNameAsString()}, {"file", file(f->getLocation())}, {"l", line(f->getLocation())}, {"el", line(f->getEndLoc())}, {"rt", type(f->getReturnType())}};
    json::Array p;
    for (auto *q : f->parameters()) { auto v = vardecl(q); p.push_back(std::move(v)); }
    o["p"] = std::move(p);
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
      o["cls"] = qname(m->getParent()); o["static"] = m->isStatic(); o["const"] = m->isConst();
      if (m->isVirtual()) {
        o["virt"] = true;
        json::Array ov; for (auto *b : m->overridden_methods()) ov.push_back(fnkey(b));
        o["over"] = std::move(ov);
      }
    }
    if (auto *c = dyn_cast<CXXConstructorDecl>(f)) {
      o["ctor"] = true;
      json::Array ci;
      for (auto *i : c->inits()) {
        json::Object io;
        if (i->isAnyMemberInitializer()) io["f"] = i->getAnyMember()->getNameAsString();
        else if (i->isDelegatingInitializer()) io["deleg"] = true;
        else if (i->isBaseInitializer()) io["base"] = type(QualType(i->getBaseClass(), 0));
        io["written"] = i->isWritten();
        if (i->getInit()) io["e"] = expr(i->getInit());
        ci.push_back(std::move(io));
      }
      o["inits"] = std::move(ci);
    }
    if (isa<CXXDestructorDecl>(f)) o["dtor"] = true;
    o["body"] = stmt(f->getBody());
    os << json::Value(std::move(o)) << "\n";
  }
  void record(const CXXRecordDecl *r, llvm::raw_ostream &os) {
    json::Object o{{"kind", "rec"}, {"q", qname(r)}, {"t", type(C.getRecordType(r))}, {"file", file(r->getLocation())}, {"l", line(r->getLocation())}, {"agg", r->isAggregate()}};
    json::Array f;
    for (auto *fd : r->fields()) {
      json::Object fo{{"n", fd->getNameAsString()}, {"t", type(fd->getType())}};
      if (fd->hasInClassInitializer() && fd->getInClassInitializer()) fo["init"] = expr(fd->getInClassInitializer());
      f.push_back(std::move(fo));
    }
    o["f"] = std::move(f);
    json::Array b;
    for (auto &x : r->bases()) b.push_back(type(x.getType()));
    o["bases"] = std::move(b);
    os << json::Value(std::move(o)) << "\n";
  }
  void global(const VarDecl *v, llvm::raw_ostream &os) {
    json::Object o{{"kind", "var"}, {"q", qname(v)}, {"t", type(v->getType())}, {"file", file(v->getLocation())}, {"l", line(v->getLocation())}};
    if (v->getType().isConstQualified()) o["const"] = true;
    if (auto *i = v->getAnyInitializer()) o["init"] = expr(i);
    os << json::Value(std::move(o)) << "\n";
  }
};

struct V : RecursiveASTVisitor<V> {
  Dumper &D; llvm::raw_ostream &os;
  V(Dumper &d, llvm::raw_ostream &o) : D(d), os(o) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitLambdaBody() const { return false; }
  bool TraverseDecl(Decl *d) {
    if (d && !isa<TranslationUnitDecl>(d) && !isa<NamespaceDecl>(d) && !isa<LinkageSpecDecl>(d)) {
      if (d->getLexicalDeclContext()->isFileContext() && !D.inRoot(d->getLocation())) return true;
    }
    return RecursiveASTVisitor<V>::TraverseDecl(d);
  }
  bool VisitFunctionDecl(FunctionDecl *f) {
    if (!f->doesThisDeclarationHaveABody() || f->isDependentContext()) return true;
    if (f->isDefaulted()) return true;
    if (!D.inRoot(f->getLocation())) return true;
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) if (m->getParent()->isLambda()) return true;
    D.function(f, os);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *r) {
    if (!r->isThisDeclarationADefinition() || r->isDependentContext() || r->isLambda()) return true;
    if (!D.inRoot(r->getLocation())) return true;
    D.record(r, os);
    return true;
  }
  bool VisitVarDecl(VarDecl *v) {
    if (isa<ParmVarDecl>(v) || v->isLocalVarDecl() || !v->hasGlobalStorage()) return true;
    if (v->isThisDeclarationADefinition() == VarDecl::DeclarationOnly) return true;
    if (v->getDeclContext()->isDependentContext()) return true;
    if (!D.inRoot(v->getLocation())) return true;
    D.global(v, os);
    return true;
  }
};

// class templates of the source root: members that only library code calls are instantiated too
struct CT : RecursiveASTVisitor<CT> {
  Dumper &D; std::vector<ClassTemplateSpecializationDecl *> l;
  CT(Dumper &d) : D(d) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool TraverseDecl(Decl *d) {
    if (d && !isa<TranslationUnitDecl>(d) && !isa<NamespaceDecl>(d) && !isa<LinkageSpecDecl>(d) && d->getLexicalDeclContext()->isFileContext() && !D.inRoot(d->getLocation())) return true;
    return RecursiveASTVisitor<CT>::TraverseDecl(d);
  }
  bool VisitClassTemplateSpecializationDecl(ClassTemplateSpecializationDecl *s) {
    if (s->isThisDeclarationADefinition() && !s->isDependentContext() && D.inRoot(s->getLocation()) && s->getSpecializationKind() == TSK_ImplicitInstantiation) l.push_back(s);
    return true;
  }
};

// generic lambdas handed to library algorithms, whose bodies (where they would be instantiated) are skipped
struct GL : RecursiveASTVisitor<GL> {
  Dumper &D; std::vector<CallExpr *> l;
  GL(Dumper &d) : D(d) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool TraverseDecl(Decl *d) {
    if (d && !isa<TranslationUnitDecl>(d) && !isa<NamespaceDecl>(d) && !isa<LinkageSpecDecl>(d) && d->getLexicalDeclContext()->isFileContext() && !D.inRoot(d->getLocation())) return true;
    return RecursiveASTVisitor<GL>::TraverseDecl(d);
  }
  static CXXRecordDecl *lambda(QualType t) {
    if (t.isNull() || t->isDependentType()) return nullptr;
    auto *r = t.getNonReferenceType()->getAsCXXRecordDecl();
    return r && r->isLambda() && r->isGenericLambda() ? r : nullptr;
  }
  bool VisitCallExpr(CallExpr *e) {
    auto *f = e->getDirectCallee();
    if (!f || isa<CXXOperatorCallExpr>(e) || !f->isInStdNamespace()) return true;
    for (auto *a : e->arguments()) if (lambda(a->getType())) { l.push_back(e); break; }
    return true;
  }
  static QualType element(QualType t) {
    t = t.getNonReferenceType();
    if (t->isPointerType()) return t->getPointeeType();
    auto *r = dyn_cast_or_null<ClassTemplateSpecializationDecl>(t->getAsCXXRecordDecl());
    if (!r || r->getTemplateArgs().size() == 0 || r->getTemplateArgs()[0].getKind() != TemplateArgument::Type) return QualType();
    llvm::StringRef n = r->getName();
    QualType x = r->getTemplateArgs()[0].getAsType();
    if (n == "reverse_iterator" || n == "move_iterator") return element(x);
    if (!n.contains("iterator")) return QualType();
    if (x->isPointerType() && n.contains("normal")) return x->getPointeeType();
    return n.contains("const") ? x.withConst() : x;
  }
  void instantiate(Sema &S) {
    for (auto *e : l) {
      std::vector<QualType> el;
      for (auto *a : e->arguments()) { auto t = element(a->getType()); if (!t.isNull()) el.push_back(t); }
      if (el.empty()) continue;
      llvm::StringRef n = e->getDirectCallee()->getName();
      for (auto *a : e->arguments()) {
        auto *r = lambda(a->getType());
        if (!r) continue;
        auto *op = r->getLambdaCallOperator();
        auto *ft = op ? op->getDescribedFunctionTemplate() : nullptr;
        if (!ft) continue;
        bool have = false;
        for (auto *sp : ft->specializations()) {
          if (!sp->hasBody()) S.InstantiateFunctionDefinition(e->getBeginLoc(), sp, true);
          have |= sp->hasBody();
        }
        if (have) continue;
        std::vector<TemplateArgument> args(ft->getTemplateParameters()->size());
        unsigned i = 0;
        for (auto *p : op->parameters()) {
          QualType v = el[0];
          if (n == "accumulate" && i == 0 && e->getNumArgs() > 2) v = e->getArg(2)->getType().getNonReferenceType().getUnqualifiedType();
          if (n == "transform" && i == 1 && el.size() > 1) v = el[1];
          i++;
          QualType t = p->getType();
          bool fwd = t->isRValueReferenceType(), lref = t->isLValueReferenceType();
          QualType b = t.getNonReferenceType();
          if (!lref || b.isConstQualified()) v = v.getUnqualifiedType();
          if (fwd && !b.isConstQualified()) v = S.Context.getLValueReferenceType(el[0]);
          if (auto *tp = b->getAs<TemplateTypeParmType>()) if (tp->getIndex() < args.size()) args[tp->getIndex()] = TemplateArgument(v);
        }
        bool ok = true;
        for (auto &x : args) ok &= !x.isNull();
        if (!ok) continue;
        auto *fd = S.InstantiateFunctionDeclaration(ft, TemplateArgumentList::CreateCopy(S.Context, args), e->getBeginLoc());
        if (fd) S.InstantiateFunctionDefinition(e->getBeginLoc(), fd, true);
      }
    }
  }
};

struct Cons : SemaConsumer {
  Sema *S = nullptr;
  void InitializeSema(Sema &s) override { S = &s; }
  void ForgetSema() override { S = nullptr; }
  std::string out;
  SourceManager *SM = nullptr;
  // bodies outside the source root (system and third-party headers) are not needed: only their declarations are
  bool shouldSkipFunctionBody(Decl *d) override {
    if (!SM) return false;
    SourceLocation l = SM->getExpansionLoc(d->getLocation());
    auto fe = SM->getFileEntryRefForID(SM->getFileID(l));
    if (!fe) return true;
    llvm::StringRef n = fe->getFileEntry().tryGetRealPathName();
    if (n.empty()) n = fe->getName();
    return !n.starts_with(Root);
  }
  void HandleTranslationUnit(ASTContext &c) override {
    if (c.getDiagnostics().hasErrorOccurred()) return;
    Dumper d(c);
    if (S) {
      CT ct(d);
      ct.TraverseDecl(c.getTranslationUnitDecl());
      c.getDiagnostics().setSuppressAllDiagnostics(true);
      for (auto *s : ct.l) S->InstantiateClassTemplateSpecializationMembers(s->getLocation(), s, TSK_ImplicitInstantiation);
      for (auto *s : ct.l)
        for (auto *m : s->methods())
          if (!m->isDefaulted() && m->getTemplateInstantiationPattern() && !m->hasBody()) S->InstantiateFunctionDefinition(m->getLocation(), m, true);
      S->PerformPendingInstantiations();
      GL gl(d);
      gl.TraverseDecl(c.getTranslationUnitDecl());
      gl.instantiate(*S);
      S->PerformPendingInstantiations();
    }
    V v(d, llvm::outs());
    v.TraverseDecl(c.getTranslationUnitDecl());
    llvm::outs() << "{\"kind\":\"end\"}\n";
  }
};
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &ci, llvm::StringRef) override {
    ci.getFrontendOpts().SkipFunctionBodies = true;
    auto c = std::make_unique<Cons>();
    c->SM = &ci.getSourceManager();
    return c;
  }
  bool BeginInvocation(CompilerInstance &ci) override { ci.getFrontendOpts().SkipFunctionBodies = true; return true; }
};
struct Fac : tooling::FrontendActionFactory { std::unique_ptr<FrontendAction> create() override { return std::make_unique<Act>(); } };

int main(int argc, const char **argv) {
  // astdump ROOT FILE -- flags
  if (argc < 4) { llvm::errs() << "usage: astdump ROOT FILE -- FLAGS\n"; return 2; }
  Root = argv[1];
  std::vector<std::string> flags;
  int i = 3;
  if (std::string(argv[i]) == "--") i++;
  for (; i < argc; i++) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool tool(db, {argv[2]});
  Fac f;
  return tool.run(&f);
}
