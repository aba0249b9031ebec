// astq SOURCE LIBDIR -- CLANG-ARGS...
// Walks the type-checked program (template patterns and instantiations) and prints one
// JSON line per fact about storage that outlives a call:
//   var   a variable with static or thread storage declared in LIBDIR, how it may change
//         and what a local one's initialiser depends on
//   ref   a use, in LIBDIR, of a changeable static variable declared elsewhere
//   call  a call, in LIBDIR, of a function (all of them; the caller filters by name)
//   sum   what was visited
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ParentMapContext.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
using namespace clang;
namespace {
std::string Lib;
struct VarInfo {
  const VarDecl *d = nullptr;
  std::set<std::string> writes, deps;
  unsigned reads = 0;
};
struct Visitor : RecursiveASTVisitor<Visitor> {
  explicit Visitor(ASTContext &c) : ctx(c), sm(c.getSourceManager()) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  ASTContext &ctx;
  SourceManager &sm;
  std::map<std::string, VarInfo> vars;
  std::set<std::string> refs, calls;
  unsigned fns = 0, exprs = 0;
  std::set<std::string> fnlocs;

  std::string at(SourceLocation l) {
    l = sm.getExpansionLoc(l);
    auto p = sm.getPresumedLoc(l);
    return p.isValid() ? std::string(p.getFilename()) + ":" + std::to_string(p.getLine()) : "?";
  }
  bool inlib(SourceLocation l) { return at(l).rfind(Lib, 0) == 0; }
  static bool lasting(const VarDecl *v) { return v->hasGlobalStorage() && !isa<ParmVarDecl>(v); }

  // may an object of this (const) type still change?
  bool changeable(QualType t, int depth = 0) {
    if (t.isNull() || depth > 14) return false;
    if (t->isReferenceType() || t->isPointerType()) {
      QualType p = t->getPointeeType();
      return !p->isFunctionType() && (!p.isConstQualified() || changeable(p, depth + 1));
    }
    if (auto *a = ctx.getAsArrayType(t)) return changeable(a->getElementType(), depth + 1);
    if (auto *r = t->getAsCXXRecordDecl()) {
      std::string n = r->getNameAsString();
      if (n == "atomic" || n == "mutex" || n == "recursive_mutex" || n == "once_flag") return true;
      if (n == "vector" || n == "basic_string" || n == "array" || n == "function" || n == "map" || n == "unordered_map" || n == "set" || n == "Matrix" || n == "Array")
        return false;  // deep constness
      if (!r->hasDefinition()) return false;
      r = r->getDefinition();
      for (auto *f : r->fields())
        if (f->isMutable() || changeable(f->getType(), depth + 1)) return true;
      for (auto &b : r->bases())
        if (changeable(b.getType(), depth + 1)) return true;
      return false;
    }
    if (auto *ts = t->getAs<TemplateSpecializationType>()) {
      if (auto *td = ts->getTemplateName().getAsTemplateDecl()) {
        std::string n = td->getNameAsString();
        if (n == "unique_ptr" || n == "shared_ptr" || n == "reference_wrapper" || n == "span" || n == "atomic" || n == "Ref" || n == "Map")
          return true;
      }
    }
    return false;
  }
  bool fixedvar(const VarDecl *v) {
    if (v->isConstexpr()) return !changeable(v->getType());
    QualType t = v->getType();
    if (t->isReferenceType()) return !changeable(t);
    if (auto *a = ctx.getAsArrayType(t)) t = a->getElementType();
    return t.isConstQualified() && !changeable(t);
  }
  VarInfo &info(const VarDecl *v) {
    auto &i = vars[at(v->getLocation()) + " " + v->getNameAsString()];
    if (!i.d || fixedvar(i.d)) i.d = v;
    return i;
  }

  // what the initialiser of a local static depends on
  struct Deps : RecursiveASTVisitor<Deps> {
    Visitor &o;
    std::set<std::string> &out;
    std::set<const Decl *> own, seen;
    Deps(Visitor &v, std::set<std::string> &s) : o(v), out(s) {}
    bool VisitDecl(Decl *d) { return own.insert(d), true; }
    bool TraverseUnaryExprOrTypeTraitExpr(UnaryExprOrTypeTraitExpr *) { return true; }
    bool TraverseCXXNoexceptExpr(CXXNoexceptExpr *) { return true; }
    bool TraverseTypeLoc(TypeLoc) { return true; }
    bool TraverseLambdaExpr(LambdaExpr *l) {
      for (auto *p : l->getCallOperator()->parameters()) own.insert(p);
      return RecursiveASTVisitor::TraverseLambdaExpr(l);
    }
    bool VisitCXXThisExpr(CXXThisExpr *e) { return out.insert("this at " + o.at(e->getExprLoc())), true; }
    bool VisitDeclRefExpr(DeclRefExpr *e) {
      auto *v = dyn_cast<VarDecl>(e->getDecl());
      if (isa<BindingDecl>(e->getDecl())) out.insert(e->getDecl()->getNameAsString());
      if (!v || own.count(v) || lasting(v) || v->isConstexpr() || !seen.insert(v).second) return true;
      if (isa<ParmVarDecl>(v) || !v->getType().isConstQualified() || !v->hasInit() || v->getType()->isReferenceType())
        out.insert(v->getNameAsString() + " at " + o.at(e->getExprLoc()));
      else
        TraverseStmt(const_cast<Expr *>(v->getInit()));
      return true;
    }
  };

  bool VisitVarDecl(VarDecl *v) {
    if (!lasting(v) || !inlib(v->getLocation())) return true;
    auto &i = info(v);
    if (v->isStaticLocal() && v->hasInit() && !v->isConstexpr()) {
      Deps d(*this, i.deps);
      d.TraverseStmt(v->getInit());
    }
    return true;
  }

  bool readonly(const Expr *e) { return e->getType().isConstQualified() && !changeable(e->getType()); }
  // does the expression e (naming the variable) only read it?
  bool onlyread(const Expr *e) {
    const Stmt *cur = e;
    for (int k = 0; k < 40; ++k) {
      auto ps = ctx.getParents(*cur);
      if (ps.empty()) return true;
      if (auto *vd = ps[0].get<VarDecl>())
        return !vd->getType()->isReferenceType() || (vd->getType().getNonReferenceType().isConstQualified() && !changeable(vd->getType().getNonReferenceType()));
      const Stmt *p = ps[0].get<Stmt>();
      if (!p) return true;
      auto *ce = cast<Expr>(cur);
      if (ce->getType().isConstQualified() && !changeable(ce->getType()) && !ce->isTypeDependent()) return true;
      if (auto *c = dyn_cast<ImplicitCastExpr>(p)) {
        if (c->getCastKind() == CK_LValueToRValue || c->getCastKind() == CK_ConstructorConversion) return !changeable(c->getType());
        cur = p;
        continue;
      }
      if (isa<ParenExpr, MemberExpr, ArraySubscriptExpr, MaterializeTemporaryExpr, ExprWithCleanups, ImplicitCastExpr, CastExpr>(p)) {
        cur = p;
        continue;
      }
      if (auto *b = dyn_cast<BinaryOperator>(p)) {
        if (b->isAssignmentOp()) return b->getLHS() != cur;
        if (b->getOpcode() == BO_Comma) {
          cur = p;
          continue;
        }
        return !(ce->isTypeDependent() && (b->getOpcode() == BO_Shl || b->getOpcode() == BO_Shr) && b->getLHS() == cur);
      }
      if (auto *u = dyn_cast<UnaryOperator>(p)) return !u->isIncrementDecrementOp() && u->getOpcode() != UO_AddrOf;
      if (auto *o = dyn_cast<CXXOperatorCallExpr>(p)) {
        if (o->isTypeDependent() || o->getNumArgs() == 0) {
          auto k = o->getOperator();
          const bool asg = o->isAssignmentOp() || k == OO_PlusPlus || k == OO_MinusMinus || k == OO_LessLess || k == OO_GreaterGreater || k == OO_Subscript || k == OO_Call;
          return !(asg && o->getNumArgs() && o->getArg(0) == cur);
        }
        if (cur == o->getCallee()) return true;
        // bound to a parameter: the type of the argument expression says how
        return readonly(ce) || ce->isPRValue();
      }
      if (isa<CXXDependentScopeMemberExpr, UnresolvedMemberExpr>(p)) return false;
      if (auto *c = dyn_cast<CallExpr>(p)) {
        if (c->getCallee() == cur) {
          cur = p;
          continue;
        }
        if (ce->isTypeDependent() || isa<UnresolvedLookupExpr>(c->getCallee())) return false;
        return ce->isPRValue() || readonly(ce);
      }
      if (isa<CXXConstructExpr>(p)) return ce->isPRValue() || readonly(ce);
      if (isa<ReturnStmt>(p)) return ce->isPRValue();
      if (isa<ConditionalOperator>(p)) {
        cur = p;
        continue;
      }
      if (!isa<Expr>(p)) return true;
      if (isa<LambdaExpr>(p)) return true;  // the uses in its body are looked at on their own
      return ce->isPRValue();
    }
    return false;
  }

  bool use(const Expr *e, const ValueDecl *d) {
    auto *v = dyn_cast<VarDecl>(d);
    if (!v || !lasting(v)) return true;
    if (!inlib(v->getLocation())) {
      if (inlib(e->getExprLoc()) && !fixedvar(v))
        refs.insert(v->getQualifiedNameAsString() + "\t" + at(e->getExprLoc()) + "\t" + (onlyread(e) ? "read" : "write"));
      return true;
    }
    auto &i = info(v);
    if (fixedvar(v)) return ++i.reads, true;
    if (onlyread(e))
      ++i.reads;
    else
      i.writes.insert(at(e->getExprLoc()));
    return true;
  }
  bool VisitDeclRefExpr(DeclRefExpr *e) { return use(e, e->getDecl()); }
  bool VisitMemberExpr(MemberExpr *e) { return use(e, e->getMemberDecl()); }
  bool VisitFunctionDecl(FunctionDecl *f) {
    if (f->doesThisDeclarationHaveABody() && inlib(f->getLocation())) {
      ++fns;
      fnlocs.insert(at(f->getLocation()));
    }
    return true;
  }
  void callee(std::string n, SourceLocation l) {
    if (inlib(l)) calls.insert(n + "\t" + at(l));
  }
  bool VisitExpr(Expr *e) {
    if (!inlib(e->getExprLoc())) return true;
    ++exprs;
    if (auto *r = dyn_cast<DeclRefExpr>(e)) {
      if (auto *f = dyn_cast<FunctionDecl>(r->getDecl())) callee(f->getQualifiedNameAsString(), e->getExprLoc());
    } else if (auto *m = dyn_cast<MemberExpr>(e)) {
      if (auto *f = dyn_cast<FunctionDecl>(m->getMemberDecl())) callee(f->getQualifiedNameAsString(), e->getExprLoc());
    } else if (auto *o = dyn_cast<OverloadExpr>(e))
      callee(o->getName().getAsString(), e->getExprLoc());
    else if (auto *d = dyn_cast<CXXDependentScopeMemberExpr>(e))
      callee(d->getMember().getAsString(), e->getExprLoc());
    else if (auto *d = dyn_cast<DependentScopeDeclRefExpr>(e))
      callee(d->getDeclName().getAsString(), e->getExprLoc());
    else if (auto *c = dyn_cast<CXXConstructExpr>(e))
      callee(c->getConstructor()->getQualifiedNameAsString(), e->getExprLoc());
    return true;
  }
};

struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext &c) override {
    Visitor v(c);
    v.TraverseDecl(c.getTranslationUnitDecl());
    auto put = [](llvm::json::Value o) { llvm::outs() << o << "\n"; };
    for (auto &[k, i] : v.vars) {
      llvm::json::Array w, d;
      for (auto &x : i.writes) w.push_back(x);
      for (auto &x : i.deps) d.push_back(x);
      put(llvm::json::Object{{"kind", "var"},
           {"name", i.d->getQualifiedNameAsString()},
           {"at", v.at(i.d->getLocation())},
           {"local", i.d->isStaticLocal()},
           {"thread", i.d->getTLSKind() != VarDecl::TLS_None},
           {"fixed", v.fixedvar(i.d)},
           {"type", i.d->getType().getAsString()},
           {"reads", i.reads},
           {"writes", std::move(w)},
           {"deps", std::move(d)}});
    }
    auto lines = [&](const char *kind, const std::set<std::string> &s) {
      for (auto &x : s) {
        llvm::json::Array a;
        std::stringstream ss(x);
        for (std::string t; std::getline(ss, t, '\t');) a.push_back(t);
        put(llvm::json::Object{{"kind", kind}, {"v", std::move(a)}});
      }
    };
    lines("ref", v.refs);
    lines("call", v.calls);
    put(llvm::json::Object{{"kind", "sum"}, {"functions", v.fnlocs.size()}, {"bodies", v.fns}, {"exprs", v.exprs}, {"errors", (int)c.getDiagnostics().hasErrorOccurred()}});
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); }
};
}  // namespace

int main(int argc, char **argv) {
  std::ifstream f(argv[1]);
  std::stringstream ss;
  ss << f.rdbuf();
  Lib = argv[2];
  std::vector<std::string> args;
  for (int i = 4; i < argc; ++i) args.push_back(argv[i]);
  return tooling::runToolOnCodeWithArgs(std::make_unique<Action>(), ss.str(), args, argv[1], "clang++") ? 0 : 1;
}
