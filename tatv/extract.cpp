// tatv-extract: dumps the *instantiated* functions of /repo reachable from the root patterns as a JSON IR.
// It is purely mechanical: every statement/expression of a dumped function is emitted; nothing is rewritten except
//  * integral constant expressions are folded to their value (sizeof, traits, constexpr, template parameters),
//  * discarded `if constexpr` branches are absent (clang already drops them on instantiation),
//  * parentheses / cleanups / implicit no-op casts are elided.
// A construct with no translation is emitted as ["unsupported", ...] and makes the verifier refuse the function.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <map>
#include <regex>
#include <set>
#include <fstream>
using namespace clang;
namespace J = llvm::json;

static std::vector<std::regex> roots;
static std::string outfile;

struct Dumper {
   ASTContext& C;
   std::unique_ptr<MangleContext> M;
   std::map<const Decl*, int> ids;
   std::map<const FunctionDecl*, std::string> fnames;
   J::Object types;
   std::deque<const FunctionDecl*> work;
   std::set<const FunctionDecl*> seen;
   std::set<const VarDecl*> globals_seen;
   std::deque<const VarDecl*> gwork;
   J::Object funcs, globals, lambdas;
   std::map<std::string, const FunctionDecl*> used;

   Dumper(ASTContext& c) : C(c), M(ItaniumMangleContext::create(c, c.getDiagnostics())) {}

   int id(const Decl* d) {
      d = d->getCanonicalDecl();
      auto it = ids.find(d);
      if (it != ids.end()) return it->second;
      int n = ids.size() + 1;
      ids[d] = n;
      return n;
   }
   // qualified name without template arguments and inline namespaces
   static std::string qname(const NamedDecl* d) {
      std::string s;
      const DeclContext* c = d->getDeclContext();
      while (c && !c->isTranslationUnit()) {
         if (auto* n = dyn_cast<NamespaceDecl>(c)) {
            if (!n->isInline() && !n->isAnonymousNamespace()) s = n->getNameAsString() + "::" + s;
         } else if (auto* r = dyn_cast<RecordDecl>(c)) {
            s = r->getNameAsString() + "::" + s;
         } else if (auto* f = dyn_cast<FunctionDecl>(c)) {
            s = f->getNameAsString() + "::" + s;
         }
         c = c->getParent();
      }
      if (auto* cc = dyn_cast<CXXConstructorDecl>(d)) return s + cc->getParent()->getNameAsString();
      if (isa<CXXConversionDecl>(d)) return s + "operator()conv";
      return s + d->getNameAsString();
   }
   std::string loc(SourceLocation l) {
      auto p = C.getSourceManager().getPresumedLoc(C.getSourceManager().getExpansionLoc(l));
      if (p.isInvalid()) return "?";
      std::string f = p.getFilename();
      return f + ":" + std::to_string(p.getLine());
   }
   bool inRepo(const Decl* d) {
      auto p = C.getSourceManager().getPresumedLoc(C.getSourceManager().getExpansionLoc(d->getLocation()));
      if (p.isInvalid()) return false;
      std::string f = p.getFilename();
      return f.find("/repo/") != std::string::npos || f.find("tu/") == 0 || f.find("/verif/tu/") == 0;
   }
   J::Value targ(const TemplateArgument& a) {
      switch (a.getKind()) {
         case TemplateArgument::Type: return type(a.getAsType());
         case TemplateArgument::Integral: {
            llvm::SmallString<40> s;
            a.getAsIntegral().toString(s);
            return J::Object{{"k", "const"}, {"v", std::string(s)}};
         }
         case TemplateArgument::Pack: {
            J::Array r;
            for (auto& x : a.pack_elements()) r.push_back(targ(x));
            return J::Object{{"k", "pack"}, {"a", std::move(r)}};
         }
         default: return J::Object{{"k", "other"}};
      }
   }
   // returns a type key (string); the structure goes in `types`
   std::string type(QualType q) {
      if (q.isNull()) return "null";
      q = q.getCanonicalType();
      bool cst = q.isConstQualified();
      q = q.getUnqualifiedType();
      PrintingPolicy pp(C.getLangOpts());
      pp.FullyQualifiedName = 1;
      pp.SuppressTagKeyword = 1;
      std::string key = q.getAsString(pp);
      if (auto* rt = q->getAs<RecordType>()) {
         // lambdas need a unique key
         if (auto* rd = dyn_cast<CXXRecordDecl>(rt->getDecl()))
            if (rd->isLambda()) key = "lambda#" + std::to_string(id(rd));
      }
      (void)cst;
      if (types.get(key)) return key;
      types[key] = J::Object{{"k", "pending"}};
      J::Object o;
      const Type* t = q.getTypePtr();
      if (auto* b = dyn_cast<BuiltinType>(t)) {
         if (b->getKind() == BuiltinType::Bool) {
            o["k"] = "bool";
         } else if (b->isInteger()) {
            o["k"] = "int";
            o["bits"] = (int64_t)C.getTypeSize(q);
            o["signed"] = b->isSignedInteger();
         } else if (b->isFloatingPoint()) {
            o["k"] = "float";
            o["bits"] = (int64_t)C.getTypeSize(q);
         } else {
            o["k"] = b->isVoidType() ? "void" : "builtin";
         }
      } else if (auto* p = dyn_cast<PointerType>(t)) {
         o["k"] = "ptr";
         o["to"] = type(p->getPointeeType());
      } else if (auto* p = dyn_cast<ReferenceType>(t)) {
         o["k"] = "ref";
         o["rv"] = isa<RValueReferenceType>(p);
         o["to"] = type(p->getPointeeType());
      } else if (auto* e = dyn_cast<EnumType>(t)) {
         o["k"] = "int";
         o["bits"] = (int64_t)C.getTypeSize(q);
         o["signed"] = e->getDecl()->getIntegerType().isNull() ? true : e->getDecl()->getIntegerType()->isSignedIntegerType();
         o["enum"] = true;
      } else if (auto* a = dyn_cast<ConstantArrayType>(t)) {
         o["k"] = "array";
         o["of"] = type(a->getElementType());
         o["n"] = (int64_t)a->getSize().getZExtValue();
      } else if (auto* r = dyn_cast<RecordType>(t)) {
         auto* rd = r->getDecl();
         o["k"] = "rec";
         o["name"] = qname(rd);
         if (auto* cd = dyn_cast<CXXRecordDecl>(rd)) {
            if (cd->isLambda()) {
               o["k"] = "lambda";
               o["id"] = id(cd);
            }
            if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(cd)) {
               J::Array ta;
               for (auto& x : sp->getTemplateArgs().asArray()) ta.push_back(targ(x));
               o["targs"] = std::move(ta);
            }
            if (cd->hasDefinition() && !cd->isDependentContext()) {
               bool repo = inRepo(cd);
               o["repo"] = repo;
               if (repo && !cd->isLambda()) {
                  J::Array bs, fs;
                  for (auto& b : cd->bases()) bs.push_back(type(b.getType()));
                  for (auto* f : cd->fields())
                     fs.push_back(J::Array{f->getNameAsString(), type(f->getType()), id(f)});
                  o["bases"] = std::move(bs);
                  o["fields"] = std::move(fs);
               }
            }
         }
      } else if (isa<FunctionProtoType>(t)) {
         o["k"] = "func";
      } else if (auto* a = dyn_cast<IncompleteArrayType>(t)) {
         o["k"] = "iarray";
         o["of"] = type(a->getElementType());
      } else {
         o["k"] = "unknown";
         o["cls"] = t->getTypeClassName();
      }
      types[key] = std::move(o);
      return key;
   }

   std::string fname(const FunctionDecl* f) {
      f = f->getCanonicalDecl();
      auto it = fnames.find(f);
      if (it != fnames.end()) return it->second;
      std::string s;
      auto* cd = dyn_cast<CXXMethodDecl>(f);
      if (cd && cd->getParent()->isLambda()) {
         s = "lambda#" + std::to_string(id(cd->getParent())) + "::" + f->getNameAsString() + "#" + std::to_string(id(f));
      } else {
         s = qname(f) + "#" + std::to_string(id(f));
      }
      fnames[f] = s;
      return s;
   }
   void want(const FunctionDecl* f) {
      if (!f) return;
      const FunctionDecl* def = nullptr;
      if (!f->hasBody(def)) {
         def = f->getTemplateInstantiationPattern() ? nullptr : nullptr;
      }
      if (!def) return;
      if (def->isDependentContext()) return;
      if (!inRepo(def)) return;
      if (seen.count(def->getCanonicalDecl())) return;
      seen.insert(def->getCanonicalDecl());
      work.push_back(def);
   }
   J::Object fref(const FunctionDecl* f) {
      J::Object o;
      o["fn"] = fname(f);
      o["q"] = qname(f);
      o["ret"] = type(f->getReturnType());
      J::Array ps;
      for (auto* p : f->parameters()) ps.push_back(type(p->getType()));
      o["ptypes"] = std::move(ps);
      if (auto* ta = f->getTemplateSpecializationArgs()) {
         J::Array a;
         for (auto& x : ta->asArray()) a.push_back(targ(x));
         o["targs"] = std::move(a);
      }
      const FunctionDecl* def = nullptr;
      bool has = f->hasBody(def) && !def->isDependentContext() && inRepo(def);
      o["body"] = has;
      if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
         o["method"] = !m->isStatic();
         o["virtual"] = m->isVirtual();
         if (m->isInstance()) o["cls"] = type(C.getRecordType(m->getParent()));
         else o["cls"] = type(C.getRecordType(m->getParent()));
         if (isa<CXXConstructorDecl>(m)) {
            auto* c = cast<CXXConstructorDecl>(m);
            o["ctor"] = c->isCopyConstructor() ? "copy" : c->isMoveConstructor() ? "move" : c->isDefaultConstructor() ? "default" : "other";
            if (c->isInheritingConstructor()) o["inheriting"] = true;
         }
         if (m->isDefaulted()) o["defaulted"] = true;
         if (m->isCopyAssignmentOperator()) o["assign"] = "copy";
         if (m->isMoveAssignmentOperator()) o["assign"] = "move";
      }
      want(f);
      return o;
   }

   J::Value unsupported(const char* what, SourceLocation l) { return J::Array{"unsupported", what, loc(l)}; }

   J::Value exprs(const Expr* e) {
      J::Value v = expr0(e);
      return v;
   }
   J::Value E(const Expr* e) { return e ? expr0(e) : J::Value(nullptr); }

   J::Value expr0(const Expr* e) {
      e = e->IgnoreParens();
      // constant folding of integral prvalues
      if (!e->isValueDependent() && !e->isTypeDependent() && e->isPRValue() && !e->getType().isNull() && e->getType()->isIntegralOrEnumerationType()) {
         Expr::EvalResult r;
         if (!isa<LambdaExpr>(e) && e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects, true) && !e->HasSideEffects(C)) {
            llvm::SmallString<40> s;
            r.Val.getInt().toString(s);
            return J::Array{"int", type(e->getType()), std::string(s)};
         }
      }
      switch (e->getStmtClass()) {
         case Stmt::ExprWithCleanupsClass: return expr0(cast<ExprWithCleanups>(e)->getSubExpr());
         case Stmt::ConstantExprClass: return expr0(cast<ConstantExpr>(e)->getSubExpr());
         case Stmt::CXXBindTemporaryExprClass: return expr0(cast<CXXBindTemporaryExpr>(e)->getSubExpr());
         case Stmt::MaterializeTemporaryExprClass:
            return J::Array{"mat", type(e->getType()), expr0(cast<MaterializeTemporaryExpr>(e)->getSubExpr())};
         case Stmt::SubstNonTypeTemplateParmExprClass: return expr0(cast<SubstNonTypeTemplateParmExpr>(e)->getReplacement());
         case Stmt::CXXDefaultArgExprClass: return expr0(cast<CXXDefaultArgExpr>(e)->getExpr());
         case Stmt::CXXDefaultInitExprClass: return expr0(cast<CXXDefaultInitExpr>(e)->getExpr());
         case Stmt::CXXStdInitializerListExprClass:
            return J::Array{"stdinit", type(e->getType()), expr0(cast<CXXStdInitializerListExpr>(e)->getSubExpr())};
         case Stmt::CXXFunctionalCastExprClass:
         case Stmt::CXXStaticCastExprClass:
         case Stmt::CXXReinterpretCastExprClass:
         case Stmt::CXXConstCastExprClass:
         case Stmt::CXXDynamicCastExprClass:
         case Stmt::CStyleCastExprClass:
         case Stmt::ImplicitCastExprClass: {
            auto* c = cast<CastExpr>(e);
            auto k = c->getCastKind();
            J::Value sub = expr0(c->getSubExpr());
            if (k == CK_NoOp || k == CK_ConstructorConversion || k == CK_UserDefinedConversion) return sub;
            return J::Array{"cast", type(e->getType()), c->getCastKindName(), std::move(sub), type(c->getSubExpr()->getType())};
         }
         case Stmt::IntegerLiteralClass: {
            llvm::SmallString<40> s;
            cast<IntegerLiteral>(e)->getValue().toString(s, 10, false);
            return J::Array{"int", type(e->getType()), std::string(s)};
         }
         case Stmt::FloatingLiteralClass: {
            llvm::SmallString<40> s;
            cast<FloatingLiteral>(e)->getValue().toString(s);
            return J::Array{"flt", type(e->getType()), std::string(s)};
         }
         case Stmt::StringLiteralClass: {
            auto* s = cast<StringLiteral>(e);
            return J::Array{"str", type(e->getType()), s->isOrdinary() ? s->getString().str() : std::string("")};
         }
         case Stmt::CXXNullPtrLiteralExprClass: return J::Array{"nullptr", type(e->getType())};
         case Stmt::DeclRefExprClass: {
            auto* d = cast<DeclRefExpr>(e)->getDecl();
            if (auto* v = dyn_cast<VarDecl>(d)) {
               if (v->hasGlobalStorage()) {
                  if (!v->isStaticLocal() || true) {
                     if (!globals_seen.count(v->getCanonicalDecl())) {
                        globals_seen.insert(v->getCanonicalDecl());
                        gwork.push_back(v);
                     }
                     return J::Array{"gvar", type(e->getType()), id(v), qname(v)};
                  }
               }
               return J::Array{"var", type(e->getType()), id(v), v->getNameAsString()};
            }
            if (auto* b = dyn_cast<BindingDecl>(d)) {
               return J::Array{"bind", type(e->getType()), id(b), b->getNameAsString()};
            }
            if (auto* f = dyn_cast<FunctionDecl>(d)) return J::Array{"fref", type(e->getType()), fref(f)};
            return unsupported("declref", e->getBeginLoc());
         }
         case Stmt::MemberExprClass: {
            auto* m = cast<MemberExpr>(e);
            if (auto* f = dyn_cast<FieldDecl>(m->getMemberDecl())) {
               return J::Array{"mem", type(e->getType()), m->isArrow(), expr0(m->getBase()), f->getNameAsString(), type(C.getRecordType(f->getParent()))};
            }
            if (auto* v = dyn_cast<VarDecl>(m->getMemberDecl())) {
               if (!globals_seen.count(v->getCanonicalDecl())) {
                  globals_seen.insert(v->getCanonicalDecl());
                  gwork.push_back(v);
               }
               return J::Array{"gvar", type(e->getType()), id(v), qname(v)};
            }
            return unsupported("member", e->getBeginLoc());
         }
         case Stmt::CXXThisExprClass: return J::Array{"this", type(e->getType())};
         case Stmt::UnaryOperatorClass: {
            auto* u = cast<UnaryOperator>(e);
            std::string op = UnaryOperator::getOpcodeStr(u->getOpcode()).str();
            if (u->isPostfix()) op = "post" + op;
            return J::Array{"un", type(e->getType()), op, expr0(u->getSubExpr()), loc(e->getExprLoc())};
         }
         case Stmt::CompoundAssignOperatorClass: {
            auto* b = cast<CompoundAssignOperator>(e);
            std::string op = b->getOpcodeStr().str();
            return J::Array{"casgn", type(e->getType()), op.substr(0, op.size() - 1), expr0(b->getLHS()), expr0(b->getRHS()), type(b->getComputationLHSType()), type(b->getComputationResultType()), loc(e->getExprLoc())};
         }
         case Stmt::BinaryOperatorClass: {
            auto* b = cast<BinaryOperator>(e);
            return J::Array{"bin", type(e->getType()), b->getOpcodeStr().str(), expr0(b->getLHS()), expr0(b->getRHS()), loc(e->getExprLoc())};
         }
         case Stmt::ConditionalOperatorClass: {
            auto* c = cast<ConditionalOperator>(e);
            return J::Array{"cond", type(e->getType()), expr0(c->getCond()), expr0(c->getTrueExpr()), expr0(c->getFalseExpr())};
         }
         case Stmt::ArraySubscriptExprClass: {
            auto* a = cast<ArraySubscriptExpr>(e);
            return J::Array{"idx", type(e->getType()), expr0(a->getBase()), expr0(a->getIdx()), loc(e->getExprLoc())};
         }
         case Stmt::CXXOperatorCallExprClass:
         case Stmt::CXXMemberCallExprClass:
         case Stmt::CallExprClass: {
            auto* c = cast<CallExpr>(e);
            auto* f = c->getDirectCallee();
            J::Array args;
            J::Value obj = nullptr;
            bool arrow = false;
            if (auto* mc = dyn_cast<CXXMemberCallExpr>(e)) {
               if (auto* me = dyn_cast<MemberExpr>(mc->getCallee()->IgnoreParens())) {
                  obj = expr0(me->getBase());
                  arrow = me->isArrow();
               }
            }
            for (auto* a : c->arguments()) args.push_back(expr0(a));
            if (!f) {
               if (auto* pd = dyn_cast<CXXPseudoDestructorExpr>(c->getCallee()->IgnoreParens())) {
                  (void)pd;
                  return J::Array{"nop", type(e->getType())};
               }
               return J::Array{"icall", type(e->getType()), expr0(c->getCallee()), std::move(args), loc(e->getExprLoc())};
            }
            auto fr = fref(f);
            if (auto* oc = dyn_cast<CXXOperatorCallExpr>(e)) {
               (void)oc;
               if (auto* m = dyn_cast<CXXMethodDecl>(f); m && m->isInstance()) {
                  // first argument is the object
                  J::Value o0 = std::move(args[0]);
                  J::Array rest;
                  for (size_t i = 1; i < args.size(); i++) rest.push_back(std::move(args[i]));
                  return J::Array{"call", type(e->getType()), std::move(fr), std::move(o0), false, std::move(rest), loc(e->getExprLoc())};
               }
            }
            return J::Array{"call", type(e->getType()), std::move(fr), std::move(obj), arrow, std::move(args), loc(e->getExprLoc())};
         }
         case Stmt::CXXTemporaryObjectExprClass:
         case Stmt::CXXConstructExprClass: {
            auto* c = cast<CXXConstructExpr>(e);
            J::Array args;
            for (auto* a : c->arguments()) args.push_back(expr0(a));
            return J::Array{"ctor", type(e->getType()), fref(c->getConstructor()), std::move(args), loc(e->getExprLoc()), c->isElidable(), c->requiresZeroInitialization(), c->isListInitialization()};
         }
         case Stmt::CXXInheritedCtorInitExprClass: {
            auto* c = cast<CXXInheritedCtorInitExpr>(e);
            return J::Array{"inhctor", type(e->getType()), fref(c->getConstructor())};
         }
         case Stmt::CXXScalarValueInitExprClass:
         case Stmt::ImplicitValueInitExprClass: return J::Array{"zero", type(e->getType())};
         case Stmt::InitListExprClass: {
            auto* l = cast<InitListExpr>(e);
            if (l->isSemanticForm() == false && l->getSemanticForm()) l = l->getSemanticForm();
            J::Array a;
            for (auto* x : l->inits()) a.push_back(expr0(x));
            return J::Array{"init", type(e->getType()), std::move(a), l->hasArrayFiller()};
         }
         case Stmt::LambdaExprClass: {
            auto* l = cast<LambdaExpr>(e);
            auto* rd = l->getLambdaClass();
            J::Array caps;
            auto ci = l->capture_init_begin();
            for (auto& c : l->captures()) {
               if (c.capturesThis()) {
                  caps.push_back(J::Array{"this", c.getCaptureKind() == LCK_StarThis});
               } else if (c.capturesVariable()) {
                  auto* v = c.getCapturedVar();
                  J::Value init = nullptr;
                  if (auto* vd = dyn_cast<VarDecl>(v); vd && vd->isInitCapture()) init = E(vd->getInit());
                  bool global = false;
                  caps.push_back(J::Array{c.getCaptureKind() == LCK_ByRef ? "ref" : "copy", id(v), v->getNameAsString(), std::move(init), global});
               }
               ++ci;
            }
            J::Array ops;
            auto* op = l->getCallOperator();
            if (auto* ft = op->getDescribedFunctionTemplate()) {
               for (auto* s : ft->specializations()) {
                  ops.push_back(fref(s));
               }
            } else {
               ops.push_back(fref(op));
            }
            // call operators reachable through the class (instantiated lambda classes)
            return J::Array{"lambda", type(e->getType()), id(rd), std::move(caps), std::move(ops), loc(e->getBeginLoc())};
         }
         case Stmt::CXXThrowExprClass: {
            auto* t = cast<CXXThrowExpr>(e);
            return J::Array{"throw", type(e->getType()), E(t->getSubExpr()), loc(e->getExprLoc())};
         }
         case Stmt::CXXNewExprClass: {
            auto* n = cast<CXXNewExpr>(e);
            J::Array pl;
            for (unsigned i = 0; i < n->getNumPlacementArgs(); i++) pl.push_back(expr0(n->getPlacementArg(i)));
            return J::Array{"new", type(e->getType()), type(n->getAllocatedType()), n->isArray() && n->getArraySize() ? E(*n->getArraySize()) : J::Value(nullptr), E(n->getInitializer()), std::move(pl)};
         }
         case Stmt::CXXDeleteExprClass: {
            auto* n = cast<CXXDeleteExpr>(e);
            return J::Array{"delete", type(e->getType()), E(n->getArgument()), n->isArrayForm()};
         }
         case Stmt::PredefinedExprClass: return J::Array{"str", type(e->getType()), std::string("__func__")};
         case Stmt::ArrayInitLoopExprClass:
         case Stmt::OpaqueValueExprClass:
            return unsupported(e->getStmtClassName(), e->getBeginLoc());
         default: return unsupported(e->getStmtClassName(), e->getBeginLoc());
      }
   }

   J::Value var(const VarDecl* v) {
      J::Object o;
      o["id"] = id(v);
      o["name"] = v->getNameAsString();
      o["type"] = type(v->getType());
      o["loc"] = loc(v->getLocation());
      o["static"] = v->isStaticLocal();
      o["init"] = v->getInit() ? E(v->getInit()) : J::Value(nullptr);
      if (auto* dd = dyn_cast<DecompositionDecl>(v)) {
         J::Array bs;
         for (auto* b : dd->bindings()) {
            J::Value hv = nullptr, bx = nullptr;
            if (auto* h = b->getHoldingVar()) hv = var(h);
            else if (b->getBinding()) bx = E(b->getBinding());
            bs.push_back(J::Object{{"id", id(b)}, {"name", b->getNameAsString()}, {"hold", std::move(hv)}, {"expr", std::move(bx)}});
         }
         o["bindings"] = std::move(bs);
      }
      return o;
   }

   J::Value S(const Stmt* s) {
      if (!s) return nullptr;
      if (auto* e = dyn_cast<Expr>(s)) return J::Array{"expr", expr0(e), loc(s->getBeginLoc())};
      switch (s->getStmtClass()) {
         case Stmt::NullStmtClass: return J::Array{"block", J::Array{}};
         case Stmt::AttributedStmtClass: return S(cast<AttributedStmt>(s)->getSubStmt());
         case Stmt::CompoundStmtClass: {
            J::Array a;
            for (auto* x : cast<CompoundStmt>(s)->body()) a.push_back(S(x));
            return J::Array{"block", std::move(a)};
         }
         case Stmt::DeclStmtClass: {
            J::Array a;
            for (auto* d : cast<DeclStmt>(s)->decls()) {
               if (auto* v = dyn_cast<VarDecl>(d)) a.push_back(var(v));
            }
            return J::Array{"decl", std::move(a), loc(s->getBeginLoc())};
         }
         case Stmt::IfStmtClass: {
            auto* i = cast<IfStmt>(s);
            if (i->isConstexpr()) {
               if (auto nd = i->getNondiscardedCase(C)) {
                  J::Array a;
                  if (i->getInit()) a.push_back(S(i->getInit()));
                  if (*nd) a.push_back(S(*nd));
                  return J::Array{"block", std::move(a)};
               }
            }
            return J::Array{"if", S(i->getInit()), i->getConditionVariableDeclStmt() ? S(i->getConditionVariableDeclStmt()) : J::Value(nullptr), E(i->getCond()), S(i->getThen()), S(i->getElse()), loc(s->getBeginLoc())};
         }
         case Stmt::ForStmtClass: {
            auto* f = cast<ForStmt>(s);
            return J::Array{"for", S(f->getInit()), E(f->getCond()), E(f->getInc()), S(f->getBody()), loc(s->getBeginLoc())};
         }
         case Stmt::WhileStmtClass: {
            auto* f = cast<WhileStmt>(s);
            return J::Array{"while", E(f->getCond()), S(f->getBody()), loc(s->getBeginLoc())};
         }
         case Stmt::DoStmtClass: {
            auto* f = cast<DoStmt>(s);
            return J::Array{"do", E(f->getCond()), S(f->getBody()), loc(s->getBeginLoc())};
         }
         case Stmt::CXXForRangeStmtClass: {
            auto* f = cast<CXXForRangeStmt>(s);
            return J::Array{"forrange", S(f->getRangeStmt()), S(f->getBeginStmt()), S(f->getEndStmt()), E(f->getCond()), E(f->getInc()), S(f->getLoopVarStmt()), S(f->getBody()), loc(s->getBeginLoc()), E(f->getRangeInit())};
         }
         case Stmt::ReturnStmtClass: return J::Array{"return", E(cast<ReturnStmt>(s)->getRetValue()), loc(s->getBeginLoc())};
         case Stmt::BreakStmtClass: return J::Array{"break"};
         case Stmt::ContinueStmtClass: return J::Array{"continue"};
         case Stmt::CXXTryStmtClass: {
            auto* t = cast<CXXTryStmt>(s);
            J::Array h;
            for (unsigned i = 0; i < t->getNumHandlers(); i++) h.push_back(S(t->getHandler(i)->getHandlerBlock()));
            return J::Array{"try", S(t->getTryBlock()), std::move(h)};
         }
         case Stmt::SwitchStmtClass:
         default: return J::Array{"unsupported", s->getStmtClassName(), loc(s->getBeginLoc())};
      }
   }

   void function(const FunctionDecl* f) {
      J::Object o;
      J::Object fr = fref(f);
      for (auto& kv : fr) o[kv.first] = std::move(kv.second);
      o["loc"] = loc(f->getLocation());
      J::Array ps;
      for (auto* p : f->parameters()) ps.push_back(J::Object{{"id", id(p)}, {"name", p->getNameAsString()}, {"type", type(p->getType())}});
      o["params"] = std::move(ps);
      if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
         J::Array in;
         for (auto* i : c->inits()) {
            if (i->isAnyMemberInitializer()) in.push_back(J::Array{"member", i->getAnyMember()->getNameAsString(), E(i->getInit())});
            else if (i->isBaseInitializer()) in.push_back(J::Array{"base", type(QualType(i->getBaseClass(), 0)), E(i->getInit())});
            else in.push_back(J::Array{"delegating", nullptr, E(i->getInit())});
         }
         o["inits"] = std::move(in);
      }
      o["code"] = S(f->getBody());
      funcs[fname(f)] = std::move(o);
   }
   void run() {
      while (!work.empty() || !gwork.empty()) {
         if (!work.empty()) {
            auto* f = work.front();
            work.pop_front();
            function(f);
         } else {
            auto* v = gwork.front();
            gwork.pop_front();
            const VarDecl* d = v->getDefinition() ? v->getDefinition() : v;
            J::Object o;
            o["name"] = qname(v);
            o["type"] = type(v->getType());
            o["const"] = v->getType().isConstQualified();
            o["init"] = (inRepo(d) && d->getInit() && !d->getInit()->isValueDependent()) ? E(d->getInit()) : J::Value(nullptr);
            globals[std::to_string(id(v))] = std::move(o);
         }
      }
   }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
   Dumper& D;
   Visitor(Dumper& d) : D(d) {}
   bool shouldVisitTemplateInstantiations() const { return true; }
   bool shouldVisitImplicitCode() const { return true; }
   bool VisitFunctionDecl(FunctionDecl* f) {
      if (f->isDependentContext() || !f->doesThisDeclarationHaveABody()) return true;
      if (!D.inRepo(f)) return true;
      std::string q = Dumper::qname(f);
      for (auto& r : roots)
         if (std::regex_match(q, r)) {
            D.want(f);
            break;
         }
      return true;
   }
};

struct Consumer : ASTConsumer {
   void HandleTranslationUnit(ASTContext& C) override {
      if (C.getDiagnostics().hasUncompilableErrorOccurred()) return;
      Dumper D(C);
      Visitor V(D);
      V.TraverseDecl(C.getTranslationUnitDecl());
      D.run();


      J::Object top{{"types", std::move(D.types)}, {"funcs", std::move(D.funcs)}, {"globals", std::move(D.globals)}};
      std::error_code ec;
      llvm::raw_fd_ostream os(outfile, ec);
      os << J::Value(std::move(top));
   }
};
struct Action : ASTFrontendAction {
   std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override { return std::make_unique<Consumer>(); }
};

// usage: tatv-extract OUT.json ROOTREGEX[;ROOTREGEX...] FILE -- clang flags
int main(int argc, const char** argv) {
   outfile = argv[1];
   std::string rs = argv[2];
   size_t p = 0;
   while (p <= rs.size()) {
      size_t q = rs.find(';', p);
      if (q == std::string::npos) q = rs.size();
      if (q > p) roots.emplace_back(rs.substr(p, q - p));
      p = q + 1;
   }
   std::string file = argv[3];
   std::vector<std::string> args;
   for (int i = 5; i < argc; i++) args.push_back(argv[i]);
   std::ifstream in(file);
   std::string code((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
   bool ok = tooling::runToolOnCodeWithArgs(std::make_unique<Action>(), code, args, file, "tatv-extract");
   return ok ? 0 : 1;
}
