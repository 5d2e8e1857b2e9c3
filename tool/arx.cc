// arx: Arolla fact extractor.
//
// Parses translation units with clang and prints, one JSON object per line, a
// compact *resolved* syntax tree of every function that is defined under
// --root, plus class / enum / global-variable facts.  It performs no judgement:
// the rules live in /verif/checks.
#include <cstdio>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Attr.h"
#include "clang/AST/Decl.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;

static std::string g_root = "/repo/";
static std::string g_root2;  // witness units of the framework
static std::vector<std::string> g_inst;   // path prefixes (relative to root) whose instantiations are dumped
static std::vector<std::string> g_only;   // path prefixes (relative) to dump; empty = all
static bool g_inst_all = false;
static std::unordered_set<std::string> g_seen;
static llvm::raw_ostream* OS = nullptr;

static void Str(llvm::raw_ostream& o, llvm::StringRef s) {
  o << '"';
  for (unsigned char c : s) {
    switch (c) {
      case '"': o << "\\\""; break;
      case '\\': o << "\\\\"; break;
      case '\n': o << "\\n"; break;
      case '\t': o << "\\t"; break;
      case '\r': o << "\\r"; break;
      default:
        if (c < 0x20 || c >= 0x7f) {
          char b[8];
          snprintf(b, sizeof b, "\\u%04x", c);
          o << b;
        } else {
          o << c;
        }
    }
  }
  o << '"';
}

struct Dumper {
  ASTContext& C;
  const SourceManager& SM;
  PrintingPolicy PP;
  std::unordered_map<const Decl*, int> locals;
  std::vector<const CXXMethodDecl*>* pending = nullptr;

  explicit Dumper(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.SuppressUnwrittenScope = true;
    PP.SuppressInlineNamespace = true;
    PP.PrintCanonicalTypes = false;
    PP.Bool = true;
  }

  std::string File(SourceLocation l) {
    l = SM.getExpansionLoc(l);
    auto f = SM.getFilename(l).str();
    return f;
  }
  std::string RelFile(SourceLocation l) {
    auto f = File(l);
    if (f.rfind(g_root, 0) == 0) return f.substr(g_root.size());
    if (!g_root2.empty() && f.rfind(g_root2, 0) == 0) return "@tu/" + f.substr(g_root2.size());
    return "";
  }
  unsigned Line(SourceLocation l) { return SM.getExpansionLineNumber(l); }

  std::string Ty(QualType t) {
    if (t.isNull()) return "";
    return t.getAsString(PP);
  }
  std::string CTy(QualType t) {
    if (t.isNull()) return "";
    return t.getCanonicalType().getAsString(PP);
  }
  std::string QName(const NamedDecl* d) {
    std::string s;
    llvm::raw_string_ostream o(s);
    d->printQualifiedName(o, PP);
    return o.str();
  }
  std::string Usr(const Decl* d) {
    llvm::SmallString<128> b;
    if (index::generateUSRForDecl(d, b)) return "";
    return b.str().str();
  }
  // Identifies an instance of a closure's call operator within this unit.
  std::map<const Decl*, int> lam_ids;
  std::string LamId(const FunctionDecl* f) {
    auto it = lam_ids.emplace(f->getCanonicalDecl(), (int)lam_ids.size()).first;
    return std::to_string(it->second);
  }
  int Local(const Decl* d) {
    d = d->getCanonicalDecl();
    auto it = locals.find(d);
    if (it != locals.end()) return it->second;
    int id = (int)locals.size();
    locals[d] = id;
    return id;
  }

  // ---- expressions / statements ------------------------------------------
  void List(llvm::raw_ostream& o, const std::vector<const Stmt*>& v) {
    o << '[';
    bool first = true;
    for (auto* s : v) {
      if (!first) o << ',';
      first = false;
      S(o, s);
    }
    o << ']';
  }
  template <class R>
  void ListR(llvm::raw_ostream& o, R&& r) {
    std::vector<const Stmt*> v;
    for (auto* s : r) v.push_back(s);
    List(o, v);
  }

  void Head(llvm::raw_ostream& o, const char* k, const Stmt* s) {
    o << "{\"k\":\"" << k << "\",\"l\":" << Line(s->getBeginLoc());
  }
  void HeadE(llvm::raw_ostream& o, const char* k, const Expr* e) {
    Head(o, k, e);
    o << ",\"t\":";
    std::string t = Ty(e->getType());
    Str(o, t);
    if (!e->getType().isNull() && !e->getType()->isDependentType()) {
      QualType c = e->getType().getCanonicalType().getUnqualifiedType();
      if (c->isBuiltinType() || c->isEnumeralType() || (c->isPointerType() && c->getPointeeType()->isBuiltinType())) {
        std::string cs = c.getAsString(PP);
        if (cs != t) FS(o, "ct", cs);
      }
    }
  }
  void F(llvm::raw_ostream& o, const char* name, const Stmt* s) {
    o << ",\"" << name << "\":";
    if (s) S(o, s); else o << "null";
  }
  void FS(llvm::raw_ostream& o, const char* name, llvm::StringRef s) {
    o << ",\"" << name << "\":";
    Str(o, s);
  }
  void Callee(llvm::raw_ostream& o, const FunctionDecl* f) {
    FS(o, "fn", QName(f));
    const FunctionDecl* d = f;
    if (auto* p = f->getTemplateInstantiationPattern()) d = p;
    FS(o, "u", Usr(d->getCanonicalDecl()));
    if (d != f) FS(o, "iu", Usr(f->getCanonicalDecl()));
    if (auto* ta = f->getTemplateSpecializationArgs()) {
      o << ",\"ta\":[";
      bool first = true;
      for (auto& a : ta->asArray()) {
        if (!first) o << ',';
        first = false;
        std::string s;
        llvm::raw_string_ostream so(s);
        a.print(PP, so, true);
        Str(o, so.str());
      }
      o << ']';
    }
    FS(o, "rt", Ty(f->getReturnType()));
    if (f->isNoReturn()) o << ",\"noreturn\":true";
    if (f->isVariadic()) o << ",\"variadic\":true";
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      if (m->isVirtual()) o << ",\"virt\":true";
      if (m->isConst()) o << ",\"const\":true";
      if (m->isStatic()) o << ",\"static\":true";
      FS(o, "cls", QName(m->getParent()));
      if (m->getParent()->isLambda()) FS(o, "sig", LamId(f));
    }
  }
  void DeclRef(llvm::raw_ostream& o, const ValueDecl* d) {
    FS(o, "n", isa<FunctionDecl>(d) || d->isDefinedOutsideFunctionOrMethod() ? QName(d) : d->getNameAsString());
    if (auto* v = dyn_cast<VarDecl>(d)) {
      if (v->isLocalVarDeclOrParm() ) {
        o << ",\"d\":" << Local(v);
        if (v->isStaticLocal()) o << ",\"sl\":true";
        FS(o, "dk", isa<ParmVarDecl>(v) ? "parm" : "var");
      } else {
        FS(o, "dk", v->isStaticDataMember() ? "smember" : "global");
        FS(o, "u", Usr(v->getCanonicalDecl()));
      }
    } else if (isa<FunctionDecl>(d)) {
      FS(o, "dk", "fn");
      const FunctionDecl* f = cast<FunctionDecl>(d);
      if (auto* p = f->getTemplateInstantiationPattern()) f = p;
      FS(o, "u", Usr(f->getCanonicalDecl()));
    } else if (isa<EnumConstantDecl>(d)) {
      FS(o, "dk", "enum");
    } else if (isa<BindingDecl>(d)) {
      o << ",\"d\":" << Local(d);
      FS(o, "dk", "binding");
    } else if (isa<NonTypeTemplateParmDecl>(d)) {
      FS(o, "dk", "nttp");
    } else if (isa<FieldDecl>(d)) {
      FS(o, "dk", "field");
    } else {
      FS(o, "dk", "other");
      o << ",\"d\":" << Local(d);
    }
  }
  // The non-trivial destructor of a class type (pattern USR / instance USR).
  void Dtor(llvm::raw_ostream& o, QualType t) {
    if (t.isNull() || t->isReferenceType() || t->isDependentType()) return;
    auto* r = t->getAsCXXRecordDecl();
    if (!r || !r->hasDefinition() || r->hasTrivialDestructor()) return;
    const FunctionDecl* d = r->getDestructor();
    if (!d) return;
    FS(o, "dtor_cls", QName(r));
    if (auto* p = d->getTemplateInstantiationPattern()) {
      FS(o, "diu", Usr(d->getCanonicalDecl()));
      d = p;
    }
    FS(o, "du", Usr(d->getCanonicalDecl()));
  }
  void Flat(const APValue& v, std::vector<std::string>& out) {
    switch (v.getKind()) {
      case APValue::Int: {
        llvm::SmallString<32> t;
        v.getInt().toString(t, 10);
        out.push_back(std::string(t));
        return;
      }
      case APValue::Float: {
        llvm::SmallString<32> t;
        v.getFloat().toString(t, 0, 0);
        out.push_back("f" + std::string(t));
        return;
      }
      case APValue::Struct:
        for (unsigned i = 0; i < v.getStructNumBases(); ++i) Flat(v.getStructBase(i), out);
        for (unsigned i = 0; i < v.getStructNumFields(); ++i) Flat(v.getStructField(i), out);
        return;
      default:
        out.push_back("?");
    }
  }
  // The value of a variable usable in constant expressions.
  void ConstVal(llvm::raw_ostream& o, const VarDecl* v) {
    if (v->getType()->isDependentType() || v->getType()->isReferenceType() || !v->getAnyInitializer()) return;
    const VarDecl* def = nullptr;
    const Expr* init = v->getAnyInitializer(def);
    if (!init || !def || init->isValueDependent() || init->isTypeDependent() || !def->isUsableInConstantExpressions(C)) return;
    const APValue* a = def->evaluateValue();
    if (!a) return;
    if (!(a->isInt() || a->isFloat() || a->isStruct())) return;
    std::vector<std::string> vs;
    Flat(*a, vs);
    if (vs.size() > 64) return;
    if (!a->isStruct()) {
      FS(o, "cv", vs[0]);
      return;
    }
    o << ",\"apv\":[";
    for (size_t i = 0; i < vs.size(); ++i) o << (i ? "," : "") << "\"" << vs[i] << "\"";
    o << "]";
  }
  void Var(llvm::raw_ostream& o, const VarDecl* v) {
    o << "{\"k\":\"Var\",\"l\":" << Line(v->getLocation()) << ",\"d\":" << Local(v);
    FS(o, "n", v->getNameAsString());
    FS(o, "t", Ty(v->getType()));
    Dtor(o, v->getType());
    if (v->getType().isConstQualified()) o << ",\"const\":true";
    if (v->isConstexpr()) o << ",\"cx\":true";
    ConstVal(o, v);
    if (v->isStaticLocal()) o << ",\"sl\":true";
    if (v->getTLSKind() != VarDecl::TLS_None) o << ",\"tls\":true";
    if (v->hasAttr<UnusedAttr>()) o << ",\"unused\":true";
    if (auto* d = dyn_cast<DecompositionDecl>(v)) {
      o << ",\"b\":[";
      bool first = true;
      for (auto* b : d->bindings()) {
        if (!first) o << ',';
        first = false;
        o << "{\"d\":" << Local(b);
        FS(o, "n", b->getNameAsString());
        if (auto* h = b->getHoldingVar()) {
          F(o, "e", h->getInit());
        } else {
          F(o, "e", b->getBinding());
        }
        o << "}";
      }
      o << "]";
    }
    if (auto* i = v->getInit()) {
      F(o, "i", i);
      FS(o, "is", v->getInitStyle() == VarDecl::CInit ? "=" : v->getInitStyle() == VarDecl::CallInit ? "(" : "{");
    }
    o << "}";
  }

  static const Expr* Skip(const Expr* e) {
    for (;;) {
      if (auto* p = dyn_cast<ParenExpr>(e)) e = p->getSubExpr();
      else if (auto* p = dyn_cast<FullExpr>(e)) e = p->getSubExpr();
      else if (auto* p = dyn_cast<MaterializeTemporaryExpr>(e)) e = p->getSubExpr();
      else if (auto* p = dyn_cast<CXXBindTemporaryExpr>(e)) e = p->getSubExpr();
      else if (auto* p = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = p->getReplacement();
      else if (auto* p = dyn_cast<CXXDefaultArgExpr>(e)) { (void)p; return e; }
      else if (auto* p = dyn_cast<CXXDefaultInitExpr>(e)) e = p->getExpr();
      else if (auto* p = dyn_cast<CXXStdInitializerListExpr>(e)) e = p->getSubExpr();
      else if (auto* p = dyn_cast<CXXRewrittenBinaryOperator>(e)) e = p->getSemanticForm();
      else if (auto* p = dyn_cast<ImplicitCastExpr>(e)) {
        switch (p->getCastKind()) {
          case CK_IntegralCast:
          case CK_FloatingCast:
          case CK_IntegralToFloating:
          case CK_FloatingToIntegral:
          case CK_IntegralToBoolean:
          case CK_FloatingToBoolean:
          case CK_PointerToBoolean:
            return e;
          case CK_UserDefinedConversion:
          case CK_ConstructorConversion:
          default:
            e = p->getSubExpr();
        }
      } else return e;
    }
  }

  void S(llvm::raw_ostream& o, const Stmt* s) {
    if (!s) { o << "null"; return; }
    if (auto* e = dyn_cast<Expr>(s)) { E(o, e); return; }
    switch (s->getStmtClass()) {
      case Stmt::CompoundStmtClass: {
        auto* c = cast<CompoundStmt>(s);
        Head(o, "Block", s);
        o << ",\"c\":";
        ListR(o, c->body());
        o << "}";
        return;
      }
      case Stmt::DeclStmtClass: {
        Head(o, "Decl", s);
        o << ",\"v\":[";
        bool first = true;
        for (auto* d : cast<DeclStmt>(s)->decls()) {
          if (auto* v = dyn_cast<VarDecl>(d)) {
            if (!first) o << ',';
            first = false;
            Var(o, v);
          }
        }
        o << "]}";
        return;
      }
      case Stmt::IfStmtClass: {
        auto* i = cast<IfStmt>(s);
        Head(o, "If", s);
        if (i->isConstexpr()) {
          o << ",\"cx\":true";
          auto* c = i->getCond();
          bool r;
          if (c && !c->isValueDependent() && !c->isTypeDependent() && c->EvaluateAsBooleanCondition(r, C)) o << ",\"cxv\":" << (r ? "true" : "false");
        }
        F(o, "init", i->getInit());
        if (i->getConditionVariable()) { o << ",\"cv\":"; Var(o, i->getConditionVariable()); }
        F(o, "cond", i->getCond());
        F(o, "then", i->getThen());
        F(o, "else", i->getElse());
        o << "}";
        return;
      }
      case Stmt::ForStmtClass: {
        auto* i = cast<ForStmt>(s);
        Head(o, "For", s);
        F(o, "init", i->getInit());
        if (i->getConditionVariable()) { o << ",\"cv\":"; Var(o, i->getConditionVariable()); }
        F(o, "cond", i->getCond());
        F(o, "inc", i->getInc());
        F(o, "body", i->getBody());
        o << "}";
        return;
      }
      case Stmt::CXXForRangeStmtClass: {
        auto* i = cast<CXXForRangeStmt>(s);
        Head(o, "RangeFor", s);
        F(o, "init", i->getInit());
        o << ",\"var\":";
        Var(o, i->getLoopVariable());
        F(o, "range", i->getRangeInit());
        F(o, "body", i->getBody());
        o << "}";
        return;
      }
      case Stmt::WhileStmtClass: {
        auto* i = cast<WhileStmt>(s);
        Head(o, "While", s);
        if (i->getConditionVariable()) { o << ",\"cv\":"; Var(o, i->getConditionVariable()); }
        F(o, "cond", i->getCond());
        F(o, "body", i->getBody());
        o << "}";
        return;
      }
      case Stmt::DoStmtClass: {
        auto* i = cast<DoStmt>(s);
        Head(o, "Do", s);
        F(o, "cond", i->getCond());
        F(o, "body", i->getBody());
        o << "}";
        return;
      }
      case Stmt::SwitchStmtClass: {
        auto* i = cast<SwitchStmt>(s);
        Head(o, "Switch", s);
        F(o, "init", i->getInit());
        if (i->getConditionVariable()) { o << ",\"cv\":"; Var(o, i->getConditionVariable()); }
        const Expr* c = i->getCond();
        FS(o, "ct", Ty(c ? Skip(c)->IgnoreImpCasts()->getType() : QualType()));
        F(o, "cond", c);
        F(o, "body", i->getBody());
        o << "}";
        return;
      }
      case Stmt::CaseStmtClass: {
        auto* i = cast<CaseStmt>(s);
        Head(o, "Case", s);
        F(o, "lhs", i->getLHS());
        F(o, "rhs", i->getRHS());
        F(o, "sub", i->getSubStmt());
        o << "}";
        return;
      }
      case Stmt::DefaultStmtClass: {
        Head(o, "Default", s);
        F(o, "sub", cast<DefaultStmt>(s)->getSubStmt());
        o << "}";
        return;
      }
      case Stmt::ReturnStmtClass: {
        Head(o, "Return", s);
        F(o, "e", cast<ReturnStmt>(s)->getRetValue());
        o << "}";
        return;
      }
      case Stmt::BreakStmtClass: Head(o, "Break", s); o << "}"; return;
      case Stmt::ContinueStmtClass: Head(o, "Continue", s); o << "}"; return;
      case Stmt::NullStmtClass: Head(o, "Null", s); o << "}"; return;
      case Stmt::GotoStmtClass: {
        Head(o, "Goto", s);
        FS(o, "n", cast<GotoStmt>(s)->getLabel()->getNameAsString());
        o << "}";
        return;
      }
      case Stmt::LabelStmtClass: {
        Head(o, "Label", s);
        FS(o, "n", cast<LabelStmt>(s)->getDecl()->getNameAsString());
        F(o, "sub", cast<LabelStmt>(s)->getSubStmt());
        o << "}";
        return;
      }
      case Stmt::AttributedStmtClass: S(o, cast<AttributedStmt>(s)->getSubStmt()); return;
      case Stmt::CXXTryStmtClass: {
        auto* t = cast<CXXTryStmt>(s);
        Head(o, "Try", s);
        F(o, "body", t->getTryBlock());
        o << ",\"h\":[";
        for (unsigned i = 0; i < t->getNumHandlers(); ++i) {
          if (i) o << ',';
          auto* h = t->getHandler(i);
          Head(o, "Catch", h);
          if (h->getExceptionDecl()) { o << ",\"v\":"; Var(o, h->getExceptionDecl()); }
          F(o, "body", h->getHandlerBlock());
          o << "}";
        }
        o << "]}";
        return;
      }
      default: {
        Head(o, "Stmt", s);
        FS(o, "sc", s->getStmtClassName());
        o << ",\"c\":";
        ListR(o, s->children());
        o << "}";
        return;
      }
    }
  }

  void Args(llvm::raw_ostream& o, const CallExpr* c, unsigned from = 0) {
    o << ",\"a\":[";
    bool first = true;
    for (unsigned i = from; i < c->getNumArgs(); ++i) {
      if (!first) o << ',';
      first = false;
      S(o, c->getArg(i));
    }
    o << "]";
  }
  void TArgs(llvm::raw_ostream& o, const TemplateArgumentLoc* a, unsigned n) {
    o << ",\"ta\":[";
    for (unsigned i = 0; i < n; ++i) {
      if (i) o << ',';
      std::string s;
      llvm::raw_string_ostream so(s);
      a[i].getArgument().print(PP, so, true);
      Str(o, so.str());
    }
    o << ']';
  }

  void E(llvm::raw_ostream& o, const Expr* e0) {
    const Expr* e = Skip(e0);
    switch (e->getStmtClass()) {
      case Stmt::IntegerLiteralClass: {
        HeadE(o, "Int", e);
        llvm::SmallString<32> b;
        cast<IntegerLiteral>(e)->getValue().toString(b, 10, e->getType()->isSignedIntegerType());
        FS(o, "v", b);
        o << "}";
        return;
      }
      case Stmt::FloatingLiteralClass: {
        HeadE(o, "Float", e);
        llvm::SmallString<32> b;
        auto* f = cast<FloatingLiteral>(e);
        f->getValue().toString(b);
        FS(o, "v", b);
        o << ",\"exact\":" << (f->isExact() ? "true" : "false") << "}";
        return;
      }
      case Stmt::StringLiteralClass: {
        auto* l = cast<StringLiteral>(e);
        Head(o, "Str", e);
        FS(o, "v", l->getCharByteWidth() == 1 ? l->getString() : llvm::StringRef("<wide>"));
        o << "}";
        return;
      }
      case Stmt::CharacterLiteralClass: {
        HeadE(o, "Char", e);
        o << ",\"v\":" << cast<CharacterLiteral>(e)->getValue() << "}";
        return;
      }
      case Stmt::CXXBoolLiteralExprClass: {
        Head(o, "Bool", e);
        o << ",\"v\":" << (cast<CXXBoolLiteralExpr>(e)->getValue() ? "true" : "false") << "}";
        return;
      }
      case Stmt::CXXNullPtrLiteralExprClass:
      case Stmt::GNUNullExprClass: Head(o, "Null_", e); o << "}"; return;
      case Stmt::CXXThisExprClass: HeadE(o, "This", e); o << "}"; return;
      case Stmt::DeclRefExprClass: {
        auto* r = cast<DeclRefExpr>(e);
        HeadE(o, "Ref", e);
        DeclRef(o, r->getDecl());
        if (auto* v = dyn_cast<VarDecl>(r->getDecl())) {
          if (!v->isLocalVarDeclOrParm() || v->isConstexpr()) ConstVal(o, v);
        }
        o << "}";
        return;
      }
      case Stmt::MemberExprClass: {
        auto* m = cast<MemberExpr>(e);
        HeadE(o, "Mem", e);
        FS(o, "m", m->getMemberDecl()->getNameAsString());
        FS(o, "mq", QName(m->getMemberDecl()));
        if (isa<FieldDecl>(m->getMemberDecl())) o << ",\"field\":true";
        if (m->isArrow()) o << ",\"arrow\":true";
        F(o, "b", m->getBase());
        o << "}";
        return;
      }
      case Stmt::CXXDependentScopeMemberExprClass: {
        auto* m = cast<CXXDependentScopeMemberExpr>(e);
        HeadE(o, "DMem", e);
        FS(o, "m", m->getMember().getAsString());
        if (m->isArrow()) o << ",\"arrow\":true";
        if (m->hasExplicitTemplateArgs()) TArgs(o, m->getTemplateArgs(), m->getNumTemplateArgs());
        if (!m->isImplicitAccess()) F(o, "b", m->getBase());
        o << "}";
        return;
      }
      case Stmt::UnresolvedMemberExprClass: {
        auto* m = cast<UnresolvedMemberExpr>(e);
        HeadE(o, "DMem", e);
        FS(o, "m", m->getMemberName().getAsString());
        if (m->isArrow()) o << ",\"arrow\":true";
        if (m->hasExplicitTemplateArgs()) TArgs(o, m->getTemplateArgs(), m->getNumTemplateArgs());
        o << ",\"cands\":[";
        bool first = true;
        for (auto* d : m->decls()) {
          if (!first) o << ',';
          first = false;
          Str(o, Usr(Pat(d)));
        }
        o << "]";
        if (!m->isImplicitAccess()) F(o, "b", m->getBase());
        o << "}";
        return;
      }
      case Stmt::UnresolvedLookupExprClass: {
        auto* m = cast<UnresolvedLookupExpr>(e);
        HeadE(o, "ULook", e);
        std::string q;
        llvm::raw_string_ostream qo(q);
        if (m->getQualifier()) m->getQualifier()->print(qo, PP);
        FS(o, "n", qo.str() + m->getName().getAsString());
        if (m->hasExplicitTemplateArgs()) TArgs(o, m->getTemplateArgs(), m->getNumTemplateArgs());
        o << ",\"cands\":[";
        bool first = true;
        int n = 0;
        for (auto* d : m->decls()) {
          if (++n > 12) break;
          if (!first) o << ',';
          first = false;
          Str(o, Usr(Pat(d)));
        }
        o << "],\"qn\":[";
        first = true;
        n = 0;
        for (auto* d : m->decls()) {
          if (++n > 3) break;
          if (!first) o << ',';
          first = false;
          Str(o, QName(d->getUnderlyingDecl()));
        }
        o << "]}";
        return;
      }
      case Stmt::DependentScopeDeclRefExprClass: {
        auto* m = cast<DependentScopeDeclRefExpr>(e);
        HeadE(o, "DRef", e);
        std::string q;
        llvm::raw_string_ostream qo(q);
        if (m->getQualifier()) m->getQualifier()->print(qo, PP);
        FS(o, "q", qo.str());
        FS(o, "n", m->getDeclName().getAsString());
        o << "}";
        return;
      }
      case Stmt::CallExprClass:
      case Stmt::UserDefinedLiteralClass: {
        auto* c = cast<CallExpr>(e);
        HeadE(o, "Call", e);
        if (auto* f = c->getDirectCallee()) {
          Callee(o, f);
        } else {
          F(o, "ce", c->getCallee());
        }
        Args(o, c);
        o << "}";
        return;
      }
      case Stmt::CXXMemberCallExprClass: {
        auto* c = cast<CXXMemberCallExpr>(e);
        HeadE(o, "MCall", e);
        auto* m = c->getMethodDecl();
        if (m) {
          FS(o, "m", m->getNameAsString());
          Callee(o, m);
          F(o, "o", c->getImplicitObjectArgument());
          if (auto* me = dyn_cast<MemberExpr>(c->getCallee()->IgnoreParens()))
            if (me->isArrow()) o << ",\"arrow\":true";
        } else {
          F(o, "ce", c->getCallee());
        }
        Args(o, c);
        o << "}";
        return;
      }
      case Stmt::CXXOperatorCallExprClass: {
        auto* c = cast<CXXOperatorCallExpr>(e);
        HeadE(o, "OCall", e);
        FS(o, "op", getOperatorSpelling(c->getOperator()));
        if (auto* f = c->getDirectCallee()) Callee(o, f);
        Args(o, c);
        o << "}";
        return;
      }
      case Stmt::CXXConstructExprClass:
      case Stmt::CXXTemporaryObjectExprClass: {
        auto* c = cast<CXXConstructExpr>(e);
        // Elide copy/move of a temporary.
        HeadE(o, "Ctor", e);
        FS(o, "cls", QName(c->getConstructor()->getParent()));
        const FunctionDecl* d = c->getConstructor();
        if (d->isDefaulted()) o << ",\"dflt\":true";
        if (c->getConstructor()->isImplicit() && c->getConstructor()->isDefaultConstructor() && !RelFile(c->getConstructor()->getParent()->getLocation()).empty()) {
          // The members an implicit constructor initialises, as text: no part of the tree of the caller.
          std::string buf;
          llvm::raw_string_ostream q(buf);
          q << "[";
          bool first = true;
          for (auto* i : c->getConstructor()->inits()) {
            if (!i->isAnyMemberInitializer()) continue;
            if (!first) q << ',';
            first = false;
            q << "{\"w\":false";
            FS(q, "m", i->getAnyMember()->getNameAsString());
            F(q, "e", i->getInit());
            q << "}";
          }
          q << "]";
          FS(o, "di", q.str());
        }
        if (auto* p = d->getTemplateInstantiationPattern()) {
          FS(o, "iu", Usr(d->getCanonicalDecl()));
          d = p;
        }
        FS(o, "u", Usr(d->getCanonicalDecl()));
        if (c->getConstructor()->isCopyConstructor()) o << ",\"copy\":true";
        if (c->getConstructor()->isMoveConstructor()) o << ",\"move\":true";
        if (c->isElidable()) o << ",\"elide\":true";
        if (isa<CXXTemporaryObjectExpr>(e)) o << ",\"tmp\":true";
        Dtor(o, e->getType());
        o << ",\"a\":[";
        bool first = true;
        for (auto* a : c->arguments()) {
          if (!first) o << ',';
          first = false;
          S(o, a);
        }
        o << "]}";
        return;
      }
      case Stmt::CXXInheritedCtorInitExprClass: {
        auto* c = cast<CXXInheritedCtorInitExpr>(e);
        HeadE(o, "Ctor", e);
        FS(o, "cls", QName(c->getConstructor()->getParent()));
        o << ",\"inh\":true,\"a\":[]}";
        return;
      }
      case Stmt::CXXUnresolvedConstructExprClass: {
        auto* c = cast<CXXUnresolvedConstructExpr>(e);
        HeadE(o, "DCtor", e);
        FS(o, "cls", Ty(c->getTypeAsWritten()));
        o << ",\"a\":[";
        bool first = true;
        for (auto* a : c->arguments()) {
          if (!first) o << ',';
          first = false;
          S(o, a);
        }
        o << "]}";
        return;
      }
      case Stmt::BinaryOperatorClass:
      case Stmt::CompoundAssignOperatorClass: {
        auto* b = cast<BinaryOperator>(e);
        HeadE(o, "Bin", e);
        FS(o, "op", b->getOpcodeStr());
        if (auto* ca = dyn_cast<CompoundAssignOperator>(b)) FS(o, "crt", Ty(ca->getComputationResultType()));
        F(o, "x", b->getLHS());
        F(o, "y", b->getRHS());
        o << "}";
        return;
      }
      case Stmt::UnaryOperatorClass: {
        auto* u = cast<UnaryOperator>(e);
        HeadE(o, "Un", e);
        FS(o, "op", UnaryOperator::getOpcodeStr(u->getOpcode()));
        if (u->isPostfix()) o << ",\"post\":true";
        F(o, "e", u->getSubExpr());
        o << "}";
        return;
      }
      case Stmt::ConditionalOperatorClass: {
        auto* c = cast<ConditionalOperator>(e);
        HeadE(o, "Cond", e);
        F(o, "c", c->getCond());
        F(o, "x", c->getTrueExpr());
        F(o, "y", c->getFalseExpr());
        o << "}";
        return;
      }
      case Stmt::BinaryConditionalOperatorClass: {
        auto* c = cast<BinaryConditionalOperator>(e);
        HeadE(o, "BCond", e);
        F(o, "x", c->getCommon());
        F(o, "y", c->getFalseExpr());
        o << "}";
        return;
      }
      case Stmt::ArraySubscriptExprClass: {
        auto* c = cast<ArraySubscriptExpr>(e);
        HeadE(o, "Sub", e);
        F(o, "b", c->getLHS());
        F(o, "i", c->getRHS());
        o << "}";
        return;
      }
      case Stmt::ImplicitCastExprClass:
      case Stmt::CStyleCastExprClass:
      case Stmt::CXXFunctionalCastExprClass:
      case Stmt::CXXStaticCastExprClass:
      case Stmt::CXXReinterpretCastExprClass:
      case Stmt::CXXConstCastExprClass:
      case Stmt::CXXDynamicCastExprClass:
      case Stmt::BuiltinBitCastExprClass: {
        auto* c = cast<CastExpr>(e);
        HeadE(o, "Cast", e);
        FS(o, "ck", c->getCastKindName());
        FS(o, "sc", isa<ImplicitCastExpr>(e) ? "implicit" : isa<CStyleCastExpr>(e) ? "cstyle" : isa<CXXFunctionalCastExpr>(e) ? "func" : isa<CXXStaticCastExpr>(e) ? "static" : isa<CXXReinterpretCastExpr>(e) ? "reinterpret" : isa<CXXConstCastExpr>(e) ? "const" : isa<CXXDynamicCastExpr>(e) ? "dynamic" : "bit");
        FS(o, "st", Ty(c->getSubExpr()->getType()));
        F(o, "e", c->getSubExpr());
        o << "}";
        return;
      }
      case Stmt::InitListExprClass: {
        auto* i = cast<InitListExpr>(e);
        if (i->isSemanticForm() == false && i->getSemanticForm()) i = i->getSemanticForm();
        HeadE(o, "Init", e);
        if (auto* rt = e->getType()->getAsCXXRecordDecl()) {
          FS(o, "cls", QName(rt));
        }
        o << ",\"c\":";
        ListR(o, i->inits());
        o << "}";
        return;
      }
      case Stmt::CXXParenListInitExprClass: {
        HeadE(o, "Init", e);
        o << ",\"c\":";
        ListR(o, e->children());
        o << "}";
        return;
      }
      case Stmt::DesignatedInitExprClass: {
        auto* d = cast<DesignatedInitExpr>(e);
        HeadE(o, "DInit", e);
        std::string n;
        if (d->size() && d->getDesignator(0)->isFieldDesignator() && d->getDesignator(0)->getFieldName())
          n = d->getDesignator(0)->getFieldName()->getName().str();
        FS(o, "n", n);
        F(o, "e", d->getInit());
        o << "}";
        return;
      }
      case Stmt::LambdaExprClass: {
        auto* l = cast<LambdaExpr>(e);
        Head(o, "Lambda", e);
        o << ",\"caps\":[";
        bool first = true;
        auto init = l->capture_init_begin();
        for (auto& c : l->captures()) {
          if (!first) o << ',';
          first = false;
          o << "{\"by\":\"" << (c.getCaptureKind() == LCK_ByRef ? "ref" : c.getCaptureKind() == LCK_ByCopy ? "copy" : "this") << "\"";
          if (c.capturesVariable()) {
            auto* v = c.getCapturedVar();
            o << ",\"d\":" << Local(v);
            FS(o, "n", v->getNameAsString());
            if (l->isInitCapture(&c)) { o << ",\"init\":"; S(o, *init); }
          }
          if (c.isImplicit()) o << ",\"impl\":true";
          o << "}";
          ++init;
        }
        o << "]";
        if (l->isMutable()) o << ",\"mut\":true";
        auto* m = l->getCallOperator();
        FS(o, "rt", Ty(m->getReturnType()));
        Params(o, m);
        F(o, "body", l->getBody());
        if (auto* t = l->getLambdaClass()->getDependentLambdaCallOperator()) {
          // The instantiated bodies of a generic lambda.
          bool any = false;
          for (auto* f : t->specializations()) {
            if (f->isDependentContext() || !f->hasBody() || f->getTemplateInstantiationPattern() == nullptr) continue;
            o << (any ? "," : ",\"spec\":[");
            any = true;
            o << "{\"sig\":";
            Str(o, LamId(f));
            FS(o, "rt", Ty(f->getReturnType()));
            Params(o, f);
            F(o, "body", f->getBody());
            o << "}";
          }
          if (any) o << "]";
        }
        o << "}";
        return;
      }
      case Stmt::CXXNewExprClass: {
        auto* n = cast<CXXNewExpr>(e);
        HeadE(o, "New", e);
        if (n->getNumPlacementArgs()) o << ",\"place\":true";
        if (n->isArray()) o << ",\"arr\":true";
        o << ",\"pa\":[";
        for (unsigned i = 0; i < n->getNumPlacementArgs(); ++i) { if (i) o << ','; S(o, n->getPlacementArg(i)); }
        o << "]";
        F(o, "init", n->getInitializer());
        o << "}";
        return;
      }
      case Stmt::CXXDeleteExprClass: {
        auto* n = cast<CXXDeleteExpr>(e);
        HeadE(o, "Delete", e);
        Dtor(o, n->getDestroyedType());
        FS(o, "dt", Ty(n->getDestroyedType()));
        F(o, "e", n->getArgument());
        o << "}";
        return;
      }
      case Stmt::CXXThrowExprClass: {
        Head(o, "Throw", e);
        F(o, "e", cast<CXXThrowExpr>(e)->getSubExpr());
        o << "}";
        return;
      }
      case Stmt::UnaryExprOrTypeTraitExprClass: {
        auto* u = cast<UnaryExprOrTypeTraitExpr>(e);
        HeadE(o, "Sizeof", e);
        FS(o, "what", getTraitSpelling(u->getKind()));
        FS(o, "of", Ty(u->getTypeOfArgument()));
        if (!u->isValueDependent() && !u->getTypeOfArgument()->isDependentType() && !u->getTypeOfArgument()->isIncompleteType()) {
          Expr::EvalResult r;
          if (u->EvaluateAsInt(r, C)) FS(o, "val", llvm::toString(r.Val.getInt(), 10));
        }
        o << "}";
        return;
      }
      case Stmt::CXXTypeidExprClass: {
        auto* u = cast<CXXTypeidExpr>(e);
        Head(o, "Typeid", e);
        FS(o, "t", Ty(e->getType()));
        if (u->isTypeOperand()) FS(o, "of", u->getTypeOperand(C).getUnqualifiedType().getCanonicalType().getAsString());
        o << "}";
        return;
      }
      case Stmt::CXXDefaultArgExprClass: {
        auto* d = cast<CXXDefaultArgExpr>(e);
        Head(o, "DfltArg", e);
        FS(o, "t", Ty(e->getType()));
        if (d->getParam()->hasDefaultArg() && !d->getParam()->hasUnparsedDefaultArg() && !d->getParam()->hasUninstantiatedDefaultArg()) {
          // avoid re-emitting large defaults (source_location etc.)
          const Expr* x = Skip(d->getExpr());
          const Expr* y = x->IgnoreParenImpCasts();
          if (isa<DeclRefExpr>(x) || isa<IntegerLiteral>(y) || isa<CXXBoolLiteralExpr>(y) || isa<IntegerLiteral>(x) || isa<CXXBoolLiteralExpr>(x) || isa<CXXNullPtrLiteralExpr>(x) || isa<FloatingLiteral>(x)) F(o, "e", x);
        }
        o << "}";
        return;
      }
      case Stmt::CXXScalarValueInitExprClass:
      case Stmt::ImplicitValueInitExprClass: HeadE(o, "Zero", e); o << "}"; return;
      case Stmt::ArrayInitLoopExprClass: HeadE(o, "Zero", e); o << "}"; return;
      case Stmt::PredefinedExprClass: Head(o, "Str", e); FS(o, "v", "__func__"); o << "}"; return;
      case Stmt::SourceLocExprClass: Head(o, "SLoc", e); o << "}"; return;
      case Stmt::OpaqueValueExprClass: {
        auto* v = cast<OpaqueValueExpr>(e);
        if (v->getSourceExpr()) { E(o, v->getSourceExpr()); return; }
        HeadE(o, "Opaque", e); o << "}"; return;
      }
      case Stmt::PackExpansionExprClass: {
        Head(o, "Pack", e);
        F(o, "e", cast<PackExpansionExpr>(e)->getPattern());
        o << "}";
        return;
      }
      case Stmt::CXXFoldExprClass: {
        auto* f = cast<CXXFoldExpr>(e);
        Head(o, "Fold", e);
        FS(o, "op", BinaryOperator::getOpcodeStr(f->getOperator()));
        F(o, "x", f->getLHS());
        F(o, "y", f->getRHS());
        o << "}";
        return;
      }
      case Stmt::TypeTraitExprClass:
      case Stmt::CXXNoexceptExprClass:
      case Stmt::SizeOfPackExprClass:
      case Stmt::ConceptSpecializationExprClass:
      case Stmt::RequiresExprClass: {
        Head(o, "Trait", e);
        std::string s;
        llvm::raw_string_ostream so(s);
        e->printPretty(so, nullptr, PP);
        FS(o, "v", so.str().substr(0, 200));
        if (!e->isValueDependent()) {
          Expr::EvalResult r;
          if (e->EvaluateAsInt(r, C)) o << ",\"val\":" << r.Val.getInt().getSExtValue();
        }
        o << "}";
        return;
      }
      case Stmt::StmtExprClass: {
        Head(o, "StmtExpr", e);
        F(o, "body", cast<StmtExpr>(e)->getSubStmt());
        o << "}";
        return;
      }
      default: {
        Head(o, "Expr", e);
        FS(o, "sc", e->getStmtClassName());
        FS(o, "t", Ty(e->getType()));
        o << ",\"c\":";
        ListR(o, e->children());
        o << "}";
        return;
      }
    }
  }
  const Decl* Pat(const NamedDecl* d) {
    d = d->getUnderlyingDecl();
    if (auto* t = dyn_cast<FunctionTemplateDecl>(d)) d = t->getTemplatedDecl();
    if (auto* f = dyn_cast<FunctionDecl>(d))
      if (auto* p = f->getTemplateInstantiationPattern()) return p->getCanonicalDecl();
    return d->getCanonicalDecl();
  }
  void Params(llvm::raw_ostream& o, const FunctionDecl* f) {
    o << ",\"p\":[";
    bool first = true;
    for (auto* p : f->parameters()) {
      if (!first) o << ',';
      first = false;
      o << "{\"d\":" << Local(p);
      FS(o, "n", p->getNameAsString());
      FS(o, "t", Ty(p->getType()));
      FS(o, "ct", CTy(p->getType()));
      Dtor(o, p->getType());
      o << "}";
    }
    o << "]";
  }

  // ---- declarations -------------------------------------------------------
  void Function(const FunctionDecl* f, const char* kind) {
    locals.clear();
    std::string buf;
    llvm::raw_string_ostream o(buf);
    std::string rel = RelFile(f->getLocation());
    std::string usr = Usr(f->getCanonicalDecl());
    std::string key = std::string("F") + kind + usr + rel;
    if (usr.empty()) key += std::to_string(Line(f->getLocation()));
    // distinct anonymous-namespace functions share USRs only within a file
    if (!g_seen.insert(key).second) return;
    o << "{\"k\":\"Function\",\"kind\":\"" << kind << "\"";
    FS(o, "file", rel);
    o << ",\"l\":" << Line(f->getLocation()) << ",\"le\":" << Line(f->getEndLoc());
    FS(o, "n", QName(f));
    FS(o, "u", usr);
    if (auto* p = f->getTemplateInstantiationPattern()) FS(o, "pu", Usr(p->getCanonicalDecl()));
    FS(o, "rt", Ty(f->getReturnType()));
    FS(o, "crt", CTy(f->getReturnType()));
    FS(o, "op", f->isOverloadedOperator() ? getOperatorSpelling(f->getOverloadedOperator()) : "");
    if (f->isStatic()) o << ",\"static\":true";
    if (f->isDeleted()) o << ",\"deleted\":true";
    if (f->isDefaulted()) o << ",\"dflt\":true";
    if (f->isConstexpr()) o << ",\"cx\":true";
    if (f->isNoReturn()) o << ",\"noreturn\":true";
    if (f->isInAnonymousNamespace()) o << ",\"anon\":true";
    if (auto* fpt = f->getType()->getAs<FunctionProtoType>()) if (!fpt->isDependentType() && isNoexceptExceptionSpec(fpt->getExceptionSpecType()) && fpt->isNothrow()) o << ",\"noexcept\":true";
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      FS(o, "cls", QName(m->getParent()));
      FS(o, "clsu", Usr(m->getParent()->getCanonicalDecl()));
      if (m->isConst()) o << ",\"const\":true";
      if (m->isVirtual()) o << ",\"virt\":true";
      if (m->isStatic()) o << ",\"smeth\":true";
      o << ",\"acc\":" << (int)m->getAccess();
      if (isa<CXXDestructorDecl>(m)) o << ",\"dtor\":true";
      if (auto* c = dyn_cast<CXXConstructorDecl>(m)) {
        o << ",\"ctor\":true";
        if (c->isCopyConstructor()) o << ",\"copy\":true";
        if (c->isMoveConstructor()) o << ",\"move\":true";
        if (c->isDefaultConstructor()) o << ",\"dfltctor\":true";
      }
      if (m->isCopyAssignmentOperator()) o << ",\"copyasg\":true";
      if (m->isMoveAssignmentOperator()) o << ",\"moveasg\":true";
      o << ",\"ov\":[";
      bool first = true;
      for (auto* b : m->overridden_methods()) {
        if (!first) o << ',';
        first = false;
        Str(o, QName(b));
      }
      o << "]";
    }
    if (f->getFriendObjectKind() != Decl::FOK_None) o << ",\"friend\":true";
    Params(o, f);
    if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
      o << ",\"inits\":[";
      bool first = true;
      for (auto* i : c->inits()) {
        if (!first) o << ',';
        first = false;
        o << "{\"w\":" << (i->isWritten() ? "true" : "false");
        if (i->isAnyMemberInitializer()) { FS(o, "m", i->getAnyMember()->getNameAsString()); }
        else if (i->isBaseInitializer()) { FS(o, "base", Ty(QualType(i->getBaseClass(), 0))); }
        else FS(o, "deleg", "1");
        F(o, "e", i->getInit());
        o << "}";
      }
      o << "]";
    }
    if (f->doesThisDeclarationHaveABody() && f->getBody()) F(o, "body", f->getBody());
    o << "}\n";
    *OS << o.str();
  }

  void Record(const CXXRecordDecl* r, const char* kind) {
    if (!r->isThisDeclarationADefinition() || r->isLambda()) return;
    std::string rel = RelFile(r->getLocation());
    std::string usr = Usr(r->getCanonicalDecl());
    if (!g_seen.insert(std::string("R") + kind + usr + rel).second) return;
    locals.clear();
    std::string buf;
    llvm::raw_string_ostream o(buf);
    o << "{\"k\":\"Record\",\"kind\":\"" << kind << "\"";
    FS(o, "file", rel);
    o << ",\"l\":" << Line(r->getLocation());
    FS(o, "n", QName(r));
    FS(o, "u", usr);
    if (auto* s = dyn_cast<ClassTemplateSpecializationDecl>(r)) {
      o << ",\"ta\":[";
      bool first = true;
      for (auto& a : s->getTemplateArgs().asArray()) {
        if (!first) o << ',';
        first = false;
        std::string st;
        llvm::raw_string_ostream so(st);
        a.print(PP, so, true);
        Str(o, so.str());
      }
      o << "]";
      FS(o, "spec", Ty(C.getTypeDeclType(r)));
    }
    if (r->isInAnonymousNamespace()) o << ",\"anon\":true";
    o << ",\"union\":" << (r->isUnion() ? "true" : "false");
    o << ",\"bases\":[";
    bool first = true;
    for (auto& b : r->bases()) {
      if (!first) o << ',';
      first = false;
      Str(o, Ty(b.getType()));
    }
    o << "],\"fields\":[";
    first = true;
    for (auto* f : r->fields()) {
      if (!first) o << ',';
      first = false;
      o << "{\"l\":" << Line(f->getLocation());
      FS(o, "n", f->getNameAsString());
      FS(o, "t", Ty(f->getType()));
      FS(o, "ct", CTy(f->getType()));
      if (f->isMutable()) o << ",\"mutable\":true";
      if (f->getType().isConstQualified()) o << ",\"const\":true";
      if (auto* g = f->getAttr<GuardedByAttr>()) {
        std::string s;
        llvm::raw_string_ostream so(s);
        g->getArg()->printPretty(so, nullptr, PP);
        FS(o, "guard", so.str());
      }
      if (f->hasAttr<PtGuardedByAttr>()) o << ",\"ptguard\":true";
      if (f->hasInClassInitializer() && f->getInClassInitializer()) F(o, "i", f->getInClassInitializer());
      o << "}";
    }
    o << "],\"meths\":[";
    first = true;
    for (auto* m : r->methods()) {
      if (m->isImplicit()) continue;
      if (!first) o << ',';
      first = false;
      o << "{";
      o << "\"l\":" << Line(m->getLocation());
      FS(o, "n", m->getNameAsString());
      FS(o, "u", Usr(m->getCanonicalDecl()));
      FS(o, "rt", Ty(m->getReturnType()));
      if (m->isVirtual()) o << ",\"virt\":true";
      if (m->isPureVirtual()) o << ",\"pure\":true";
      if (m->isDeleted()) o << ",\"deleted\":true";
      if (m->isDefaulted()) o << ",\"dflt\":true";
      if (m->isConst()) o << ",\"const\":true";
      if (m->isStatic()) o << ",\"smeth\":true";
      o << ",\"acc\":" << (int)m->getAccess();
      o << ",\"pt\":[";
      bool f2 = true;
      for (auto* p : m->parameters()) { if (!f2) o << ','; f2 = false; Str(o, Ty(p->getType())); }
      o << "]}";
    }
    o << "],\"aliases\":[";
    first = true;
    for (auto* d : r->decls()) {
      if (auto* t = dyn_cast<TypedefNameDecl>(d)) {
        if (!first) o << ',';
        first = false;
        o << "{\"l\":" << Line(t->getLocation());
        FS(o, "n", t->getNameAsString());
        FS(o, "t", Ty(t->getUnderlyingType()));
        FS(o, "ct", CTy(t->getUnderlyingType()));
        o << "}";
      }
    }
    o << "]}\n";
    *OS << o.str();
  }

  void Enum(const EnumDecl* e) {
    if (!e->isThisDeclarationADefinition()) return;
    std::string rel = RelFile(e->getLocation());
    if (!g_seen.insert("E" + Usr(e) + rel).second) return;
    std::string buf;
    llvm::raw_string_ostream o(buf);
    o << "{\"k\":\"Enum\"";
    FS(o, "file", rel);
    o << ",\"l\":" << Line(e->getLocation());
    FS(o, "n", QName(e));
    o << ",\"c\":[";
    bool first = true;
    for (auto* c : e->enumerators()) {
      if (!first) o << ',';
      first = false;
      o << "{\"v\":" << c->getInitVal().getExtValue();
      FS(o, "n", c->getNameAsString());
      o << "}";
    }
    o << "]}\n";
    *OS << o.str();
  }

  void Global(const VarDecl* v) {
    if (v->isLocalVarDeclOrParm()) return;
    std::string rel = RelFile(v->getLocation());
    if (!g_seen.insert("V" + Usr(v->getCanonicalDecl()) + rel + std::to_string(Line(v->getLocation()))).second) return;
    locals.clear();
    std::string buf;
    llvm::raw_string_ostream o(buf);
    o << "{\"k\":\"Global\"";
    FS(o, "file", rel);
    o << ",\"l\":" << Line(v->getLocation());
    FS(o, "n", QName(v));
    FS(o, "t", Ty(v->getType()));
    FS(o, "ct", CTy(v->getType()));
    FS(o, "u", Usr(v->getCanonicalDecl()));
    if (v->getType().isConstQualified()) o << ",\"const\":true";
    if (v->isConstexpr()) o << ",\"cx\":true";
    if (v->hasAttr<ConstInitAttr>()) o << ",\"constinit\":true";
    if (v->getTLSKind() != VarDecl::TLS_None) o << ",\"tls\":true";
    if (v->isStaticDataMember()) o << ",\"smember\":true";
    if (auto* g = v->getAttr<GuardedByAttr>()) { (void)g; o << ",\"guard\":true"; }
    if (v->getInit() && !v->isTemplated()) F(o, "i", v->getInit());
    o << "}\n";
    *OS << o.str();
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
 public:
  explicit Visitor(ASTContext& c) : D(c) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }

  bool InRoot(const Decl* d, std::string* rel) {
    *rel = D.RelFile(d->getLocation());
    if (rel->empty()) return false;
    if (g_only.empty() || rel->rfind("@tu/", 0) == 0) return true;
    for (auto& p : g_only) if (rel->rfind(p, 0) == 0) return true;
    return false;
  }
  bool WantInst(const std::string& rel) {
    if (g_inst_all) return true;
    for (auto& p : g_inst) if (rel.rfind(p, 0) == 0) return true;
    return false;
  }
  bool VisitFunctionDecl(FunctionDecl* f) {
    std::string rel;
    if (!InRoot(f, &rel)) return true;
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) if (m->getParent()->isLambda()) return true;
    if (f->isImplicit()) return true;
    if (!f->isThisDeclarationADefinition() && !f->isDeleted()) return true;
    bool inst = f->isTemplateInstantiation();
    bool pattern = f->isDependentContext() || f->isTemplated();
    if (inst) {
      if (f->getTemplateSpecializationKind() == TSK_ExplicitSpecialization) inst = false;
    }
    if (inst && !WantInst(rel)) return true;
    D.Function(f, inst ? "inst" : pattern ? "pattern" : "plain");
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* r) {
    std::string rel;
    if (!InRoot(r, &rel)) return true;
    bool inst = false;
    if (auto* s = dyn_cast<ClassTemplateSpecializationDecl>(r)) inst = s->getSpecializationKind() != TSK_ExplicitSpecialization && !isa<ClassTemplatePartialSpecializationDecl>(s);
    else if (r->getInstantiatedFromMemberClass()) inst = true;
    if (inst && !WantInst(rel)) return true;
    D.Record(r, inst ? "inst" : r->isDependentContext() ? "pattern" : "plain");
    return true;
  }
  bool VisitEnumDecl(EnumDecl* e) {
    std::string rel;
    if (InRoot(e, &rel)) D.Enum(e);
    return true;
  }
  bool VisitVarDecl(VarDecl* v) {
    if (v->isLocalVarDeclOrParm()) return true;
    std::string rel;
    if (InRoot(v, &rel)) D.Global(v);
    return true;
  }
  // Do not descend into declarations of files outside of the root.
  bool TraverseDecl(Decl* d) {
    if (d && !isa<TranslationUnitDecl>(d) && !isa<NamespaceDecl>(d) && !isa<LinkageSpecDecl>(d)) {
      if (D.RelFile(d->getLocation()).empty()) return true;
    }
    return RecursiveASTVisitor<Visitor>::TraverseDecl(d);
  }
  Dumper D;
};

class Consumer : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext& c) override {
    Visitor v(c);
    v.TraverseDecl(c.getTranslationUnitDecl());
  }
  bool shouldSkipFunctionBody(Decl* d) override {
    auto& sm = d->getASTContext().getSourceManager();
    auto l = sm.getExpansionLoc(d->getLocation());
    auto fn = sm.getFilename(l);
    return !fn.starts_with(g_root) && !(!g_root2.empty() && fn.starts_with(g_root2));
  }
};
static int g_errors = 0;
class Action : public ASTFrontendAction {
 public:
  bool BeginInvocation(CompilerInstance& ci) override {
    ci.getFrontendOpts().SkipFunctionBodies = true;
    return true;
  }
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& ci, llvm::StringRef) override {
    return std::make_unique<Consumer>();
  }
  void EndSourceFileAction() override {
    if (getCompilerInstance().getDiagnostics().hasErrorOccurred()) {
      ++g_errors;
      *OS << "{\"k\":\"Error\",\"file\":";
      Str(*OS, getCurrentFile());
      *OS << "}\n";
    } else {
      *OS << "{\"k\":\"TU\",\"file\":";
      Str(*OS, getCurrentFile());
      *OS << "}\n";
    }
  }
};

int main(int argc, char** argv) {
  std::vector<std::string> files, args;
  std::string out;
  int i = 1;
  for (; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--") { ++i; break; }
    if (a == "--root") { g_root = argv[++i]; if (g_root.back() != '/') g_root += '/'; }
    else if (a == "--root2") { g_root2 = argv[++i]; if (g_root2.back() != '/') g_root2 += '/'; }
    else if (a == "--inst") { std::string p = argv[++i]; if (p == "ALL") g_inst_all = true; else g_inst.push_back(p); }
    else if (a == "--only") g_only.push_back(argv[++i]);
    else if (a == "--out") out = argv[++i];
    else files.push_back(a);
  }
  for (; i < argc; ++i) args.push_back(argv[i]);
  std::error_code ec;
  llvm::raw_fd_ostream os(out, ec);
  if (ec) { llvm::errs() << "cannot open " << out << "\n"; return 2; }
  OS = &os;
  tooling::FixedCompilationDatabase db(".", args);
  tooling::ClangTool tool(db, files);
  tool.clearArgumentsAdjusters();
  tool.appendArgumentsAdjuster(tooling::getClangSyntaxOnlyAdjuster());
  int rc = tool.run(tooling::newFrontendActionFactory<Action>().get());
  os.flush();
  return rc == 0 && g_errors == 0 ? 0 : 3;
}
