// C21-C24, C31, C32: the parser and the syntax tree against an independent recogniser.
#include "compat.h"
#include "vf.h"
#include "astjson.h"
#include "parseref.h"
#include "marco/AST/BaseModelica/AST.h"
#include "marco/Parser/BaseModelica/Parser.h"
#include "clang/Basic/Diagnostic.h"
#include "clang/Basic/SourceManager.h"
#include <map>
#include "llvm/Support/FormatVariadic.h"

using namespace marco;
using namespace marco::ast::bmodelica;
using marco::ast::ASTNode;
using pref::N;
using S = std::string;
using K = ASTNodeKind;

static S esc(const S &s) {
  S r;
  for (unsigned char ch : s) {
    char b[8];
    if (ch == '\n')
      r += "\\n";
    else if (ch < 32 || ch > 126)
      snprintf(b, sizeof b, "\\x%02x", ch), r += b;
    else
      r += ch;
  }
  return r;
}

struct Diags : clang::DiagnosticConsumer {
  struct D {
    unsigned line = 0, col = 0;
    S text;
  };
  std::vector<D> errors;
  void HandleDiagnostic(clang::DiagnosticsEngine::Level l,
                        const clang::Diagnostic &d) override {
    clang::DiagnosticConsumer::HandleDiagnostic(l, d);
    if (l < clang::DiagnosticsEngine::Error)
      return;
    D x;
    llvm::SmallString<64> m;
    d.FormatDiagnostic(m);
    x.text = m.str().str();
    if (d.getLocation().isValid() && d.hasSourceManager()) {
      x.line = d.getSourceManager().getSpellingLineNumber(d.getLocation());
      x.col = d.getSourceManager().getSpellingColumnNumber(d.getLocation());
    }
    errors.push_back(x);
  }
};

struct Parsed {
  std::unique_ptr<ASTNode> tree;
  std::vector<Diags::D> errors;
};
static Parsed parse(const S &src) {
  Parsed r;
  auto file = std::make_shared<SourceFile>("model.mo");
  clang::SourceManagerForFile sm(file->getFileName(), src);
  Diags diags;
  clang::DiagnosticsEngine engine(
      llvm::IntrusiveRefCntPtr<clang::DiagnosticIDs>(new clang::DiagnosticIDs),
      llvm::IntrusiveRefCntPtr<clang::DiagnosticOptions>(
          new clang::DiagnosticOptions),
      &diags, false);
  engine.setSourceManager(&sm.get());
  auto buf = llvm::MemoryBuffer::getMemBufferCopy(src);
  file->setMemoryBuffer(buf.get());
  parser::bmodelica::Parser p(engine, sm.get(), file);
  auto root = p.parseRoot();
  if (root)
    r.tree = std::move(*root);
  r.errors = diags.errors;
  return r;
}

// --- The tree as the accessors show it -------------------------------------
struct View {
  std::vector<int64_t> start{0};
  S bad; // the first node whose parent is not the node it was reached from
  uint64_t nodes = 0;
  explicit View(const S &text) {
    for (size_t i = 0; i < text.size(); ++i)
      if (text[i] == '\n')
        start.push_back(i + 1);
  }
  int64_t at(const SourcePosition &p) const {
    if (p.line < 1 || p.line > (int64_t)start.size())
      return -100;
    return start[p.line - 1] + p.column - 1;
  }
  void kid(N &n, const ASTNode *parent, const ASTNode *x) {
    if (x->getParent() != parent && bad.empty())
      bad = "a child of " + n.kind + ":" + n.attr;
    n.add(of(x));
  }
  template <typename T>
  void kids(N &n, const ASTNode *parent, const T &range) {
    for (auto &x : range)
      kid(n, parent, x.get());
  }
  template <typename F>
  N group(const char *name, const ASTNode *parent, size_t n, F f) {
    N g(name);
    for (size_t i = 0; i < n; ++i)
      kid(g, parent, f(i));
    return g;
  }
  static S op(OperationKind k) {
    switch (k) {
    case OperationKind::unknown: return "unknown";
    case OperationKind::negate: return "negate";
    case OperationKind::add: return "+";
    case OperationKind::addEW: return ".+";
    case OperationKind::subtract: return "-";
    case OperationKind::subtractEW: return ".-";
    case OperationKind::multiply: return "*";
    case OperationKind::multiplyEW: return ".*";
    case OperationKind::divide: return "/";
    case OperationKind::divideEW: return "./";
    case OperationKind::ifelse: return "ifelse";
    case OperationKind::greater: return ">";
    case OperationKind::greaterEqual: return ">=";
    case OperationKind::equal: return "==";
    case OperationKind::different: return "<>";
    case OperationKind::lessEqual: return "<=";
    case OperationKind::less: return "<";
    case OperationKind::land: return "and";
    case OperationKind::lor: return "or";
    case OperationKind::lnot: return "not";
    case OperationKind::subscription: return "subscription";
    case OperationKind::powerOf: return "^";
    case OperationKind::powerOfEW: return ".^";
    case OperationKind::range: return "range";
    }
    return "?";
  }

  N of(const ASTNode *x) {
    ++nodes;
    N n = shape(x);
    auto l = x->getLocation();
    if (l.begin.line > 0)
      n.span(at(l.begin), at(l.end));
    return n;
  }
  void klass(N &n, const Class *c) {
    n.attr = pref::quote(c->getName().str()) + n.attr;
    N m("members"), q("equations"), a("algorithms"), i("classes"),
        x("external"), t("annotations");
    kids(m, c, c->getVariables());
    kids(q, c, c->getEquationSections());
    kids(a, c, c->getAlgorithms());
    kids(i, c, c->getInnerClasses());
    if (c->isExternal()) {
      x.attr = "yes " + pref::quote(c->getExternalLanguage().str());
      if (c->hasExternalFunctionCall())
        kid(x, c, c->getExternalFunctionCall());
      if (c->hasExternalAnnotation())
        kid(x, c, c->getExternalAnnotation());
    }
    if (c->hasAnnotation())
      kid(t, c, c->getAnnotation());
    for (auto *g : {&m, &q, &a, &i, &x, &t})
      n.add(*g);
  }
  N shape(const ASTNode *x) {
    N n;
    switch (x->getKind<K>()) {
    case K::Root:
      n.kind = "root";
      kids(n, x, x->cast<Root>()->getInnerClasses());
      return n;
    case K::Class_Model:
      n.kind = "model";
      klass(n, x->cast<Class>());
      return n;
    case K::Class_Package:
      n.kind = "package";
      klass(n, x->cast<Class>());
      return n;
    case K::Class_Record:
      n.kind = "record";
      klass(n, x->cast<Class>());
      return n;
    case K::Class_Function_StandardFunction:
      n.kind = "function";
      n.attr = x->cast<StandardFunction>()->isPure() ? "" : " impure";
      klass(n, x->cast<Class>());
      return n;
    case K::Class_Function_PartialDerFunction: {
      auto *f = x->cast<PartialDerFunction>();
      n = N("partialder", pref::quote(f->getName().str()));
      kid(n, x, f->getDerivedFunction());
      kids(n, x, f->getIndependentVariables());
      return n;
    }
    case K::ExternalFunctionCall: {
      auto *f = x->cast<ExternalFunctionCall>();
      n = N("externalcall", pref::quote(f->getCallee().str()));
      if (f->hasDestination())
        kid(n, x, f->getDestination());
      for (size_t i = 0; i < f->getNumOfArguments(); ++i)
        kid(n, x, f->getArgument(i));
      return n;
    }
    case K::Annotation:
      n.kind = "annotation";
      kid(n, x, x->cast<Annotation>()->getProperties());
      return n;
    case K::ClassModification:
      n.kind = "classmod";
      kids(n, x, x->cast<ClassModification>()->getArguments());
      return n;
    case K::Argument_ElementModification: {
      auto *m = x->cast<ElementModification>();
      n = N("elementmod", pref::quote(m->getName().str()) +
                              (m->hasEachProperty() ? " each" : "") +
                              (m->hasFinalProperty() ? " final" : ""));
      if (m->hasModification())
        kid(n, x, m->getModification());
      return n;
    }
    case K::Modification: {
      auto *m = x->cast<Modification>();
      n.kind = "modification";
      if (m->hasClassModification())
        kid(n, x, m->getClassModification());
      if (m->hasExpression())
        kid(n, x, m->getExpression());
      return n;
    }
    case K::Member: {
      auto *m = x->cast<Member>();
      n = N("member", pref::quote(m->getName().str()) +
                          (m->isPublic() ? "" : " protected"));
      kid(n, x, m->getTypePrefix());
      kid(n, x, m->getType());
      if (m->hasModification())
        kid(n, x, m->getModification());
      auto *p = m->getTypePrefix();
      if (m->isDiscrete() != p->isDiscrete() ||
          m->isParameter() != p->isParameter() ||
          m->isConstant() != p->isConstant() || m->isInput() != p->isInput() ||
          m->isOutput() != p->isOutput())
        n.attr += " differs from its prefix";
      return n;
    }
    case K::TypePrefix: {
      auto *p = x->cast<TypePrefix>();
      n.kind = "prefix";
      n.attr = S(p->isDiscrete() ? "discrete" : "") +
               (p->isParameter() ? "parameter" : "") +
               (p->isConstant() ? "constant" : "") +
               (p->isInput() ? " input" : "") +
               (p->isOutput() ? " output" : "");
      return n;
    }
    case K::VariableType_BuiltIn: {
      n.kind = "builtin";
      switch (x->cast<BuiltInType>()->getBuiltInTypeKind()) {
      case BuiltInType::Kind::Boolean: n.attr = "Boolean"; break;
      case BuiltInType::Kind::Integer: n.attr = "Integer"; break;
      case BuiltInType::Kind::Real: n.attr = "Real"; break;
      case BuiltInType::Kind::String: n.attr = "String"; break;
      }
      kids(n, x, x->cast<VariableType>()->getDimensions());
      return n;
    }
    case K::VariableType_UserDefined: {
      auto *t = x->cast<UserDefinedType>();
      n.kind = "usertype";
      n.attr = t->isGlobalLookup() ? "." : "";
      for (size_t i = 0; i < t->getPathLength(); ++i)
        n.attr += (i ? "." : "") + pref::quote(t->getElement(i).str());
      kids(n, x, x->cast<VariableType>()->getDimensions());
      return n;
    }
    case K::ArrayDimension: {
      auto *d = x->cast<ArrayDimension>();
      n.kind = "dim";
      if (d->hasExpression())
        kid(n, x, d->getExpression());
      else if (d->isDynamic())
        n.attr = "-1";
      else
        n.attr = std::to_string(d->getNumericSize());
      return n;
    }
    case K::EquationSection: {
      auto *s = const_cast<EquationSection *>(x->cast<EquationSection>());
      n = N("equationsection", s->isInitial() ? "initial" : "");
      kids(n, x, s->getEquations());
      return n;
    }
    case K::Algorithm: {
      auto *s = const_cast<Algorithm *>(x->cast<Algorithm>());
      n = N("algorithm", s->isInitial() ? "initial" : "");
      kids(n, x, s->getStatements());
      return n;
    }
    case K::Equation_Equality: {
      auto *q = x->cast<EqualityEquation>();
      n.kind = "eq";
      kid(n, x, q->getLhsExpression());
      kid(n, x, q->getRhsExpression());
      return n;
    }
    case K::Equation_If: {
      auto *q = x->cast<IfEquation>();
      n.kind = "ifeq";
      kid(n, x, q->getIfCondition());
      n.add(group("block", x, q->getNumOfIfEquations(),
                  [&](size_t i) { return q->getIfEquation(i); }));
      for (size_t j = 0; j < q->getNumOfElseIfConditions(); ++j) {
        kid(n, x, q->getElseIfCondition(j));
        n.add(group("block", x, q->getNumOfElseIfEquations(j),
                    [&](size_t i) { return q->getElseIfEquation(j, i); }));
      }
      if (q->hasElseEquations()) {
        n.add(N("else"));
        n.add(group("block", x, q->getNumOfElseEquations(),
                    [&](size_t i) { return q->getElseEquation(i); }));
      }
      return n;
    }
    case K::Equation_When: {
      auto *q = x->cast<WhenEquation>();
      n.kind = "wheneq";
      kid(n, x, q->getWhenCondition());
      n.add(group("block", x, q->getNumOfWhenEquations(),
                  [&](size_t i) { return q->getWhenEquation(i); }));
      for (size_t j = 0; j < q->getNumOfElseWhenConditions(); ++j) {
        kid(n, x, q->getElseWhenCondition(j));
        n.add(group("block", x, q->getNumOfElseWhenEquations(j),
                    [&](size_t i) { return q->getElseWhenEquation(j, i); }));
      }
      if (q->hasElseEquations()) {
        n.add(N("else"));
        n.add(group("block", x, q->getNumOfElseEquations(),
                    [&](size_t i) { return q->getElseEquation(i); }));
      }
      return n;
    }
    case K::Equation_For: {
      auto *q = x->cast<ForEquation>();
      n.kind = "foreq";
      for (size_t i = 0; i < q->getNumOfForIndices(); ++i)
        kid(n, x, q->getForIndex(i));
      n.add(group("block", x, q->getNumOfEquations(),
                  [&](size_t i) { return q->getEquation(i); }));
      return n;
    }
    case K::ForIndex: {
      auto *i = x->cast<ForIndex>();
      n = N("forindex", pref::quote(i->getName().str()));
      if (i->hasExpression())
        kid(n, x, i->getExpression());
      return n;
    }
    case K::Statement_Assignment: {
      auto *s = x->cast<AssignmentStatement>();
      n.kind = "assign";
      kid(n, x, s->getDestinations());
      kid(n, x, s->getExpression());
      return n;
    }
    case K::Statement_Break:
      n.kind = "break";
      return n;
    case K::Statement_Return:
      n.kind = "return";
      return n;
    case K::Statement_Call:
      n.kind = "callst";
      kid(n, x, x->cast<CallStatement>()->getCall());
      return n;
    case K::Statement_For: {
      auto *s = x->cast<ForStatement>();
      n.kind = "forst";
      kids(n, x, s->getForIndices());
      n.add(group("block", x, s->getNumOfStatements(),
                  [&](size_t i) { return s->getStatement(i); }));
      return n;
    }
    case K::Statement_While: {
      auto *s = x->cast<WhileStatement>();
      n.kind = "whilest";
      kid(n, x, s->getCondition());
      n.add(group("block", x, s->size(), [&](size_t i) { return (*s)[i]; }));
      return n;
    }
    case K::Statement_When: {
      auto *s = x->cast<WhenStatement>();
      n.kind = "whenst";
      kid(n, x, s->getCondition());
      n.add(group("block", x, s->size(), [&](size_t i) { return (*s)[i]; }));
      return n;
    }
    case K::Statement_If: {
      auto *s = x->cast<IfStatement>();
      n.kind = "ifst";
      kid(n, x, s->getIfCondition());
      kid(n, x, s->getIfBlock());
      for (size_t i = 0; i < s->getNumOfElseIfBlocks(); ++i) {
        kid(n, x, s->getElseIfCondition(i));
        kid(n, x, s->getElseIfBlock(i));
      }
      if (s->hasElseBlock()) {
        n.add(N("else"));
        kid(n, x, s->getElseBlock());
      }
      return n;
    }
    case K::StatementsBlock: {
      auto *b = x->cast<StatementsBlock>();
      return group("block", x, b->size(), [&](size_t i) { return (*b)[i]; });
    }
    case K::Expression_Constant:
      n.kind = "constant";
      x->cast<Constant>()->visit([&](const auto &v) {
        using T = std::decay_t<decltype(v)>;
        if constexpr (std::is_same_v<T, bool>)
          n.attr = v ? "true" : "false";
        else if constexpr (std::is_same_v<T, int64_t>)
          n.attr = "i" + std::to_string(v);
        else if constexpr (std::is_same_v<T, double>)
          n.attr = "r" + pref::num(v);
        else
          n.attr = "s" + pref::quote(v);
      });
      return n;
    case K::Expression_Operation: {
      auto *o = x->cast<Operation>();
      n.kind = op(o->getOperationKind());
      kids(n, x, o->getArguments());
      return n;
    }
    case K::Expression_Tuple: {
      auto *t = x->cast<Tuple>();
      return group("tuple", x, t->size(),
                   [&](size_t i) { return t->getExpression(i); });
    }
    case K::Expression_ArrayGenerator_ArrayConstant: {
      auto *a = x->cast<ArrayConstant>();
      return group("array", x, a->size(), [&](size_t i) { return (*a)[i]; });
    }
    case K::Expression_ArrayGenerator_ArrayForGenerator: {
      auto *a = x->cast<ArrayForGenerator>();
      n.kind = "arrayfor";
      kid(n, x, a->getValue());
      for (size_t i = 0; i < a->getNumIndices(); ++i)
        kid(n, x, a->getIndex(i));
      return n;
    }
    case K::Expression_Call: {
      auto *c = x->cast<Call>();
      n.kind = "call";
      kid(n, x, c->getCallee());
      kids(n, x, c->getArguments());
      return n;
    }
    case K::FunctionArgument_Expression:
      n.kind = "arg";
      kid(n, x, x->cast<ExpressionFunctionArgument>()->getExpression());
      return n;
    case K::FunctionArgument_Named: {
      auto *a = x->cast<NamedFunctionArgument>();
      n = N("named", pref::quote(a->getName().str()));
      kid(n, x, a->getValue());
      return n;
    }
    case K::FunctionArgument_Reduction: {
      auto *a = x->cast<ReductionFunctionArgument>();
      n.kind = "reduction";
      kid(n, x, a->getExpression());
      kids(n, x, a->getForIndices());
      return n;
    }
    case K::Expression_ComponentReference: {
      auto *r = x->cast<ComponentReference>();
      if (r->isDummy())
        return N("nothing");
      n = N("reference", r->isGlobalLookup() ? "global" : "");
      for (size_t i = 0; i < r->getPathLength(); ++i)
        kid(n, x, r->getElement(i));
      return n;
    }
    case K::ComponentReferenceEntry: {
      auto *e = x->cast<ComponentReferenceEntry>();
      n = N("entry", pref::quote(e->getName().str()));
      for (size_t i = 0; i < e->getNumOfSubscripts(); ++i)
        kid(n, x, e->getSubscript(i));
      return n;
    }
    case K::Expression_Subscript: {
      auto *s = x->cast<Subscript>();
      n.kind = "subscript";
      if (!s->isUnbounded())
        kid(n, x, s->getExpression());
      return n;
    }
    default:
      n = N("unexpected", std::to_string(x->getKind<int32_t>()));
      return n;
    }
  }
};

// JSON is defined for valid text only.
static S json(const ASTNode *x, const S &src) {
  S s;
  if (!llvm::json::isUTF8(src))
    return s;
  llvm::raw_string_ostream os(s);
  os << x->toJSON();
  return s;
}

// Every span within the text, children within their parents where those stand
// for the whole construct.
static S outside(const N &n, int64_t b, int64_t e, int64_t size) {
  bool located = n.b != -1 || n.e != -1;
  if (located) {
    if (n.b < 0 || n.e < n.b || n.e >= size)
      return n.kind + ":" + n.attr + " at " + std::to_string(n.b) + "-" +
             std::to_string(n.e) + " is not a part of the text";
    if (b >= 0 && (n.b < b || n.e > e))
      return n.kind + ":" + n.attr + " at " + std::to_string(n.b) + "-" +
             std::to_string(n.e) + " is not within its parent at " +
             std::to_string(b) + "-" + std::to_string(e);
  }
  // These stand for their names or headers only.
  static const char *heads[] = {"root",    "model",   "record",
                                "package", "function", "partialder",
                                "member",  "equationsection",
                                "builtin", "usertype", "block"};
  bool head = false;
  for (auto h : heads)
    head |= n.kind == h;
  if (head)
    b = e = -1;
  else if (located)
    b = n.b, e = n.e;
  for (auto &k : n.kids) {
    S d = outside(k, b, e, size);
    if (!d.empty())
      return d;
  }
  return "";
}

static S where(const S &src, int64_t o) {
  return std::to_string(o) + " '" + esc(src.substr(std::max<int64_t>(0, o), 12)) +
         "'";
}

// Parse and compare acceptance with the grammar. Returns the tree if accepted.
static Parsed parsed(vf::Case &c, const S &src, std::optional<N> &want) {
  c.note("text: ", esc(src));
  S text = src.substr(0, src.find('\0'));
  auto toks = lexref::tokens(text);
  pref::Ref ref(toks);
  want = ref.root();
  Parsed got = parse(src);
  c.count("texts parsed");
  S stop = where(text, ref.tok().pos);
  if (got.tree) {
    c.count("accepted");
    c.check(got.errors.empty(), "error-on-success",
            "a tree is returned along with an error");
    c.check(want.has_value(), "accepts-malformed",
            "accepted, although the grammar stops at " + stop);
  } else {
    c.count("rejected");
    c.check(!got.errors.empty(), "silent-rejection",
            "rejected without a diagnostic");
    c.note("the grammar stops at ", stop);
    c.check(!want.has_value(), "rejects-well-formed",
            "a derivable program is rejected: " +
                (got.errors.empty() ? S() : got.errors[0].text));
    if (!want && !got.errors.empty() && !c.failed() &&
        !ref.tok().error && ref.tok().kind != "EOF" &&
        text.find('\r') == S::npos) { // line numbering of clang differs
      View v(text);
      SourcePosition p(nullptr, got.errors[0].line, got.errors[0].col);
      int64_t at = ref.at >= 0 ? ref.at : (int64_t)ref.tok().pos;
      if (at >= (int64_t)text.size())
        return got;
      c.count("diagnostics located");
      c.check(v.at(p) == at, "misplaced-diagnostic",
              "'" + got.errors[0].text + "' is reported at " +
                  where(text, v.at(p)) + ", the first offending token is at " +
                  where(text, at));
    }
  }
  return got;
}

static void mutate(vf::Rng &r, std::vector<S> &toks) {
  for (int k = r.in(1, 3); k > 0 && !toks.empty(); --k) {
    size_t i = r.next() % toks.size();
    switch (r.in(0, 6)) {
    case 0: toks.erase(toks.begin() + i); break;
    case 1: toks.insert(toks.begin() + i, toks[r.next() % toks.size()]); break;
    case 2: toks.insert(toks.begin() + i, lexref::genToken(r)); break;
    case 3: toks[i] = lexref::genToken(r); break;
    case 4: std::swap(toks[i], toks[r.next() % toks.size()]); break;
    case 5: toks[i] = toks[r.next() % toks.size()]; break;
    default:
      if (r.chance(1, 3))
        toks.resize(i);
      else { // a run of tokens, elsewhere
        size_t n = std::min<size_t>(r.in(1, 6), toks.size() - i);
        std::vector<S> run(toks.begin() + i, toks.begin() + i + n);
        toks.insert(toks.begin() + r.next() % toks.size(), run.begin(),
                    run.end());
      }
    }
  }
}

static S program(vf::Case &c) {
  pref::Gen g(c.rng);
  g.program();
  return pref::spell(c.rng, g.out);
}

VF_STREAM("C21", "bytes", 4000, 100000, "random byte strings") {
  auto &r = c.rng;
  S s;
  bool any = r.chance(1, 3);
  static const S hot = "\"'\\/*\n .01eE+-=<>:^;,()[]{}ax";
  for (int n = r.in(0, 60); n > 0; --n)
    s += any ? (char)r.in(0, 255) : hot[r.next() % hot.size()];
  // clang refuses a buffer with the byte order mark of another encoding while
  // it computes the line of a diagnostic, by reporting from within the report
  if (clang::SrcMgr::ContentCache::getInvalidBOM(s))
    s = " " + s;
  std::optional<N> want;
  parsed(c, s, want);
  c.nontrivial(vf::hashStr(s));
}

VF_STREAM("C21", "tokens", 6000, 200000,
          "random sequences of tokens, most of them within a class") {
  auto &r = c.rng;
  static const std::vector<S> heads = {
      "",           "model x ",  "model x equation ", "model x algorithm ",
      "function x algorithm ",   "model x Real y(",   "model x equation y = ",
      "model x algorithm if true then x := 1; ", "record x ",
      "model x annotation(",     "function f external \"C\" ",
      "model x equation when true then ", "model x initial equation (",
      "model x protected Real y; function f end f; ", "model x Real[",
      "model x algorithm (",     "function f = der(", "model x equation x["};
  S s = r.pick(heads);
  for (int n = r.in(0, 12); n > 0; --n)
    s += lexref::genToken(r) + " ";
  if (r.coin())
    s += " end x;";
  std::optional<N> want;
  parsed(c, s, want);
  c.nontrivial(vf::hashStr(s));
}

VF_STREAM("C21", "mutants", 8000, 300000,
          "programs with tokens removed, added, replaced, moved or cut") {
  auto &r = c.rng;
  pref::Gen g(r);
  g.plain = r.coin();
  g.program();
  mutate(r, g.out);
  S s = pref::spell(r, g.out);
  if (r.chance(1, 6))
    s.resize(r.next() % (s.size() + 1));
  std::optional<N> want;
  auto got = parsed(c, s, want);
  if (got.tree && want && !c.failed()) {
    View v(s);
    S d = pref::diff(*want, v.of(got.tree.get()), false);
    c.check(d.empty(), "wrong-structure", d);
  }
  c.nontrivial(vf::hashStr(s));
}

VF_STREAM("C22", "programs", 10000, 400000,
          "programs derived from the grammar, spelled with every kind of gap") {
  S s = program(c);
  std::optional<N> want;
  auto got = parsed(c, s, want);
  if (!c.check(want.has_value(), "generator",
               "the generated program is not derivable"))
    return;
  if (!got.tree || c.failed())
    return;
  View v(s);
  N n = v.of(got.tree.get());
  c.count("nodes compared", v.nodes);
  S d = pref::diff(*want, n, false);
  c.check(d.empty(), "wrong-structure", d);
  if (v.nodes > 10)
    c.nontrivial(vf::hashStr(s));
}

VF_STREAM("C22", "expressions", 10000, 400000,
          "single equations with deep expressions") {
  auto &r = c.rng;
  pref::Gen g(r);
  g.plain = true;
  g.depth = -r.in(0, 2);
  for (auto k : {"model", "m", "equation", "x", "="})
    g.t(k);
  g.expr();
  for (auto k : {";", "end", "m", ";"})
    g.t(k);
  S s = pref::spell(r, g.out);
  std::optional<N> want;
  auto got = parsed(c, s, want);
  if (!c.check(want.has_value(), "generator",
               "the generated program is not derivable") ||
      !got.tree || c.failed())
    return;
  View v(s);
  N n = v.of(got.tree.get());
  c.count("nodes compared", v.nodes);
  S d = pref::diff(*want, n, false);
  c.check(d.empty(), "wrong-structure", d);
  if (v.nodes > 12)
    c.nontrivial(vf::hashStr(s));
}

VF_STREAM("C23", "locations", 12000, 400000,
          "programs derived from the grammar, over many lines") {
  S s = program(c);
  std::optional<N> want;
  auto got = parsed(c, s, want);
  if (!got.tree || !want || c.failed())
    return;
  View v(s);
  N n = v.of(got.tree.get());
  c.count("locations compared", v.nodes);
  if (!pref::diff(*want, n, false).empty())
    return; // another property
  S d = pref::diff(*want, n, true);
  c.check(d.empty(), "wrong-location", d);
  d = outside(n, -1, -1, s.size());
  c.check(d.empty(), "location-nesting", d);
  if (v.nodes > 10)
    c.nontrivial(vf::hashStr(s));
}

// Change something in the node.
static bool scramble(vf::Rng &r, ASTNode *x) {
  switch (x->getKind<K>()) {
  case K::Expression_Constant:
    x->cast<Constant>()->setValue((int64_t)r.in(100000, 900000));
    return true;
  case K::ComponentReferenceEntry:
    x->cast<ComponentReferenceEntry>()->setName("changed");
    if (r.coin())
      x->cast<ComponentReferenceEntry>()->setSubscripts({});
    return true;
  case K::Expression_Operation:
    x->cast<Operation>()->setOperationKind(OperationKind::unknown);
    return true;
  case K::Expression_Tuple:
    x->cast<Tuple>()->setExpressions({});
    return true;
  case K::Expression_Call:
    x->cast<Call>()->setArguments({});
    return true;
  case K::Member:
    x->cast<Member>()->setName("changed");
    x->cast<Member>()->setPublic(!x->cast<Member>()->isPublic());
    return true;
  case K::TypePrefix:
    x->cast<TypePrefix>()->setIOQualifier(IOQualifier::input);
    x->cast<TypePrefix>()->setVariabilityQualifier(
        VariabilityQualifier::discrete);
    return true;
  case K::EquationSection:
    x->cast<EquationSection>()->setEquations({});
    return true;
  case K::Algorithm:
    x->cast<Algorithm>()->setStatements({});
    return true;
  case K::ForIndex:
    x->cast<ForIndex>()->setName("changed");
    return true;
  case K::ClassModification:
    x->cast<ClassModification>()->setArguments({});
    return true;
  case K::Argument_ElementModification:
    x->cast<ElementModification>()->setName("changed");
    x->cast<ElementModification>()->setFinalProperty(true);
    return true;
  case K::VariableType_BuiltIn:
    x->cast<BuiltInType>()->setBuiltInTypeKind(BuiltInType::Kind::String);
    x->cast<VariableType>()->setDimensions({});
    return true;
  case K::VariableType_UserDefined:
    x->cast<UserDefinedType>()->setPath({S("changed")});
    return true;
  case K::ArrayDimension:
    x->cast<ArrayDimension>()->setSize((int64_t)77);
    return true;
  case K::Class_Model:
  case K::Class_Record:
  case K::Class_Package:
  case K::Class_Function_StandardFunction:
    x->cast<Class>()->setName("changed");
    if (r.coin())
      x->cast<Class>()->setVariables({});
    if (r.coin())
      x->cast<Class>()->setInnerClasses({});
    return true;
  default:
    x->setLocation(SourceRange(SourcePosition(nullptr, 1, 1),
                               SourcePosition(nullptr, 1, 1)));
    return true;
  }
}


VF_STREAM("C24", "clones", 6000, 200000,
          "clones of parsed programs and of their parts; originals are "
          "destroyed, clones changed") {
  auto &r = c.rng;
  S s = program(c);
  c.note("text: ", esc(s));
  Parsed got = parse(s);
  if (!got.tree)
    return;
  View v0(s);
  N n0 = v0.of(got.tree.get());
  c.check(v0.bad.empty(), "parent-parsed", "wrong parent in " + v0.bad);
  S j0 = json(got.tree.get(), s);

  // A part of it: a class and, within, a member, section or algorithm.
  const ASTNode *part = got.tree.get();
  auto down = [&](const ASTNode *x) -> const ASTNode * {
    std::vector<const ASTNode *> k;
    auto take = [&](llvm::ArrayRef<std::unique_ptr<ASTNode>> l) {
      for (auto &e : l)
        k.push_back(e.get());
    };
    if (x->isa<Root>())
      take(x->cast<Root>()->getInnerClasses());
    else if (x->isa<Class>()) {
      auto *cl = x->cast<Class>();
      take(cl->getVariables());
      take(cl->getEquationSections());
      take(cl->getAlgorithms());
      take(cl->getInnerClasses());
      if (cl->hasAnnotation())
        k.push_back(cl->getAnnotation());
      if (cl->hasExternalFunctionCall())
        k.push_back(cl->getExternalFunctionCall());
    } else if (x->isa<EquationSection>())
      take(const_cast<EquationSection *>(x->cast<EquationSection>())
               ->getEquations());
    else if (x->isa<Algorithm>())
      take(const_cast<Algorithm *>(x->cast<Algorithm>())->getStatements());
    else if (x->getKind<K>() == K::Equation_Equality)
      k.push_back(x->cast<EqualityEquation>()->getRhsExpression());
    else if (x->isa<Operation>())
      take(x->cast<Operation>()->getArguments());
    else if (x->isa<Call>())
      take(x->cast<Call>()->getArguments());
    else if (x->isa<Member>()) {
      k.push_back(x->cast<Member>()->getType());
      if (x->cast<Member>()->hasModification())
        k.push_back(x->cast<Member>()->getModification());
    }
    return k.empty() ? nullptr : k[r.next() % k.size()];
  };
  for (int d = r.in(0, 5); d > 0; --d)
    if (auto *x = down(part))
      part = x;

  View v1(s);
  N p = v1.of(part);
  S jp = json(part, s);
  auto clone = part->clone();
  c.count("clones");
  c.count("nodes cloned", p.count());
  auto equal = [&](const char *when, const ASTNode *x, const N &want,
                   const S &wj) {
    View v(s);
    N n = v.of(x);
    S d = pref::diff(want, n, false);
    c.check(d.empty(), "clone-structure", S(when) + ": " + d);
    d = pref::diff(want, n, true);
    c.check(d.empty(), "clone-location", S(when) + ": " + d);
    c.check(v.bad.empty(), "clone-parent",
            S(when) + ": wrong parent of " + v.bad);
    c.check(json(x, s) == wj, "clone-json", S(when) + ": the JSON differs");
  };
  equal("clone", clone.get(), p, jp);
  if (c.failed())
    return;
  // A change of the clone is not a change of the original, nor of its clones.
  auto second = clone->clone();
  std::vector<ASTNode *> chain{clone.get()};
  while (auto *x = down(chain.back()))
    chain.push_back(const_cast<ASTNode *>(x));
  for (size_t i = chain.size(); i-- > 0;)
    scramble(r, chain[i]);
  c.count("clones changed");
  equal("original after its clone changed", got.tree.get(), n0, j0);
  equal("clone of the changed clone", second.get(), p, jp);
  // They outlive the original.
  got.tree.reset();
  clone.reset();
  equal("clone of destroyed trees", second.get(), p, jp);
  if (p.count() > 5)
    c.nontrivial(vf::hashStr(s));
}

VF_STREAM("C32", "export", 6000, 200000,
          "programs derived from the grammar, written as JSON and read back") {
  S s = program(c);
  c.note("text: ", esc(s));
  if (!llvm::json::isUTF8(s))
    return;
  Parsed got = parse(s);
  if (!got.tree)
    return;
  View v(s);
  N want = v.of(got.tree.get());
  astjson::numbers(want);
  // As the compiler writes it.
  S text = llvm::formatv("{0:2}", got.tree->toJSON()).str();
  auto value = llvm::json::parse(text);
  if (!value) {
    c.fail("malformed", "what is written is not JSON: " +
                            llvm::toString(value.takeError()));
    return;
  }
  astjson::Reader reader;
  N back = reader.of(&*value);
  c.count("trees written");
  c.count("nodes written", v.nodes);
  c.count("keys read", reader.keys);
  c.check(reader.bad.empty(), "missing", reader.bad);
  S d = pref::diff(want, back, false);
  c.check(d.empty(), "differs", d);
  if (v.nodes > 10)
    c.nontrivial(vf::hashStr(s));
}

// --- C31: what declarations say ---------------------------------------------
namespace facts {
struct Text {
  vf::Rng &r;
  S out;
  int64_t marks = 1000;
  void sp() { out += r.chance(1, 6) ? (r.coin() ? "\n" : "  ") : " "; }
  void t(const S &s) {
    out += s;
    sp();
  }
  // An expression that can be told from all others by the number in it.
  S marked(int64_t &mark) {
    mark = ++marks;
    S m = std::to_string(mark);
    switch (r.in(0, 7)) {
    case 0: return "-" + m;
    case 1: return m + " + y";
    case 2: return "{y, " + m + "}";
    case 3: return "f(start, " + m + ")";
    case 4: return "if " + m + " > fixed then 1 else 2";
    case 5: return "(y[" + m + "])";
    default: return m;
    }
  }
};
static bool mentions(const N &n, const S &attr) {
  if (n.kind == "constant" && n.attr == attr)
    return true;
  for (auto &k : n.kids)
    if (mentions(k, attr))
      return true;
  return false;
}
static bool mentions(const ASTNode *x, int64_t mark) {
  View v("");
  return mentions(v.of(x), "i" + std::to_string(mark));
}

enum class Fixed { no, yes, unknown };
static S array(vf::Rng &r, int depth, bool v, int &odd) {
  S s = "{";
  for (int i = 0, n = r.in(1, 3); i < n; ++i) {
    s += i ? ", " : "";
    if (depth > 1)
      s += array(r, depth - 1, v, odd);
    else {
      bool w = v;
      if (odd > 0 && r.chance(1, 3)) {
        --odd;
        if (r.chance(2, 3))
          w = !w;
        else {
          s += r.coin() ? "y" : "not true";
          continue;
        }
      }
      s += w ? "true" : "false";
    }
  }
  return s + "}";
}
// The value of an array of booleans as spelled, independently of the tree.
static Fixed uniform(const S &s) {
  bool t = s.find("true") != S::npos, f = s.find("false") != S::npos,
       other = s.find('y') != S::npos || s.find("not") != S::npos;
  return other || (t && f) ? Fixed::unknown : t ? Fixed::yes : Fixed::no;
}
static S fixedValue(vf::Rng &r, Fixed &f) {
  switch (r.in(0, 11)) {
  case 0: case 1: case 2:
    f = Fixed::yes;
    return "true";
  case 3: case 4:
    f = Fixed::no;
    return "false";
  case 5: case 6: {
    int odd = r.chance(1, 2) ? 0 : r.in(1, 2);
    S s = array(r, r.in(1, 3), r.coin(), odd);
    f = uniform(s);
    return s;
  }
  case 7: {
    bool v = r.coin();
    f = v ? Fixed::yes : Fixed::no;
    return S("fill(") + (v ? "true" : "false") +
           (r.coin() ? ", 3" : ", 2, 4") + ")";
  }
  case 8:
    f = Fixed::unknown;
    return r.coin() ? "fill(y, 3)" : "fill(not true, 3)";
  case 9:
    f = Fixed::unknown;
    return r.coin() ? "full(true, 3)" : "ones(true)";
  case 10:
    f = Fixed::unknown;
    return r.coin() ? "y" : "f()";
  default:
    f = Fixed::unknown;
    return r.coin() ? "not true" : "true and false";
  }
}

struct Mod {
  bool present = false, hasStart = false, each = false;
  int64_t start = 0;
  Fixed fixed = Fixed::no;
  bool hasFixed = false;
};
// The contents of a class modification, of which `m` is what is to be noticed.
static void arguments(Text &x, Mod &m, int depth, bool malformed) {
  auto &r = x.r;
  std::vector<S> args;
  auto arg = [&](const S &name, const S &rest, bool &each) {
    each = r.chance(1, 3);
    bool fin = r.chance(1, 5);
    args.push_back((each ? "each " : "") + S(fin ? "final " : "") + name +
                   rest);
  };
  bool e;
  m.present = true;
  if (r.chance(3, 5)) {
    m.hasStart = true;
    S v = x.marked(m.start);
    S sub;
    if (r.chance(1, 8)) // of the start value, not of the variable
      sub = "(start = 7, each fixed = " + S(r.coin() ? "true" : "false") + ")";
    arg("start", sub + " = " + v, m.each);
  }
  if (r.chance(1, 2)) {
    m.hasFixed = true;
    arg("fixed", " = " + fixedValue(r, m.fixed), e);
  }
  if (malformed) {
    static const char *bad[] = {
        "start",      "fixed",        "start()",       "fixed()",
        "start(start = 3)", "fixed(fixed = true)", "fixed = 1",
        "fixed = 2.5", "fixed = \"true\"", "fixed = {}", "fixed = fill()",
        "fixed = {1.5, true}", "fixed = fill(true = true, 3)",
        "fixed = fill(x = true)", "fixed = {{}, {true}}",
        "fixed = fill(1.5, 2)", "fixed = {\"a\", true}"};
    args.push_back(bad[r.next() % (sizeof bad / sizeof *bad)]);
  }
  static const char *others[] = {"min", "max",  "nominal", "unit", "starts",
                                 "Start", "fix", "Fixed", "each_", "stateSelect",
                                 "p"};
  for (int i = r.in(0, 3); i > 0; --i) {
    S name = others[r.next() % 11];
    if (depth < 2 && r.chance(1, 3)) {
      Text in{r, "", x.marks};
      Mod decoy;
      arguments(in, decoy, depth + 1, malformed && r.coin());
      x.marks = in.marks;
      arg(name, in.out, e);
    } else if (r.chance(1, 8))
      arg(name, "", e);
    else
      arg(name, " = " + S(r.coin() ? "true" : "{false, true}"), e);
  }
  r.shuffle(args);
  x.t("(");
  for (size_t i = 0; i < args.size(); ++i) {
    if (i)
      x.t(",");
    x.t(args[i]);
  }
  x.t(")");
}

struct Var {
  S name, var, io, type;
  std::vector<S> dims;
  bool isPublic = true, hasValue = false, constantShape = true;
  int64_t value = 0;
  Mod mod;
};
static void variable(Text &x, Var &v, bool malformed) {
  auto &r = x.r;
  if (r.chance(1, 6))
    x.t("final");
  if (!v.var.empty())
    x.t(v.var);
  if (!v.io.empty())
    x.t(v.io);
  x.t(v.type);
  if (!v.dims.empty()) {
    x.t("[");
    for (size_t i = 0; i < v.dims.size(); ++i) {
      if (i)
        x.t(",");
      x.t(v.dims[i]);
    }
    x.t("]");
  }
  x.t(v.name);
  if (r.chance(3, 5))
    arguments(x, v.mod, 0, malformed);
  if (r.chance(2, 5)) {
    v.hasValue = true;
    x.t("= " + x.marked(v.value));
  }
  if (r.chance(1, 6))
    x.t("\"start = 1\"");
  if (r.chance(1, 8))
    x.t("annotation(start = 1, Inline = true)");
  x.t(";");
}
static Var some(vf::Rng &r, const S &name) {
  static const char *types[] = {"Real",    "Integer", "Boolean",
                                "String", "R",       "P.Q"};
  static const char *vars[] = {"discrete", "parameter", "constant"};
  Var v;
  v.name = name;
  v.type = types[r.next() % 6];
  if (r.coin())
    v.var = vars[r.next() % 3];
  if (r.coin())
    for (int i = r.in(1, 3); i > 0; --i) {
      switch (r.in(0, 5)) {
      case 0:
        v.dims.push_back(":");
        v.constantShape = false;
        break;
      case 1:
        v.dims.push_back(r.coin() ? "n" : "2 + 1");
        v.constantShape = false;
        break;
      default: v.dims.push_back(std::to_string(r.in(1, 30)));
      }
    }
  return v;
}
static void type(vf::Case &c, const VariableType *t, const Var &v,
                 const S &of) {
  c.check(t->getRank() == v.dims.size(), "rank",
          "rank of " + of + ": " + std::to_string(t->getRank()));
  c.check(t->isScalar() == v.dims.empty(), "scalar", "isScalar of " + of);
  c.check(t->hasConstantShape() == v.constantShape, "constant-shape",
          "hasConstantShape of " + of);
  if (c.failed())
    return;
  S s;
  if (auto *b = t->dyn_cast<BuiltInType>()) {
    static const char *n[] = {"Boolean", "Integer", "Real", "String"};
    s = n[(int)b->getBuiltInTypeKind()];
    c.check(b->isNumeric() == (s != "String"), "numeric", "isNumeric of " + of);
  } else if (auto *u = t->dyn_cast<UserDefinedType>())
    for (size_t i = 0; i < u->getPathLength(); ++i)
      s += (i ? "." : "") + u->getElement(i).str();
  c.check(s == v.type, "type", "type of " + of + ": " + s);
  auto dimension = [&](const ArrayDimension *d, const S &w, const S &what) {
    if (w == ":")
      c.check(!d->hasExpression() && d->isDynamic(), "dimension", what);
    else if (!isdigit((unsigned char)w[0]) || w.find(' ') != S::npos)
      c.check(d->hasExpression() && d->isDynamic(), "dimension", what);
    else
      c.check(!d->hasExpression() && !d->isDynamic() &&
                  std::to_string(d->getNumericSize()) == w,
              "dimension", what);
  };
  for (size_t i = 0; i < v.dims.size(); ++i) {
    dimension((*t)[i], v.dims[i], "dimension " + std::to_string(i) + " of " + of);
    dimension((*const_cast<VariableType *>(t))[i], v.dims[i],
              "dimension " + std::to_string(i) + " of " + of);
  }
  for (size_t k = 0; k <= v.dims.size(); ++k) {
    auto sub = t->subscript(k);
    auto *st = sub->cast<VariableType>();
    if (!c.check(st->getRank() == v.dims.size() - k &&
                     st->getKind<K>() == t->getKind<K>(),
                 "subscript", "rank or kind of a subscripted type"))
      return;
    for (size_t i = k; i < v.dims.size(); ++i)
      dimension((*st)[i - k], v.dims[i], "dimension of the subscripted type");
  }
  c.check(t->getRank() == v.dims.size(), "subscript-changes",
          "subscripting changes the type");
  c.count("types");
}
template <typename T>
static void modification(vf::Case &c, T *m, const Mod &w, const S &of) {
  c.check(m->hasStartExpression() == w.hasStart, "start",
          "hasStartExpression of " + of);
  if (!c.failed() && w.hasStart) {
    c.check(mentions(m->getStartExpression(), w.start), "start-value",
            "the start value of " + of + " is another");
    c.check(m->getEachProperty() == w.each, "each",
            "getEachProperty of " + of + (w.each ? " is false" : " is true"));
  } else if (!w.present)
    c.check(!m->getEachProperty(), "each", "each of what is not modified");
  auto f = m->getFixedProperty();
  Fixed got = !f ? Fixed::unknown : *f ? Fixed::yes : Fixed::no;
  c.check(got == w.fixed, "fixed",
          "fixed of " + of + ": expected " +
              (w.fixed == Fixed::yes  ? "true"
               : w.fixed == Fixed::no ? "false"
                                      : "unknown") +
              ", got " +
              (!f   ? "unknown"
               : *f ? "true"
                    : "false"));
  c.count("modifications");
  if (w.hasStart)
    c.count("start values");
  if (w.hasFixed)
    c.count("fixed properties");
}
static void member(vf::Case &c, const Member *m, const Var &v) {
  S of = v.name;
  c.check(m->getName() == v.name, "name", "a variable is missing");
  c.check(m->isPublic() == v.isPublic, "public", "visibility of " + of);
  c.check(m->isDiscrete() == (v.var == "discrete") &&
              m->isParameter() == (v.var == "parameter") &&
              m->isConstant() == (v.var == "constant"),
          "variability", "variability of " + of);
  c.check(m->isInput() == (v.io == "input") &&
              m->isOutput() == (v.io == "output"),
          "direction", "direction of " + of);
  if (c.failed())
    return;
  type(c, m->getType(), v, of);
  c.check(m->hasExpression() == v.hasValue, "value", "hasExpression of " + of);
  if (c.failed())
    return;
  auto *mut = const_cast<Member *>(m);
  if (v.hasValue) {
    c.check(mentions(m->getExpression(), v.value) &&
                mentions(mut->getExpression(), v.value),
            "value", "the value of " + of + " is another");
    c.count("values");
  }
  modification(c, m, v.mod, of);
  modification(c, mut, v.mod, of);
  if (c.failed() || !m->hasModification())
    return;
  modification(c, m->getModification(), v.mod, of);
  modification(c, mut->getModification(), v.mod, of);
  if (m->getModification()->hasClassModification()) {
    modification(c, m->getModification()->getClassModification(), v.mod, of);
    modification(c, mut->getModification()->getClassModification(), v.mod, of);
  }
}
// A class with the variables `vs`, and what follows them.
static void klass(Text &x, const S &head, const S &name, std::vector<Var> &vs,
                  const S &tail, bool malformed) {
  x.t(head);
  x.t(name);
  bool pub = true;
  for (auto &v : vs) {
    if (x.r.chance(1, 5)) {
      pub = x.r.coin();
      x.t(pub ? "public" : "protected");
    }
    v.isPublic = pub;
    variable(x, v, malformed && x.r.coin());
  }
  x.t(tail);
  x.t("end " + name + ";");
}
} // namespace facts

VF_STREAM("C31", "variables", 8000, 300000,
          "models and records with modified variables") {
  auto &r = c.rng;
  facts::Text x{r, ""};
  std::vector<facts::Var> vs;
  bool record = r.chance(1, 3);
  for (int i = r.in(1, 6); i > 0; --i) {
    vs.push_back(facts::some(r, "x" + std::to_string(i)));
    if (r.chance(1, 4))
      vs.back().io = r.coin() ? "input" : "output";
  }
  facts::klass(x, record ? "record" : "model", "M", vs, "", false);
  c.note("text: ", esc(x.out));
  Parsed got = parse(x.out);
  if (!c.check(got.tree != nullptr, "rejected", "the declarations are rejected"))
    return;
  auto *root = got.tree->cast<Root>();
  auto *cl = root->getInnerClasses()[0]->cast<Class>();
  if (!c.check(cl->getVariables().size() == vs.size(), "variables",
               "a variable is missing"))
    return;
  c.count("variables", vs.size());
  uint64_t h = 0;
  for (size_t i = 0; i < vs.size() && !c.failed(); ++i) {
    facts::member(c, cl->getVariables()[i]->cast<Member>(), vs[i]);
    h += vs[i].mod.present;
  }
  if (!c.failed() && record) {
    auto t = cl->cast<Record>()->getType();
    if (c.check(t.size() == vs.size(), "record", "number of component types"))
      for (size_t i = 0; i < vs.size(); ++i)
        facts::type(c, t.getType(i), vs[i], "component " + vs[i].name);
    c.count("records");
  }
  // The same of a clone.
  if (r.chance(1, 4)) {
    auto other = cl->clone();
    got.tree.reset();
    auto *oc = other->cast<Class>();
    for (size_t i = 0; i < vs.size() && !c.failed(); ++i)
      facts::member(c, oc->getVariables()[i]->cast<Member>(), vs[i]);
    c.count("clones");
  }
  if (h)
    c.nontrivial(vf::hashStr(x.out));
}

VF_STREAM("C31", "functions", 6000, 200000,
          "functions with annotations on inlining, derivatives and inverses") {
  auto &r = c.rng;
  facts::Text x{r, ""};
  std::vector<facts::Var> vs;
  std::vector<size_t> ins, outs;
  for (int i = r.in(1, 7); i > 0; --i) {
    vs.push_back(facts::some(r, "a" + std::to_string(i)));
    switch (r.in(0, 4)) {
    case 0: case 1:
      vs.back().io = "input";
      ins.push_back(vs.size() - 1);
      break;
    case 2: case 3:
      vs.back().io = "output";
      outs.push_back(vs.size() - 1);
      break;
    }
  }
  // Annotations: what is to be noticed and what is not.
  bool annotated = r.chance(4, 5), isInline = false, derived = false;
  S derivative;
  unsigned order = 1;
  std::map<S, std::pair<S, std::vector<S>>> inverses;
  std::vector<S> as;
  auto named = [&](const char *base) {
    return base + std::to_string(r.in(0, 99)) +
           (r.chance(1, 6) ? ".g" : "");
  };
  if (annotated) {
    if (r.chance(1, 2)) {
      static const char *sp[] = {"Inline", "inline", "INLINE"};
      isInline = r.chance(2, 3);
      as.push_back(sp[r.chance(2, 3) ? 0 : r.in(1, 2)] + S(" = ") +
                   (isInline ? "true" : "false"));
    }
    if (r.chance(1, 2)) {
      derived = true;
      derivative = named("d");
      std::vector<S> subs;
      if (r.coin()) {
        order = r.in(1, 12);
        subs.push_back("order = " + std::to_string(order));
      }
      if (r.chance(1, 3))
        subs.push_back("noDerivative = a1");
      if (r.chance(1, 5))
        subs.push_back("zeroDerivative(order = 5) = a2");
      if (r.chance(1, 4))
        subs.push_back(r.coin() ? "Order = 13" : "orders = 14");
      r.shuffle(subs);
      S s = "derivative";
      if (!subs.empty() || r.chance(1, 8)) {
        s += "(";
        for (size_t i = 0; i < subs.size(); ++i)
          s += (i ? ", " : "") + subs[i];
        s += ")";
      }
      as.push_back(s + " = " + derivative);
    }
    if (r.chance(1, 2)) {
      // In one annotation or in several.
      std::vector<S> parts;
      for (auto &v : vs)
        if (r.coin()) {
          S f = named("inv");
          std::vector<S> args;
          S s = v.name + " = " + f + "(";
          for (int i = r.in(0, 4); i > 0; --i) {
            args.push_back(vs[r.next() % vs.size()].name);
            s += (args.size() > 1 ? ", " : "") + args.back();
          }
          parts.push_back(s + ")");
          inverses[v.name] = {f, args};
        }
      while (!parts.empty()) {
        S s = "inverse(";
        size_t n = r.chance(1, 3) ? 1 : parts.size();
        for (size_t i = 0; i < n; ++i)
          s += (i ? ", " : "") + parts[i];
        parts.erase(parts.begin(), parts.begin() + n);
        as.push_back(s + ")");
      }
    }
    static const char *others[] = {
        "LateInline = true", "Inlined = true", "version = \"1\"",
        "Icon(Inline = true, derivative = z)", "smoothOrder = 2",
        "my(inverse(a1 = z(a2)))", "Derivative = z", "GenerateEvents = true",
        "experiment(StopTime = 1, order = 7)", "order = 9"};
    for (int i = r.in(0, 3); i > 0; --i)
      as.push_back(others[r.next() % 10]);
    r.shuffle(as);
  }
  S tail = r.chance(1, 3) ? "algorithm " : "";
  if (annotated) {
    tail += "annotation(";
    for (size_t i = 0; i < as.size(); ++i)
      tail += (i ? ", " : "") + as[i];
    tail += ");";
  }
  bool pure = r.chance(2, 3);
  facts::klass(x, pure ? "function" : "impure function", "F", vs, tail, false);
  c.note("text: ", esc(x.out));
  Parsed got = parse(x.out);
  if (!c.check(got.tree != nullptr, "rejected", "the function is rejected"))
    return;
  auto *fn =
      got.tree->cast<Root>()->getInnerClasses()[0]->cast<StandardFunction>();
  auto owned = fn->clone();
  auto look = [&](const StandardFunction *f, const char *) {
    c.check(f->isPure() == pure, "pure", "isPure");
    c.check(f->hasAnnotation() == annotated, "annotation", "hasAnnotation");
    c.check(f->shouldBeInlined() == isInline, "inline",
            isInline ? "not to be inlined" : "to be inlined");
    if (c.failed() || !c.check(f->getVariables().size() == vs.size(),
                               "variables", "a variable is missing"))
      return;
    for (size_t i = 0; i < vs.size(); ++i)
      facts::member(c, f->getVariables()[i]->cast<Member>(), vs[i]);
    auto t = f->getType();
    if (c.check(t.getNumOfArgs() == ins.size(), "arguments",
                "number of argument types") &&
        c.check(t.getNumOfResults() == outs.size(), "results",
                "number of result types")) {
      for (size_t i = 0; i < ins.size() && !c.failed(); ++i)
        facts::type(c, t.getArg(i), vs[ins[i]], "argument " + vs[ins[i]].name);
      for (size_t i = 0; i < outs.size() && !c.failed(); ++i)
        facts::type(c, t.getResult(i), vs[outs[i]],
                    "result " + vs[outs[i]].name);
    }
    if (!annotated)
      return;
    auto *a = f->getAnnotation();
    c.check(a->getInlineProperty() == isInline, "inline", "getInlineProperty");
    if (c.check(a->hasDerivativeAnnotation() == derived, "derivative",
                "hasDerivativeAnnotation") &&
        derived) {
      auto d = a->getDerivativeAnnotation();
      c.check(d.getName() == derivative, "derivative",
              "the derivative is " + d.getName().str());
      c.check(d.getOrder() == order, "derivative-order",
              "the order is " + std::to_string(d.getOrder()));
      c.count("derivatives");
    }
    auto inv = a->getInverseFunctionAnnotation();
    for (auto &v : vs) {
      auto it = inverses.find(v.name);
      if (!c.check(inv.isInvertible(v.name) == (it != inverses.end()),
                   "invertible", "isInvertible of " + v.name) ||
          it == inverses.end())
        continue;
      c.check(inv.getInverseFunction(v.name) == it->second.first, "inverse",
              "the inverse of " + v.name);
      auto args = inv.getInverseArgs(v.name);
      c.check(std::vector<S>(args.begin(), args.end()) == it->second.second,
              "inverse-arguments", "the arguments of the inverse of " + v.name);
      c.count("inverses");
    }
    c.check(!inv.isInvertible("z") && !inv.isInvertible(""), "invertible",
            "something else is invertible");
    c.count("annotations");
  };
  look(fn, "original");
  if (c.failed())
    return;
  got.tree.reset();
  look(owned->cast<StandardFunction>(), "clone");
  c.count("functions");
  if (annotated && vs.size() > 1)
    c.nontrivial(vf::hashStr(x.out));
}

VF_STREAM("C31", "malformed", 5000, 200000,
          "modifications and annotations that make no sense") {
  auto &r = c.rng;
  facts::Text x{r, ""};
  std::vector<facts::Var> vs;
  for (int i = r.in(1, 3); i > 0; --i)
    vs.push_back(facts::some(r, "x" + std::to_string(i)));
  static const char *bad[] = {
      "Inline", "Inline()", "Inline = 1.5", "Inline = y", "Inline = \"a\"",
      "Inline(Inline = true)", "Inline = f()", "inline = {true}"};
  S tail;
  if (r.chance(2, 3)) {
    tail = S("annotation(") + bad[r.next() % 8];
    if (r.coin())
      tail += S(", ") + bad[r.next() % 8];
    tail += ");";
  }
  facts::klass(x, "function", "F", vs, tail, true);
  c.note("text: ", esc(x.out));
  Parsed got = parse(x.out);
  c.count("texts");
  if (!got.tree)
    return;
  c.count("accepted");
  auto *f =
      got.tree->cast<Root>()->getInnerClasses()[0]->cast<StandardFunction>();
  f->shouldBeInlined();
  f->getType();
  for (auto &n : f->getVariables()) {
    auto *m = n->cast<Member>();
    // Whatever they answer, they answer alike and can be relied upon.
    auto *mut = const_cast<Member *>(m);
    bool has = m->hasStartExpression();
    c.check(mut->hasStartExpression() == has, "start", "const and not differ");
    if (has) {
      c.count("start values");
      c.check(m->getStartExpression() == mut->getStartExpression() &&
                  m->getStartExpression()->isa<Expression>(),
              "start", "there is a start value, but no expression");
    }
    m->getFixedProperty();
    m->getEachProperty();
    c.count("queries", 4);
  }
  if (!tail.empty())
    c.nontrivial(vf::hashStr(x.out));
}
