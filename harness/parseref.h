// An independent recogniser of the supported Base Modelica grammar, written
// from the grammar, which builds the expected shape of the syntax tree and the
// extent of each construct; and a generator of programs.
#ifndef PARSEREF_H
#define PARSEREF_H
#include "lexgen.h"
#include <memory>
#include <optional>

namespace pref {
using S = std::string;
using lexref::Tok;

// A syntax tree: kind, attributes, extent (offsets of the first and of the last
// character; -1 when there is none to speak of) and children.
struct N {
  S kind, attr;
  int64_t b = -1, e = -1;
  std::vector<N> kids;
  N() = default;
  explicit N(S k, S a = "") : kind(std::move(k)), attr(std::move(a)) {}
  N &add(N n) {
    kids.push_back(std::move(n));
    return kids.back();
  }
  N &span(int64_t x, int64_t y) {
    b = x;
    e = y;
    return *this;
  }
  size_t count() const {
    size_t n = 1;
    for (auto &k : kids)
      n += k.count();
    return n;
  }
};
inline S show(const N &n) {
  S s = n.kind + (n.attr.empty() ? "" : ":" + n.attr);
  if (n.kids.empty())
    return s;
  s += "(";
  for (size_t i = 0; i < n.kids.size(); ++i)
    s += (i ? " " : "") + show(n.kids[i]);
  return s + ")";
}
// The first difference, or the empty string.
inline S diff(const N &want, const N &got, bool extents) {
  S w = want.kind + ":" + want.attr, g = got.kind + ":" + got.attr;
  if (!extents && w != g)
    return "expected '" + w + "', got '" + g + "'";
  if (extents && want.b >= 0 && (want.b != got.b || want.e != got.e))
    return "expected " + w + " at " + std::to_string(want.b) + "-" +
           std::to_string(want.e) + ", got " + std::to_string(got.b) + "-" +
           std::to_string(got.e);
  if (want.kids.size() != got.kids.size())
    return extents ? "" : "expected " + show(want) + ", got " + show(got);
  for (size_t i = 0; i < want.kids.size(); ++i) {
    S d = diff(want.kids[i], got.kids[i], extents);
    if (!d.empty())
      return want.kind + " > " + d;
  }
  return "";
}
inline S num(double d) {
  char b[64];
  snprintf(b, sizeof b, "%.12g", d);
  return b;
}
inline S quote(const S &s) {
  S r;
  for (unsigned char c : s) {
    char b[8];
    if (c > 32 && c < 127 && c != '%')
      r += c;
    else {
      snprintf(b, sizeof b, "%%%02x", c);
      r += b;
    }
  }
  return r;
}

struct Reject {};
// Exceptions are off: failure is an empty optional.
#define R(var, e)                                                              \
  auto var##_ = (e);                                                           \
  if (!var##_)                                                                 \
    return std::nullopt;                                                       \
  auto &var = *var##_
#define NEED(k)                                                                \
  if (!eat(k)) {                                                               \
    return std::nullopt;                                                       \
  }                                                                            \
  static_assert(true)

struct Ref {
  const std::vector<Tok> &t;
  size_t p = 0;
  int64_t at = -1; // where it was found not to be a program, if not at p
  using O = std::optional<N>;
  using L = std::optional<std::vector<N>>;
  explicit Ref(const std::vector<Tok> &toks) : t(toks) {}

  const Tok &tok(size_t i = 0) const {
    return t[std::min(p + i, t.size() - 1)];
  }
  bool is(const char *k, size_t i = 0) const { return tok(i).kind == k; }
  bool any(std::initializer_list<const char *> ks) const {
    for (auto k : ks)
      if (is(k))
        return true;
    return false;
  }
  bool eat(const char *k) {
    if (!is(k))
      return false;
    ++p;
    return true;
  }
  int64_t B() const { return tok().pos; } // of the next token
  static int64_t end(const Tok &x) { return x.pos + x.text.size() - 1; }
  int64_t E() const { return end(t[p - 1]); } // of the last one
  static std::vector<N> &into(N &n, std::vector<N> v) {
    for (auto &x : v)
      n.add(std::move(x));
    return n.kids;
  }

  O root() {
    N r("root");
    while (!is("EOF")) {
      R(c, klass());
      r.add(c);
    }
    return r;
  }

  bool classAhead() const {
    return any({"class", "function", "model", "package", "record", "operator",
                "pure", "impure"});
  }
  O klass() {
    int64_t b = B();
    S kind, pure;
    if (eat("operator"))
      kind = is("record") ? "record" : "function";
    else if (eat("pure") || eat("impure")) {
      pure = t[p - 1].kind;
      eat("operator");
      kind = "function";
    } else if (any({"model", "record", "package", "function"}))
      kind = tok().kind;
    else
      kind = "class";
    NEED(kind.c_str());
    NEED("identifier");
    S name = t[p - 1].value;
    N r(kind == "class" ? "model" : kind, quote(name));
    r.span(b, E());
    if (kind == "function") {
      if (pure == "impure")
        r.attr += " impure";
      if (eat("=")) {
        N d("partialder", quote(name));
        d.span(r.b, r.e);
        NEED("der");
        NEED("(");
        do {
          R(x, expr());
          d.add(x);
        } while (eat(","));
        NEED(")");
        eat("string");
        NEED(";");
        return d;
      }
    }
    eat("string");
    N members("members"), eqs("equations"), algs("algorithms"),
        inner("classes");
    bool pub = true;
    while (!any({"end", "annotation", "external"})) {
      if (is("initial") && !is("equation", 1) && !is("algorithm", 1)) {
        at = tok(1).pos;
        return std::nullopt;
      }
      if (is("equation") || (is("initial") && is("equation", 1))) {
        R(s, equationSection());
        eqs.add(s);
      } else if (is("algorithm") || is("initial")) {
        R(s, algorithmSection());
        algs.add(s);
      } else if (classAhead()) {
        R(c, klass());
        inner.add(c);
      } else if (eat("public"))
        pub = true;
      else if (eat("protected"))
        pub = false;
      else {
        R(m, element(pub));
        NEED(";");
        members.add(m);
      }
    }
    N ext("external");
    if (eat("external")) {
      ext.attr = "yes " + (eat("string") ? quote(t[p - 1].value) : "C");
      if (any({".", "identifier"})) {
        R(c, externalCall());
        ext.add(c);
      }
      if (!is(";")) {
        R(a, annotation());
        ext.add(a);
      }
      NEED(";");
    }
    N ann("annotations");
    if (is("annotation")) {
      R(a, annotation());
      ann.add(a);
      NEED(";");
    }
    NEED("end");
    NEED("identifier");
    if (t[p - 1].value != name) {
      at = t[p - 1].pos;
      return std::nullopt;
    }
    NEED(";");
    r.add(members);
    r.add(eqs);
    r.add(algs);
    r.add(inner);
    r.add(ext);
    r.add(ann);
    return r;
  }

  O externalCall() {
    N r("externalcall");
    int64_t b = B();
    if (!(is("identifier") && is("(", 1))) {
      R(d, reference());
      r.add(d);
      NEED("=");
    }
    NEED("identifier");
    r.attr = quote(t[p - 1].value);
    NEED("(");
    while (!is(")")) {
      R(x, expr());
      r.add(x);
      if (!is(")"))
        NEED(",");
    }
    NEED(")");
    r.span(b, E());
    return r;
  }

  O annotation() {
    int64_t b = B();
    NEED("annotation");
    R(m, classModification());
    N r("annotation");
    r.add(m);
    r.span(b, E());
    return r;
  }
  O classModification() {
    int64_t b = B();
    NEED("(");
    N r("classmod");
    if (!is(")"))
      do {
        R(a, argument());
        r.add(a);
      } while (eat(","));
    NEED(")");
    r.span(b, E());
    return r;
  }
  O argument() {
    if (is("redeclare"))
      return std::nullopt;
    S attr;
    if (eat("each"))
      attr += " each";
    if (eat("final"))
      attr += " final";
    if (is("replaceable"))
      return std::nullopt;
    int64_t b = B();
    NEED("identifier");
    N r("elementmod", quote(t[p - 1].value) + attr);
    if (any({"(", "=", ":="})) {
      R(m, modification());
      r.add(m);
    }
    r.span(b, E());
    return r;
  }
  O modification() {
    int64_t b = B();
    N r("modification");
    if (eat("=") || eat(":=")) {
      R(x, expr());
      r.add(x);
    } else {
      R(m, classModification());
      r.add(m);
      if (eat("=")) {
        R(x, expr());
        r.add(x);
      }
    }
    r.span(b, E());
    return r;
  }

  O element(bool pub) {
    eat("final");
    N prefix("prefix");
    int64_t b = B();
    size_t p0 = p;
    if (eat("discrete") || eat("parameter") || eat("constant"))
      prefix.attr = t[p - 1].kind;
    if (eat("input") || eat("output"))
      prefix.attr += " " + t[p - 1].kind;
    if (p > p0)
      prefix.span(b, E());
    R(ty, type());
    NEED("identifier");
    N r("member", quote(t[p - 1].value) + (pub ? "" : " protected"));
    r.span(t[p - 1].pos, E());
    r.add(prefix);
    r.add(ty);
    if (any({"(", "="})) {
      R(m, modification());
      r.add(m);
    }
    eat("string");
    if (is("annotation")) {
      R(a, annotation());
      (void)a;
    }
    return r;
  }
  O type() {
    bool global = eat(".");
    NEED("identifier");
    S name = t[p - 1].value;
    int64_t b = t[p - 1].pos;
    N r;
    if (name == "Real" || name == "Integer" || name == "Boolean" ||
        name == "String")
      r = N("builtin", name);
    else {
      S path = S(global ? "." : "") + quote(name);
      while (eat(".")) {
        NEED("identifier");
        path += "." + quote(t[p - 1].value);
      }
      r = N("usertype", path);
    }
    r.span(b, E());
    if (eat("[")) {
      do {
        N d("dim");
        d.b = B();
        if (eat(":"))
          d.attr = "-1";
        else if (is("integer") && (is(",", 1) || is("]", 1))) {
          d.attr = tok().value;
          ++p;
        } else {
          R(x, expr());
          d.b = x.b;
          d.add(x);
        }
        d.e = E();
        r.add(d);
      } while (eat(","));
      NEED("]");
    }
    return r;
  }

  O equationSection() {
    N r("equationsection");
    r.span(B(), end(tok()));
    if (eat("initial"))
      r.attr = "initial";
    NEED("equation");
    while (!any({"public", "protected", "initial", "equation", "algorithm",
                 "external", "annotation", "end"})) {
      R(x, equation());
      NEED(";");
      r.add(x);
    }
    return r;
  }
  O algorithmSection() {
    N r("algorithm");
    r.b = B();
    if (eat("initial"))
      r.attr = "initial";
    NEED("algorithm");
    while (!any({"public", "protected", "initial", "equation", "algorithm",
                 "external", "annotation", "end", "EOF"})) {
      R(x, statement());
      NEED(";");
      r.add(x);
    }
    r.e = E();
    return r;
  }

  // A list of equations or statements up to one of the given tokens.
  O block(bool eq, std::initializer_list<const char *> stop) {
    N r("block");
    int64_t b = B(), e = -1;
    while (!any(stop)) {
      R(x, eq ? equation() : statement());
      e = x.e;
      NEED(";");
      r.add(x);
    }
    if (!eq && e >= 0)
      r.span(b, e);
    return r;
  }

  // if- and when-equations, and if-statements.
  O branches(bool eq, const char *head, const char *other, const char *kind) {
    N r(kind);
    int64_t b = B();
    NEED(head);
    R(c, expr());
    NEED("then");
    r.add(c);
    R(bl, block(eq, {other, "else", "end"}));
    r.add(bl);
    while (eat(other)) {
      R(c2, expr());
      NEED("then");
      r.add(c2);
      R(b2, block(eq, {other, "else", "end"}));
      r.add(b2);
    }
    if (eat("else")) {
      R(b3, block(eq, {"end"}));
      if (!eq || !b3.kids.empty()) {
        r.add(N("else"));
        r.add(b3);
      }
    }
    NEED("end");
    NEED(head);
    r.span(b, E());
    return r;
  }
  O loop(bool eq, const char *head, const char *sep, const char *kind) {
    N r(kind);
    int64_t b = B();
    NEED(head);
    if (S(head) == "for") {
      R(ix, forIndices());
      into(r, ix);
    } else {
      R(c, expr());
      r.add(c);
    }
    NEED(sep);
    R(bl, block(eq, {"end"}));
    bl.b = bl.e = -1;
    r.add(bl);
    NEED("end");
    NEED(head);
    r.span(b, E());
    return r;
  }
  L forIndices() {
    std::vector<N> r;
    do {
      int64_t b = B();
      NEED("identifier");
      N i("forindex", quote(t[p - 1].value));
      if (eat("in")) {
        R(x, expr());
        i.add(x);
      }
      i.span(b, E());
      r.push_back(i);
    } while (eat(","));
    return r;
  }

  O equation() {
    if (is("if"))
      return branches(true, "if", "elseif", "ifeq");
    if (is("when"))
      return branches(true, "when", "elsewhen", "wheneq");
    if (is("for"))
      return loop(true, "for", "loop", "foreq");
    N r("eq");
    R(l, expr());
    NEED("=");
    R(x, expr());
    r.add(l);
    r.add(x);
    eat("string");
    r.span(l.b, E());
    return r;
  }
  O statement() {
    if (is("if"))
      return branches(false, "if", "elseif", "ifst");
    if (is("for"))
      return loop(false, "for", "loop", "forst");
    if (is("while"))
      return loop(false, "while", "loop", "whilest");
    if (is("when"))
      return loop(false, "when", "then", "whenst");
    int64_t b = B();
    if (eat("break") || eat("return")) {
      N r(t[p - 1].kind);
      r.span(b, E());
      return r;
    }
    N r("assign");
    if (eat("(")) {
      N dst("tuple");
      R(xs, outputs());
      NEED(")");
      into(dst, xs);
      dst.span(b, E());
      NEED(":=");
      int64_t cb = B();
      R(f, reference());
      R(a, callArgs());
      N call("call");
      call.add(f);
      into(call, a);
      call.span(cb, E());
      r.add(dst);
      r.add(call);
      r.span(b, E());
      return r;
    }
    R(d, reference());
    if (is("(")) {
      R(a, callArgs());
      N call("call");
      call.add(d);
      into(call, a);
      call.span(b, E());
      N s("callst");
      s.add(call);
      s.span(b, E());
      return s;
    }
    N dst("tuple");
    dst.span(d.b, d.e);
    dst.add(d);
    NEED(":=");
    R(x, expr());
    r.add(dst);
    r.add(x);
    r.span(b, E());
    return r;
  }

  // --- Expressions: the grammar, level by level --------------------------
  O expr() {
    if (!is("if"))
      return range();
    int64_t b = B();
    ++p;
    N r("ifelse");
    R(c, expr());
    r.add(c);
    NEED("then");
    R(x, expr());
    r.add(x);
    NEED("else");
    R(y, expr());
    r.add(y);
    r.span(b, E());
    return r;
  }
  O range() {
    R(x, nary("or"));
    if (!is(":"))
      return x;
    N r("range");
    r.add(x);
    for (int i = 0; i < 2 && eat(":"); ++i) {
      R(y, nary("or"));
      r.add(y);
    }
    r.span(x.b, E());
    return r;
  }
  O nary(S op) { // or > and > not
    R(x, op == "or" ? nary("and") : negation());
    if (!is(op.c_str()))
      return x;
    N r(op);
    r.add(x);
    while (eat(op.c_str())) {
      R(y, op == "or" ? nary("and") : negation());
      r.add(y);
    }
    r.span(x.b, E());
    return r;
  }
  O negation() {
    int64_t b = B();
    if (!eat("not"))
      return relation();
    R(x, relation());
    N r("not");
    r.add(x);
    r.span(b, E());
    return r;
  }
  O relation() {
    R(x, arithmetic());
    for (auto op : {"<", "<=", ">", ">=", "==", "<>"})
      if (is(op)) {
        ++p;
        R(y, arithmetic());
        N r(op);
        r.add(x);
        r.add(y);
        r.span(x.b, E());
        return r;
      }
    return x;
  }
  O arithmetic() {
    int64_t b = B();
    bool minus = eat("-");
    if (!minus)
      eat("+");
    R(x, term());
    N acc = x;
    if (minus) {
      acc = N("negate");
      acc.add(x);
      acc.span(b, E());
    }
    while (any({"+", "-", ".+", ".-"})) {
      N r(tok().kind);
      ++p;
      R(y, term());
      r.add(acc);
      r.add(y);
      r.span(b, E());
      acc = r;
    }
    return acc;
  }
  O term() {
    int64_t b = B();
    R(x, factor());
    N acc = x;
    while (any({"*", "/", ".*", "./"})) {
      N r(tok().kind);
      ++p;
      R(y, factor());
      r.add(acc);
      r.add(y);
      r.span(b, E());
      acc = r;
    }
    return acc;
  }
  O factor() {
    int64_t b = B();
    R(x, primary());
    N acc = x;
    while (any({"^", ".^"})) {
      N r(tok().kind);
      ++p;
      R(y, primary());
      r.add(acc);
      r.add(y);
      r.span(b, E());
      acc = r;
    }
    return acc;
  }
  O primary() {
    const Tok &k = tok();
    int64_t b = B();
    N r;
    if (any({"integer", "floating point", "string", "true", "false"})) {
      ++p;
      r = N("constant",
            k.kind == "integer"          ? "i" + k.value
            : k.kind == "floating point" ? "r" + num(strtod(k.text.c_str(), nullptr))
            : k.kind == "string"         ? "s" + quote(k.value)
                                         : k.kind);
      r.span(b, E());
      return r;
    }
    if (eat("(")) {
      R(xs, outputs());
      NEED(")");
      if (xs.size() == 1)
        r = xs[0];
      else {
        r = N("tuple");
        into(r, xs);
      }
      r.span(b, E());
    } else if (eat("{")) {
      R(x, expr());
      r = N("array");
      r.add(x);
      if (eat("for")) {
        r.kind = "arrayfor";
        R(ix, forIndices());
        into(r, ix);
      } else
        while (eat(",")) {
          R(y, expr());
          r.add(y);
        }
      NEED("}");
      r.span(b, E());
    } else if (eat("der")) {
      N f("reference"), en("entry", "der");
      en.span(b, E());
      f.add(en);
      f.span(b, E());
      R(a, callArgs());
      r = N("call");
      r.add(f);
      into(r, a);
      r.span(b, E());
    } else if (any({".", "identifier"})) {
      R(f, reference());
      if (!is("("))
        return f;
      R(a, callArgs());
      r = N("call");
      r.add(f);
      into(r, a);
      r.span(b, E());
    } else
      return std::nullopt;
    if (is("[")) {
      R(ss, subscripts());
      N s("subscription");
      s.add(r);
      into(s, ss);
      s.span(b, E());
      return s;
    }
    return r;
  }
  L outputs() {
    std::vector<N> r;
    if (!is(")"))
      do {
        if (any({",", ")"})) {
          r.push_back(N("nothing"));
          continue;
        }
        R(x, expr());
        r.push_back(x);
      } while (eat(","));
    return r;
  }
  O reference() {
    int64_t b = B();
    N r("reference", eat(".") ? "global" : "");
    do {
      int64_t eb = B();
      NEED("identifier");
      N en("entry", quote(t[p - 1].value));
      if (is("[")) {
        R(ss, subscripts());
        into(en, ss);
      }
      en.span(eb, E());
      r.add(en);
    } while (eat("."));
    r.span(b, E());
    return r;
  }
  L subscripts() {
    std::vector<N> r;
    NEED("[");
    do {
      int64_t b = B();
      N s("subscript");
      if (!eat(":")) {
        R(x, expr());
        b = x.b;
        s.add(x);
      }
      s.span(b, E());
      r.push_back(s);
    } while (eat(","));
    NEED("]");
    return r;
  }
  L callArgs() {
    std::vector<N> r;
    NEED("(");
    bool named = false;
    if (!is(")"))
      do {
        int64_t b = B();
        if (named || (is("identifier") && is("=", 1))) {
          named = true;
          NEED("identifier");
          N a("named", quote(t[p - 1].value));
          NEED("=");
          R(x, expr());
          N v("arg");
          v.add(x);
          v.span(x.b, E());
          a.add(v);
          a.span(b, E());
          r.push_back(a);
          continue;
        }
        R(x, expr());
        N a("arg");
        b = x.b;
        a.add(x);
        if (r.empty() && eat("for")) {
          a.kind = "reduction";
          R(ix, forIndices());
          into(a, ix);
          a.span(b, E());
          r.push_back(a);
          break;
        }
        a.span(b, E());
        r.push_back(a);
      } while (eat(","));
    NEED(")");
    return r;
  }
};
#undef R
#undef NEED

// --- Programs --------------------------------------------------------------
struct Gen {
  vf::Rng &r;
  std::vector<S> out;
  int depth = 0;
  bool plain = false; // no unusual tokens
  explicit Gen(vf::Rng &rng) : r(rng) {}

  void t(const S &s) { out.push_back(s); }
  // Programs stay small enough to run many.
  bool deep() const { return depth > 5 || out.size() > 500; }
  struct In {
    int &d;
    explicit In(int &x) : d(x) { ++d; }
    ~In() { --d; }
  };
  void ident() {
    static const char *k[] = {"x", "y", "z", "a", "f", "g", "start", "T0"};
    if (plain || r.chance(3, 4))
      return t(k[r.in(0, 7)]);
    if (r.chance(1, 8))
      return t(lexref::genQuoted(r, '\''));
    S s = lexref::genIdent(r);
    while (lexref::isKeyword(s))
      s += "_";
    t(s);
  }
  void str() {
    t(r.chance(1, 2) ? "\"C\"" : lexref::genQuoted(r, '"'));
  }
  void literal() {
    switch (r.in(0, 5)) {
    case 0:
    case 1: return t(lexref::digits(r, r.in(1, 3)));
    case 2: {
      S s = lexref::genReal(r, false);
      return t(s);
    }
    case 3: return str();
    case 4: return t("true");
    default: return t("false");
    }
  }
  void list(int lo, int hi, void (Gen::*f)()) {
    int n = r.in(lo, hi);
    for (int i = 0; i < n; ++i) {
      if (i)
        t(",");
      (this->*f)();
    }
  }

  void expr() {
    In in(depth);
    if (!deep() && r.chance(1, 14)) {
      t("if");
      expr();
      t("then");
      expr();
      t("else");
      return expr();
    }
    simple();
  }
  void simple() {
    logical();
    if (!deep() && r.chance(1, 14)) {
      t(":");
      logical();
      if (r.coin()) {
        t(":");
        logical();
      }
    }
  }
  void logical() {
    int n = deep() ? 1 : r.chance(1, 8) ? r.in(2, 3) : 1;
    for (int i = 0; i < n; ++i) {
      if (i)
        t("or");
      int m = deep() ? 1 : r.chance(1, 8) ? r.in(2, 3) : 1;
      for (int j = 0; j < m; ++j) {
        if (j)
          t("and");
        if (r.chance(1, 10))
          t("not");
        arith();
        if (r.chance(1, 10)) {
          static const char *k[] = {"<", "<=", ">", ">=", "==", "<>"};
          t(k[r.in(0, 5)]);
          arith();
        }
      }
    }
  }
  void arith() {
    if (r.chance(1, 8))
      t(r.coin() ? "-" : "+");
    int n = deep() ? 1 : r.chance(1, 3) ? r.in(2, 4) : 1;
    for (int i = 0; i < n; ++i) {
      static const char *k[] = {"+", "-", ".+", ".-"};
      if (i)
        t(k[r.in(0, 3)]);
      int m = deep() ? 1 : r.chance(1, 3) ? r.in(2, 3) : 1;
      for (int j = 0; j < m; ++j) {
        static const char *q[] = {"*", "/", ".*", "./"};
        if (j)
          t(q[r.in(0, 3)]);
        primary();
        for (int x = r.chance(1, 8) ? r.in(1, 2) : 0; x > 0; --x) {
          t(r.coin() ? "^" : ".^");
          primary();
        }
      }
    }
  }
  void subscript() {
    if (r.chance(1, 4))
      t(":");
    else
      expr();
  }
  void subscripts() {
    t("[");
    list(1, 2, &Gen::subscript);
    t("]");
  }
  void reference() {
    if (r.chance(1, 12))
      t(".");
    int n = r.chance(1, 4) ? r.in(2, 3) : 1;
    for (int i = 0; i < n; ++i) {
      if (i)
        t(".");
      ident();
      if (!deep() && r.chance(1, 6))
        subscripts();
    }
  }
  void forIndex() {
    ident();
    if (r.chance(3, 4)) {
      t("in");
      expr();
    }
  }
  void callArgs() {
    In in(depth);
    t("(");
    if (!deep() && r.chance(1, 8)) {
      expr();
      t("for");
      list(1, 2, &Gen::forIndex);
    } else {
      int n = deep() ? 0 : r.in(0, 2), m = deep() ? 0 : r.chance(1, 4) ? r.in(1, 2) : 0;
      for (int i = 0; i < n + m; ++i) {
        if (i)
          t(",");
        if (i >= n) {
          ident();
          t("=");
        }
        expr();
      }
    }
    t(")");
  }
  void primary() {
    In in(depth);
    switch (deep() ? r.in(0, 5) : r.in(0, 13)) {
    case 0:
    case 1: return literal();
    case 2:
    case 3:
    case 4:
    case 5: return reference();
    case 6:
    case 7:
      t("(");
      expr();
      t(")");
      break;
    case 8:
      t("(");
      outputs();
      t(")");
      break;
    case 9:
      t("{");
      list(1, 3, &Gen::expr);
      t("}");
      break;
    case 10:
      t("{");
      expr();
      t("for");
      list(1, 2, &Gen::forIndex);
      t("}");
      break;
    case 11:
      t("der");
      callArgs();
      break;
    default:
      reference();
      callArgs();
    }
    if (r.chance(1, 10))
      subscripts();
  }
  void outputs() {
    int n = r.in(0, 3);
    for (int i = 0; i < n; ++i) {
      if (i)
        t(",");
      if (n == 1 || r.chance(2, 3))
        expr();
    }
  }

  void block(bool eq) {
    In in(depth);
    int n = deep() ? r.in(0, 1) : r.in(0, 3);
    for (int i = 0; i < n; ++i) {
      eq ? equation() : statement();
      t(";");
    }
  }
  void branches(bool eq, const char *head, const char *other) {
    t(head);
    expr();
    t("then");
    block(eq);
    for (int i = r.chance(1, 2) ? r.in(1, 3) : 0; i > 0; --i) {
      t(other);
      expr();
      t("then");
      block(eq);
    }
    if (r.coin()) {
      t("else");
      block(eq);
    }
    t("end");
    t(head);
  }
  void loop(bool eq, const char *head, const char *sep) {
    t(head);
    if (S(head) == "for")
      list(1, 2, &Gen::forIndex);
    else
      expr();
    t(sep);
    block(eq);
    t("end");
    t(head);
  }
  void equation() {
    In in(depth);
    int k = deep() ? 9 : r.in(0, 9);
    if (k == 0)
      return branches(true, "if", "elseif");
    if (k == 1)
      return branches(true, "when", "elsewhen");
    if (k == 2)
      return loop(true, "for", "loop");
    simple(); // an "if" there would be an if-equation
    t("=");
    expr();
    if (r.chance(1, 8))
      str();
  }
  void statement() {
    In in(depth);
    switch (deep() ? r.in(4, 11) : r.in(0, 11)) {
    case 0: return branches(false, "if", "elseif");
    case 1: return loop(false, "for", "loop");
    case 2: return loop(false, "while", "loop");
    case 3: return loop(false, "when", "then");
    case 4: return t(r.coin() ? "break" : "return");
    case 5:
    case 6:
      t("(");
      outputs();
      t(")");
      t(":=");
      reference();
      return callArgs();
    case 7:
      reference();
      return callArgs();
    default:
      reference();
      t(":=");
      expr();
    }
  }

  void argument() {
    if (r.chance(1, 5))
      t("each");
    if (r.chance(1, 5))
      t("final");
    if (r.chance(1, 2))
      t(r.coin() ? "start" : "fixed");
    else
      ident();
    if (r.chance(7, 8))
      modification(true);
  }
  void classModification() {
    In in(depth);
    t("(");
    list(0, deep() ? 1 : 3, &Gen::argument);
    t(")");
  }
  void modification(bool arg) {
    In in(depth);
    if (r.chance(2, 3) || deep()) {
      t(arg && r.chance(1, 8) ? ":=" : "=");
      return expr();
    }
    classModification();
    if (r.coin()) {
      t("=");
      expr();
    }
  }
  void annotation() {
    t("annotation");
    classModification();
  }
  void dimension() {
    switch (r.in(0, 3)) {
    case 0: return t(":");
    case 1: return expr();
    default: return t(lexref::digits(r, r.in(1, 2)));
    }
  }
  void element() {
    if (r.chance(1, 10))
      t("final");
    static const char *v[] = {"discrete", "parameter", "constant"};
    if (r.chance(1, 3))
      t(v[r.in(0, 2)]);
    if (r.chance(1, 3))
      t(r.coin() ? "input" : "output");
    static const char *b[] = {"Real", "Integer", "Boolean", "String"};
    if (r.chance(2, 3))
      t(b[r.in(0, 3)]);
    else {
      if (r.chance(1, 5))
        t(".");
      ident();
      for (int i = r.chance(1, 3) ? r.in(1, 2) : 0; i > 0; --i) {
        t(".");
        ident();
      }
    }
    if (r.chance(1, 4)) {
      t("[");
      list(1, 3, &Gen::dimension);
      t("]");
    }
    ident();
    if (r.chance(1, 3))
      modification(false);
    if (r.chance(1, 8))
      str();
    if (r.chance(1, 10))
      annotation();
    t(";");
  }
  void klass() {
    In in(depth);
    static const char *k[] = {"class",         "model",
                              "record",        "package",
                              "function",      "pure function",
                              "impure function", "operator function",
                              "operator record", "pure operator function",
                              "impure operator function"};
    S kind = k[r.in(0, r.coin() ? 4 : 10)];
    size_t sp;
    while ((sp = kind.find(' ')) != S::npos) {
      t(kind.substr(0, sp));
      kind = kind.substr(sp + 1);
    }
    t(kind);
    ident();
    S name = out.back();
    if (kind == "function" && r.chance(1, 5)) {
      t("=");
      t("der");
      t("(");
      list(1, 3, &Gen::expr);
      t(")");
      if (r.chance(1, 3))
        str();
      return t(";");
    }
    if (r.chance(1, 6))
      str();
    bool section = false; // elements cannot follow it directly
    for (int i = r.in(0, depth > 2 ? 2 : 6); i > 0; --i)
      switch (r.in(0, 9)) {
      case 0:
        t(r.coin() ? "public" : "protected");
        section = false;
        break;
      case 1:
        if (!section && depth < 4)
          klass();
        break;
      case 2:
      case 3:
      case 4:
      case 5: {
        bool eq = r.coin();
        if (r.chance(1, 4))
          t("initial");
        t(eq ? "equation" : "algorithm");
        block(eq);
        section = true;
        break;
      }
      default:
        if (section) {
          t(r.coin() ? "public" : "protected");
          section = false;
        }
        for (int n = r.in(1, 3); n > 0; --n)
          element();
      }
    if (r.chance(1, 6)) {
      t("external");
      if (r.coin())
        str();
      if (r.coin()) {
        if (r.coin()) {
          reference();
          t("=");
        }
        ident();
        t("(");
        list(0, 3, &Gen::expr);
        t(")");
      }
      if (r.chance(1, 3))
        annotation();
      t(";");
    }
    if (r.chance(1, 6)) {
      annotation();
      t(";");
    }
    t("end");
    t(name);
    t(";");
  }
  void program() {
    for (int i = r.in(1, 2); i > 0; --i)
      klass();
  }
};

inline bool mayGlue(const S &a, const S &b) {
  static const S k = "(),;[]{}";
  return a.empty() || b.empty() || k.find(a.back()) != S::npos ||
         k.find(b[0]) != S::npos;
}
inline S spell(vf::Rng &r, const std::vector<S> &toks) {
  S s;
  bool wild = r.coin();
  for (size_t i = 0; i < toks.size(); ++i) {
    if (i)
      s += wild ? lexref::genGap(r, mayGlue(toks[i - 1], toks[i]) && r.coin())
                : (r.chance(1, 9) ? "\n" : " ");
    s += toks[i];
  }
  return s;
}
} // namespace pref
#endif
