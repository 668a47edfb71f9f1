// Reads the JSON form of an AST back into the shape its accessors show.
#ifndef ASTJSON_H
#define ASTJSON_H
#include "parseref.h"
#include "llvm/Support/JSON.h"

namespace astjson {
using S = std::string;
using pref::N;
namespace J = llvm::json;

struct Reader {
  S bad; // the first thing missing or malformed
  uint64_t keys = 0;
  void fail(const S &what) {
    if (bad.empty())
      bad = what;
  }
  S str(const J::Object &o, const char *k) {
    ++keys;
    if (auto v = o.getString(k))
      return v->str();
    fail("no string '" + S(k) + "' in " + kind(o));
    return "";
  }
  bool boolean(const J::Object &o, const char *k) {
    ++keys;
    if (auto v = o.getBoolean(k))
      return *v;
    fail("no boolean '" + S(k) + "' in " + kind(o));
    return false;
  }
  S kind(const J::Object &o) {
    if (auto v = o.getString("kind"))
      return v->str();
    return "(no kind)";
  }
  // Children.
  void list(N &n, const J::Object &o, const char *k) {
    ++keys;
    if (auto *a = o.getArray(k)) {
      for (auto &x : *a)
        n.add(of(&x));
    } else
      fail("no list '" + S(k) + "' in " + kind(o));
  }
  void one(N &n, const J::Object &o, const char *k) {
    ++keys;
    if (auto *x = o.get(k))
      n.add(of(x));
    else
      fail("no '" + S(k) + "' in " + kind(o));
  }
  void maybe(N &n, const J::Object &o, const char *k) {
    ++keys;
    if (auto *x = o.get(k))
      n.add(of(x));
  }
  N group(const char *name, const J::Object &o, const char *k) {
    N g(name);
    list(g, o, k);
    return g;
  }
  void branches(N &n, const J::Object &o, const char *conditions,
                const char *blocks) {
    keys += 2;
    auto *c = o.getArray(conditions), *b = o.getArray(blocks);
    if (!c || !b || c->size() != b->size())
      return fail("branches '" + S(conditions) + "', '" + S(blocks) +
                  "' missing or different in number in " + kind(o));
    for (size_t i = 0; i < c->size(); ++i) {
      n.add(of(&(*c)[i]));
      if (auto *l = (*b)[i].getAsArray()) {
        N g("block");
        for (auto &x : *l)
          g.add(of(&x));
        n.add(g);
      } else
        n.add(of(&(*b)[i]));
    }
  }
  void klass(N &n, const J::Object &o) {
    n.attr = pref::quote(str(o, "name")) + n.attr;
    N m("members"), q("equations"), a("algorithms"), i("classes"),
        x("external"), t("annotations");
    list(m, o, "variables");
    list(q, o, "equation_sections");
    list(a, o, "algorithms");
    list(i, o, "inner_classes");
    if (boolean(o, "external")) {
      x.attr = "yes " + pref::quote(str(o, "external_language"));
      maybe(x, o, "external_function_call");
      maybe(x, o, "external_annotation");
    }
    maybe(t, o, "annotation");
    for (auto *g : {&m, &q, &a, &i, &x, &t})
      n.add(*g);
  }
  static S op(const S &k) {
    static const std::pair<const char *, const char *> m[] = {
        {"unknown", "unknown"},  {"negate", "negate"},
        {"add", "+"},            {"add_ew", ".+"},
        {"subtract", "-"},       {"subtract_ew", ".-"},
        {"multiply", "*"},       {"multiply_ew", ".*"},
        {"divide", "/"},         {"divide_ew", "./"},
        {"if_else", "ifelse"},   {"greater", ">"},
        {"greater_equal", ">="}, {"equal", "=="},
        {"different", "<>"},     {"less_equal", "<="},
        {"less", "<"},           {"land", "and"},
        {"lor", "or"},           {"lnot", "not"},
        {"subscription", "subscription"},
        {"power_of", "^"},       {"power_of_ew", ".^"},
        {"range", "range"}};
    for (auto &x : m)
      if (k == x.first)
        return x.second;
    return "?" + k;
  }
  N of(const J::Value *v) {
    auto *po = v->getAsObject();
    if (!po) {
      fail("something other than an object");
      return N("nothing-read");
    }
    auto &o = *po;
    S k = str(o, "kind");
    N n;
    if (k == "root") {
      n.kind = "root";
      list(n, o, "inner_classes");
    } else if (k == "model" || k == "package" || k == "record") {
      n.kind = k;
      klass(n, o);
    } else if (k == "standard_function") {
      n.kind = "function";
      n.attr = boolean(o, "pure") ? "" : " impure";
      klass(n, o);
    } else if (k == "partial_der_function") {
      n = N("partialder", pref::quote(str(o, "name")));
      one(n, o, "derived_function");
      list(n, o, "independent_variables");
    } else if (k == "external_function_call") {
      n = N("externalcall", pref::quote(str(o, "callee")));
      maybe(n, o, "destination");
      list(n, o, "args");
    } else if (k == "annotation") {
      n.kind = k;
      one(n, o, "properties");
    } else if (k == "class_modification") {
      n.kind = "classmod";
      list(n, o, "arguments");
    } else if (k == "element_modification") {
      n = N("elementmod", pref::quote(str(o, "name")) +
                              (boolean(o, "each") ? " each" : "") +
                              (boolean(o, "final") ? " final" : ""));
      maybe(n, o, "modification");
    } else if (k == "modification") {
      n.kind = k;
      maybe(n, o, "class_modification");
      maybe(n, o, "expression");
    } else if (k == "member") {
      n = N("member", pref::quote(str(o, "name")) +
                          (boolean(o, "public") ? "" : " protected"));
      one(n, o, "type_prefix");
      one(n, o, "type");
      maybe(n, o, "modification");
    } else if (k == "type_prefix") {
      S var = str(o, "variability"), io = str(o, "io");
      n = N("prefix",
            (var == "none" ? "" : var) + (io == "none" ? "" : " " + io));
    } else if (k == "builtin_type") {
      n = N("builtin", str(o, "type"));
      list(n, o, "dimensions");
    } else if (k == "user_defined_type") {
      n = N("usertype", boolean(o, "global_lookup") ? "." : "");
      if (auto *p = o.getArray("path"))
        for (size_t i = 0; i < p->size(); ++i)
          n.attr += (i ? "." : "") +
                    pref::quote((*p)[i].getAsString().value_or("?").str());
      else
        fail("no path in a type");
      list(n, o, "dimensions");
    } else if (k == "array_dimension") {
      n.kind = "dim";
      auto *x = o.get("size");
      if (!x)
        fail("no size in a dimension");
      else if (auto i = x->getAsInteger())
        n.attr = *i == -1 ? "-1" : std::to_string(*i);
      else
        n.add(of(x));
    } else if (k == "equation_section" || k == "algorithm") {
      n = N(k == "algorithm" ? k : "equationsection",
            boolean(o, "initial") ? "initial" : "");
      list(n, o, k == "algorithm" ? "statements" : "equations");
    } else if (k == "equation_equality") {
      n.kind = "eq";
      one(n, o, "lhs");
      one(n, o, "rhs");
    } else if (k == "equation_if" || k == "equation_when") {
      bool w = k == "equation_when";
      n.kind = w ? "wheneq" : "ifeq";
      one(n, o, w ? "when_condition" : "if_condition");
      n.add(group("block", o, w ? "when_equations" : "if_equations"));
      branches(n, o, w ? "else_when_conditions" : "else_if_conditions",
               w ? "else_when_equations" : "else_if_equations");
      N e = group("block", o, "else_equations");
      if (!e.kids.empty()) {
        n.add(N("else"));
        n.add(e);
      }
    } else if (k == "equation_for") {
      n.kind = "foreq";
      list(n, o, "for_indices");
      n.add(group("block", o, "equations"));
    } else if (k == "for_index") {
      n = N("forindex", pref::quote(str(o, "name")));
      maybe(n, o, "expression");
    } else if (k == "assignment_statement") {
      n.kind = "assign";
      one(n, o, "destinations");
      one(n, o, "expression");
    } else if (k == "break_statement")
      n.kind = "break";
    else if (k == "return_statement")
      n.kind = "return";
    else if (k == "call_statement") {
      n.kind = "callst";
      one(n, o, "call");
    } else if (k == "for_statement") {
      n.kind = "forst";
      list(n, o, "for_indices");
      n.add(group("block", o, "statements"));
    } else if (k == "while_statement" || k == "when_statement") {
      n.kind = k == "while_statement" ? "whilest" : "whenst";
      one(n, o, "condition");
      n.add(group("block", o, "statements"));
    } else if (k == "if_statement") {
      n.kind = "ifst";
      one(n, o, "if_condition");
      one(n, o, "if_block");
      branches(n, o, "else_if_conditions", "else_if_blocks");
      if (o.get("else_block")) {
        n.add(N("else"));
        one(n, o, "else_block");
      }
    } else if (k == "statements_block")
      n = group("block", o, "statements");
    else if (k == "constant") {
      n.kind = k;
      auto *x = o.get("value");
      if (!x)
        fail("no value in a constant");
      else if (auto b = x->getAsBoolean())
        n.attr = *b ? "true" : "false";
      else if (auto s = x->getAsString())
        n.attr = "s" + pref::quote(s->str());
      else if (auto d = x->getAsNumber())
        n.attr = "n" + pref::num(*d);
      else
        fail("no value in a constant");
    } else if (k == "operation") {
      n.kind = op(str(o, "operation_kind"));
      list(n, o, "args");
    } else if (k == "tuple")
      n = group("tuple", o, "expressions");
    else if (k == "array_constant")
      n = group("array", o, "values");
    else if (k == "array_for_generator") {
      n.kind = "arrayfor";
      one(n, o, "values");
      list(n, o, "indices");
    } else if (k == "call") {
      n.kind = k;
      one(n, o, "callee");
      list(n, o, "args");
    } else if (k == "function_argument_expression") {
      n.kind = "arg";
      one(n, o, "expression");
    } else if (k == "function_argument_named") {
      n = N("named", pref::quote(str(o, "name")));
      one(n, o, "value");
    } else if (k == "function_argument_reduction") {
      n.kind = "reduction";
      one(n, o, "expression");
      list(n, o, "iterators");
    } else if (k == "component_reference") {
      if (boolean(o, "dummy"))
        return N("nothing");
      n = N("reference", boolean(o, "global_lookup") ? "global" : "");
      list(n, o, "path");
    } else if (k == "component_reference_entry") {
      n = N("entry", pref::quote(str(o, "name")));
      list(n, o, "subscripts");
    } else if (k == "subscript") {
      n.kind = k;
      if (!boolean(o, "unbounded"))
        one(n, o, "expression");
    } else
      n = N("unexpected", k);
    return n;
  }
};

// JSON has numbers only: whether a constant is real does not show.
inline S number(double d) { return "n" + pref::num(d); }
inline void numbers(N &n) {
  if (n.kind == "constant" && !n.attr.empty() &&
      (n.attr[0] == 'i' || n.attr[0] == 'r'))
    n.attr = number(atof(n.attr.c_str() + 1));
  for (auto &k : n.kids)
    numbers(k);
}
} // namespace astjson
#endif
