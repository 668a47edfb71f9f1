// C28: the attributes and properties of the Modeling dialect.
#include "idxutil.h"
#include "mlirutil.h"
#include "marco/Dialect/Modeling/IR/Attributes.h"
#include "marco/Dialect/Modeling/IR/Dialect.h"
#include "marco/Dialect/Modeling/IR/Ops.h"
#include "marco/Dialect/Modeling/IR/Properties.h"
#include "mlir/IR/OpImplementation.h"
#include <optional>

using namespace mlir::modeling;

// --- The operations that hold the properties ---------------------------------
#include "vft_dialect.h.inc"
namespace vft {
using mlir::modeling::parseIndexSet;
using mlir::modeling::printIndexSet;
static mlir::ParseResult parseIndexSetsList(mlir::OpAsmParser &p,
                                            IndexSetsList &l) {
  return mlir::modeling::parse(p, l);
}
static void printIndexSetsList(mlir::OpAsmPrinter &p, mlir::Operation *,
                               const IndexSetsList &l) {
  mlir::modeling::print(p, l);
}
} // namespace vft
#define GET_OP_CLASSES
#include "vft_ops.h.inc"
#define GET_OP_CLASSES
#include "vft_ops.cpp.inc"
#include "vft_dialect.cpp.inc"
void vft::VftDialect::initialize() {
  addOperations<
#define GET_OP_LIST
#include "vft_ops.cpp.inc"
      >();
}

struct Env : MlirEnv {
  Env() {
    ctx.loadDialect<ModelingDialect, vft::VftDialect>();
  }
};

static int64_t anInt(vf::Rng &r) {
  switch (r.in(0, 7)) {
  case 0: return (int64_t)(r.next() >> r.in(1, 62));
  case 1: return -(int64_t)(r.next() >> r.in(1, 62));
  case 2: {
    static const int64_t e[] = {INT64_MIN, INT64_MAX, INT32_MIN, INT32_MAX,
                                INT64_MIN + 1, INT64_MAX - 1, 0, -1, 4294967295,
                                4294967296};
    return e[r.in(0, 9)];
  }
  default: return r.in(-5, 9);
  }
}
static std::pair<int64_t, int64_t> aRange(vf::Rng &r) {
  int64_t a = anInt(r), b = r.coin() ? anInt(r) : a == INT64_MAX ? a : a + 1;
  if (a == b)
    b = b == INT64_MAX ? b : b + 1;
  if (a == b)
    --a;
  return {std::min(a, b), std::max(a, b)};
}
static std::string text(const std::pair<int64_t, int64_t> &d) {
  return "[" + std::to_string(d.first) + "," + std::to_string(d.second - 1) +
         "]";
}
static std::string text(const MBox &b) {
  std::string s;
  for (auto &d : b)
    s += text(d);
  return s;
}

VF_STREAM("C28", "attributes", 4000, 100000,
          "range attributes printed, parsed, and written as bytecode") {
  auto &r = c.rng;
  Env e;
  MBox b;
  for (int n = r.in(1, 5); n > 0; --n)
    b.push_back(aRange(r));
  auto one = aRange(r);
  c.note(str(b), " and ", one.first, "..", one.second);
  auto box = MultidimensionalRangeAttr::get(&e.ctx, toMR(b));
  auto range = RangeAttr::get(&e.ctx, mm::Range(one.first, one.second));
  c.count("attributes built", 2);
  c.check(toBox(box.getValue()) == b, "value",
          "the attribute holds another value: " + ostr(box));
  c.check(range.getValue().getBegin() == one.first &&
              range.getValue().getEnd() == one.second,
          "value", "the attribute holds another value: " + ostr(range));
  c.check(box == MultidimensionalRangeAttr::get(&e.ctx, toMR(b)) &&
              range == RangeAttr::get(&e.ctx, mm::Range(one.first, one.second)),
          "unique", "equal values give different attributes");
  MBox other = b;
  auto &d = other[r.next() % other.size()];
  if (r.coin() && d.second < INT64_MAX)
    ++d.second;
  else if (d.first + 1 < d.second)
    ++d.first;
  if (r.chance(1, 4))
    other.pop_back();
  if (!other.empty() && other != b) {
    c.count("distinct values compared");
    c.check(box != MultidimensionalRangeAttr::get(&e.ctx, toMR(other)),
            "distinct", str(b) + " and " + str(other) + " are one attribute");
  }
  // text, in this context and in another one
  std::string want[2] = {"#modeling<multidim_range" + text(b) + ">",
                         "#modeling<range" + text(one) + ">"};
  mlir::Attribute attrs[2] = {box, range};
  Env f;
  for (int i = 0; i < 2; ++i) {
    std::string t = ostr(attrs[i]);
    c.count("texts parsed", 2);
    c.check(e.parseAttr(t) == attrs[i], "text",
            "the text " + t + " does not parse to the attribute it shows" +
                e.said());
    auto back = f.parseAttr(t);
    c.check(back && ostr(back) == t, "text-again",
            t + " parses to " + (back ? ostr(back) : "nothing"));
    c.check(e.parseAttr(want[i]) == attrs[i], "syntax",
            want[i] + " is not " + t + e.said());
  }
  // as part of an operation
  auto op = e.inModule<vft::BoxOp>(box, range);
  for (int way = 0; way < 3; ++way) {
    auto m = e.roundTrip(way);
    c.count("operations read");
    vft::BoxOp back;
    if (m)
      m->walk([&](vft::BoxOp o) { back = o; });
    c.check(back && back.getBox() == box && back.getRange() == range,
            "operation", std::string(e.wayName(way)) + " loses the attributes" +
                             e.said());
  }
  c.nontrivial(vf::hashStr(ostr(box) + ostr(range)));
}

struct GenSet {
  mm::IndexSet set;
  MSet model;
};
static GenSet aSet(vf::Rng &r, size_t rank, bool wide) {
  GenSet g;
  Dom d;
  d.rank = rank;
  for (size_t i = 0; i < rank; ++i) {
    int64_t lo = wide ? r.in(-1000000, 1000000) : r.in(-3, 2);
    d.lim.push_back({lo, lo + r.in(1, rank > 3 ? 3 : 5)});
  }
  if (r.chance(1, 10))
    return g;
  for (int n = r.in(1, 5); n > 0; --n) {
    MBox b = genBox(r, d, r.in(0, 8));
    bool add = r.chance(3, 4);
    if (add)
      g.set += toMR(b), g.model = unite(g.model, boxPoints(b));
    else
      g.set -= mm::IndexSet(toMR(b)), g.model = minusS(g.model, boxPoints(b));
  }
  if (g.model.empty()) // an emptied set keeps its rank, which is not stored
    g.set = mm::IndexSet();
  return g;
}

VF_STREAM("C28", "sets", 4000, 100000,
          "index sets held by operations: text, generic text, bytecode, "
          "clones, hashes") {
  auto &r = c.rng;
  Env e;
  size_t rank = r.in(1, 4);
  auto g = aSet(r, rank, r.coin());
  int64_t tag = r.in(0, 3);
  c.note(str(g.model));
  auto op = e.inModule<vft::SetOp>(g.set, (uint64_t)tag);
  c.count("operations built");
  c.check(toModel(op.getIndices()) == g.model, "kept",
          "the operation holds " + ostr(op.getIndices()));
  for (int way = 0; way < 4; ++way) {
    auto m = e.roundTrip(way);
    c.count("operations read");
    vft::SetOp back;
    if (m)
      m->walk([&](vft::SetOp o) { back = o; });
    if (!back) {
      c.fail("unreadable", std::string(e.wayName(way)) +
                               " cannot be read back" + e.said());
      return;
    }
    c.check(toModel(back.getIndices()) == g.model, "changed",
            std::string(e.wayName(way)) + " turns the set into " +
                ostr(back.getIndices()));
    c.check(back.getTag() == (uint64_t)tag, "attribute-changed",
            std::string(e.wayName(way)) + " changes the other attribute");
    c.check(e.equivalent(op, back), "not-equivalent",
            std::string(e.wayName(way)) + ": the operation read back is not "
                                          "equivalent to the original");
    c.check(e.hash(op) == e.hash(back), "hash",
            std::string(e.wayName(way)) + ": equal operations differ in hash");
  }
  // The same points put together in another way
  auto again = fromModel(g.model);
  auto op2 = e.add<vft::SetOp>(again, (uint64_t)tag);
  c.count("equal sets compared");
  c.check(e.equivalent(op, op2), "equal-sets",
          "operations with equal sets are not equivalent");
  c.check(e.hash(op) == e.hash(op2), "hash",
          "operations with equal sets differ in hash: " + ostr(g.set) + " and " +
              ostr(again));
  MSet less = g.model;
  if (!less.empty()) {
    auto it = less.begin();
    std::advance(it, r.next() % less.size());
    less.erase(it);
    auto op3 = e.add<vft::SetOp>(fromModel(less), (uint64_t)tag);
    c.count("different sets compared");
    c.check(!e.equivalent(op, op3), "different-sets",
            "operations with different sets are equivalent");
  }
  // through the attribute
  auto attr = mlir::modeling::getPropertiesAsAttribute(&e.ctx, op.getIndices());
  mm::IndexSet read;
  auto emit = [&]() { return mlir::emitError(e.loc()); };
  c.check(mlir::succeeded(
              mlir::modeling::setPropertiesFromAttribute(read, attr, emit)) &&
              toModel(read) == g.model,
          "attribute", "the attribute " + ostr(attr) + " is read as " +
                           ostr(read));
  // the clone does not depend on the original
  mlir::OwningOpRef<mlir::Operation *> clone(op->clone());
  op->erase();
  c.check(toModel(mlir::cast<vft::SetOp>(*clone).getIndices()) == g.model,
          "clone", "the clone changes when the original is erased");
  c.nontrivial(vf::hashStr(str(g.model, 100)));
}

VF_STREAM("C28", "lists", 2500, 60000,
          "lists of index sets held by operations: text, generic text, "
          "bytecode, clones, hashes") {
  auto &r = c.rng;
  Env e;
  IndexSetsList l;
  std::vector<MSet> want;
  std::string all;
  for (int n = r.in(0, 5); n > 0; --n) {
    auto g = aSet(r, r.in(1, 3), r.coin());
    l.push_back(g.set);
    want.push_back(g.model);
    all += str(g.model, 40);
  }
  c.note(all);
  auto op = e.inModule<vft::ListOp>(l);
  c.count("operations built");
  for (int way = 0; way < 4; ++way) {
    auto m = e.roundTrip(way);
    c.count("operations read");
    vft::ListOp back;
    if (m)
      m->walk([&](vft::ListOp o) { back = o; });
    if (!back) {
      c.fail("unreadable", std::string(e.wayName(way)) +
                               " cannot be read back" + e.said());
      return;
    }
    std::vector<MSet> got;
    for (auto &s : back.getSets())
      got.push_back(toModel(s));
    c.check(got == want, "changed",
            std::string(e.wayName(way)) + " changes the list");
    c.check(e.equivalent(op, back) && e.hash(op) == e.hash(back),
            "not-equivalent",
            std::string(e.wayName(way)) + ": the operation read back is not "
                                          "equivalent to the original");
  }
  c.nontrivial(vf::hashStr(all) + want.size());
}

// The syntax of index sets, with the sets it stands for.
struct SetText {
  std::vector<std::string> t; // tokens
  size_t i = 0;
  bool bad = false;
  size_t rank = 0;
  std::vector<MSet> sets;
  bool is(const char *k) const { return i < t.size() && t[i] == k; }
  bool eat(const char *k) { return is(k) ? (++i, true) : false; }
  bool want(const char *k) { return eat(k) || ((bad = true), false); }
  std::optional<int64_t> num() {
    bool neg = eat("-");
    if (i >= t.size() || !isdigit(t[i][0]) || t[i].size() > 18) {
      bad = true;
      return std::nullopt;
    }
    int64_t v = std::stoll(t[i++]);
    return neg ? -v : v;
  }
  void set() {
    MSet m;
    rank = 0;
    if (!want("{"))
      return;
    if (!eat("}")) {
      do {
        MBox b;
        if (!want("["))
          return;
        do {
          auto lo = num();
          if (!lo || !want(","))
            return;
          auto hi = num();
          if (!hi || !want("]"))
            return;
          if (*lo > *hi)
            bad = true;
          b.push_back({*lo, *hi + 1});
        } while (eat("["));
        if (rank && rank != b.size())
          bad = true;
        rank = b.size();
        if (bad)
          return;
        m = unite(m, boxPoints(b));
      } while (eat(","));
      if (!want("}"))
        return;
    }
    sets.push_back(m);
  }
  void list() {
    if (!want("["))
      return;
    if (eat("]"))
      return;
    do {
      set();
      if (bad)
        return;
    } while (eat(","));
    want("]");
  }
};

VF_STREAM("C28", "syntax", 6000, 150000,
          "texts of index sets and lists of them with some tokens changed") {
  auto &r = c.rng;
  Env e;
  bool list = r.coin();
  std::vector<std::string> t;
  auto setTokens = [&]() {
    t.push_back("{");
    size_t rank = r.in(1, 3);
    for (int n = r.in(0, 3), k = 0; k < n; ++k) {
      if (k)
        t.push_back(",");
      for (size_t d = 0; d < rank; ++d) {
        int64_t lo = r.in(-4, 4), hi = lo + r.in(0, 3);
        t.push_back("[");
        for (int64_t v : {lo, hi}) {
          if (v < 0)
            t.push_back("-");
          t.push_back(std::to_string(std::abs(v)));
          t.push_back(v == lo && t[t.size() - (v < 0 ? 3 : 2)] == "[" ? "," : "]");
        }
      }
    }
    t.push_back("}");
  };
  if (list) {
    t.push_back("[");
    for (int n = r.in(0, 3), k = 0; k < n; ++k) {
      if (k)
        t.push_back(",");
      setTokens();
    }
    t.push_back("]");
  } else
    setTokens();
  for (int n = r.in(0, 2); n > 0 && !t.empty(); --n) {
    static const std::vector<std::string> any = {"{", "}", "[", "]", ",", "-",
                                                 "0", "3", "7", "x", "[", "]"};
    size_t i = r.next() % t.size();
    switch (r.in(0, 4)) {
    case 0: t.erase(t.begin() + i); break;
    case 1: t.insert(t.begin() + i, r.pick(any)); break;
    case 2: std::swap(t[i], t[r.next() % t.size()]); break;
    case 3: { // a range more
      t.insert(t.begin() + i, {"[", "1", ",", "2", "]"});
      break;
    }
    default: t[i] = r.pick(any);
    }
  }
  SetText ref;
  ref.t = t;
  list ? ref.list() : ref.set();
  if (ref.i != t.size())
    ref.bad = true;
  // what follows an incomplete text must not complete it
  std::string s = list ? "vft.list " : "vft.set ";
  for (size_t k = 0; k < t.size(); ++k) {
    // (neighbouring words would merge)
    bool word = k + 1 < t.size() && isalnum(t[k].back()) && isalnum(t[k + 1][0]);
    s += t[k] + (word || (r.chance(1, 4) && t[k] != "-") ? " " : "");
  }
  s += " {tag = 1 : i64}";
  c.note(s);
  auto m = e.parse(s);
  c.count(m ? "accepted" : "rejected");
  if (!m) {
    c.check(ref.bad, "rejects-well-formed", "rejected" + e.said());
    c.check(!e.errors.empty(), "silent-rejection", "rejected without a message");
  } else {
    c.check(!ref.bad, "accepts-malformed", "accepted: " + ostr(**m));
    if (!ref.bad) {
      std::vector<MSet> got;
      m->walk([&](vft::SetOp o) { got.push_back(toModel(o.getIndices())); });
      m->walk([&](vft::ListOp o) {
        for (auto &x : o.getSets())
          got.push_back(toModel(x));
      });
      c.check(got == ref.sets, "value", "read as " + ostr(**m));
    }
  }
  c.nontrivial(vf::hashStr(s));
}

VF_STREAM("C28", "malformed", 3000, 60000,
          "attributes of wrong kinds and ranges without elements") {
  auto &r = c.rng;
  Env e;
  auto piece = [&](bool &bad, size_t &rank) -> std::string {
    static const char *wrong[] = {"5 : i64", "\"x\"", "[]", "unit",
                                  "#modeling<range [0,1]>", "f64"};
    if (r.chance(1, 8)) {
      bad = true;
      return wrong[r.in(0, 5)];
    }
    std::string s = "#modeling<multidim_range ";
    size_t k = rank && r.chance(5, 6) ? rank : r.in(1, 3);
    if (rank && rank != k)
      bad = true;
    rank = k;
    for (; k > 0; --k) {
      int64_t lo = r.in(-3, 3), hi = lo + r.in(0, 3);
      if (r.chance(1, 15))
        hi = lo - r.in(1, 3), bad = true;
      s += "[" + std::to_string(lo) + "," + std::to_string(hi) + "]";
    }
    return s + ">";
  };
  auto set = [&](bool &bad) {
    size_t rank = 0;
    if (r.chance(1, 12)) {
      bad = true;
      return std::string(r.coin() ? "3 : i64" : "\"y\"");
    }
    std::string s = "[";
    for (int n = r.in(0, 3), k = 0; k < n; ++k)
      s += (k ? ", " : "") + piece(bad, rank);
    return s + "]";
  };
  bool bad = false;
  std::string s;
  switch (r.in(0, 2)) {
  case 0:
    s = "\"vft.set\"() <{indices = " + set(bad) + ", tag = 1 : i64}> : () -> ()";
    break;
  case 1: {
    s = "\"vft.list\"() <{sets = [";
    for (int n = r.in(0, 3), k = 0; k < n; ++k)
      s += (k ? ", " : "") + set(bad);
    s += "]}> : () -> ()";
    break;
  }
  default: {
    size_t rank = 0;
    s = piece(bad, rank);
    while (s[0] != '#' || s.find("multidim") == std::string::npos)
      bad = false, rank = 0, s = piece(bad, rank);
    int64_t lo = r.in(-3, 3), hi = lo + r.in(0, 2);
    if (r.chance(1, 5))
      hi = lo - r.in(1, 3), bad = true;
    s = "vft.box " + s + ", #modeling<range [" + std::to_string(lo) + "," +
        std::to_string(hi) + "]>";
    // (the attribute's own syntax, without the dialect prefix)
    auto cut = [&](const char *from) {
      size_t p = s.find(from);
      size_t q = s.find('>', p);
      s = s.substr(0, p) + s.substr(p + strlen(from), q - p - strlen(from)) +
          s.substr(q + 1);
    };
    cut("#modeling<multidim_range ");
    cut("#modeling<range ");
  }
  }
  c.note(s);
  auto m = e.parse(s);
  c.count(m ? "accepted" : "rejected");
  c.check((bool)m == !bad, bad ? "accepts-malformed" : "rejects-well-formed",
          m ? "accepted: " + ostr(**m) : "rejected" + e.said());
  if (!m)
    c.check(!e.errors.empty(), "silent-rejection", "rejected without a message");
  c.nontrivial(vf::hashStr(s));
}
