// C06: the incidence matrix against a boolean matrix.
// C07: local matching solutions.
#include "accutil.h"
#include "marco/Modeling/LocalMatchingSolutions.h"
#include "marco/Modeling/MCIM.h"
using mm::internal::MCIM;
using vf::Case;

using Cell = std::pair<P, P>;
using Mat = std::set<Cell>;

struct Model {
  MSet E, V;
  Mat m;
};
static std::string str(const Mat &m, size_t lim = 12) {
  std::string s = "{";
  size_t n = 0;
  for (auto &c : m) {
    if (n++ == lim) {
      s += "...";
      break;
    }
    s += str(c.first) + "->" + str(c.second) + " ";
  }
  return s + "}#" + std::to_string(m.size());
}
static Mat read(const MCIM &x, const MSet &E, const MSet &V) {
  Mat r;
  for (auto &e : E)
    for (auto &v : V)
      if (x.get(toPoint(e), toPoint(v)))
        r.insert({e, v});
  return r;
}
static MSet rowsOf(const Mat &m) {
  MSet r;
  for (auto &c : m)
    r.insert(c.first);
  return r;
}
static MSet colsOf(const Mat &m) {
  MSet r;
  for (auto &c : m)
    r.insert(c.second);
  return r;
}
static Mat applied(const Fn &f, const MSet &eqs, const MSet &V) {
  Mat r;
  for (auto &e : eqs)
    for (auto &v : image(f, e))
      if (V.count(v))
        r.insert({e, v});
  return r;
}
// A structural observation of the whole matrix.
static bool compare(Case &c, const MCIM &x, const Model &m,
                    const std::string &what) {
  if (!c.check(toModel(x.getEquationSpace()) == m.E &&
                   toModel(x.getVariableSpace()) == m.V,
               "spaces", what + ": the spaces changed"))
    return false;
  Mat got = read(x, m.E, m.V);
  c.count("matrix-compared");
  c.count("cells-compared", m.E.size() * m.V.size());
  if (got != m.m) {
    Mat extra, miss;
    for (auto &k : got)
      if (!m.m.count(k))
        extra.insert(k);
    for (auto &k : m.m)
      if (!got.count(k))
        miss.insert(k);
    c.fail(what + (miss.empty() ? "-extra" : extra.empty() ? "-missing" : "-wrong"),
           "after " + what + ": extra " + str(extra) + " missing " + str(miss));
    return false;
  }
  MSet rows = toModel(x.flattenRows());
  if (!c.check(rows == colsOf(m.m), "flatten-rows",
               "after " + what + ": flattenRows " + str(rows) + " expected " +
                   str(colsOf(m.m))))
    return false;
  MSet cols = toModel(x.flattenColumns());
  if (!c.check(cols == rowsOf(m.m), "flatten-columns",
               "after " + what + ": flattenColumns " + str(cols) +
                   " expected " + str(rowsOf(m.m))))
    return false;
  return c.check(x.empty() == m.m.empty(), "emptiness",
                 "after " + what + ": empty() is " +
                     std::to_string(x.empty()));
}

static Dom dom(vf::Rng &r, unsigned rank, int64_t ext) {
  Dom d{rank, {}};
  for (unsigned i = 0; i < rank; ++i) {
    int64_t a = r.in(-1, 2);
    d.lim.push_back({a, a + r.in(1, rank == 1 ? ext + 3 : rank == 2 ? ext : 2)});
  }
  return d;
}
static MSet fullOr(vf::Rng &r, const Dom &d, size_t lim) {
  if (r.coin()) {
    MBox b;
    for (auto &l : d.lim)
      b.emplace_back(l.first, l.second);
    return boxPoints(b);
  }
  return genSet(r, d, 3, lim);
}
static MSet sub(vf::Rng &r, const MSet &m) {
  MSet s;
  unsigned mode = r.in(0, 3);
  for (auto &p : m)
    if (mode == 0 || r.chance(1, mode + 1))
      s.insert(p);
  if (s.empty() && !m.empty()) {
    auto it = m.begin();
    std::advance(it, r.in(0, m.size() - 1));
    s.insert(*it);
  }
  return s;
}
static const P &anyOf(vf::Rng &r, const MSet &m) {
  auto it = m.begin();
  std::advance(it, r.in(0, m.size() - 1));
  return *it;
}

struct Setup {
  Model m;
  FnGen g;
  unsigned er, vr;
  int level;
  std::vector<Fn> fns;
  std::shared_ptr<const mm::IndexSet> es, vs;
  Setup(Case &c, int level) : g(c.rng), level(level) {
    auto &r = c.rng;
    er = r.in(1, 3);
    vr = r.in(1, 3);
    g.lo = -2;
    g.hi = 3;
    m.E = fullOr(r, dom(r, er, 4), 24);
    m.V = fullOr(r, dom(r, vr, 4), 24);
    es = std::make_shared<const mm::IndexSet>(toSet(r, m.E));
    vs = std::make_shared<const mm::IndexSet>(toSet(r, m.V));
    c.note("E=", str(m.E, 40), " V=", str(m.V, 40));
    int n = r.in(1, 3);
    for (int i = 0; i < n; ++i)
      fns.push_back(fn(c));
  }
  // Prefer functions that reach the variables.
  Fn fn(Case &c) {
    Fn best;
    size_t score = 0;
    for (int i = 0; i < 6; ++i) {
      Fn f = g.fn(er, vr, level);
      size_t s = 1 + applied(f, m.E, m.V).size();
      if (s > score) {
        score = s;
        best = f;
      }
    }
    c.note("function ", str(best));
    return best;
  }
};

static void history(Case &c, int level, bool multi) {
  auto &r = c.rng;
  Setup s(c, level);
  Model m = s.m;
  MCIM x(s.es, s.vs);
  // A second matrix, used as operand.
  Model n = s.m;
  MCIM y(s.es, s.vs);
  int steps = r.in(3, c.thorough ? 14 : 9);
  bool worked = false;
  for (int i = 0; i < steps && !c.failed(); ++i) {
    bool second = r.chance(1, 3);
    Model &M = second ? n : m;
    MCIM &X = second ? y : x;
    std::string name = second ? "y" : "x";
    switch (multi ? r.in(0, 4) : r.in(0, 14)) {
    case 0:
    case 1:
    case 2: {
      const Fn &f = r.pick(s.fns);
      MSet eqs = sub(r, M.E);
      auto af = toAF(f);
      if (r.chance(1, 4)) {
        eqs = M.E;
        c.note(name, ".apply(", str(f), ")");
        X.apply(*af);
      } else {
        c.note(name, ".apply(", str(eqs, 30), ", ", str(f), ")");
        X.apply(toSet(r, eqs), *af);
      }
      for (auto &k : applied(f, eqs, M.V))
        M.m.insert(k);
      compare(c, X, M, "apply");
      break;
    }
    case 3:
    case 5:
    case 6: {
      P e = anyOf(r, M.E), v = anyOf(r, M.V);
      c.note(name, ".set(", str(e), ", ", str(v), ")");
      X.set(toPoint(e), toPoint(v));
      M.m.insert({e, v});
      compare(c, X, M, "set");
      break;
    }
    case 4: {
      c.note("x += y");
      if (r.coin())
        x += y;
      else
        x = x + y;
      m.m.insert(n.m.begin(), n.m.end());
      compare(c, x, m, "add");
      compare(c, y, n, "add-operand");
      break;
    }
    case 7:
    case 8: {
      P e = anyOf(r, M.E), v = anyOf(r, M.V);
      if (!M.m.empty() && r.chance(2, 3)) {
        auto it = M.m.begin();
        std::advance(it, r.in(0, M.m.size() - 1));
        e = it->first;
        v = it->second;
      }
      c.note(name, ".unset(", str(e), ", ", str(v), ")");
      X.unset(toPoint(e), toPoint(v));
      M.m.erase({e, v});
      compare(c, X, M, "unset");
      break;
    }
    case 9: {
      c.note("x -= y");
      if (r.coin())
        x -= y;
      else
        x = x - y;
      for (auto &k : n.m)
        m.m.erase(k);
      compare(c, x, m, "subtract");
      compare(c, y, n, "subtract-operand");
      break;
    }
    case 10: {
      MSet f = sub(r, M.E);
      if (r.chance(1, 3))
        f = unite(f, genSet(r, dom(r, s.er, 3), 1, 6));
      c.note(name, ".filterRows(", str(f, 30), ")");
      MCIM z = X.filterRows(toSet(r, f));
      Model w = M;
      w.m.clear();
      for (auto &k : M.m)
        if (f.count(k.first))
          w.m.insert(k);
      compare(c, z, w, "filter-rows");
      compare(c, X, M, "filter-rows-operand");
      if (r.coin()) {
        X = z;
        M = w;
      }
      break;
    }
    case 11: {
      MSet f = sub(r, M.V);
      if (r.chance(1, 3))
        f = unite(f, genSet(r, dom(r, s.vr, 3), 1, 6));
      c.note(name, ".filterColumns(", str(f, 30), ")");
      MCIM z = X.filterColumns(toSet(r, f));
      Model w = M;
      w.m.clear();
      for (auto &k : M.m)
        if (f.count(k.second))
          w.m.insert(k);
      compare(c, z, w, "filter-columns");
      compare(c, X, M, "filter-columns-operand");
      if (r.coin()) {
        X = z;
        M = w;
      }
      break;
    }
    case 12: {
      // The whole pair moves to smaller spaces.
      MSet e = r.coin() ? sub(r, M.E) : M.E, v = r.coin() ? sub(r, M.V) : M.V;
      auto pe = std::make_shared<const mm::IndexSet>(toSet(r, e));
      auto pv = std::make_shared<const mm::IndexSet>(toSet(r, v));
      auto restrict = [&](Model &k) {
        Model w{e, v, {}};
        for (auto &q : k.m)
          if (e.count(q.first) && v.count(q.second))
            w.m.insert(q);
        return w;
      };
      Model wm = restrict(m), wn = restrict(n);
      unsigned how = r.in(0, 2);
      c.note("restricted to E=", str(e, 30), " V=", str(v, 30), " how=", how);
      if (how == 0) {
        x = x.withSpace(pe, pv);
        y = y.withSpace(pe, pv);
      } else if (how == 1) {
        x.setEquationSpace(pe);
        y.setEquationSpace(pe);
        x.setVariableSpace(pv);
        y.setVariableSpace(pv);
      } else {
        x.setVariableSpace(pv);
        y.setVariableSpace(pv);
        x.setEquationSpace(pe);
        y.setEquationSpace(pe);
      }
      m = wm;
      n = wn;
      const char *names[] = {"with-space", "set-spaces", "set-spaces"};
      compare(c, x, m, names[how]);
      if (!c.failed())
        compare(c, y, n, names[how]);
      break;
    }
    case 13: {
      c.note("copy and move ", name);
      MCIM z(X);
      MCIM w(s.es, s.vs);
      w = z;
      MCIM k(std::move(z));
      compare(c, k, M, "copy-move");
      compare(c, w, M, "copy-assign");
      compare(c, X, M, "copy-operand");
      using std::swap;
      if (m.E == s.m.E && m.V == s.m.V && r.coin()) {
        swap(x, y);
        swap(m, n);
        compare(c, x, m, "swap");
        compare(c, y, n, "swap");
      }
      break;
    }
    default: {
      if (r.chance(1, 3)) {
        c.note(name, ".clear()");
        X.clear();
        M.m.clear();
        compare(c, X, M, "clear");
      }
      break;
    }
    }
    worked |= !m.m.empty();
    if (!c.failed() && m.E == n.E && m.V == n.V) {
      bool eq = x == y;
      c.check(eq == (m.m == n.m), "equality",
              "operator== is " + std::to_string(eq) + " for " + str(m.m) +
                  " and " + str(n.m));
      c.check((x != y) == !eq, "inequality", "operator!= disagrees");
      c.count("equality");
    }
  }
  // Iteration visits each cell of the matrix once.
  if (!c.failed()) {
    std::multiset<Cell> seen;
    for (auto it = x.indicesBegin(), e = x.indicesEnd(); it != e; ++it)
      seen.insert({toP((*it).first), toP((*it).second)});
    bool ok = seen.size() == m.E.size() * m.V.size();
    for (auto &e : m.E)
      for (auto &v : m.V)
        ok &= seen.count({e, v}) == 1;
    c.check(ok, "cells", "the iteration over the cells is wrong");
  }
  if (worked)
    c.nontrivial();
}
VF_STREAM("C06", "points-roto", 3000, 40000,
          "histories of apply/set/unset/add/subtract/filter/restrict on two "
          "matrices with rototranslations; every cell compared after each step") {
  history(c, 1, false);
}
VF_STREAM("C06", "affine", 2000, 25000, "the same with affine accesses") {
  history(c, 2, false);
}
VF_STREAM("C06", "multi", 1000, 15000,
          "the same with multivalued accesses") {
  history(c, 3, false);
}

//===--------------------------------------------------------------------===//
// C07
static void checkSolutions(Case &c, mm::internal::LocalMatchingSolutions &sols,
                           const MSet &E, const MSet &V, const Mat &all) {
  size_t n = sols.size();
  Mat covered;
  size_t k = 0;
  auto one = [&](MCIM &s, size_t i) {
    ++k;
    Mat m = read(s, E, V);
    c.count("solutions");
    std::map<P, int> re, rv;
    for (auto &q : m) {
      c.check(all.count(q), "not-in-matrix",
              "solution " + std::to_string(i) + " selects " + str(q.first) +
                  "->" + str(q.second) + " which the matrix does not have");
      c.check(++re[q.first] == 1, "equation-twice",
              "solution " + std::to_string(i) + " uses equation " +
                  str(q.first) + " twice");
      c.check(++rv[q.second] == 1, "variable-twice",
              "solution " + std::to_string(i) + " uses variable " +
                  str(q.second) + " twice");
    }
    covered.insert(m.begin(), m.end());
  };
  if (c.rng.coin()) {
    for (MCIM &s : sols) {
      one(s, k);
      if (c.failed())
        return;
    }
  } else {
    std::vector<size_t> order;
    for (size_t i = 0; i < n; ++i)
      order.push_back(i);
    if (c.rng.coin())
      c.rng.shuffle(order);
    for (size_t i : order) {
      one(sols[i], i);
      if (c.failed())
        return;
    }
  }
  c.check(k == n, "size", "announced " + std::to_string(n) + " solutions, got " +
                              std::to_string(k));
  if (covered != all) {
    Mat miss;
    for (auto &q : all)
      if (!covered.count(q))
        miss.insert(q);
    c.fail("not-covered", "the solutions do not cover " + str(miss));
  }
}

static void vaf(Case &c, int level) {
  auto &r = c.rng;
  FnGen g(r);
  g.lo = -2;
  g.hi = 3;
  unsigned er = r.in(1, 3), vr = r.in(1, 3);
  MSet E = fullOr(r, dom(r, er, 4), 20);
  c.note("E=", str(E, 40));
  std::vector<Fn> fns;
  int n = r.in(1, 3);
  MSet V;
  Mat all;
  llvm::SmallVector<std::unique_ptr<mm::AccessFunction>> afs;
  for (int i = 0; i < n; ++i) {
    Fn f = g.fn(er, vr, level);
    c.note("function ", str(f));
    for (auto &e : E)
      for (auto &v : image(f, e)) {
        V.insert(v);
        all.insert({e, v});
      }
    afs.push_back(toAF(f));
  }
  // More variables than the ones accessed.
  if (r.coin())
    for (int i = 0; i < 3; ++i) {
      P p = anyOf(r, V);
      p[r.in(0, vr - 1)] += r.in(-1, 1);
      V.insert(p);
    }
  if (V.size() > 60)
    return;
  auto sols = mm::internal::solveLocalMatchingProblem(
      toSet(r, E), toSet(r, V),
      llvm::ArrayRef<std::unique_ptr<mm::AccessFunction>>(afs));
  checkSolutions(c, sols, E, V, all);
  c.nontrivial();
}
VF_STREAM("C07", "vaf-roto", 2500, 30000,
          "solutions for 1-3 rototranslation accesses over random spaces") {
  vaf(c, 1);
}
VF_STREAM("C07", "vaf-affine", 1500, 20000, "with affine accesses") {
  vaf(c, 2);
}
VF_STREAM("C07", "vaf-multi", 1500, 20000, "with multivalued accesses") {
  vaf(c, 3);
}
static void fromMatrix(Case &c, int level) {
  auto &r = c.rng;
  Setup s(c, level);
  Model m = s.m;
  MCIM x(s.es, s.vs);
  int steps = r.in(1, 5);
  for (int i = 0; i < steps; ++i) {
    if (r.chance(2, 3)) {
      const Fn &f = r.pick(s.fns);
      MSet eqs = sub(r, m.E);
      c.note("apply(", str(eqs, 30), ", ", str(f), ")");
      x.apply(toSet(r, eqs), *toAF(f));
      for (auto &k : applied(f, eqs, m.V))
        m.m.insert(k);
    } else {
      P e = anyOf(r, m.E), v = anyOf(r, m.V);
      c.note("set(", str(e), ", ", str(v), ")");
      x.set(toPoint(e), toPoint(v));
      m.m.insert({e, v});
    }
  }
  if (read(x, m.E, m.V) != m.m)
    return; // reported by C06
  auto sols = mm::internal::solveLocalMatchingProblem(x);
  checkSolutions(c, sols, m.E, m.V, m.m);
  if (!m.m.empty())
    c.nontrivial();
}
VF_STREAM("C07", "matrix-roto", 2000, 25000,
          "solutions for incidence matrices filled by accesses and points") {
  fromMatrix(c, 1);
}
VF_STREAM("C07", "matrix-affine", 1200, 15000, "with affine accesses") {
  fromMatrix(c, 2);
}
VF_STREAM("C07", "matrix-multi", 1000, 15000, "with multivalued accesses") {
  fromMatrix(c, 3);
}
