// C16: index reduction.
#include "syslib.h"
#include "marco/Modeling/Pantelides.h"

namespace {
// A variable, or the derivative of some order of it.
struct PNode {
  int base, order;
  uint64_t id;
  std::shared_ptr<mm::IndexSet> set;
};
using PVar = const PNode *;
struct PAcc {
  int var, order;
  Fn fn;
};
struct PEqNode {
  int base, order;
  uint64_t id;
  size_t rank;
  std::shared_ptr<mm::IndexSet> set;
  std::vector<PAcc> acc; // of the original equation
};
using PEq = const PEqNode *;
} // namespace
static uint64_t vid(int base, int order) { return 1000 + base * 100 + order; }
namespace marco::modeling::matching {
template <>
struct VariableTraits<PVar> {
  using Id = uint64_t;
  static Id getId(const PVar *v) { return (*v)->id; }
  static size_t getRank(const PVar *v) { return (*v)->set->rank(); }
  static IndexSet getIndices(const PVar *v) { return *(*v)->set; }
  static llvm::raw_ostream &dump(const PVar *v, llvm::raw_ostream &os) {
    return os << (*v)->id;
  }
};
template <>
struct EquationTraits<PEq> {
  using Id = uint64_t;
  static Id getId(const PEq *e) { return (*e)->id; }
  static size_t getNumOfIterationVars(const PEq *e) { return (*e)->rank; }
  static IndexSet getIndices(const PEq *e) { return *(*e)->set; }
  using VariableType = PVar;
  static std::vector<Access<uint64_t>> getAccesses(const PEq *e) {
    std::vector<Access<uint64_t>> r;
    // The derivative of an expression involves what the expression involves,
    // and the derivatives of it.
    for (auto &a : (*e)->acc)
      for (int k = 0; k <= (*e)->order; ++k)
        r.emplace_back(vid(a.var, a.order + k), toAF(a.fn));
    return r;
  }
  static llvm::raw_ostream &dump(const PEq *e, llvm::raw_ostream &os) {
    return os << (*e)->id;
  }
};
} // namespace marco::modeling::matching
using PG = mm::internal::pantelides::PantelidesGraph<PVar, PEq>;

// Reference: the canonical offsets of the signature matrix. sigma[i][j] is the
// highest order of derivative of variable j in equation i, or -1.
struct Offsets {
  std::vector<int> c, d;
  bool ok = true;
};
static Offsets offsets(const std::vector<std::vector<int>> &sigma) {
  size_t n = sigma.size();
  Offsets r;
  // Highest-value transversal, by the Hungarian method over costs -sigma.
  const long INF = 1000000;
  std::vector<long> u(n + 1), v(n + 1);
  std::vector<int> p(n + 1), way(n + 1);
  auto cost = [&](int i, int j) -> long {
    int s = sigma[i - 1][j - 1];
    return s < 0 ? 10000 : -s;
  };
  for (size_t i = 1; i <= n; ++i) {
    p[0] = i;
    size_t j0 = 0;
    std::vector<long> minv(n + 1, INF);
    std::vector<char> used(n + 1);
    do {
      used[j0] = 1;
      int i0 = p[j0];
      long delta = INF;
      size_t j1 = 0;
      for (size_t j = 1; j <= n; ++j)
        if (!used[j]) {
          long cur = cost(i0, j) - u[i0] - v[j];
          if (cur < minv[j]) {
            minv[j] = cur;
            way[j] = j0;
          }
          if (minv[j] < delta) {
            delta = minv[j];
            j1 = j;
          }
        }
      for (size_t j = 0; j <= n; ++j)
        if (used[j]) {
          u[p[j]] += delta;
          v[j] -= delta;
        } else
          minv[j] -= delta;
      j0 = j1;
    } while (p[j0] != 0);
    do {
      size_t j1 = way[j0];
      p[j0] = p[j1];
      j0 = j1;
    } while (j0);
  }
  std::vector<int> t(n);
  for (size_t j = 1; j <= n; ++j) {
    t[p[j] - 1] = j - 1;
    if (sigma[p[j] - 1][j - 1] < 0)
      r.ok = false;
  }
  if (!r.ok)
    return r;
  r.c.assign(n, 0);
  for (bool changed = true; changed;) {
    changed = false;
    r.d.assign(n, 0);
    for (size_t j = 0; j < n; ++j)
      for (size_t i = 0; i < n; ++i)
        if (sigma[i][j] >= 0)
          r.d[j] = std::max(r.d[j], sigma[i][j] + r.c[i]);
    for (size_t i = 0; i < n; ++i) {
      int x = r.d[t[i]] - sigma[i][t[i]];
      if (x != r.c[i]) {
        r.c[i] = x;
        changed = true;
      }
    }
  }
  return r;
}

struct PSys {
  std::vector<MSet> vars;
  std::vector<MSet> eqs;
  std::vector<std::vector<PAcc>> acc;
};
struct Outcome {
  bool ok;
  std::map<Scal, int> eqOrder, varOrder; // (base, point)
  bool twice = false; // the same derivative requested more than once
  size_t created = 0;
};
static Outcome reduce(vf::Rng &r, const PSys &s) {
  std::vector<std::unique_ptr<PNode>> vs;
  std::vector<std::unique_ptr<PEqNode>> es;
  std::map<std::pair<int, int>, PVar> vmap;
  std::map<std::pair<int, int>, PEqNode *> emap;
  Outcome o;
  auto addVar = [&](int b, int k) {
    vs.push_back(std::make_unique<PNode>());
    *vs.back() = {b, k, vid(b, k),
                  std::make_shared<mm::IndexSet>(toSet(r, s.vars[b]))};
    return vmap[{b, k}] = vs.back().get();
  };
  PG g(
      ctx(),
      [&](const PVar &v, const mm::IndexSet &i) -> PVar {
        ++o.created;
        for (auto &p : toModel(i)) {
          int &x = o.varOrder[{(uint64_t)v->base, p}];
          o.twice |= x > v->order;
          x = std::max(x, v->order + 1);
        }
        auto it = vmap.find({v->base, v->order + 1});
        return it != vmap.end() ? it->second : addVar(v->base, v->order + 1);
      },
      [&](const PEq &e, const mm::IndexSet &i) -> PEq {
        ++o.created;
        for (auto &p : toModel(i)) {
          int &x = o.eqOrder[{(uint64_t)e->base, p}];
          o.twice |= x > e->order;
          x = std::max(x, e->order + 1);
        }
        auto &slot = emap[{e->base, e->order + 1}];
        if (slot) {
          slot->set = std::make_shared<mm::IndexSet>(*slot->set + i);
          return slot;
        }
        es.push_back(std::make_unique<PEqNode>(*e));
        slot = es.back().get();
        slot->order = e->order + 1;
        slot->id = e->id + 1;
        slot->set = std::make_shared<mm::IndexSet>(i);
        return slot;
      });
  std::vector<int> top(s.vars.size());
  for (auto &l : s.acc)
    for (auto &a : l)
      top[a.var] = std::max(top[a.var], a.order);
  for (size_t b = 0; b < s.vars.size(); ++b)
    for (int k = 0; k <= top[b]; ++k)
      g.addVariable(addVar(b, k));
  // The elements of which a derivative appears in the equations.
  std::map<Scal, int> order;
  for (size_t i = 0; i < s.eqs.size(); ++i)
    for (auto &p : s.eqs[i])
      for (auto &a : s.acc[i])
        for (auto &q : image(a.fn, p)) {
          int &x = order[{(uint64_t)a.var, q}];
          x = std::max(x, a.order);
        }
  o.varOrder = order;
  for (size_t b = 0; b < s.vars.size(); ++b)
    for (int k = 0; k < top[b]; ++k) {
      MSet derived;
      for (auto &p : s.vars[b])
        if (order[{b, p}] > k)
          derived.insert(p);
      g.addVariableDerivative(vid(b, k), vid(b, k + 1), toSet(r, derived));
    }
  for (size_t b = 0; b < s.eqs.size(); ++b) {
    es.push_back(std::make_unique<PEqNode>());
    *es.back() = {(int)b,
                  0,
                  500000 + b * 100,
                  s.eqs[b].begin()->size(),
                  std::make_shared<mm::IndexSet>(toSet(r, s.eqs[b])),
                  s.acc[b]};
    emap[{b, 0}] = es.back().get();
    g.addEquation(es.back().get());
  }
  o.ok = g.run();
  return o;
}

static void judgeReduction(vf::Case &c, const PSys &s) {
  for (size_t i = 0; i < s.vars.size(); ++i)
    c.note("var ", i, " ", strAll(s.vars[i]));
  for (size_t i = 0; i < s.eqs.size(); ++i) {
    c.note("eq ", i, " ", strAll(s.eqs[i]));
    for (auto &a : s.acc[i])
      c.note("   var ", a.var, " derived ", a.order, " times ", str(a.fn));
  }
  // Scalar system.
  std::map<Scal, int> vpos, epos;
  std::vector<Scal> vl, el;
  for (size_t i = 0; i < s.vars.size(); ++i)
    for (auto &p : s.vars[i]) {
      vpos[{i, p}] = vl.size();
      vl.push_back({i, p});
    }
  for (size_t i = 0; i < s.eqs.size(); ++i)
    for (auto &p : s.eqs[i]) {
      epos[{i, p}] = el.size();
      el.push_back({i, p});
    }
  size_t n = vl.size();
  if (el.size() != n)
    abort();
  std::vector<std::vector<int>> sigma(n, std::vector<int>(n, -1));
  for (size_t i = 0; i < s.eqs.size(); ++i)
    for (auto &p : s.eqs[i])
      for (auto &a : s.acc[i])
        for (auto &q : image(a.fn, p)) {
          int &x = sigma[epos[{i, p}]][vpos.at({a.var, q})];
          x = std::max(x, a.order);
        }
  Offsets ref = offsets(sigma);
  if (!ref.ok)
    abort();
  int index = 0;
  std::string t;
  for (int x : ref.c) {
    index = std::max(index, x);
    t += " " + std::to_string(x);
  }
  c.note("expected differentiations:", t);
  c.count("index-reductions-of-order-" + std::to_string(std::min(index, 5)));
  if (index > 0)
    c.nontrivial();
  Outcome o = reduce(c.rng, s);
  c.check(o.ok, "failed", "the reduction failed on a non-singular system");
  c.count("derivatives-created", o.created);
  for (size_t i = 0; i < n; ++i)
    c.check(o.eqOrder[el[i]] == ref.c[i],
            o.eqOrder[el[i]] < ref.c[i] ? "too-few" : "too-many",
            "equation " + str(el[i]) + " differentiated " +
                std::to_string(o.eqOrder[el[i]]) + " times, expected " +
                std::to_string(ref.c[i]));
  c.check(!o.twice, "twice", "the same derivative has been requested twice");
  // Every variable has the derivatives needed to compute its leading one.
  for (size_t j = 0; j < n; ++j)
    c.check(o.varOrder[vl[j]] == ref.d[j], "var-order",
            "variable " + str(vl[j]) + " differentiated up to order " +
                std::to_string(o.varOrder[vl[j]]) + ", expected " +
                std::to_string(ref.d[j]));
}
VF_STREAM("C16", "scalar", 6000, 150000, "some equation must be differentiated") {
  auto &r = c.rng;
  int n = r.in(1, c.thorough ? 9 : 6);
  PSys s;
  s.vars.assign(n, MSet{{0}});
  s.eqs.assign(n, MSet{{0}});
  s.acc.resize(n);
  std::vector<int> perm(n);
  for (int i = 0; i < n; ++i)
    perm[i] = i;
  r.shuffle(perm);
  auto at0 = [] { return Fn{1, {ex(Ex::Const, 0)}}; };
  int maxOrder = r.in(0, 2);
  for (int i = 0; i < n; ++i) {
    s.acc[i].push_back({perm[i], r.in(0, 1) ? 0 : (int)r.in(0, maxOrder), at0()});
    int k = r.in(0, 2);
    for (int x = 0; x < k; ++x)
      s.acc[i].push_back(
          {(int)r.in(0, n - 1), (int)r.in(0, maxOrder), at0()});
    r.shuffle(s.acc[i]);
  }
  judgeReduction(c, s);
}
static PSys arraySys(vf::Case &c, bool uniform) {
  auto &r = c.rng;
  SysGen g(r);
  g.maxRank = 2;
  g.side = 3;
  g.maxPts = uniform ? 6 : 8;
  g.maxLevel = 1;
  int nv = r.in(1, 4);
  for (int i = 0; i < nv; ++i)
    g.addVar();
  auto vars = g.s.vars;
  PSys s;
  std::map<uint64_t, int> pos;
  for (auto &v : vars) {
    pos[v.id] = s.vars.size();
    s.vars.push_back(v.idx);
    if (uniform)
      g.addPaired(v, v.idx);
    else
      for (auto &part : g.cut(v.idx))
        g.addPaired(v, part);
  }
  r.shuffle(g.s.eqs);
  int maxOrder = r.in(0, 2);
  std::vector<int> top(nv);
  for (auto &e : g.s.eqs) {
    s.eqs.push_back(e.idx);
    s.acc.emplace_back();
    int b = pos[e.acc[0].var];
    s.acc.back().push_back({b, r.coin() ? 0 : (int)r.in(0, maxOrder), e.acc[0].fn});
    int k = r.in(0, 2);
    for (int x = 0; x < k; ++x) {
      const SVar &v = r.pick(vars);
      s.acc.back().push_back({pos[v.id], (int)r.in(0, maxOrder),
                              g.access(e.idx, v.idx, r.in(0, uniform ? 1 : 2))});
    }
    r.shuffle(s.acc.back());
  }
  return s;
}
VF_STREAM("C16", "arrays", 4000, 150000, "some equation must be differentiated") {
  judgeReduction(c, arraySys(c, true));
}
VF_STREAM("C16", "cut-arrays", 4000, 150000, "some equation must be differentiated") {
  judgeReduction(c, arraySys(c, false));
}
// Several copies of a small system, held as the elements of arrays. Some of the
// equations are written for all the copies at once, others one by one and with
// different terms: the former are differentiated in many steps.
VF_STREAM("C16", "bundles", 5000, 150000, "some equation must be differentiated") {
  auto &r = c.rng;
  int n = r.in(2, 5), m = r.in(2, 5), maxOrder = r.in(1, 2);
  PSys s;
  MSet all;
  for (int i = 0; i < m; ++i)
    all.insert({i});
  s.vars.assign(n, all);
  std::vector<int> perm(n);
  for (int i = 0; i < n; ++i)
    perm[i] = i;
  r.shuffle(perm);
  auto same = [] { return Fn{1, {ex(Ex::Dim, 0)}}; };
  auto add = [&](MSet idx, int b, int order, int extras) {
    s.eqs.push_back(idx);
    s.acc.emplace_back();
    s.acc.back().push_back({b, order, same()});
    for (int x = 0; x < extras; ++x)
      s.acc.back().push_back(
          {(int)r.in(0, n - 1), (int)r.in(0, maxOrder),
           r.chance(1, 8) ? Fn{1, {ex(Ex::Const, r.in(0, m - 1))}} : same()});
    r.shuffle(s.acc.back());
  };
  // A chain of derivatives with the first variables imposed: the equations of
  // the chain are differentiated more than once.
  bool chain = r.chance(1, 3);
  if (chain)
    for (int i = 0; i + 1 < n; ++i) {
      add(all, perm[i + 1], 0, r.chance(1, 5));
      s.acc.back().push_back({perm[i], (int)r.in(1, maxOrder), same()});
    }
  for (int b : perm) {
    if (chain && b != perm[0])
      continue;
    int order = r.coin() || chain ? 0 : r.in(0, maxOrder);
    if (r.chance(1, chain ? 6 : 2)) {
      add(all, b, order, r.in(0, 2));
      continue;
    }
    // One by one, or in two parts.
    MSet rest = all;
    while (!rest.empty()) {
      MSet part;
      for (auto &p : rest)
        if (part.empty() || r.chance(1, 4))
          part.insert(p);
      rest = minusS(rest, part);
      add(part, b, r.chance(1, chain ? 8 : 3) ? (int)r.in(0, maxOrder) : order,
          chain ? r.chance(1, 5) : r.in(0, 2));
    }
  }
  // Mixed up, so that the parts of an array are not reached in a row.
  std::vector<size_t> o(s.eqs.size());
  for (size_t i = 0; i < o.size(); ++i)
    o[i] = i;
  r.shuffle(o);
  PSys t;
  t.vars = s.vars;
  for (size_t i : o) {
    t.eqs.push_back(s.eqs[i]);
    t.acc.push_back(s.acc[i]);
  }
  judgeReduction(c, t);
}
