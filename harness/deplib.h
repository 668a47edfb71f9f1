// Matched systems: equations with declared writes and reads, and the scalar
// dependencies they imply.
#ifndef DEPLIB_H
#define DEPLIB_H
#include "syslib.h"
#include "marco/Modeling/ArrayEquationsDependencyGraph.h"
#include "marco/Modeling/ArrayVariablesDependencyGraph.h"
#include "marco/Modeling/DependencyGraph.h"
#include "marco/Modeling/SCCsDependencyGraph.h"
#include "marco/Modeling/ScalarEquationsDependencyGraph.h"
#include "marco/Modeling/Scheduling.h"

struct DEq {
  uint64_t id = 0;
  MSet idx;
  std::shared_ptr<mm::IndexSet> set;
  std::vector<SAcc> writes, reads;
  size_t rank() const { return idx.begin()->size(); }
};
struct DSys {
  std::vector<SVar> vars;
  std::vector<std::unique_ptr<DEq>> eqs;
  const DEq &eq(uint64_t id) const {
    for (auto &e : eqs)
      if (e->id == id)
        return *e;
    abort();
  }
};
inline void noteDSys(vf::Case &c, const DSys &s) {
  for (auto &v : s.vars)
    c.note("var ", v.id, " ", strAll(v.idx));
  for (auto &e : s.eqs) {
    c.note("eq ", e->id, " ", strAll(e->idx));
    for (auto &a : e->writes)
      c.note("   writes var ", a.var, " ", str(a.fn));
    for (auto &a : e->reads)
      c.note("   reads var ", a.var, " ", str(a.fn));
  }
}
struct DVar {
  uint64_t id = 0;
  uint64_t getId() const { return id; }
};
inline llvm::hash_code hash_value(const DVar &v) { return v.id; }
using DEqP = const DEq *;
struct DAccProp {};
namespace marco::modeling::dependency {
template <>
struct VariableTraits<DVar> {
  using Id = uint64_t;
  static Id getId(const DVar *v) { return v->id; }
};
template <>
struct EquationTraits<DEqP> {
  using Id = uint64_t;
  using VariableType = DVar;
  using AccessProperty = DAccProp;
  static Id getId(const DEqP *e) { return (*e)->id; }
  static size_t getNumOfIterationVars(const DEqP *e) { return (*e)->rank(); }
  static IndexSet getIterationRanges(const DEqP *e) { return *(*e)->set; }
  static std::vector<Access<DVar, DAccProp>> conv(const std::vector<SAcc> &l) {
    std::vector<Access<DVar, DAccProp>> r;
    for (auto &a : l)
      r.emplace_back(DVar{a.var}, toAF(a.fn));
    return r;
  }
  static std::vector<Access<DVar, DAccProp>> getWrites(const DEqP *e) {
    return conv((*e)->writes);
  }
  static std::vector<Access<DVar, DAccProp>> getReads(const DEqP *e) {
    return conv((*e)->reads);
  }
};
} // namespace marco::modeling::dependency

// What the accesses touch.
inline std::set<Scal> touchedBy(const std::vector<SAcc> &l, const P &p) {
  std::set<Scal> r;
  for (auto &a : l)
    for (auto &q : image(a.fn, p))
      r.insert({a.var, q});
  return r;
}
inline std::set<Scal> touchedBy(const std::vector<SAcc> &l, const MSet &m) {
  std::set<Scal> r;
  for (auto &p : m) {
    auto t = touchedBy(l, p);
    r.insert(t.begin(), t.end());
  }
  return r;
}
inline bool meet(const std::set<Scal> &a, const std::set<Scal> &b) {
  if (a.size() > b.size())
    return meet(b, a);
  for (auto &x : a)
    if (b.count(x))
      return true;
  return false;
}

// Plain digraphs over 0..n-1.
using Adj = std::vector<std::set<int>>;
// comp[v]: identifier of the strongly connected component of v.
inline std::vector<int> components(const Adj &g) {
  int n = g.size();
  std::vector<std::vector<char>> reach(n, std::vector<char>(n, 0));
  for (int s = 0; s < n; ++s) {
    std::vector<int> st{s};
    while (!st.empty()) {
      int v = st.back();
      st.pop_back();
      for (int w : g[v])
        if (!reach[s][w]) {
          reach[s][w] = 1;
          st.push_back(w);
        }
    }
  }
  std::vector<int> comp(n, -1);
  int k = 0;
  for (int v = 0; v < n; ++v)
    if (comp[v] < 0) {
      comp[v] = k;
      for (int w = v + 1; w < n; ++w)
        if (reach[v][w] && reach[w][v])
          comp[w] = k;
      ++k;
    }
  return comp;
}
// The scalar system.
struct Scalars {
  std::vector<Scal> eq; // (equation id, point)
  std::map<Scal, int> pos;
  Adj adj; // edge: depends on
};
inline Scalars scalarize(const DSys &s) {
  Scalars r;
  std::map<Scal, std::vector<int>> writers;
  for (auto &e : s.eqs)
    for (auto &p : e->idx) {
      int i = r.eq.size();
      r.pos[{e->id, p}] = i;
      r.eq.push_back({e->id, p});
      for (auto &w : touchedBy(e->writes, p))
        writers[w].push_back(i);
    }
  r.adj.resize(r.eq.size());
  for (auto &e : s.eqs)
    for (auto &p : e->idx)
      for (auto &t : touchedBy(e->reads, p)) {
        auto it = writers.find(t);
        if (it != writers.end())
          for (int w : it->second)
            r.adj[r.pos[{e->id, p}]].insert(w);
      }
  return r;
}

// Builds a matched system: each equation determines a part of a variable,
// element by element, and reads others.
// `classify`: as the compiler does, an access to the matched variable that
// stays within the matched elements counts as a write.
struct DGen {
  vf::Rng &r;
  SysGen g;
  explicit DGen(vf::Rng &r) : r(r), g(r) {}
  DSys sys;
  static std::unique_ptr<DEq> fromSEq(const SEq &e) {
    auto d = std::make_unique<DEq>();
    d->id = e.id;
    d->idx = e.idx;
    d->set = e.set;
    d->writes.push_back(e.acc[0]);
    return d;
  }
  void base(int nv) {
    for (int i = 0; i < nv; ++i)
      g.addVar();
    auto vars = g.s.vars;
    for (auto &v : vars)
      for (auto &part : r.chance(1, 2) ? border(v.idx) : g.cut(v.idx))
        g.addPaired(v, part);
    r.shuffle(g.s.eqs);
    sys.vars = g.s.vars;
    for (auto &e : g.s.eqs)
      sys.eqs.push_back(fromSEq(e));
  }
  // The interior and its border.
  std::vector<MSet> border(const MSet &m) {
    size_t n = m.begin()->size();
    P lo = *m.begin(), hi = lo;
    for (auto &p : m)
      for (size_t i = 0; i < n; ++i) {
        lo[i] = std::min(lo[i], p[i]);
        hi[i] = std::max(hi[i], p[i]);
      }
    for (size_t i = 0; i < n; ++i) {
      if (r.coin())
        lo[i] += r.in(1, 2);
      if (r.chance(1, 3))
        hi[i] -= 1;
    }
    MSet in, out;
    for (auto &p : m) {
      bool ok = true;
      for (size_t i = 0; i < n; ++i)
        ok &= p[i] >= lo[i] && p[i] <= hi[i];
      (ok ? in : out).insert(p);
    }
    std::vector<MSet> res;
    if (!in.empty())
      res.push_back(in);
    if (!out.empty())
      res.push_back(out);
    return res;
  }
  // Whether the access stays within what the equation determines.
  static bool within(const DEq &e, const SAcc &a) {
    if (a.var != e.writes[0].var)
      return false;
    auto w = touchedBy(e.writes, e.idx);
    for (auto &t : touchedBy({a}, e.idx))
      if (!w.count(t))
        return false;
    return true;
  }
  void addReads(int maxPer, int maxLevel, int selfBias = 4) {
    for (auto &e : sys.eqs) {
      int n = r.in(0, maxPer);
      for (int i = 0; i < n; ++i) {
        const SVar *v = &r.pick(sys.vars);
        if (r.chance(1, selfBias))
          for (auto &w : sys.vars)
            if (w.id == e->writes[0].var)
              v = &w;
        SAcc a{v->id, g.access(e->idx, v->idx, r.in(0, maxLevel))};
        if (within(*e, a))
          continue;
        e->reads.push_back(a);
      }
    }
  }
  // Reads of the own variable translated by small offsets: recurrences.
  void addRecurrences() {
    for (auto &e : sys.eqs) {
      if (!r.chance(1, 2))
        continue;
      const Fn &w = e->writes[0].fn;
      int n = r.in(1, 3);
      for (int k = 0; k < n; ++k) {
        Fn f;
        f.dims = w.dims;
        for (auto &x : w.res) {
          int64_t off = r.in(-2, 2);
          if (r.coin())
            off = off > 0 ? -off : off;
          f.res.push_back(off == 0 ? x : ex(Ex::Add, x, ex(Ex::Const, off)));
        }
        const SVar *v = nullptr;
        for (auto &x : sys.vars)
          if (x.id == e->writes[0].var)
            v = &x;
        SAcc a{v->id, f};
        if (within(*e, a) || !SysGen::inside(f, e->idx, v->idx))
          continue;
        e->reads.push_back(a);
      }
    }
  }
  // A variable whose interior is determined by a recurrence that mostly looks
  // at one side of each dimension, and whose border is given.
  void addDirected() {
    size_t n = r.in(1, g.maxRank);
    std::vector<int> sign(n);
    MBox full, in;
    for (size_t i = 0; i < n; ++i) {
      sign[i] = r.in(0, 3) ? (r.coin() ? 1 : -1) : 0;
      int64_t lo = r.chance(1, 4) ? r.in(-2, 3) : 0;
      int64_t ext = n == 1 ? r.in(3, 9) : r.in(2, n == 2 ? 5 : 4);
      full.emplace_back(lo, lo + ext);
      int64_t cutLo = sign[i] < 0 || r.chance(1, 6) ? r.in(1, 2) : 0;
      int64_t cutHi = sign[i] > 0 || r.chance(1, 6) ? r.in(1, 2) : 0;
      if (cutLo + cutHi >= ext)
        cutLo = cutHi = 0;
      in.emplace_back(lo + cutLo, lo + ext - cutHi);
    }
    MSet all = boxPoints(full), inner = boxPoints(in), outer;
    if (r.chance(1, 4) && inner.size() > 2)
      for (int k = r.in(1, 2); k > 0; --k)
        inner.erase(std::next(inner.begin(), r.in(0, inner.size() - 1)));
    for (auto &p : all)
      if (!inner.count(p))
        outer.insert(p);
    SVar v = g.addVar(all);
    size_t first = g.s.eqs.size();
    g.addPaired(v, inner);
    if (!outer.empty())
      g.addPaired(v, outer);
    sys.vars.push_back(v);
    for (size_t k = first; k < g.s.eqs.size(); ++k) {
      sys.eqs.push_back(fromSEq(g.s.eqs[k]));
      DEq &e = *sys.eqs.back();
      const Fn &w = e.writes[0].fn;
      for (int t = r.in(1, 4); t > 0; --t) {
        Fn f;
        f.dims = w.dims;
        bool noise = r.chance(1, 8);
        for (size_t i = 0; i < n; ++i) {
          int64_t off = sign[i] * r.in(0, 2);
          if (noise && r.chance(1, 3))
            off = r.in(-1, 1);
          f.res.push_back(off == 0 ? w.res[i]
                                   : ex(Ex::Add, w.res[i], ex(Ex::Const, off)));
        }
        SAcc a{v.id, f};
        if (!within(e, a) && SysGen::inside(f, e.idx, v.idx))
          e.reads.push_back(a);
      }
    }
  }
};
#endif
