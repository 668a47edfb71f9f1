// Reference model of systems of array equations: variables, equations and
// accesses as explicit sets of scalars, with scalar graph algorithms.
#ifndef SYSLIB_H
#define SYSLIB_H
#include "accutil.h"
#include <optional>

struct SVar {
  uint64_t id = 0;
  MSet idx;
  std::shared_ptr<mm::IndexSet> set;
  size_t rank() const { return idx.begin()->size(); }
};
struct SAcc {
  uint64_t var = 0;
  Fn fn;
};
struct SEq {
  uint64_t id = 0;
  MSet idx;
  std::shared_ptr<mm::IndexSet> set;
  std::vector<SAcc> acc;
  size_t rank() const { return idx.begin()->size(); }
};
struct Sys {
  std::vector<SVar> vars;
  std::vector<SEq> eqs;
  size_t nv() const {
    size_t n = 0;
    for (auto &v : vars)
      n += v.idx.size();
    return n;
  }
  size_t ne() const {
    size_t n = 0;
    for (auto &e : eqs)
      n += e.idx.size();
    return n;
  }
  const SVar &var(uint64_t id) const {
    for (auto &v : vars)
      if (v.id == id)
        return v;
    abort();
  }
  const SEq &eq(uint64_t id) const {
    for (auto &e : eqs)
      if (e.id == id)
        return e;
    abort();
  }
};
inline std::string strAll(const MSet &m) { return str(m, 60); }
inline void noteSys(vf::Case &c, const Sys &s) {
  for (auto &v : s.vars)
    c.note("var ", v.id, " ", strAll(v.idx));
  for (auto &e : s.eqs) {
    c.note("eq ", e.id, " ", strAll(e.idx));
    for (auto &a : e.acc)
      c.note("   -> var ", a.var, " ", str(a.fn));
  }
}

using Scal = std::pair<uint64_t, P>; // (array id, point)
inline std::string str(const Scal &s) {
  return std::to_string(s.first) + str(s.second);
}

// Maximum bipartite matching (Kuhn).
struct Bip {
  std::vector<std::vector<int>> adj;
  int nr = 0;
  std::vector<int> matchL, matchR;
  int run() {
    matchL.assign(adj.size(), -1);
    matchR.assign(nr, -1);
    int n = 0;
    std::vector<int> seen(nr, -1);
    std::function<bool(int, int)> go = [&](int l, int stamp) {
      for (int r : adj[l]) {
        if (seen[r] == stamp)
          continue;
        seen[r] = stamp;
        if (matchR[r] < 0 || go(matchR[r], stamp)) {
          matchR[r] = l;
          matchL[l] = r;
          return true;
        }
      }
      return false;
    };
    for (size_t l = 0; l < adj.size(); ++l)
      n += go(l, l);
    return n;
  }
};

// Scalar elements touched by a scalar equation.
inline std::set<Scal> touched(const SEq &e, const P &p) {
  std::set<Scal> r;
  for (auto &a : e.acc)
    for (auto &q : image(a.fn, p))
      r.insert({a.var, q});
  return r;
}
inline int maxMatching(const Sys &s) {
  std::map<Scal, int> vi;
  for (auto &v : s.vars)
    for (auto &p : v.idx)
      vi.emplace(Scal{v.id, p}, vi.size());
  Bip b;
  b.nr = vi.size();
  for (auto &e : s.eqs)
    for (auto &p : e.idx) {
      b.adj.emplace_back();
      for (auto &t : touched(e, p)) {
        auto it = vi.find(t);
        if (it != vi.end())
          b.adj.back().push_back(it->second);
      }
    }
  return b.run();
}

struct SysGen {
  vf::Rng &r;
  int maxRank = 2;
  int maxLevel = 3;     // of the access functions (see FnGen)
  size_t maxPts = 10;   // per array
  int side = 5;         // largest extent
  Sys s;
  uint64_t nextId = 1;
  explicit SysGen(vf::Rng &r) : r(r) {}

  MSet shape(size_t rank, size_t want) {
    // A box, possibly with holes.
    MSet out;
    for (int t = 0; t < 30 && (out.empty() || out.size() > maxPts); ++t) {
      MBox b;
      size_t total = 1;
      for (size_t i = 0; i < rank; ++i) {
        int64_t lo = r.chance(1, 4) ? r.in(-2, 4) : 0;
        int64_t ext = rank == 1 ? std::min<int64_t>(want, 40)
                                : r.in(1, std::min<int64_t>(side, want));
        b.emplace_back(lo, lo + ext);
        total *= ext;
      }
      if (total > 4 * maxPts)
        continue;
      out = boxPoints(b);
    }
    if (out.empty())
      out.insert(P(rank, r.in(0, 3)));
    if (r.chance(1, 6) && out.size() > 1) {
      size_t n = r.in(1, out.size() - 1);
      std::vector<P> v(out.begin(), out.end());
      r.shuffle(v);
      for (size_t i = 0; i < n && i < 3; ++i)
        out.erase(v[i]);
    }
    return out;
  }
  SVar &addVar(MSet idx) {
    SVar v;
    v.id = nextId++;
    v.set = std::make_shared<mm::IndexSet>(toSet(r, idx));
    v.idx = std::move(idx);
    s.vars.push_back(v);
    return s.vars.back();
  }
  SVar &addVar() {
    size_t rank = r.in(1, maxRank);
    return addVar(shape(rank, r.chance(1, 3) ? 1 : r.in(1, side)));
  }
  SEq &addEq(MSet idx) {
    SEq e;
    e.id = nextId++;
    e.set = std::make_shared<mm::IndexSet>(toSet(r, idx));
    e.idx = std::move(idx);
    s.eqs.push_back(e);
    return s.eqs.back();
  }
  static bool inside(const Fn &f, const MSet &from, const MSet &to) {
    for (auto &p : from)
      for (auto &q : image(f, p))
        if (!to.count(q))
          return false;
    return true;
  }
  // A random function from `from` into `to`.
  Fn access(const MSet &from, const MSet &to, int level) {
    size_t k = from.begin()->size(), n = to.begin()->size();
    std::vector<P> tv(to.begin(), to.end());
    for (int t = 0; t < 25; ++t) {
      Fn f;
      f.dims = k;
      if (level >= 2 && r.chance(1, 4)) {
        FnGen g(r);
        f = g.fn(k, n, level);
      } else if (level >= 3 && r.chance(1, 4)) {
        // Gathers: some of the elements, listed.
        auto sp = std::make_shared<Space>();
        sp->rank = n;
        for (int x = r.in(1, 4); x > 0; --x)
          sp->pts.insert(r.pick(tv));
        sp->set = std::make_shared<mm::IndexSet>(toSet(r, sp->pts));
        bool whole = r.coin();
        for (size_t i = 0; i < n; ++i) {
          if (!whole && r.coin())
            f.res.push_back(ex(Ex::Dim, r.in(0, k - 1)));
          else
            f.res.push_back(exInd(sp, i, whole || r.coin()));
        }
      } else if (level >= 3 && r.chance(1, 3)) {
        // Slices.
        const P &q = r.pick(tv);
        for (size_t i = 0; i < n; ++i) {
          if (r.coin())
            f.res.push_back(ex(Ex::Range, q[i], q[i] + r.in(1, 3)));
          else
            f.res.push_back(ex(Ex::Dim, r.in(0, k - 1)));
        }
      } else {
        // Translate a point onto a point, each result following a dimension.
        const P &q = r.pick(tv);
        auto fi = from.begin();
        std::advance(fi, r.in(0, from.size() - 1));
        const P &p = *fi;
        std::vector<size_t> perm;
        for (size_t i = 0; i < k; ++i)
          perm.push_back(i);
        if (r.chance(1, 3))
          r.shuffle(perm);
        for (size_t i = 0; i < n; ++i) {
          if (level == 0 ? r.chance(2, 3) : (i >= k || r.chance(1, 7))) {
            f.res.push_back(ex(Ex::Const, q[i]));
            continue;
          }
          size_t d = i < k ? perm[i] : (size_t)r.in(0, k - 1);
          if (level >= 2 && r.chance(1, 6)) {
            // Reversed.
            f.res.push_back(ex(Ex::Sub, ex(Ex::Const, q[i] + p[d]),
                               ex(Ex::Dim, d)));
            continue;
          }
          int64_t off = q[i] - p[d];
          f.res.push_back(off == 0 ? ex(Ex::Dim, d)
                                   : ex(Ex::Add, ex(Ex::Dim, d),
                                        ex(Ex::Const, off)));
        }
      }
      if (inside(f, from, to))
        return f;
    }
    Fn f;
    f.dims = k;
    const P &q = r.pick(tv);
    for (size_t i = 0; i < n; ++i)
      f.res.push_back(ex(Ex::Const, q[i]));
    return f;
  }
  // An equation that may be paired, element by element, with the given part
  // of a variable; returns false when no such equation was found.
  bool addPaired(const SVar &v, const MSet &part) {
    size_t n = v.rank();
    // Iteration space: a translated / permuted / reversed copy of the part.
    size_t k = n;
    std::vector<size_t> perm; // variable dimension i <- equation dim perm[i]
    for (size_t i = 0; i < k; ++i)
      perm.push_back(i);
    if (r.chance(1, 3))
      r.shuffle(perm);
    Fn f;
    f.dims = k;
    std::vector<int64_t> off(n);
    std::vector<bool> rev(n);
    for (size_t i = 0; i < n; ++i) {
      off[i] = r.chance(1, 2) ? 0 : r.in(-2, 2);
      rev[i] = maxLevel >= 2 && r.chance(1, 6);
      if (rev[i])
        off[i] = r.in(2, 5);
    }
    MSet idx;
    for (auto &q : part) {
      P p(k);
      for (size_t i = 0; i < n; ++i)
        p[perm[i]] = rev[i] ? off[i] - q[i] : q[i] - off[i];
      idx.insert(p);
    }
    for (size_t i = 0; i < n; ++i) {
      auto d = ex(Ex::Dim, perm[i]);
      f.res.push_back(rev[i] ? ex(Ex::Sub, ex(Ex::Const, off[i]), d)
                      : off[i] ? ex(Ex::Add, d, ex(Ex::Const, off[i]))
                               : d);
    }
    SEq &e = addEq(idx);
    e.acc.push_back({v.id, f});
    return true;
  }
  // Cut a set into parts.
  std::vector<MSet> cut(const MSet &m) {
    std::vector<MSet> out;
    int mode = r.in(0, 4);
    if (mode <= 1 || m.size() == 1)
      return {m};
    if (mode == 2) {
      // First and the rest / last and the rest.
      MSet a = m, b;
      auto it = r.coin() ? a.begin() : std::prev(a.end());
      b.insert(*it);
      a.erase(it);
      return {a, b};
    }
    if (mode == 3) {
      int64_t dim = r.in(0, m.begin()->size() - 1);
      auto it = m.begin();
      std::advance(it, r.in(0, m.size() - 1));
      int64_t at = (*it)[dim];
      MSet a, b;
      for (auto &p : m)
        (p[dim] < at ? a : b).insert(p);
      if (!a.empty())
        out.push_back(a);
      if (!b.empty())
        out.push_back(b);
      return out;
    }
    int n = r.in(2, 3);
    out.resize(n);
    for (auto &p : m)
      out[r.in(0, n - 1)].insert(p);
    out.erase(std::remove_if(out.begin(), out.end(),
                             [](const MSet &x) { return x.empty(); }),
              out.end());
    return out;
  }
};
#endif
