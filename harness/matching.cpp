// C08, C09 (and C10 in the tsan variant): matching of array systems.
#include "syslib.h"
#include "marco/Modeling/Matching.h"

struct MVar {
  const SVar *v;
};
struct MEq {
  const SEq *e;
};
namespace marco::modeling::matching {
template <>
struct VariableTraits<MVar> {
  using Id = uint64_t;
  static Id getId(const MVar *v) { return v->v->id; }
  static size_t getRank(const MVar *v) { return v->v->rank(); }
  static IndexSet getIndices(const MVar *v) { return *v->v->set; }
  static llvm::raw_ostream &dump(const MVar *v, llvm::raw_ostream &os) {
    return os << v->v->id;
  }
};
template <>
struct EquationTraits<MEq> {
  using Id = uint64_t;
  static Id getId(const MEq *e) { return e->e->id; }
  static size_t getNumOfIterationVars(const MEq *e) { return e->e->rank(); }
  static IndexSet getIndices(const MEq *e) { return *e->e->set; }
  using VariableType = MVar;
  static std::vector<Access<uint64_t>> getAccesses(const MEq *e) {
    std::vector<Access<uint64_t>> r;
    for (auto &a : e->e->acc)
      r.emplace_back(a.var, toAF(a.fn));
    return r;
  }
  static llvm::raw_ostream &dump(const MEq *e, llvm::raw_ostream &os) {
    return os << e->e->id;
  }
};
} // namespace marco::modeling::matching

using MG = mm::MatchingGraph<MVar, MEq>;
using Sols = llvm::SmallVector<MG::MatchingSolution>;

static mm::matching::MatchingOptions opts(bool leaf, bool scalar, double th) {
  mm::matching::MatchingOptions o;
  o.enableLeafNodesSimplification = leaf;
  o.enableScalarization = scalar;
  o.scalarAccessThreshold = th;
  return o;
}

static bool runMatch(const Sys &s, const mm::matching::MatchingOptions &o,
                     Sols &out, mlir::MLIRContext *context) {
  MG g(context);
  for (auto &v : s.vars)
    g.addVariable(MVar{&v});
  for (auto &e : s.eqs)
    g.addEquation(MEq{&e});
  return g.match(out, o);
}

// The monitor: is this result right for this system?
static void judge(vf::Case &c, const Sys &s, bool perfect, bool ok,
                  const Sols &sols, const std::string &tag) {
  if (!ok) {
    c.check(!perfect, "missed",
            tag + ": a perfect scalar matching exists but none was found");
    return;
  }
  if (!c.check(perfect, "bogus-success",
               tag + ": success reported, no perfect scalar matching exists"))
    return;
  std::map<uint64_t, MSet> eqSeen, varSeen;
  for (auto &sol : sols) {
    const SEq *e = nullptr;
    const SVar *v = nullptr;
    for (auto &x : s.eqs)
      if (x.id == sol.getEquation())
        e = &x;
    for (auto &x : s.vars)
      if (x.id == sol.getVariable())
        v = &x;
    if (!c.check(e && v, "unknown-id", tag + ": unknown equation or variable"))
      return;
    MSet ei = toModel(sol.getEquationIndices());
    MSet vi = toModel(sol.getVariableIndices());
    std::string what = tag + ": equation " + std::to_string(e->id) + " " +
                       str(ei) + " <-> variable " + std::to_string(v->id) +
                       " " + str(vi);
    c.count("matched-scalars", ei.size());
    c.check(ei.size() == vi.size(), "unbalanced", what);
    for (auto &p : ei) {
      c.check(e->idx.count(p), "foreign-equation", what);
      c.check(eqSeen[e->id].insert(p).second, "equation-twice",
              what + ", at " + str(p));
    }
    for (auto &p : vi) {
      c.check(v->idx.count(p), "foreign-variable", what);
      c.check(varSeen[v->id].insert(p).second, "variable-twice",
              what + ", at " + str(p));
    }
    // The pairing must be possible through the equation's own accesses.
    std::map<P, int> pos;
    for (auto &p : vi)
      pos.emplace(p, pos.size());
    Bip b;
    b.nr = pos.size();
    for (auto &p : ei) {
      b.adj.emplace_back();
      for (auto &a : e->acc)
        if (a.var == v->id)
          for (auto &q : image(a.fn, p))
            if (auto it = pos.find(q); it != pos.end())
              b.adj.back().push_back(it->second);
    }
    c.check(b.run() == (int)ei.size(), "not-accessed",
            what + ": not pairable through the accesses");
  }
  for (auto &e : s.eqs)
    c.check(eqSeen[e.id] == e.idx, "equation-left",
            tag + ": equation " + std::to_string(e.id) + " matched " +
                str(eqSeen[e.id]) + " of " + str(e.idx));
  for (auto &v : s.vars)
    c.check(varSeen[v.id] == v.idx, "variable-left",
            tag + ": variable " + std::to_string(v.id) + " matched " +
                str(varSeen[v.id]) + " of " + str(v.idx));
}

static void extraAccesses(SysGen &g, int maxPer, int maxLevel) {
  for (auto &e : g.s.eqs) {
    int n = g.r.in(0, maxPer);
    for (int i = 0; i < n; ++i) {
      const SVar &v = g.r.pick(g.s.vars);
      SAcc a{v.id, g.access(e.idx, v.idx, g.r.in(0, maxLevel))};
      e.acc.insert(e.acc.begin() + g.r.in(0, e.acc.size()), a);
    }
  }
}

// A system having a perfect matching by construction.
static void genHidden(SysGen &g, int nv, int maxPer, int maxLevel) {
  for (int i = 0; i < nv; ++i)
    g.addVar();
  auto vars = g.s.vars;
  for (auto &v : vars)
    for (auto &part : g.cut(v.idx))
      g.addPaired(v, part);
  g.r.shuffle(g.s.eqs);
  extraAccesses(g, maxPer, maxLevel);
}
// Square (or nearly so), with no designed matching.
static void genWild(SysGen &g, int nv, int maxPer, int maxLevel) {
  for (int i = 0; i < nv; ++i)
    g.addVar();
  auto vars = g.s.vars;
  for (auto &v : vars)
    for (auto &part : g.cut(v.idx)) {
      MSet idx;
      size_t k = g.r.in(1, g.maxRank);
      if (k == part.begin()->size())
        idx = part;
      else {
        // The same number of points along one dimension.
        P p(k, 0);
        for (size_t i = 0; i < part.size(); ++i) {
          idx.insert(p);
          ++p[0];
        }
      }
      if (g.r.chance(1, 12) && idx.size() > 1)
        idx.erase(idx.begin());
      SEq &e = g.addEq(idx);
      const SVar &w = g.r.pick(g.s.vars);
      e.acc.push_back({w.id, g.access(e.idx, w.idx, g.r.in(0, maxLevel))});
    }
  g.r.shuffle(g.s.eqs);
  extraAccesses(g, maxPer, maxLevel);
}
// Chains: long alternating paths through the same few arrays.
static void genChain(SysGen &g) {
  int n = g.r.in(3, 9);
  int arrays = g.r.in(1, 3);
  // A chain of scalars v0, v1, ..., spread over the arrays; equation i
  // touches v_i and v_{i+1}; a few equations pin the ends.
  std::vector<Scal> slots;
  for (int a = 0; a < arrays; ++a) {
    MSet m;
    for (int i = 0; i < n; ++i)
      m.insert({i});
    g.addVar(m);
  }
  for (int a = 0; a < arrays; ++a) {
    const SVar &v = g.s.vars[a];
    // i -> i, i + 1 (or shifted copies), for all but one element.
    MSet idx;
    for (int i = 0; i + 1 < n; ++i)
      idx.insert({i});
    SEq &e = g.addEq(idx);
    auto d = ex(Ex::Dim, 0);
    auto d1 = ex(Ex::Add, d, ex(Ex::Const, 1));
    bool flip = g.r.coin();
    e.acc.push_back({v.id, Fn{1, {flip ? d : d1}}});
    e.acc.push_back({v.id, Fn{1, {flip ? d1 : d}}});
    if (arrays > 1 && g.r.coin()) {
      const SVar &w = g.s.vars[g.r.in(0, arrays - 1)];
      e.acc.push_back({w.id, Fn{1, {g.r.coin() ? d : d1}}});
    }
    // The remaining one.
    SEq &f = g.addEq({{0}});
    int64_t at = g.r.in(0, n - 1);
    f.acc.push_back({v.id, Fn{1, {ex(Ex::Const, at)}}});
    if (g.r.chance(1, 3)) {
      const SVar &w = g.s.vars[g.r.in(0, arrays - 1)];
      f.acc.push_back({w.id, Fn{1, {ex(Ex::Const, g.r.in(0, n - 1))}}});
    }
  }
  g.r.shuffle(g.s.eqs);
}
// Trees of single-access nodes: leaf elimination food.
static void genLeafy(SysGen &g, int nv) {
  for (int i = 0; i < nv; ++i)
    g.addVar();
  auto vars = g.s.vars;
  for (auto &v : vars)
    for (auto &part : g.cut(v.idx)) {
      g.addPaired(v, part);
      if (g.r.coin()) {
        SEq &e = g.s.eqs.back();
        const SVar &w = g.r.pick(g.s.vars);
        e.acc.push_back({w.id, g.access(e.idx, w.idx, g.r.in(0, 1))});
      }
    }
  // Break the pairing now and then.
  if (g.r.chance(1, 3)) {
    SEq &e = g.s.eqs[g.r.in(0, g.s.eqs.size() - 1)];
    const SVar &w = g.r.pick(g.s.vars);
    e.acc = {{w.id, g.access(e.idx, w.idx, g.r.in(0, 1))}};
  }
  g.r.shuffle(g.s.eqs);
}
static void genAny(SysGen &g, vf::Case &c) {
  auto &r = c.rng;
  int big = c.thorough ? r.chance(1, 4) : r.chance(1, 8);
  g.maxRank = r.chance(1, 5) ? 3 : 2;
  g.side = big ? 7 : 4;
  g.maxPts = big ? 24 : 9;
  int nv = r.in(1, big ? 5 : 4);
  g.maxLevel = r.chance(1, 4) ? 3 : r.in(1, 2);
  switch (r.in(0, 6)) {
  case 0:
  case 1:
    genHidden(g, nv, 2, g.maxLevel);
    break;
  case 2:
    genHidden(g, nv, 3, 0);
    break;
  case 3:
    genWild(g, nv, 2, g.maxLevel);
    break;
  case 4:
    genWild(g, nv, 3, 1);
    break;
  case 5:
    genChain(g);
    break;
  default:
    genLeafy(g, nv + 1);
    break;
  }
}

static const char *RULE8 =
    "the system has at least two scalar equations sharing a variable they both "
    "access, or the matcher had to fail";

static bool prepare(vf::Case &c, Sys &s, bool &perfect) {
  noteSys(c, s);
  int m = maxMatching(s);
  perfect = s.ne() == s.nv() && m == (int)s.nv();
  std::map<Scal, int> uses;
  bool shared = false;
  for (auto &e : s.eqs)
    for (auto &p : e.idx)
      for (auto &t : touched(e, p))
        shared |= ++uses[t] > 1;
  if (shared || !perfect)
    c.nontrivial();
  c.count(perfect ? "perfect-systems" : "unmatchable-systems");
  return true;
}

VF_STREAM("C08", "plain", 3000, 60000, RULE8) {
  SysGen g(c.rng);
  genAny(g, c);
  bool perfect;
  prepare(c, g.s, perfect);
  Sols sols;
  bool ok = runMatch(g.s, opts(false, false, 0.5), sols, ctx());
  judge(c, g.s, perfect, ok, sols, "plain");
}
VF_STREAM("C08", "default", 3000, 60000, RULE8) {
  SysGen g(c.rng);
  genAny(g, c);
  bool perfect;
  prepare(c, g.s, perfect);
  Sols sols;
  bool ok = runMatch(g.s, mm::matching::MatchingOptions(), sols, ctx());
  judge(c, g.s, perfect, ok, sols, "default");
}
VF_STREAM("C08", "chain", 1500, 30000, RULE8) {
  SysGen g(c.rng);
  genChain(g);
  bool perfect;
  prepare(c, g.s, perfect);
  Sols sols;
  bool ok = runMatch(g.s, opts(false, false, 0.5), sols, ctx());
  judge(c, g.s, perfect, ok, sols, "plain");
}
VF_STREAM("C09", "options", 2500, 50000,
          "a simplification applied: verdicts and results of all the option "
          "combinations were compared") {
  SysGen g(c.rng);
  genAny(g, c);
  bool perfect;
  prepare(c, g.s, perfect);
  static const double ths[] = {0, 0.1, 0.5, 1, 100};
  for (int leaf = 0; leaf < 2; ++leaf)
    for (int sc = 0; sc < 2; ++sc) {
      double th = ths[c.rng.in(0, 4)];
      Sols sols;
      std::string tag = "leaf=" + std::to_string(leaf) +
                        " scalarization=" + std::to_string(sc) +
                        " threshold=" + std::to_string(th);
      c.note(tag);
      bool ok = runMatch(g.s, opts(leaf, sc, th), sols, ctx());
      judge(c, g.s, perfect, ok, sols, tag);
    }
}
VF_STREAM("C09", "leafy", 2500, 50000,
          "the system has arrays with a single incident edge") {
  SysGen g(c.rng);
  g.maxRank = 2;
  g.maxLevel = 2;
  genLeafy(g, c.rng.in(2, 5));
  bool perfect;
  prepare(c, g.s, perfect);
  c.nontrivial();
  for (int sc = 0; sc < 2; ++sc) {
    Sols sols;
    bool ok = runMatch(g.s, opts(true, sc, 0.5), sols, ctx());
    judge(c, g.s, perfect, ok, sols, "leaf, scalarization=" + std::to_string(sc));
  }
}
