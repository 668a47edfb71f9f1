// C11, C12, C13, C14, C15: dependency graphs, components and schedules.
#include "deplib.h"

template <typename T>
static std::string join(const T &l) {
  std::string r;
  for (auto &x : l)
    r += (r.empty() ? "" : " ") + std::string(x);
  return r;
}

using AG = mm::ArrayEquationsDependencyGraph<DVar, DEqP>;
using SG = mm::ScalarEquationsDependencyGraph<DVar, DEqP>;
using VGraph = mm::dependency::SingleEntryDigraph<
    mm::internal::dependency::ArrayVariable<DVar>>;
using VG = mm::ArrayVariablesDependencyGraph<DVar, DEqP>;
using VGE = mm::ArrayVariablesDependencyGraph<DVar, DEqP, VGraph>;

static std::vector<DEqP> ptrs(const DSys &s) {
  std::vector<DEqP> r;
  for (auto &e : s.eqs)
    r.push_back(e.get());
  return r;
}

static void genDep(DGen &d, vf::Case &c, int level) {
  auto &r = c.rng;
  bool big = r.chance(1, c.thorough ? 3 : 6);
  d.g.maxRank = r.chance(1, 5) ? 3 : 2;
  d.g.side = big ? 7 : 4;
  d.g.maxPts = big ? 30 : 10;
  d.g.maxLevel = r.in(1, 2);
  d.base(r.in(1, big ? 6 : 4));
  if (r.chance(2, 3))
    d.addReads(r.in(1, 4), level);
  if (r.coin())
    d.addRecurrences();
}
// Arbitrary writes and reads, not necessarily one writer for each scalar.
static void genArb(DGen &d, vf::Case &c) {
  auto &r = c.rng;
  d.g.maxRank = r.in(1, 3);
  d.g.side = 4;
  d.g.maxPts = 14;
  int nv = r.in(1, 3), ne = r.in(1, 6);
  for (int i = 0; i < nv; ++i)
    d.g.addVar();
  d.sys.vars = d.g.s.vars;
  for (int i = 0; i < ne; ++i) {
    SEq &e = d.g.addEq(d.g.shape(r.in(1, d.g.maxRank), r.in(1, 5)));
    auto q = std::make_unique<DEq>();
    q->id = e.id;
    q->idx = e.idx;
    q->set = e.set;
    const SVar &v = r.pick(d.sys.vars);
    int nw = r.chance(1, 8) ? 0 : r.chance(1, 5) ? 2 : 1;
    for (int k = 0; k < nw; ++k)
      q->writes.push_back({v.id, d.g.access(e.idx, v.idx, r.in(0, 3))});
    int nr = r.in(0, 4);
    for (int k = 0; k < nr; ++k) {
      const SVar &w = r.pick(d.sys.vars);
      q->reads.push_back({w.id, d.g.access(e.idx, w.idx, r.in(0, 3))});
    }
    d.sys.eqs.push_back(std::move(q));
  }
}

static Adj arrayDeps(const DSys &s) {
  Adj adj(s.eqs.size());
  std::vector<std::set<Scal>> w, r;
  for (auto &e : s.eqs) {
    w.push_back(touchedBy(e->writes, e->idx));
    r.push_back(touchedBy(e->reads, e->idx));
  }
  for (size_t i = 0; i < s.eqs.size(); ++i)
    for (size_t j = 0; j < s.eqs.size(); ++j)
      if (meet(r[i], w[j]))
        adj[i].insert(j);
  return adj;
}
static size_t edges(const Adj &a) {
  size_t n = 0;
  for (auto &x : a)
    n += x.size();
  return n;
}

// Monitor: the components partition 0..n-1 as the reference says, and each is
// listed after the ones it depends on.
static void judgeSCCs(vf::Case &c, const Adj &adj,
                      const std::vector<std::vector<int>> &sccs,
                      const std::string &tag) {
  auto comp = components(adj);
  std::vector<int> where(adj.size(), -1);
  for (size_t i = 0; i < sccs.size(); ++i) {
    c.count("components");
    c.check(!sccs[i].empty(), tag + "-empty", tag + ": empty component");
    for (int v : sccs[i]) {
      c.check(where[v] < 0, tag + "-repeated",
              tag + ": element " + std::to_string(v) + " in two components");
      where[v] = i;
    }
  }
  for (size_t v = 0; v < adj.size(); ++v)
    c.check(where[v] >= 0, tag + "-missing",
            tag + ": element " + std::to_string(v) + " in no component");
  if (c.failed())
    return;
  for (size_t v = 0; v < adj.size(); ++v) {
    for (size_t w = 0; w < v; ++w)
      c.check((comp[v] == comp[w]) == (where[v] == where[w]), tag + "-split",
              tag + ": elements " + std::to_string(w) + " and " +
                  std::to_string(v) + " wrongly " +
                  (comp[v] == comp[w] ? "separated" : "joined"));
    for (int w : adj[v])
      c.check(where[w] <= where[v], tag + "-order",
              tag + ": element " + std::to_string(v) +
                  " listed before its dependency " + std::to_string(w));
  }
}

static void judgeArray(vf::Case &c, const DSys &s, bool sccs) {
  AG g(ctx());
  g.addEquations(ptrs(s));
  Adj want = arrayDeps(s);
  std::map<uint64_t, int> pos;
  for (size_t i = 0; i < s.eqs.size(); ++i)
    pos[s.eqs[i]->id] = i;
  Adj got(s.eqs.size());
  std::vector<int> seen(s.eqs.size());
  for (auto d :
       llvm::make_range(g.equationsBegin(), g.equationsEnd())) {
    int i = pos.at(g[d]->id);
    ++seen[i];
    for (auto t : llvm::make_range(d.graph->linkedVerticesBegin(d),
                                   d.graph->linkedVerticesEnd(d)))
      got[i].insert(pos.at(g[t]->id));
  }
  if (edges(want) > 0)
    c.nontrivial();
  c.count("dependencies", edges(want));
  c.count("independent-pairs", s.eqs.size() * s.eqs.size() - edges(want));
  if (!sccs) {
    for (size_t i = 0; i < s.eqs.size(); ++i) {
      c.check(seen[i] == 1, "vertex", "equation appears " +
                                          std::to_string(seen[i]) + " times");
      for (size_t j = 0; j < s.eqs.size(); ++j) {
        bool w = want[i].count(j), h = got[i].count(j);
        c.check(w == h, w ? "edge-lost" : "edge-invented",
                "equation " + std::to_string(s.eqs[i]->id) +
                    (w ? " does not depend" : " depends") + " on equation " +
                    std::to_string(s.eqs[j]->id));
      }
    }
    return;
  }
  std::vector<std::vector<int>> list;
  for (auto &scc : g.getSCCs()) {
    list.emplace_back();
    for (auto d : scc)
      list.back().push_back(pos.at(scc[d].getProperty()->id));
  }
  judgeSCCs(c, got, list, "array");
}

static const char *RULE11 = "some equation depends on an equation";
VF_STREAM("C11", "matched", 9000, 60000, RULE11) {
  DGen d(c.rng);
  genDep(d, c, 3);
  noteDSys(c, d.sys);
  judgeArray(c, d.sys, false);
}
VF_STREAM("C11", "arbitrary", 9000, 60000, RULE11) {
  DGen d(c.rng);
  genArb(d, c);
  noteDSys(c, d.sys);
  judgeArray(c, d.sys, false);
}
// Equations added in several batches only see the ones added before them and
// with them; the writes map must list every write exactly once.
VF_STREAM("C11", "writes-map", 4500, 30000,
          "the map of the writes has been compared element by element") {
  DGen d(c.rng);
  if (c.rng.coin())
    genArb(d, c);
  else
    genDep(d, c, 2);
  noteDSys(c, d.sys);
  AG g(ctx());
  g.addEquations(ptrs(d.sys));
  auto check = [&](const AG::WritesMap &m, const std::string &tag) {
    std::map<Scal, std::multiset<uint64_t>> want, got;
    for (auto &e : d.sys.eqs)
      for (auto &t : touchedBy(e->writes, e->idx))
        want[t].insert(e->id);
    for (auto &kv : m)
      for (const auto &wi : kv.second)
        for (auto p : wi.getWrittenVariableIndices())
          got[{kv.first, P(p.begin(), p.end())}].insert(
              g[wi.getEquation()]->id);
    c.count("writes", want.size());
    c.check(want == got, tag, tag + ": wrong map of the writes");
  };
  c.nontrivial();
  check(g.getWritesMap(), "writes-map");
  check(g.getWritesMap(g.equationsBegin(), g.equationsEnd()),
        "writes-map-of-range");
}

//===---------------------------------------------------------------------===//
static void judgeScalar(vf::Case &c, const DSys &s, bool order) {
  Scalars ref = scalarize(s);
  SG g(ctx());
  g.addEquations(ptrs(s));
  auto list = g.postOrder();
  std::map<const void *, int> dummy;
  std::vector<int> rank(ref.eq.size(), -1);
  if (edges(ref.adj) > 0)
    c.nontrivial();
  c.count("scalar-equations", ref.eq.size());
  c.count("scalar-dependencies", edges(ref.adj));
  Adj got(ref.eq.size());
  auto at = [&](SG::ScalarEquationDescriptor d) -> int {
    const auto &q = g[d];
    P p;
    for (auto x : q.getIndex())
      p.push_back(x);
    auto it = ref.pos.find({q.getProperty()->id, p});
    if (!c.check(it != ref.pos.end(), "foreign-vertex",
                 "vertex for a scalar equation that does not exist"))
      return -1;
    return it->second;
  };
  int k = 0;
  for (auto d : list) {
    int i = at(d);
    if (i < 0)
      return;
    c.check(rank[i] < 0, "vertex-twice",
            "two vertices for " + str(ref.eq[i]));
    rank[i] = k++;
    for (auto t : llvm::make_range(d.graph->linkedVerticesBegin(d),
                                   d.graph->linkedVerticesEnd(d))) {
      int j = at(t);
      if (j < 0)
        return;
      got[i].insert(j);
    }
  }
  for (size_t i = 0; i < ref.eq.size(); ++i)
    c.check(rank[i] >= 0, "vertex-missing", "no vertex for " + str(ref.eq[i]));
  if (c.failed())
    return;
  if (!order) {
    for (size_t i = 0; i < ref.eq.size(); ++i) {
      for (int j : ref.adj[i])
        c.check(got[i].count(j), "edge-lost",
                str(ref.eq[i]) + " does not depend on " + str(ref.eq[j]));
      for (int j : got[i])
        c.check(ref.adj[i].count(j), "edge-invented",
                str(ref.eq[i]) + " depends on " + str(ref.eq[j]));
    }
    return;
  }
  // Post order: every edge not within a component goes to an earlier element.
  auto comp = components(got);
  for (size_t i = 0; i < ref.eq.size(); ++i)
    for (int j : got[i])
      if (comp[i] != comp[j])
        c.check(rank[j] < rank[i], "scalar-order",
                str(ref.eq[i]) + " precedes its dependency " + str(ref.eq[j]));
  auto rev = g.reversePostOrder();
  c.check(rev.size() == list.size() &&
              std::equal(rev.rbegin(), rev.rend(), list.begin()),
          "reverse", "the reverse post order is not the post order reversed");
}
static const char *RULE12 = "some scalar equation depends on another one";
VF_STREAM("C12", "matched", 9000, 60000, RULE12) {
  DGen d(c.rng);
  genDep(d, c, 3);
  noteDSys(c, d.sys);
  judgeScalar(c, d.sys, false);
}
VF_STREAM("C13", "scalar-order", 4500, 30000, RULE12) {
  DGen d(c.rng);
  genDep(d, c, 3);
  noteDSys(c, d.sys);
  judgeScalar(c, d.sys, true);
}
VF_STREAM("C13", "array", 9000, 60000, RULE11) {
  DGen d(c.rng);
  if (c.rng.coin())
    genArb(d, c);
  else
    genDep(d, c, 3);
  noteDSys(c, d.sys);
  judgeArray(c, d.sys, true);
}

//===---------------------------------------------------------------------===//
// Random digraphs, realised as systems of scalar equations.
static Adj randomGraph(vf::Rng &r, int n) {
  Adj a(n);
  int mode = r.in(0, 4);
  int m = mode == 0 ? r.in(0, n) : mode == 1 ? r.in(n, 2 * n) : r.in(0, n * 3);
  for (int i = 0; i < m; ++i) {
    int x = r.in(0, n - 1), y = r.in(0, n - 1);
    if (mode == 3 && x < y)
      std::swap(x, y);
    a[x].insert(y);
  }
  if (mode == 4) // a long loop
    for (int i = 0; i < n; ++i)
      if (!r.chance(1, n))
        a[i].insert((i + 1) % n);
  return a;
}
static DSys realise(vf::Rng &r, const Adj &a) {
  // One scalar variable and one scalar equation for each vertex.
  SysGen g(r);
  DSys s;
  for (size_t i = 0; i < a.size(); ++i)
    g.addVar({{0}});
  s.vars = g.s.vars;
  auto at0 = [](uint64_t v) {
    return SAcc{v, Fn{1, {ex(Ex::Const, 0)}}};
  };
  for (size_t i = 0; i < a.size(); ++i) {
    SEq &e = g.addEq({{0}});
    auto q = std::make_unique<DEq>();
    q->id = e.id;
    q->idx = e.idx;
    q->set = e.set;
    q->writes.push_back(at0(s.vars[i].id));
    std::vector<int> t(a[i].begin(), a[i].end());
    r.shuffle(t);
    for (int j : t)
      q->reads.push_back(at0(s.vars[j].id));
    s.eqs.push_back(std::move(q));
  }
  return s;
}
VF_STREAM("C13", "digraph", 6000, 40000, "the digraph has an edge") {
  int n = c.rng.in(1, c.thorough ? 40 : 16);
  Adj a = randomGraph(c.rng, n);
  DSys s = realise(c.rng, a);
  noteDSys(c, s);
  judgeArray(c, s, true);
  judgeScalar(c, s, true);
}
// Variables graph, as used for finding the variables needed by the outputs.
VF_STREAM("C13", "variables", 6000, 40000, "the digraph has an edge") {
  int n = c.rng.in(1, c.thorough ? 30 : 12);
  Adj a = randomGraph(c.rng, n);
  DSys s = realise(c.rng, a);
  noteDSys(c, s);
  if (edges(a))
    c.nontrivial();
  std::map<uint64_t, int> pos;
  std::vector<DVar> vars;
  for (size_t i = 0; i < s.vars.size(); ++i) {
    pos[s.vars[i].id] = i;
    vars.push_back({s.vars[i].id});
  }
  // Some edges are added explicitly.
  Adj direct(n);
  for (auto &e : s.eqs)
    for (size_t k = 0; k < e->reads.size();)
      if (c.rng.chance(1, 4)) {
        direct[pos[e->writes[0].var]].insert(pos[e->reads[k].var]);
        e->reads.erase(e->reads.begin() + k);
      } else
        ++k;
  {
    VG g(ctx());
    g.addVariables(vars);
    g.addEquations(ptrs(s));
    for (int i = 0; i < n; ++i)
      for (int j : direct[i])
        g.addEdge(vars[i].id, vars[j].id);
    std::vector<std::vector<int>> list;
    for (auto &scc : g.getSCCs()) {
      list.emplace_back();
      for (auto d : scc)
        list.back().push_back(pos.at(scc[d].getProperty().id));
    }
    judgeSCCs(c, a, list, "variables");
  }
  {
    // Only what can be reached from the chosen entries.
    std::set<int> entry;
    int k = c.rng.in(0, 3);
    for (int i = 0; i < k; ++i)
      entry.insert(c.rng.in(0, n - 1));
    std::set<int> want = entry;
    std::vector<int> st(entry.begin(), entry.end());
    while (!st.empty()) {
      int v = st.back();
      st.pop_back();
      for (int w : a[v])
        if (want.insert(w).second)
          st.push_back(w);
    }
    auto base = std::make_shared<VGraph>();
    VGE g(ctx(), base);
    std::vector<VGE::VariableDescriptor> desc;
    for (auto &v : vars)
      desc.push_back(g.addVariable(v));
    g.addEquations(ptrs(s));
    for (int i = 0; i < n; ++i)
      for (int j : direct[i])
        g.addEdge(vars[i].id, vars[j].id);
    for (int i : entry)
      base->addEdge(base->getEntryNode(), desc[i]);
    auto comp = components(a);
    std::vector<int> where(n, -1);
    std::set<int> got;
    int i = 0;
    std::string names;
    for (auto &scc : g.getSCCs()) {
      for (auto d : scc) {
        int v = pos.at(scc[d].getProperty().id);
        c.check(got.insert(v).second, "reachable-repeated", "repeated variable");
        where[v] = i;
      }
      ++i;
    }
    c.count("reachable-variables", want.size());
    c.check(want == got, "reachable",
            "the variables reported are not the ones reachable from the entry");
    if (!c.failed())
      for (int v : got) {
        for (int w : got)
          c.check((comp[v] == comp[w]) == (where[v] == where[w]),
                  "reachable-split", "wrong components");
        for (int w : a[v])
          c.check(where[w] <= where[v], "reachable-order",
                  "dependent before dependency");
      }
  }
}
// Components of arbitrary groups of elements.
struct GSCC {
  std::vector<int> elems;
  const Adj *adj;
};
namespace marco::modeling::dependency {
template <>
struct SCCTraits<GSCC> {
  using ElementRef = int;
  static std::vector<int> getElements(const GSCC *s) { return s->elems; }
  static std::vector<int> getDependencies(const GSCC *s, int e) {
    return std::vector<int>((*s->adj)[e].begin(), (*s->adj)[e].end());
  }
};
} // namespace marco::modeling::dependency
VF_STREAM("C13", "groups", 6000, 40000, "the graph of the groups has an edge") {
  int n = c.rng.in(1, c.thorough ? 40 : 16);
  Adj a = randomGraph(c.rng, n);
  auto comp = components(a);
  // Components, as groups: an acyclic graph of groups.
  std::map<int, std::vector<int>> byComp;
  for (int i = 0; i < n; ++i)
    byComp[comp[i]].push_back(i);
  std::vector<GSCC> groups;
  for (auto &kv : byComp) {
    c.rng.shuffle(kv.second);
    groups.push_back({kv.second, &a});
  }
  c.rng.shuffle(groups);
  for (auto &g : groups) {
    std::string t;
    for (int e : g.elems) {
      t += " " + std::to_string(e) + " ->";
      for (int d : a[e])
        t += " " + std::to_string(d);
      t += ";";
    }
    c.note("group", t);
  }
  mm::SCCsDependencyGraph<GSCC> g;
  g.addSCCs(groups);
  std::vector<int> where(n, -1);
  int k = 0;
  for (auto d : g.postOrder()) {
    for (int e : g[d].elems) {
      c.check(where[e] < 0, "group-repeated", "group listed twice");
      where[e] = k;
    }
    ++k;
  }
  size_t cross = 0;
  for (int v = 0; v < n; ++v) {
    c.check(where[v] >= 0, "group-missing", "group not listed");
    for (int w : a[v])
      if (comp[v] != comp[w]) {
        ++cross;
        c.check(where[w] < where[v], "group-order",
                "group of " + std::to_string(v) + " before the one of " +
                    std::to_string(w));
      }
  }
  if (cross)
    c.nontrivial();
  c.count("cross-dependencies", cross);
  auto rev = g.reversePostOrder();
  auto po = g.postOrder();
  c.check(rev.size() == po.size() &&
              std::equal(rev.rbegin(), rev.rend(), po.begin()),
          "group-reverse", "reverse post order");
}

//===---------------------------------------------------------------------===//
// C14: decomposition by loops.
using DG = mm::DependencyGraph<DVar, DEqP>;
struct Piece {
  uint64_t eq;
  MSet idx;
  std::shared_ptr<mm::IndexSet> set;
};
static std::vector<std::vector<Piece>> decompose(const DSys &s) {
  DG g(ctx());
  g.addEquations(ptrs(s));
  std::vector<std::vector<Piece>> r;
  for (auto &scc : g.getSCCs()) {
    r.emplace_back();
    for (auto &view : scc)
      r.back().push_back({g[*view]->id, toModel(view.getIndices()),
                          std::make_shared<mm::IndexSet>(view.getIndices())});
  }
  return r;
}
static void judgePieces(vf::Case &c, const DSys &s, bool loops = true) {
  Scalars ref = scalarize(s);
  auto comp = components(ref.adj);
  auto pieces = decompose(s);
  std::vector<int> where(ref.eq.size(), -1);
  for (size_t i = 0; i < pieces.size(); ++i) {
    std::string t;
    for (auto &p : pieces[i])
      t += " eq " + std::to_string(p.eq) + " " + str(p.idx) + ";";
    c.note("piece", t);
    c.check(!pieces[i].empty(), "empty-piece", "empty piece");
    c.count(pieces[i].size() > 1 ? "cyclic-pieces" : "plain-pieces");
    for (auto &p : pieces[i]) {
      c.check(!p.idx.empty(), "empty-view", "view without indices");
      for (auto &q : p.idx) {
        auto it = ref.pos.find({p.eq, q});
        if (!c.check(it != ref.pos.end(), "foreign",
                     "no such scalar equation: " + str(Scal{p.eq, q})))
          continue;
        c.check(where[it->second] < 0, "twice",
                str(ref.eq[it->second]) + " covered twice");
        where[it->second] = i;
      }
    }
  }
  for (size_t i = 0; i < ref.eq.size(); ++i)
    c.check(where[i] >= 0, "uncovered", str(ref.eq[i]) + " not covered");
  if (c.failed() || !loops)
    return;
  // Array equations that are not in a loop, not even as a whole, stay apart.
  {
    auto ac = components(arrayDeps(s));
    std::map<uint64_t, int> pos;
    for (size_t i = 0; i < s.eqs.size(); ++i)
      pos[s.eqs[i]->id] = ac[i];
    for (auto &p : pieces)
      for (auto &x : p)
        c.check(pos.at(x.eq) == pos.at(p[0].eq), "unrelated",
                "equations " + std::to_string(p[0].eq) + " and " +
                    std::to_string(x.eq) + " joined in a piece");
  }
  bool loop = false;
  for (size_t i = 0; i < ref.eq.size(); ++i)
    for (size_t j = 0; j < i; ++j)
      if (comp[i] == comp[j]) {
        loop = true;
        c.check(where[i] == where[j], "loop-split",
                str(ref.eq[j]) + " and " + str(ref.eq[i]) +
                    " depend on each other but are in different pieces");
      }
  if (loop)
    c.nontrivial();
  c.count(loop ? "systems-with-loops" : "systems-without-loops");
  // Pieces must be computable one after the other.
  Adj pa(pieces.size());
  for (size_t i = 0; i < ref.eq.size(); ++i)
    for (int j : ref.adj[i])
      if (where[i] != where[j])
        pa[where[i]].insert(where[j]);
  auto pc = components(pa);
  for (size_t i = 0; i < pieces.size(); ++i)
    for (size_t j = 0; j < i; ++j)
      c.check(pc[i] != pc[j], "pieces-loop",
              "pieces " + std::to_string(j) + " and " + std::to_string(i) +
                  " depend on each other");
}
VF_STREAM("C14", "matched", 9000, 60000, "the system has a scalar loop") {
  DGen d(c.rng);
  genDep(d, c, 2);
  noteDSys(c, d.sys);
  judgePieces(c, d.sys);
}
VF_STREAM("C14", "scalar", 4500, 30000, "the system has a scalar loop") {
  int n = c.rng.in(1, c.thorough ? 12 : 7);
  DSys s = realise(c.rng, randomGraph(c.rng, n));
  noteDSys(c, s);
  judgePieces(c, s);
}
// Arrays which are determined piecewise and read each other over ranges that
// overlap: loops share a part of their equations.
static DSys interwoven(vf::Rng &r, bool big) {
  SysGen g(r);
  DSys s;
  size_t rank = r.chance(1, 4) ? 2 : 1;
  int64_t n = rank == 1 ? r.in(3, big ? 12 : 7) : r.in(2, 3);
  int nv = r.in(2, 4);
  MSet all;
  {
    MBox b(rank, {0, n});
    all = boxPoints(b);
  }
  for (int i = 0; i < nv; ++i)
    g.addVar(all);
  s.vars = g.s.vars;
  auto shifted = [&](const std::vector<int64_t> &off) {
    Fn f;
    f.dims = rank;
    for (size_t i = 0; i < rank; ++i) {
      ExP d = ex(Ex::Dim, i);
      f.res.push_back(off[i] == 0 ? d
                                  : ex(Ex::Add, d, ex(Ex::Const, off[i])));
    }
    return f;
  };
  for (auto &v : s.vars) {
    // Cut along the first dimension.
    std::set<int64_t> cuts{0, n};
    for (int k = r.in(0, 3); k > 0; --k)
      cuts.insert(r.in(0, n));
    for (auto it = cuts.begin(); std::next(it) != cuts.end(); ++it) {
      MSet pts;
      std::vector<int64_t> w(rank);
      for (auto &o : w)
        o = r.chance(1, 4) ? r.in(-2, 2) : 0;
      for (auto p : all)
        if (p[0] >= *it && p[0] < *std::next(it)) {
          for (size_t i = 0; i < rank; ++i)
            p[i] -= w[i];
          pts.insert(p);
        }
      SEq &e = g.addEq(pts);
      auto q = std::make_unique<DEq>();
      q->id = e.id;
      q->idx = e.idx;
      q->set = e.set;
      q->writes.push_back({v.id, shifted(w)});
      for (int k = r.in(0, 3); k > 0; --k) {
        const SVar &t = r.pick(s.vars);
        std::vector<int64_t> o = w;
        if (r.chance(1, 5))
          o[r.next() % rank] += r.coin() ? 1 : -1;
        SAcc a{t.id, shifted(o)};
        if (!DGen::within(*q, a) && SysGen::inside(a.fn, q->idx, all))
          q->reads.push_back(a);
      }
      s.eqs.push_back(std::move(q));
    }
  }
  r.shuffle(s.eqs);
  return s;
}
VF_STREAM("C14", "interwoven", 9000, 80000, "the system has a scalar loop") {
  DSys s = interwoven(c.rng, c.thorough || c.rng.chance(1, 4));
  noteDSys(c, s);
  judgePieces(c, s);
}
// Equations with several accesses to what they determine: which of them is the
// written one depends on the piece, but the cover must be exact anyway.
VF_STREAM("C14", "several-writes", 3000, 20000,
          "an equation with several writes is decomposed") {
  DGen d(c.rng);
  genDep(d, c, 2);
  bool any = false;
  for (auto &e : d.sys.eqs) {
    const SVar *v = nullptr;
    for (auto &x : d.sys.vars)
      if (x.id == e->writes[0].var)
        v = &x;
    for (int k = 0; k < 6 && e->writes.size() < 3; ++k) {
      SAcc a{v->id, d.g.access(e->idx, v->idx, c.rng.in(0, 2))};
      if (DGen::within(*e, a)) {
        e->writes.push_back(a);
        any = true;
      }
    }
    c.rng.shuffle(e->writes);
  }
  noteDSys(c, d.sys);
  if (any)
    c.nontrivial();
  judgePieces(c, d.sys, false);
}

//===---------------------------------------------------------------------===//
// C15: schedules.
struct SSCC {
  std::vector<DEqP> elems;
  const std::map<DEqP, std::vector<DEqP>> *deps;
};
namespace marco::modeling::dependency {
template <>
struct SCCTraits<SSCC> {
  using ElementRef = DEqP;
  static std::vector<DEqP> getElements(const SSCC *s) { return s->elems; }
  static std::vector<DEqP> getDependencies(const SSCC *s, DEqP e) {
    return s->deps->at(e);
  }
};
} // namespace marco::modeling::dependency

// Drops the reads by which an equation depends, element by element, on itself
// in a loop. Such loops are solved before the schedule is computed.
static void dropLocalLoops(DSys &s) {
  for (auto &e : s.eqs) {
    auto cyclic = [&](const std::vector<SAcc> &reads) {
      std::map<Scal, int> writer;
      std::vector<P> pts(e->idx.begin(), e->idx.end());
      for (size_t i = 0; i < pts.size(); ++i)
        for (auto &w : touchedBy(e->writes, pts[i]))
          writer[w] = i;
      Adj a(pts.size());
      for (size_t i = 0; i < pts.size(); ++i)
        for (auto &t : touchedBy(reads, pts[i])) {
          auto it = writer.find(t);
          if (it == writer.end())
            continue;
          if (it->second == (int)i)
            return true;
          a[i].insert(it->second);
        }
      auto comp = components(a);
      std::set<int> distinct(comp.begin(), comp.end());
      return distinct.size() != pts.size();
    };
    std::vector<SAcc> kept;
    for (auto &r : e->reads) {
      kept.push_back(r);
      if (cyclic(kept))
        kept.pop_back();
    }
    e->reads = kept;
  }
}
// The blocks: groups of equations, each group being executed as a whole.
using Groups = std::vector<std::vector<DEqP>>;

static void judgeSchedule(vf::Case &c, const DSys &s, const Groups &groups) {
  using D = mm::scheduling::Direction;
  std::map<DEqP, std::vector<DEqP>> deps;
  {
    Adj a = arrayDeps(s);
    for (size_t i = 0; i < s.eqs.size(); ++i) {
      auto &l = deps[s.eqs[i].get()];
      for (int j : a[i])
        l.push_back(s.eqs[j].get());
      c.rng.shuffle(l);
    }
  }
  std::vector<SSCC> in;
  std::set<std::set<uint64_t>> loops;
  for (auto &g : groups) {
    in.push_back({g, &deps});
    if (g.size() > 1) {
      std::set<uint64_t> ids;
      for (auto e : g)
        ids.insert(e->id);
      loops.insert(ids);
    }
  }
  auto out = mm::Scheduler<DVar, SSCC>(ctx()).schedule(in);

  // When each scalar equation is executed: block, and position in the block.
  Scalars ref = scalarize(s);
  std::vector<int> block(ref.eq.size(), -1);
  struct Info {
    bool loop;
    std::vector<D> dirs;
  };
  std::vector<Info> info;
  for (size_t b = 0; b < out.size(); ++b) {
    const auto &scc = out[b];
    std::string t;
    info.push_back({scc.size() > 1, {}});
    std::set<uint64_t> ids;
    for (const auto &q : scc) {
      DEqP e = q.getEquation();
      ids.insert(e->id);
      t += " eq " + std::to_string(e->id) + " [";
      for (D d : q.getIterationDirections())
        t += d == D::Any        ? "*"
             : d == D::Forward  ? "+"
             : d == D::Backward ? "-"
                                : "?";
      MSet m = toModel(q.getIndexes());
      t += "] " + str(m);
      c.check(!m.empty(), "empty-block", "block without indices");
      c.check(q.getIterationDirections().size() == e->rank(), "directions",
              "wrong number of directions");
      for (auto &p : m) {
        auto it = ref.pos.find({e->id, p});
        if (!c.check(it != ref.pos.end(), "foreign",
                     "no such scalar equation: " + str(Scal{e->id, p})))
          continue;
        c.check(block[it->second] < 0, "twice",
                str(ref.eq[it->second]) + " executed twice");
        block[it->second] = b;
      }
      if (!info[b].loop) {
        for (D d : q.getIterationDirections()) {
          info[b].dirs.push_back(d);
          c.check(d != D::Unknown, "unknown-direction",
                  "equation outside loops with unknown direction");
          c.count(d == D::Any       ? "direction-any"
                  : d == D::Forward ? "direction-forward"
                                    : "direction-backward");
        }
        c.count(m.size() > 1 ? "range-blocks" : "scalar-blocks");
      }
    }
    c.note("block", t);
    if (info[b].loop) {
      c.count("loop-blocks");
      c.check(loops.count(ids), "invented-loop",
              "the block reported as a loop is not one of the given ones");
    }
  }
  for (size_t i = 0; i < ref.eq.size(); ++i)
    c.check(block[i] >= 0, "not-executed", str(ref.eq[i]) + " not executed");
  if (c.failed())
    return;
  size_t within = 0, across = 0;
  for (size_t i = 0; i < ref.eq.size(); ++i)
    for (int j : ref.adj[i]) {
      if (block[i] != block[j]) {
        ++across;
        c.check(block[j] < block[i], "block-order",
                str(ref.eq[i]) + " executed before " + str(ref.eq[j]) +
                    ", which it depends on");
        continue;
      }
      const Info &f = info[block[i]];
      if (f.loop)
        continue;
      ++within;
      const P &r = ref.eq[i].second, &w = ref.eq[j].second;
      bool ok = false;
      for (size_t k = 0; k < r.size(); ++k)
        if (r[k] != w[k]) {
          ok = (f.dirs[k] == D::Forward && w[k] < r[k]) ||
               (f.dirs[k] == D::Backward && w[k] > r[k]);
          break;
        }
      c.check(ok, "loop-direction",
              str(ref.eq[i]) + " is executed before " + str(ref.eq[j]) +
                  ", which it depends on, under the given directions");
    }
  c.count("dependencies-across-blocks", across);
  c.count("dependencies-within-blocks", within);
  if (within || across)
    c.nontrivial();
}
static Groups groupsOf(vf::Rng &r, const DSys &s) {
  auto comp = components(arrayDeps(s));
  std::map<int, std::vector<DEqP>> m;
  for (size_t i = 0; i < s.eqs.size(); ++i)
    m[comp[i]].push_back(s.eqs[i].get());
  Groups g;
  for (auto &kv : m) {
    r.shuffle(kv.second);
    g.push_back(kv.second);
  }
  r.shuffle(g);
  return g;
}
static const char *RULE15 = "some scalar equation depends on another one";
VF_STREAM("C15", "matched", 9000, 60000, RULE15) {
  DGen d(c.rng);
  genDep(d, c, 3);
  dropLocalLoops(d.sys);
  noteDSys(c, d.sys);
  judgeSchedule(c, d.sys, groupsOf(c.rng, d.sys));
}
// Recurrences only: the directions are what matters.
VF_STREAM("C15", "recurrences", 9000, 60000, RULE15) {
  DGen d(c.rng);
  bool big = c.rng.chance(1, 3);
  d.g.maxRank = c.rng.in(1, 3);
  d.g.side = big ? 7 : 5;
  d.g.maxPts = big ? 60 : 20;
  d.g.maxLevel = c.rng.in(0, 1);
  if (c.rng.chance(1, 4)) {
    d.base(c.rng.in(1, 2));
    d.addRecurrences();
    if (c.rng.coin())
      d.addRecurrences();
  }
  for (int k = c.rng.in(1, 2); k > 0; --k)
    d.addDirected();
  dropLocalLoops(d.sys);
  noteDSys(c, d.sys);
  judgeSchedule(c, d.sys, groupsOf(c.rng, d.sys));
}
// From the equations to the schedule: the pieces of the decomposition are the
// ones to be scheduled.
VF_STREAM("C15", "pipeline", 7500, 50000, RULE15) {
  DGen d(c.rng);
  genDep(d, c, 2);
  dropLocalLoops(d.sys);
  noteDSys(c, d.sys);
  auto pieces = decompose(d.sys);
  DSys s;
  s.vars = d.sys.vars;
  std::vector<std::vector<size_t>> pos;
  uint64_t next = 1000;
  for (auto &p : pieces) {
    pos.emplace_back();
    for (auto &x : p) {
      const DEq &o = d.sys.eq(x.eq);
      auto e = std::make_unique<DEq>(o);
      e->id = next++;
      e->idx = x.idx;
      e->set = x.set;
      c.note("piece ", pos.size() - 1, ": eq ", e->id, " is eq ", o.id, " over ",
             str(x.idx));
      pos.back().push_back(s.eqs.size());
      s.eqs.push_back(std::move(e));
    }
  }
  Groups g;
  for (auto &l : pos) {
    g.emplace_back();
    for (size_t i : l)
      g.back().push_back(s.eqs[i].get());
  }
  c.rng.shuffle(g);
  judgeSchedule(c, s, g);
}
