// C17, C18: graph containers and their textual form.
#include "compat.h"
#include "vf.h"
#include "marco/Modeling/Graph.h"
#include "marco/Modeling/GraphDumper.h"
#include "marco/Modeling/SingleEntryDigraph.h"
#include "llvm/ADT/DenseMap.h"
#include "llvm/ADT/DenseSet.h"
#include <algorithm>
#include "llvm/ADT/SetVector.h"
#include <memory>
#include <set>

namespace mi = marco::modeling::internal;
namespace md = marco::modeling::dependency;
using S = std::string;

// Properties count how many of them are alive.
static int64_t liveV, liveE;
template <int64_t *live>
struct Prop {
  std::unique_ptr<S> text;
  Prop(S t) : text(new S(std::move(t))) { ++*live; }
  Prop(const Prop &o) : text(new S(*o.text)) { ++*live; }
  Prop &operator=(const Prop &o) {
    text = std::make_unique<S>(*o.text);
    return *this;
  }
  ~Prop() { --*live; }
  friend llvm::hash_code hash_value(const Prop &p) {
    return llvm::hash_value(*p.text);
  }
};
using VP = Prop<&liveV>;
using EP = Prop<&liveE>;
struct EPD : EP { // SingleEntryDigraph needs a default
  EPD(S t = "none") : EP(std::move(t)) {}
};

template <typename G>
struct Hist {
  using VD = typename G::VertexDescriptor;
  using ED = typename G::EdgeDescriptor;
  struct MV {
    int id;
    S prop;
    VD d;
    bool alive = true;
  };
  struct ME {
    int from, to;
    S prop;
    ED d;
  };
  bool directed;
  std::vector<MV> v;
  std::vector<ME> e;
  int alive() const {
    return std::count_if(v.begin(), v.end(), [](auto &x) { return x.alive; });
  }
  int idOf(VD d) const {
    for (auto &x : v)
      if (x.alive && x.d == d)
        return x.id;
    return -1;
  }
  int pick(vf::Rng &r) const {
    std::vector<int> l;
    for (auto &x : v)
      if (x.alive)
        l.push_back(x.id);
    return l.empty() ? -1 : r.pick(l);
  }
};

using SS = std::vector<S>;
static S show(SS l) {
  S r;
  for (auto &x : l)
    r += (r.empty() ? "" : ", ") + x;
  return "[" + r + "]";
}
static bool same(vf::Case &c, const S &what, SS got, SS want) {
  std::sort(got.begin(), got.end());
  std::sort(want.begin(), want.end());
  c.count("lists compared");
  c.count("entries compared", want.size());
  return c.check(got == want, what,
                 what + " gives " + show(got) + " instead of " + show(want));
}
static S un(bool directed, int a, int b, const S &p) {
  if (!directed && a > b)
    std::swap(a, b);
  return std::to_string(a) + ">" + std::to_string(b) + ":" + p;
}
static bool longProp(const S &p) { return p.size() % 2; }

// Compare everything the graph tells with the list of what was put in it.
template <typename G>
static void audit(vf::Case &c, G &g, Hist<G> &h) {
  const G &cg = g;
  bool dir = h.directed;
  c.count("audits");
  c.check(g.verticesCount() == (size_t)h.alive(), "verticesCount",
          "verticesCount() is " + std::to_string(g.verticesCount()) + " with " +
              std::to_string(h.alive()) + " vertices");
  c.check(g.edgesCount() == h.e.size(), "edgesCount",
          "edgesCount() is " + std::to_string(g.edgesCount()) + " with " +
              std::to_string(h.e.size()) + " edges");
  SS want, wantF, got, got2;
  for (auto &x : h.v)
    if (x.alive) {
      want.push_back(std::to_string(x.id) + ":" + x.prop);
      if (longProp(x.prop))
        wantF.push_back(want.back());
    }
  llvm::DenseSet<typename Hist<G>::VD> vset;
  for (auto d : g.getVertices()) {
    got.push_back(std::to_string(h.idOf(d)) + ":" + *g[d].text);
    c.check(vset.insert(d).second, "vertex-descriptor",
            "equal descriptors for two vertices");
  }
  for (auto it = cg.verticesBegin(), end = cg.verticesEnd(); it != end;) {
    auto d = *it++;
    got2.push_back(std::to_string(h.idOf(d)) + ":" + *cg[d].text);
  }
  c.check(got == got2, "vertices-unstable", "iterating twice gives two orders");
  same(c, "the list of vertices", got, want);
  got.clear();
  auto vf = [](const VP &p) { return longProp(*p.text); };
  auto ef = [](const EP &p) { return longProp(*p.text); };
  for (auto d :
       llvm::make_range(cg.verticesBegin(vf), cg.verticesEnd(vf)))
    got.push_back(std::to_string(h.idOf(d)) + ":" + *cg[d].text);
  same(c, "the filtered list of vertices", got, wantF);
  // Descriptors handed out long ago still reach their objects.
  for (auto &x : h.v)
    if (x.alive)
      c.check(vset.contains(x.d) && *cg[x.d].text == x.prop, "vertex-property",
              "the property of vertex " + std::to_string(x.id) + " changed");
  want.clear(), wantF.clear(), got.clear(), got2.clear();
  for (auto &x : h.e) {
    want.push_back(un(dir, x.from, x.to, x.prop));
    if (longProp(x.prop))
      wantF.push_back(want.back());
    c.check(*cg[x.d].text == x.prop, "edge-property",
            "the property of edge " + want.back() + " changed");
    c.check(h.idOf(x.d.from) == x.from && h.idOf(x.d.to) == x.to,
            "edge-descriptor", "the ends of edge " + want.back() + " changed");
  }
  for (auto d : cg.getEdges())
    got.push_back(un(dir, h.idOf(d.from), h.idOf(d.to), *g[d].text));
  for (auto it = g.edgesBegin(), end = g.edgesEnd(); it != end;) {
    auto d = *it++;
    got2.push_back(un(dir, h.idOf(d.from), h.idOf(d.to), *cg[d].text));
  }
  c.check(got == got2, "edges-unstable", "iterating twice gives two orders");
  same(c, "the list of edges", got, want);
  got.clear();
  for (auto d : llvm::make_range(cg.edgesBegin(ef), cg.edgesEnd(ef)))
    got.push_back(un(dir, h.idOf(d.from), h.idOf(d.to), *cg[d].text));
  same(c, "the filtered list of edges", got, wantF);
  for (auto &x : h.v) {
    if (!x.alive)
      continue;
    SS out, outF, lnk, lnkF, gOut, gOutF, gLnk, gLnkF;
    auto add = [&](int to, const S &p) {
      S s = std::to_string(to);
      out.push_back(s + ":" + p);
      lnk.push_back(s);
      if (longProp(p))
        outF.push_back(s + ":" + p);
      if (longProp(h.v[to].prop))
        lnkF.push_back(s);
    };
    for (auto &y : h.e) {
      if (y.from == x.id)
        add(y.to, y.prop);
      else if (!dir && y.to == x.id)
        add(y.from, y.prop);
    }
    for (auto d : cg.getOutgoingEdges(x.d)) {
      gOut.push_back(std::to_string(h.idOf(d.to)) + ":" + *cg[d].text);
      c.check(d.from == x.d, "outgoing-source",
              "an outgoing edge starts from another vertex");
    }
    for (auto d : g.getOutgoingEdges(x.d, ef))
      gOutF.push_back(std::to_string(h.idOf(d.to)) + ":" + *cg[d].text);
    for (auto it = cg.linkedVerticesBegin(x.d), end = cg.linkedVerticesEnd(x.d);
         it != end; it++)
      gLnk.push_back(std::to_string(h.idOf(*it)));
    for (auto d : cg.getLinkedVertices(x.d, vf))
      gLnkF.push_back(std::to_string(h.idOf(d)));
    S n = " of vertex " + std::to_string(x.id);
    same(c, "the outgoing edges", gOut, out);
    same(c, "the filtered outgoing edges", gOutF, outF);
    same(c, "the linked vertices", gLnk, lnk);
    same(c, "the filtered linked vertices", gLnkF, lnkF);
    if (c.failed()) {
      c.note("failed while looking at", n);
      return;
    }
  }
}

template <typename G>
static void history(vf::Case &c, bool directed) {
  auto &r = c.rng;
  int64_t lv = liveV, le = liveE;
  int nops = r.in(3, c.thorough ? 80 : 40);
  int wV = r.in(1, 4), wE = r.in(1, 8), wR = r.chance(1, 3) ? 0 : r.in(1, 3),
      wP = r.in(0, 2);
  bool loops = r.coin(), few = r.coin();
  unsigned rem = 0, self = 0, par = 0;
  {
    G g;
    Hist<G> h;
    h.directed = directed;
    audit(c, g, h);
    int uniq = 0;
    for (int i = 0; i < nops && !c.failed(); ++i) {
      int k = r.in(1, wV + wE + wR + wP);
      S p = (few ? S("p") : "p" + std::to_string(uniq++)) +
            S(r.in(0, 2), 'x');
      if (k <= wV || h.alive() == 0) {
        int id = h.v.size();
        auto d = g.addVertex(VP(p));
        c.note("addVertex ", id, " ", p);
        h.v.push_back({id, p, d});
      } else if (k <= wV + wE) {
        int a = h.pick(r), b = h.pick(r);
        if (a == b && !loops)
          continue;
        self += a == b;
        for (auto &x : h.e)
          par += x.from == a && x.to == b;
        c.note("addEdge ", a, " ", b, " ", p);
        auto d = g.addEdge(h.v[a].d, h.v[b].d, EP(p));
        h.e.push_back({a, b, p, d});
      } else if (k <= wV + wE + wR) {
        int a = h.pick(r);
        c.note("removeVertex ", a);
        ++rem;
        g.removeVertex(h.v[a].d);
        h.v[a].alive = false;
        h.e.erase(std::remove_if(h.e.begin(), h.e.end(),
                                 [&](auto &x) {
                                   return x.from == a || x.to == a;
                                 }),
                  h.e.end());
      } else if (h.e.empty() || r.coin()) {
        int a = h.pick(r);
        c.note("set vertex ", a, " ", p);
        h.v[a].prop = p;
        g[h.v[a].d] = VP(p);
      } else {
        auto &x = h.e[r.next() % h.e.size()];
        c.note("set edge ", x.from, ">", x.to, " ", p);
        x.prop = p;
        g[x.d] = EP(p);
      }
      c.count("operations");
      if (r.chance(1, 3) || i + 1 == nops)
        audit(c, g, h);
    }
    c.count("vertices removed", rem);
    c.count("self loops", self);
    c.count("parallel edges", par);
    if (h.v.size() > 2 && h.e.size() > 1)
      c.nontrivial();
  }
  c.check(liveV == lv && liveE == le, "property-lifetime",
          "after destroying the graph " + std::to_string(liveV - lv) +
              " vertex and " + std::to_string(liveE - le) +
              " edge properties are alive");
}

VF_STREAM("C17", "directed", 8000, 200000,
          "random histories on a directed graph; at least three vertices were "
          "added and two edges are left") {
  history<mi::DirectedGraph<VP, EP>>(c, true);
}
VF_STREAM("C17", "undirected", 8000, 200000,
          "random histories on an undirected graph; at least three vertices "
          "were added and two edges are left") {
  history<mi::UndirectedGraph<VP, EP>>(c, false);
}

// Descriptors as keys: sets and maps of them, against sets of numbers.
template <typename D>
static void keys(vf::Case &c, const S &what, const std::vector<D> &all,
                 const std::vector<D> &again) {
  auto &r = c.rng;
  std::set<size_t> model;
  std::set<D> ordered;
  llvm::DenseSet<D> hashed;
  llvm::DenseMap<D, size_t> map;
  llvm::SetVector<D> vec;
  for (size_t i = 0; i < all.size(); ++i) {
    c.check(!(all[i] < again[i]) && !(again[i] < all[i]), what + "-order",
            what + " descriptors are less than themselves");
    c.check(all[i] == again[i] && !(all[i] != again[i]), what + "-equality",
            what + " descriptors differ from themselves");
  }
  for (int n = r.in(1, c.thorough ? 200 : 60); n > 0 && !c.failed(); --n) {
    size_t i = r.next() % all.size();
    const D &d = r.coin() ? all[i] : again[i];
    bool in = model.count(i);
    switch (r.in(0, 2)) {
    case 0:
      c.note("insert ", i);
      c.check(ordered.insert(d).second == !in, what + "-ordered",
              what + " descriptors in std::set: wrong insertion");
      c.check(hashed.insert(d).second == !in, what + "-hashed",
              what + " descriptors in DenseSet: wrong insertion");
      c.check(map.try_emplace(d, i).second == !in, what + "-map",
              what + " descriptors in DenseMap: wrong insertion");
      c.check(vec.insert(d) == !in, what + "-vector",
              what + " descriptors in SetVector: wrong insertion");
      model.insert(i);
      break;
    case 1:
      c.note("erase ", i);
      c.check((ordered.erase(d) == 1) == in, what + "-ordered",
              what + " descriptors in std::set: wrong removal");
      c.check(hashed.erase(d) == in, what + "-hashed",
              what + " descriptors in DenseSet: wrong removal");
      c.check(map.erase(d) == in, what + "-map",
              what + " descriptors in DenseMap: wrong removal");
      c.check(vec.remove(d) == in, what + "-vector",
              what + " descriptors in SetVector: wrong removal");
      model.erase(i);
      break;
    default: {
      auto it = map.find(d);
      c.check((ordered.count(d) == 1) == in && hashed.contains(d) == in &&
                  vec.contains(d) == in &&
                  (it == map.end() ? !in : in && it->second == i),
              what + "-lookup", what + " descriptors: wrong lookup");
    }
    }
    size_t m = model.size();
    c.check(ordered.size() == m && hashed.size() == m && map.size() == m &&
                vec.size() == m &&
                (size_t)std::distance(hashed.begin(), hashed.end()) == m,
            what + "-size", what + " descriptors: wrong size");
    c.count("operations on containers");
  }
}

template <typename G>
static void keysOf(vf::Case &c) {
  auto &r = c.rng;
  G g;
  std::vector<typename G::VertexDescriptor> v, v2;
  for (int n = r.in(1, 8); n > 0; --n)
    v.push_back(g.addVertex(VP("v")));
  for (int n = r.in(0, 20); n > 0; --n)
    g.addEdge(r.pick(v), r.pick(v), EP("e"));
  for (auto d : v)
    for (auto x : g.getVertices())
      if (x == d)
        v2.push_back(x);
  if (!c.check(v2.size() == v.size(), "vertex-equality",
               "descriptors equal to one another, or to no listed vertex"))
    return;
  keys(c, "vertex", v, v2);
  std::vector<typename G::EdgeDescriptor> e, e2;
  for (auto d : v)
    for (auto x : g.getOutgoingEdges(d))
      e.push_back(x);
  for (auto d : v)
    for (auto it = g.outgoingEdgesBegin(d); it != g.outgoingEdgesEnd(d); it++)
      e2.push_back(*it);
  if (!e.empty())
    keys(c, "edge", e, e2);
  if (e.size() > 2)
    c.nontrivial();
}

VF_STREAM("C17", "keys", 4000, 80000,
          "descriptors of random graphs as keys of sets and maps; at least "
          "three edges") {
  if (c.rng.coin())
    keysOf<mi::DirectedGraph<VP, EP>>(c);
  else
    keysOf<mi::UndirectedGraph<VP, EP>>(c);
}

VF_STREAM("C17", "single-entry", 3000, 60000,
          "random graphs with an entry node, at least three vertices and two "
          "edges") {
  auto &r = c.rng;
  int64_t lv = liveV, le = liveE;
  {
    using G = md::SingleEntryDigraph<VP, EPD>;
    G g;
    const G &cg = g;
    using VD = G::VertexDescriptor;
    std::vector<std::pair<S, VD>> v;
    struct E {
      int a, b;
      S p;
      G::EdgeDescriptor d;
    };
    std::vector<E> e;
    auto name = [&](VD d) -> int {
      if (d == g.getEntryNode())
        return -1;
      for (size_t i = 0; i < v.size(); ++i)
        if (v[i].second == d)
          return i;
      return -2;
    };
    auto str = [&](int a) { return std::to_string(a); };
    int n = r.in(1, 25);
    for (int i = 0; i < n && !c.failed(); ++i) {
      S p = "p" + S(r.in(0, 3), 'x');
      if (v.empty() || r.chance(1, 3)) {
        c.note("vertex ", p);
        auto d = g.addVertex(VP(p));
        v.push_back({p, d});
      } else {
        int a = r.in(-1, v.size() - 1), b = r.in(0, v.size() - 1);
        c.note("edge ", a, " ", b, " ", p);
        auto d = g.addEdge(a < 0 ? g.getEntryNode() : v[a].second, v[b].second,
                           EPD(p));
        e.push_back({a, b, p, d});
      }
      c.count("operations");
      if (i + 1 != n && !r.chance(1, 4))
        continue;
      c.count("audits");
      SS want, got;
      for (size_t k = 0; k < v.size(); ++k)
        want.push_back(str(k) + ":" + v[k].first);
      for (auto it = cg.verticesBegin(), end = cg.verticesEnd(); it != end;
           ++it)
        got.push_back(str(name(*it)) + ":" + *cg[*it].text);
      same(c, "the list of vertices", got, want);
      want.clear(), got.clear();
      for (auto &x : e)
        want.push_back(un(true, x.a, x.b, x.p));
      for (auto d : cg.getEdges())
        got.push_back(un(true, name(d.from), name(d.to), *cg[d].text));
      same(c, "the list of edges", got, want);
      for (int a = -1; a < (int)v.size(); ++a) {
        VD d = a < 0 ? g.getEntryNode() : v[a].second;
        SS out, lnk, gOut, gLnk;
        for (auto &x : e)
          if (x.a == a)
            out.push_back(str(x.b) + ":" + x.p), lnk.push_back(str(x.b));
        for (auto it = cg.outgoingEdgesBegin(d), end = cg.outgoingEdgesEnd(d);
             it != end; ++it)
          gOut.push_back(str(name((*it).to)) + ":" + *cg[*it].text);
        for (auto it = cg.linkedVerticesBegin(d), end = cg.linkedVerticesEnd(d);
             it != end; ++it)
          gLnk.push_back(str(name(*it)));
        same(c, "the outgoing edges", gOut, out);
        same(c, "the linked vertices", gLnk, lnk);
      }
    }
    if (v.size() > 2 && e.size() > 1)
      c.nontrivial();
  }
  c.check(liveV == lv && liveE == le, "property-lifetime",
          "properties are alive after the graph was destroyed");
}

// --- Dumps ---------------------------------------------------------------

template <typename G>
static void dumpCase(vf::Case &c, bool directed, bool large) {
  auto &r = c.rng;
  G g;
  int n = large ? r.in(20, c.thorough ? 1500 : 760) : r.in(0, 30);
  std::vector<typename G::VertexDescriptor> v;
  SS name;
  bool dup = r.coin(); // vertices printing the same text
  for (int i = 0; i < n; ++i) {
    S p = dup ? "v" + std::to_string(i % 3) : "vertex " + std::to_string(i);
    v.push_back(g.addVertex(VP(p)));
    name.push_back(p);
  }
  int m = n ? r.in(0, large ? 100 : 3 * n) : 0;
  std::vector<std::tuple<int, int, S>> e;
  for (int i = 0; i < m; ++i) {
    int a = r.in(0, n - 1), b = r.chance(1, 8) ? a : r.in(0, n - 1);
    S p = dup ? S("e") : "e(" + std::to_string(i) + ")";
    g.addEdge(v[a], v[b], EP(p));
    e.push_back({a, b, p});
  }
  int gone = n && r.chance(1, 4) ? r.in(0, n - 1) : -1;
  if (gone >= 0) {
    g.removeVertex(v[gone]);
    e.erase(std::remove_if(e.begin(), e.end(),
                           [&](auto &x) {
                             return std::get<0>(x) == gone ||
                                    std::get<1>(x) == gone;
                           }),
            e.end());
  }
  int mode = r.in(0, 3); // bit 0: edge printer, bit 1: null vertex printer
  bool ep = mode & 1, vp = mode < 2;
  c.note("n ", n, " m ", m, " removed ", gone, " mode ", mode);
  auto pv = [](const VP &p, llvm::raw_ostream &os) { os << *p.text; };
  auto pe = [](const EP &p, llvm::raw_ostream &os) { os << *p.text; };
  std::unique_ptr<mi::GraphDumper<>> d;
  bool tmp = r.coin(); // printers given as temporaries
  if (vp && ep) {
    if (tmp)
      d = std::make_unique<mi::GraphDumper<>>(
          &g, [q = S("")](const VP &p, llvm::raw_ostream &os) {
            os << *p.text << q;
          },
          [](const EP &p, llvm::raw_ostream &os) { os << *p.text; });
    else
      d = std::make_unique<mi::GraphDumper<>>(&g, pv, pe);
  } else if (vp)
    d = std::make_unique<mi::GraphDumper<>>(&g, pv);
  else if (ep)
    d = std::make_unique<mi::GraphDumper<>>(&g, nullptr, pe);
  else
    d = std::make_unique<mi::GraphDumper<>>(&g, nullptr);
  S prev;
  for (int round = 0; round < 2; ++round) {
    S text;
    {
      llvm::raw_string_ostream os(text);
      static_cast<mi::Dumpable &>(*d).dump(os);
    }
    c.count("dumps");
    if (round) {
      c.check(text == prev, "second-dump", "dumping again gives another text");
      break;
    }
    prev = text;
    // Parse the statements.
    std::map<S, S> nodes;
    SS gotV, wantV, gotE, wantE;
    std::vector<std::tuple<S, S, S>> edges;
    c.check(text.empty() || text.back() == '\n', "syntax",
            "the last statement is not terminated");
    size_t pos = 0;
    while (pos < text.size() && !c.failed()) {
      size_t nl = text.find('\n', pos);
      if (nl == S::npos)
        break;
      S line = text.substr(pos, nl - pos);
      pos = nl + 1;
      c.count("statements");
      size_t k = 0;
      while (k < line.size() && isalnum((unsigned char)line[k]))
        ++k;
      S id = line.substr(0, k), rest = line.substr(k);
      if (!c.check(k > 0, "syntax", "statement without a node: " + line))
        return;
      auto ends = [&](const S &s) {
        return rest.size() >= s.size() &&
               rest.compare(rest.size() - s.size(), s.size(), s) == 0;
      };
      bool isEdge = rest.rfind(" --", 0) == 0;
      if (!isEdge) {
        S label;
        if (vp) {
          if (!c.check(rest.rfind("(\"", 0) == 0 && rest.size() >= 4 &&
                           ends("\")"),
                       "syntax", "not a node statement: " + line))
            return;
          label = rest.substr(2, rest.size() - 4);
        } else if (!c.check(rest.empty(), "syntax",
                            "not a node statement: " + line))
          return;
        if (!c.check(nodes.emplace(id, label).second, "duplicate-node",
                     "two nodes are called " + id))
          return;
        gotV.push_back(label);
        continue;
      }
      size_t arrow = rest.rfind("--> ");
      if (!c.check(arrow != S::npos, "syntax", "not an edge: " + line))
        return;
      S to = rest.substr(arrow + 4);
      S mid = rest.substr(0, arrow); // ' ' or ' --"label"'
      S label;
      if (ep) {
        if (!c.check(mid.size() >= 5 && mid.rfind(" --\"", 0) == 0 &&
                         mid.back() == '"',
                     "syntax", "the edge has no label: " + line))
          return;
        label = mid.substr(4, mid.size() - 5);
      } else if (!c.check(mid == " ", "syntax", "not an edge: " + line))
        return;
      edges.push_back({id, to, label});
    }
    // Identifiers follow the order of the vertices given by the graph.
    std::map<S, int> idOf;
    for (auto &[a, b, p] : edges)
      for (const S &x : {a, b})
        c.check(nodes.count(x), "unknown-node",
                "an edge mentions " + x + ", which is not a node");
    for (int i = 0; i < n; ++i)
      if (i != gone)
        wantV.push_back(vp ? name[i] : "");
    same(c, "the dump of the vertices", gotV, wantV);
    auto lab = [&](const S &a, const S &b, const S &p) {
      S x = a, y = b;
      if (!directed && y < x)
        std::swap(x, y);
      return x + " -> " + y + " " + p;
    };
    if (vp)
      for (auto &[a, b, p] : edges)
        gotE.push_back(lab(nodes[a], nodes[b], p));
    else
      for (auto &x : edges)
        gotE.push_back(std::get<2>(x));
    for (auto &[a, b, p] : e)
      wantE.push_back(vp ? lab(name[a], name[b], ep ? p : "")
                         : (ep ? p : S()));
    same(c, "the dump of the edges", gotE, wantE);
  }
  if (n > 1 && !e.empty())
    c.nontrivial();
}

VF_STREAM("C18", "directed", 3000, 60000,
          "dump of a random directed graph with an edge at least") {
  dumpCase<mi::DirectedGraph<VP, EP>>(c, true, false);
}
VF_STREAM("C18", "undirected", 3000, 60000,
          "dump of a random undirected graph with an edge at least") {
  dumpCase<mi::UndirectedGraph<VP, EP>>(c, false, false);
}
VF_STREAM("C18", "large", 200, 4000,
          "dump of a graph with more vertices than letters and letter pairs") {
  dumpCase<mi::DirectedGraph<VP, EP>>(c, true, true);
}
