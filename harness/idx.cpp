// C01: IndexSet == finite set of points, over any operation history.
// C02: range / multidimensional range / point algebra.
// C03: spatial index (R-tree): structure and content.
#include "idxutil.h"
#include "marco/Modeling/RTree.h"

using namespace marco::modeling;
using vf::Case;

namespace {
Dom genDom(vf::Rng &r, size_t maxRank = 4) {
  Dom d;
  d.rank = r.in(1, maxRank);
  static const int64_t ext[] = {0, 40, 12, 6, 4};
  // Occasionally shift the domain far from the origin (also negative).
  for (size_t i = 0; i < d.rank; ++i) {
    int64_t e = r.in(2, ext[d.rank]);
    int64_t lo = r.in(-6, 6);
    if (r.chance(1, 8))
      lo += (r.coin() ? 1 : -1) * (int64_t(1) << r.in(20, 45));
    d.lim.emplace_back(lo, lo + e);
  }
  return d;
}

struct Reg {
  IndexSet s;
  MSet m;
};

bool verify(Case &c, const IndexSet &s, const MSet &m, const std::string &what,
            size_t rank) {
  c.count("set_states_compared");
  MSet got;
  size_t n = 0;
  for (Point p : s) {
    P q = toP(p);
    ++n;
    if (q.size() != rank) {
      c.fail("rank:" + what, "point of wrong rank " + str(q));
      return false;
    }
    if (!got.insert(q).second) {
      c.fail("duplicate:" + what, "iteration yields " + str(q) +
                                      " more than once; set=" + ostr(s));
      return false;
    }
    if (n > 200000) {
      c.fail("endless:" + what, "iteration does not end");
      return false;
    }
  }
  c.count("points_observed", n);
  if (got != m) {
    c.fail("content:" + what,
           "expected " + str(m) + " got " + str(got) +
               " missing=" + str(minusS(m, got)) +
               " extra=" + str(minusS(got, m)) + " set=" + ostr(s));
    return false;
  }
  if (s.size() != m.size()) {
    c.fail("size:" + what, "size()=" + std::to_string(s.size()) +
                               " but there are " + std::to_string(m.size()) +
                               " points");
    return false;
  }
  if (s.empty() != m.empty()) {
    c.fail("empty:" + what, "empty() disagrees with the content");
    return false;
  }
  std::vector<MBox> boxes;
  for (auto it = s.rangesBegin(), e = s.rangesEnd(); it != e; ++it)
    boxes.push_back(toBox(*it));
  for (size_t i = 0; i < boxes.size(); ++i)
    for (size_t j = i + 1; j < boxes.size(); ++j)
      if (boxesOverlap(boxes[i], boxes[j])) {
        c.fail("overlap:" + what, "stored ranges overlap: " + str(boxes[i]) +
                                      " " + str(boxes[j]));
        return false;
      }
  if (!s.isValid()) {
    c.fail("rtree:" + what, "spatial index invariants broken: " + ostr(s));
    return false;
  }
  return true;
}

void queries(Case &c, const Reg &a, const Reg &b, const Dom &d) {
  auto &r = c.rng;
  if (a.m.empty() && b.m.empty())
    return;
  for (int i = 0; i < 6; ++i) {
    P p = genPoint(r, d);
    if (!a.m.empty() && r.coin()) {
      auto it = a.m.begin();
      std::advance(it, r.in(0, a.m.size() - 1));
      p = *it;
      if (r.chance(1, 3))
        p[r.in(0, d.rank - 1)] += r.coin() ? 1 : -1;
    }
    c.check(a.s.contains(toPoint(p)) == (a.m.count(p) == 1), "contains(point)",
            "contains" + str(p) + " wrong for " + ostr(a.s));
  }
  for (int i = 0; i < 3; ++i) {
    MBox b2 = genBox(r, d, 6);
    MSet pts = boxPoints(b2);
    c.check(a.s.contains(toMR(b2)) == subset(pts, a.m), "contains(range)",
            "contains " + str(b2) + " wrong for " + ostr(a.s));
    c.check(a.s.overlaps(toMR(b2)) == !inter(pts, a.m).empty(),
            "overlaps(range)",
            "overlaps " + str(b2) + " wrong for " + ostr(a.s));
    c.check((a.s == toMR(b2)) == (a.m == pts), "equals(range)",
            "== " + str(b2) + " wrong for " + ostr(a.s));
  }
  c.check(a.s.contains(b.s) == subset(b.m, a.m), "contains(set)",
          ostr(a.s) + " contains " + ostr(b.s));
  c.check(b.s.contains(a.s) == subset(a.m, b.m), "contains(set)",
          ostr(b.s) + " contains " + ostr(a.s));
  c.check(a.s.overlaps(b.s) == !inter(a.m, b.m).empty(), "overlaps(set)",
          ostr(a.s) + " overlaps " + ostr(b.s));
  if (!a.m.empty() && !b.m.empty()) {
    c.check((a.s == b.s) == (a.m == b.m), "equals(set)",
            ostr(a.s) + " == " + ostr(b.s));
    c.check((a.s != b.s) == (a.m != b.m), "differs(set)",
            ostr(a.s) + " != " + ostr(b.s));
    if (a.m == b.m)
      c.check(hash_value(a.s) == hash_value(b.s), "hash",
              "equal sets with different hashes");
  }
  c.count("queries", 16);
}

llvm::SmallBitVector genMask(vf::Rng &r, size_t rank) {
  llvm::SmallBitVector m(rank);
  do {
    for (size_t i = 0; i < rank; ++i)
      m[i] = r.coin();
  } while (m.none());
  return m;
}

void derived(Case &c, const Reg &a, const Reg &b, const Dom &d) {
  auto &r = c.rng;
  switch (r.in(0, 11)) {
  case 0:
    verify(c, a.s + b.s, unite(a.m, b.m), "a+b", d.rank);
    break;
  case 1:
    verify(c, a.s - b.s, minusS(a.m, b.m), "a-b", d.rank);
    break;
  case 2:
    verify(c, a.s.intersect(b.s), inter(a.m, b.m), "a.intersect(b)", d.rank);
    break;
  case 3: {
    MBox x = genBox(r, d);
    verify(c, a.s.intersect(toMR(x)), inter(a.m, boxPoints(x)),
           "a.intersect(range)", d.rank);
    break;
  }
  case 4: {
    MBox x = genBox(r, d);
    verify(c, a.s.complement(toMR(x)), minusS(boxPoints(x), a.m),
           "a.complement(range)", d.rank);
    break;
  }
  case 5: {
    size_t n = r.in(1, d.rank);
    MSet e, f;
    for (auto &p : a.m) {
      e.insert(P(p.begin(), p.begin() + n));
      f.insert(P(p.end() - n, p.end()));
    }
    verify(c, a.s.takeFirstDimensions(n), e, "takeFirst", n);
    verify(c, a.s.takeLastDimensions(n), f, "takeLast", n);
    break;
  }
  case 6:
    if (d.rank > 1) {
      size_t n = r.in(1, d.rank - 1);
      MSet e, f;
      for (auto &p : a.m) {
        e.insert(P(p.begin() + n, p.end()));
        f.insert(P(p.begin(), p.end() - n));
      }
      verify(c, a.s.dropFirstDimensions(n), e, "dropFirst", d.rank - n);
      verify(c, a.s.dropLastDimensions(n), f, "dropLast", d.rank - n);
    }
    break;
  case 7: {
    llvm::SmallBitVector m = genMask(r, d.rank);
    llvm::BitVector bm(d.rank);
    for (size_t i = 0; i < d.rank; ++i)
      bm[i] = m[i];
    MSet e;
    for (auto &p : a.m) {
      P q;
      for (size_t i = 0; i < p.size(); ++i)
        if (m[i])
          q.push_back(p[i]);
      e.insert(q);
    }
    verify(c, a.s.takeDimensions(m), e, "takeDimensions", m.count());
    verify(c, a.s.slice(bm), e, "slice", m.count());
    break;
  }
  case 8:
    if (a.m.size() * b.m.size() <= 400 && !b.m.empty()) {
      MSet e, f;
      for (auto &p : a.m)
        for (auto &q : b.m) {
          P x = p, y = q;
          x.insert(x.end(), q.begin(), q.end());
          y.insert(y.end(), p.begin(), p.end());
          e.insert(x);
          f.insert(y);
        }
      verify(c, a.s.append(b.s), e, "append", 2 * d.rank);
      verify(c, a.s.prepend(b.s), f, "prepend", 2 * d.rank);
    }
    break;
  case 9: {
    llvm::SmallVector<MultidimensionalRange> rs;
    a.s.getCompactRanges(rs);
    MSet e;
    size_t n = 0;
    for (auto &x : rs) {
      MSet pts = boxPoints(toBox(x));
      n += pts.size();
      e.insert(pts.begin(), pts.end());
    }
    c.check(e == a.m, "compact-content",
            "compact ranges of " + ostr(a.s) + " cover " + str(e));
    c.check(n == e.size(), "compact-overlap",
            "compact ranges of " + ostr(a.s) + " overlap");
    break;
  }
  case 10: {
    MBox x = genBox(r, d, 5);
    verify(c, a.s + toMR(x), unite(a.m, boxPoints(x)), "a+range", d.rank);
    verify(c, a.s - toMR(x), minusS(a.m, boxPoints(x)), "a-range", d.rank);
    break;
  }
  case 11: {
    P x = genPoint(r, d);
    verify(c, a.s + toPoint(x), unite(a.m, MSet{x}), "a+point", d.rank);
    verify(c, a.s - toPoint(x), minusS(a.m, MSet{x}), "a-point", d.rank);
    break;
  }
  }
}

void history(Case &c, size_t minOps, size_t maxOps, bool cloud) {
  auto &r = c.rng;
  Dom d = genDom(r);
  if (cloud) {
    d.rank = r.in(1, 3);
    d.lim.clear();
    for (size_t i = 0; i < d.rank; ++i)
      d.lim.emplace_back(0, d.rank == 1 ? 400 : d.rank == 2 ? 24 : 9);
  }
  std::vector<Reg> regs(3);
  size_t ops = r.in(minOps, maxOps);
  std::string dims;
  for (auto &l : d.lim)
    dims += str(MBox{l});
  c.note("rank ", d.rank, " domain ", dims);
  uint64_t h = d.rank;
  size_t mutated = 0;
  for (size_t i = 0; i < ops && !c.failed(); ++i) {
    size_t x = r.in(0, 2), y = r.in(0, 2);
    Reg &a = regs[x];
    Reg &b = regs[y];
    int op = r.in(0, 12);
    std::string what;
    switch (op) {
    case 0: { // build from ranges
      llvm::SmallVector<MultidimensionalRange> rs;
      MSet m;
      size_t n = cloud ? r.in(1, 120) : r.in(1, 12);
      std::string t;
      for (size_t k = 0; k < n; ++k) {
        MBox q = genBox(r, d, cloud ? 10 : 4);
        t += str(q) + " ";
        rs.push_back(toMR(q));
        MSet pts = boxPoints(q);
        m.insert(pts.begin(), pts.end());
      }
      c.note("r", x, " = IndexSet(ranges) ", t);
      if (r.coin())
        a.s = IndexSet(rs);
      else
        a.s.setFromRanges(rs);
      a.m = m;
      what = "from-ranges";
      break;
    }
    case 1: { // build from points
      llvm::SmallVector<Point> ps;
      MSet m;
      size_t n = cloud ? r.in(1, 200) : r.in(1, 15);
      std::string t;
      for (size_t k = 0; k < n; ++k) {
        P q = genPoint(r, d);
        t += str(q) + " ";
        ps.push_back(toPoint(q));
        m.insert(q);
      }
      c.note("r", x, " = IndexSet(points) ", t);
      a.s = IndexSet(ps);
      a.m = m;
      what = "from-points";
      break;
    }
    case 2:
    case 3: {
      size_t n = cloud ? r.in(1, 40) : 1;
      for (size_t k = 0; k < n; ++k) {
        MBox q = genBox(r, d, cloud ? 10 : 5);
        c.note("r", x, " += ", str(q));
        a.s += toMR(q);
        a.m = unite(a.m, boxPoints(q));
      }
      what = "+=range";
      break;
    }
    case 4: {
      size_t n = cloud ? r.in(1, 60) : 1;
      for (size_t k = 0; k < n; ++k) {
        P q = genPoint(r, d);
        c.note("r", x, " += ", str(q));
        a.s += toPoint(q);
        a.m.insert(q);
      }
      what = "+=point";
      break;
    }
    case 5:
      c.note("r", x, " += r", y);
      a.s += b.s;
      a.m = unite(a.m, b.m);
      what = "+=set";
      break;
    case 6:
    case 7: {
      size_t n = cloud ? r.in(1, 5) : 1;
      for (size_t k = 0; k < n; ++k) {
        MBox q = genBox(r, d, cloud ? (r.coin() ? 9 : 3) : 4);
        c.note("r", x, " -= ", str(q));
        a.s -= toMR(q);
        a.m = minusS(a.m, boxPoints(q));
      }
      what = "-=range";
      break;
    }
    case 8: {
      size_t n = cloud ? r.in(1, 60) : 1;
      for (size_t k = 0; k < n; ++k) {
        P q = genPoint(r, d);
        if (!a.m.empty() && r.chance(2, 3)) {
          auto it = a.m.begin();
          std::advance(it, r.in(0, a.m.size() - 1));
          q = *it;
        }
        c.note("r", x, " -= ", str(q));
        a.s -= toPoint(q);
        a.m.erase(q);
      }
      what = "-=point";
      break;
    }
    case 9:
      c.note("r", x, " -= r", y);
      a.s -= b.s;
      a.m = minusS(a.m, MSet(b.m));
      what = "-=set";
      break;
    case 10: {
      c.note("r", x, " = copy of r", y);
      if (x != y) {
        if (r.coin()) {
          a.s = b.s;
        } else {
          IndexSet t(b.s);
          a.s = std::move(t);
        }
        a.m = b.m;
      }
      what = "copy";
      break;
    }
    case 11:
      c.note("swap r", x, " r", y);
      std::swap(a, b);
      what = "swap";
      break;
    case 12:
      if (r.chance(1, 4)) {
        c.note("r", x, ".clear()");
        a.s.clear();
        a.m.clear();
      } else {
        c.note("r", x, " = r", x, ".intersect(r", y, ")");
        a.s = a.s.intersect(b.s);
        a.m = inter(a.m, b.m);
      }
      what = "intersect/clear";
      break;
    }
    ++mutated;
    c.count("operations");
    h = vf::mix(h ^ (op + 31 * a.m.size()));
    if (!verify(c, a.s, a.m, what, d.rank))
      return;
    if (x != y && !verify(c, b.s, b.m, what + " (other operand)", d.rank))
      return;
    queries(c, a, b, d);
    derived(c, a, b, d);
    if (cloud) {
      size_t n = 0;
      for (auto it = a.s.rangesBegin(), e = a.s.rangesEnd(); it != e; ++it)
        ++n;
      if (n > 16)
        c.count("multi_level_trees");
      if (n > 256)
        c.count("three_level_trees");
    }
  }
  if (mutated >= 3 && (!regs[0].m.empty() || !regs[1].m.empty()))
    c.nontrivial(h);
}
} // namespace

VF_STREAM("C01", "history", 2600, 40000,
          "random operation histories over 3 index sets of rank 1-4 compared "
          "after each step with a std::set of points; non-trivial: >=3 "
          "mutations and a non-empty result") {
  history(c, 5, 25, false);
}
VF_STREAM("C01", "cloud", 260, 4000,
          "histories with many small ranges, so that the tree has several "
          "levels, splits and collapses; non-trivial as for 'history'") {
  history(c, 3, 10, true);
}
VF_STREAM("C01", "densemap", 200, 2000,
          "index sets as hash keys: equal content is found whatever the "
          "construction order; non-trivial: >=3 distinct keys") {
  auto &r = c.rng;
  Dom d = genDom(r, 3);
  if (r.chance(1, 1))
    for (auto &l : d.lim) {
      l.second = l.first + std::min<int64_t>(l.second - l.first, 5);
    }
  llvm::DenseMap<IndexSet, int> dm;
  std::map<MSet, int> model;
  for (int i = 0; i < 25; ++i) {
    MSet m;
    IndexSet s;
    int k = r.in(1, 3);
    for (int j = 0; j < k; ++j) {
      MBox b = genBox(r, d, 5);
      s += toMR(b);
      m = unite(m, boxPoints(b));
    }
    c.note("key ", str(m));
    dm[s] = i;
    model[m] = i;
    if (r.coin()) {
      // look the same content up, built point by point in reverse order
      IndexSet t;
      for (auto it = m.rbegin(); it != m.rend(); ++it)
        t += toPoint(*it);
      c.check(dm.count(t) == 1 && dm[t] == i, "densemap-lookup",
              "key not found when rebuilt: " + str(m));
    }
  }
  // The three-way comparison is a total order on the sets it is given.
  std::vector<std::pair<IndexSet, MSet>> all;
  for (auto &kv : dm)
    for (auto &mv : model)
      if (mv.second == kv.second)
        all.emplace_back(kv.first, mv.first);
  auto sign = [](int x) { return (x > 0) - (x < 0); };
  for (int i = 0; i < 20 && !all.empty(); ++i) {
    auto &x = all[r.in(0, all.size() - 1)], &y = all[r.in(0, all.size() - 1)],
         &z = all[r.in(0, all.size() - 1)];
    IndexSet copy = x.first;
    int xy = sign(x.first.compare(y.first));
    c.check(sign(x.first.compare(copy)) == 0, "compare-copy",
            "a set does not compare equal to its copy: " + str(x.second));
    c.check(xy == -sign(y.first.compare(x.first)), "compare-antisym",
            str(x.second) + " and " + str(y.second));
    c.check(xy != 0 || x.second == y.second, "compare-equal",
            str(x.second) + " and " + str(y.second) + " compare equal");
    if (xy < 0 && y.first.compare(z.first) < 0)
      c.check(x.first.compare(z.first) < 0, "compare-trans",
              str(x.second) + " " + str(y.second) + " " + str(z.second));
    c.count("three-way comparisons", 3);
  }
  c.check(dm.size() == model.size(), "densemap-size",
          "number of distinct keys differs from the number of distinct sets");
  for (auto &kv : model)
    c.check(dm.lookup(fromModel(kv.first)) == kv.second, "densemap-value",
            "wrong value for " + str(kv.first));
  if (model.size() >= 3)
    c.nontrivial();
}

//===--- C02 --------------------------------------------------------------===//
namespace {
void rangeCase(Case &c) {
  auto &r = c.rng;
  int64_t off = r.chance(1, 6) ? (r.coin() ? 1 : -1) * (int64_t(1) << r.in(30, 60)) : 0;
  auto gen = [&]() {
    int64_t a = r.in(-8, 8), b = r.in(-8, 8);
    if (a > b)
      std::swap(a, b);
    return std::make_pair(a + off, b + 1 + off);
  };
  auto a = gen(), b = gen();
  Range ra(a.first, a.second), rb(b.first, b.second);
  std::set<int64_t> sa, sb;
  for (int64_t i = a.first; i < a.second; ++i)
    sa.insert(i);
  for (int64_t i = b.first; i < b.second; ++i)
    sb.insert(i);
  c.note("ranges ", ostr(ra), " ", ostr(rb));
  std::string t = ostr(ra) + " " + ostr(rb);
  auto pts = [&](const Range &x) {
    std::set<int64_t> s;
    for (auto i : x)
      s.insert(i);
    return s;
  };
  c.check(pts(ra) == sa, "range-iter", t);
  c.check(ra.size() == sa.size(), "range-size", t);
  std::set<int64_t> in, un, df;
  for (auto i : sa)
    if (sb.count(i))
      in.insert(i);
    else
      df.insert(i);
  un = sa;
  un.insert(sb.begin(), sb.end());
  for (int64_t v = off - 10; v <= off + 11; ++v)
    c.check(ra.contains(v) == (sa.count(v) > 0), "range-contains-value", t);
  c.check(ra.contains(rb) == (in.size() == sb.size()), "range-contains", t);
  c.check(ra.overlaps(rb) == !in.empty(), "range-overlaps", t);
  if (!in.empty())
    c.check(pts(ra.intersect(rb)) == in, "range-intersect", t);
  bool mergeable =
      un.size() == (size_t)(*un.rbegin() - *un.begin() + 1);
  c.check(ra.canBeMerged(rb) == mergeable, "range-canBeMerged", t);
  if (mergeable)
    c.check(pts(ra.merge(rb)) == un, "range-merge", t);
  std::set<int64_t> got;
  size_t n = 0;
  for (Range &x : ra.subtract(rb)) {
    auto p = pts(x);
    n += p.size();
    got.insert(p.begin(), p.end());
  }
  c.check(got == df && n == df.size(), "range-subtract", t);
  c.check((ra == rb) == (sa == sb) && (ra != rb) == (sa != sb), "range-eq", t);
  int cmp = ra.compare(rb), rcmp = rb.compare(ra);
  c.check((cmp == 0) == (sa == sb), "range-compare-zero", t);
  c.check((cmp < 0) == (rcmp > 0), "range-compare-antisym", t);
  c.check((ra < rb) == (cmp < 0) && (ra > rb) == (cmp > 0), "range-less", t);
  if (sa == sb)
    c.check(hash_value(ra) == hash_value(rb), "range-hash", t);
  auto e = gen();
  Range re(e.first, e.second);
  if (ra.compare(rb) < 0 && rb.compare(re) < 0)
    c.check(ra.compare(re) < 0, "range-compare-trans", t + " " + ostr(re));
  c.nontrivial();
}

void mrCase(Case &c) {
  auto &r = c.rng;
  Dom d = genDom(r, 4);
  for (auto &l : d.lim)
    l.second = l.first + std::min<int64_t>(l.second - l.first, 6);
  MBox a = genBox(r, d, 3), b = genBox(r, d, 3), e = genBox(r, d, 3);
  // Make near misses frequent: equal up to one dimension.
  if (r.coin()) {
    size_t k = r.in(0, d.rank - 1);
    MBox t = a;
    t[k] = b[k];
    b = t;
  }
  MSet sa = boxPoints(a), sb = boxPoints(b);
  MultidimensionalRange ra = toMR(a), rb = toMR(b), re = toMR(e);
  std::string t = str(a) + " " + str(b);
  c.note("boxes ", t);
  auto pts = [&](const MultidimensionalRange &x) { return boxPoints(toBox(x)); };
  // Iteration: complete, without duplicates.
  {
    MSet got;
    size_t n = 0;
    for (Point p : ra) {
      got.insert(toP(p));
      ++n;
    }
    c.check(got == sa && n == sa.size(), "mr-iter", t);
    c.count("points_observed", n);
  }
  c.check(ra.size() == sa.size(), "mr-size", t);
  c.check(ra.rank() == d.rank, "mr-rank", t);
  llvm::SmallVector<size_t> sizes;
  ra.getSizes(sizes);
  bool okSizes = sizes.size() == d.rank;
  for (size_t i = 0; okSizes && i < d.rank; ++i)
    okSizes = sizes[i] == (size_t)(a[i].second - a[i].first);
  c.check(okSizes, "mr-sizes", t);
  MSet in = inter(sa, sb), un = unite(sa, sb), df = minusS(sa, sb);
  for (int i = 0; i < 8; ++i) {
    P p = genPoint(r, d);
    if (r.coin())
      p[r.in(0, d.rank - 1)] += r.coin() ? 1 : -1;
    c.check(ra.contains(toPoint(p)) == (sa.count(p) > 0), "mr-contains-point",
            t + str(p));
    c.check((ra == toPoint(p)) == (sa == MSet{p}), "mr-eq-point", t + str(p));
    c.check((ra != toPoint(p)) == (sa != MSet{p}), "mr-ne-point", t + str(p));
  }
  c.check(ra.contains(rb) == (in.size() == sb.size()), "mr-contains", t);
  c.check(ra.overlaps(rb) == !in.empty(), "mr-overlaps", t);
  bool any = false;
  for (size_t i = 0; i < d.rank; ++i)
    any |= std::max(a[i].first, b[i].first) < std::min(a[i].second, b[i].second);
  c.check(ra.anyDimensionOverlaps(rb) == any, "mr-anyDimensionOverlaps", t);
  if (!in.empty())
    c.check(pts(ra.intersect(rb)) == in, "mr-intersect", t);
  auto m = ra.canBeMerged(rb);
  // Mergeable: the union is a box.
  {
    MBox hull;
    for (size_t i = 0; i < d.rank; ++i)
      hull.emplace_back(std::min(a[i].first, b[i].first),
                        std::max(a[i].second, b[i].second));
    size_t differing = 0;
    for (size_t i = 0; i < d.rank; ++i)
      differing += a[i] != b[i];
    bool box = boxSize(hull) == un.size() && differing <= 1;
    // (two equal boxes: either answer is fine, provided merging is right)
    c.check(a == b || m.first == box, "mr-canBeMerged", t);
    if (m.first)
      c.check(pts(ra.merge(rb, m.second)) == un, "mr-merge", t);
  }
  {
    MSet got;
    size_t n = 0;
    for (auto &x : ra.subtract(rb)) {
      MSet q = pts(x);
      n += q.size();
      got.insert(q.begin(), q.end());
    }
    c.check(got == df, "mr-subtract", t);
    c.check(n == got.size(), "mr-subtract-overlap", t);
  }
  c.check((ra == rb) == (a == b) && (ra != rb) == (a != b), "mr-eq", t);
  int cmp = ra.compare(rb), rcmp = rb.compare(ra);
  c.check((cmp == 0) == (a == b), "mr-compare-zero", t);
  c.check((cmp < 0) == (rcmp > 0), "mr-compare-antisym", t);
  c.check((ra < rb) == (cmp < 0) && (ra > rb) == (cmp > 0), "mr-less", t);
  if (cmp < 0 && rb.compare(re) < 0)
    c.check(ra.compare(re) < 0, "mr-compare-trans", t + str(e));
  if (a == b)
    c.check(hash_value(ra) == hash_value(rb), "mr-hash", t);
  size_t n = r.in(1, d.rank);
  auto sub = [&](size_t lo, size_t hi) {
    return MBox(a.begin() + lo, a.begin() + hi);
  };
  c.check(toBox(ra.takeFirstDimensions(n)) == sub(0, n), "mr-takeFirst", t);
  c.check(toBox(ra.takeLastDimensions(n)) == sub(d.rank - n, d.rank),
          "mr-takeLast", t);
  c.check(toBox(ra.slice(n)) == sub(0, n), "mr-slice-n", t);
  if (d.rank > 1) {
    size_t k = r.in(1, d.rank - 1);
    c.check(toBox(ra.dropFirstDimensions(k)) == sub(k, d.rank),
            "mr-dropFirst", t);
    c.check(toBox(ra.dropLastDimensions(k)) == sub(0, d.rank - k),
            "mr-dropLast", t);
  }
  llvm::SmallBitVector mask = genMask(r, d.rank);
  llvm::BitVector bm(d.rank);
  MBox exp;
  for (size_t i = 0; i < d.rank; ++i) {
    bm[i] = mask[i];
    if (mask[i])
      exp.push_back(a[i]);
  }
  c.check(toBox(ra.takeDimensions(mask)) == exp, "mr-takeDimensions", t);
  c.check(toBox(ra.slice(bm)) == exp, "mr-slice", t);
  MBox ab = a, ba = b;
  ab.insert(ab.end(), b.begin(), b.end());
  ba.insert(ba.end(), a.begin(), a.end());
  c.check(toBox(ra.append(rb)) == ab, "mr-append", t);
  c.check(toBox(ra.prepend(rb)) == ba, "mr-prepend", t);
  c.nontrivial();
}

void pointCase(Case &c) {
  auto &r = c.rng;
  auto gen = [&]() {
    P p;
    size_t n = r.in(1, 4);
    for (size_t i = 0; i < n; ++i)
      p.push_back(r.in(-2, 2));
    return p;
  };
  P a = gen(), b = gen(), e = gen();
  if (r.coin())
    b.resize(a.size()), e.resize(a.size());
  Point pa = toPoint(a), pb = toPoint(b), pe = toPoint(e);
  std::string t = str(a) + " " + str(b);
  c.note("points ", t);
  c.check(toP(pa) == a && pa.rank() == a.size(), "point-read", t);
  c.check((pa == pb) == (a == b) && (pa != pb) == (a != b), "point-eq", t);
  if (a.size() == b.size()) {
    int x = pa.compare(pb);
    c.check((x < 0) == (a < b) && (x > 0) == (b < a), "point-compare", t);
    c.check((pa < pb) == (a < b), "point-less", t);
  }
  if (a == b)
    c.check(hash_value(pa) == hash_value(pb), "point-hash", t);
  P ab = a;
  ab.insert(ab.end(), b.begin(), b.end());
  c.check(toP(pa.append(pb)) == ab, "point-append", t);
  size_t n = r.in(0, a.size());
  c.check(toP(pa.takeFront(n)) == P(a.begin(), a.begin() + n), "point-front", t);
  c.check(toP(pa.takeBack(n)) == P(a.end() - n, a.end()), "point-back", t);
  llvm::BitVector bm(a.size());
  P exp;
  for (size_t i = 0; i < a.size(); ++i) {
    bm[i] = r.coin();
    if (bm[i])
      exp.push_back(a[i]);
  }
  c.check(toP(pa.slice(bm)) == exp, "point-slice", t);
  c.nontrivial();
}
} // namespace
VF_STREAM("C02", "range", 30000, 400000,
          "pairs of intervals vs sets of integers; every case non-trivial") {
  rangeCase(c);
}
VF_STREAM("C02", "multirange", 12000, 200000,
          "pairs of boxes of rank 1-4 vs sets of points") {
  mrCase(c);
}
// Keys of the hashed and of the ordered containers.
template <typename T, typename M, typename Gen, typename To>
static void keysCase(Case &c, const std::string &what, Gen gen, To to) {
  auto &r = c.rng;
  llvm::DenseMap<T, int> dense;
  std::map<M, int> model;
  std::map<T, int> ordered;
  for (int i = 0, n = r.in(1, 40); i < n; ++i) {
    M m = gen();
    T t = to(m);
    if (r.chance(1, 4)) {
      bool had = model.erase(m);
      c.check(dense.erase(t) == had, what + "-keys",
              "erasure of a key from a hash table");
      c.check((ordered.erase(t) == 1) == had, what + "-keys",
              "erasure of a key from an ordered container");
    } else {
      dense[t] = i;
      ordered[t] = i;
      model[m] = i;
    }
    M q = gen();
    auto it = model.find(q);
    auto d = dense.find(to(q));
    auto o = ordered.find(to(q));
    c.check((it == model.end()) == (d == dense.end()) &&
                (it == model.end()) == (o == ordered.end()),
            what + "-keys", "wrong lookup of a key");
    if (it != model.end() && !c.failed())
      c.check(d->second == it->second && o->second == it->second,
              what + "-keys", "wrong value of a key");
    c.check(dense.size() == model.size() && ordered.size() == model.size(),
            what + "-keys", "wrong number of distinct keys");
    c.count("keyed operations", 2);
    if (c.failed())
      return;
  }
  c.nontrivial();
}
VF_STREAM("C02", "keys", 3000, 40000,
          "intervals, boxes and points (of different ranks) as keys of hash "
          "tables and of ordered containers, vs standard ones") {
  auto &r = c.rng;
  auto interval = [&] {
    int64_t a = r.in(-3, 3);
    return std::make_pair(a, a + r.in(1, 3));
  };
  switch (r.in(0, 2)) {
  case 0:
    keysCase<Range, std::pair<int64_t, int64_t>>(
        c, "range", interval,
        [](auto &m) { return Range(m.first, m.second); });
    break;
  case 1:
    keysCase<Point, P>(
        c, "point",
        [&] {
          P p(r.in(1, 3));
          for (auto &x : p)
            x = r.in(-1, 1);
          return p;
        },
        [](auto &m) { return toPoint(m); });
    break;
  default:
    for (int k = 0; k < 4; ++k) {
      auto box = [&] {
        MBox b(r.in(1, 3));
        for (auto &x : b)
          x = interval();
        return b;
      };
      MBox b1 = box(), b2 = box();
      int x = toMR(b1).compare(toMR(b2)), y = toMR(b2).compare(toMR(b1));
      c.check((x < 0) == (y > 0) && (x > 0) == (y < 0) &&
                  (x == 0) == (b1 == b2),
              "box-compare-ranks", str(b1) + " and " + str(b2));
      Point p1 = toPoint(P(b1.size(), b1[0].first)),
            p2 = toPoint(P(b2.size(), b2[0].first));
      x = p1.compare(p2), y = p2.compare(p1);
      c.check((x < 0) == (y > 0) && (x > 0) == (y < 0) &&
                  (x == 0) == (p1 == p2),
              "point-compare-ranks", ostr(p1) + " and " + ostr(p2));
    }
    keysCase<MultidimensionalRange, MBox>(
        c, "box",
        [&] {
          MBox b(r.in(1, 2));
          for (auto &x : b)
            x = interval();
          return b;
        },
        [](auto &m) { return toMR(m); });
  }
  // The iterators, and the comparison of a box with a point.
  auto i = interval();
  Range x(i.first, i.second);
  std::vector<int64_t> pre, post;
  for (auto it = x.begin(); it != x.end(); ++it)
    pre.push_back(*it);
  for (auto it = x.begin(); !(it == x.end());) {
    post.push_back(*it++);
    if (post.size() > 10)
      break;
  }
  c.check(pre == post && pre.size() == size_t(i.second - i.first),
          "range-iterators", "the two forms of increment differ");
  MBox b;
  P p;
  for (int k = r.in(1, 3); k > 0; --k) {
    b.push_back(interval());
    if (r.coin())
      b.back().second = b.back().first + 1;
    p.push_back(b.back().first + r.chance(1, 4));
  }
  if (r.chance(1, 5))
    p.push_back(0);
  bool same = p.size() == b.size() && boxPoints(b) == MSet{p};
  c.check((toMR(b) == toPoint(p)) == same && (toMR(b) != toPoint(p)) == !same,
          "box-equals-point", str(b) + " and " + str(p));
}
VF_STREAM("C02", "point", 20000, 200000, "pairs of points vs vectors") {
  pointCase(c);
}

//===--- C03 --------------------------------------------------------------===//
namespace {
struct Obj {
  int id;
  MultidimensionalRange box;
  Obj(int id, MultidimensionalRange b) : id(id), box(std::move(b)) {}
};
} // namespace
namespace marco::modeling {
template <>
struct RTreeInfo<Obj> {
  static const MultidimensionalRange &getShape(const Obj &o) { return o.box; }
  static bool isEqual(const Obj &a, const Obj &b) {
    return a.id == b.id && a.box == b.box;
  }
  static void dump(llvm::raw_ostream &os, const Obj &o) { os << o.id; }
};
} // namespace marco::modeling

namespace {
template <typename Tree>
MBox cover(const Tree &, const std::vector<MBox> &b) {
  MBox r = b.front();
  for (auto &x : b)
    for (size_t i = 0; i < r.size(); ++i) {
      r[i].first = std::min(r[i].first, x[i].first);
      r[i].second = std::max(r[i].second, x[i].second);
    }
  return r;
}
// Gives the monitors a view of the nodes, and opens the bulk load.
template <typename Base>
struct Peek : Base {
  using Base::Base;
  auto begin() const { return this->objectsBegin(); }
  auto end() const { return this->objectsEnd(); }
  void load(llvm::ArrayRef<Obj> o) { this->setFromObjects(o); }
  // The first structural invariant that is broken, if any.
  std::string broken(size_t minE, size_t maxE, uint64_t &nodes,
                     uint64_t &levels) const {
    using N = typename Base::Node;
    struct Item {
      const N *node, *parent;
      size_t depth;
    };
    std::vector<Item> todo;
    if (auto *r = this->getRoot())
      todo.push_back({r, nullptr, 1});
    std::optional<size_t> leafDepth;
    while (!todo.empty()) {
      Item i = todo.back();
      todo.pop_back();
      ++nodes;
      levels = std::max<uint64_t>(levels, i.depth);
      if (i.node->getParent() != i.parent)
        return "wrong parent";
      if (!i.node->children.empty() && !i.node->objects.empty())
        return "objects in an inner node";
      size_t n = i.node->children.size() + i.node->objects.size();
      if (n == 0)
        return "empty node";
      if (i.parent && (n < minE || n > maxE))
        return std::to_string(n) + " entries, limits " + std::to_string(minE) +
               " and " + std::to_string(maxE);
      std::vector<MBox> boxes;
      for (auto &o : i.node->objects)
        boxes.push_back(toBox((*o).box));
      for (auto &k : i.node->children) {
        boxes.push_back(toBox(k->getBoundary()));
        todo.push_back({k.get(), i.node, i.depth + 1});
      }
      if (cover(*this, boxes) != toBox(i.node->getBoundary()))
        return "loose bounding box " + str(toBox(i.node->getBoundary()));
      if (i.node->children.empty()) {
        if (leafDepth && *leafDepth != i.depth)
          return "leaves at different depths";
        leafDepth = i.depth;
      }
    }
    return "";
  }
};
struct LimTreeBase : r_tree::impl::RTreeCRTP<LimTreeBase, Obj> {
  using RTreeCRTP::RTreeCRTP;
};
using LimTree = Peek<LimTreeBase>;
using DefTree = Peek<RTree<Obj>>;
using Key = std::pair<int, MBox>;
template <typename Tree>
void rtreeCase(Case &c, size_t maxOps) {
  auto &r = c.rng;
  Dom d = genDom(r, 3);
  size_t minE = r.in(1, 6);
  size_t maxE = r.in(2 * minE, 3 * minE + 8);
  if (maxE < 2)
    maxE = 2;
  constexpr bool dflt = std::is_same_v<Tree, DefTree>;
  if (dflt)
    minE = 4, maxE = 16;
  std::vector<Tree> t;
  std::vector<std::multiset<Key>> m(2);
  for (int i = 0; i < 2; ++i) {
    if constexpr (dflt)
      t.emplace_back();
    else
      t.emplace_back(minE, maxE);
  }
  c.note("rank ", d.rank, " min ", minE, " max ", maxE, " default ", dflt);
  size_t ops = r.in(5, maxOps);
  uint64_t h = minE * 100 + maxE;
  auto anyKey = [&](const std::multiset<Key> &s) {
    auto it = s.begin();
    std::advance(it, r.in(0, s.size() - 1));
    return *it;
  };
  size_t maxSize = 0;
  for (size_t i = 0; i < ops && !c.failed(); ++i) {
    int x = r.in(0, 1);
    int op = r.in(0, 9);
    h = vf::mix(h ^ op);
    c.count("operations");
    if (op <= 4) {
      size_t n = r.in(1, 8);
      for (size_t k = 0; k < n; ++k) {
        Key key(r.in(0, 3), genBox(r, d, 8));
        // Objects are distinct within one tree.
        if (m[x].count(key))
          continue;
        c.note("t", x, " insert ", key.first, str(key.second));
        t[x].insert(Obj(key.first, toMR(key.second)));
        m[x].insert(key);
      }
    } else if (op <= 6) {
      size_t n = r.in(1, 12);
      for (size_t k = 0; k < n; ++k) {
        Key key(r.in(0, 3), genBox(r, d, 8));
        if (!m[x].empty() && r.chance(4, 5))
          key = anyKey(m[x]);
        c.note("t", x, " remove ", key.first, str(key.second));
        t[x].remove(Obj(key.first, toMR(key.second)));
        m[x].erase(key);
      }
    } else if (op == 7) {
      c.note("t", x, " insert-tree t", 1 - x);
      bool dup = false;
      for (auto &k : m[1 - x])
        dup |= m[x].count(k) > 0;
      if (!dup) {
        t[x].insert(t[1 - x]);
        m[x].insert(m[1 - x].begin(), m[1 - x].end());
      }
    } else if (op == 8) {
      c.note("t", x, " remove-tree t", 1 - x);
      t[x].remove(t[1 - x]);
      for (auto &k : m[1 - x])
        m[x].erase(k);
    } else if (int w = r.in(0, 8); w < 3) {
      c.note("t", x, " = copy t", 1 - x);
      t[x] = t[1 - x];
      m[x] = m[1 - x];
    } else if (w == 3) {
      c.note("t", x, " = move of a copy of t", 1 - x);
      Tree copy(t[1 - x]);
      t[x] = std::move(copy);
      m[x] = m[1 - x];
    } else if (w == 4) {
      c.note("swap by moves");
      Tree tmp(std::move(t[0]));
      t[0] = std::move(t[1]);
      t[1] = std::move(tmp);
      std::swap(m[0], m[1]);
    } else if (w == 5) {
      c.note("clear t", x);
      t[x].clear();
      m[x].clear();
    } else if (w <= 7) {
      m[x].clear();
      std::vector<Obj> objs;
      size_t n = r.in(0, r.chance(1, 3) ? 8 * maxOps : maxOps);
      for (size_t k = 0; k < n; ++k) {
        Key key(r.in(0, 3), genBox(r, d, 8));
        if (m[x].count(key))
          continue;
        objs.push_back(Obj(key.first, toMR(key.second)));
        m[x].insert(key);
      }
      c.note("t", x, " loads ", objs.size(), " objects");
      t[x].load(objs);
      c.count("bulk_loads");
    }
    // Observe.
    maxSize = std::max(maxSize, m[x].size());
    for (int y = 0; y < 2; ++y) {
      std::multiset<Key> got;
      size_t n = 0;
      for (const Obj &o : t[y]) {
        got.insert({o.id, toBox(o.box)});
        if (++n > 100000)
          break;
      }
      c.count("objects_observed", n);
      if (!c.check(got == m[y], "rtree-content",
                   "tree " + std::to_string(y) + " holds " +
                       std::to_string(got.size()) + " objects, expected " +
                       std::to_string(m[y].size())))
        return;
      c.check(t[y].size() == m[y].size(), "rtree-size", "size() wrong");
      c.check(t[y].empty() == m[y].empty(), "rtree-empty", "empty() wrong");
      uint64_t nodes = 0, levels = 0;
      std::string why = t[y].broken(minE, maxE, nodes, levels);
      c.count("nodes_checked", nodes);
      if (levels > 2)
        c.count("trees_with_three_levels");
      if (!c.check(why.empty(), "rtree-invariants",
                   "tree " + std::to_string(y) + ": " + why))
        return;
      if (!c.check(t[y].isValid(), "rtree-invariants",
                   "the tree considers itself invalid"))
        return;
    }
    for (int k = 0; k < 4; ++k) {
      Key key(r.in(0, 3), genBox(r, d, 8));
      if (!m[x].empty() && r.coin())
        key = anyKey(m[x]);
      c.check(t[x].contains(Obj(key.first, toMR(key.second))) ==
                  (m[x].count(key) > 0),
              "rtree-contains", "contains wrong");
    }
    bool sub = true;
    for (auto &k : m[1 - x])
      sub &= m[x].count(k) > 0;
    c.check(t[x].contains(t[1 - x]) == sub, "rtree-contains-tree",
            "contains(tree) wrong");
    if (!m[x].empty() && !m[1 - x].empty())
      c.check((t[x] == t[1 - x]) == (m[x] == m[1 - x]), "rtree-eq",
              "tree equality wrong");
    // Overlap query: exactly the overlapping objects, each once.
    MBox q = genBox(r, d, 4);
    std::multiset<Key> exp, got;
    for (auto &k : m[x])
      if (boxesOverlap(k.second, q))
        exp.insert(k);
    const auto &ct = t[x];
    ct.walkOverlappingObjects(toMR(q), [&](const Obj &o) {
      got.insert({o.id, toBox(o.box)});
    });
    c.check(exp == got, "rtree-overlap-query",
            "overlap query with " + str(q) + " visited " +
                std::to_string(got.size()) + " objects, expected " +
                std::to_string(exp.size()));
  }
  if (maxSize > (dflt ? 16 : maxE))
    c.nontrivial(h);
}
} // namespace
VF_STREAM("C03", "objects", 7000, 80000,
          "random insert/remove/copy histories over two R-trees of tagged "
          "boxes with random fan-out limits vs a multiset; non-trivial: some "
          "tree outgrew one node") {
  if (c.rng.chance(1, 3))
    rtreeCase<DefTree>(c, 25);
  else
    rtreeCase<LimTree>(c, 25);
}
VF_STREAM("C03", "objects-long", 400, 5000, "as 'objects', longer histories") {
  if (c.rng.chance(1, 3))
    rtreeCase<DefTree>(c, 120);
  else
    rtreeCase<LimTree>(c, 120);
}
