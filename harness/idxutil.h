// Model (reference) types for index sets: a plain std::set of coordinate
// vectors, plus conversions and generators.
#ifndef IDXUTIL_H
#define IDXUTIL_H
#include "vf.h"
#include "marco/Modeling/IndexSet.h"
#include "llvm/ADT/SmallBitVector.h"
#include "llvm/Support/raw_ostream.h"
#include <algorithm>

namespace mm = ::marco::modeling;
using P = std::vector<int64_t>;
using MSet = std::set<P>;
using MBox = std::vector<std::pair<int64_t, int64_t>>; // half open

inline std::string str(const P &p) {
  std::string s = "(";
  for (size_t i = 0; i < p.size(); ++i)
    s += (i ? "," : "") + std::to_string(p[i]);
  return s + ")";
}
inline std::string str(const MBox &b) {
  std::string s = "[";
  for (size_t i = 0; i < b.size(); ++i)
    s += (i ? "," : "") + ("[" + std::to_string(b[i].first)) + "," +
         std::to_string(b[i].second) + ")";
  return s + "]";
}
inline std::string str(const MSet &m, size_t lim = 12) {
  std::string s = "{";
  size_t n = 0;
  for (auto &p : m) {
    if (n++ == lim) {
      s += "...";
      break;
    }
    s += str(p);
  }
  return s + "}#" + std::to_string(m.size());
}
template <typename T>
std::string ostr(const T &v) {
  std::string s;
  llvm::raw_string_ostream os(s);
  os << v;
  os.flush();
  if (s.size() > 1500)
    s = s.substr(0, 1500) + "...";
  return s;
}
inline P toP(const mm::Point &p) {
  P r;
  for (size_t i = 0; i < p.rank(); ++i)
    r.push_back(p[i]);
  return r;
}
inline mm::Point toPoint(const P &p) {
  return mm::Point(llvm::ArrayRef<int64_t>(p.data(), p.size()));
}
inline mm::MultidimensionalRange toMR(const MBox &b) {
  llvm::SmallVector<mm::Range> r;
  for (auto &d : b)
    r.push_back(mm::Range(d.first, d.second));
  return mm::MultidimensionalRange(r);
}
inline MBox toBox(const mm::MultidimensionalRange &r) {
  MBox b;
  for (size_t i = 0; i < r.rank(); ++i)
    b.emplace_back(r[i].getBegin(), r[i].getEnd());
  return b;
}
inline MSet boxPoints(const MBox &b) {
  MSet out;
  P cur;
  for (auto &d : b)
    cur.push_back(d.first);
  for (auto &d : b)
    if (d.first >= d.second)
      return out;
  while (true) {
    out.insert(cur);
    size_t i = b.size();
    while (i > 0) {
      --i;
      if (++cur[i] < b[i].second)
        break;
      cur[i] = b[i].first;
      if (i == 0)
        return out;
    }
    if (b.empty())
      return out;
  }
}
inline bool boxesOverlap(const MBox &a, const MBox &b) {
  for (size_t i = 0; i < a.size(); ++i)
    if (std::max(a[i].first, b[i].first) >= std::min(a[i].second, b[i].second))
      return false;
  return true;
}
inline size_t boxSize(const MBox &b) {
  size_t n = 1;
  for (auto &d : b)
    n *= d.second - d.first;
  return n;
}
struct Dom {
  size_t rank;
  std::vector<std::pair<int64_t, int64_t>> lim; // half open per dimension
};
inline P genPoint(vf::Rng &r, const Dom &d) {
  P p;
  for (auto &l : d.lim)
    p.push_back(r.in(l.first, l.second - 1));
  return p;
}
inline MBox genBox(vf::Rng &r, const Dom &d, unsigned shrink = 0) {
  MBox b;
  for (auto &l : d.lim) {
    int64_t x = r.in(l.first, l.second - 1);
    int64_t y = r.in(l.first, l.second - 1);
    if (shrink && r.chance(shrink, 10))
      y = std::min(l.second - 1, x + r.in(0, 1));
    b.emplace_back(std::min(x, y), std::max(x, y) + 1);
  }
  return b;
}
inline MSet unite(const MSet &a, const MSet &b) {
  MSet r = a;
  r.insert(b.begin(), b.end());
  return r;
}
inline MSet minusS(const MSet &a, const MSet &b) {
  MSet r;
  std::set_difference(a.begin(), a.end(), b.begin(), b.end(),
                      std::inserter(r, r.end()));
  return r;
}
inline MSet inter(const MSet &a, const MSet &b) {
  MSet r;
  std::set_intersection(a.begin(), a.end(), b.begin(), b.end(),
                        std::inserter(r, r.end()));
  return r;
}
inline bool subset(const MSet &a, const MSet &b) {
  return std::includes(b.begin(), b.end(), a.begin(), a.end());
}
inline MSet toModel(const mm::IndexSet &s) {
  MSet m;
  for (mm::Point p : s)
    m.insert(toP(p));
  return m;
}
// Builds the set through the library from a model set (point by point or via
// boxes found greedily).
inline mm::IndexSet fromModel(const MSet &m) {
  llvm::SmallVector<mm::Point> pts;
  for (auto &p : m)
    pts.push_back(toPoint(p));
  mm::IndexSet s;
  for (auto &p : pts)
    s += p;
  return s;
}
#endif
