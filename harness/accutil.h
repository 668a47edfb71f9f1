// Reference model of access functions: expression trees evaluated pointwise.
#ifndef ACCUTIL_H
#define ACCUTIL_H
#include "idxutil.h"
#include "marco/Modeling/AccessFunction.h"
#include "marco/Modeling/AccessFunctionAffineConstant.h"
#include "marco/Modeling/AccessFunctionConstant.h"
#include "marco/Modeling/AccessFunctionEmpty.h"
#include "marco/Modeling/AccessFunctionGeneric.h"
#include "marco/Modeling/AccessFunctionRotoTranslation.h"
#include "marco/Modeling/DimensionAccessAdd.h"
#include "marco/Modeling/DimensionAccessConstant.h"
#include "marco/Modeling/DimensionAccessDimension.h"
#include "marco/Modeling/DimensionAccessDiv.h"
#include "marco/Modeling/DimensionAccessIndices.h"
#include "marco/Modeling/DimensionAccessMul.h"
#include "marco/Modeling/DimensionAccessRange.h"
#include "marco/Modeling/DimensionAccessSub.h"
#include "mlir/IR/MLIRContext.h"
#include "threads.h"
#include <memory>

inline mlir::MLIRContext *ctx() {
#ifdef VF_THREADS
  return vf::threadedContext();
#endif
  static mlir::MLIRContext *c = [] {
    auto *m = new mlir::MLIRContext(mlir::MLIRContext::Threading::DISABLED);
    return m;
  }();
  return c;
}

inline int64_t floorDivI(int64_t a, int64_t b) {
  int64_t q = a / b;
  if ((a % b != 0) && ((a < 0) != (b < 0)))
    --q;
  return q;
}

struct Ex;
using ExP = std::shared_ptr<const Ex>;
// An index space shared by expressions.
struct Space {
  MSet pts;
  std::shared_ptr<mm::IndexSet> set;
  size_t rank;
};
struct Ex {
  enum K { Const, Dim, Add, Sub, Mul, Div, Range, Ind } k;
  int64_t v = 0, w = 0; // constant / dimension / range bounds / space dimension
  ExP a, b;
  std::shared_ptr<Space> space;
  bool dep = false; // correlated with the other dimensions of the space
};
inline ExP ex(Ex::K k, int64_t v, int64_t w = 0) {
  auto e = std::make_shared<Ex>();
  e->k = k;
  e->v = v;
  e->w = w;
  return e;
}
inline ExP ex(Ex::K k, ExP a, ExP b) {
  auto e = std::make_shared<Ex>();
  e->k = k;
  e->a = a;
  e->b = b;
  return e;
}
inline ExP exInd(std::shared_ptr<Space> s, int64_t dim, bool dep) {
  auto e = std::make_shared<Ex>();
  e->k = Ex::Ind;
  e->space = s;
  e->v = dim;
  e->dep = dep;
  return e;
}
inline std::string str(const ExP &e) {
  switch (e->k) {
  case Ex::Const:
    return std::to_string(e->v);
  case Ex::Dim:
    return "d" + std::to_string(e->v);
  case Ex::Add:
    return "(" + str(e->a) + " + " + str(e->b) + ")";
  case Ex::Sub:
    return "(" + str(e->a) + " - " + str(e->b) + ")";
  case Ex::Mul:
    return "(" + str(e->a) + " * " + str(e->b) + ")";
  case Ex::Div:
    return "(" + str(e->a) + " / " + str(e->b) + ")";
  case Ex::Range:
    return "[" + std::to_string(e->v) + "," + std::to_string(e->w) + ")";
  case Ex::Ind:
    return std::string(e->dep ? "dep" : "ind") + str(e->space->pts) + "." +
           std::to_string(e->v);
  }
  return "?";
}
using Env = std::map<const Space *, P>;
inline void depSpaces(const ExP &e, std::set<const Space *> &s) {
  if (e->k == Ex::Ind && e->dep)
    s.insert(e->space.get());
  if (e->a)
    depSpaces(e->a, s);
  if (e->b)
    depSpaces(e->b, s);
}
inline std::set<int64_t> eval(const ExP &e, const P &p, const Env &env) {
  std::set<int64_t> r;
  switch (e->k) {
  case Ex::Const:
    return {e->v};
  case Ex::Dim:
    return {p.at(e->v)};
  case Ex::Range:
    for (int64_t i = e->v; i < e->w; ++i)
      r.insert(i);
    return r;
  case Ex::Ind:
    if (e->dep)
      return {env.at(e->space.get())[e->v]};
    for (auto &q : e->space->pts)
      r.insert(q[e->v]);
    return r;
  default:
    break;
  }
  for (int64_t x : eval(e->a, p, env))
    for (int64_t y : eval(e->b, p, env))
      switch (e->k) {
      case Ex::Add:
        r.insert(x + y);
        break;
      case Ex::Sub:
        r.insert(x - y);
        break;
      case Ex::Mul:
        r.insert(x * y);
        break;
      default:
        r.insert(floorDivI(x, y));
        break;
      }
  return r;
}
struct Fn {
  unsigned dims = 0;
  std::vector<ExP> res;
};
inline std::string str(const Fn &f) {
  std::string s = "(" + std::to_string(f.dims) + " dims) -> (";
  for (size_t i = 0; i < f.res.size(); ++i)
    s += (i ? ", " : "") + str(f.res[i]);
  return s + ")";
}
inline MSet image(const Fn &f, const P &p) {
  MSet out;
  if (f.res.empty())
    return out;
  std::set<const Space *> deps;
  for (auto &e : f.res)
    depSpaces(e, deps);
  std::vector<const Space *> dv(deps.begin(), deps.end());
  std::function<void(size_t, Env &)> rec = [&](size_t i, Env &env) {
    if (i < dv.size()) {
      for (auto &q : dv[i]->pts) {
        env[dv[i]] = q;
        rec(i + 1, env);
      }
      return;
    }
    std::vector<P> cur{{}};
    for (auto &e : f.res) {
      std::vector<P> nxt;
      for (int64_t v : eval(e, p, env))
        for (auto &c : cur) {
          P n = c;
          n.push_back(v);
          nxt.push_back(n);
        }
      cur = nxt;
    }
    out.insert(cur.begin(), cur.end());
  };
  Env env;
  rec(0, env);
  return out;
}
inline MSet image(const Fn &f, const MSet &s) {
  MSet r;
  for (auto &p : s)
    for (auto &q : image(f, p))
      r.insert(q);
  return r;
}
inline std::unique_ptr<mm::DimensionAccess> toDA(const ExP &e) {
  using namespace mm;
  switch (e->k) {
  case Ex::Const:
    return std::make_unique<DimensionAccessConstant>(ctx(), e->v);
  case Ex::Dim:
    return std::make_unique<DimensionAccessDimension>(ctx(), e->v);
  case Ex::Range:
    return std::make_unique<DimensionAccessRange>(ctx(), mm::Range(e->v, e->w));
  case Ex::Ind: {
    llvm::SetVector<uint64_t> deps;
    if (e->dep)
      for (uint64_t i = 0; i < e->space->rank; ++i)
        if ((int64_t)i != e->v || e->space->rank == 1)
          deps.insert(i);
    return std::make_unique<DimensionAccessIndices>(ctx(), e->space->set, e->v,
                                                    deps);
  }
  case Ex::Add:
    return *toDA(e->a) + *toDA(e->b);
  case Ex::Sub:
    return *toDA(e->a) - *toDA(e->b);
  case Ex::Mul:
    return *toDA(e->a) * *toDA(e->b);
  case Ex::Div:
    return *toDA(e->a) / *toDA(e->b);
  }
  return nullptr;
}
inline llvm::SmallVector<std::unique_ptr<mm::DimensionAccess>>
toDAs(const Fn &f) {
  llvm::SmallVector<std::unique_ptr<mm::DimensionAccess>> r;
  for (auto &e : f.res)
    r.push_back(toDA(e));
  return r;
}
inline std::unique_ptr<mm::AccessFunction> toAF(const Fn &f) {
  auto r = toDAs(f);
  return mm::AccessFunction::build(ctx(), f.dims, r);
}
inline mlir::AffineExpr toAffine(const ExP &e) {
  switch (e->k) {
  case Ex::Const:
    return mlir::getAffineConstantExpr(e->v, ctx());
  case Ex::Dim:
    return mlir::getAffineDimExpr(e->v, ctx());
  case Ex::Add:
    return toAffine(e->a) + toAffine(e->b);
  case Ex::Sub:
    return toAffine(e->a) - toAffine(e->b);
  case Ex::Mul:
    return toAffine(e->a) * toAffine(e->b);
  case Ex::Div:
    return toAffine(e->a).floorDiv(toAffine(e->b));
  default:
    abort();
  }
}
inline mlir::AffineMap toAffineMap(const Fn &f) {
  llvm::SmallVector<mlir::AffineExpr> es;
  for (auto &e : f.res)
    es.push_back(toAffine(e));
  return mlir::AffineMap::get(f.dims, 0, es, ctx());
}
inline bool has(const ExP &e, std::function<bool(const Ex &)> pr) {
  return pr(*e) || (e->a && has(e->a, pr)) || (e->b && has(e->b, pr));
}
inline bool isMulti(const ExP &e) {
  return has(e, [](const Ex &x) { return x.k == Ex::Range || x.k == Ex::Ind; });
}
inline bool isAffineFn(const Fn &f) {
  for (auto &e : f.res)
    if (isMulti(e))
      return false;
  return true;
}
inline unsigned usesDim(const ExP &e, int64_t d) {
  return (e->k == Ex::Dim && e->v == d) + (e->a ? usesDim(e->a, d) : 0) +
         (e->b ? usesDim(e->b, d) : 0);
}

// Generators.
struct FnGen {
  vf::Rng &r;
  int64_t lo = -6, hi = 6;
  std::vector<std::shared_ptr<Space>> spaces;
  explicit FnGen(vf::Rng &r) : r(r) {}
  std::shared_ptr<Space> space() {
    if (!spaces.empty() && r.chance(2, 3))
      return r.pick(spaces);
    auto s = std::make_shared<Space>();
    s->rank = r.in(1, 3);
    Dom d{s->rank, {}};
    for (size_t i = 0; i < s->rank; ++i)
      d.lim.push_back({-2, 4});
    int n = r.in(1, 5);
    for (int i = 0; i < n; ++i)
      s->pts.insert(genPoint(r, d));
    s->set = std::make_shared<mm::IndexSet>(fromModel(s->pts));
    spaces.push_back(s);
    return s;
  }
  // level 0: constants and dimensions; 1: + offsets; 2: affine; 3: multivalued
  ExP leaf(unsigned dims, int level) {
    if (level >= 3 && r.chance(1, 4)) {
      if (r.coin()) {
        int64_t b = r.in(-3, 3);
        return ex(Ex::Range, b, b + r.in(1, 3));
      }
      auto s = space();
      return exInd(s, r.in(0, s->rank - 1), r.coin());
    }
    if (dims == 0 || r.chance(1, 4))
      return ex(Ex::Const, r.in(lo, hi));
    return ex(Ex::Dim, r.in(0, dims - 1));
  }
  ExP expr(unsigned dims, int level, int depth) {
    if (level == 0)
      return leaf(dims, 0);
    if (level == 1) {
      auto l = leaf(dims, 0);
      switch (r.in(0, 3)) {
      case 0:
        return l;
      case 1:
        return ex(Ex::Add, l, ex(Ex::Const, r.in(lo, hi)));
      case 2:
        return ex(Ex::Sub, l, ex(Ex::Const, r.in(lo, hi)));
      default:
        return ex(Ex::Add, ex(Ex::Const, r.in(lo, hi)), l);
      }
    }
    if (depth == 0 || r.chance(1, 4))
      return leaf(dims, level);
    switch (r.in(0, 5)) {
    case 0:
    case 1:
      return ex(Ex::Add, expr(dims, level, depth - 1),
                expr(dims, level, depth - 1));
    case 2:
      return ex(Ex::Sub, expr(dims, level, depth - 1),
                expr(dims, level, depth - 1));
    case 3: {
      auto c = ex(Ex::Const, r.in(-3, 3));
      auto e = expr(dims, level, depth - 1);
      return r.coin() ? ex(Ex::Mul, c, e) : ex(Ex::Mul, e, c);
    }
    case 4:
      return ex(Ex::Div, expr(dims, level, depth - 1),
                ex(Ex::Const, r.in(1, 4)));
    default: {
      // The remainder, spelled out.
      auto e = expr(dims, std::min(level, 2), depth - 1);
      auto k = ex(Ex::Const, r.in(1, 4));
      return ex(Ex::Sub, e, ex(Ex::Mul, ex(Ex::Div, e, k), k));
    }
    }
  }
  Fn fn(unsigned dims, unsigned results, int level) {
    Fn f;
    f.dims = dims;
    for (unsigned i = 0; i < results; ++i)
      f.res.push_back(expr(dims, level, 2));
    return f;
  }
};

// A random index set of at most `maxBoxes` boxes in the domain.
inline MSet genSet(vf::Rng &r, const Dom &d, int maxBoxes, size_t maxPts) {
  MSet m;
  int n = r.in(1, maxBoxes);
  for (int i = 0; i < n; ++i) {
    auto b = boxPoints(genBox(r, d, 5));
    if (m.size() + b.size() <= maxPts || m.empty())
      m.insert(b.begin(), b.end());
  }
  return m;
}
// The library's set for a model set, built in one of several ways.
inline mm::IndexSet toSet(vf::Rng &r, const MSet &m) {
  if (r.coin())
    return fromModel(m);
  // Runs along a random dimension.
  mm::IndexSet s;
  if (m.empty())
    return s;
  size_t rank = m.begin()->size();
  size_t dim = r.in(0, rank - 1);
  std::vector<P> pts(m.begin(), m.end());
  std::sort(pts.begin(), pts.end(), [&](const P &a, const P &b) {
    P x = a, y = b;
    std::swap(x[dim], x[rank - 1]);
    std::swap(y[dim], y[rank - 1]);
    return x < y;
  });
  for (size_t i = 0; i < pts.size();) {
    size_t j = i + 1;
    P nx = pts[i];
    while (j < pts.size()) {
      ++nx[dim];
      if (pts[j] != nx)
        break;
      ++j;
    }
    MBox b;
    for (size_t k = 0; k < rank; ++k)
      b.emplace_back(pts[i][k], pts[i][k] + 1);
    b[dim].second = pts[i][dim] + (int64_t)(j - i);
    s += toMR(b);
    i = j;
  }
  return s;
}
#endif
