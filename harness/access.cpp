// C04, C05: access functions against pointwise evaluation.
#include "accutil.h"
using vf::Case;

static std::string kindName(const mm::AccessFunction &f) {
  switch (f.getKind()) {
  case mm::AccessFunction::Kind::Generic:
    return "generic";
  case mm::AccessFunction::Kind::Constant:
    return "constant";
  case mm::AccessFunction::Kind::Affine_Constant:
    return "affine-constant";
  case mm::AccessFunction::Kind::Empty:
    return "empty";
  case mm::AccessFunction::Kind::RotoTranslation:
    return "rototranslation";
  default:
    return "other";
  }
}

static Dom domain(vf::Rng &r, unsigned dims) {
  Dom d{dims, {}};
  for (unsigned i = 0; i < dims; ++i) {
    int64_t a = r.in(-4, 4);
    d.lim.push_back({a, a + r.in(1, dims > 2 ? 3 : 5)});
  }
  return d;
}

static void checkMap(Case &c, const mm::AccessFunction &af, const Fn &f,
                     const MSet &it, const std::string &what) {
  for (auto &p : it) {
    MSet want = image(f, p);
    MSet got = toModel(af.map(toPoint(p)));
    c.count("point-map");
    if (!c.check(got == want, what + "-point-image",
                 what + " image of " + str(p) + " is " + str(got) +
                     ", expected " + str(want) + " for " + ostr(af)))
      return;
  }
  mm::IndexSet s = toSet(c.rng, it);
  MSet got = toModel(af.map(s)), want = image(f, it);
  c.count("set-map");
  c.check(got == want, what + "-set-image",
          what + " image of " + str(it, 40) + " is " + str(got, 40) +
              ", expected " + str(want, 40) + " for " + ostr(af));
  if (auto *rt = af.dyn_cast<mm::AccessFunctionRotoTranslation>()) {
    for (const auto &range :
         llvm::make_range(s.rangesBegin(), s.rangesEnd())) {
      MSet w = image(f, boxPoints(toBox(range)));
      mm::IndexSet res(rt->map(mm::MultidimensionalRange(range)));
      // A dimension used twice maps a box to its bounding box only.
      llvm::SmallVector<size_t> uses;
      rt->countVariablesUsages(uses);
      bool exact = llvm::all_of(uses, [](size_t u) { return u <= 1; });
      c.count("range-map");
      c.check(exact ? toModel(res) == w : subset(w, toModel(res)),
              what + "-range-image", "image of a range " + ostr(range) +
              " is " + ostr(res) + " for " + ostr(af));
    }
  }
}

static void checkInverse(Case &c, const mm::AccessFunction &af, const Fn &f,
                         const MSet &it) {
  MSet img = image(f, it);
  for (int round = 0; round < 3; ++round) {
    MSet acc;
    unsigned mode = c.rng.in(0, 3);
    for (auto &q : img)
      if (mode == 0 || c.rng.chance(1, mode + 1))
        acc.insert(q);
    if (acc.empty() && c.rng.coin() && !img.empty())
      acc.insert(*img.begin());
    // Elements that are not accessed at all, near the accessed ones.
    if (c.rng.coin() && !img.empty()) {
      int n = c.rng.in(1, 4);
      std::vector<P> v(img.begin(), img.end());
      for (int i = 0; i < n; ++i) {
        P q = c.rng.pick(v);
        q[c.rng.in(0, q.size() - 1)] += c.rng.in(-2, 2);
        acc.insert(q);
      }
    }
    MSet must, may;
    for (auto &p : it) {
      MSet im = image(f, p);
      if (!inter(im, acc).empty())
        may.insert(p);
      if (!im.empty() && subset(im, acc))
        must.insert(p);
    }
    MSet got = toModel(af.inverseMap(toSet(c.rng, acc), toSet(c.rng, it)));
    c.count("inverse-map");
    if (!c.check(subset(got, may), "inverse-too-large",
                 "inverse image of " + str(acc, 30) + " within " +
                     str(it, 40) + " is " + str(got, 40) + ", at most " +
                     str(may, 40) + " expected for " + ostr(af)))
      return;
    if (!c.check(subset(must, got), "inverse-too-small",
                 "inverse image of " + str(acc, 30) + " within " +
                     str(it, 40) + " is " + str(got, 40) + ", at least " +
                     str(must, 40) + " expected for " + ostr(af)))
      return;
  }
}

// Functions where an index or range is used by two dimensions of a
// rototranslation are not boxes: keep the usage count per dimension at 1.
static Fn genFn(Case &c, FnGen &g, unsigned dims, unsigned res, int level) {
  Fn f = g.fn(dims, res, level);
  return f;
}

static void mapCase(Case &c, int level) {
  auto &r = c.rng;
  unsigned dims = r.in(1, 3), res = r.in(1, 3);
  FnGen g(r);
  Fn f = genFn(c, g, dims, res, level);
  Dom d = domain(r, dims);
  MSet it = genSet(r, d, 3, 60);
  c.note(str(f), " over ", str(it, 40));
  auto af = toAF(f);
  c.note("built as ", kindName(*af), " ", ostr(*af));
  c.count("kind-" + kindName(*af));
  c.check(af->getNumOfDims() == dims, "dims", "wrong number of dimensions");
  c.check(af->getNumOfResults() == res, "results", "wrong number of results");
  checkMap(c, *af, f, it, "built");
  if (!c.failed())
    checkInverse(c, *af, f, it);
  c.nontrivial();
}

VF_STREAM("C04", "roto", 4000, 60000,
          "random functions of dimensions with offsets over random sets, images "
          "and inverse images compared with pointwise evaluation") {
  mapCase(c, 1);
}
VF_STREAM("C04", "affine", 2500, 40000,
          "random affine functions (sums, differences, products, divisions)") {
  mapCase(c, 2);
}
VF_STREAM("C04", "multi", 2500, 40000,
          "random functions with ranges and index sets") {
  mapCase(c, 3);
}
VF_STREAM("C04", "perm", 2000, 30000,
          "permutations with offsets: inverse function and inverse image") {
  auto &r = c.rng;
  unsigned dims = r.in(1, 4);
  std::vector<int> perm;
  for (unsigned i = 0; i < dims; ++i)
    perm.push_back(i);
  r.shuffle(perm);
  Fn f;
  f.dims = dims;
  for (int p : perm) {
    ExP e = ex(Ex::Dim, p);
    if (r.chance(2, 3))
      e = ex(r.coin() ? Ex::Add : Ex::Sub, e, ex(Ex::Const, r.in(-5, 5)));
    f.res.push_back(e);
  }
  Dom d = domain(r, dims);
  MSet it = genSet(r, d, 4, 80);
  auto af = toAF(f);
  c.note(str(f), " over ", str(it, 40), " built as ", ostr(*af));
  checkMap(c, *af, f, it, "built");
  checkInverse(c, *af, f, it);
  if (c.check(af->isInvertible(), "invertible",
              "a permutation with offsets is not invertible: " + ostr(*af))) {
    auto inv = af->inverse();
    if (c.check(inv != nullptr, "inverse-null", "no inverse returned"))
      for (auto &p : it) {
        MSet back = toModel(inv->map(af->map(toPoint(p))));
        c.count("inverse-roundtrip");
        c.check(back == MSet{p}, "inverse-roundtrip",
                "inverse maps back to " + str(back) + " instead of " + str(p));
      }
  }
  c.nontrivial();
}
VF_STREAM("C04", "noninvertible", 1500, 20000,
          "isInvertible and inverse() never claim an inverse that is wrong") {
  auto &r = c.rng;
  unsigned dims = r.in(1, 3);
  FnGen g(r);
  Fn f = g.fn(dims, r.chance(1, 4) ? r.in(1, 3) : dims, r.in(0, 2));
  auto af = toAF(f);
  c.note(str(f), " built as ", ostr(*af));
  if (af->isInvertible()) {
    auto inv = af->inverse();
    c.count("claimed-invertible");
    if (!c.check(inv != nullptr, "inverse-null", "invertible, but no inverse"))
      return;
    Dom d = domain(r, dims);
    MSet it = genSet(r, d, 3, 40);
    for (auto &p : it) {
      MSet back = toModel(inv->map(af->map(toPoint(p))));
      c.check(back == MSet{p}, "inverse-roundtrip",
              "inverse maps back to " + str(back) + " instead of " + str(p));
    }
  } else {
    c.count("claimed-noninvertible");
  }
  c.nontrivial();
}

//===--------------------------------------------------------------------===//
// C05

static Fn substitute(const Fn &outer, const Fn &inner) {
  // outer(inner(x)), as an expression tree.
  std::function<ExP(const ExP &)> sub = [&](const ExP &e) -> ExP {
    if (e->k == Ex::Dim)
      return inner.res[e->v];
    if (!e->a)
      return e;
    return ex(e->k, sub(e->a), sub(e->b));
  };
  Fn f;
  f.dims = inner.dims;
  for (auto &e : outer.res)
    f.res.push_back(sub(e));
  return f;
}

VF_STREAM("C05", "combine", 5000, 80000,
          "random pairs of functions: the image under the combination is the "
          "image of the image, whenever this is determined by the operands") {
  auto &r = c.rng;
  unsigned dims = r.in(1, 3), mid = r.in(1, 3), res = r.in(1, 3);
  FnGen g(r);
  int l1 = r.in(0, 3), l2 = r.in(0, 3);
  Fn f = g.fn(dims, mid, l1), h = g.fn(mid, res, l2);
  auto af = toAF(f), ah = toAF(h);
  c.note("f=", str(f), " built ", ostr(*af));
  c.note("g=", str(h), " built ", ostr(*ah));
  auto comb = af->combine(*ah);
  c.note("combined ", ostr(*comb));
  c.count("combine-" + kindName(*af) + "-" + kindName(*ah));
  if (!c.check(comb->getNumOfDims() == dims, "combine-dims",
               "the combination has " + std::to_string(comb->getNumOfDims()) +
                   " dimensions instead of " + std::to_string(dims)))
    return;
  if (!c.check(comb->getNumOfResults() == res, "combine-results",
               "wrong number of results"))
    return;
  MSet it = genSet(r, domain(r, dims), 2, 20);
  // When a multivalued result of f is used more than once by g, or correlated
  // index sets of the two functions meet, the representation can only
  // over-approximate.
  bool exact = true;
  for (unsigned i = 0; i < mid; ++i)
    if (isMulti(f.res[i])) {
      unsigned n = 0;
      for (auto &e : h.res)
        n += usesDim(e, i);
      if (n > 1)
        exact = false;
    }
  std::set<const Space *> s1, s2;
  for (auto &e : f.res)
    depSpaces(e, s1);
  for (auto &e : h.res)
    depSpaces(e, s2);
  for (auto *s : s1)
    if (s2.count(s))
      exact = false;
  if (!s1.empty() && !exact)
    return;
  for (auto *s : s1)
    if (s2.count(s))
      return;
  for (auto &p : it) {
    MSet want = image(h, image(f, p));
    MSet got = toModel(comb->map(toPoint(p)));
    c.count(exact ? "combine-exact" : "combine-superset");
    if (!c.check(exact ? got == want : subset(want, got), "combine-image",
                 "combined image of " + str(p) + " is " + str(got) +
                     ", expected " + str(want)))
      return;
  }
  c.nontrivial();
}

VF_STREAM("C05", "forms", 4000, 60000,
          "cloning, adding dimensions, rebuilding from the generalized accesses, "
          "from the affine map and from the extended affine map keep the image") {
  auto &r = c.rng;
  unsigned dims = r.in(1, 3), res = r.in(1, 3);
  FnGen g(r);
  Fn f = g.fn(dims, res, r.in(0, 3));
  auto af = toAF(f);
  c.note(str(f), " built as ", kindName(*af), " ", ostr(*af));
  MSet it = genSet(r, domain(r, dims), 2, 20);
  auto clone = af->clone();
  checkMap(c, *clone, f, it, "clone");
  c.check(*clone == *af && !(*clone != *af), "clone-equal",
          "a clone does not compare equal");
  auto gen = af->getGeneralizedAccesses();
  auto re = mm::AccessFunction::build(ctx(), dims, gen);
  checkMap(c, *re, f, it, "rebuilt");
  mm::AccessFunctionGeneric direct(ctx(), dims, toDAs(f));
  checkMap(c, direct, f, it, "generic");
  if (isAffineFn(f)) {
    auto fromMap = mm::AccessFunction::build(toAffineMap(f));
    checkMap(c, *fromMap, f, it, "from-affine-map");
    if (c.check(af->isAffine(), "affine", "an affine function is not affine")) {
      auto m = af->getAffineMap();
      c.check(m.getNumDims() == dims && m.getNumResults() == res, "affine-map",
              "affine map of the wrong shape");
      for (auto &p : it) {
        auto v = m.compose(llvm::ArrayRef<int64_t>(p));
        P q(v.begin(), v.end());
        c.count("affine-map");
        c.check(MSet{q} == image(f, p), "affine-map-value",
                "affine map maps " + str(p) + " to " + str(q));
      }
    }
  }
  mm::DimensionAccess::FakeDimensionsMap fake;
  auto em = af->getExtendedAffineMap(fake);
  auto fe = mm::AccessFunction::fromExtendedMap(em, fake);
  checkMap(c, *fe, f, it, "from-extended-map");
  // More dimensions: the additional ones are ignored.
  unsigned req = r.in(0, 5);
  auto more = af->getWithGivenDimensions(req);
  unsigned nd = std::max(req, dims);
  if (c.check(more->getNumOfDims() == nd, "given-dims",
              "getWithGivenDimensions(" + std::to_string(req) + ") has " +
                  std::to_string(more->getNumOfDims()) + " dimensions"))
    for (auto &p : it) {
      P q = p;
      while (q.size() < nd)
        q.push_back(r.in(-3, 3));
      MSet got = toModel(more->map(toPoint(q)));
      c.check(got == image(f, p), "given-dims-image",
              "with " + std::to_string(nd) + " dimensions the image of " +
                  str(q) + " is " + str(got));
    }
  bool cst = af->isConstant();
  if (cst)
    for (auto &p : it)
      c.check(image(f, p) == image(f, *it.begin()), "constant",
              "a function reported constant is not");
  bool id = af->isIdentity();
  if (id)
    for (auto &p : it)
      c.check(image(f, p) == MSet{p}, "identity",
              "a function reported as identity is not");
  c.nontrivial();
}

VF_STREAM("C05", "equality", 6000, 80000,
          "pairs of functions, often different in one place only: functions that "
          "compare equal have equal images; a function equals its rebuilt copy") {
  auto &r = c.rng;
  unsigned dims = r.in(1, 3), res = r.in(1, 3);
  FnGen g(r);
  int level = r.in(0, 3);
  Fn f = g.fn(dims, res, level), h;
  switch (r.in(0, 4)) {
  case 0: // prefix
    h = f;
    h.res.pop_back();
    if (h.res.empty())
      h.res.push_back(g.expr(dims, level, 2));
    break;
  case 1: // one result changed
    h = f;
    h.res[r.in(0, res - 1)] = g.expr(dims, level, 2);
    break;
  case 2: // one constant changed
  {
    h = f;
    size_t k = r.in(0, res - 1);
    std::function<ExP(const ExP &)> mut = [&](const ExP &e) -> ExP {
      if (e->k == Ex::Const)
        return ex(Ex::Const, e->v + 1);
      if (e->k == Ex::Range)
        return ex(Ex::Range, e->v, e->w + 1);
      if (e->k == Ex::Ind)
        return r.coin() ? exInd(e->space, e->v, !e->dep)
                        : exInd(e->space, (e->v + 1) % e->space->rank, e->dep);
      if (e->k == Ex::Dim)
        return ex(Ex::Dim, (e->v + 1) % dims);
      if (e->k != Ex::Div && r.chance(1, 3))
        return ex(e->k, e->b, e->a);
      if (e->k != Ex::Div && r.chance(1, 5))
        return ex(e->k == Ex::Add   ? Ex::Sub
                  : e->k == Ex::Sub ? Ex::Mul
                                    : Ex::Add,
                  e->a, e->b);
      if (e->k != Ex::Div && e->b->a && e->b->k != Ex::Div &&
          r.chance(1, 4)) // a op (b op c) -> (a op b) op c
        return ex(e->k, ex(e->b->k, e->a, e->b->a), e->b->b);
      if (r.coin())
        return ex(e->k, mut(e->a), e->b);
      if (e->k == Ex::Div)
        return ex(e->k, mut(e->a), e->b);
      return ex(e->k, e->a, mut(e->b));
    };
    h.res[k] = mut(f.res[k]);
    if (res > 1 && r.chance(1, 8))
      std::swap(h.res[k], h.res[r.in(0, res - 1)]);
    break;
  }
  case 3:
    h = f;
    break;
  default:
    h = g.fn(dims, r.in(1, 3), level);
  }
  auto a = toAF(f), b = toAF(h);
  c.note(str(f), " built ", ostr(*a), " ## ", str(h), " built ", ostr(*b));
  bool eq = *a == *b;
  c.check(eq == (*b == *a), "equality-symmetric", "== is not symmetric");
  c.check(eq != (*a != *b), "inequality", "!= is not the negation of ==");
  c.check(*a == *a->clone(), "clone-equal", "not equal to its own clone");
  // The same, for the fallback representation.
  mm::AccessFunctionGeneric ga(ctx(), f.dims, toDAs(f)),
      gb(ctx(), h.dims, toDAs(h));
  bool geq = ga == gb;
  c.check(geq != (ga != gb), "inequality", "!= is not the negation of ==");
  {
    mm::AccessFunctionGeneric gc(ctx(), f.dims, toDAs(f));
    gc = gb;
    c.check(gc == gb && gc.getNumOfDims() == h.dims, "assignment",
            "an assigned function differs from its source");
  }
  MSet it = genSet(r, domain(r, dims), 2, 30);
  bool same = true;
  for (auto &p : it)
    same &= image(f, p) == image(h, p);
  c.count(eq ? "equal" : "different");
  c.check(!eq || same, "equal-but-different",
          "functions with different images compare equal");
  c.check(!geq || same, "equal-but-different-generic",
          "functions with different images compare equal (generic)");
  for (size_t i = 0; i < std::min(f.res.size(), h.res.size()); ++i) {
    auto x = toDA(f.res[i]), y = toDA(h.res[i]);
    bool e = *x == *y;
    // Assigning makes equal.
    auto assign = [&](auto *k) {
      using K = std::remove_pointer_t<decltype(k)>;
      auto *to = x->template dyn_cast<K>();
      auto *src = y->template dyn_cast<K>();
      if (!to || !src)
        return;
      auto clone = to->clone();
      *clone->template cast<K>() = *src;
      c.check(*clone == *y, "assignment",
              "assigned " + str(h.res[i]) + " to " + str(f.res[i]));
      c.count("assignments");
    };
    assign((mm::DimensionAccessAdd *)nullptr);
    assign((mm::DimensionAccessSub *)nullptr);
    assign((mm::DimensionAccessMul *)nullptr);
    assign((mm::DimensionAccessDiv *)nullptr);
    assign((mm::DimensionAccessRange *)nullptr);
    assign((mm::DimensionAccessConstant *)nullptr);
    assign((mm::DimensionAccessDimension *)nullptr);
    c.check(e != (*x != *y), "inequality-dim",
            "!= is not the negation of == for " + str(f.res[i]) + " and " +
                str(h.res[i]));
  }
  c.nontrivial();
}
