// Executes modules of the BaseModelica dialect: functions, equation functions,
// schedules, the entry points of a simulation, and the sides of equations.
#ifndef VF_MACHINE_H
#define VF_MACHINE_H
#include "bminterp.h"
#include "marco/Dialect/Runtime/IR/Ops.h"
#include "mlir/Dialect/Affine/IR/AffineOps.h"
#include "mlir/Dialect/Arith/IR/Arith.h"
#include "mlir/Dialect/SCF/IR/SCF.h"
#include <functional>
#include <memory>

namespace bm {
using Shape = std::vector<int64_t>;
inline int64_t volume(const Shape &s) {
  int64_t n = 1;
  for (auto d : s)
    n *= d;
  return n;
}
inline int64_t flat(const Shape &s, const std::vector<int64_t> &i) {
  int64_t k = 0;
  for (size_t d = 0; d < s.size(); ++d)
    k = k * s[d] + i[d];
  return k;
}
struct Storage {
  S name;
  Kind k = REAL;
  Shape shape;
  std::vector<Val> e;
  bool model = false;
};
struct MV {
  enum { SCALAR, TENSOR, REF, RANGE } t = SCALAR;
  Val s;
  Kind k = REAL;
  Shape shape;
  std::vector<Val> e;
  std::shared_ptr<Storage> st;
  std::vector<int64_t> idx; // leading subscripts of a reference
  int64_t b = 0, end = 0, step = 1;
  MV() {}
  MV(const Val &v) : s(v), k(v.k) {}
};

struct Machine {
  using Frame = std::map<S, std::shared_ptr<Storage>>;
  using Env = llvm::DenseMap<mlir::Value, MV>;
  enum Flow { NEXT, BREAK, RETURN };

  mlir::ModuleOp module;
  Frame globals;
  std::map<S, Frame> models; // by the name of the model
  double time = 0;
  S error;
  bool fuzzy = false; // a comparison which rounding could decide
  uint64_t budget = 200000;
  uint64_t ops = 0;
  // accesses to the variables of the model: name, element, written
  std::function<void(const S &, int64_t, bool)> onAccess;
  // order of things which are declared independent
  std::function<void(size_t, const std::function<void(size_t)> &)> anyOrder;
  // blocks of a schedule
  std::function<void(mlir::Operation *, bool)> onBlock;
  mlir::SymbolTableCollection tables;

  explicit Machine(mlir::ModuleOp m) : module(m) {
    m.walk([&](ModelOp model) {
      for (auto v : model.getOps<VariableOp>())
        if (auto s = declare(v.getVariableType().getShape(),
                             v.getVariableType().getElementType())) {
          s->name = v.getSymName().str();
          s->model = true;
          models[model.getSymName().str()][s->name] = s;
        }
    });
    for (auto g : m.getOps<GlobalVariableOp>()) {
      auto a = mlir::cast<ArrayType>(g.getType());
      if (auto s = declare(a.getShape(), a.getElementType()))
        globals[g.getSymName().str()] = s;
    }
  }

  static std::shared_ptr<Storage> declare(llvm::ArrayRef<int64_t> shape,
                                          mlir::Type t) {
    auto k = kindOf(t);
    if (!k)
      return nullptr;
    auto s = std::make_shared<Storage>();
    s->k = *k;
    s->shape.assign(shape.begin(), shape.end());
    for (auto d : s->shape)
      if (d < 0)
        return nullptr;
    s->e.assign(volume(s->shape), to(*k, real(0)));
    return s;
  }
  bool fail(const S &what) {
    if (error.empty())
      error = what;
    return false;
  }
  bool fail(mlir::Operation *op) {
    if (getenv("VF_WHY") && error.empty())
      op->dump();
    return fail(op->getName().getStringRef().str());
  }

  MV read(const std::shared_ptr<Storage> &s) {
    MV v;
    v.k = s->k;
    v.shape = s->shape;
    if (s->shape.empty()) {
      v.s = s->e[0];
      if (s->model && onAccess)
        onAccess(s->name, 0, false);
    } else {
      // (elements are reported when they are extracted)
      v.t = MV::TENSOR;
      v.e = s->e;
      if (s->model)
        v.st = s;
    }
    return v;
  }
  void allRead(const MV &v) {
    if (v.t == MV::TENSOR && v.st && onAccess && v.shape == v.st->shape)
      for (size_t i = 0; i < v.e.size(); ++i)
        onAccess(v.st->name, i, false);
  }
  bool assign(const std::shared_ptr<Storage> &s, const std::vector<MV> &subs,
              const MV &v) {
    // every element which the subscripts denote
    std::vector<std::vector<int64_t>> dims;
    Shape sel;
    if (subs.size() > s->shape.size())
      return fail("too many subscripts");
    for (size_t d = 0; d < s->shape.size(); ++d) {
      std::vector<int64_t> x;
      if (d >= subs.size()) {
        for (int64_t i = 0; i < s->shape[d]; ++i)
          x.push_back(i);
        sel.push_back(s->shape[d]);
      } else if (subs[d].t == MV::RANGE) {
        for (int64_t i = subs[d].b; subs[d].step > 0 ? i <= subs[d].end : i >= subs[d].end;
             i += subs[d].step)
          x.push_back(i);
        sel.push_back(x.size());
      } else
        x = {(int64_t)subs[d].s.num()};
      for (auto i : x)
        if (i < 0 || i >= s->shape[d])
          return fail("subscript out of bounds in an assignment to " + s->name);
      dims.push_back(x);
    }
    if (v.t == MV::TENSOR ? v.shape != sel : !sel.empty())
      if (!(v.t == MV::SCALAR))
        return fail("shapes differ in an assignment to " + s->name);
    std::vector<size_t> at(dims.size(), 0);
    for (size_t n = 0;; ++n) {
      std::vector<int64_t> i;
      for (size_t d = 0; d < dims.size(); ++d) {
        if (dims[d].empty())
          return true;
        i.push_back(dims[d][at[d]]);
      }
      int64_t f = flat(s->shape, i);
      s->e[f] = to(s->k, v.t == MV::TENSOR ? v.e[n] : v.s);
      if (s->model && onAccess)
        onAccess(s->name, f, true);
      size_t d = dims.size();
      while (d > 0 && ++at[d - 1] == dims[d - 1].size())
        at[--d] = 0;
      if (d == 0)
        break;
    }
    return true;
  }

  // The part of a tensor which subscripts denote.
  std::optional<MV> view(const MV &t, const std::vector<MV> &subs) {
    if (subs.size() > t.shape.size()) {
      fail("too many subscripts");
      return std::nullopt;
    }
    MV r;
    r.t = MV::TENSOR;
    r.k = t.k;
    std::vector<std::vector<int64_t>> dims;
    for (size_t d = 0; d < t.shape.size(); ++d) {
      std::vector<int64_t> x;
      if (d >= subs.size()) {
        for (int64_t i = 0; i < t.shape[d]; ++i)
          x.push_back(i);
        r.shape.push_back(t.shape[d]);
      } else if (subs[d].t == MV::RANGE) {
        int64_t e = subs[d].end == INT64_MAX ? t.shape[d] - 1 : subs[d].end;
        for (int64_t i = subs[d].b; subs[d].step > 0 ? i <= e : i >= e;
             i += subs[d].step)
          x.push_back(i);
        r.shape.push_back(x.size());
      } else
        x = {(int64_t)subs[d].s.num()};
      for (auto i : x)
        if (i < 0 || i >= t.shape[d]) {
          fail("subscript out of bounds");
          return std::nullopt;
        }
      dims.push_back(x);
    }
    std::vector<size_t> at(dims.size(), 0);
    for (auto &d : dims)
      if (d.empty())
        return r;
    for (;;) {
      std::vector<int64_t> i;
      for (size_t d = 0; d < dims.size(); ++d)
        i.push_back(dims[d][at[d]]);
      int64_t f = flat(t.shape, i);
      r.e.push_back(t.e[f]);
      if (t.st && onAccess && t.shape == t.st->shape)
        onAccess(t.st->name, f, false);
      size_t d = dims.size();
      while (d > 0 && ++at[d - 1] == dims[d - 1].size())
        at[--d] = 0;
      if (d == 0)
        break;
    }
    if (r.shape.empty()) {
      r.t = MV::SCALAR;
      r.s = r.e[0];
    }
    return r;
  }

  std::optional<MV> constantOf(mlir::Attribute a, mlir::Type t) {
    if (auto v = constant(a))
      return MV(*v);
    MV r;
    r.t = MV::TENSOR;
    if (auto st = mlir::dyn_cast<mlir::ShapedType>(t)) {
      r.shape.assign(st.getShape().begin(), st.getShape().end());
      auto k = kindOf(st.getElementType());
      if (!k)
        return std::nullopt;
      r.k = *k;
    }
    if (auto d = mlir::dyn_cast<DenseBooleanElementsAttr>(a)) {
      for (auto x : d.getValues())
        r.e.push_back(boolean(x));
      return r;
    }
    if (auto d = mlir::dyn_cast<DenseIntegerElementsAttr>(a)) {
      for (auto x : d.getValues())
        r.e.push_back(integer(x));
      return r;
    }
    if (auto d = mlir::dyn_cast<DenseRealElementsAttr>(a)) {
      for (auto x : d.getValues())
        r.e.push_back(real(x.convertToDouble()));
      return r;
    }
    if (auto rg = mlir::dyn_cast<IntegerRangeAttr>(a)) {
      r.t = MV::RANGE;
      r.b = rg.getLowerBound(), r.end = rg.getUpperBound(), r.step = rg.getStep();
      return r;
    }
    return std::nullopt;
  }

  Val scalarOp(llvm::StringRef n, const std::vector<Val> &a, Kind k, bool &ok) {
    bool ints = true;
    for (auto &v : a)
      ints &= v.k != REAL;
    auto r = apply(n, a, ints);
    if (!r) {
      ok = false;
      return real(0);
    }
    Val v = to(k, *r);
    // (only what the last bit of an operand could change)
    static const std::set<S> cmp = {"eq", "neq", "gt", "gte", "lt", "lte"};
    if (!ints && cmp.count(n.str()) &&
        std::fabs(a[0].num() - a[1].num()) < 1e-7)
      fuzzy = true;
    if (!ints && (n == "mod" || n == "rem" || n == "floor" || n == "ceil" ||
                  n == "integer" || n == "div_trunc" || n == "sign")) {
      double q = n == "mod" || n == "rem" || n == "div_trunc"
                     ? a[0].num() / a[1].num()
                     : a[0].num();
      if (std::fabs(q - std::round(q)) < 1e-7)
        fuzzy = true;
    }
    if (v.k == REAL && !(std::fabs(v.d) < 1e9))
      fuzzy = true;
    return v;
  }

  std::optional<MV> compute(mlir::Operation *op, const std::vector<MV> &a) {
    mlir::Type rt = op->getResult(0).getType();
    mlir::Type et = rt;
    if (auto st = mlir::dyn_cast<mlir::ShapedType>(rt))
      et = st.getElementType();
    llvm::StringRef n = op->getName().stripDialect();
    if (auto rgt = mlir::dyn_cast<RangeType>(rt)) {
      // arithmetic of ranges
      MV r;
      r.t = MV::RANGE;
      if (n == "add" || n == "sub" || n == "mul") {
        const MV &x = a[0].t == MV::RANGE ? a[0] : a[1],
                 &y = a[0].t == MV::RANGE ? a[1] : a[0];
        if (y.t != MV::SCALAR || (n == "sub" && a[0].t != MV::RANGE))
          return std::nullopt;
        int64_t v = y.s.num();
        r = x;
        if (n == "mul")
          r.b *= v, r.end *= v, r.step *= v;
        else {
          r.b += n == "add" ? v : -v;
          if (r.end != INT64_MAX)
            r.end += n == "add" ? v : -v;
        }
        return r;
      }
      return std::nullopt;
    }
    auto k = kindOf(et);
    if (!k)
      return std::nullopt;
    for (auto &v : a)
      allRead(v);
    bool ok = true;
    auto f = [&](std::vector<Val> v) { return scalarOp(n, v, *k, ok); };
    bool tensors = false;
    for (auto &v : a) {
      tensors |= v.t == MV::TENSOR;
      if (v.t != MV::SCALAR && v.t != MV::TENSOR)
        return std::nullopt;
    }
    MV r;
    r.k = *k;
    if (!tensors) {
      std::vector<Val> v;
      for (auto &x : a)
        v.push_back(x.s);
      r.s = f(v);
      return ok ? std::optional<MV>(r) : std::nullopt;
    }
    auto tensor = [&](const Shape &s) {
      r.t = MV::TENSOR;
      r.shape = s;
      r.e.clear();
    };
    if (n == "mul" && a[0].t == MV::TENSOR && a[1].t == MV::TENSOR) {
      const MV &x = a[0], &y = a[1];
      int64_t inner = x.shape.back();
      if (inner != y.shape[0] || x.shape.size() > 2 || y.shape.size() > 2)
        return std::nullopt;
      int64_t rows = x.shape.size() == 2 ? x.shape[0] : 1,
              cols = y.shape.size() == 2 ? y.shape[1] : 1;
      Shape s;
      if (x.shape.size() == 2)
        s.push_back(rows);
      if (y.shape.size() == 2)
        s.push_back(cols);
      tensor(s);
      for (int64_t i = 0; i < rows; ++i)
        for (int64_t j = 0; j < cols; ++j) {
          double sum = 0;
          for (int64_t l = 0; l < inner; ++l)
            sum += x.e[i * inner + l].num() * y.e[l * cols + j].num();
          r.e.push_back(to(*k, real(sum)));
        }
      if (s.empty()) {
        r.t = MV::SCALAR;
        r.s = r.e[0];
      }
      return r;
    }
    // element by element, scalars being repeated
    Shape s;
    for (auto &v : a)
      if (v.t == MV::TENSOR) {
        if (!s.empty() && s != v.shape)
          return std::nullopt;
        s = v.shape;
      }
    tensor(s);
    for (int64_t i = 0; i < volume(s); ++i) {
      std::vector<Val> v;
      for (auto &x : a)
        v.push_back(x.t == MV::TENSOR ? x.e[i] : x.s);
      r.e.push_back(f(v));
    }
    return ok ? std::optional<MV>(r) : std::nullopt;
  }

  std::vector<MV> args(Env &env, mlir::OperandRange r, bool &ok) {
    std::vector<MV> a;
    for (mlir::Value v : r) {
      auto it = env.find(v);
      if (it == env.end()) {
        ok = fail("a value is used before it is computed");
        return a;
      }
      a.push_back(it->second);
    }
    return a;
  }

  // Calls a function of the source language.
  bool call(S name, const std::vector<MV> &in, std::vector<MV> &out,
            mlir::ArrayAttr names = {}) {
    FunctionOp fn;
    module.walk([&](FunctionOp f) {
      if (f.getSymName() == name)
        fn = f;
    });
    if (!fn)
      return fail("no function " + name);
    if (budget < 100)
      return fail("too long");
    Frame fr;
    std::map<S, DefaultOp> defaults;
    for (auto d : fn.getBodyRegion().getOps<DefaultOp>())
      defaults[d.getVariable().str()] = d;
    std::vector<S> outs, ins;
    std::vector<VariableOp> vars;
    for (auto v : fn.getBodyRegion().getOps<VariableOp>()) {
      auto s = declare(v.getVariableType().getShape(),
                       v.getVariableType().getElementType());
      if (!s)
        return fail("a variable of function " + name);
      s->name = v.getSymName().str();
      fr[s->name] = s;
      if (v.isInput())
        ins.push_back(s->name);
      if (v.isOutput())
        outs.push_back(s->name);
    }
    std::set<S> given;
    for (size_t i = 0; i < in.size(); ++i) {
      S to = names ? mlir::cast<mlir::FlatSymbolRefAttr>(names[i]).getValue().str()
                   : i < ins.size() ? ins[i] : "";
      if (!fr.count(to) || !given.insert(to).second)
        return fail("arguments of " + name);
      if (!assign(fr[to], {}, in[i]))
        return false;
    }
    for (auto &d : defaults)
      if (!given.count(d.first)) {
        Env env;
        std::vector<MV> y;
        if (block(d.second.getBodyRegion().front(), env, fr, &y) != NEXT ||
            y.size() != 1 || !assign(fr[d.first], {}, y[0]))
          return fail("default of " + d.first);
      }
    for (auto &s : ins)
      if (!given.count(s) && !defaults.count(s))
        return fail("an argument of " + name + " is missing");
    for (auto alg : fn.getBodyRegion().getOps<AlgorithmOp>()) {
      Env env;
      Flow f = block(*alg.getBody(), env, fr, nullptr);
      if (!error.empty())
        return false;
      if (f == RETURN)
        break;
    }
    for (auto &o : outs) {
      MV v = read(fr[o]);
      out.push_back(v);
    }
    return true;
  }

  std::shared_ptr<Storage> qualified(mlir::SymbolRefAttr r) {
    auto m = models.find(r.getRootReference().getValue().str());
    if (m == models.end() || r.getNestedReferences().size() != 1)
      return nullptr;
    auto v = m->second.find(r.getLeafReference().getValue().str());
    return v == m->second.end() ? nullptr : v->second;
  }

  Flow block(mlir::Block &b, Env &env, Frame &fr, std::vector<MV> *yield) {
    for (mlir::Operation &op : b) {
      if (!error.empty())
        return RETURN;
      ++ops;
      if (budget-- == 0) {
        fail("too long");
        return RETURN;
      }
      Flow f = step(&op, env, fr, yield);
      if (f != NEXT)
        return f;
    }
    return NEXT;
  }

  Flow step(mlir::Operation *op, Env &env, Frame &fr, std::vector<MV> *yield) {
    bool ok = true;
    auto bad = [&] { fail(op); return RETURN; };
    auto A = [&] { return args(env, op->getOperands(), ok); };
    auto set = [&](std::optional<MV> v) {
      if (v)
        env[op->getResult(0)] = *v;
      return v ? NEXT : bad();
    };
    if (auto c = mlir::dyn_cast<ConstantOp>(op))
      return set(constantOf(mlir::cast<mlir::Attribute>(c.getValue()),
                            c.getResult().getType()));
    if (auto c = mlir::dyn_cast<mlir::arith::ConstantOp>(op))
      return set(constantOf(c.getValue(), c.getType()));
    if (auto g = mlir::dyn_cast<VariableGetOp>(op)) {
      auto it = fr.find(g.getVariable().str());
      return it == fr.end() ? bad() : set(read(it->second));
    }
    if (auto s = mlir::dyn_cast<VariableSetOp>(op)) {
      auto it = fr.find(s.getVariable().str());
      if (it == fr.end())
        return bad();
      auto subs = args(env, s.getIndices(), ok);
      auto v = env.find(s.getValue());
      if (!ok || v == env.end() || !assign(it->second, subs, v->second))
        return bad();
      return NEXT;
    }
    if (auto g = mlir::dyn_cast<QualifiedVariableGetOp>(op)) {
      auto st = qualified(g.getVariable());
      if (!st)
        return bad();
      if (mlir::isa<ArrayType>(g.getType())) {
        MV r;
        r.t = MV::REF;
        r.k = st->k;
        r.st = st;
        return set(r);
      }
      return set(read(st));
    }
    if (auto s = mlir::dyn_cast<QualifiedVariableSetOp>(op)) {
      auto st = qualified(s.getVariable());
      auto subs = args(env, s.getIndices(), ok);
      auto v = env.find(s.getValue());
      if (!st || !ok || v == env.end() || !assign(st, subs, v->second))
        return bad();
      return NEXT;
    }
    if (auto g = mlir::dyn_cast<GlobalVariableGetOp>(op)) {
      auto it = globals.find(g.getVariable().str());
      if (it == globals.end())
        return bad();
      MV r;
      r.t = MV::REF;
      r.k = it->second->k;
      r.st = it->second;
      return set(r);
    }
    if (mlir::isa<AllocaOp, AllocOp>(op)) {
      auto t = mlir::cast<ArrayType>(op->getResult(0).getType());
      MV r;
      r.t = MV::REF;
      r.st = declare(t.getShape(), t.getElementType());
      if (!r.st)
        return bad();
      r.k = r.st->k;
      return set(r);
    }
    if (auto s = mlir::dyn_cast<SubscriptionOp>(op)) {
      auto a = A();
      if (!ok || a[0].t != MV::REF)
        return bad();
      MV r = a[0];
      for (size_t i = 1; i < a.size(); ++i) {
        if (a[i].t != MV::SCALAR)
          return bad();
        r.idx.push_back(a[i].s.num());
      }
      return set(r);
    }
    if (auto l = mlir::dyn_cast<LoadOp>(op)) {
      auto a = A();
      if (!ok || a[0].t != MV::REF)
        return bad();
      auto i = a[0].idx;
      for (size_t k = 1; k < a.size(); ++k)
        i.push_back(a[k].s.num());
      auto &st = *a[0].st;
      if (i.size() != st.shape.size())
        return bad();
      for (size_t d = 0; d < i.size(); ++d)
        if (i[d] < 0 || i[d] >= st.shape[d]) {
          fail("load out of bounds");
          return RETURN;
        }
      if (st.model && onAccess)
        onAccess(st.name, flat(st.shape, i), false);
      return set(MV(st.e[flat(st.shape, i)]));
    }
    if (auto s = mlir::dyn_cast<StoreOp>(op)) {
      auto v = env.find(s.getValue());
      auto r = env.find(s.getArray());
      auto subs = args(env, s.getIndices(), ok);
      if (!ok || v == env.end() || r == env.end() || r->second.t != MV::REF)
        return bad();
      std::vector<MV> all;
      for (auto i : r->second.idx)
        all.push_back(MV(integer(i)));
      for (auto &i : subs)
        all.push_back(i);
      if (all.size() != r->second.st->shape.size() ||
          !assign(r->second.st, all, v->second))
        return bad();
      return NEXT;
    }
    if (mlir::isa<TensorExtractOp, TensorViewOp>(op)) {
      auto a = A();
      if (!ok)
        return bad();
      if (a[0].t == MV::SCALAR && a.size() == 1)
        return set(a[0]);
      if (a[0].t != MV::TENSOR)
        return bad();
      auto v = view(a[0], {a.begin() + 1, a.end()});
      if (v && mlir::isa<TensorExtractOp>(op) && v->t != MV::SCALAR)
        return bad();
      return set(v);
    }
    if (mlir::isa<TensorFromElementsOp>(op)) {
      auto a = A();
      auto t = mlir::cast<mlir::ShapedType>(op->getResult(0).getType());
      auto k = kindOf(t.getElementType());
      MV r;
      r.t = MV::TENSOR;
      r.shape.assign(t.getShape().begin(), t.getShape().end());
      if (!ok || !k || volume(r.shape) != (int64_t)a.size())
        return bad();
      r.k = *k;
      for (auto &v : a)
        r.e.push_back(to(*k, v.s));
      return set(r);
    }
    if (mlir::isa<TensorBroadcastOp>(op)) {
      auto a = A();
      auto t = mlir::cast<mlir::ShapedType>(op->getResult(0).getType());
      auto k = kindOf(t.getElementType());
      MV r;
      r.t = MV::TENSOR;
      r.shape.assign(t.getShape().begin(), t.getShape().end());
      if (!ok || !k || a[0].t != MV::SCALAR)
        return bad();
      r.k = *k;
      r.e.assign(volume(r.shape), to(*k, a[0].s));
      return set(r);
    }
    if (mlir::isa<UnboundedRangeOp>(op)) {
      MV r;
      r.t = MV::RANGE;
      r.b = 0, r.end = INT64_MAX, r.step = 1;
      return set(r);
    }
    if (mlir::isa<RangeOp>(op)) {
      auto a = A();
      if (!ok)
        return bad();
      MV r;
      r.t = MV::RANGE;
      r.b = a[0].s.num(), r.end = a[1].s.num(), r.step = a[2].s.num();
      return set(r);
    }
    if (mlir::isa<SizeOp>(op)) {
      auto a = A();
      if (!ok || a[0].t != MV::TENSOR)
        return bad();
      if (a.size() == 2) {
        int64_t d = a[1].s.num();
        if (d < 0 || d >= (int64_t)a[0].shape.size())
          return bad();
        return set(MV(integer(a[0].shape[d])));
      }
      return bad();
    }
    if (mlir::isa<DimOp>(op))
      return bad();
    if (mlir::isa<SumOp, ProductOp>(op) || ((mlir::isa<MaxOp, MinOp>(op)) && op->getNumOperands() == 1)) {
      auto a = A();
      if (!ok || a[0].t != MV::TENSOR || a[0].e.empty())
        return bad();
      allRead(a[0]);
      auto k = kindOf(op->getResult(0).getType());
      if (!k)
        return bad();
      double r = mlir::isa<SumOp>(op) ? 0 : mlir::isa<ProductOp>(op) ? 1 : a[0].e[0].num();
      for (auto &v : a[0].e)
        r = mlir::isa<SumOp>(op) ? r + v.num()
            : mlir::isa<ProductOp>(op) ? r * v.num()
            : mlir::isa<MaxOp>(op) ? std::max(r, v.num())
                                   : std::min(r, v.num());
      return set(MV(to(*k, real(r))));
    }
    if (mlir::isa<TransposeOp>(op)) {
      auto a = A();
      if (!ok || a[0].t != MV::TENSOR || a[0].shape.size() != 2)
        return bad();
      allRead(a[0]);
      MV r = a[0];
      r.st = nullptr;
      std::swap(r.shape[0], r.shape[1]);
      for (int64_t i = 0; i < r.shape[0]; ++i)
        for (int64_t j = 0; j < r.shape[1]; ++j)
          r.e[i * r.shape[1] + j] = a[0].e[j * r.shape[0] + i];
      return set(r);
    }
    if (mlir::isa<TimeOp>(op))
      return set(MV(real(time)));
    if (auto s = mlir::dyn_cast<SelectOp>(op)) {
      auto c = env.find(s.getCondition());
      if (c == env.end() || s.getTrueValues().size() != 1)
        return bad();
      auto v = env.find(c->second.s.truth() ? s.getTrueValues()[0]
                                            : s.getFalseValues()[0]);
      if (v == env.end())
        return bad();
      MV r = v->second;
      mlir::Type et = op->getResult(0).getType();
      if (auto st = mlir::dyn_cast<mlir::ShapedType>(et))
        et = st.getElementType();
      auto k = kindOf(et);
      if (!k)
        return bad();
      r.k = *k;
      r.s = to(*k, r.s);
      for (auto &x : r.e)
        x = to(*k, x);
      return set(r);
    }
    if (auto c = mlir::dyn_cast<CallOp>(op)) {
      auto a = A();
      for (auto &v : a)
        allRead(v);
      std::vector<MV> out;
      std::optional<mlir::ArrayAttr> names = c.getArgNames();
      if (!ok || !call(c.getCallee().getLeafReference().getValue().str(), a, out,
                       names ? *names : mlir::ArrayAttr()) ||
          out.size() != op->getNumResults())
        return bad();
      for (size_t i = 0; i < out.size(); ++i)
        env[op->getResult(i)] = out[i];
      return NEXT;
    }
    if (auto y = mlir::dyn_cast<YieldOp>(op)) {
      if (yield)
        *yield = A();
      return ok ? NEXT : bad();
    }
    if (mlir::isa<BreakOp>(op))
      return BREAK;
    if (mlir::isa<ReturnOp, RawReturnOp>(op))
      return RETURN;
    if (mlir::isa<ConditionOp>(op)) {
      if (yield)
        *yield = A();
      return ok ? NEXT : bad();
    }
    auto region = [&](mlir::Region &r, std::vector<MV> *y) {
      return r.empty() ? NEXT : block(r.front(), env, fr, y);
    };
    if (auto i = mlir::dyn_cast<IfOp>(op)) {
      auto c = env.find(i.getCondition());
      if (c == env.end())
        return bad();
      return region(c->second.s.truth() ? i.getThenRegion() : i.getElseRegion(),
                    nullptr);
    }
    if (mlir::isa<WhileOp, ForOp>(op)) {
      for (;;) {
        std::vector<MV> c;
        Flow f = region(op->getRegion(0), &c);
        if (f != NEXT || c.empty())
          return error.empty() ? bad() : RETURN;
        if (!c[0].s.truth())
          return NEXT;
        f = region(op->getRegion(1), nullptr);
        if (f == BREAK)
          return NEXT;
        if (f == RETURN)
          return f;
        if (op->getNumRegions() > 2 && region(op->getRegion(2), nullptr) != NEXT)
          return bad();
      }
    }
    if (auto q = mlir::dyn_cast<ReductionOp>(op)) {
      auto a = args(env, q.getIterables(), ok);
      if (!ok || q.getAction() != "add")
        return bad();
      for (auto &v : a)
        if (v.t != MV::RANGE || v.step <= 0)
          return bad();
      double sum = 0;
      std::function<bool(size_t)> go = [&](size_t k) {
        if (k == a.size()) {
          std::vector<MV> y;
          if (budget-- == 0)
            fail("too long");
          if (!error.empty() || block(*q.getBody(), env, fr, &y) != NEXT || y.size() != 1)
            return false;
          sum += y[0].s.num();
          return true;
        }
        for (int64_t i = a[k].b; i <= a[k].end; i += a[k].step) {
          env[q.getInductions()[k]] = MV(integer(i));
          if (!go(k + 1))
            return false;
        }
        return true;
      };
      if (!go(0))
        return error.empty() ? bad() : RETURN;
      return set(MV(real(sum)));
    }
    if (auto f = mlir::dyn_cast<mlir::scf::ForOp>(op)) {
      auto a = A();
      if (!ok)
        return bad();
      for (int64_t i = a[0].s.i; i < a[1].s.i; i += a[2].s.i) {
        env[f.getInductionVar()] = MV(integer(i));
        for (mlir::Operation &o : *f.getBody()) {
          if (mlir::isa<mlir::scf::YieldOp>(o))
            break;
          ++ops;
          if (budget-- == 0)
            fail("too long");
          if (!error.empty() || step(&o, env, fr, nullptr) != NEXT)
            return RETURN;
        }
        if (a[2].s.i <= 0)
          return bad();
      }
      return NEXT;
    }
    if (auto f = mlir::dyn_cast<mlir::affine::AffineForOp>(op)) {
      auto bound = [&](mlir::AffineMap m, mlir::OperandRange o) -> std::optional<int64_t> {
        auto a = args(env, o, ok);
        if (!ok || m.getNumResults() != 1)
          return std::nullopt;
        llvm::SmallVector<mlir::Attribute> in, out;
        for (auto &v : a)
          in.push_back(mlir::IntegerAttr::get(mlir::IndexType::get(op->getContext()), v.s.num()));
        if (mlir::failed(m.constantFold(in, out)))
          return std::nullopt;
        return mlir::cast<mlir::IntegerAttr>(out[0]).getInt();
      };
      auto lo = bound(f.getLowerBoundMap(), f.getLowerBoundOperands());
      auto hi = bound(f.getUpperBoundMap(), f.getUpperBoundOperands());
      if (!lo || !hi || f.getNumResults())
        return bad();
      for (int64_t i = *lo; i < *hi; i += f.getStepAsInt()) {
        env[f.getInductionVar()] = MV(integer(i));
        for (mlir::Operation &o : *f.getBody()) {
          if (mlir::isa<mlir::affine::AffineYieldOp>(o))
            break;
          ++ops;
          if (budget-- == 0)
            fail("too long");
          if (!error.empty() || step(&o, env, fr, nullptr) != NEXT)
            return RETURN;
        }
      }
      return NEXT;
    }
    if (mlir::isa<mlir::arith::SubIOp, mlir::arith::AddIOp, mlir::arith::MulIOp>(op)) {
      auto a = A();
      if (!ok)
        return bad();
      int64_t x = a[0].s.i, y = a[1].s.i;
      return set(MV(integer(mlir::isa<mlir::arith::SubIOp>(op) ? x - y
                            : mlir::isa<mlir::arith::AddIOp>(op) ? x + y : x * y)));
    }
    if (auto r = mlir::dyn_cast<RunScheduleOp>(op)) {
      S model = r.getSchedule().getRootReference().getValue().str(),
        name = r.getSchedule().getLeafReference().getValue().str();
      ScheduleOp s;
      module.walk([&](ScheduleOp x) {
        if (x.getSymName() == name &&
            x->getParentOfType<ModelOp>().getSymName() == model)
          s = x;
      });
      if (!s || !schedule(s))
        return bad();
      return NEXT;
    }
    if (mlir::isa<EquationSideOp, EquationSidesOp, PrintOp, mlir::runtime::ReturnOp>(op))
      return NEXT;
    if (op->getNumResults() == 1 && op->getNumRegions() == 0) {
      auto a = A();
      return ok ? set(compute(op, a)) : bad();
    }
    return bad();
  }

  void inAnyOrder(size_t n, const std::function<void(size_t)> &f) {
    if (anyOrder)
      anyOrder(n, f);
    else
      for (size_t i = 0; i < n; ++i)
        f(i);
  }

  bool equationFunction(const S &name, const std::vector<int64_t> &bounds) {
    auto f = module.lookupSymbol<EquationFunctionOp>(name);
    if (!f || f.getBody().getNumArguments() != bounds.size())
      return fail("equation function " + name);
    Env env;
    for (size_t i = 0; i < bounds.size(); ++i)
      env[f.getBody().getArgument(i)] = MV(integer(bounds[i]));
    Frame fr;
    block(f.getBody().front(), env, fr, nullptr);
    return error.empty();
  }

  bool schedule(ScheduleOp s) {
    bool ok = true;
    std::function<void(mlir::Operation *)> run = [&](mlir::Operation *op) {
      if (!ok || !error.empty())
        return;
      if (mlir::isa<InitialOp, DynamicOp>(op)) {
        for (auto &o : op->getRegion(0).front())
          run(&o);
      } else if (mlir::isa<ScheduleBlockOp>(op)) {
        if (onBlock)
          onBlock(op, true);
        for (auto &o : op->getRegion(0).front())
          run(&o);
        if (onBlock)
          onBlock(op, false);
      } else if (mlir::isa<ParallelScheduleBlocksOp>(op)) {
        std::vector<mlir::Operation *> b;
        for (auto &o : op->getRegion(0).front())
          b.push_back(&o);
        inAnyOrder(b.size(), [&](size_t i) { run(b[i]); });
      } else if (auto c = mlir::dyn_cast<EquationCallOp>(op)) {
        const auto &ind = c.getProperties().indices;
        S name = c.getCallee().str();
        if (ind.empty()) {
          ok &= equationFunction(name, {});
          return;
        }
        if (c.getParallelizable() && anyOrder) {
          std::vector<std::vector<int64_t>> pts;
          for (auto p : ind) {
            std::vector<int64_t> v;
            for (size_t d = 0; d < p.rank(); ++d)
              v.push_back(p[d]), v.push_back(p[d] + 1);
            pts.push_back(v);
          }
          anyOrder(pts.size(), [&](size_t i) { ok &= equationFunction(name, pts[i]); });
          return;
        }
        for (const auto &r : llvm::make_range(ind.rangesBegin(), ind.rangesEnd())) {
          std::vector<int64_t> v;
          for (size_t d = 0; d < r.rank(); ++d)
            v.push_back(r[d].getBegin()), v.push_back(r[d].getEnd());
          ok &= equationFunction(name, v);
        }
      } else if (auto c = mlir::dyn_cast<CallOp>(op)) {
        // (the update of a state)
        auto f = c.getNumOperands() || c.getNumResults()
                     ? nullptr
                     : module.lookupSymbol<RawFunctionOp>(c.getCallee().getLeafReference());
        if (!f) {
          ok = fail(op);
          return;
        }
        Env env;
        Frame fr;
        block(f.getBody().front(), env, fr, nullptr);
        ok &= error.empty();
      } else
        ok = fail(op);
    };
    for (auto &o : s.getBodyRegion().front())
      run(&o);
    return ok && error.empty();
  }

  // An entry point of the simulation.
  bool entry(const S &name, const std::vector<MV> &in = {}) {
    mlir::Operation *f = nullptr;
    module.walk([&](mlir::runtime::FunctionOp x) {
      if (x.getSymName() == name)
        f = x;
    });
    if (!f)
      return fail("no entry point " + name);
    Env env;
    auto &b = f->getRegion(0).front();
    for (size_t i = 0; i < in.size(); ++i)
      env[b.getArgument(i)] = in[i];
    Frame fr;
    block(b, env, fr, nullptr);
    return error.empty();
  }

  // The values of the two sides of an equation at a point of its iterators.
  bool sides(EquationTemplateOp t, Frame &fr, const std::vector<int64_t> &at,
             std::vector<MV> &l, std::vector<MV> &r) {
    Env env;
    auto &b = t.getBodyRegion().front();
    if (b.getNumArguments() > at.size())
      return fail("rank of an equation");
    for (unsigned i = 0; i < b.getNumArguments(); ++i)
      env[b.getArgument(i)] = MV(integer(at[i]));
    block(b, env, fr, nullptr);
    if (!error.empty())
      return false;
    auto s = mlir::cast<EquationSidesOp>(b.getTerminator());
    for (bool left : {true, false}) {
      auto side = (left ? s.getLhs() : s.getRhs()).getDefiningOp<EquationSideOp>();
      bool ok = true;
      (left ? l : r) = args(env, side->getOperands(), ok);
    }
    return true;
  }
};
} // namespace bm
#endif
