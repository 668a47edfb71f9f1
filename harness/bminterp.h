// Executes operations of the BaseModelica dialect on scalars.
#ifndef VF_BMINTERP_H
#define VF_BMINTERP_H
#include "marco/Dialect/BaseModelica/IR/Dialect.h"
#include "marco/Dialect/BaseModelica/IR/Ops.h"
#include "mlir/Dialect/Func/IR/FuncOps.h"
#include <cmath>
#include <functional>
#include <map>
#include <optional>
#include <set>
#include <string>

namespace bm {
using namespace mlir::bmodelica;
using S = std::string;

enum Kind { BOOL, INT, REAL };
struct Val {
  Kind k = REAL;
  int64_t i = 0; // booleans and integers
  double d = 0;  // reals
  double num() const { return k == REAL ? d : (double)i; }
  bool truth() const { return k == REAL ? d != 0 : i != 0; }
};
inline Val real(double d) { Val v; v.d = d; return v; }
inline Val integer(int64_t i) { Val v; v.k = INT; v.i = i; return v; }
inline Val boolean(bool b) { Val v; v.k = BOOL; v.i = b; return v; }
inline S show(const Val &v) {
  if (v.k == BOOL)
    return v.i ? "true" : "false";
  if (v.k == INT)
    return std::to_string(v.i);
  char b[40];
  snprintf(b, sizeof b, "%.17g", v.d);
  return b;
}
inline bool same(const Val &a, const Val &b, double tol) {
  double x = a.num(), y = b.num();
  if (a.k == BOOL || b.k == BOOL)
    return a.k == b.k && a.i == b.i;
  if (std::isnan(x) || std::isnan(y))
    return std::isnan(x) && std::isnan(y);
  if (x == y)
    return true;
  return std::fabs(x - y) <= tol * std::max({1.0, std::fabs(x), std::fabs(y)});
}

inline std::optional<Kind> kindOf(mlir::Type t) {
  if (mlir::isa<BooleanType>(t))
    return BOOL;
  if (mlir::isa<IntegerType, mlir::IndexType>(t))
    return INT;
  if (mlir::isa<RealType, mlir::FloatType>(t))
    return REAL;
  if (auto i = mlir::dyn_cast<mlir::IntegerType>(t))
    return i.getWidth() == 1 ? BOOL : INT;
  return std::nullopt;
}

// conversion to the type of a result
inline Val to(Kind k, const Val &v) {
  switch (k) {
  case BOOL: return boolean(v.truth());
  case REAL: return real(v.num());
  default: break;
  }
  if (v.k != REAL)
    return integer(v.i);
  if (!(std::fabs(v.d) < 9e15))
    return integer(v.d != v.d ? 0 : v.d > 0 ? INT64_MAX / 2 : INT64_MIN / 2);
  return integer((int64_t)v.d); // (rounded towards zero)
}

// One operation, by its name without the dialect; the result isn't converted.
inline std::optional<Val> apply(llvm::StringRef n, const std::vector<Val> &a,
                                bool ints) {
  auto x = a.size() > 0 ? a[0].num() : 0.0, y = a.size() > 1 ? a[1].num() : 0.0;
  auto num = [&](double r) { return ints ? to(INT, real(r)) : real(r); };
  if (n == "neg") return num(-x);
  if (n == "add" || n == "add_ew") return num(x + y);
  if (n == "sub" || n == "sub_ew") return num(x - y);
  if (n == "mul" || n == "mul_ew") return num(x * y);
  if (n == "div" || n == "div_ew") return real(x / y);
  if (n == "pow" || n == "pow_ew") return real(std::pow(x, y));
  if (n == "eq") return boolean(x == y);
  if (n == "neq") return boolean(x != y);
  if (n == "gt") return boolean(x > y);
  if (n == "gte") return boolean(x >= y);
  if (n == "lt") return boolean(x < y);
  if (n == "lte") return boolean(x <= y);
  if (n == "not") return boolean(!a[0].truth());
  if (n == "and") return boolean(a[0].truth() && a[1].truth());
  if (n == "or") return boolean(a[0].truth() || a[1].truth());
  if (n == "select") return a[0].truth() ? a[1] : a[2];
  if (n == "abs") return num(std::fabs(x));
  if (n == "acos") return real(std::acos(x));
  if (n == "asin") return real(std::asin(x));
  if (n == "atan") return real(std::atan(x));
  if (n == "atan2") return real(std::atan2(x, y));
  if (n == "ceil") return real(std::ceil(x));
  if (n == "floor" || n == "integer") return real(std::floor(x));
  if (n == "cos") return real(std::cos(x));
  if (n == "cosh") return real(std::cosh(x));
  if (n == "div_trunc") return real(std::trunc(x / y));
  if (n == "exp") return real(std::exp(x));
  if (n == "log") return real(std::log(x));
  if (n == "log10") return real(std::log10(x));
  if (n == "max") return x >= y ? a[0] : a[1];
  if (n == "min") return x <= y ? a[0] : a[1];
  if (n == "mod") return real(x - std::floor(x / y) * y);
  if (n == "rem") return real(x - std::trunc(x / y) * y);
  if (n == "sign") return integer(x > 0 ? 1 : x < 0 ? -1 : 0);
  if (n == "sin") return real(std::sin(x));
  if (n == "sinh") return real(std::sinh(x));
  if (n == "sqrt") return real(std::sqrt(x));
  if (n == "tan") return real(std::tan(x));
  if (n == "tanh") return real(std::tanh(x));
  if (n == "cast") return a[0];
  return std::nullopt;
}

inline std::optional<Val> constant(mlir::Attribute at) {
  if (auto b = mlir::dyn_cast<BooleanAttr>(at))
    return boolean(b.getValue());
  if (auto i = mlir::dyn_cast<IntegerAttr>(at))
    return integer(i.getValue().getSExtValue());
  if (auto r = mlir::dyn_cast<RealAttr>(at))
    return real(r.getValue().convertToDouble());
  if (auto i = mlir::dyn_cast<mlir::IntegerAttr>(at)) {
    if (i.getType().isInteger(1))
      return boolean(i.getInt() != 0);
    return integer(i.getInt());
  }
  if (auto f = mlir::dyn_cast<mlir::FloatAttr>(at))
    return real(f.getValueAsDouble());
  return std::nullopt;
}

// Operations with jumps, near which the last bit of an operand matters.
inline bool jumps(llvm::StringRef n) {
  static const std::set<S> names = {"eq",  "neq", "gt",    "gte",   "lt",
                                    "lte", "mod", "rem",   "floor", "ceil",
                                    "max", "min", "div_trunc", "integer",
                                    "sign", "cast", "abs", "not", "and", "or"};
  return names.count(n.str());
}
inline bool fragile(llvm::StringRef n, const std::vector<Val> &a, Kind result) {
  if (n == "max" || n == "min" || n == "abs" ||
      (n == "cast" && result == REAL))
    return false;
  if (jumps(n))
    for (auto &v : a)
      if (std::fabs(v.num()) > 1e9 || v.num() * 1024 != std::floor(v.num() * 1024))
        return true;
  return n == "atan2" && a[0].num() == 0;
}

struct Interp {
  llvm::DenseMap<mlir::Value, Val> env;
  std::map<S, Val> vars;
  S unknown; // the first operation that could not be executed
  bool overflow = false; // outside the domain, or the sign of a zero matters

  // Executes the pure operations of a block; the rest is left to the caller.
  bool pure(mlir::Operation *op) {
    if (auto c = mlir::dyn_cast<ConstantOp>(op)) {
      auto v = constant(mlir::cast<mlir::Attribute>(c.getValue()));
      if (!v)
        return fail(op);
      env[c.getResult()] = *v;
      return true;
    }
    if (auto g = mlir::dyn_cast<VariableGetOp>(op)) {
      auto it = vars.find(g.getVariable().str());
      auto k = kindOf(g.getType());
      if (it == vars.end() || !k)
        return fail(op);
      env[g.getResult()] = to(*k, it->second);
      return true;
    }
    llvm::StringRef n = op->getName().stripDialect();
    if (op->getNumResults() != 1 || op->getNumRegions())
      return fail(op);
    auto k = kindOf(op->getResult(0).getType());
    if (!k)
      return fail(op);
    std::vector<Val> args;
    bool ints = true;
    for (mlir::Value v : op->getOperands()) {
      auto it = env.find(v);
      if (it == env.end())
        return fail(op);
      args.push_back(it->second);
      ints &= it->second.k != REAL;
    }
    auto r = apply(n, args, ints);
    if (!r)
      return fail(op);
    Val v = env[op->getResult(0)] = to(*k, *r);
    overflow |= (v.k == INT && std::llabs(v.i) > (1ll << 50)) ||
                (v.k == REAL && !std::isfinite(v.d)) ||
                fragile(n, args, *k);
    return true;
  }
  bool fail(mlir::Operation *op) {
    if (unknown.empty())
      unknown = op->getName().getStringRef().str();
    return false;
  }
};
} // namespace bm
#endif
