// C29: the operations of the IDA, KINSOL and SUNDIALS dialects.
#include "idxutil.h"
#include "mlirutil.h"
#include "marco/Dialect/IDA/IR/Dialect.h"
#include "marco/Dialect/KINSOL/IR/Dialect.h"
#include "marco/Dialect/Modeling/IR/Dialect.h"
#include "marco/Dialect/SUNDIALS/IR/Dialect.h"
#include "mlir/Dialect/Func/IR/FuncOps.h"
#include "mlir/Pass/PassManager.h"
#include "mlir/Transforms/Passes.h"
#include <cmath>
#include <map>

namespace ida = mlir::ida;
namespace kin = mlir::kinsol;
namespace sun = mlir::sundials;
namespace mdl = mlir::modeling;

struct Env : MlirEnv {
  Env() {
    ctx.allowUnregisteredDialects();
    ctx.loadDialect<mdl::ModelingDialect, sun::SUNDIALSDialect,
                    ida::IDADialect, kin::KINSOLDialect,
                    mlir::func::FuncDialect>();
  }
};

// --- What an operation says of itself -----------------------------------------
// Values are numbered in the order in which they are defined.
static std::string bits(double d) {
  uint64_t u;
  memcpy(&u, &d, 8);
  return std::to_string(u);
}
template <typename T>
static std::string list(const T &r) {
  std::string s = "(";
  for (auto x : r)
    s += std::string(s.size() > 1 ? " " : "") + x;
  return s + ")";
}
struct Describe {
  llvm::DenseMap<mlir::Value, int> num;
  std::vector<std::string> lines;
  std::map<int, std::string> reads; // by value: how many writes came before
  int writes = 0;
  bool optimised = false;

  std::string v(mlir::Value x) {
    auto it = num.find(x);
    return it == num.end() ? "%?" : "%" + std::to_string(it->second);
  }
  template <typename R>
  std::string vs(R r) {
    std::vector<std::string> t;
    for (mlir::Value x : r)
      t.push_back(v(x));
    return list(t);
  }
  static std::string ints(mlir::ArrayAttr a) {
    std::vector<std::string> t;
    for (auto x : a)
      t.push_back(std::to_string(mlir::cast<mlir::IntegerAttr>(x).getInt()));
    return list(t);
  }
  static std::string opt(mlir::StringAttr a) {
    return a ? "'" + a.getValue().str() + "'" : "none";
  }
  static std::string opt(std::optional<llvm::StringRef> a) {
    return a ? "'" + a->str() + "'" : "none";
  }
  static std::string sym(mlir::SymbolRefAttr a) {
    std::string s = "@" + a.getRootReference().str();
    for (auto n : a.getNestedReferences())
      s += "::" + n.getValue().str();
    return s;
  }
  void define(mlir::Operation *op) {
    for (auto &r : op->getRegions())
      if (!r.empty())
        for (auto a : r.getArguments())
          define(a);
    for (auto x : op->getResults())
      define(x);
  }
  void define(mlir::Value x) {
    int n = num.size();
    num[x] = n;
  }
  template <typename D>
  std::string solver(mlir::Operation *op) {
    if (auto o = mlir::dyn_cast<typename D::Instance>(op))
      return "instance " + o.getSymName().str();
    if (auto o = mlir::dyn_cast<typename D::Init>(op))
      return "init " + o.getInstance().str();
    if (auto o = mlir::dyn_cast<typename D::Free>(op))
      return "free " + o.getInstance().str();
    if (auto o = mlir::dyn_cast<typename D::AddEquation>(op))
      return "equation " + o.getInstance().str() + " " +
             str(toBox(o.getEquationRanges().getValue())) + " " +
             opt(o.getStringRepresentation()) + " -> " + v(o.getEquation()) +
             (mlir::isa<typename D::EquationT>(o.getEquation().getType()) ? ""
                                                                          : "?");
    if (auto o = mlir::dyn_cast<typename D::AddVariable>(op))
      return "variable " + o.getInstance().str() + " " +
             ints(o.getDimensions()) + " " + sym(o.getGetter()) + " " +
             sym(o.getSetter()) + " " + opt(o.getName()) + " -> " +
             v(o->getResult(0)) +
             (mlir::isa<typename D::VariableT>(o->getResult(0).getType()) ? ""
                                                                          : "?");
    if (auto o = mlir::dyn_cast<typename D::AddVariableAccess>(op))
      return "access " + o.getInstance().str() + " " + v(o.getEquation()) +
             " " + v(o.getVariable()) + " " + o.getAccessFunction().str();
    if (auto o = mlir::dyn_cast<typename D::SetResidual>(op))
      return "residual " + o.getInstance().str() + " " + v(o.getEquation()) +
             " " + o.getFunction().str();
    if (auto o = mlir::dyn_cast<typename D::AddJacobian>(op))
      return "jacobian " + o.getInstance().str() + " " + v(o.getEquation()) +
             " " + v(o.getVariable()) + " " + o.getFunction().str() + " " +
             ints(o.getSeedSizes());
    if (auto o = mlir::dyn_cast<typename D::Return>(op))
      return "return " + vs(o.getOperands());
    if (auto o = mlir::dyn_cast<typename D::Residual>(op)) {
      std::string s = "residual_function" + fn(o);
      if (!o.isDeclaration())
        s += D::time(*this, o) + " equation " + vs(o.getEquationIndices());
      return s;
    }
    if (auto o = mlir::dyn_cast<typename D::Jacobian>(op)) {
      std::string s = "jacobian_function" + fn(o) + " ranks " +
                      std::to_string(o.getEquationRank().getSExtValue()) + " " +
                      std::to_string(o.getVariableRank().getSExtValue());
      if (!o.isDeclaration())
        s += D::time(*this, o) + " equation " + vs(o.getEquationIndices()) +
             " variable " + vs(o.getVariableIndices()) + D::alpha(*this, o) +
             " pool " + v(o.getMemoryPool()) + " seeds " + vs(o.getADSeeds());
      return s;
    }
    return "";
  }
  template <typename T>
  std::string fn(T o) {
    std::string s = " " + o.getSymName().str() + " ";
    switch (mlir::SymbolTable::getSymbolVisibility(o)) {
    case mlir::SymbolTable::Visibility::Public: s += "public"; break;
    case mlir::SymbolTable::Visibility::Private: s += "private"; break;
    default: s += "nested";
    }
    s += " " + ostr(o.getFunctionType());
    bool declared = o.isDeclaration();
    s += declared ? " declared" : " defined";
    if (o.isExternal() != declared ||
        (o.getCallableRegion() == nullptr) != declared ||
        (!declared && o.getCallableRegion() != &o.getBody()) ||
        o.getArgumentTypes() != o.getFunctionType().getInputs() ||
        o.getResultTypes() != o.getFunctionType().getResults() ||
        o.getCallableResults() != o.getFunctionType().getResults())
      s += " (inconsistent interface)";
    mlir::FunctionOpInterface f = o;
    for (unsigned i = 0; i < o.getNumArguments(); ++i)
      for (auto a : f.getArgAttrs(i))
        s += " arg" + std::to_string(i) + ":" + a.getName().str() + "=" +
             ostr(a.getValue());
    for (unsigned i = 0; i < o.getNumResults(); ++i)
      for (auto a : f.getResultAttrs(i))
        s += " res" + std::to_string(i) + ":" + a.getName().str() + "=" +
             ostr(a.getValue());
    return s;
  }
  void visit(mlir::Operation *op);
  void visitRegions(mlir::Operation *op) {
    for (auto &r : op->getRegions())
      for (auto &b : r)
        for (auto &o : b)
          visit(&o);
  }
};

struct Ida {
  using Instance = ida::InstanceOp;
  using Init = ida::InitOp;
  using Free = ida::FreeOp;
  using AddEquation = ida::AddEquationOp;
  using AddVariable = ida::AddAlgebraicVariableOp;
  using AddVariableAccess = ida::AddVariableAccessOp;
  using SetResidual = ida::SetResidualOp;
  using AddJacobian = ida::AddJacobianOp;
  using Return = ida::ReturnOp;
  using Residual = ida::ResidualFunctionOp;
  using Jacobian = ida::JacobianFunctionOp;
  using EquationT = ida::EquationType;
  using VariableT = ida::VariableType;
  using InstanceT = ida::InstanceType;
  static constexpr bool full = true;
  static constexpr const char *name = "ida";
  template <typename T>
  static std::string time(Describe &d, T o) {
    return " time " + d.v(o.getTime());
  }
  static std::string alpha(Describe &d, Jacobian o) {
    return " alpha " + d.v(o.getAlpha());
  }
};
struct Kin {
  using Instance = kin::InstanceOp;
  using Init = kin::InitOp;
  using Free = kin::FreeOp;
  using AddEquation = kin::AddEquationOp;
  using AddVariable = kin::AddVariableOp;
  using AddVariableAccess = kin::AddVariableAccessOp;
  using SetResidual = kin::SetResidualOp;
  using AddJacobian = kin::AddJacobianOp;
  using Return = kin::ReturnOp;
  using Residual = kin::ResidualFunctionOp;
  using Jacobian = kin::JacobianFunctionOp;
  using EquationT = kin::EquationType;
  using VariableT = kin::VariableType;
  using InstanceT = kin::InstanceType;
  static constexpr bool full = false;
  static constexpr const char *name = "kinsol";
  template <typename T>
  static std::string time(Describe &, T) { return ""; }
  static std::string alpha(Describe &, Jacobian) { return ""; }
};

void Describe::visit(mlir::Operation *op) {
  define(op);
  std::string s, dialect;
  if (op->getName().getStringRef().starts_with("ida.")) {
    dialect = "ida";
    s = solver<Ida>(op);
    if (auto o = mlir::dyn_cast<ida::SetStartTimeOp>(op))
      s = "start " + o.getInstance().str() + " " +
          bits(o.getTime().convertToDouble());
    else if (auto o = mlir::dyn_cast<ida::SetEndTimeOp>(op))
      s = "end " + o.getInstance().str() + " " +
          bits(o.getTime().convertToDouble());
    else if (auto o = mlir::dyn_cast<ida::GetCurrentTimeOp>(op)) {
      s = "time " + o.getInstance().str() + " -> " + v(o.getTime()) +
          (o.getTime().getType().isF64() ? "" : "?");
      if (optimised)
        reads[num[o.getTime()]] = o.getInstance().str() + " after " +
                                  std::to_string(writes);
    } else if (auto o = mlir::dyn_cast<ida::AddStateVariableOp>(op))
      s = "state " + o.getInstance().str() + " " + ints(o.getDimensions()) +
          " " + sym(o.getStateGetter()) + " " + sym(o.getStateSetter()) + " " +
          sym(o.getDerivativeGetter()) + " " + sym(o.getDerivativeSetter()) +
          " " + opt(o.getName()) + " -> " + v(o->getResult(0)) +
          (mlir::isa<ida::VariableType>(o->getResult(0).getType()) ? "" : "?");
    else if (auto o = mlir::dyn_cast<ida::CalcICOp>(op))
      s = "calc " + o.getInstance().str();
    else if (auto o = mlir::dyn_cast<ida::StepOp>(op))
      s = "step " + o.getInstance().str();
    else if (auto o = mlir::dyn_cast<ida::PrintStatisticsOp>(op))
      s = "print " + o.getInstance().str();
    else if (auto o = mlir::dyn_cast<ida::InternalEquationsOp>(op))
      s = "internal " + std::to_string(o.getBodyRegion().getBlocks().size());
  } else if (op->getName().getStringRef().starts_with("kinsol.")) {
    dialect = "kinsol";
    s = solver<Kin>(op);
    if (auto o = mlir::dyn_cast<kin::SolveOp>(op))
      s = "solve " + o.getInstance().str();
  } else if (op->getName().getStringRef().starts_with("sundials.")) {
    dialect = "sundials";
    if (auto o = mlir::dyn_cast<sun::VariableGetterOp>(op)) {
      s = "getter" + fn(o);
      if (!o.isDeclaration())
        s += " variable " + vs(o.getVariableIndices());
    } else if (auto o = mlir::dyn_cast<sun::VariableSetterOp>(op)) {
      s = "setter" + fn(o);
      if (!o.isDeclaration())
        s += " value " + v(o.getValue()) + " variable " +
             vs(o.getVariableIndices());
    } else if (auto o = mlir::dyn_cast<sun::AccessFunctionOp>(op)) {
      s = "access_function" + fn(o);
      if (!o.isDeclaration())
        s += " equation " + vs(o.getEquationIndices());
    } else if (auto o = mlir::dyn_cast<sun::ReturnOp>(op))
      s = "return " + vs(o.getOperands());
  } else {
    dialect = op->getName().getStringRef().str();
    s = vs(op->getOperands()) + " -> " + vs(op->getResults());
    if (optimised && dialect == "test.use")
      s = reads.count(num.lookup(op->getOperand(0)))
              ? reads[num.lookup(op->getOperand(0))]
              : "?";
  }
  std::vector<std::string> extra;
  for (auto a : op->getDiscardableAttrs())
    if (a.getName() != "sym_visibility")
      extra.push_back(a.getName().str() + "=" + ostr(a.getValue()));
  if (!extra.empty())
    s += " with " + list(extra);
  if (dialect == "func.func" || dialect == "builtin.module" ||
      dialect == "func.return")
    s = "";
  bool read = optimised && mlir::isa<ida::GetCurrentTimeOp>(op);
  if (!read)
    lines.push_back(dialect + ": " + s);
  if (dialect == "ida" || dialect == "kinsol")
    writes += !read;
  visitRegions(op);
}

// --- Building ---------------------------------------------------------------
static std::string aSymbol(vf::Rng &r) {
  static const std::vector<std::string> odd = {
      "a b", "1st", "x.y", "", "\"q\"", "back\\slash", "tab\there", "\xc3\xa9",
      "$", "-", "public", "private", "true", "@at", "new\nline", "a::b"};
  if (r.chance(1, 5)) {
    auto s = r.pick(odd);
    return s.empty() ? "e" : s;
  }
  static const char *base[] = {"x", "eq", "ida_main", "_f", "solver", "x_get"};
  return base[r.in(0, 5)] + std::to_string(r.in(0, 99));
}
static double aDouble(vf::Rng &r) {
  switch (r.in(0, 5)) {
  case 0: {
    static const double e[] = {0.0, -0.0, INFINITY, -INFINITY, 1e-320, 1e308,
                               0.1, 4.9406564584124654e-324, 1.0 / 3};
    return e[r.in(0, 8)];
  }
  case 1: {
    uint64_t u = r.next();
    double d;
    memcpy(&d, &u, 8);
    if (std::isnan(d))
      d = 1;
    return d;
  }
  default: return r.in(-1000, 1000) / 8.0;
  }
}
static int64_t anInt(vf::Rng &r) {
  switch (r.in(0, 5)) {
  case 0: return (int64_t)r.next();
  case 1: {
    static const int64_t e[] = {INT64_MIN, INT64_MAX, -1, 0, 4294967296};
    return e[r.in(0, 4)];
  }
  default: return r.in(0, 9);
  }
}
static MBox aBox(vf::Rng &r) {
  MBox b;
  for (int n = r.in(1, 4); n > 0; --n) {
    int64_t lo = r.chance(1, 6) ? anInt(r) / 2 : r.in(-3, 9);
    b.push_back({lo, lo + r.in(1, r.chance(1, 6) ? 1 << 30 : 9)});
  }
  return b;
}

struct Builder {
  Env &e;
  vf::Rng &r;
  mlir::OpBuilder b;
  std::vector<std::string> want;
  int values = 0;
  int writes = 0;
  bool optimised = false;
  std::set<std::string> used;
  std::map<std::string, std::vector<std::pair<mlir::Value, int>>> eqs, vars;
  std::vector<std::pair<mlir::Value, int>> f64s, idxs;
  std::vector<std::pair<mlir::Value, std::string>> times;

  Builder(Env &e, vf::Rng &r) : e(e), r(r), b(&e.ctx) {}
  static std::string n(int v) { return "%" + std::to_string(v); }
  std::string fresh() {
    std::string s;
    do
      s = aSymbol(r);
    while (!used.insert(s).second);
    return s;
  }
  mlir::SymbolRefAttr ref(std::string &s) {
    std::string a = aSymbol(r);
    s = "@" + a;
    if (r.chance(1, 6)) {
      std::string c = aSymbol(r);
      s += "::" + c;
      return mlir::SymbolRefAttr::get(&e.ctx, a,
                                      {mlir::FlatSymbolRefAttr::get(&e.ctx, c)});
    }
    return mlir::SymbolRefAttr::get(&e.ctx, a);
  }
  mlir::ArrayAttr ints(std::string &s, int lo) {
    std::vector<int64_t> v;
    std::vector<std::string> t;
    for (int k = r.in(lo, 4); k > 0; --k) {
      v.push_back(anInt(r));
      t.push_back(std::to_string(v.back()));
    }
    s = list(t);
    return b.getI64ArrayAttr(v);
  }
  mlir::StringAttr maybe(std::string &s) {
    s = "none";
    if (r.coin())
      return {};
    std::string x = r.chance(1, 6) ? std::string() : aSymbol(r);
    s = "'" + x + "'";
    return b.getStringAttr(x);
  }
  std::string extra(mlir::Operation *op) {
    if (!r.chance(1, 6))
      return "";
    int64_t k = r.in(0, 99);
    op->setDiscardableAttr("test.note", b.getI64IntegerAttr(k));
    return " with (test.note=" + std::to_string(k) + " : i64)";
  }
  void line(const std::string &dialect, mlir::Operation *op,
            const std::string &s) {
    want.push_back(dialect + ": " + s + extra(op));
    if (dialect == "ida" || dialect == "kinsol")
      ++writes;
  }

  // Functions.
  template <typename T>
  std::string fn(T o, const std::string &name, const std::string &type,
                 bool defined) {
    std::string s = " " + name + " ";
    // (a declaration is not public)
    switch (r.in(0, defined ? 3 : 1)) {
    case 0:
      o.setPrivate();
      s += "private";
      break;
    case 1:
      o.setNested();
      s += "nested";
      break;
    default: s += "public";
    }
    s += " " + type + (defined ? " defined" : " declared");
    for (unsigned i = 0; i < o.getNumArguments(); ++i)
      if (r.chance(1, 6)) {
        o.setArgAttr(i, "test.arg", b.getI64IntegerAttr(i));
        s += " arg" + std::to_string(i) + ":test.arg=" + std::to_string(i) +
             " : i64";
      }
    for (unsigned i = 0; i < o.getNumResults(); ++i)
      if (r.chance(1, 6)) {
        o.setResultAttr(i, "test.res", b.getI64IntegerAttr(i));
        s += " res" + std::to_string(i) + ":test.res=" + std::to_string(i) +
             " : i64";
      }
    return s;
  }
  static std::string type(const std::vector<std::string> &args,
                          const std::vector<std::string> &res) {
    std::string s = "(";
    for (size_t i = 0; i < args.size(); ++i)
      s += (i ? ", " : "") + args[i];
    s += ") -> ";
    if (res.size() != 1)
      s += "(";
    for (size_t i = 0; i < res.size(); ++i)
      s += (i ? ", " : "") + res[i];
    return s + (res.size() != 1 ? ")" : "");
  }
  // the body of a function: values computed from the arguments, and a return
  template <typename Ret, typename T>
  void body(T o, const char *dialect, const std::vector<std::string> &res,
            int firstArg) {
    mlir::OpBuilder::InsertionGuard g(b);
    auto *block = &o.getBody().front();
    b.setInsertionPointToEnd(block);
    std::vector<std::pair<mlir::Value, int>> all;
    int k = firstArg;
    for (auto a : block->getArguments())
      all.push_back({a, k++});
    std::vector<mlir::Value> out;
    std::vector<std::string> outN;
    for (auto &t : res) {
      mlir::OperationState st(e.loc(), "test.compute");
      std::vector<std::string> in;
      for (int q = r.in(0, 3); q > 0 && !all.empty(); --q) {
        auto &x = r.pick(all);
        st.addOperands(x.first);
        in.push_back(n(x.second));
      }
      st.addTypes(t == "f64" ? (mlir::Type)b.getF64Type()
                             : (mlir::Type)b.getIndexType());
      auto *op = b.create(st);
      all.push_back({op->getResult(0), values});
      want.push_back("test.compute: " + list(in) + " -> (" + n(values) + ")");
      ++values;
      out.push_back(op->getResult(0));
      outN.push_back(n(values - 1));
    }
    auto ret = b.create<Ret>(e.loc(), out);
    line(dialect, ret, "return " + list(outN));
  }
  std::string args(int first, int count) {
    std::vector<std::string> t;
    for (int k = 0; k < count; ++k)
      t.push_back(n(first + k));
    return list(t);
  }
  template <typename D>
  void residual() {
    int rank = r.in(0, 4);
    bool defined = r.chance(2, 3);
    std::string name = fresh();
    auto o = b.create<typename D::Residual>(e.loc(), name, (uint64_t)rank);
    std::vector<std::string> in(rank, "index");
    if (D::full)
      in.insert(in.begin(), "f64");
    std::string s = "residual_function" + fn(o, name, type(in, {"f64"}), defined);
    int first = values;
    if (defined) {
      o.addEntryBlock();
      values += in.size();
      if (D::full)
        s += " time " + n(first);
      s += " equation " + args(first + D::full, rank);
    }
    line(D::name, o, s);
    if (defined)
      body<typename D::Return>(o, D::name, {"f64"}, first);
  }
  template <typename D>
  void jacobian() {
    int er = r.in(0, 4), vr = r.in(0, 4), seeds = r.in(0, 3);
    bool defined = r.chance(2, 3);
    std::string name = fresh();
    auto o = b.create<typename D::Jacobian>(e.loc(), name, (size_t)er,
                                            (size_t)vr, (size_t)seeds);
    std::vector<std::string> in(er + vr, "index");
    if (D::full)
      in.insert(in.begin(), "f64"), in.push_back("f64");
    in.insert(in.end(), 1 + seeds, "index");
    std::string s = "jacobian_function" + fn(o, name, type(in, {"f64"}), defined);
    s += " ranks " + std::to_string(er) + " " + std::to_string(vr);
    int first = values;
    if (defined) {
      o.addEntryBlock();
      int k = values;
      values += in.size();
      if (D::full)
        s += " time " + n(k++);
      s += " equation " + args(k, er);
      k += er;
      s += " variable " + args(k, vr);
      k += vr;
      if (D::full)
        s += " alpha " + n(k++);
      s += " pool " + n(k++);
      s += " seeds " + args(k, seeds);
    }
    line(D::name, o, s);
    if (defined)
      body<typename D::Return>(o, D::name, {"f64"}, first);
  }
  void getter() {
    int rank = r.in(0, 4);
    bool defined = r.chance(2, 3);
    std::string name = fresh();
    auto o = b.create<sun::VariableGetterOp>(e.loc(), name, (unsigned)rank);
    std::vector<std::string> in(rank, "index");
    std::string s = "getter" + fn(o, name, type(in, {"f64"}), defined);
    int first = values;
    if (defined) {
      o.addEntryBlock();
      values += rank;
      s += " variable " + args(first, rank);
    }
    line("sundials", o, s);
    if (defined)
      body<sun::ReturnOp>(o, "sundials", {"f64"}, first);
  }
  void setter() {
    int rank = r.in(0, 4);
    bool defined = r.chance(2, 3);
    std::string name = fresh();
    auto o = b.create<sun::VariableSetterOp>(e.loc(), name, (unsigned)rank);
    std::vector<std::string> in(rank, "index");
    in.insert(in.begin(), "f64");
    std::string s = "setter" + fn(o, name, type(in, {}), defined);
    int first = values;
    if (defined) {
      o.addEntryBlock();
      values += in.size();
      s += " value " + n(first) + " variable " + args(first + 1, rank);
    }
    line("sundials", o, s);
    if (defined)
      body<sun::ReturnOp>(o, "sundials", {}, first);
  }
  void access() {
    int er = r.in(0, 4), vr = r.in(0, 4);
    bool defined = r.chance(2, 3);
    std::string name = fresh();
    auto o = b.create<sun::AccessFunctionOp>(e.loc(), name, (uint64_t)er,
                                             (uint64_t)vr);
    std::vector<std::string> in(er, "index"), out(vr, "index");
    std::string s = "access_function" + fn(o, name, type(in, out), defined);
    int first = values;
    if (defined) {
      o.addEntryBlock();
      values += er;
      s += " equation " + args(first, er);
    }
    line("sundials", o, s);
    if (defined)
      body<sun::ReturnOp>(o, "sundials", out, first);
  }

  // Calls of the solver.
  template <typename D>
  void addEquation(const std::string &inst) {
    MBox box = aBox(r);
    auto ranges = mdl::MultidimensionalRangeAttr::get(&e.ctx, toMR(box));
    std::string repr;
    typename D::AddEquation o;
    if (r.coin()) {
      auto a = maybe(repr);
      o = b.create<typename D::AddEquation>(
          e.loc(), D::EquationT::get(&e.ctx), inst, ranges, a);
    } else {
      repr = "none";
      o = b.create<typename D::AddEquation>(e.loc(), inst, ranges);
    }
    line(D::name, o, "equation " + inst + " " + str(box) + " " + repr + " -> " +
                         n(values));
    eqs[D::name].push_back({o->getResult(0), values++});
  }
  template <typename D>
  void addVariable(const std::string &inst) {
    std::string dims, g, s, name = "none";
    auto d = ints(dims, 1);
    typename D::AddVariable o;
    switch (r.in(0, 2)) {
    case 0: {
      auto ga = ref(g), sa = ref(s);
      auto na = maybe(name);
      o = b.create<typename D::AddVariable>(
          e.loc(), D::VariableT::get(&e.ctx), inst, d, ga, sa, na);
      break;
    }
    case 1: {
      auto ga = ref(g), sa = ref(s);
      o = b.create<typename D::AddVariable>(e.loc(), inst, d, ga, sa);
      break;
    }
    default: {
      std::string gn = aSymbol(r), sn = aSymbol(r);
      g = "@" + gn, s = "@" + sn;
      o = b.create<typename D::AddVariable>(e.loc(), inst, d,
                                            llvm::StringRef(gn),
                                            llvm::StringRef(sn));
    }
    }
    line(D::name, o, "variable " + inst + " " + dims + " " + g + " " + s + " " +
                         name + " -> " + n(values));
    vars[D::name].push_back({o->getResult(0), values++});
  }
  void addState(const std::string &inst) {
    std::string dims, t[4], name = "none";
    auto d = ints(dims, 1);
    ida::AddStateVariableOp o;
    if (r.coin()) {
      mlir::SymbolRefAttr a[4];
      for (int i = 0; i < 4; ++i)
        a[i] = ref(t[i]);
      if (r.coin())
        o = b.create<ida::AddStateVariableOp>(e.loc(), inst, d, a[0], a[1],
                                              a[2], a[3]);
      else {
        auto na = maybe(name);
        o = b.create<ida::AddStateVariableOp>(
            e.loc(), ida::VariableType::get(&e.ctx), inst, d, a[0], a[1], a[2],
            a[3], na);
      }
    } else {
      std::string a[4];
      for (int i = 0; i < 4; ++i)
        a[i] = aSymbol(r), t[i] = "@" + a[i];
      o = b.create<ida::AddStateVariableOp>(
          e.loc(), inst, d, llvm::StringRef(a[0]), llvm::StringRef(a[1]),
          llvm::StringRef(a[2]), llvm::StringRef(a[3]));
    }
    line("ida", o, "state " + inst + " " + dims + " " + t[0] + " " + t[1] +
                       " " + t[2] + " " + t[3] + " " + name + " -> " +
                       n(values));
    vars["ida"].push_back({o->getResult(0), values++});
  }
  template <typename D>
  void call() {
    std::string inst = aSymbol(r);
    auto &E = eqs[D::name];
    auto &V = vars[D::name];
    switch (r.in(0, D::full ? 14 : 8)) {
    case 0: {
      auto o = b.create<typename D::Init>(e.loc(), inst);
      return line(D::name, o, "init " + inst);
    }
    case 1: {
      auto o = b.create<typename D::Free>(e.loc(), inst);
      return line(D::name, o, "free " + inst);
    }
    case 2: return addEquation<D>(inst);
    case 3: return addVariable<D>(inst);
    case 4:
      if (!E.empty()) {
        auto x = r.pick(E);
        std::string f = aSymbol(r);
        auto o = b.create<typename D::SetResidual>(e.loc(), inst, x.first, f);
        return line(D::name, o, "residual " + inst + " " + n(x.second) + " " + f);
      }
      return addEquation<D>(inst);
    case 5:
      if (!E.empty() && !V.empty()) {
        auto x = r.pick(E), y = r.pick(V);
        std::string f = aSymbol(r);
        auto o = b.create<typename D::AddVariableAccess>(e.loc(), inst, x.first,
                                                         y.first, f);
        return line(D::name, o, "access " + inst + " " + n(x.second) + " " +
                                    n(y.second) + " " + f);
      }
      return addVariable<D>(inst);
    case 6:
    case 7:
      if (!E.empty() && !V.empty()) {
        auto x = r.pick(E), y = r.pick(V);
        std::string f = aSymbol(r), z;
        auto sizes = ints(z, 0);
        auto o = b.create<typename D::AddJacobian>(e.loc(), inst, x.first,
                                                   y.first, f, sizes);
        return line(D::name, o, "jacobian " + inst + " " + n(x.second) + " " +
                                    n(y.second) + " " + f + " " + z);
      }
      return addVariable<D>(inst);
    case 8:
      if constexpr (!D::full) {
        auto o = b.create<kin::SolveOp>(e.loc(), inst);
        return line(D::name, o, "solve " + inst);
      }
      break;
    default:;
    }
    if constexpr (D::full)
      switch (r.in(0, 6)) {
      case 0: return addState(inst);
      case 1: {
        double d = aDouble(r);
        auto o = b.create<ida::SetStartTimeOp>(e.loc(), inst, llvm::APFloat(d));
        return line("ida", o, "start " + inst + " " + bits(d));
      }
      case 2: {
        double d = aDouble(r);
        auto o = b.create<ida::SetEndTimeOp>(e.loc(), inst, llvm::APFloat(d));
        return line("ida", o, "end " + inst + " " + bits(d));
      }
      case 3: {
        auto o = b.create<ida::GetCurrentTimeOp>(e.loc(), inst);
        if (optimised)
          times.push_back({o, inst + " after " + std::to_string(writes)});
        else
          line("ida", o, "time " + inst + " -> " + n(values));
        ++values;
        return;
      }
      case 4: {
        auto o = b.create<ida::CalcICOp>(e.loc(), inst);
        return line("ida", o, "calc " + inst);
      }
      case 5: {
        auto o = b.create<ida::PrintStatisticsOp>(e.loc(), inst);
        return line("ida", o, "print " + inst);
      }
      default: {
        auto o = b.create<ida::StepOp>(e.loc(), inst);
        return line("ida", o, "step " + inst);
      }
      }
  }
  void internal() {
    auto o = b.create<ida::InternalEquationsOp>(e.loc());
    auto *block = b.createBlock(&o.getBodyRegion());
    line("ida", o, "internal 1");
    for (int k = r.in(0, 2); k > 0; --k) {
      mlir::OperationState st(e.loc(), "test.body");
      st.addTypes(b.getF64Type());
      b.create(st);
      want.push_back("test.body: () -> (" + n(values++) + ")");
    }
    (void)block;
    b.setInsertionPointAfter(o);
  }
  template <typename D>
  void instance() {
    std::string s = fresh();
    auto o = b.create<typename D::Instance>(e.loc(), s);
    line(D::name, o, "instance " + s);
  }
};

static std::string firstDifference(const std::vector<std::string> &a,
                                   const std::vector<std::string> &b) {
  for (size_t i = 0; i < std::max(a.size(), b.size()); ++i)
    if (i >= a.size() || i >= b.size() || a[i] != b[i])
      return "expected <" + (i < a.size() ? a[i] : "nothing") + "> found <" +
             (i < b.size() ? b[i] : "nothing") + ">";
  return "";
}

VF_STREAM("C29", "modules", 4000, 100000,
          "random modules of solver operations built, described, copied") {
  auto &r = c.rng;
  Env e;
  Builder B(e, r);
  B.b.setInsertionPointToEnd(e.module->getBody());
  B.want.push_back("builtin.module: ");
  int funcs = 0;
  for (int k = r.in(1, 8); k > 0; --k)
    switch (r.in(0, 9)) {
    case 0: B.instance<Ida>(); break;
    case 1: B.instance<Kin>(); break;
    case 2: B.residual<Ida>(); break;
    case 3: B.residual<Kin>(); break;
    case 4: B.jacobian<Ida>(); break;
    case 5: B.jacobian<Kin>(); break;
    case 6: B.getter(); break;
    case 7: B.setter(); break;
    case 8: B.access(); break;
    default: {
      auto f = B.b.create<mlir::func::FuncOp>(
          e.loc(), "vf.main" + std::to_string(funcs++),
          B.b.getFunctionType({}, {}));
      B.want.push_back("func.func: ");
      mlir::OpBuilder::InsertionGuard g(B.b);
      B.b.setInsertionPointToEnd(f.addEntryBlock());
      B.eqs.clear();
      B.vars.clear();
      for (int q = r.in(1, 8); q > 0; --q)
        r.chance(1, 12) ? B.internal() : r.chance(2, 3) ? B.call<Ida>() : B.call<Kin>();
      B.b.create<mlir::func::ReturnOp>(e.loc());
      B.want.push_back("func.return: ");
    }
    }
  c.note(e.text(*e.module, true));
  c.count("operations built", B.want.size());
  auto diff = [&](mlir::ModuleOp m) {
    Describe d;
    d.visit(m);
    return firstDifference(B.want, d.lines);
  };
  std::string x = diff(*e.module);
  c.check(x.empty(), "accessors", "the operations as built: " + x);
  e.errors.clear();
  c.check(mlir::succeeded(mlir::verify(*e.module)), "verify",
          "a consistent module does not verify" + e.said());
  for (int way = 0; way < 5 && !c.failed(); ++way) {
    auto m = e.roundTrip(way);
    c.count("modules copied");
    if (!m) {
      c.fail("unreadable", std::string(e.wayName(way)) + " cannot be read" +
                               e.said());
      break;
    }
    x = diff(*m);
    c.check(x.empty(), "copy", std::string(e.wayName(way)) + ": " + x);
    c.check(mlir::succeeded(mlir::verify(*m)), "verify-copy",
            std::string(e.wayName(way)) + " does not verify" + e.said());
    c.check(e.equivalent(*e.module, *m), "equivalent",
            std::string(e.wayName(way)) + " is another module");
  }
  c.nontrivial(vf::hashStr(list(B.want)));
}

VF_STREAM("C29", "optimised", 3000, 60000,
          "sequences of solver calls, with repetitions, optimised") {
  auto &r = c.rng;
  Env e;
  Builder B(e, r);
  B.optimised = true;
  B.b.setInsertionPointToEnd(e.module->getBody());
  B.want = {"builtin.module: ", "func.func: "};
  auto f = B.b.create<mlir::func::FuncOp>(e.loc(), "vf.main",
                                          B.b.getFunctionType({}, {}));
  auto *entry = f.addEntryBlock();
  B.b.setInsertionPointToEnd(entry);
  for (int q = r.in(2, 9); q > 0; --q) {
    if (!B.times.empty() && r.coin()) {
      auto t = r.pick(B.times);
      mlir::OperationState st(e.loc(), "test.use");
      st.addOperands(t.first);
      B.b.create(st);
      B.want.push_back("test.use: " + t.second);
      continue;
    }
    if (!entry->empty() && r.chance(1, 3)) {
      // the last operation once more
      mlir::Operation *last = &entry->back();
      if (last->getName().getDialectNamespace() == "test")
        continue;
      auto *again = B.b.clone(*last);
      if (auto t = mlir::dyn_cast<ida::GetCurrentTimeOp>(again)) {
        B.times.push_back({t, t.getInstance().str() + " after " +
                                  std::to_string(B.writes)});
        ++B.values;
        continue;
      }
      std::string w = B.want.back();
      if (again->getNumResults()) {
        auto p = w.rfind("-> %");
        auto s = w.substr(0, p + 3) + B.n(B.values);
        auto z = w.find(' ', p + 4);
        w = s + (z == std::string::npos ? "" : w.substr(z));
        bool equation = mlir::isa<ida::AddEquationOp, kin::AddEquationOp>(again);
        (equation ? B.eqs : B.vars)[again->getName()
                                        .getDialectNamespace()
                                        .str()]
            .push_back({again->getResult(0), B.values++});
      }
      B.want.push_back(w);
      ++B.writes;
      continue;
    }
    r.chance(2, 3) ? B.call<Ida>() : B.call<Kin>();
  }
  B.b.create<mlir::func::ReturnOp>(e.loc());
  B.want.push_back("func.return: ");
  c.note(e.text(*e.module, true));
  // the results of the reads that disappear are not numbered
  auto lines = [&](mlir::ModuleOp m) {
    Describe d;
    d.optimised = true;
    d.visit(m);
    return d.lines;
  };
  // values are renumbered without the reads
  auto renumber = [](std::vector<std::string> v) {
    std::map<std::string, std::string> names;
    for (auto &s : v) {
      std::string out;
      for (size_t i = 0; i < s.size();) {
        if (s[i] == '%' && i + 1 < s.size() && isdigit(s[i + 1])) {
          size_t j = i + 1;
          while (j < s.size() && isdigit(s[j]))
            ++j;
          auto it = names.emplace(s.substr(i, j - i),
                                  "%" + std::to_string(names.size()));
          out += it.first->second;
          i = j;
        } else
          out += s[i++];
      }
      s = out;
    }
    return v;
  };
  std::string x = firstDifference(renumber(B.want), renumber(lines(*e.module)));
  c.check(x.empty(), "accessors", "the operations as built: " + x);
  mlir::PassManager pm(&e.ctx);
  std::string passes;
  for (int k = r.in(1, 4); k > 0; --k)
    switch (r.in(0, 3)) {
    case 0: pm.addPass(mlir::createCSEPass()); passes += " cse"; break;
    case 1:
      pm.addPass(mlir::createCanonicalizerPass());
      passes += " canonicalize";
      break;
    case 2: pm.addPass(mlir::createLoopInvariantCodeMotionPass()); passes += " licm"; break;
    default: pm.addPass(mlir::createSCCPPass()); passes += " sccp";
    }
  c.note("passes:", passes);
  e.errors.clear();
  c.check(mlir::succeeded(pm.run(*e.module)), "passes",
          "the passes" + passes + " fail" + e.said());
  c.count("sequences optimised");
  x = firstDifference(renumber(B.want), renumber(lines(*e.module)));
  c.check(x.empty(), "optimised", "after" + passes + ": " + x);
  c.nontrivial(vf::hashStr(list(B.want) + passes));
}

// --- Inconsistent operations --------------------------------------------------
struct Field {
  std::string name, good;
  std::vector<std::string> bad;
  bool optional = false;
};
struct Spec {
  std::string op;
  std::vector<Field> fields;
  std::vector<std::string> operands, results;
};
static std::vector<Spec> specs() {
  std::vector<Spec> v;
  Field inst{"instance", "\"s\"", {"1 : i64", "@s", "[]"}};
  Field symName{"sym_name", "\"s\"", {"2 : i32", "@s"}};
  Field time{"time", "1.5 : f64", {"1.5 : f32", "1 : i64", "\"x\""}};
  Field dims{"dimensions", "[1, 2]", {"[1 : i32]", "3 : i64", "[\"a\"]", "[1.0]"}};
  Field name{"name", "\"n\"", {"3 : i64", "@n"}, true};
  auto sym = [](const char *n) {
    return Field{n, "@g", {"\"g\"", "1 : i64"}};
  };
  auto str = [](const char *n) {
    return Field{n, "\"f\"", {"@f", "1 : i64"}};
  };
  for (std::string d : {"ida", "kinsol"}) {
    std::string E = "!" + d + ".equation", V = "!" + d + ".variable";
    for (std::string o : {"create", "free"})
      v.push_back({d + "." + o, {inst}, {}, {}});
    v.push_back({d + ".instance", {symName}, {}, {}});
    v.push_back({d + ".add_equation",
                 {inst,
                  {"equationRanges", "#modeling<multidim_range [1,2]>",
                   {"#modeling<range [1,2]>", "[1, 2]"}},
                  {"stringRepresentation", "\"x\"", {"1 : i64"}, true}},
                 {},
                 {E}});
    v.push_back({d + (d == "ida" ? ".add_algebraic_variable" : ".add_variable"),
                 {inst, dims, sym("getter"), sym("setter"), name},
                 {},
                 {V}});
    v.push_back({d + ".add_variable_access",
                 {inst, str("accessFunction")},
                 {E, V},
                 {}});
    v.push_back({d + ".set_residual", {inst, str("function")}, {E}, {}});
    v.push_back({d + ".add_jacobian",
                 {inst,
                  str("function"),
                  {"seedSizes", "[1, 2]", {"[1 : i32]", "1 : i64", "[@a]"}}},
                 {E, V},
                 {}});
  }
  for (std::string o : {"set_start_time", "set_end_time"})
    v.push_back({"ida." + o, {inst, time}, {}, {}});
  for (std::string o : {"calc_ic", "step", "print_statistics"})
    v.push_back({"ida." + o, {inst}, {}, {}});
  v.push_back({"ida.get_current_time", {inst}, {}, {"f64"}});
  v.push_back({"kinsol.solve", {inst}, {}, {}});
  v.push_back({"ida.add_state_variable",
               {inst, dims, sym("stateGetter"), sym("stateSetter"),
                sym("derivativeGetter"), sym("derivativeSetter"), name},
               {},
               {"!ida.variable"}});
  return v;
}

VF_STREAM("C29", "verifier", 8000, 200000,
          "single operations with one inconsistency, or none") {
  static const std::vector<Spec> all = specs();
  static const std::vector<std::string> types = {
      "!ida.equation", "!ida.variable",    "!kinsol.equation",
      "i64",           "!kinsol.variable", "!ida.instance",
      "f32",           "!sundials.equation", "!sundials.variable"};
  auto &r = c.rng;
  Env e;
  std::string s, why;
  bool bad = false;
  if (r.chance(2, 3)) {
    Spec p = r.pick(all);
    bad = r.coin();
    int what = bad ? r.in(0, 3) : -1;
    if (what >= 1 && what <= 2 && p.operands.empty() && p.results.empty())
      what = 0;
    std::string fields;
    size_t victim = r.next() % p.fields.size();
    if (what == 0 || what == 3)
      why = p.fields[victim].name;
    bool drop = what == 3 && !p.fields[victim].optional;
    for (size_t i = 0; i < p.fields.size(); ++i) {
      auto &f = p.fields[i];
      bool hit = i == victim && (what == 0 || what == 3);
      if (hit ? drop : f.optional && r.coin())
        continue;
      fields += (fields.empty() ? "" : ", ") + f.name + " = " +
                (hit ? r.pick(f.bad) : f.good);
    }
    auto in = p.operands, out = p.results;
    if (what == 1) { // another type
      size_t k = r.next() % (in.size() + out.size());
      auto &t = k < in.size() ? in[k] : out[k - in.size()];
      std::string n;
      do
        n = r.pick(types);
      while (n == t);
      t = n;
      why = "type " + n;
    } else if (what == 2) { // another number of operands or results
      bool ops = out.empty() || (!in.empty() && r.coin());
      auto &t = ops ? in : out;
      if (r.coin())
        t.push_back(t.back());
      else
        t.pop_back();
      why = "count";
    }
    std::string body;
    std::string args, ins, outs;
    for (size_t i = 0; i < in.size(); ++i) {
      body += "  %a" + std::to_string(i) + " = \"test.v\"() : () -> " + in[i] + "\n";
      args += (i ? ", %a" : "%a") + std::to_string(i);
      ins += (i ? ", " : "") + in[i];
    }
    for (size_t i = 0; i < out.size(); ++i)
      outs += (i ? ", " : "") + out[i];
    s = body + "  " + (out.empty() ? "" : "%r:" + std::to_string(out.size()) + " = ") +
        "\"" + p.op + "\"(" + args + ") " +
        (fields.empty() ? "" : "<{" + fields + "}> ") + ": (" + ins + ") -> (" +
        outs + ")\n";
    if (r.coin() && p.op.find(".instance") == std::string::npos)
      s = "func.func @f() {\n" + s + "  return\n}\n";
    else if (p.op.find(".instance") != std::string::npos && r.chance(1, 3)) {
      s = "func.func @f() {\n" + s + "  return\n}\n";
      bad = true;
      why = "parent";
    }
  } else {
    // functions
    static const std::vector<std::string> kinds = {
        "ida.residual_function", "kinsol.residual_function",
        "ida.jacobian_function", "kinsol.jacobian_function",
        "sundials.variable_getter", "sundials.variable_setter",
        "sundials.access_function", "func.func"};
    std::string k = r.pick(kinds);
    bool jac = k.find("jacobian") != std::string::npos;
    std::string dialect = k.substr(0, k.find('.'));
    std::vector<std::string> in;
    int er = r.in(0, 3), vr = r.in(0, 3);
    if (k == "sundials.variable_setter" || dialect == "ida")
      in.push_back("f64");
    in.insert(in.end(), er, "index");
    if (jac) {
      in.insert(in.end(), vr, "index");
      if (dialect == "ida")
        in.push_back("f64");
      in.insert(in.end(), 1 + r.in(0, 2), "index");
    }
    bool isFunc = k == "func.func";
    auto blockArgs = in;
    std::string ret = dialect;
    std::string fields = "sym_name = \"f\", function_type = (";
    bad = r.coin();
    int what = bad ? r.in(0, 6) : -1;
    std::vector<std::string> res;
    if (k == "sundials.access_function")
      res.assign(vr, "index");
    else if (k != "sundials.variable_setter" && !isFunc)
      res = {"f64"};
    if (what == 0 || (what == 1 && in.empty())) {
      blockArgs.push_back("index");
      why = "one block argument too many";
    } else if (what == 1) {
      if (r.coin())
        blockArgs.pop_back(), why = "one block argument too few";
      else {
        auto &t = blockArgs[r.next() % blockArgs.size()];
        t = t == "f64" ? "index" : "f64";
        why = "type of a block argument";
      }
    }
    std::string ins, outs;
    for (size_t i = 0; i < in.size(); ++i)
      ins += (i ? ", " : "") + in[i];
    for (size_t i = 0; i < res.size(); ++i)
      outs += (i ? ", " : "") + res[i];
    fields += ins + ") -> (" + outs + ")";
    if (jac)
      fields += ", equationRank = " + std::to_string(er) +
                " : index, variableRank = " + std::to_string(vr) + " : index";
    if (what == 2) {
      std::vector<std::string> others = {"ida", "kinsol", "sundials", "func"};
      do
        ret = r.pick(others);
      while (ret == dialect);
      why = "return of another dialect";
      // (a func.return outside of functions is known to its own dialect)
    }
    if (what == 3) {
      static const std::vector<std::string> w = {
          "sym_name = 1 : i64, ", "", "sym_name = @f, "};
      fields = r.pick(w) + fields.substr(fields.find("function_type"));
      why = "name";
    }
    if (what == 4) {
      fields = "sym_name = \"f\", function_type = " +
               std::string(r.coin() ? "i64" : "\"(index) -> f64\"") +
               (jac ? ", equationRank = 0 : index, variableRank = 0 : index" : "");
      why = "function type";
    }
    if (what == 5) {
      if (jac) {
        size_t p = fields.find(r.coin() ? ", equationRank" : ", variableRank");
        size_t q = fields.find(',', p + 1);
        std::string cut = fields.substr(p, q == std::string::npos ? q : q - p);
        std::string with = r.coin() ? std::string()
                                    : cut.substr(0, cut.find(" : ")) + " : i64";
        fields.replace(p, cut.size(), with);
        why = "rank";
      } else {
        fields += ", arg_attrs = [";
        for (size_t i = 0; i < in.size() + 1; ++i)
          fields += i ? ", {}" : "{}";
        fields += "]";
        why = "attributes of arguments";
      }
    }
    if (what == 6) {
      fields += ", res_attrs = [1 : i64]";
      why = "attributes of results";
    }
    std::string block, values, valueTypes;
    for (size_t i = 0; i < blockArgs.size(); ++i)
      block += (i ? ", %b" : "%b") + std::to_string(i) + ": " + blockArgs[i];
    s = "\"" + k + "\"() <{" + fields + "}> ({\n";
    if (!block.empty() || r.coin())
      s += "^bb0(" + block + "):\n";
    for (size_t i = 0; i < res.size(); ++i) {
      s += "  %v" + std::to_string(i) + " = \"test.v\"() : () -> " + res[i] + "\n";
      values += (i ? ", %v" : "%v") + std::to_string(i);
      valueTypes += (i ? ", " : "") + res[i];
    }
    s += "  \"" + ret + ".return\"(" + values + ") : (" + valueTypes + ") -> ()\n";
    s += "}) : () -> ()\n";
    if (!bad && r.chance(1, 6)) {
      s += s;
      bad = true;
      why = "the same symbol twice";
    }
    if (isFunc && what != 2)
      return;
  }
  c.note(s);
  c.note("wrong:", bad ? why : "nothing");
  auto m = e.parse(s);
  c.count(m ? "accepted" : "rejected");
  if (bad) {
    c.check(!m, "accepts-inconsistent", "accepted although wrong: " + why);
    if (!m)
      c.check(!e.errors.empty(), "silent-rejection", "rejected without a message");
  } else
    c.check((bool)m, "rejects-consistent", "rejected" + e.said());
  c.nontrivial(vf::hashStr(s));
}

VF_STREAM("C29", "types", 300, 3000, "the types of the dialects") {
  Env e;
  mlir::Type t[] = {ida::InstanceType::get(&e.ctx), ida::EquationType::get(&e.ctx),
                    ida::VariableType::get(&e.ctx), kin::InstanceType::get(&e.ctx),
                    kin::EquationType::get(&e.ctx), kin::VariableType::get(&e.ctx),
                    sun::EquationType::get(&e.ctx), sun::VariableType::get(&e.ctx)};
  const char *text[] = {"!ida.instance",    "!ida.equation",    "!ida.variable",
                        "!kinsol.instance", "!kinsol.equation", "!kinsol.variable",
                        "!sundials.equation", "!sundials.variable"};
  int i = c.rng.in(0, 7), j = c.rng.in(0, 7);
  c.note(text[i], " ", text[j]);
  c.count("types compared");
  c.check(ostr(t[i]) == text[i], "type-text", ostr(t[i]) + " for " + text[i]);
  c.check(mlir::parseType(text[i], &e.ctx) == t[i], "type-parse", text[i]);
  c.check((t[i] == t[j]) == (i == j), "type-equal",
          std::string(text[i]) + " and " + text[j]);
  c.nontrivial(i * 8 + j);
}
