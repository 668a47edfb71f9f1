// The BaseModelica dialect: folding, solving and differentiating expressions.
#include "vf.h"
#include "bminterp.h"
#include "mlir/Dialect/Arith/IR/Arith.h"
#include "mlir/IR/Verifier.h"
#include "mlir/Parser/Parser.h"
#include "mlir/Pass/PassManager.h"
#include "mlir/Transforms/Passes.h"

// (required by this release, gone in newer ones)
namespace mlir::bmodelica {
#define VF_ALIGN(T)                                                            \
  uint64_t T::getPreferredAlignment(const mlir::DataLayout &,                  \
                                    llvm::ArrayRef<mlir::DataLayoutEntryInterface>) \
      const {                                                                  \
    return 8;                                                                  \
  }
VF_ALIGN(BooleanType)
VF_ALIGN(IntegerType)
VF_ALIGN(RealType)
} // namespace mlir::bmodelica

using namespace bm;
using mlir::ModuleOp;

static const char *typeText(Kind k) {
  return k == BOOL ? "!bmodelica.bool"
         : k == INT ? "!bmodelica.int"
                    : "!bmodelica.real";
}

struct Ctx {
  S diags;
  mlir::MLIRContext ctx{mlir::MLIRContext::Threading::DISABLED};
  Ctx() {
    ctx.loadDialect<BaseModelicaDialect, mlir::func::FuncDialect,
                    mlir::arith::ArithDialect>();
    ctx.getDiagEngine().registerHandler([this](mlir::Diagnostic &d) {
      diags += d.str() + "; ";
      return mlir::success();
    });
  }
  mlir::OwningOpRef<ModuleOp> parse(const S &t) {
    return mlir::parseSourceString<ModuleOp>(t, &ctx);
  }
};
static S print(mlir::Operation *op) {
  S s;
  llvm::raw_string_ostream os(s);
  op->print(os);
  return s;
}
static S constText(const Val &v) {
  char b[64];
  if (v.k == REAL) {
    snprintf(b, sizeof b, "%.17e", v.d);
    return S("#bmodelica<real ") + b + ">";
  }
  if (v.k == INT)
    return "#bmodelica<int " + std::to_string(v.i) + ">";
  return S("#bmodelica<bool ") + (v.i ? "true" : "false") + ">";
}
static Val literal(vf::Rng &r, Kind k) {
  if (k == BOOL)
    return boolean(r.coin());
  if (k == INT)
    return integer(r.chance(1, 2) ? r.in(-1, 2) : r.in(-12, 12));
  static const std::vector<double> some = {0,    1,   -1,  2,    0.5, -0.5, 3,
                                           1e-3, 100, 1.5, -2.5, 0.1, 1e10};
  return real(r.chance(2, 3) ? r.pick(some) : r.in(-4000, 4000) / 64.0);
}

// A function on scalars, generated as text. The values for one assignment of
// the arguments are known, so that every operation is within its domain.
struct Gen {
  vf::Rng &r;
  S body;
  std::vector<std::pair<S, Val>> vals; // names and values
  int n = 0;
  S ops;
  explicit Gen(vf::Rng &r) : r(r) {}

  void constant(const Val &v) {
    S name = "%c" + std::to_string(n++);
    body += "  " + name + " = bmodelica.constant " + constText(v) + "\n";
    vals.push_back({name, v});
  }
  std::pair<S, Val> any(bool numeric, bool truth) {
    for (int tries = 0; tries < 20; ++tries) {
      auto &v = r.chance(1, 2) && vals.size() > 3
                    ? vals[vals.size() - 1 - r.in(0, 2)]
                    : r.pick(vals);
      if ((numeric && v.second.k == BOOL) || (truth && v.second.k != BOOL))
        continue;
      return v;
    }
    constant(literal(r, truth ? BOOL : r.coin() ? INT : REAL));
    return vals.back();
  }
  void op() {
    struct Row { const char *name; int args; char result; };
    // result: g the more generic operand, r real, s same, i int, b bool
    static const std::vector<Row> rows = {
        {"add", 2, 'g'},     {"sub", 2, 'g'},     {"mul", 2, 'g'},
        {"add_ew", 2, 'g'},  {"sub_ew", 2, 'g'},  {"mul_ew", 2, 'g'},
        {"add", 2, 'g'},     {"sub", 2, 'g'},     {"mul", 2, 'g'},
        {"div", 2, 'r'},     {"div_ew", 2, 'r'},  {"pow", 2, 'r'},
        {"pow_ew", 2, 'r'},  {"pow", 2, 'r'},     {"neg", 1, 's'},
        {"eq", 2, 'b'},      {"neq", 2, 'b'},     {"gt", 2, 'b'},
        {"gte", 2, 'b'},     {"lt", 2, 'b'},      {"lte", 2, 'b'},
        {"not", -1, 'b'},    {"and", -2, 'b'},    {"or", -2, 'b'},
        {"select", 3, '?'},  {"abs", 1, 's'},     {"acos", 1, 'r'},
        {"asin", 1, 'r'},    {"atan", 1, 'r'},    {"atan2", 2, 'r'},
        {"ceil", 1, 's'},    {"cos", 1, 'r'},     {"cosh", 1, 'r'},
        {"div_trunc", 2, 'g'}, {"exp", 1, 'r'},   {"floor", 1, 's'},
        {"integer", 1, 'i'}, {"log", 1, 'r'},     {"log10", 1, 'r'},
        {"max", 2, 'g'},     {"min", 2, 'g'},     {"mod", 2, 'g'},
        {"rem", 2, 'g'},     {"sign", 1, 'i'},    {"sin", 1, 'r'},
        {"sinh", 1, 'r'},    {"sqrt", 1, 'r'},    {"tan", 1, 'r'},
        {"tanh", 1, 'r'},    {"cast", 1, 'c'},
    };
    for (int tries = 0; tries < 10; ++tries) {
      auto &row = r.pick(rows);
      std::vector<std::pair<S, Val>> a;
      bool truth = row.args < 0;
      S name = row.name;
      if (row.result == '?') {
        a = {any(false, true), any(true, false), any(true, false)};
      } else {
        for (int i = 0; i < std::abs(row.args); ++i)
          a.push_back(any(!truth && name != "cast", truth));
      }
      bool ints = true;
      Kind g = BOOL;
      std::vector<Val> av;
      for (auto &x : a) {
        ints &= x.second.k != REAL;
        g = std::max(g, x.second.k);
        av.push_back(x.second);
      }
      Kind k = row.result == 'r' ? REAL
               : row.result == 'b' ? BOOL
               : row.result == 'i' ? INT
               : row.result == 's' ? a[0].second.k
               : row.result == 'c' ? (Kind)r.in(0, 2)
                                   : g;
      auto v = apply(name, av, ints);
      if (!v)
        continue;
      double x = v->num();
      if (!(std::fabs(x) < 1e12) || ((name == "mod" || name == "rem" ||
                                      name == "div_trunc") &&
                                     av[1].num() == 0))
        continue;
      if (fragile(name, av, k))
        continue;
      S out = "%v" + std::to_string(n++);
      if (name == "select") {
        Val b = to(g, a[1].second), c = to(g, a[2].second);
        body += "  " + out + " = bmodelica.select (" + a[0].first + " : " +
                typeText(BOOL) + "), (" + a[1].first + " : " +
                typeText(b.k == a[1].second.k ? g : a[1].second.k) + "), (" +
                a[2].first + " : " + typeText(a[2].second.k) + ") -> " +
                typeText(g) + "\n";
        vals.push_back({out, to(g, *v)});
      } else {
        body += "  " + out + " = bmodelica." + name + " ";
        for (size_t i = 0; i < a.size(); ++i)
          body += (i ? ", " : "") + a[i].first;
        body += " : ";
        if (a.size() == 1)
          body += typeText(a[0].second.k);
        else {
          body += "(";
          for (size_t i = 0; i < a.size(); ++i)
            body += (i ? ", " : "") + S(typeText(a[i].second.k));
          body += ")";
        }
        body += S(" -> ") + typeText(k) + "\n";
        vals.push_back({out, to(k, *v)});
      }
      ops += name + " ";
      return;
    }
  }
};

// The results of function @f for the given arguments.
static std::optional<std::vector<Val>> run(ModuleOp m,
                                           const std::vector<Val> &args,
                                           S &unknown) {
  auto f = m.lookupSymbol<mlir::func::FuncOp>("f");
  Interp in;
  for (size_t i = 0; i < args.size(); ++i)
    in.env[f.getArgument(i)] = args[i];
  for (mlir::Operation &op : f.getBody().front()) {
    if (auto ret = mlir::dyn_cast<mlir::func::ReturnOp>(op)) {
      std::vector<Val> res;
      for (mlir::Value v : ret.getOperands())
        res.push_back(in.env.lookup(v));
      if (in.overflow)
        for (auto &v : res)
          v = real(NAN);
      return res;
    }
    if (!in.pure(&op)) {
      unknown = in.unknown;
      return std::nullopt;
    }
  }
  return std::nullopt;
}

VF_STREAM("C33", "folding", 6000, 200000,
          "functions on scalars, executed before and after canonicalisation") {
  auto &r = c.rng;
  Gen g(r);
  S args, types;
  std::vector<Val> av;
  int na = r.in(0, 3);
  for (int i = 0; i < na; ++i) {
    Kind k = (Kind)r.in(0, 2);
    av.push_back(literal(r, k));
    S name = "%a" + std::to_string(i);
    args += (i ? ", " : "") + name + ": " + typeText(k);
    g.vals.push_back({name, av.back()});
  }
  for (int k = r.in(1, 4); k > 0; --k)
    g.constant(literal(r, (Kind)r.in(0, 2)));
  for (int k = r.in(1, 8); k > 0; --k) {
    if (r.chance(1, 4))
      g.constant(literal(r, (Kind)r.in(0, 2)));
    g.op();
  }
  size_t nr = std::min<size_t>(g.vals.size(), r.in(1, 6));
  S rets;
  for (size_t i = g.vals.size() - nr; i < g.vals.size(); ++i) {
    types += (types.empty() ? "" : ", ") + S(typeText(g.vals[i].second.k));
    rets += (rets.empty() ? "" : ", ") + g.vals[i].first;
  }
  S text = "func.func @f(" + args + ") -> (" + types + ") {\n" + g.body +
           "  return " + rets + " : " + types + "\n}\n";
  c.note(text);
  Ctx x;
  auto m = x.parse(text);
  c.check((bool)m, "parse", "the module is rejected: " + x.diags);
  if (!m)
    return;
  S unknown;
  std::vector<std::vector<Val>> in{av}, want;
  for (int k = 0; k < 6; ++k) {
    auto b = av;
    for (auto &v : b)
      v = literal(r, v.k);
    in.push_back(b);
  }
  for (auto &a : in) {
    auto w = run(*m, a, unknown);
    c.check(w.has_value(), "harness", "cannot execute " + unknown);
    if (!w)
      return;
    want.push_back(*w);
  }
  mlir::PassManager pm(&x.ctx);
  pm.addPass(mlir::createCanonicalizerPass());
  if (r.coin())
    pm.addPass(mlir::createCSEPass());
  c.check(mlir::succeeded(pm.run(*m)), "pass", "canonicalisation fails");
  S after = print(*m);
  for (size_t i = 0; i < in.size(); ++i) {
    auto w = run(*m, in[i], unknown);
    c.check(w.has_value(), "unknown",
            "the result has an operation that cannot be executed: " + unknown +
                "\n" + after);
    if (!w)
      return;
    for (size_t k = 0; k < w->size(); ++k) {
      if (want[i][k].k == REAL && std::isnan(want[i][k].d))
        continue; // outside the domain of some operation
      if (!same((*w)[k], want[i][k], 1e-11)) {
        c.fail("value", "result " + std::to_string(k) + " is " +
                            show((*w)[k]) + " instead of " +
                            show(want[i][k]) + " for the arguments " + [&] {
                              S s;
                              for (auto &v : in[i])
                                s += show(v) + " ";
                              return s;
                            }() + "; after:\n" + after);
        return;
      }
    }
    c.count("executions compared");
  }
  size_t before = std::count(text.begin(), text.end(), '\n'),
         now = std::count(after.begin(), after.end(), '\n');
  c.count("operations folded", before > now ? before - now : 0);
  c.nontrivial(vf::hashStr(text));
}
