// C34: whole models through the real parser, lowering and passes, executed and
// compared with the solution which is known by construction.
#include "machine.h"
#include "pipeline.h"
#include "vf.h"
#include <cmath>
#include <cstdio>

using namespace pl;

namespace {
using P = std::vector<int64_t>;
std::string num(double d) {
  char b[40];
  snprintf(b, sizeof b, "%.10g", d);
  std::string s = b;
  if (s.find_first_of(".e") == std::string::npos)
    s += ".0";
  return d < 0 ? "(" + s + ")" : s;
}

struct Sub {
  int it = -1;
  int64_t off = 0;
};
struct Ex;
using EP = std::shared_ptr<Ex>;
enum Op { NUM, VAR, TIME, ITER, LOC, ADD, SUBT, MUL, DIV, NEG, SIN, COS, MIN, MAX, ABS, IFX, CALL, RED };
struct Ex {
  Op op;
  std::vector<EP> a;
  double d = 0;
  int v = 0; // variable, iterator, local or function
  std::vector<Sub> s;
  std::vector<std::pair<int64_t, int64_t>> it; // of a reduction, after those around
};
EP mk(Op op, std::vector<EP> a = {}, double d = 0, int v = 0, std::vector<Sub> s = {}) {
  auto e = std::make_shared<Ex>();
  e->op = op, e->a = a, e->d = d, e->v = v, e->s = s;
  return e;
}
EP number(double d) { return mk(NUM, {}, d); }

struct Var {
  enum Kind { PARAM, STATE, ALG, DER } kind;
  std::string name;
  P shape;
  int base = -1; // of a derivative
  int der = -1;  // of a state
  std::string decl;  // modifications of the declaration
  std::string prefix;
  std::vector<double> val;
  std::vector<char> avail;
  int64_t size() const {
    int64_t n = 1;
    for (auto d : shape)
      n *= d;
    return n;
  }
};
struct Stmt {
  enum K { ASSIGN, IF, FOR, WHILE } k;
  int to = 0;
  EP e, e2;
  int64_t n = 0;
  std::vector<Stmt> a, b;
};
struct Fn {
  std::string name;
  int ins = 0;
  std::vector<std::string> locals; // inputs, output, then others
  std::vector<Stmt> body;
  bool inl = false;
};
struct Def {
  bool init = false;                // an initial equation
  std::vector<std::pair<int64_t, int64_t>> it;
  std::vector<bool> down;           // order of the recurrence
  std::vector<EP> unknown;          // VAR nodes
  std::vector<EP> value;            // explicit values, or right-hand sides
  std::vector<std::vector<double>> A; // linear system, when not empty
  std::vector<std::pair<EP, EP>> eq;
  bool slices = false, algorithm = false, declared = false;
};

struct Gen {
  vf::Rng &r;
  std::vector<Var> vars;
  std::vector<Fn> fns;
  std::vector<Def> defs;
  bool fuzzy = false;
  double time = 0;
  std::map<std::string, int> kinds;
  explicit Gen(vf::Rng &rng) : r(rng) {}

  // ---- evaluation
  int64_t element(const Ex &e, const P &at) {
    const Var &v = vars[e.v];
    int64_t k = 0;
    for (size_t d = 0; d < v.shape.size(); ++d) {
      int64_t i = e.s[d].off + (e.s[d].it >= 0 ? at[e.s[d].it] : 0);
      if (i < 1 || i > v.shape[d])
        return -1;
      k = k * v.shape[d] + i - 1;
    }
    return k;
  }
  double eval(const Ex &e, const P &at, std::vector<double> *loc = nullptr) {
    auto x = [&](int i) { return eval(*e.a[i], at, loc); };
    switch (e.op) {
    case NUM: return e.d;
    case VAR: return vars[e.v].val[element(e, at)];
    case TIME: return time;
    case ITER: return at[e.v];
    case LOC: return (*loc)[e.v];
    case ADD: return x(0) + x(1);
    case SUBT: return x(0) - x(1);
    case MUL: return x(0) * x(1);
    case DIV: return x(0) / x(1);
    case NEG: return -x(0);
    case SIN: return std::sin(x(0));
    case COS: return std::cos(x(0));
    case MIN: return std::min(x(0), x(1));
    case MAX: return std::max(x(0), x(1));
    case ABS: return std::fabs(x(0));
    case IFX: {
      double l = x(0), g = x(1);
      if (std::fabs(l - g) < 1e-6)
        fuzzy = true;
      return (e.v == 0 ? l < g : l > g) ? x(2) : x(3);
    }
    case RED: {
      double sum = 0;
      P p = at;
      std::function<void(size_t)> go = [&](size_t k) {
        if (k == e.it.size()) {
          sum += eval(*e.a[0], p, loc);
          return;
        }
        for (int64_t i = e.it[k].first; i <= e.it[k].second; ++i) {
          p.push_back(i);
          go(k + 1);
          p.pop_back();
        }
      };
      go(0);
      return sum;
    }
    case CALL: {
      std::vector<double> l(fns[e.v].locals.size(), 0.0);
      for (size_t i = 0; i < e.a.size(); ++i)
        l[i] = x(i);
      run(fns[e.v].body, l);
      return l[fns[e.v].ins];
    }
    }
    return 0;
  }
  void run(const std::vector<Stmt> &b, std::vector<double> &l) {
    for (auto &s : b) {
      if (s.k == Stmt::ASSIGN)
        l[s.to] = eval(*s.e, {}, &l);
      else if (s.k == Stmt::IF) {
        double x = eval(*s.e, {}, &l), y = eval(*s.e2, {}, &l);
        if (std::fabs(x - y) < 1e-6)
          fuzzy = true;
        run(x > y ? s.a : s.b, l);
      } else if (s.k == Stmt::FOR) {
        for (int64_t i = 1; i <= s.n; ++i) {
          P at = {i};
          for (auto &t : s.a)
            l[t.to] = eval(*t.e, at, &l);
        }
      } else
        while (l[s.to] < s.n) {
          run(s.a, l);
          l[s.to] += 1;
        }
    }
  }
  template <typename F>
  void points(const Def &d, F f) {
    P at;
    std::function<void(size_t)> go = [&](size_t k) {
      if (k == d.it.size()) {
        f(at);
        return;
      }
      for (int64_t n = 0; n <= d.it[k].second - d.it[k].first; ++n) {
        at.push_back(d.down[k] ? d.it[k].second - n : d.it[k].first + n);
        go(k + 1);
        at.pop_back();
      }
    };
    go(0);
  }
  void evaluate(const Def &d) {
    points(d, [&](const P &at) {
      std::vector<double> b;
      size_t n = d.unknown.size();
      for (size_t i = 0; i < n; ++i) {
        b.push_back(eval(*d.value[i], at));
        if (d.A.empty())
          vars[d.unknown[i]->v].val[element(*d.unknown[i], at)] = b[i];
      }
      if (d.A.empty())
        return;
      auto A = d.A;
      for (size_t i = 0; i < n; ++i)
        for (size_t k = i + 1; k < n; ++k) {
          double q = A[k][i] / A[i][i];
          for (size_t j = i; j < n; ++j)
            A[k][j] -= q * A[i][j];
          b[k] -= q * b[i];
        }
      for (size_t i = n; i-- > 0;) {
        for (size_t j = i + 1; j < n; ++j)
          b[i] -= A[i][j] * b[j];
        b[i] /= A[i][i];
        vars[d.unknown[i]->v].val[element(*d.unknown[i], at)] = b[i];
      }
    });
  }
  void initial() {
    time = 0;
    for (auto &d : defs)
      evaluate(d);
  }
  void step(double dt) {
    for (auto &v : vars)
      if (v.kind == Var::STATE)
        for (size_t i = 0; i < v.val.size(); ++i)
          v.val[i] += dt * vars[v.der].val[i];
    time += dt;
    for (auto &d : defs)
      if (!d.init)
        evaluate(d);
  }

  // ---- text
  const Def *printing = nullptr;
  std::string text(const Ex &e) {
    auto x = [&](int i) {
      std::string s = text(*e.a[i]);
      Op o = e.a[i]->op;
      return o == ADD || o == SUBT || o == MUL || o == DIV || o == NEG
                 ? "(" + s + ")"
                 : s;
    };
    auto bin = [&](const char *o) { return x(0) + o + x(1); };
    static const char *iter[] = {"i", "j", "k", "l"};
    switch (e.op) {
    case NUM: return num(e.d);
    case TIME: return "time";
    case ITER: return iter[e.v];
    case LOC: return locals ? (*locals)[e.v] : "?";
    case VAR: {
      const Var &v = vars[e.v];
      std::string s = v.kind == Var::DER ? vars[v.base].name : v.name, u;
      bool all = true;
      for (size_t d = 0; d < e.s.size(); ++d) {
        auto &q = e.s[d];
        u += d ? ", " : "";
        if (q.it < 0)
          all = false, u += std::to_string(q.off);
        else if (printing && printing->slices) {
          int64_t b = printing->it[q.it].first + q.off,
                  n = printing->it[q.it].second + q.off;
          all &= b == 1 && n == v.shape[d];
          u += std::to_string(b) + ":" + std::to_string(n);
        } else {
          all = false;
          u += iter[q.it];
          if (q.off)
            u += (q.off > 0 ? " + " : " - ") + std::to_string(std::abs(q.off));
        }
      }
      if (!e.s.empty() && !all)
        s += "[" + u + "]";
      return v.kind == Var::DER ? "der(" + s + ")" : s;
    }
    case ADD: return bin(" + ");
    case SUBT: return bin(" - ");
    case MUL: return bin(" * ");
    case DIV: return bin(" / ");
    case NEG: return "-" + x(0);
    case SIN: return "sin(" + text(*e.a[0]) + ")";
    case COS: return "cos(" + text(*e.a[0]) + ")";
    case MIN: return "min(" + text(*e.a[0]) + ", " + text(*e.a[1]) + ")";
    case MAX: return "max(" + text(*e.a[0]) + ", " + text(*e.a[1]) + ")";
    case ABS: return "abs(" + text(*e.a[0]) + ")";
    case IFX:
      return "(if " + x(0) + (e.v == 0 ? " < " : " > ") + x(1) + " then " +
             x(2) + " else " + x(3) + ")";
    case RED: {
      std::string s = "sum(" + text(*e.a[0]) + " for ";
      for (size_t k = 0; k < e.it.size(); ++k)
        s += (k ? ", " : "") + std::string(iter[e.v + k]) + " in " +
             std::to_string(e.it[k].first) + ":" + std::to_string(e.it[k].second);
      return s + ")";
    }
    case CALL: {
      std::string s = fns[e.v].name + "(";
      for (size_t i = 0; i < e.a.size(); ++i)
        s += (i ? ", " : "") + text(*e.a[i]);
      return s + ")";
    }
    }
    return "";
  }
  const std::vector<std::string> *locals = nullptr;
  void stmts(const std::vector<Stmt> &b, const std::string &in, std::string &o) {
    for (auto &s : b) {
      if (s.k == Stmt::ASSIGN)
        o += in + (*locals)[s.to] + " := " + text(*s.e) + ";\n";
      else if (s.k == Stmt::IF) {
        o += in + "if " + text(*s.e) + " > " + text(*s.e2) + " then\n";
        stmts(s.a, in + "  ", o);
        if (!s.b.empty()) {
          o += in + "else\n";
          stmts(s.b, in + "  ", o);
        }
        o += in + "end if;\n";
      } else if (s.k == Stmt::FOR) {
        o += in + "for i in 1:" + std::to_string(s.n) + " loop\n";
        stmts(s.a, in + "  ", o);
        o += in + "end for;\n";
      } else {
        o += in + "while " + (*locals)[s.to] + " < " + num(s.n) + " loop\n";
        stmts(s.a, in + "  ", o);
        o += in + "  " + (*locals)[s.to] + " := " + (*locals)[s.to] + " + 1.0;\n";
        o += in + "end while;\n";
      }
    }
  }
  std::string source() {
    std::string o;
    for (auto &f : fns) {
      locals = &f.locals;
      o += "function " + f.name + "\n";
      for (int i = 0; i < f.ins; ++i)
        o += "  input Real " + f.locals[i] + ";\n";
      o += "  output Real " + f.locals[f.ins] + ";\n";
      if ((int)f.locals.size() > f.ins + 1)
        o += "protected\n";
      for (size_t i = f.ins + 1; i < f.locals.size(); ++i)
        o += "  Real " + f.locals[i] + ";\n";
      o += "algorithm\n";
      stmts(f.body, "  ", o);
      if (f.inl)
        o += "  annotation(Inline = true);\n";
      o += "end " + f.name + ";\n";
    }
    o += "model M\n";
    std::vector<std::string> lines;
    for (auto &v : vars)
      if (v.kind != Var::DER) {
        std::string s = "  " + v.prefix + "Real";
        for (size_t d = 0; d < v.shape.size(); ++d)
          s += (d ? ", " : "[") + std::to_string(v.shape[d]);
        s += (v.shape.empty() ? " " : "] ") + v.name + v.decl + ";\n";
        lines.push_back(s);
      }
    r.shuffle(lines);
    for (auto &l : lines)
      o += l;
    std::string algorithms;
    for (bool init : {true, false}) {
      std::vector<std::string> q;
      for (size_t n = 0; n < defs.size(); ++n) {
        auto &d = defs[n];
        if (d.init != init || d.declared)
          continue;
        printing = &d;
        std::string s;
        if (d.algorithm) {
          algorithms += "algorithm\n";
          for (size_t i = 0; i < d.unknown.size(); ++i)
            algorithms += "  " + text(*d.unknown[i]) + " := " + text(*d.value[i]) + ";\n";
          continue;
        }
        std::string ind = "  ", tail;
        auto it = d.it;
        if (!d.slices)
          for (size_t k = 0; k < d.it.size(); ++k) {
            static const char *iter[] = {"i", "j", "k", "l"};
            s += ind + "for " + iter[k] + " in " + std::to_string(d.it[k].first) +
                 ":" + std::to_string(d.it[k].second) + " loop\n";
            tail = ind + "end for;\n" + tail;
            ind += "  ";
          }
        std::vector<std::string> l;
        for (auto &e : d.eq)
          l.push_back(ind + text(*e.first) + " = " + text(*e.second) + ";\n");
        r.shuffle(l);
        if (d.it.empty() || d.slices)
          q.insert(q.end(), l.begin(), l.end());
        else {
          for (auto &e : l)
            s += e;
          q.push_back(s + tail);
        }
      }
      r.shuffle(q);
      if (!q.empty())
        o += init ? "initial equation\n" : "equation\n";
      for (auto &e : q)
        o += e;
    }
    printing = nullptr;
    return o + algorithms + "end M;\n";
  }

  // ---- generation
  double coef() {
    static const double c[] = {0.5, 2, 1.5, -1, 0.25, 3, -0.5, 1, -2, 0.75};
    return c[r.in(0, 9)];
  }
  EP bounded(EP e) { return mk(r.coin() ? SIN : COS, {e}); }
  // a leaf which every point of the definition may read
  const std::vector<EP> *inReduction = nullptr;
  // a sum over some iterators
  EP reduction(const Def &d, bool params) {
    Def in = d;
    auto e = mk(RED, {}, 0, d.it.size());
    for (int k = r.in(1, 2); k-- > 0;) {
      int64_t b = r.in(1, 3);
      e->it.push_back({b, b + r.in(0, 2)});
      in.it.push_back(e->it.back());
      in.down.push_back(false);
    }
    inReduction = &d.unknown;
    EP l = leaf(in, false, params);
    if (l && r.coin())
      if (auto q = leaf(in, false, params))
        l = r.coin() ? mk(ADD, {l, q}) : mk(MUL, {number(0.25), mk(ADD, {bounded(l), q})});
    inReduction = nullptr;
    if (!l)
      l = mk(MUL, {number(0.5), mk(ITER, {}, 0, d.it.size())});
    e->a = {l};
    kinds["reductions"]++;
    return e;
  }
  EP leaf(const Def &d, bool whole = false, bool initOnly = false, const std::vector<EP> *none = nullptr) {
    for (int tries = 0; tries < 6; ++tries) {
      if (vars.empty())
        break;
      // recent variables are more interesting
      int v = r.coin() ? (int)r.in(0, vars.size() - 1)
                       : (int)r.in(std::max<int64_t>(0, (int64_t)vars.size() - 4), vars.size() - 1);
      if (initOnly && vars[v].kind != Var::PARAM)
        continue;
      bool refused = false;
      for (auto *l : {none, inReduction})
        for (size_t k = 0; l && k < l->size(); ++k)
          refused |= (*l)[k]->v == v;
      if (refused)
        continue;
      Var &x = vars[v];
      if (x.kind == Var::DER && d.init)
        continue;
      std::vector<Sub> s;
      bool fits = true;
      size_t used = 0;
      for (size_t k = 0; k < x.shape.size(); ++k) {
        Sub q;
        if (!d.it.empty() && (whole || r.chance(3, 4))) {
          q.it = whole ? (int)k : (int)r.in(0, d.it.size() - 1);
          if (whole && k >= d.it.size()) {
            fits = false;
            break;
          }
          int64_t lo = 1 - d.it[q.it].first, hi = x.shape[k] - d.it[q.it].second;
          if (lo > hi) {
            fits = false;
            break;
          }
          q.off = r.coin() ? r.in(lo, hi) : std::min(std::max<int64_t>(0, lo), hi);
          used++;
        } else
          q.off = r.in(1, x.shape[k]);
        s.push_back(q);
      }
      if (!fits || (whole && used != d.it.size()))
        continue;
      if (whole && x.kind == Var::DER) {
        // (slices of states have no derivatives in the compiler)
        for (size_t k = 0; k < s.size(); ++k)
          fits &= s[k].off + d.it[s[k].it].first == 1 &&
                  s[k].off + d.it[s[k].it].second == x.shape[k];
        if (!fits)
          continue;
      }
      auto e = mk(VAR, {}, 0, v, s);
      // available at every point, in the order of the definition
      std::map<int, std::vector<char>> av;
      for (auto &u : d.unknown)
        av[u->v] = vars[u->v].avail;
      bool ok = true;
      points(d, [&](const P &at) {
        int64_t k = element(*e, at);
        auto f = av.find(v);
        if (k < 0 || !(f == av.end() ? x.avail[k] : f->second[k]))
          ok = false;
        for (auto &u : d.unknown)
          av[u->v][element(*u, at)] = 1;
      });
      if (ok)
        return e;
    }
    return nullptr;
  }
  EP expr(const Def &d, int depth, bool params = false) {
    if (depth == 0 || r.chance(1, 6)) {
      if (r.chance(4, 5))
        if (auto l = leaf(d, false, params))
          return l;
      if (!params && !d.init && r.chance(1, 5))
        return mk(TIME);
      if (!d.it.empty() && r.chance(1, 3))
        return mk(MUL, {number(0.25), mk(ITER, {}, 0, r.in(0, d.it.size() - 1))});
      return number(coef());
    }
    auto x = [&] { return expr(d, depth - 1, params); };
    switch (r.in(0, 16)) {
    case 16: return inReduction || d.it.size() > 2 ? x() : reduction(d, params);
    case 0: case 1: case 2: return mk(ADD, {x(), x()});
    case 3: case 4: return mk(SUBT, {x(), x()});
    case 5: case 6: return mk(MUL, {number(coef()), x()});
    case 7: return mk(MUL, {bounded(x()), x()});
    case 8: return mk(DIV, {x(), mk(ADD, {number(2), bounded(x())})});
    case 9: return mk(DIV, {x(), number(r.coin() ? 2 : -4)});
    case 10: return mk(NEG, {x()});
    case 11: return bounded(x());
    case 12: return mk(r.coin() ? MIN : MAX, {x(), x()});
    case 13: return mk(ABS, {x()});
    case 14: return mk(IFX, {x(), x(), x(), x()}, 0, r.in(0, 1));
    default:
      if (fns.empty())
        return x();
      int f = r.in(0, fns.size() - 1);
      std::vector<EP> a;
      for (int i = 0; i < fns[f].ins; ++i)
        a.push_back(x());
      return mk(CALL, a, 0, f);
    }
  }
  // sums of multiples of whole slices
  EP sliced(const Def &d, int terms) {
    EP e;
    for (int t = 0; t < terms; ++t) {
      // (slices of what is being defined are reads of the whole of it)
      EP l = leaf(d, true, false, &d.unknown);
      if (!l)
        continue;
      if (r.coin()) {
        EP c = number(coef());
        Def scalar;
        if (r.coin())
          if (auto s = leaf(scalar, false, false, &d.unknown))
            c = s;
        l = mk(MUL, {c, l});
      }
      e = e ? mk(r.coin() ? ADD : SUBT, {e, l}) : l;
    }
    return e;
  }
  EP local(int n, int depth, bool iter) {
    if (depth == 0 || r.chance(1, 5)) {
      if (iter && r.chance(1, 3))
        return mk(ITER, {}, 0, 0);
      return r.chance(3, 4) ? mk(LOC, {}, 0, r.in(0, n - 1)) : number(coef());
    }
    auto x = [&] { return local(n, depth - 1, iter); };
    switch (r.in(0, 8)) {
    case 0: case 1: return mk(ADD, {x(), x()});
    case 2: return mk(SUBT, {x(), x()});
    case 3: return mk(MUL, {number(coef()), x()});
    case 4: return bounded(x());
    case 5: return mk(NEG, {x()});
    case 6: return mk(r.coin() ? MIN : MAX, {x(), x()});
    case 7: return mk(DIV, {x(), number(4)});
    default: return mk(ABS, {x()});
    }
  }
  void function() {
    Fn f;
    f.name = "f" + std::to_string(fns.size());
    f.ins = r.in(1, 2);
    for (int i = 0; i < f.ins; ++i)
      f.locals.push_back("a" + std::to_string(i));
    f.locals.push_back("r");
    auto assign = [&](int to, EP e) {
      Stmt s;
      s.k = Stmt::ASSIGN, s.to = to, s.e = e;
      return s;
    };
    f.body.push_back(assign(f.ins, local(f.ins, 2, false)));
    int n = f.ins + 1;
    if (r.chance(1, 3))
      f.inl = r.coin();
    else
      for (int k = r.in(1, 3); k-- > 0;) {
        Stmt s;
        switch (r.in(0, 3)) {
        case 0:
          f.body.push_back(assign(f.ins, bounded(local(n, 2, false))));
          break;
        case 1:
          s.k = Stmt::IF, s.e = local(n, 1, false), s.e2 = local(n, 1, false);
          s.a.push_back(assign(f.ins, local(n, 2, false)));
          if (r.coin())
            s.b.push_back(assign(f.ins, local(n, 2, false)));
          f.body.push_back(s);
          break;
        case 2:
          s.k = Stmt::FOR, s.n = r.in(1, 4);
          s.a.push_back(assign(f.ins, mk(ADD, {mk(LOC, {}, 0, f.ins), bounded(local(n, 1, true))})));
          f.body.push_back(s);
          break;
        default:
          f.locals.push_back("t" + std::to_string(f.locals.size()));
          f.body.push_back(assign(f.locals.size() - 1, number(0)));
          s.k = Stmt::WHILE, s.to = f.locals.size() - 1, s.n = r.in(0, 3);
          s.a.push_back(assign(f.ins, mk(SUBT, {mk(MUL, {number(0.5), mk(LOC, {}, 0, f.ins)}),
                                                 bounded(local(n, 1, false))})));
          f.body.push_back(s);
        }
      }
    fns.push_back(f);
  }
  int add(Var::Kind k, const P &shape, const std::string &prefix) {
    Var v;
    v.kind = k;
    v.name = prefix + std::to_string(vars.size());
    v.shape = shape;
    v.val.assign(v.size(), 0);
    v.avail.assign(v.size(), 0);
    vars.push_back(v);
    return vars.size() - 1;
  }
  P shape() {
    P s;
    switch (r.in(0, 7)) {
    case 0: case 1: case 2: break;
    case 3: case 4: case 5: case 6: s = {r.in(1, 5)}; break;
    default: s = {r.in(1, 3), r.in(1, 4)};
    }
    return s;
  }
  // an equation u = e, in some other form
  std::pair<EP, EP> disguise(const Def &d, EP u, EP e) {
    auto f = [&] { return expr(d, 1); };
    EP l = u, q = e, t;
    switch (r.in(0, 11)) {
    case 0: case 1: case 2: break;
    case 3: { double c = coef(); l = mk(MUL, {number(c), u}); q = mk(MUL, {number(c), e}); break; }
    case 4: t = f(); l = mk(ADD, {u, t}), q = mk(ADD, {e, t}); break;
    case 5: l = mk(SUBT, {u, e}), q = number(0); break;
    case 6: l = mk(NEG, {u}), q = mk(NEG, {e}); break;
    case 7: l = mk(DIV, {u, number(4)}), q = mk(DIV, {e, number(4)}); break;
    case 8: t = f(); l = mk(SUBT, {t, u}), q = mk(SUBT, {t, e}); break;
    case 9: // on both sides
      l = mk(ADD, {mk(MUL, {number(3), u}), e}), q = mk(SUBT, {mk(MUL, {number(4), e}), number(0)});
      q = mk(ADD, {mk(MUL, {number(2), e}), mk(MUL, {number(2), u})});
      l = mk(MUL, {number(4), u});
      break;
    case 10:
      t = mk(ADD, {number(2), bounded(f())});
      l = mk(MUL, {t, u}), q = mk(MUL, {t, e});
      break;
    default:
      t = f();
      l = mk(SUBT, {mk(MUL, {number(2), u}), t}), q = mk(SUBT, {mk(ADD, {e, u}), t});
    }
    return r.chance(1, 4) ? std::make_pair(q, l) : std::make_pair(l, q);
  }
  void done(Def d) {
    points(d, [&](const P &at) {
      for (auto &u : d.unknown)
        vars[u->v].avail[element(*u, at)] = 1;
    });
    defs.push_back(std::move(d));
  }
  // Defines every element of a variable (or of more, of one shape).
  void define(const std::vector<int> &vs, bool init) {
    const P sh = vars[vs[0]].shape;
    // parts of the first dimension
    std::vector<std::pair<int64_t, int64_t>> parts;
    if (!sh.empty()) {
      int64_t b = 1;
      while (b <= sh[0]) {
        int64_t e = r.chance(1, 2) ? sh[0] : r.in(b, sh[0]);
        parts.push_back({b, e});
        b = e + 1;
      }
      r.shuffle(parts);
    } else
      parts.push_back({0, 0});
    for (auto &p : parts) {
      Def d;
      d.init = init;
      std::vector<Sub> s;
      bool point = !sh.empty() && p.first == p.second && r.coin();
      for (size_t k = 0; k < sh.size(); ++k) {
        Sub q;
        if (k == 0 && point)
          q.off = p.first;
        else {
          q.it = d.it.size();
          // sometimes with an offset
          int64_t b = k == 0 ? p.first : 1, e = k == 0 ? p.second : sh[k];
          int64_t off = r.chance(1, 4) ? r.in(-2, b) : 0; // (no negative bounds)
          q.off = off;
          d.it.push_back({b - off, e - off});
          d.down.push_back(r.coin());
        }
        s.push_back(q);
      }
      for (int v : vs)
        d.unknown.push_back(mk(VAR, {}, 0, v, s));
      if (vs.size() == 1) {
        EP e;
        bool slicesOk = !d.it.empty() && !init && r.chance(1, 4);
        if (vars[vs[0]].kind == Var::DER && (p.first != 1 || p.second != sh[0]))
          slicesOk = false;
        for (auto &q : s)
          if (q.it >= 0 && q.off)
            slicesOk = false;
        if (slicesOk && s.size() == d.it.size()) {
          // (every right-hand side of a slice is evaluated at each element)
          e = sliced(d, r.in(1, 3));
          if (e) {
            d.slices = true;
            d.value = {e};
            d.eq.push_back(r.coin() ? std::make_pair(d.unknown[0], e) : std::make_pair(e, d.unknown[0]));
            kinds["slices"]++;
          }
        }
        if (!d.slices) {
          e = expr(d, r.in(1, 3));
          d.value = {e};
          d.eq.push_back(init && r.coin() ? std::make_pair(d.unknown[0], e)
                                          : disguise(d, d.unknown[0], e));
          kinds[d.it.empty() ? "scalar" : "loop"]++;
        }
      } else {
        size_t n = vs.size();
        std::vector<std::vector<double>> A(n, std::vector<double>(n, 0));
        Def plain = d; // right-hand sides without the unknowns
        for (size_t i = 0; i < n; ++i) {
          double sum = 0;
          for (size_t j = 0; j < n; ++j)
            if (i != j && (n == 2 || r.chance(2, 3)))
              A[i][j] = coef(), sum += std::fabs(A[i][j]);
          A[i][i] = (sum + 1) * (r.coin() ? 1 : -1);
          plain.unknown.clear();
          EP e = expr(plain, r.in(0, 2));
          d.value.push_back(e);
          // some terms to the right
          std::vector<EP> l, q = {e};
          std::vector<size_t> o;
          for (size_t j = 0; j < n; ++j)
            o.push_back(j);
          r.shuffle(o);
          for (size_t j : o)
            if (A[i][j] != 0) {
              if (r.chance(2, 3))
                l.push_back(mk(MUL, {number(A[i][j]), d.unknown[j]}));
              else
                q.push_back(mk(MUL, {number(-A[i][j]), d.unknown[j]}));
            }
          r.shuffle(q);
          auto sum2 = [&](std::vector<EP> &v) {
            EP x;
            for (auto &y : v)
              x = x ? mk(ADD, {x, y}) : y;
            return x ? x : number(0);
          };
          d.eq.push_back({sum2(l), sum2(q)});
        }
        d.A = A;
        kinds["linear loop"]++;
      }
      done(d);
    }
  }
  // v[1:2, 1:2] = v[3, 1] * v[2:3, 1:2], and the last row
  void recurrence() {
    int v = add(Var::ALG, {3, 2}, "v");
    vars[v].prefix = "output ";
    Sub three, one, row, next, column;
    three.off = 3, one.off = 1;
    row.it = next.it = 0, next.off = 1, column.it = 1;
    Def last;
    last.it = {{1, 2}};
    last.down = {0};
    Sub first;
    first.it = 0;
    last.unknown = {mk(VAR, {}, 0, v, {three, first})};
    last.value = {number(3)};
    last.eq.push_back({last.unknown[0], last.value[0]});
    done(last);
    Def d;
    d.slices = true;
    d.it = {{1, 2}, {1, 2}};
    d.down = {1, 0};
    d.unknown = {mk(VAR, {}, 0, v, {row, column})};
    d.value = {mk(MUL, {mk(VAR, {}, 0, v, {three, one}), mk(VAR, {}, 0, v, {next, column})})};
    d.eq.push_back({d.value[0], d.unknown[0]});
    done(d);
    kinds["recurrences of slices"]++;
  }
  // y = 1 + v[1] + v[2], with the sum written as a reduction, and v = 0.25 y
  void system() {
    int v = add(Var::ALG, {2}, "v"), y = add(Var::ALG, {}, "y");
    Sub i;
    i.it = 0;
    Def d;
    d.unknown = {mk(VAR, {}, 0, y, {})};
    auto e = mk(RED, {mk(VAR, {}, 0, v, {i})}, 0, 0);
    e->it = {{1, 2}};
    d.value = {number(2)};
    d.eq.push_back({d.unknown[0], mk(ADD, {number(1), e})});
    done(d);
    Def w;
    w.it = {{1, 2}};
    w.down = {false};
    w.unknown = {mk(VAR, {}, 0, v, {i})};
    w.value = {mk(MUL, {number(0.25), d.unknown[0]})};
    w.eq.push_back({w.unknown[0], w.value[0]});
    done(w);
  }
  void build(int size) {
    if (!size)
      return recurrence();
    if (size < 0)
      return system();
    for (int k = r.in(0, 2); k-- > 0;)
      function();
    for (int k = r.in(0, 3); k-- > 0;) {
      P sh = r.chance(3, 4) ? P{} : P{r.in(1, 4)};
      Def d;
      d.init = d.declared = true;
      EP e = expr(d, sh.empty() ? r.in(0, 2) : 0, true);
      int v = add(Var::PARAM, sh, "p");
      vars[v].prefix = "parameter ";
      std::vector<Sub> s;
      if (sh.empty()) {
        vars[v].decl = " = " + text(*e);
        d.unknown = {mk(VAR, {}, 0, v, s)};
        d.value = {e};
        done(d);
      } else {
        vars[v].decl = " = {";
        for (int64_t i = 1; i <= sh[0]; ++i) {
          Def q = d;
          double c = coef();
          vars[v].decl += (i > 1 ? ", " : "") + num(c);
          Sub u;
          u.off = i;
          q.unknown = {mk(VAR, {}, 0, v, {u})};
          q.value = {number(c)};
          done(q);
        }
        vars[v].decl += "}";
      }
    }
    std::vector<int> pending;
    for (int k = 0; k < size; ++k) {
      int what = r.in(0, 9);
      if (what < 2) {
        // a state
        int v = add(Var::STATE, shape(), "x");
        int dv = add(Var::DER, vars[v].shape, "d");
        vars[dv].base = v, vars[v].der = dv;
        if (r.chance(2, 3)) {
          double c = coef();
          bool arr = !vars[v].shape.empty();
          vars[v].decl = std::string("(") + (arr ? "each " : "") + "start = " + num(c) +
                         ", " + (arr ? "each " : "") + "fixed = true)";
          for (int64_t i = 0; i < vars[v].size(); ++i) {
            Def d;
            d.init = d.declared = true;
            std::vector<Sub> s(vars[v].shape.size());
            int64_t q = i;
            for (size_t j = s.size(); j-- > 0;)
              s[j].off = q % vars[v].shape[j] + 1, q /= vars[v].shape[j];
            d.unknown = {mk(VAR, {}, 0, v, s)};
            d.value = {number(c)};
            done(d);
          }
        } else {
          define({v}, true);
          kinds["initial equation"]++;
        }
        pending.push_back(dv);
      } else if (what < 3 && !pending.empty()) {
        size_t i = r.in(0, pending.size() - 1);
        define({pending[i]}, false);
        pending.erase(pending.begin() + i);
      } else if (what < 5) {
        P sh = shape();
        std::vector<int> vs;
        for (int n = r.in(2, 3); n-- > 0;)
          vs.push_back(add(Var::ALG, sh, "y"));
        define(vs, false);
      } else if (what == 5 && r.coin()) {
        Def d;
        d.algorithm = true;
        for (int n = r.in(1, 3); n-- > 0;) {
          EP e = expr(d, r.in(1, 2));
          int v = add(Var::ALG, {}, "z");
          d.unknown.push_back(mk(VAR, {}, 0, v));
          d.value.push_back(e);
          vars[v].avail[0] = 1;
        }
        done(d);
        kinds["algorithm"]++;
      } else
        define({add(Var::ALG, shape(), "v")}, false);
    }
    for (int p : pending)
      define({p}, false);
    if (r.chance(1, 4))
      for (auto &v : vars)
        if (v.kind == Var::ALG && r.coin())
          v.prefix = "output ";
  }
};

struct Options {
  bool ro = false, cse = false, svie = false, prune = false, promote = false,
       scalarize = false, simplify = true, ranged = false;
  double threshold = 0;
  int64_t iterations, inSCC, blocks;
  std::string text() const {
    std::ostringstream o;
    o << "ro " << ro << " cse " << cse << " svie " << svie << " prune " << prune
      << " promote " << promote << " scalarize " << scalarize << " simplify "
      << simplify << " ranged " << ranged << " threshold " << threshold
      << " iterations " << iterations << " scc " << inSCC << " blocks " << blocks;
    return o.str();
  }
};

bool same(double a, double b) {
  return std::fabs(a - b) <= 1e-6 * (1 + std::max(std::fabs(a), std::fabs(b)));
}
} // namespace

static void oneModel(vf::Case &c, int size) {
  namespace b = mlir::bmodelica;
  Gen g(c.rng);
  g.build(size);
  std::string src = g.source();
  auto &r = c.rng;
  Options o;
  o.ro = r.chance(1, 4), o.cse = r.coin(), o.svie = r.coin(), o.prune = r.coin();
  o.promote = r.coin(), o.scalarize = r.coin(), o.simplify = r.chance(3, 4);
  o.ranged = r.coin();
  o.threshold = r.in(0, 4) * 0.25;
  o.iterations = 100, o.inSCC = r.chance(1, 5) ? r.in(0, 4) : 5;
  o.blocks = r.coin() ? -1 : r.in(1, 4);
  if (!size) {
    o = Options();
    o.iterations = 100, o.inSCC = 5, o.blocks = -1;
  }
  c.note(src, o.text());
  Context x;
  auto m = lower(x, src);
  if (!m) {
    c.fail("model:rejected", "the model is not lowered: " + x.diags);
    return;
  }
  auto residuals = [&](const char *stage) {
    bool any = false;
    m->walk([&](b::ModelOp model) {
      model.walk([&](b::EquationInstanceOp q) {
        if (c.failed() || !q->getParentOfType<b::DynamicOp>())
          return;
        bm::Machine mc(*m);
        auto &fr = mc.models[model.getSymName().str()];
        mc.time = g.time;
        std::set<std::string> known;
        for (auto &v : g.vars) {
          std::string n = v.kind == Var::DER ? "der_" + g.vars[v.base].name : v.name;
          auto f = fr.find(n);
          if (f == fr.end() || f->second->e.size() != v.val.size())
            continue;
          known.insert(n);
          for (size_t i = 0; i < v.val.size(); ++i)
            f->second->e[i] = bm::to(f->second->k, bm::real(v.val[i]));
        }
        auto t = q.getTemplate();
        bool skip = false;
        t.walk([&](b::VariableGetOp get) { skip |= !known.count(get.getVariable().str()); });
        if (skip)
          return;
        auto at = [&](std::vector<int64_t> p) {
          std::vector<bm::MV> l, rr;
          if (!mc.sides(t, fr, p, l, rr)) {
            c.count("not executed: " + mc.error, 1);
            return;
          }
          if (mc.fuzzy || l.size() != rr.size())
            return;
          any = true;
          c.count("equation instances evaluated", 1);
          for (size_t i = 0; i < l.size(); ++i) {
            std::vector<bm::Val> lv = l[i].t == bm::MV::TENSOR ? l[i].e : std::vector<bm::Val>{l[i].s},
                                 rv = rr[i].t == bm::MV::TENSOR ? rr[i].e : std::vector<bm::Val>{rr[i].s};
            for (size_t k = 0; k < lv.size() && k < rv.size(); ++k)
              if (!same(lv[k].num(), rv[k].num())) {
                std::string where;
                for (auto n : p)
                  where += " " + std::to_string(n);
                c.fail("model:equation", std::string("an equation of the model does not hold for its solution after ") +
                                             stage + ": at" + where + " " + num(lv[k].num()) + " = " +
                                             num(rv[k].num()) + "\n" + print(q) + "\n" + print(t));
                return;
              }
          }
        };
        const auto &ind = q.getProperties().indices;
        if (ind.empty())
          at({});
        else
          for (auto p : ind) {
            std::vector<int64_t> v;
            for (size_t d = 0; d < p.rank(); ++d)
              v.push_back(p[d]);
            at(v);
            if (c.failed())
              return;
          }
      });
    });
    return any;
  };
  g.initial();
  for (int i = 0; i < 2; ++i)
    g.step(0.25);
  auto stage = [&](const char *name, const std::function<void(mlir::PassManager &)> &f, bool check) {
    mlir::PassManager pm(x.ctx.get());
    f(pm);
    if (getenv("VF_IR"))
      pm.enableIRPrinting();
    if (mlir::failed(pm.run(*m))) {
      // Iterative solvers need derivatives, which not every operation has.
      if (x.diags.find("Can't get derivative") != std::string::npos) {
        c.count("models which would need an iterative solver", 1);
        return false;
      }
      std::string key = x.diags.substr(0, 60);
      for (char &ch : key)
        ch = isdigit(ch) ? '#' : ch;
      c.fail("model:compilation: " + key, std::string("the compilation fails in ") + name + ": " + x.diags);
      return false;
    }
    if (check)
      residuals(name);
    return !c.failed();
  };
  if (!stage("the canonicalization of the model", [&](mlir::PassManager &pm) {
        pm.addPass(mlir::createCanonicalizerPass());
        if (o.ro) {
          b::ReadOnlyVariablesPropagationPassOptions q;
          q.modelName = "M";
          pm.addPass(b::createReadOnlyVariablesPropagationPass(q));
          pm.addPass(mlir::createCanonicalizerPass());
        }
        pm.addPass(b::createAutomaticDifferentiationPass());
        pm.addPass(b::createDerivativeChainRulePass());
        pm.addPass(b::createPureFunctionInliningPass());
        pm.addPass(b::createRecordInliningPass());
        pm.addPass(b::createFunctionUnwrapPass());
        pm.addPass(b::createFunctionManglingPass());
        pm.addPass(mlir::createCanonicalizerPass());
        pm.addPass(b::createRangeBoundariesInferencePass());
        pm.addPass(mlir::createCanonicalizerPass());
        pm.addPass(b::createEquationSidesSplitPass());
        pm.addPass(b::createEquationInductionsExplicitationPass());
        pm.addPass(b::createViewAccessFoldingPass());
        pm.addPass(b::createEquationTemplatesCreationPass());
        if (o.cse)
          pm.addPass(b::createCallCSEPass());
        pm.addPass(b::createDerivativesMaterializationPass());
        pm.addPass(b::createBindingEquationConversionPass());
        pm.addPass(b::createExplicitStartValueInsertionPass());
        pm.addPass(b::createModelAlgorithmConversionPass());
        pm.addPass(b::createExplicitInitialEquationsInsertionPass());
      }, true))
    return;
  if (!stage("matching", [&](mlir::PassManager &pm) {
        pm.addPass(mlir::createCanonicalizerPass());
        pm.addPass(b::createPantelidesPass());
        pm.addPass(b::createDerivativesMaterializationPass());
        pm.addPass(b::createDerivativesInitializationPass());
        b::MatchingPassOptions q;
        q.enableScalarization = o.scalarize;
        q.scalarAccessThreshold = o.threshold;
        q.enableSimplificationAlgorithm = o.simplify;
        pm.addPass(b::createMatchingPass(q));
        pm.addPass(b::createEquationAccessSplitPass());
        pm.addPass(b::createScalarRangesEquationSplitPass());
        if (o.svie)
          pm.addPass(b::createSingleValuedInductionEliminationPass());
        if (o.prune)
          pm.addPass(b::createVariablesPruningPass());
      }, true))
    return;
  if (!stage("the solving of strongly connected components", [&](mlir::PassManager &pm) {
        pm.addPass(b::createSCCDetectionPass());
        if (o.promote)
          pm.addPass(b::createVariablesPromotionPass());
        b::SCCSolvingBySubstitutionPassOptions q;
        q.maxIterations = o.iterations;
        q.maxEquationsInSCC = o.inSCC;
        pm.addPass(b::createSCCSolvingBySubstitutionPass(q));
        pm.addPass(mlir::createCanonicalizerPass());
        if (o.svie)
          pm.addPass(b::createSingleValuedInductionEliminationPass());
      }, true))
    return;
  if (!stage("scheduling", [&](mlir::PassManager &pm) {
        b::EulerForwardPassOptions q;
        q.rangedStateUpdateFunctions = o.ranged;
        pm.addPass(b::createEulerForwardPass(q));
        pm.addPass(b::createInitialConditionsSolvingPass());
        pm.addPass(b::createSchedulingPass());
        pm.addPass(b::createEquationExplicitationPass());
      }, false))
    return;
  if (size >= 0) {
    // (see the known finding about what an iterative solver is told)
    bool reduced = false;
    m->walk([&](b::SCCOp scc) {
      for (auto q : scc.getOps<b::EquationInstanceOp>())
        q.getTemplate()->walk([&](b::ReductionOp) { reduced = true; });
    });
    if (reduced) {
      c.count("models with reductions left to an iterative solver", 1);
      return;
    }
  }
  if (!stage("the solving of the systems", [&](mlir::PassManager &pm) {
        pm.addPass(b::createSCCSolvingWithKINSOLPass());
        pm.addPass(b::createSCCAbsenceVerificationPass());
        b::ScheduleParallelizationPassOptions s;
        s.maxParallelBlocks = o.blocks;
        pm.addPass(b::createScheduleParallelizationPass(s));
      }, false))
    return;
  bool kinsol = false;
  m->walk([&](mlir::Operation *op) { kinsol |= op->getName().getDialectNamespace() == "kinsol"; });
  if (kinsol) {
    c.count("models left to an iterative solver", 1);
    return;
  }
  // Execution, against the reference.
  g.fuzzy = false;
  // (what is computed but not used is not an access)
  for (bool again = true; again;) {
    again = false;
    llvm::SmallVector<mlir::Operation *> unused;
    for (auto f : m->getOps<b::EquationFunctionOp>())
      f->walk([&](mlir::Operation *op) {
        if (op->getNumResults() && op->use_empty() &&
            (!op->getNumRegions() || mlir::isa<b::ReductionOp>(op)))
          unused.push_back(op);
      });
    for (auto *op : unused)
      op->erase(), again = true;
  }
  bm::Machine mc(*m);
  mc.budget = 3000000;
  vf::Rng order(c.rng.next());
  mc.anyOrder = [&](size_t n, const std::function<void(size_t)> &f) {
    std::vector<size_t> p;
    for (size_t i = 0; i < n; ++i)
      p.push_back(i);
    order.shuffle(p);
    for (auto i : p)
      f(i);
    c.count("things run in some order", n);
  };
  struct Open {
    std::map<std::string, mlir::bmodelica::Variable> w, rd;
  };
  std::vector<std::pair<b::ScheduleBlockOp, int>> open;
  mc.onBlock = [&](mlir::Operation *op, bool enter) {
    if (enter)
      open.push_back({mlir::cast<b::ScheduleBlockOp>(op), 0});
    else
      open.pop_back();
  };
  mc.onAccess = [&](const std::string &n, int64_t e, bool w) {
    if (open.empty() || c.failed())
      return;
    auto bl = open.back().first;
    auto in = [&](auto &list) {
      for (auto &v : list)
        if (v.name.getLeafReference().getValue() == n) {
          if (v.indices.empty())
            return true;
          auto st = mc.models["M"][n];
          std::vector<int64_t> p(st->shape.size());
          int64_t q = e;
          for (size_t d = p.size(); d-- > 0;)
            p[d] = q % st->shape[d], q /= st->shape[d];
          if (p.empty())
            return true;
          for (auto pt : v.indices) {
            bool eq = pt.rank() == p.size();
            for (size_t d = 0; eq && d < p.size(); ++d)
              eq &= pt[d] == p[d];
            if (eq)
              return true;
          }
        }
      return false;
    };
    c.count(w ? "writes checked" : "reads checked", 1);
    bool ok = in(bl.getProperties().writtenVariables);
    if (!w && !ok) {
      ok = in(bl.getProperties().readVariables);
      if (!ok) {
        // (what never changes is not tracked)
        m->walk([&](b::ModelOp model) {
          for (auto v : model.getOps<b::VariableOp>())
            if (v.getSymName() == n)
              ok |= v.getVariableType().isParameter() || v.getVariableType().isConstant();
        });
      }
    }
    if (!ok)
      c.fail(w ? "model:undeclared-write" : "model:undeclared-read",
             "a block of a schedule accesses element " + std::to_string(e) + " of " + n +
                 " without declaring it\n" + print(bl) + "\n" + print(*m));
  };
  auto &fr = mc.models["M"];
  int compared = 0;
  auto compare = [&](const std::string &when) {
    if (c.failed())
      return false;
    if (!mc.error.empty()) {
      c.count("not executed: " + mc.error, 1);
      return false;
    }
    if (g.fuzzy || mc.fuzzy) {
      c.count("left alone for rounding", 1);
      return false;
    }
    for (auto &v : g.vars) {
      std::string n = v.kind == Var::DER ? "der_" + g.vars[v.base].name : v.name;
      auto f = fr.find(n);
      if (f == fr.end()) {
        if (v.prefix == "output ") {
          c.fail("model:output-removed", "the output " + n + " is gone");
          return false;
        }
        continue;
      }
      for (size_t i = 0; i < v.val.size(); ++i) {
        if (!(std::fabs(v.val[i]) < 1e6))
          return false;
        if (!same(f->second->e[i].num(), v.val[i])) {
          c.fail("model:value", "element " + std::to_string(i) + " of " + n + " is " +
                                    num(f->second->e[i].num()) + " instead of " + num(v.val[i]) + " " + when +
                                    "\n" + print(*m));
          return false;
        }
        ++compared;
      }
    }
    return true;
  };
  g.initial();
  mc.time = 0;
  mc.entry("solveICModel");
  bool fine = compare("after the initialization");
  for (int s = 1; fine && s <= 4; ++s) {
    double dt = s == 2 ? 0.5 : 0.125;
    g.step(dt);
    mc.entry("updateStateVariables", {bm::MV(bm::real(dt))});
    mc.time = g.time;
    if (mc.error.empty())
      mc.entry("updateNonStateVariables");
    fine = compare("after step " + std::to_string(s));
  }
  if (c.failed())
    return;
  c.count("values compared", compared);
  c.count("operations executed", mc.ops);
  if (fine) {
    c.count("models executed", 1);
    for (auto &k : g.kinds)
      c.count("definitions: " + k.first, k.second);
    c.nontrivial(std::hash<std::string>()(src));
  }
}

VF_STREAM("C34", "small", 1500, 60000, "models of few equations") { oneModel(c, c.rng.in(1, 4)); }
VF_STREAM("C34", "large", 700, 30000, "models of many equations") { oneModel(c, c.rng.in(5, 12)); }
VF_STREAM("C34", "recurrence", 1, 1, "slices of a variable defined by other elements of it") { oneModel(c, 0); }
VF_STREAM("C34", "system", 1, 1, "a system with a reduction, left to an iterative solver") { oneModel(c, -1); }
