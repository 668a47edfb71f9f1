// C25, C26: variable filters against a recogniser and a selection model.
#include "marco/VariableFilter/VariableFilter.h"
#include "vf.h"
#include "llvm/Support/Regex.h"
#include <memory>
#include <optional>
#include <set>

using marco::VariableFilter;
using S = std::string;

std::string vfDiagnostics; // see vfshim.h

static S esc(const S &s) {
  S r;
  for (unsigned char ch : s) {
    char b[8];
    if (ch < 32 || ch > 126)
      snprintf(b, sizeof b, "\\x%02x", ch), r += b;
    else
      r += ch;
  }
  return r;
}

// --- The grammar -------------------------------------------------------------
using I = int64_t;
constexpr I INF = INT64_MAX;
struct Bound {
  bool open = true;
  I v = 0;
};
struct Clause {
  enum { Name, Der, Regex } kind = Name;
  S text;
  std::vector<std::pair<Bound, Bound>> ranges;
};

struct Tok {
  char k; // 'i'dentifier 'n'umber 'd'er '/'regex 'E'OF '!'error, or the symbol
  size_t pos;
  S s;
  I v = 0;
};

static std::vector<Tok> lex(const S &t) {
  std::vector<Tok> r;
  auto dig = [](char c) { return c >= '0' && c <= '9'; };
  auto nd = [](char c) {
    return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_';
  };
  size_t p = 0;
  while (true) {
    while (p < t.size() && (t[p] == ' ' || (t[p] >= 9 && t[p] <= 13)))
      ++p;
    size_t b = p;
    if (p >= t.size()) {
      r.push_back({'E', b, "", 0});
      return r;
    }
    char c = t[p];
    if (nd(c)) {
      while (p < t.size() && (nd(t[p]) || dig(t[p]) || t[p] == '.'))
        ++p;
      S s = t.substr(b, p - b);
      r.push_back({s == "der" ? 'd' : 'i', b, s, 0});
    } else if (dig(c)) {
      unsigned __int128 v = 0;
      while (p < t.size() && dig(t[p])) {
        v = v * 10 + (t[p++] - '0');
        if (v > (unsigned __int128)INF)
          v = INF;
      }
      r.push_back({'n', b, "", (I)v});
    } else if (c == '/') {
      size_t e = t.find('/', p + 1);
      if (e == S::npos) {
        r.push_back({'!', b, "", 0});
        return r;
      }
      p = e + 1;
      r.push_back({'/', b, t.substr(b + 1, e - b - 1), 0});
    } else if (S("()[],;:$").find(c) != S::npos) {
      ++p;
      r.push_back({c, b, "", 0});
    } else {
      r.push_back({'!', b, "", 0});
      return r;
    }
  }
}

// The clauses, or nothing and in 'at' the position of the offending token.
static std::optional<std::vector<Clause>> grammar(const S &t, size_t &at,
                                                  bool &bodyOfRegex) {
  auto toks = lex(t);
  size_t i = 0;
  bodyOfRegex = false;
  std::vector<Clause> r;
  auto is = [&](char k) { return toks[i].k == k; };
  auto bad = [&]() {
    at = toks[i].pos;
    return std::nullopt;
  };
  while (!is('E')) {
    if (is(';')) {
      ++i;
      continue;
    }
    Clause c;
    if (is('d')) {
      ++i;
      if (!is('('))
        return bad();
      ++i;
      if (!is('i'))
        return bad();
      c.kind = Clause::Der;
      c.text = toks[i++].s;
      if (!is(')'))
        return bad();
      ++i;
    } else if (is('/')) {
      c.kind = Clause::Regex;
      c.text = toks[i].s;
      if (c.text.empty() || !llvm::Regex(c.text).isValid()) {
        bodyOfRegex = true;
        return bad();
      }
      ++i;
    } else if (is('i')) {
      c.text = toks[i++].s;
      if (is('[')) {
        do {
          ++i;
          Bound b[2];
          for (int k = 0; k < 2; ++k) {
            if (is('n'))
              b[k] = {false, toks[i].v};
            else if (!is('$'))
              return bad();
            ++i;
            if (k == 0) {
              if (!is(':'))
                return bad();
              ++i;
            }
          }
          c.ranges.push_back({b[0], b[1]});
        } while (is(','));
        if (!is(']'))
          return bad();
        ++i;
      }
    } else
      return bad();
    r.push_back(c);
  }
  return r;
}

// --- C25 ---------------------------------------------------------------------
static std::optional<VariableFilter> parsed(::vf::Case &c, const S &s,
                                            std::optional<std::vector<Clause>> &want) {
  c.note("filter: ", esc(s));
  S text = s.substr(0, s.find('\0'));
  size_t at = 0;
  bool body = false;
  want = grammar(text, at, body);
  vfDiagnostics.clear();
  auto got = VariableFilter::fromString(s);
  c.count("filters parsed");
  S diag = vfDiagnostics;
  size_t errors = 0;
  for (size_t p = 0; (p = diag.find("error: ", p)) != S::npos; ++p)
    ++errors;
  if (got) {
    c.count("accepted");
    c.check(want.has_value(), "accepts-malformed",
            "accepted, although the grammar stops at offset " +
                std::to_string(at));
    c.check(errors == 0, "error-on-success", "accepted with the error " + diag);
    if (want)
      c.check(got->isEnabled() == !want->empty(), "enabled",
              "the filter is " + S(got->isEnabled() ? "" : "not ") +
                  "enabled with " + std::to_string(want->size()) + " clauses");
    return got;
  }
  c.count("rejected");
  c.check(!want.has_value(), "rejects-well-formed",
          "a filter of the grammar is rejected: " + diag);
  c.check(errors > 0, "silent-rejection", "rejected without a diagnostic");
  if (!want && errors && at < text.size() && text.find('\r') == S::npos) {
    // "Variables filter:LINE:COLUMN: error: ..."
    size_t line = 1, start = 0;
    for (size_t i = 0; i < at; ++i)
      if (text[i] == '\n')
        ++line, start = i + 1;
    S want = "Variables filter:" + std::to_string(line) + ":" +
             std::to_string(at - start + 1) + ": error: ";
    c.count("diagnostics located");
    c.check(diag.rfind(want, 0) == 0, "misplaced-diagnostic",
            "expected at '" + want + "', reported: " + diag.substr(0, 90));
  }
  return got;
}

static S number(::vf::Rng &r) {
  switch (r.in(0, 6)) {
  case 0: return std::to_string(r.in(0, 1000000));
  case 1: {
    static const char *edge[] = {"2147483647", "2147483648", "4294967295",
                                 "4294967296", "9223372036854775807",
                                 "9223372036854775808", "00012",
                                 "18446744073709551615", "4294967298",
                                 "99999999999999999999999"};
    return edge[r.in(0, 9)];
  }
  default: return std::to_string(r.in(0, 7));
  }
}

static const std::vector<S> &names() {
  static const std::vector<S> n = {"x", "y", "xy", "x.y", "a.b.c", "der_x",
                                   "der.x", "_a1", "X", "ab", "ders", "aab"};
  return n;
}

static S token(::vf::Rng &r) {
  switch (r.in(0, 9)) {
  case 0: return r.pick(names());
  case 1: return number(r);
  case 2: return "der";
  case 3: {
    static const std::vector<S> re = {"//", "/x/", "/^a.*b$/", "/[a-z]+/",
                                      "/(/", "/*/", "/[/", "/a;b/", "/\\/",
                                      "/x{2}/", "/a{2,1}/", "/./", "/x", "/()/",
                                      "/\\(/", "/[z-a]/", "/[[:alpha:]]/"};
    return r.pick(re);
  }
  case 4: return "$";
  case 5: return "#";
  default: {
    static const S sym = "()[],;:$;[]:";
    return S(1, sym[r.next() % sym.size()]);
  }
  }
}

static S space(::vf::Rng &r) {
  static const char *ws[] = {"", "", " ", "\t", "\n", "  "};
  return ws[r.in(0, 5)];
}

static S spell(::vf::Rng &r, const Clause &c) {
  S w = space(r);
  if (c.kind == Clause::Regex)
    return "/" + c.text + "/" + w;
  if (c.kind == Clause::Der)
    return "der" + w + "(" + space(r) + c.text + space(r) + ")";
  S s = c.text + w;
  for (size_t i = 0; i < c.ranges.size(); ++i) {
    auto b = [&](const Bound &b) { return b.open ? S("$") : std::to_string(b.v); };
    s += (i ? "," : "[") + space(r) + b(c.ranges[i].first) + space(r) + ":" +
         space(r) + b(c.ranges[i].second) + space(r);
  }
  return s + (c.ranges.empty() ? "" : "]");
}

// --- Regular expressions -----------------------------------------------------
// Built as trees, so that matching can be decided without a regex engine.
struct Re {
  char k; // 'c'har, '.', '[' set, '^', '$', '(' group, '*', '+', '?', '|', ','
  S set;
  bool neg = false;
  std::vector<Re> sub;
};

static Re genRe(::vf::Rng &r, int depth) {
  static const S alpha = "xyab_.dert1()";
  int k = depth <= 0 ? (int)r.in(0, 3) : (int)r.in(0, 11);
  switch (k) {
  case 0: case 1: case 4: return {'c', S(1, alpha[r.next() % alpha.size()])};
  case 2: return {'.', ""};
  case 3: {
    Re x{'[', "", r.coin()};
    for (int n = r.in(1, 3); n > 0; --n)
      x.set += "xyabder_1"[r.in(0, 8)];
    return x;
  }
  case 5: return {'^', ""};
  case 6: return {'$', ""};
  case 7: case 8: { // repetition of one letter or a group
    Re b = genRe(r, depth - 1);
    while (b.k != 'c' && b.k != '.' && b.k != '[' && b.k != '(')
      b = {'(', "", false, {b}};
    return {"*+?"[r.in(0, 2)], "", false, {b}};
  }
  case 9: {
    Re a = genRe(r, depth - 1), b = genRe(r, depth - 1);
    return {'(', "", false, {Re{'|', "", false, {a, b}}}};
  }
  default: {
    Re x{',', ""};
    for (int n = r.in(2, 4); n > 0; --n)
      x.sub.push_back(genRe(r, depth - 1));
    return x;
  }
  }
}

static S show(const Re &x) {
  switch (x.k) {
  case 'c':
    return S(x.set == "." || x.set == "(" || x.set == ")" ? "\\" : "") + x.set;
  case '[': return S("[") + (x.neg ? "^" : "") + x.set + "]";
  case '(': return "(" + show(x.sub[0]) + ")";
  case '*': case '+': case '?': return show(x.sub[0]) + S(1, x.k);
  case '|': return show(x.sub[0]) + "|" + show(x.sub[1]);
  case ',': {
    S r;
    for (auto &y : x.sub)
      r += show(y);
    return r;
  }
  default: return S(1, x.k);
  }
}

using Pos = std::set<size_t>;
static Pos run(const Re &x, const S &s, const Pos &from) {
  Pos r;
  switch (x.k) {
  case 'c': case '.': case '[':
    for (size_t p : from)
      if (p < s.size() &&
          (x.k == '.' || (x.k == 'c' && s[p] == x.set[0]) ||
           (x.k == '[' && (x.set.find(s[p]) == S::npos) == x.neg)))
        r.insert(p + 1);
    return r;
  case '^': return from.count(0) ? Pos{0} : Pos{};
  case '$': return from.count(s.size()) ? Pos{s.size()} : Pos{};
  case '(': return run(x.sub[0], s, from);
  case '|':
    r = run(x.sub[0], s, from);
    r.merge(run(x.sub[1], s, from));
    return r;
  case ',':
    r = from;
    for (auto &y : x.sub)
      r = run(y, s, r);
    return r;
  case '?':
    r = run(x.sub[0], s, from);
    r.insert(from.begin(), from.end());
    return r;
  default: { // '*', '+'
    if (x.k == '*')
      r = from;
    Pos todo = from;
    while (!todo.empty()) {
      Pos n;
      for (size_t p : run(x.sub[0], s, todo))
        if (r.insert(p).second)
          n.insert(p);
      todo = n;
    }
    return r;
  }
  }
}
static bool search(const Re &x, const S &s) {
  Pos all;
  for (size_t i = 0; i <= s.size(); ++i)
    all.insert(i);
  return !run(x, s, all).empty();
}

static Clause genClause(::vf::Rng &r, Re *re) {
  Clause c;
  int k = r.in(0, 9);
  if (k < 2) {
    c.kind = Clause::Regex;
    *re = genRe(r, 3);
    c.text = show(*re);
    return c;
  }
  c.text = r.pick(names());
  if (k < 4) {
    c.kind = Clause::Der;
    return c;
  }
  if (k < 9)
    for (int n = r.in(1, 4); n > 0; --n) {
      auto bound = [&]() {
        Bound b;
        b.open = r.chance(1, 4);
        if (!b.open)
          b.v = r.chance(1, 12) ? (I)(r.next() >> r.in(1, 60)) : (I)r.in(0, 7);
        return b;
      };
      Bound lo = bound(), hi = bound();
      c.ranges.push_back({lo, hi});
    }
  return c;
}

VF_STREAM("C25", "bytes", 6000, 200000, "random byte strings") {
  auto &r = c.rng;
  S s;
  bool any = r.chance(1, 4);
  static const S hot = "/[]():$,;.xd19 \\^*+{}|\n-\"_";
  for (int n = r.in(0, 30); n > 0; --n)
    s += any ? (char)r.in(0, 255) : hot[r.next() % hot.size()];
  std::optional<std::vector<Clause>> want;
  parsed(c, s, want);
  c.nontrivial(::vf::hashStr(s));
}

VF_STREAM("C25", "tokens", 12000, 400000,
          "random sequences of tokens, and filters with some tokens changed") {
  auto &r = c.rng;
  std::vector<S> t;
  Re re{'c', "x"};
  if (r.chance(2, 3)) {
    for (int n = r.in(1, 4); n > 0; --n) {
      Clause cl = genClause(r, &re);
      S s = spell(r, cl);
      if (r.coin() || cl.kind == Clause::Regex) {
        t.push_back(s);
      } else // one token a piece
        for (auto &k : lex(s))
          if (k.k != 'E')
            t.push_back(k.k == 'i' || k.k == 'd' ? k.s
                        : k.k == 'n'             ? std::to_string(k.v)
                                                 : s.substr(k.pos, 1));
      if (!r.chance(1, 4))
        t.push_back(";");
    }
    for (int n = r.in(0, 2); n > 0 && !t.empty(); --n) {
      size_t i = r.next() % t.size();
      switch (r.in(0, 3)) {
      case 0: t.erase(t.begin() + i); break;
      case 1: t.insert(t.begin() + i, token(r)); break;
      case 2: t[i] = token(r); break;
      default: t.resize(i); break;
      }
    }
  } else
    for (int n = r.in(0, 10); n > 0; --n)
      t.push_back(token(r));
  S s;
  for (auto &x : t)
    s += x + space(r);
  std::optional<std::vector<Clause>> want;
  parsed(c, s, want);
  c.nontrivial(::vf::hashStr(s));
}

// --- C26 ---------------------------------------------------------------------
struct View {
  uint64_t bits = 0;
  bool bad = false;
};

// The elements shown, of the probes (1-based subscripts).
static View selected(::vf::Case &c, const std::vector<VariableFilter::Filter> &f,
                     unsigned rank, const std::vector<std::vector<I>> &probe) {
  View v;
  for (auto &x : f) {
    if (!x.isVisible())
      continue;
    if (x.getRanges().size() != rank) {
      c.fail("rank", std::to_string(x.getRanges().size()) +
                         " ranges for a variable of rank " +
                         std::to_string(rank));
      v.bad = true;
      return v;
    }
    for (size_t p = 0; p < probe.size(); ++p) {
      bool in = true;
      for (unsigned d = 0; d < rank; ++d) {
        auto &g = x.getRanges()[d];
        in = in && (!g.hasLowerBound() || g.getLowerBound() <= probe[p][d]) &&
             (!g.hasUpperBound() || probe[p][d] <= g.getUpperBound());
      }
      if (in)
        v.bits |= uint64_t(1) << p;
    }
  }
  return v;
}

VF_STREAM("C26", "selections", 14000, 500000,
          "filters of up to six clauses, asked for every name of a list") {
  auto &r = c.rng;
  std::vector<Clause> cl;
  std::vector<Re> res;
  S s;
  for (int n = r.in(1, 6); n > 0; --n) {
    Re re{'c', "x"};
    Clause k = genClause(r, &re);
    // often the same variable in several clauses
    if (k.kind != Clause::Regex && r.chance(1, 2))
      k.text = names()[r.in(0, 1)];
    cl.push_back(k);
    res.push_back(re);
    s += spell(r, k) + (r.chance(1, 5) ? " " : ";") + space(r);
  }
  std::optional<std::vector<Clause>> want;
  auto got = parsed(c, s, want);
  if (!got || c.failed())
    return;

  for (int q = 0; q < 8; ++q) {
    S name = q < 2 ? names()[q] : r.pick(names());
    unsigned rank = r.in(0, 4);
    std::vector<std::vector<I>> probe(rank ? 64 : 1);
    for (auto &p : probe)
      for (unsigned d = 0; d < rank; ++d) {
        I v = r.in(0, 9);
        // the bounds and their neighbours
        auto &k = cl[r.next() % cl.size()];
        if (r.chance(1, 3) && d < k.ranges.size()) {
          auto &b = r.coin() ? k.ranges[d].first : k.ranges[d].second;
          if (!b.open)
            v = b.v + (b.v == INF ? -r.in(0, 1) : r.in(-1, 1));
        }
        p.push_back(std::max<I>(v, 0));
      }
    uint64_t var = 0, der = 0, full = probe.size() == 64
                                          ? ~uint64_t(0)
                                          : (uint64_t(1) << probe.size()) - 1;
    for (size_t i = 0; i < cl.size(); ++i) {
      if (cl[i].kind == Clause::Regex) {
        if (search(res[i], name))
          var = full, c.count("selected by expression");
        if (search(res[i], "der(" + name + ")"))
          der = full, c.count("derivative selected by expression");
        continue;
      }
      if (cl[i].text != name)
        continue;
      if (cl[i].kind == Clause::Der) {
        der = full;
        c.count("derivative selected by name");
        continue;
      }
      c.count("selected by name");
      for (size_t p = 0; p < probe.size(); ++p) {
        bool in = true;
        for (unsigned d = 0; d < rank && d < cl[i].ranges.size(); ++d) {
          auto &[lo, hi] = cl[i].ranges[d];
          in = in && (lo.open || lo.v <= probe[p][d]) &&
               (hi.open || probe[p][d] <= hi.v);
        }
        if (in)
          var |= uint64_t(1) << p;
      }
    }
    auto report = [&](const char *what, uint64_t want, View have,
                      const S &n) {
      c.count("selections compared");
      if (have.bad || have.bits == want)
        return;
      size_t p = 0;
      while (!(((have.bits ^ want) >> p) & 1))
        ++p;
      S at;
      for (I x : probe[p])
        at += (at.empty() ? "" : ",") + std::to_string(x);
      bool more = (have.bits >> p) & 1;
      c.fail(S(what) + (more ? "-shown" : "-hidden"),
             n + "[" + at + "] is " + (more ? "shown" : "hidden") +
                 " although " + (more ? "no" : "a") + " clause selects it");
    };
    report("variable", var,
           selected(c, got->getVariableInfo(name, rank), rank, probe), name);
    report("derivative", der,
           selected(c, got->getVariableDerInfo(name, rank), rank, probe),
           "der(" + name + ")");
    if (c.failed())
      return;
  }
  c.nontrivial(::vf::hashStr(s));
}

VF_STREAM("C26", "disabled", 200, 2000, "filters without clauses") {
  auto &r = c.rng;
  S s;
  for (int n = r.in(0, 4); n > 0; --n)
    s += space(r) + (r.coin() ? ";" : "");
  std::optional<std::vector<Clause>> want;
  auto got = parsed(c, s, want);
  if (!got || c.failed())
    return;
  S name = r.pick(names());
  unsigned rank = r.in(0, 4);
  std::vector<std::vector<I>> probe(8);
  for (auto &p : probe)
    for (unsigned d = 0; d < rank; ++d)
      p.push_back(r.in(1, 1000));
  c.check(selected(c, got->getVariableInfo(name, rank), rank, probe).bits == 255,
          "disabled-hides", "a filter without clauses hides " + name);
  c.nontrivial(::vf::hashStr(s + name) + rank);
}
