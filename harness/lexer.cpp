// C19, C20: the lexer against an independent maximal-munch tokeniser.
#include "compat.h"
#include "vf.h"
#include "lexgen.h"
#include "marco/Lexer/Lexer.h"
#include "marco/Parser/BaseModelica/StateMachine.h"
#include <cmath>
#include <cstring>

using namespace marco;
namespace pm = marco::parser::bmodelica;
using S = std::string;
using TK = pm::TokenKind;

struct Got {
  TK kind;
  S text; // source text delimited by the location, or an error
  int64_t i = 0;
  double d = 0;
  S s;
  int64_t b, e; // offsets of the first and last character
};

// Offsets of a location; lines and columns are one based, the end inclusive.
struct Offsets {
  std::vector<int64_t> start; // of each line
  int64_t n;
  explicit Offsets(const S &t) : n(t.size()) {
    start.push_back(0);
    for (size_t i = 0; i < t.size(); ++i)
      if (t[i] == '\n')
        start.push_back(i + 1);
  }
  int64_t at(const SourcePosition &p) const {
    if (p.line < 1 || p.line > (int64_t)start.size())
      return -100;
    int64_t o = start[p.line - 1] + p.column - 1;
    int64_t end = p.line < (int64_t)start.size() ? start[p.line] : n + 1;
    // A newline belongs to the line it begins, in column 0.
    return o < start[p.line - 1] - 1 || o >= end ? -100 : o;
  }
};

// Run the real lexer; report what it must never do.
static std::vector<Got> run(vf::Case &c, const S &src) {
  std::vector<Got> r;
  auto file = std::make_shared<SourceFile>("-");
  auto buf = llvm::MemoryBuffer::getMemBufferCopy(src);
  file->setMemoryBuffer(buf.get());
  lexer::Lexer<pm::StateMachine> lx(file);
  S text = src.substr(0, src.find('\0')); // the text ends at a terminator
  Offsets off(text);
  int64_t last = -1;
  for (size_t steps = 0;; ++steps) {
    if (!c.check(steps <= text.size() + 2, "endless",
                 "more tokens than characters"))
      return r;
    pm::Token t = lx.scan();
    c.count("tokens");
    Got g;
    g.kind = t.getKind();
    auto loc = t.getLocation();
    g.b = off.at(loc.begin);
    g.e = off.at(loc.end);
    if (t.isa<TK::Integer>())
      g.i = t.getInt();
    if (t.isa<TK::FloatingPoint>())
      g.d = t.getFloat();
    if (t.isa<TK::Identifier>() || t.isa<TK::String>())
      g.s = t.getString();
    if (t.isa<TK::Error>())
      g.s = t.getString(), c.count("error tokens");
    bool eof = t.isa<TK::EndOfFile>();
    S where = pm::toString(g.kind) + " token at " +
              std::to_string(loc.begin.line) + ":" +
              std::to_string(loc.begin.column) + "-" +
              std::to_string(loc.end.line) + ":" +
              std::to_string(loc.end.column);
    // The end of the file is a place too, where errors may end.
    bool err = t.isa<TK::Error>();
    if (!c.check(g.b >= 0 && g.e >= 0 && g.e >= g.b - 1 &&
                     (eof || (g.b < (int64_t)text.size() &&
                              g.e < (int64_t)text.size() + err &&
                              g.e >= g.b)),
                 "location-bounds", "not a place in the text: " + where))
      return r;
    if (!eof && !c.check(g.b > last, "location-overlap",
                         "overlaps the previous token: " + where))
      return r;
    if (!eof) {
      last = g.e;
      g.text = text.substr(g.b, g.e - g.b + 1);
    }
    r.push_back(g);
    if (eof)
      break;
  }
  for (int k = 0; k < 3; ++k)
    c.check(lx.scan().isa<TK::EndOfFile>(), "after-end",
            "a token follows the end of the file");
  return r;
}

static S esc(const S &s) {
  S r;
  for (unsigned char ch : s) {
    char b[8];
    if (ch == '\n')
      r += "\\n";
    else if (ch < 32 || ch > 126)
      snprintf(b, sizeof b, "\\x%02x", ch), r += b;
    else
      r += ch;
  }
  return r;
}

// Compare with the reference, up to the first lexical error.
static void compare(vf::Case &c, const S &src, bool values) {
  c.note("text: ", esc(src));
  auto got = run(c, src);
  if (c.failed())
    return;
  auto want = lexref::tokens(src.substr(0, src.find('\0')));
  for (size_t i = 0; i < want.size(); ++i) {
    auto &w = want[i];
    if (!c.check(i < got.size(), "missing-token", "token list too short"))
      return;
    auto &g = got[i];
    S what = "token " + std::to_string(i) + ", '" + esc(w.text) + "'";
    if (w.error) {
      c.check(g.kind == TK::Error, "missed-error",
              what + ": the lexer accepts malformed text as " +
                  pm::toString(g.kind) + " '" + esc(g.text) + "'");
      return; // what follows an error is unspecified
    }
    c.count("tokens compared");
    if (!c.check(pm::toString(g.kind) == w.kind, "wrong-kind",
                 what + ": " + pm::toString(g.kind) + " instead of " + w.kind +
                     " (" + g.s + ")"))
      return;
    if (w.kind == "EOF")
      continue;
    if (!c.check(g.text == w.text && g.b == (int64_t)w.pos, "wrong-text",
                 what + ": the location delimits '" + esc(g.text) + "'"))
      return;
    if (!values)
      continue;
    c.count("values compared");
    if (w.kind == "integer")
      c.check(std::to_string(g.i) == w.value, "integer-value",
              what + ": value " + std::to_string(g.i));
    if (w.kind == "floating point") {
      double ref = strtod(w.text.c_str(), nullptr);
      double err = std::fabs(g.d - ref);
      bool ok = ref == g.d ||
                err <= std::max(std::fabs(ref) * 1e-15, 4.95e-324);
      char b[80];
      snprintf(b, sizeof b, "%.17g instead of %.17g", g.d, ref);
      c.check(ok, "float-value", what + ": value " + b);
    }
    if (w.kind == "identifier" || w.kind == "string")
      c.check(g.s == w.value, "string-value",
              what + ": value '" + esc(g.s) + "' instead of '" +
                  esc(w.value) + "'");
  }
}

VF_STREAM("C19", "bytes", 20000, 800000,
          "random byte strings, half of them from characters that matter") {
  auto &r = c.rng;
  static const S hot = "\"'\\/*\n\t .0123eE+-=<>:^;,()[]{}ax$_\r";
  int n = r.in(0, r.chance(1, 5) ? 200 : 20);
  bool any = r.chance(1, 3);
  S s;
  for (int i = 0; i < n; ++i)
    s += any ? (char)r.in(r.chance(1, 30) ? 0 : 1, 255)
             : hot[r.next() % hot.size()];
  compare(c, s, false);
  if (n > 2)
    c.nontrivial(vf::hashStr(s));
}

VF_STREAM("C19", "tokens", 20000, 600000,
          "random sequences of tokens, whitespace and comments") {
  auto &r = c.rng;
  int n = r.in(1, c.thorough ? 60 : 30);
  unsigned glue = r.in(0, 4);
  S s;
  for (int i = 0; i < n; ++i)
    s += lexref::genToken(r) + lexref::genGap(r, r.chance(glue, 4));
  compare(c, s, false);
  if (n > 2)
    c.nontrivial(vf::hashStr(s));
}

VF_STREAM("C19", "mutants", 20000, 600000,
          "token sequences with characters deleted, changed, repeated, or "
          "cut at any point") {
  auto &r = c.rng;
  int n = r.in(1, 12);
  S s;
  for (int i = 0; i < n; ++i)
    s += lexref::genToken(r) + lexref::genGap(r, r.coin());
  int k = r.in(1, 3);
  while (k-- && !s.empty()) {
    size_t p = r.next() % s.size();
    switch (r.in(0, 4)) {
    case 0:
      s.erase(p, 1);
      break;
    case 1:
      s.resize(p);
      break;
    case 2:
      s.insert(p, 1, s[r.next() % s.size()]);
      break;
    case 3:
      s[p] = s[r.next() % s.size()];
      break;
    default: {
      static const S hot = "\"'\\/*\n.eE+-=<>:$";
      s.insert(p, 1, hot[r.next() % hot.size()]);
    }
    }
  }
  compare(c, s, false);
  c.nontrivial(vf::hashStr(s));
}

VF_STREAM("C20", "integers", 8000, 200000, "integer literals of all sizes") {
  auto &r = c.rng;
  static const char *edge[] = {"9223372036854775807", "9223372036854775808",
                               "18446744073709551615", "18446744073709551616",
                               "9223372036854775806", "0", "00", "2147483648",
                               "4294967296", "09223372036854775807",
                               "92233720368547758070", "36893488147419103232"};
  S s;
  if (c.index < 12)
    s = edge[c.index];
  else
    s = lexref::digits(r, r.in(1, r.coin() ? 8 : 24));
  S t = (r.coin() ? "" : "x ") + s + (r.coin() ? "" : r.coin() ? ";" : "+1");
  compare(c, t, true);
  c.nontrivial(vf::hashStr(t));
}

VF_STREAM("C20", "reals", 20000, 1000000, "real literals of all shapes") {
  auto &r = c.rng;
  static const char *edge[] = {
      "1.7976931348623157e308", "1.7976931348623159e308", "1e308", "1e309",
      "4.9e-324",               "2.4e-324",               "1e-400",
      "0e999999999999999999999", "1e999999999999999999999",
      "1e-999999999999999999999", "2.2250738585072014e-308",
      "123456789012345678901234567890e-29", "0.1", "1.1", "3.14159265358979",
      "9007199254740993.0", "9223372036854775808.", "1.e5", "0.30000000000000004"};
  S s = c.index < 19 ? S(edge[c.index]) : lexref::genReal(r, true);
  S t = (r.coin() ? "" : "x ") + s + (r.coin() ? "" : r.coin() ? ";" : "*y");
  compare(c, t, true);
  c.nontrivial(vf::hashStr(t));
}

VF_STREAM("C20", "strings", 8000, 200000,
          "string literals and quoted identifiers with escape sequences") {
  auto &r = c.rng;
  S s = r.chance(1, 3) ? lexref::genQuoted(r, '\'') : lexref::genQuoted(r, '"');
  S t = (r.coin() ? "" : "x=") + s + (r.coin() ? "" : ";");
  compare(c, t, true);
  c.nontrivial(vf::hashStr(t));
}

VF_STREAM("C20", "mixed", 8000, 200000,
          "values of the tokens of random sequences, where a literal follows "
          "other literals") {
  auto &r = c.rng;
  int n = r.in(2, 25);
  S s;
  for (int i = 0; i < n; ++i)
    s += (r.coin() ? lexref::genLiteral(r) : lexref::genToken(r)) +
         lexref::genGap(r, r.chance(1, 3));
  compare(c, s, true);
  c.nontrivial(vf::hashStr(s));
}
