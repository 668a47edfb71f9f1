// An independent tokeniser of the lexical grammar of Base Modelica, written
// from the language specification (maximal munch), and generators of text.
#ifndef LEXGEN_H
#define LEXGEN_H
#include "vf.h"
#include <cctype>
#include <cmath>
#include <string>
#include <vector>

namespace lexref {
using S = std::string;
struct Tok {
  S kind, text, value;
  size_t pos = 0;
  bool error = false;
};

inline bool dig(char c) { return c >= '0' && c <= '9'; }
inline bool nond(char c) {
  return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_';
}
inline bool space(char c) {
  return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v' ||
         c == '\f';
}

inline const std::vector<S> &keywords() {
  static const std::vector<S> k = {
      "algorithm", "and",       "annotation",    "block",    "break",
      "class",     "connect",   "connector",     "constant", "constrainedby",
      "der",       "discrete",  "each",          "else",     "elseif",
      "elsewhen",  "encapsulated", "end",        "enumeration", "equation",
      "expandable", "extends",  "external",      "false",    "final",
      "flow",      "for",       "function",      "if",       "import",
      "impure",    "in",        "initial",       "inner",    "input",
      "loop",      "model",     "not",           "operator", "or",
      "outer",     "output",    "package",       "parameter", "partial",
      "protected", "public",    "pure",          "record",   "redeclare",
      "replaceable", "return",  "stream",        "then",     "true",
      "type",      "when",      "while",         "within"};
  return k;
}
inline bool isKeyword(const S &s) {
  for (auto &k : keywords())
    if (k == s)
      return true;
  return false;
}
inline const std::vector<S> &symbols() { // longest first
  static const std::vector<S> k = {".+", ".-", ".*", "./", ".^", "==", "<>",
                                   "<=", ">=", ":=", "+",  "-",  "*",  "/",
                                   "^",  ".",  "<",  ">",  ",",  ";",  ":",
                                   "(",  ")",  "[",  "]",  "{",  "}",  "="};
  return k;
}

// Decimal comparison, with no arithmetic that can overflow.
inline bool fitsInt64(S d) {
  d.erase(0, std::min(d.find_first_not_of('0'), d.size()));
  S max = "9223372036854775807";
  return d.size() < max.size() || (d.size() == max.size() && d <= max);
}

inline S unescape(char c) {
  switch (c) {
  case 'a': return "\a";
  case 'b': return "\b";
  case 'f': return "\f";
  case 'n': return "\n";
  case 'r': return "\r";
  case 't': return "\t";
  case 'v': return "\v";
  default: return S(1, c);
  }
}

// The list ends with an error or EOF.
inline std::vector<Tok> tokens(const S &t) {
  std::vector<Tok> r;
  size_t p = 0, n = t.size();
  auto at = [&](size_t i) -> char { return i < n ? t[i] : '\0'; };
  auto push = [&](const S &kind, size_t e, const S &value) {
    r.push_back({kind, t.substr(p, e - p), value, p, false});
    p = e;
  };
  auto error = [&](size_t e) {
    r.push_back({"error", t.substr(p, e - p), "", p, true});
  };
  while (true) {
    if (p >= n) {
      r.push_back({"EOF", "", "", n, false});
      return r;
    }
    char c = t[p];
    if (space(c)) {
      ++p;
      continue;
    }
    if (c == '/' && at(p + 1) == '/') {
      size_t e = t.find('\n', p);
      p = e == S::npos ? n : e + 1;
      continue;
    }
    if (c == '/' && at(p + 1) == '*') {
      size_t e = t.find("*/", p + 2);
      if (e == S::npos) {
        error(n);
        return r;
      }
      p = e + 2;
      continue;
    }
    if (nond(c) || (c == '$' && nond(at(p + 1)))) {
      size_t e = p + 1;
      while (nond(at(e)) || dig(at(e)))
        ++e;
      S id = t.substr(p, e - p);
      push(isKeyword(id) ? id : "identifier", e, id);
      continue;
    }
    if (c == '\'' || c == '"') {
      size_t e = p + 1;
      S v;
      while (e < n && t[e] != c) {
        if (t[e] == '\\') {
          if (e + 1 >= n)
            break;
          v += unescape(t[e + 1]);
          e += 2;
        } else
          v += t[e++];
      }
      if (at(e) != c || e >= n) {
        error(n);
        return r;
      }
      push(c == '"' ? "string" : "identifier", e + 1, v);
      continue;
    }
    if (dig(c)) {
      size_t e = p;
      bool real = false;
      while (dig(at(e)))
        ++e;
      S upper = t.substr(p, e - p);
      if (at(e) == '.') {
        real = true;
        ++e;
        while (dig(at(e)))
          ++e;
      }
      if (at(e) == 'e' || at(e) == 'E') {
        size_t x = e + 1;
        if (at(x) == '+' || at(x) == '-')
          ++x;
        if (!dig(at(x))) {
          error(x); // missing exponent
          return r;
        }
        while (dig(at(x)))
          ++x;
        e = x;
        real = true;
      }
      S text = t.substr(p, e - p);
      if (real ? std::isinf(strtod(text.c_str(), nullptr))
               : !fitsInt64(upper)) {
        error(e); // out of range
        return r;
      }
      size_t nz = std::min(upper.find_first_not_of('0'), upper.size() - 1);
      push(real ? "floating point" : "integer", e, upper.substr(nz));
      continue;
    }
    bool found = false;
    for (auto &s : symbols())
      if (t.compare(p, s.size(), s) == 0) {
        push(s, p + s.size(), "");
        found = true;
        break;
      }
    if (!found) {
      error(p + 1);
      return r;
    }
  }
}

// --- Generators ----------------------------------------------------------
inline S digits(vf::Rng &r, int n) {
  S s;
  while (n-- > 0)
    s += (char)('0' + (r.chance(1, 4) ? 0 : r.in(0, 9)));
  return s;
}
inline S genReal(vf::Rng &r, bool wild) {
  S s = digits(r, r.in(1, wild && r.coin() ? 25 : 4));
  bool real = false;
  if (r.chance(3, 4)) {
    s += ".";
    if (r.chance(4, 5))
      s += (wild && r.chance(1, 4) ? S(r.in(0, 30), '0') : S()) +
           digits(r, r.in(1, wild && r.coin() ? 30 : 4));
    real = true;
  }
  if (!real || r.coin()) {
    s += r.coin() ? "e" : "E";
    if (r.coin())
      s += r.coin() ? "+" : "-";
    int lim = wild ? (r.chance(1, 3) ? 330 : 30) : 3;
    s += std::to_string(r.in(0, lim));
  }
  return s;
}
inline S genQuoted(vf::Rng &r, char q) {
  static const S esc = "abfnrtv\\\"'?zq0";
  S s(1, q);
  int n = r.in(q == '\'' ? 1 : 0, 12);
  for (int i = 0; i < n; ++i) {
    if (r.chance(1, 4)) {
      s += '\\';
      s += esc[r.next() % esc.size()];
      continue;
    }
    char ch = r.chance(1, 20) ? (char)r.in(128, 255) : (char)r.in(32, 126);
    if (q == '"' && r.chance(1, 20))
      ch = '\n';
    if (ch == q || ch == '\\')
      ch = 'k';
    s += ch;
  }
  return s + q;
}
inline S genIdent(vf::Rng &r) {
  if (r.chance(1, 4)) { // close to a keyword
    S k = r.pick(keywords());
    switch (r.in(0, 3)) {
    case 0: return k + "_";
    case 1: return "_" + k;
    case 2: return k.substr(0, r.in(1, k.size()));
    default:
      k[0] = toupper(k[0]);
      return k;
    }
  }
  static const S a = "abcxyzABZ_", b = "abxyzEe_0129";
  S s(1, a[r.next() % a.size()]);
  int n = r.in(0, 6);
  while (n--)
    s += b[r.next() % b.size()];
  return r.chance(1, 8) ? "$" + s : s;
}
inline S genLiteral(vf::Rng &r) {
  switch (r.in(0, 3)) {
  case 0: return digits(r, r.in(1, 6));
  case 1: return genReal(r, r.coin());
  case 2: return genQuoted(r, '"');
  default: return genQuoted(r, '\'');
  }
}
inline S genToken(vf::Rng &r) {
  switch (r.in(0, 6)) {
  case 0: return r.pick(keywords());
  case 1:
  case 2: return genIdent(r);
  case 3:
  case 4: return r.pick(symbols());
  default: return genLiteral(r);
  }
}
// Text between two tokens; it may be empty only when so asked.
inline S genGap(vf::Rng &r, bool mayGlue) {
  if (mayGlue)
    return "";
  switch (r.in(0, 7)) {
  case 0: return "\n";
  case 1: return S(r.in(1, 3), ' ') + "\t";
  case 2: return "\r\n";
  case 3: {
    static const char *k[] = {" //\n", " // a \" ' /* x\n", "//*/\n",
                              " // end;\n\n", "// \xc3\xa9\n"};
    return S(" ") + k[r.in(0, 4)];
  }
  case 4: {
    static const char *k[] = {"/**/", "/*/ x */", "/* * / ** */", "/***/",
                              "/* a\n b \" ' // \n*/", "/*\n*/",
                              "/* /* */", "/*=**/"};
    return S(" ") + k[r.in(0, 7)] + (r.coin() ? "" : " ");
  }
  default: return " ";
  }
}
} // namespace lexref
#endif
