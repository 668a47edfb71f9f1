// Common runtime for the monitored workloads: deterministic case generation,
// violation reporting, coverage accounting, progress tracking.
#ifndef VF_H
#define VF_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace vf {

inline uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}

inline uint64_t hashStr(const std::string &s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) {
    h ^= c;
    h *= 1099511628211ull;
  }
  return mix(h);
}

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(mix(seed)) {}
  uint64_t next() {
    s += 0x9e3779b97f4a7c15ull;
    uint64_t x = s;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
  }
  // Inclusive bounds.
  int64_t in(int64_t lo, int64_t hi) {
    return lo + (int64_t)(next() % (uint64_t)(hi - lo + 1));
  }
  bool chance(unsigned num, unsigned den) { return next() % den < num; }
  bool coin() { return next() & 1; }
  template <typename T>
  const T &pick(const std::vector<T> &v) {
    return v[next() % v.size()];
  }
  template <typename T>
  void shuffle(std::vector<T> &v) {
    for (size_t i = v.size(); i > 1; --i)
      std::swap(v[i - 1], v[next() % i]);
  }
};

class Case {
public:
  Rng rng;
  uint64_t index = 0;
  bool verbose = false;
  bool thorough = false;
  std::string text; // human readable description of the case so far

  // Append to the description of the case.
  template <typename... A>
  void note(const A &...a) {
    std::ostringstream os;
    (os << ... << a);
    os << "\n";
    if (verbose)
      fprintf(stderr, "  %s", os.str().c_str());
    if (text.size() < 60000)
      text += os.str();
  }
  // Report a violation. `key` identifies the kind of failure.
  void fail(const std::string &key, const std::string &msg);
  bool failed() const { return nfail > 0; }
  bool check(bool cond, const std::string &key, const std::string &msg) {
    if (!cond)
      fail(key, msg);
    return cond;
  }
  // Declares that the case was non trivial; identity is the hash.
  void nontrivial(uint64_t h) {
    nontriv = true;
    hash = h;
  }
  void nontrivial() { nontrivial(hashStr(text)); }
  // Count monitor events.
  void count(const std::string &what, uint64_t n = 1);

  unsigned nfail = 0;
  bool nontriv = false;
  uint64_t hash = 0;
};

using CaseFn = std::function<void(Case &)>;

struct Stream {
  std::string prop, name, rule;
  uint64_t quick, thorough;
  CaseFn fn;
};

std::vector<Stream> &streams();

struct Register {
  Register(const char *prop, const char *name, uint64_t quick,
           uint64_t thorough, const char *rule, CaseFn fn) {
    streams().push_back({prop, name, rule, quick, thorough, fn});
  }
};

#define VF_CAT2(a, b) a##b
#define VF_CAT(a, b) VF_CAT2(a, b)
// VF_STREAM("C01", "name", quickCases, thoroughCases, "rule") { body using c }
#define VF_STREAM(prop, name, q, t, rule)                                      \
  static void VF_CAT(vf_fn_, __LINE__)(vf::Case & c);                          \
  static vf::Register VF_CAT(vf_reg_, __LINE__)(prop, name, q, t, rule,        \
                                                VF_CAT(vf_fn_, __LINE__));     \
  static void VF_CAT(vf_fn_, __LINE__)(vf::Case & c)

} // namespace vf
#endif
