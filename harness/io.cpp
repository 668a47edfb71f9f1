// C27: commands and input kinds.
#include "vf.h"
#include "marco/IO/Command.h"
#include "marco/IO/InputFile.h"
#include <dirent.h>
#include <fstream>
#include <memory>
#include <optional>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>

using namespace marco::io;
using S = std::string;

static S esc(const S &s) {
  S r;
  for (unsigned char ch : s) {
    char b[8];
    if (ch < 32 || ch > 126)
      snprintf(b, sizeof b, "\\x%02x", ch), r += b;
    else
      r += ch;
  }
  return r;
}

// A directory which lives as long as the case.
struct Scratch {
  S dir;
  std::vector<S> files;
  Scratch() {
    const char *t = getenv("TMPDIR");
    S p = S(t && *t ? t : "/tmp") + "/vf-io-XXXXXX";
    dir = mkdtemp(p.data()) ? p : S();
  }
  S file(const S &name) {
    files.push_back(dir + "/" + name);
    return files.back();
  }
  ~Scratch() {
    for (auto &f : files)
      unlink(f.c_str());
    if (!dir.empty())
      rmdir(dir.c_str());
  }
};

static void put(const S &f, const S &text) {
  std::ofstream(f, std::ios::binary) << text;
}
static std::optional<S> get(const S &f) {
  std::ifstream i(f, std::ios::binary);
  if (!i)
    return std::nullopt;
  std::stringstream s;
  s << i.rdbuf();
  return s.str();
}
// What is open, apart from what the sanitizer's own thread opens in /proc.
static std::vector<S> openFiles() {
  std::vector<S> res;
  if (DIR *d = opendir("/proc/self/fd")) {
    while (dirent *e = readdir(d)) {
      S name = e->d_name;
      char to[1024];
      ssize_t n = readlinkat(dirfd(d), name.c_str(), to, sizeof to);
      if (n > 0 && S(to, n).rfind("/proc/", 0) != 0)
        res.push_back(name + " " + S(to, n));
    }
    closedir(d);
  }
  std::sort(res.begin(), res.end());
  return res;
}

static S word(vf::Rng &r) {
  static const std::vector<S> odd = {
      " ",  "a b", "*",  "$HOME", "\"", "'",  "\\",   "-",  "--help", "-c",
      "~",  "a;b", "|x", "`id`",  "\n", "\t", "a=b",  "%s", "&",      "<f",
      ">f", "{}",  "#",  "\xc3\xa9", "\xff", "\\n", "$(x)", "$0", "@f", "!"};
  if (r.chance(1, 3))
    return r.pick(odd);
  S s;
  for (int n = r.chance(1, 30) ? r.in(100, 3000) : r.in(1, 8); n > 0; --n)
    s += r.chance(1, 8) ? (char)r.in(1, 255) : (char)r.in(33, 126);
  return s;
}

VF_STREAM("C27", "commands", 2500, 40000,
          "a shell that reports its arguments and copies its input, run by "
          "Command with random arguments, redirections and exit status") {
  auto &r = c.rng;
  Scratch tmp;
  c.check(!tmp.dir.empty(), "scratch", "no scratch directory");
  if (c.failed())
    return;
  int how = r.in(0, 9); // 0: killed by a signal
  int status = r.chance(1, 3) ? 0 : (int)r.in(1, 125);
  // "name status args..." each ended by a NUL, then the input
  S script = "printf '%s\\0' \"$0\" \"$@\"; cat; printf 'E%s' $# >&2; " +
             (how == 0 ? S("kill -9 $$") : "exit " + std::to_string(status));

  Command cmd("/bin/sh");
  std::vector<S> given{script, word(r)};
  cmd.appendArg("-c").appendArg(script).appendArg(given[1]);
  S called;
  int n = r.chance(1, 25) ? r.in(50, 500) : r.in(0, 8);
  while (n > 0) {
    switch (r.in(0, 2)) {
    case 0: {
      S w = r.chance(1, 10) ? S() : word(r);
      cmd.appendArg(w.c_str());
      called += "p";
      if (!w.empty())
        given.push_back(w);
      --n;
      break;
    }
    case 1: { // part of a longer text
      S w = r.chance(1, 10) ? S() : word(r), more = w + "tail";
      cmd.appendArg(llvm::StringRef(more).take_front(w.size()));
      called += "s";
      if (!w.empty())
        given.push_back(w);
      --n;
      break;
    }
    default: {
      std::vector<S> ws;
      for (int k = r.in(0, 4); k > 0; --k)
        ws.push_back(r.chance(1, 10) ? S() : word(r));
      std::vector<const char *> ps;
      for (auto &w : ws) {
        ps.push_back(w.c_str());
        if (!w.empty())
          given.push_back(w);
        --n;
      }
      cmd.appendArgs(ps);
      called += "v";
      --n;
    }
    }
  }
  S input;
  for (int k = r.chance(1, 20) ? r.in(60000, 200000) : r.in(0, 20); k > 0; --k)
    input += (char)r.in(0, 255);
  bool empty = r.chance(1, 8), same = r.chance(1, 6), errTo = r.chance(3, 4);
  S in = tmp.file("in file"), out = tmp.file("out"), err = tmp.file("err");
  put(in, input);
  if (r.coin())
    put(out, ""); // (LLVM does not truncate a file that exists)
  {
    // the strings passed do not outlive the calls
    S a = in, b = out, d = same ? out : err;
    cmd.setStdinRedirect(empty ? llvm::StringRef() : llvm::StringRef(a));
    if (r.chance(1, 5))
      cmd.setStdoutRedirect(err); // overridden below
    cmd.setStdoutRedirect(b);
    cmd.setStderrRedirect(errTo ? llvm::StringRef(d) : llvm::StringRef());
    a.assign(a.size(), '#'), b.assign(b.size(), '#'), d.assign(d.size(), '#');
  }
  if (empty)
    input.clear();
  c.note(given.size(), " arguments (", called, "), status ", status,
         how ? "" : ", killed", empty ? ", no input" : "",
         same ? ", both outputs in one file" : "");
  S want;
  for (size_t i = 1; i < given.size(); ++i)
    want += given[i] + '\0';
  want += input;
  S wantErr = "E" + std::to_string(given.size() - 2);
  if (errTo && same)
    want += wantErr;

  auto before = openFiles();
  for (int run = r.chance(1, 4) ? 2 : 1; run > 0; --run) {
    int got = cmd.exec();
    c.count("commands run");
    c.count("arguments passed", given.size());
    c.check(got == (how == 0 ? -2 : status), "status",
            "exec() returns " + std::to_string(got) + " for a process that " +
                (how == 0 ? S("was killed")
                          : "exited with " + std::to_string(status)));
    auto o = get(out);
    c.check(o.has_value(), "output-missing", "the output file does not exist");
    if (o && *o != want) {
      size_t p = 0;
      while (p < o->size() && p < want.size() && (*o)[p] == want[p])
        ++p;
      bool args = p < want.size() - input.size();
      c.fail(args ? "arguments" : "output",
             "from offset " + std::to_string(p) + " the process saw '" +
                 esc(o->substr(p, 40)) + "' and was given '" +
                 esc(want.substr(p, 40)) + "'");
    }
    if (errTo && !same) {
      auto e = get(err);
      c.check(e && *e == wantErr, "error-output",
              "the error stream holds '" + esc(e.value_or("(no file)")) + "'");
    }
    c.check(openFiles() == before, "descriptors",
            "files are left open by exec()");
    errno = 0;
    c.check(waitpid(-1, nullptr, WNOHANG) == -1 && errno == ECHILD, "children",
            "a process is left behind by exec()");
    if (c.failed())
      return;
  }
  uint64_t h = vf::hashStr(called) + n * 7 + how;
  for (auto &g : given)
    h = h * 31 + vf::hashStr(g);
  c.nontrivial(h);
}

VF_STREAM("C27", "failures", 200, 3000,
          "programs that do not exist or cannot be run") {
  auto &r = c.rng;
  Scratch tmp;
  S p;
  switch (r.in(0, 2)) {
  case 0: p = tmp.dir + "/missing"; break;
  case 1: p = tmp.file("text"); put(p, "not a program"); break;
  default: p = tmp.dir; break;
  }
  c.note(p.substr(tmp.dir.size()));
  Command cmd(p);
  for (int n = r.in(0, 4); n > 0; --n)
    cmd.appendArg(word(r));
  int got = cmd.exec();
  c.count("commands run");
  c.check(got == -1, "not-run",
          "exec() returns " + std::to_string(got) + " for '" + p + "'");
  c.check(waitpid(-1, nullptr, WNOHANG) == -1, "children",
          "a process is left behind by exec()");
  c.nontrivial(r.next());
}

VF_STREAM("C27", "kinds", 4000, 60000, "file names and extensions") {
  auto &r = c.rng;
  static const std::vector<S> ext = {"mo",  "mlir", "bc", "ll", "o",    "MO",
                                     "bmo", "mo ",  "",   "m",  "moo",  "c",
                                     "lll", "bcd",  "O",  "so", "mlir.", "/mo"};
  S stem;
  for (int n = r.in(0, 6); n > 0; --n)
    stem += "ab./ -mol"[r.in(0, 8)];
  S e = r.pick(ext);
  S name = r.chance(1, 6) ? e : stem + "." + e;
  c.note("name '", name, "'");
  auto kindOf = [](const S &x) -> std::pair<Language, Format> {
    if (x == "mo")
      return {Language::Modelica, Format::Source};
    if (x == "mlir")
      return {Language::MLIR, Format::Source};
    if (x == "bc" || x == "ll")
      return {Language::LLVM_IR, Format::Source};
    if (x == "o")
      return {Language::Unknown, Format::Object};
    return {Language::Unknown, Format::Unknown};
  };
  auto judge = [&](const InputKind &k, const S &x, const char *what) {
    auto w = kindOf(x);
    c.count("kinds compared");
    c.check(k.getLanguage() == w.first, "language",
            S(what) + ": language " + std::to_string((int)k.getLanguage()) +
                " for the extension '" + x + "'");
    c.check(k.getFormat() == w.second, "format",
            S(what) + ": format " + std::to_string((int)k.getFormat()) +
                " for the extension '" + x + "'");
    c.check(k.isUnknown() == (w.first == Language::Unknown &&
                              w.second == Format::Unknown),
            "unknown", S(what) + ": isUnknown() is wrong for '" + x + "'");
  };
  size_t dot = name.rfind('.');
  S x = dot == S::npos ? S() : name.substr(dot + 1);
  judge(InputKind::getFromFullFileName(name), x, "getFromFullFileName");
  if (e.find('.') == S::npos)
    judge(InputKind::getFromExtension(e), e, "getFromExtension");

  InputKind kind = InputKind::getFromFullFileName(name);
  S copy = name;
  InputFile f(copy, kind);
  copy.assign(copy.size(), '#');
  c.check(f.isFile() && !f.isBuffer() && f.getFile() == name &&
              f.isEmpty() == name.empty() &&
              f.getKind().getFormat() == kind.getFormat() &&
              f.getKind().getLanguage() == kind.getLanguage(),
          "input-file", "an input file does not keep its name or kind");
  auto buf = llvm::MemoryBuffer::getMemBufferCopy(name);
  InputFile b(buf.get(), kind);
  c.check(b.isBuffer() && !b.isFile() && !b.isEmpty() &&
              b.getBuffer() == buf.get() &&
              b.getKind().getLanguage() == kind.getLanguage(),
          "input-buffer", "an input buffer is not kept");
  c.check(InputFile().isEmpty(), "input-empty", "an empty input is not empty");
  c.nontrivial(vf::hashStr(name));
}
