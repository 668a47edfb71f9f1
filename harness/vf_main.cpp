#include "vf.h"
#include <cstring>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <unistd.h>

namespace vf {
std::vector<Stream> &streams() {
  static std::vector<Stream> s;
  return s;
}

namespace {
struct Progress {
  char magic[8];
  volatile uint64_t stream;
  volatile uint64_t index;
  volatile uint64_t ticks;
  volatile uint64_t done;
};
Progress *progress = nullptr;

struct Violation {
  std::string stream;
  uint64_t index;
  std::string key, msg, text;
};
std::vector<Violation> violations;
std::map<std::string, uint64_t> counters;
const Stream *curStream = nullptr;

std::string esc(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"')
      r += "\\\"";
    else if (c == '\\')
      r += "\\\\";
    else if (c == '\n')
      r += "\\n";
    else if (c < 32 || c >= 127) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else
      r += c;
  }
  return r + "\"";
}
} // namespace

void Case::fail(const std::string &key, const std::string &msg) {
  ++nfail;
  if (verbose)
    fprintf(stderr, "VIOLATED[%s]: %s\n", key.c_str(), msg.c_str());
  if (nfail <= 3)
    violations.push_back({curStream->name, index, key, msg, text});
}

void Case::count(const std::string &what, uint64_t n) { counters[what] += n; }
} // namespace vf

using namespace vf;

int main(int argc, char **argv) {
  std::string prop, tier = "quick", out, prog, only;
  uint64_t seed = 1, shard = 0, shards = 1;
  uint64_t startStream = 0, startIndex = 0;
  uint64_t maxViol = 20;
  double scale = 1;
  bool list = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--prop")
      prop = val();
    else if (a == "--tier")
      tier = val();
    else if (a == "--seed")
      seed = strtoull(val().c_str(), 0, 10);
    else if (a == "--shard")
      shard = strtoull(val().c_str(), 0, 10);
    else if (a == "--shards")
      shards = strtoull(val().c_str(), 0, 10);
    else if (a == "--out")
      out = val();
    else if (a == "--progress")
      prog = val();
    else if (a == "--only")
      only = val();
    else if (a == "--scale")
      scale = atof(val().c_str());
    else if (a == "--resume") {
      std::string v = val();
      sscanf(v.c_str(), "%lu:%lu", &startStream, &startIndex);
    } else if (a == "--list")
      list = true;
    else {
      fprintf(stderr, "unknown option %s\n", a.c_str());
      return 2;
    }
  }
  if (list) {
    for (auto &s : streams())
      printf("%s\t%s\t%lu\t%lu\t%s\n", s.prop.c_str(), s.name.c_str(), s.quick,
             s.thorough, s.rule.c_str());
    return 0;
  }
  if (!prog.empty()) {
    int fd = open(prog.c_str(), O_RDWR | O_CREAT, 0644);
    if (fd < 0 || ftruncate(fd, sizeof(Progress)) != 0) {
      perror("progress");
      return 2;
    }
    progress = (Progress *)mmap(0, sizeof(Progress), PROT_READ | PROT_WRITE,
                                MAP_SHARED, fd, 0);
    close(fd);
  }
  bool thorough = tier == "thorough";
  uint64_t evaluations = 0;
  std::unordered_set<uint64_t> distinct;
  std::vector<std::pair<std::string, std::string>> samples;
  std::map<std::string, uint64_t> perStream;
  std::string onlyStream;
  uint64_t onlyIndex = 0;
  if (!only.empty()) {
    size_t p = only.rfind(':');
    onlyStream = only.substr(0, p);
    onlyIndex = strtoull(only.c_str() + p + 1, 0, 10);
  }

  uint64_t si = 0;
  for (auto &s : streams()) {
    if (s.prop != prop)
      continue;
    uint64_t myStream = si++;
    uint64_t n = thorough ? s.thorough : s.quick;
    if (n > 64)
      n = (uint64_t)(n * scale);
    uint64_t sampled = 0;
    curStream = &s;
    for (uint64_t i = 0; i < n; ++i) {
      if (!only.empty()) {
        if (s.name != onlyStream)
          break;
        i = onlyIndex;
      } else {
        if (i % shards != shard)
          continue;
        if (myStream < startStream ||
            (myStream == startStream && i < startIndex))
          continue;
      }
      if (progress) {
        progress->stream = myStream;
        progress->index = i;
        progress->ticks = progress->ticks + 1;
      }
      Case c;
      c.index = i;
      c.thorough = thorough;
      c.verbose = !only.empty();
      c.rng = Rng(seed * 1000003ull + hashStr(s.prop + "/" + s.name) +
                  i * 0x632be59bd9b4e019ull);
      if (c.verbose)
        fprintf(stderr, "case %s:%lu\n", s.name.c_str(), i);
      s.fn(c);
      ++evaluations;
      ++perStream[s.name];
      if (c.nontriv) {
        distinct.insert(mix(c.hash ^ hashStr(s.name)));
        if (sampled < 2 && !c.text.empty()) {
          ++sampled;
          samples.emplace_back(s.name + ":" + std::to_string(i),
                               c.text.substr(0, 700));
        }
      }
      if (!only.empty())
        break;
      if (violations.size() >= maxViol)
        goto finish;
    }
  }
finish:
  if (progress)
    progress->done = 1;
  std::string js = "{\"evaluations\":" + std::to_string(evaluations) +
                   ",\"distinct\":[";
  {
    bool first = true;
    for (uint64_t h : distinct) {
      js += (first ? "" : ",") + std::to_string(h);
      first = false;
    }
    js += "],\"counters\":{";
    first = true;
    for (auto &k : counters) {
      js += (first ? "" : ",") + esc(k.first) + ":" + std::to_string(k.second);
      first = false;
    }
    js += "},\"perStream\":{";
    first = true;
    for (auto &k : perStream) {
      js += (first ? "" : ",") + esc(k.first) + ":" + std::to_string(k.second);
      first = false;
    }
    js += "},\"samples\":[";
    first = true;
    for (auto &k : samples) {
      js += (first ? "" : ",") + ("[" + esc(k.first) + "," + esc(k.second)) +
            "]";
      first = false;
    }
    js += "],\"violations\":[";
    first = true;
    for (auto &v : violations) {
      js += (first ? "" : ",") + ("{\"stream\":" + esc(v.stream)) +
            ",\"index\":" + std::to_string(v.index) + ",\"key\":" + esc(v.key) +
            ",\"msg\":" + esc(v.msg.substr(0, 8000)) +
            ",\"text\":" + esc(v.text.substr(0, 20000)) + "}";
      first = false;
    }
    js += "]}\n";
  }
  if (!out.empty()) {
    FILE *f = fopen(out.c_str(), "w");
    if (!f) {
      perror("out");
      return 2;
    }
    fwrite(js.data(), 1, js.size(), f);
    fclose(f);
  }
  fflush(0);
  // Skip global destruction: only the workload is under observation.
  _exit(0);
}
