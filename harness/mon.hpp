// Monitor framework shared by every C++ harness: seeded cases, oracles, evidence counters, crash attribution.
#pragma once
#include <chrono>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <unordered_set>
#include <vector>

namespace mon {

inline uint64_t mix(uint64_t x) {
  x += 0x9E3779B97F4A7C15ull;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
  return x ^ (x >> 31);
}

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  using result_type = uint64_t;
  static constexpr uint64_t min() { return 0; }
  static constexpr uint64_t max() { return ~0ull; }
  uint64_t operator()() { return u64(); }
  uint64_t u64() {
    s += 0x9E3779B97F4A7C15ull;
    return mix(s);
  }
  // [0, n)
  uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
  // [a, b]
  int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
  double real() { return (double)(u64() >> 11) * (1.0 / 9007199254740992.0); }
  double real(double a, double b) { return a + (b - a) * real(); }
  double normal() {
    double u = real();
    while (u <= 1e-300) u = real();
    return std::sqrt(-2.0 * std::log(u)) * std::cos(6.283185307179586 * real());
  }
  bool chance(double p) { return real() < p; }
  template <typename T>
  const T& pick(const std::vector<T>& v) {
    return v[below(v.size())];
  }
};

struct Failed {};

inline std::string esc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += (char)c;
    } else if (c < 0x20 || c >= 0x7f) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else
      o += (char)c;
  }
  return o;
}

struct Progress {
  char group[96];
  int64_t index;
};

struct Violation {
  std::string group, key, msg;
  int64_t index;
};

class Monitor;

class Case {
 public:
  Monitor& m;
  std::string group;
  int64_t index;
  Rng rng;
  uint64_t sig = 0x1234567;
  bool nontrivial_ = false;
  Case(Monitor& mm, const std::string& g, int64_t i, uint64_t seed) : m(mm), group(g), index(i), rng(seed) {}
  // Records what distinguishes this case from others.
  template <typename T>
  void note(const T& v) {
    uint64_t x = 0;
    if (std::is_floating_point<T>::value) {
      double d = (double)v;
      memcpy(&x, &d, 8);
    } else
      x = (uint64_t)v;
    sig = mix(sig ^ x) + 0x51ed27;
  }
  void note(const std::string& s) {
    for (char c : s) note((int)c);
  }
  void nontrivial(bool b = true) { nontrivial_ = nontrivial_ || b; }
  void count(const std::string& name, int64_t n = 1);
  // A failed check ends the case by throwing Failed.
  bool check(bool ok, const std::string& key, const std::function<std::string()>& msg);
  bool check(bool ok, const std::string& key, const std::string& msg = "") {
    if (!ok) check(ok, key, [&] { return msg; });
    return true;
  }
  void fail(const std::string& key, const std::string& msg = "") { check(false, key, msg); }
  void sample(const std::string& s);
  template <typename A, typename B>
  void eq(const A& a, const B& b, const std::string& key, const std::string& msg = "") {
    if (!(a == b)) {
      std::ostringstream o;
      o.precision(17);
      o << msg << " got=" << a << " want=" << b;
      check(false, key, o.str());
    }
  }
  // |a-b| <= tol ; NaN fails
  void near(double a, double b, double tol, const std::string& key, const std::string& msg = "") {
    if (a == b) return;
    if (!(std::fabs(a - b) <= tol)) {
      std::ostringstream o;
      o.precision(17);
      o << msg << " got=" << a << " want=" << b << " tol=" << tol;
      check(false, key, o.str());
    }
  }
};

// What a forked probe did.
struct Probe {
  enum Kind { RETURNED, THREW, ABORTED, SANITIZER, OTHER } kind;
  std::string out;
};

class Monitor {
 public:
  uint64_t seed = 1;
  bool thorough = false;
  int shard = 0, shards = 1;
  std::string out, only_group;
  int64_t only_index = -1;
  std::map<std::string, int64_t> counters, cases_per_group;
  std::map<std::string, std::vector<std::string>> samples;
  std::vector<Violation> violations;
  std::map<std::string, int> per_key;
  std::unordered_set<uint64_t> nontrivial;
  int64_t evaluations = 0;
  Progress* progress = nullptr;
  int cpu_limit = 60;

  Monitor(int argc, char** argv) {
    std::string prog;
    for (int i = 1; i + 1 < argc; i += 2) {
      std::string a = argv[i], v = argv[i + 1];
      if (a == "--seed") seed = strtoull(v.c_str(), nullptr, 10);
      if (a == "--tier") thorough = (v == "thorough");
      if (a == "--shard") sscanf(v.c_str(), "%d/%d", &shard, &shards);
      if (a == "--out") out = v;
      if (a == "--progress") prog = v;
      if (a == "--group") only_group = v;
      if (a == "--index") only_index = atoll(v.c_str());
      if (a == "--cpu") cpu_limit = atoi(v.c_str());
    }
    static Progress local;
    progress = &local;
    if (!prog.empty()) {
      int fd = open(prog.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
      if (fd >= 0 && ftruncate(fd, sizeof(Progress)) == 0) {
        void* p = mmap(nullptr, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (p != MAP_FAILED) progress = (Progress*)p;
        close(fd);
      }
    }
    signal(SIGPROF, [](int) {
      static const char msg[] = "MON: cpu watchdog: case does not terminate\n";
      ssize_t r = write(2, msg, sizeof msg - 1);
      (void)r;
      _exit(86);
    });
  }

  const std::chrono::steady_clock::time_point started = std::chrono::steady_clock::now();

  void arm(int secs) {
    struct itimerval t;
    memset(&t, 0, sizeof t);
    t.it_value.tv_sec = secs;
    setitimer(ITIMER_PROF, &t, nullptr);
  }

  // Runs n_quick (or n_thorough) seeded cases of fn.
  void group(const std::string& name, int64_t n_quick, int64_t n_thorough, const std::function<void(Case&)>& fn) {
    if (!only_group.empty() && only_group != name) return;
    const int64_t n = thorough ? n_thorough : n_quick;
    uint64_t gh = 1469598103934665603ull;
    for (char c : name) gh = (gh ^ (unsigned char)c) * 1099511628211ull;
    for (int64_t i = 0; i < n; i++) {
      // decided: what is left could only repeat it
      if (!violations.empty() && std::chrono::steady_clock::now() - started > std::chrono::seconds(45)) return;
      if (only_index >= 0 ? i != only_index : (int)((i + (int64_t)(gh % 97)) % shards) != shard) continue;
      snprintf(progress->group, sizeof progress->group, "%s", name.c_str());
      progress->index = i;
      Case c(*this, name, i, mix(mix(seed) ^ gh ^ mix((uint64_t)i + 77)));
      c.sig = gh;
      arm(cpu_limit);
      try {
        fn(c);
      } catch (const Failed&) {
      } catch (const std::exception& e) {
        add(c, std::string("exception"), std::string("unexpected exception: ") + e.what());
      } catch (...) {
        add(c, "exception", "unexpected non-standard exception");
      }
      evaluations++;
      cases_per_group[name]++;
      if (c.nontrivial_ && nontrivial.size() < 4000000) nontrivial.insert(c.sig);
    }
    arm(0);
  }

  void add(Case& c, const std::string& key, const std::string& msg) {
    std::string k = c.group + ":" + key;
    if (per_key[k]++ < 3) violations.push_back(Violation{c.group, k, msg.substr(0, 1500), c.index});
  }

  // Runs fn in a child process and reports how it ended. fn's returned string comes back in out.
  static Probe probe(const std::function<std::string()>& fn) {
    int p[2];
    if (pipe(p) != 0) throw std::runtime_error("pipe");
    std::cout.flush();
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) throw std::runtime_error("fork");
    if (pid == 0) {
      close(p[0]);
      int dn = open("/dev/null", O_WRONLY);
      dup2(dn, 1);
      dup2(dn, 2);
      struct itimerval t;
      memset(&t, 0, sizeof t);
      t.it_value.tv_sec = 30;
      setitimer(ITIMER_PROF, &t, nullptr);
      std::string r;
      int code = 40;
      try {
        r = fn();
      } catch (...) {
        code = 41;
      }
      size_t off = 0;
      while (off < r.size()) {
        ssize_t w = write(p[1], r.data() + off, r.size() - off);
        if (w <= 0) break;
        off += (size_t)w;
      }
      _exit(code);
    }
    close(p[1]);
    Probe pr;
    char buf[65536];
    ssize_t r;
    while ((r = read(p[0], buf, sizeof buf)) > 0) pr.out.append(buf, (size_t)r);
    close(p[0]);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 40)
      pr.kind = Probe::RETURNED;
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 41)
      pr.kind = Probe::THREW;
    else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT)
      pr.kind = Probe::ABORTED;
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 99)
      pr.kind = Probe::SANITIZER;
    else
      pr.kind = Probe::OTHER;
    return pr;
  }

  int finish() {
    std::ostringstream o;
    o << "{\"evaluations\":" << evaluations << ",\n\"groups\":{";
    bool first = true;
    for (auto& g : cases_per_group) {
      o << (first ? "" : ",") << "\"" << esc(g.first) << "\":" << g.second;
      first = false;
    }
    o << "},\n\"counters\":{";
    first = true;
    for (auto& g : counters) {
      o << (first ? "" : ",") << "\"" << esc(g.first) << "\":" << g.second;
      first = false;
    }
    o << "},\n\"samples\":[";
    first = true;
    for (auto& g : samples)
      for (auto& s : g.second) {
        o << (first ? "" : ",") << "{\"group\":\"" << esc(g.first) << "\",\"case\":\"" << esc(s) << "\"}";
        first = false;
      }
    o << "],\n\"violations\":[";
    first = true;
    for (auto& v : violations) {
      o << (first ? "" : ",") << "{\"group\":\"" << esc(v.group) << "\",\"index\":" << v.index << ",\"key\":\""
        << esc(v.key) << "\",\"msg\":\"" << esc(v.msg) << "\"}";
      first = false;
    }
    o << "]}\n";
    if (!out.empty()) {
      FILE* f = fopen(out.c_str(), "w");
      if (f) {
        fputs(o.str().c_str(), f);
        fclose(f);
      }
      f = fopen((out + ".sig").c_str(), "wb");
      if (f) {
        for (uint64_t s : nontrivial) fwrite(&s, 8, 1, f);
        fclose(f);
      }
    } else
      std::cout << o.str();
    return 0;
  }
};

inline void Case::count(const std::string& name, int64_t n) { m.counters[name] += n; }
inline void Case::sample(const std::string& s) {
  auto& v = m.samples[group];
  if (v.size() < 2) v.push_back(s.substr(0, 400));
}
inline bool Case::check(bool ok, const std::string& key, const std::function<std::string()>& msg) {
  if (ok) return true;
  m.add(*this, key, msg());
  throw Failed();
}

template <typename V>
std::string show(const V& v) {
  std::ostringstream o;
  o.precision(17);
  o << "[";
  bool f = true;
  for (const auto& x : v) {
    o << (f ? "" : ", ") << x;
    f = false;
  }
  o << "]";
  return o.str();
}

template <typename... T>
std::string str(const T&... t) {
  std::ostringstream o;
  o.precision(17);
  using expand = int[];
  (void)expand{0, ((void)(o << t), 0)...};
  return o.str();
}

}  // namespace mon
