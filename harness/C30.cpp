// MON-variants: asan asan-debugstl
// MON-libs: timing
// MON-rule: histories of 5-60 starts, records, value records, direct additions, resets, re-initialisations, queries, printed and written summaries and dumps over up to six names (padded, long, percent signs, empty), including never-used names, empty profilers and files that cannot be opened; every stored list is compared with a model after every operation; distinct by operation sequence
#include <algorithm>
#include <chrono>
#include <cstdint>
#include <limits>
#include <stdexcept>
#include <string>
#include <vector>
#include "arc_utilities/timing.hpp"
#include <fcntl.h>
#include <fstream>
#include <map>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>
#include "mon.hpp"
using namespace mon;
using arc_utilities::Profiler;
typedef std::chrono::steady_clock Clock;
static double since(Clock::time_point a, Clock::time_point b) { return std::chrono::duration<double>(b - a).count(); }

static std::string scratch(const std::string& f) {
  const char* d = getenv("MON_SCRATCH");
  return std::string(d ? d : "/tmp") + "/" + f;
}
static std::string slurp(const std::string& p) {
  std::ifstream f(p, std::ios::binary);
  std::ostringstream o;
  o << f.rdbuf();
  return o.str();
}
// Everything printed on standard output while f runs.
template <typename F>
static std::string printed(F f) {
  const std::string p = scratch("out.txt");
  std::cout.flush();
  fflush(stdout);
  const int save = dup(1), fd = open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
  dup2(fd, 1);
  close(fd);
  f();
  std::cout.flush();
  fflush(stdout);
  dup2(save, 1);
  close(save);
  return slurp(p);
}
static std::vector<std::string> lines(const std::string& s) {
  std::vector<std::string> v;
  std::istringstream i(s);
  for (std::string l; std::getline(i, l);) v.push_back(l);
  return v;
}
// The numbers after the name on a line, or nothing if the line is not about that name.
static bool about(const std::string& line, const std::string& name, std::vector<double>& nums) {
  nums.clear();
  if (line.compare(0, name.size(), name) != 0 || line.size() <= name.size() || line[name.size()] != ' ') return false;
  std::istringstream i(line.substr(name.size()));
  for (std::string t; i >> t;) {
    char* e;
    nums.push_back(strtod(t.c_str(), &e));
    if (*e) return false;
  }
  return !nums.empty();
}
struct Model {
  std::map<std::string, std::vector<double>> data;
  std::map<std::string, std::vector<std::pair<double, double>>> timed;
  std::map<std::string, std::pair<Clock::time_point, Clock::time_point>> timers;
};
static double sum(const std::vector<double>& v) {
  long double s = 0;
  for (double x : v) s += x;
  return (double)s;
}
static double mag(const std::vector<double>& v) {
  double s = 1e-6;
  for (double x : v) s += std::fabs(x);
  return s;
}
static std::vector<double> part(const std::vector<std::pair<double, double>>& v, bool second) {
  std::vector<double> o;
  for (auto& p : v) o.push_back(second ? p.second : p.first);
  return o;
}
// One summary line per listed name, in order, with the model's totals.
static void summary(Case& c, const Model& md, const std::vector<std::string>& names, const std::string& text, bool file, const std::string& what) {
  const std::vector<std::string> ls = lines(text);
  size_t at = 0;
  while (at < ls.size() && ls[at].compare(0, 5, "Label") != 0) at++;
  c.check(at < ls.size(), "a summary has no heading", what);
  at++;
  for (const std::string& n : names) {
    if (n.compare(0, 5, "~~~~~") == 0) {
      c.check(at < ls.size() && ls[at].find("~~~") == 0, "a summary lacks a separator", what);
      at++;
      continue;
    }
    std::vector<double> nums;
    while (at < ls.size() && ls[at].find("Warning") != std::string::npos) at++;
    c.check(at < ls.size() && about(ls[at], n, nums), "a summary does not list a name", [&] { return what + " of " + n + ": " + (at < ls.size() ? ls[at] : "end"); });
    at++;
    const auto d = md.data.find(n);
    const auto t = md.timed.find(n);
    std::vector<double> want;
    std::vector<double> a;
    double tol = 1e-6;
    if (d != md.data.end()) a = d->second;
    else if (file && t != md.timed.end()) a = part(t->second, false);
    want = {sum(a), (double)a.size(), a.empty() ? 0.0 : sum(a) / (double)a.size()};
    tol += 1e-9 * mag(a);
    if (file && d == md.data.end() && t != md.timed.end()) {
      const std::vector<double> v = part(t->second, true);
      want.push_back(sum(v));
      want.push_back(v.empty() ? 0.0 : sum(v) / (double)v.size());
      tol += 1e-9 * mag(v);
    }
    bool ok = nums.size() >= want.size();
    for (size_t i = 0; ok && i < want.size(); i++) ok = std::fabs(nums[i] - want[i]) <= tol;
    c.check(ok && (nums.size() == want.size() || (d != md.data.end() && t != md.timed.end())), "a summary's figures are not those of the recordings", [&] { return what + " of " + n + ": " + show(nums) + ", not " + show(want); });
    c.count("summary lines checked");
  }
}
static std::vector<std::string> allnames(const Model& md) {
  std::vector<std::string> v;
  for (auto& p : md.data) v.push_back(p.first);
  for (auto& p : md.timed) v.push_back(p.first);
  std::sort(v.begin(), v.end());
  v.erase(std::unique(v.begin(), v.end()), v.end());
  return v;
}
int main(int argc, char** argv) {
  Monitor m(argc, argv);
  m.group("history", 1500, 25000, [](Case& c) {
    PROFILE_REINITIALIZE(c.rng.below(4), c.rng.below(10));
    static uint64_t unique = 0;
    const std::string id = "_" + std::to_string(unique++);
    std::vector<std::string> pool{"a" + id, "a" + id + "b", "do stuff" + id, "100%s %n %d" + id, std::string(60, 'x') + id, "Zed" + id};
    pool.resize(1 + c.rng.below(pool.size()));
    if (c.rng.chance(0.1)) pool.push_back("");
    auto pick = [&]() -> const std::string& { return pool[c.rng.below(pool.size())]; };
    auto number = [&] { return c.rng.chance(0.1) ? 0.0 : c.rng.chance(0.1) ? c.rng.real(-1e12, 1e12) : c.rng.chance(0.3) ? (double)c.rng.range(-5, 5) : c.rng.real(-10, 10); };
    Model md;
    std::string log;
    const int steps = (int)c.rng.range(5, 60);
    const std::string file = scratch("p.txt");
    unlink(file.c_str());
    std::string kept;
    for (int s = 0; s < steps; s++) {
      const int op = (int)c.rng.below(16);
      const std::string n = pick();
      c.note((double)op), c.note((uint64_t)n.size());
      const bool started = md.timers.count(n) != 0;
      auto elapsed = [&](double got, Clock::time_point r0, Clock::time_point r1) {
        const auto& t = md.timers[n];
        c.check(got >= since(t.second, r0) && got <= since(t.first, r1), "a recorded time is not the time since the timer was started", [&] { return str(got) + " outside " + str(since(t.second, r0)) + " to " + str(since(t.first, r1)) + log; });
        c.count("times checked against the clock");
      };
      if (op <= 2) {
        if (n.empty()) continue;
        const Clock::time_point a = Clock::now();
        PROFILE_START(n);
        md.timers[n] = {a, Clock::now()};
        log += " start";
        c.count(started ? "timers restarted" : "timers started");
      } else if (op <= 5) {
        if (n.empty()) continue;
        double got = 0;
        bool threw = false;
        const Clock::time_point a = Clock::now();
        try {
          got = PROFILE_RECORD(n);
        } catch (const std::logic_error&) {
          threw = true;
        }
        const Clock::time_point b = Clock::now();
        c.check(threw == !started, started ? "a running timer cannot be recorded" : "a timer that was never started is recorded", log);
        if (started) {
          elapsed(got, a, b);
          md.data[n].push_back(got);
          c.count("times recorded");
        }
        log += " record";
      } else if (op <= 7) {
        const double v = number();
        const Clock::time_point a = Clock::now();
        const double got = PROFILE_RECORD_DOUBLE(n, v);
        if (started) elapsed(got, a, Clock::now());
        else c.check(got == 0, "a value recorded without a timer has a time", str(got));
        md.timed[n].emplace_back(got, v);
        log += " value";
        c.count("values recorded");
      } else if (op == 8 && c.index % 40 == 2 && s < 20) {  // many at once
        const int k = (int)c.rng.range(130, c.index % 400 == 2 ? 70000 : 400);
        for (int i = 0; i < k; i++) {
          const double v = c.rng.real(-10, 10);
          Profiler::addData(n, v);
          md.data[n].push_back(v);
        }
        log += " burst";
        c.count("times added", k);
      } else if (op <= 9) {
        const double v = number();
        Profiler::addData(n, v);
        md.data[n].push_back(v);
        log += " add";
        c.count("times added");
      } else if (op == 10) {
        if (n.empty()) continue;
        const Clock::time_point a = Clock::now();
        PROFILE_RESET(n);
        if (md.data.count(n) || md.timed.count(n)) md.timers[n] = {a, Clock::now()};
        if (md.data.count(n)) md.data[n].clear();
        if (md.timed.count(n)) md.timed[n].clear();
        log += " reset";
        c.count("resets");
      } else if (op == 11) {
        if (!c.rng.chance(0.3)) continue;
        PROFILE_REINITIALIZE(c.rng.below(5), c.rng.below(20));
        md.data.clear();
        md.timed.clear();
        log += " reinitialize";
        c.count("re-initialisations");
      } else if (op == 12) {
        const std::string q = c.rng.chance(0.3) ? "never" + id : n;
        const std::string out = printed([&] { PROFILE_PRINT_SUMMARY_FOR_SINGLE(q); });
        const std::vector<double> v = md.data.count(q) ? md.data[q] : std::vector<double>();
        double tot = 0, mn = 0, mx = 0, av = 0;
        long calls = 0;
        bool has[5] = {};
        for (const std::string& l : lines(out)) {
          has[0] |= sscanf(l.c_str(), "total time : %lf", &tot) == 1;
          has[1] |= sscanf(l.c_str(), "called %ld", &calls) == 1;
          has[2] |= sscanf(l.c_str(), "min time : %lf", &mn) == 1;
          has[3] |= sscanf(l.c_str(), "max time : %lf", &mx) == 1;
          has[4] |= sscanf(l.c_str(), "average : %lf", &av) == 1;
        }
        const double tol = 2e-5 * mag(v);
        if (v.empty())
          c.check(calls == 0 && tot == 0, "a name with no data has figures", out);
        else
          c.check(has[0] && has[1] && has[2] && has[3] && has[4] && calls == (long)v.size() && std::fabs(tot - sum(v)) <= tol && std::fabs(av - sum(v) / (double)v.size()) <= tol &&
                      std::fabs(mn - *std::min_element(v.begin(), v.end())) <= tol && std::fabs(mx - *std::max_element(v.begin(), v.end())) <= tol,
                  "a printed summary's figures are not those of the recordings", [&] { return out + show(v); });
        c.count(v.empty() ? "empty names printed" : "names printed");
      } else if (op == 13) {
        std::vector<std::string> ns;
        const int k = (int)c.rng.below(5);
        for (int i = 0; i < k; i++) ns.push_back(c.rng.chance(0.15) ? "~~~~~" : c.rng.chance(0.15) ? "never" + id : pick());
        const bool all = c.rng.chance(0.4);
        const std::string out = printed([&] {
          if (all) PROFILE_PRINT_SUMMARY_FOR_ALL();
          else PROFILE_PRINT_SUMMARY_FOR_GROUP(ns);
        });
        if (all) ns = allnames(md);
        summary(c, md, ns, out, false, "the printed summary");
        if (all) c.check(lines(out).size() == 4 + ns.size(), "the printed summary of everything lists something else", out);
        c.count(ns.empty() ? "summaries of nothing" : "summaries printed");
      } else if (op == 14) {
        std::vector<std::string> ns;
        const int k = (int)c.rng.below(5);
        for (int i = 0; i < k; i++) ns.push_back(c.rng.chance(0.15) ? "~~~~~" : c.rng.chance(0.15) ? "never" + id : pick());
        const bool all = c.rng.chance(0.4);
        printed([&] {
          if (all) PROFILE_WRITE_SUMMARY_FOR_ALL(file);
          else PROFILE_WRITE_SUMMARY_FOR_GROUP(file, ns);
        });
        if (all) ns = allnames(md);
        const std::string now = slurp(file);
        c.check(now.compare(0, kept.size(), kept) == 0 && now.size() > kept.size(), "a summary is not added at the end of the file", "");
        summary(c, md, ns, now.substr(kept.size()), true, "the written summary");
        kept = now;
        c.count("summaries written");
      } else {
        const bool limited = c.rng.chance(0.4);
        const size_t limit = c.rng.below(6);
        const bool unopenable = c.rng.chance(0.2);
        const std::string to = unopenable ? scratch("no/such/dir/p.txt") : file;
        const auto quiet = std::cerr.rdbuf(nullptr);
        const int what = unopenable ? (int)c.rng.below(3) : 0;
        try {
          printed([&] {
            if (what == 1) PROFILE_WRITE_SUMMARY_FOR_ALL(to);
            else if (what == 2) PROFILE_WRITE_SUMMARY_FOR_GROUP(to, pool);
            else if (limited) PROFILE_WRITE_ALL_FEWER_THAN(to, limit);
            else PROFILE_WRITE_ALL(to);
          });
        } catch (...) {
          std::cerr.rdbuf(quiet);
          std::cerr.clear();
          throw;
        }
        std::cerr.rdbuf(quiet);
        std::cerr.clear();
        if (unopenable) {
          c.count("unopenable files survived");
        } else {
          const std::string now = slurp(file);
          c.check(now.compare(0, kept.size(), kept) == 0 && now.size() > kept.size(), "a dump is not added at the end of the file", "");
          const std::vector<std::string> ls = lines(now.substr(kept.size()));
          kept = now;
          size_t at = 0;
          while (at < ls.size() && ls[at].compare(0, 3, "~~~") != 0) at++;
          c.check(at < ls.size(), "a dump has no heading", "");
          std::map<std::string, std::vector<std::vector<double>>> got, want;
          size_t rows = 0;
          for (at++; at < ls.size(); at++) {
            if (ls[at].find_first_not_of(' ') == std::string::npos) continue;
            rows++;
            std::vector<double> nums;
            for (const std::string& q : allnames(md))
              if (about(ls[at], q, nums)) {
                got[q].push_back(nums);
                break;
              }
          }
          size_t expect = 0;
          for (const std::string& q : allnames(md)) {
            if (md.data.count(q) && (!limited || md.data[q].size() < limit))
              for (double v : md.data[q]) want[q].push_back({v});
            if (md.timed.count(q) && (!limited || md.timed[q].size() < limit))
              for (auto& v : md.timed[q]) want[q].push_back({v.first, v.second});
            expect += want[q].size();
            bool ok = got[q].size() == want[q].size();
            for (size_t i = 0; ok && i < want[q].size(); i++) {
              ok = got[q][i].size() == want[q][i].size();
              for (size_t j = 0; ok && j < want[q][i].size(); j++) ok = std::fabs(got[q][i][j] - want[q][i][j]) <= 1e-6 + 1e-12 * std::fabs(want[q][i][j]);
            }
            c.check(ok, "a dump does not hold every recording once, in order", [&] { return q + ": " + str(got[q].size()) + " rows for " + str(want[q].size()) + " recordings;" + log; });
          }
          c.check(rows == expect, "a dump holds something that was not recorded", str(rows) + " rows, " + str(expect) + " recordings");
          c.count("dumps checked");
        }
      }
      for (const std::string& q : pool) {
        const std::vector<double> v = Profiler::getData(q);
        c.check(v == (md.data.count(q) ? md.data[q] : std::vector<double>()), "a name does not hold exactly its recordings, in order", [&] { return q + " holds " + str(v.size()) + ";" + log; });
      }
      c.check(Profiler::getData("unknown" + id).empty(), "an unknown name has recordings", log);
    }
    c.nontrivial(!md.data.empty());
    c.sample(log);
  });
  m.group("stopwatch", 800, 8000, [](Case& c) {
    const bool global = c.rng.chance(0.4);
    Clock::time_point s0 = Clock::now();
    arc_utilities::Stopwatch w;
    if (global) arc_utilities::GlobalStopwatch(arc_utilities::RESET);
    Clock::time_point s1 = Clock::now();
    const int n = (int)c.rng.range(2, 20);
    double last = 0;
    for (int i = 0; i < n; i++) {
      if (c.rng.chance(0.2)) std::this_thread::sleep_for(std::chrono::microseconds(c.rng.below(200)));
      const bool reset = c.rng.chance(0.3);
      const Clock::time_point a = Clock::now();
      const double t = reset ? (global ? arc_utilities::GlobalStopwatch(arc_utilities::RESET) : w(arc_utilities::RESET)) : (global ? arc_utilities::GlobalStopwatch() : w());
      const Clock::time_point b = Clock::now();
      if (!reset) c.check(t >= since(s1, a) && t <= since(s0, b) && t >= last, "a stopwatch does not tell the time since it was reset", [&] { return str(t) + " outside " + str(since(s1, a)) + " to " + str(since(s0, b)); });
      last = reset ? 0 : t;  // what a reset returns is nobody's promise
      if (reset) s0 = a, s1 = b;
      c.note((double)reset);
      c.count(reset ? "resets" : "readings");
    }
    c.nontrivial(true);
  });
  return m.finish();
}
