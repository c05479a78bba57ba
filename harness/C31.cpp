// MON-variants: tsan asan
// MON-link: -lboost_filesystem -pthread
// MON-rule: 2-8 threads sharing one log, some logging through copies made while others log, message sizes from empty to several stream buffers, random yields and pauses; single-threaded histories of copies, moves and assignments over up to three files; distinct by the order in which threads reached the file, or by history
#include <string>
#include "arc_utilities/log.hpp"
#include <algorithm>
#include <atomic>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>
#include <vector>
#include "mon.hpp"
using namespace mon;
typedef Log::Log L;

struct Quiet {
  std::ostringstream a, b;
  std::streambuf *oa, *ob;
  Quiet() : oa(std::cout.rdbuf(a.rdbuf())), ob(std::cerr.rdbuf(b.rdbuf())) {}
  ~Quiet() {
    std::cout.rdbuf(oa);
    std::cerr.rdbuf(ob);
  }
};
static std::string scratch(const std::string& f) {
  const char* d = getenv("MON_SCRATCH");
  return std::string(d ? d : "/tmp") + "/" + f;
}
static std::vector<std::string> lines(const std::string& p) {
  std::vector<std::string> v;
  std::ifstream f(p, std::ios::binary);
  for (std::string l; std::getline(f, l);) v.push_back(l);
  return v;
}
static std::string slurp(const std::string& p) {
  std::ifstream f(p, std::ios::binary);
  std::ostringstream o;
  o << f.rdbuf();
  return o.str();
}
// A line that says who wrote it, in which place, and what must follow.
static std::string message(int who, int i, size_t len) {
  std::string s = std::to_string(who) + ":" + std::to_string(i) + ":" + std::to_string(len) + ":";
  s.reserve(s.size() + len);
  for (size_t k = 0; k < len; k++) s += (char)('a' + (k * 7 + (size_t)who * 3 + (size_t)i) % 26);
  return s;
}
static bool whole(const std::string& s, int& who, int& i) {
  size_t len;
  return sscanf(s.c_str(), "%d:%d:%zu:", &who, &i, &len) == 3 && s == message(who, i, len);
}
int main(int argc, char** argv) {
  Monitor m(argc, argv);
  m.group("threads", 120, 2500, [](Case& c) {
    Quiet q;
    const std::string file = scratch("log.txt");
    { std::ofstream(file) << "left from another time\n"; }
    const int threads = (int)c.rng.range(2, 8), each = (int)c.rng.range(1, 60);
    const bool big = c.rng.chance(0.4), copies = !big && c.rng.chance(0.6);
    std::vector<std::vector<std::string>> say(threads);
    std::vector<std::vector<int>> pause(threads);
    std::vector<bool> viacopy(threads);
    for (int t = 0; t < threads; t++) {
      viacopy[t] = copies && c.rng.chance(0.5);
      for (int i = 0; i < each; i++) {
        say[t].push_back(message(t, i, big && c.rng.chance(0.2) ? c.rng.below(40000) : c.rng.below(200)));
        pause[t].push_back((int)c.rng.below(12));
      }
    }
    {
      L log(file);
      std::atomic<int> ready(0);
      std::vector<std::thread> ts;
      for (int t = 0; t < threads; t++)
        ts.emplace_back([&, t] {
          ready++;
          while (ready < threads) std::this_thread::yield();
          std::unique_ptr<L> own;
          if (viacopy[t]) own.reset(new L(log));
          L& to = own ? *own : log;
          for (int i = 0; i < each; i++) {
            if (pause[t][i] == 0) std::this_thread::sleep_for(std::chrono::microseconds(20));
            else if (pause[t][i] < 4) std::this_thread::yield();
            if (i % 3 == 2) {
              ARC_LOG(to, say[t][i]);
            } else {
              to.logMessage(say[t][i]);
            }
          }
        });
      for (std::thread& t : ts) t.join();
    }
    const std::vector<std::string> got = lines(file);
    std::vector<int> next(threads, 0);
    std::string order;
    size_t switches = 0;
    int last = -1;
    for (const std::string& l : got) {
      int who, i;
      c.check(whole(l, who, i) && who < threads, "a line is not a whole message", [&] { return l.substr(0, 120); });
      c.check(next[who] == i, i < next[who] ? "a message appears twice or late" : "a message is lost or early", [&] { return "thread " + str(who) + " message " + str(i) + " after " + str(next[who]); });
      next[who]++;
      switches += who != last;
      last = who;
      order += (char)('0' + who);
    }
    for (int t = 0; t < threads; t++) c.check(next[t] == each, "a message is lost", [&] { return "thread " + str(t) + " wrote " + str(each) + ", file has " + str(next[t]); });
    c.check(slurp(file).empty() || slurp(file).back() == '\n', "the last message is not complete", "");
    c.note(order);
    c.nontrivial(switches > (size_t)threads);
    c.count("messages found once and whole", got.size());
    c.count("changes of thread in the file", switches);
    c.count(copies ? "runs with copies" : big ? "runs with long messages" : "runs with one log");
    c.sample(order.substr(0, 60));
  });

  m.group("history", 400, 8000, [](Case& c) {
    Quiet q;
    struct H {
      std::unique_ptr<L> log;
      int file = -1;  // -1: moved from
      int id = 0;
    };
    std::vector<H> logs;
    std::map<int, std::vector<std::string>> want;  // by file
    int ids = 0, said = 0;
    std::string trace;
    auto name = [](int f) { return scratch(f == 2 ? "sub/dir/f2.txt" : "f" + std::to_string(f) + ".txt"); };
    for (int f = 0; f < 3; f++) unlink(name(f).c_str());
    auto open = [&](int f) {
      for (auto& h : logs)
        if (h.file == f) return;  // opening a file that is being logged to starts it afresh
      H h;
      h.log.reset(new L(name(f)));
      h.file = f;
      h.id = ids++;
      logs.push_back(std::move(h));
      want[f].clear();
    };
    open((int)c.rng.below(3));
    const int steps = (int)c.rng.range(5, 40);
    for (int s = 0; s < steps; s++) {
      const int op = (int)c.rng.below(10);
      const size_t i = c.rng.below(logs.size()), j = c.rng.below(logs.size());
      c.note((double)op), c.note((uint64_t)i), c.note((uint64_t)j);
      trace += " " + std::to_string(op) + "(" + std::to_string(i) + "," + std::to_string(j) + ")";
      if (op == 0) {
        open((int)c.rng.below(3));
      } else if (op == 1) {
        if (logs[i].file < 0) continue;
        H h;
        h.log.reset(new L(*logs[i].log));
        h.file = logs[i].file;
        h.id = ids++;
        logs.push_back(std::move(h));
        c.count("copies");
      } else if (op == 2) {
        if (logs[i].file < 0) continue;
        H h;
        h.log.reset(new L(std::move(*logs[i].log)));
        h.file = logs[i].file;
        h.id = ids++;
        logs[i].file = -1;
        logs.push_back(std::move(h));
        c.count("moves");
      } else if (op == 3) {
        if (logs[i].file < 0) continue;
        *logs[j].log = *logs[i].log;
        logs[j].file = logs[i].file;
        c.count(i == j ? "self-assignments" : "assignments");
      } else if (op == 4) {
        if (logs[i].file < 0 || i == j) continue;
        *logs[j].log = std::move(*logs[i].log);
        logs[j].file = logs[i].file;
        logs[i].file = -1;
        c.count("move assignments");
      } else if (op == 5) {
        if (logs.size() > 1) logs.erase(logs.begin() + (long)i);
        c.count("logs closed");
      } else {
        if (logs[i].file < 0) continue;
        const std::string msg = message(logs[i].id, said++, c.rng.chance(0.05) ? 20000 : c.rng.below(60));
        logs[i].log->logMessage(msg);
        want[logs[i].file].push_back(msg);
        c.count("messages logged");
      }
    }
    logs.clear();
    for (auto& w : want) {
      const std::vector<std::string> got = lines(name(w.first));
      std::multiset<std::string> a(got.begin(), got.end()), b(w.second.begin(), w.second.end());
      c.check(a == b, a.size() < b.size() ? "a message is lost" : "the file does not hold every message exactly once", [&] { return name(w.first) + " has " + str(got.size()) + " lines for " + str(w.second.size()) + " messages;" + trace; });
      std::map<int, int> last;
      for (const std::string& l : got) {
        int who, i;
        c.check(whole(l, who, i), "a line is not a whole message", l.substr(0, 100));
        c.check(!last.count(who) || last[who] < i, "messages of one log are out of order", trace);
        last[who] = i;
      }
      c.count("messages found once and whole", got.size());
    }
    c.nontrivial(said > 2);
    c.sample(trace);
  });

  m.group("opening", 300, 4000, [](Case& c) {
    Quiet q;
    const int kind = (int)c.rng.below(5);
    c.note((double)kind);
    c.note(c.rng.u64());
    c.nontrivial(kind > 0);
    static uint64_t k = 0;
    const std::string base = scratch("o" + std::to_string(k++));
    if (kind == 0) {  // nested folders are made
      std::string p = base;
      const int depth = (int)c.rng.range(1, 5);
      for (int i = 0; i < depth; i++) p += "/d" + std::to_string(i);
      {
        L l(p + "/f");
        ARC_LOG(l, "here");
      }
      c.check(slurp(p + "/f") == "here\n", "a log in a new folder is lost", p);
      c.count("folders made");
    } else if (kind == 1) {  // a name without a folder
      char here[4096];
      c.check(getcwd(here, sizeof here) != nullptr && chdir(scratch(".").c_str()) == 0, "harness", "chdir");
      std::string f = "bare" + std::to_string(k);
      std::string what;
      try {
        L l(f);
        ARC_LOG(l, "here");
      } catch (const std::exception& e) {
        what = e.what();
      }
      const std::string got = slurp(f);
      unlink(f.c_str());
      if (chdir(here)) return;
      c.check(what.empty() && got == "here\n", "a log in the current folder is lost", what);
      c.count("bare names");
    } else if (kind == 2) {  // impossible places are refused
      { std::ofstream(base) << "a file"; }
      mkdir((base + "d").c_str(), 0755);
      for (const std::string& p : {base + "/f", base + "d", base + "/x/y/z"}) {
        bool threw = false;
        try {
          L l(p);
        } catch (const std::exception&) {
          threw = true;
        }
        c.check(threw, "a log that cannot be written is opened", p);
      }
      c.check(slurp(base) == "a file", "opening an impossible log changes a file", base);
      c.count("impossible places refused");
    } else if (kind == 3) {  // heading and previous contents
      const bool heading = c.rng.chance(0.5);
      { std::ofstream(base) << "old\nold\n"; }
      {
        L l(base, heading);
        ARC_LOG(l, "x");
        L copy(l);
        ARC_LOG(copy, "y");
        ARC_LOG(l, "z");
      }
      const std::vector<std::string> ls = lines(base);
      int y, mo, d, h, mi, s;
      c.check(ls.size() == (heading ? 4u : 3u) && (!heading || sscanf(ls[0].c_str(), "%d-%d-%d %d:%d:%d", &y, &mo, &d, &h, &mi, &s) == 6), "a log's heading is wrong", slurp(base));
      const std::multiset<std::string> rest(ls.end() - 3, ls.end());
      c.check(rest == std::multiset<std::string>{"x", "y", "z"}, "a message is lost", slurp(base));
      c.count("headings");
    } else {  // what is written is what was streamed, at twelve digits
      std::vector<std::string> want;
      {
        L l(base);
        for (int i = 0; i < 6; i++) {
          const double v = c.rng.real(-1, 1) * std::pow(10.0, c.rng.real(-5, 14));
          const int n = (int)c.rng.range(-99, 99);
          std::ostringstream o;
          o << std::setprecision(12);
          switch (c.rng.below(4)) {
            case 0:
              ARC_LOG(l, v);
              o << v;
              break;
            case 1:
              ARC_LOG_STREAM(l, "v " << v << " n " << n);
              o << "v " << v << " n " << n;
              break;
            case 2:
              ARC_LOG_COND(l, n > 0, v);
              if (n <= 0) continue;
              o << v;
              break;
            default:
              ARC_LOG_COND_STREAM(l, n > 0, n << "," << v);
              if (n <= 0) continue;
              o << n << "," << v;
          }
          want.push_back(o.str());
        }
      }
      c.check(lines(base) == want, "what is written is not what was logged", [&] { return slurp(base); });
      c.count("formatted messages", want.size());
    }
    unlink(base.c_str());
    const std::string rm = base + "d";
    rmdir(rm.c_str());
  });
  return m.finish();
}
