// MON-variants: tsan asan
// MON-flags: -I$ROOT/stubs/cpp
// MON-link: -pthread
// MON-rule: one publisher, one spinner and 1-4 reader threads per listener, with random yields and pauses, stop/start during traffic, waits for new messages, node shutdown during a wait, and destruction during traffic; distinct by the sequence of messages the readers saw
#include <functional>
#include <string>
#include <vector>
#include "ros/ros.h"
#include "arc_utilities/listener.hpp"
#include <atomic>
#include <thread>
#include "mon.hpp"
using namespace mon;

struct Msg {
  typedef boost::shared_ptr<Msg const> ConstPtr;
  std::string topic;
  uint64_t n;
  std::vector<uint64_t> body;  // n repeated: a torn or freed message shows
  Msg(const std::string& t, uint64_t k) : topic(t), n(k), body(8 + k % 5, k) {}
  bool whole() const {
    if (body.size() != 8 + n % 5) return false;
    for (auto b : body)
      if (b != n) return false;
    return true;
  }
};
static void pub(const std::string& t, uint64_t n) { ros_stub::publish(t, boost::shared_ptr<void const>(boost::make_shared<Msg>(t, n))); }
static void jitter(Rng& r) {
  switch (r.below(6)) {
    case 0: std::this_thread::yield(); break;
    case 1: std::this_thread::sleep_for(std::chrono::microseconds(r.below(200))); break;
    case 2: for (volatile int i = 0; i < (int)0 + 300; i = i + 1) {} break;
    default: break;
  }
}
struct Seen {
  std::vector<uint64_t> n;
  std::string bad;
};
static bool settle(Listener<Msg>& l, uint64_t want) {
  for (int i = 0; i < 3000; i++) {
    auto m = l.get();
    if (m && m->n == want) return true;
    std::this_thread::sleep_for(std::chrono::milliseconds(1));
  }
  return false;
}

int main(int argc, char** argv) {
  Monitor m(argc, argv);
  m.group("readers", 120, 3000, [](Case& c) {
    ros_stub::running() = true;
    const std::string topic = "t" + std::to_string(c.rng.below(3)), other = topic + "x";
    const int readers = 1 + (int)c.rng.below(4), total = 20 + (int)c.rng.below(150);
    const bool autostart = c.rng.chance(0.7), restart = c.rng.chance(0.4);
    ros::NodeHandle nh;
    Listener<Msg> l(nh, topic, autostart);
    Listener<Msg> l2(nh, other);
    c.check(!l.get(), "early", "a message before any was published");
    if (!autostart) {
      pub(topic, 1);
      std::this_thread::sleep_for(std::chrono::milliseconds(3));
      c.check(!l.get(), "early", "a message was handled before the listener was started");
      l.start();
    }
    std::vector<Seen> seen(readers);
    std::atomic<bool> done(false);
    std::atomic<uint64_t> published(1);
    std::vector<std::thread> ts;
    for (int k = 0; k < readers; k++)
      ts.emplace_back([&, k, s = c.rng.u64()] {
        Rng r(s);
        uint64_t last = 0;
        bool any = false;
        while (!done) {
          const uint64_t upper_before = published.load();
          (void)upper_before;
          auto p = l.get();
          const uint64_t upper = published.load();
          if (!p) {
            if (any) seen[k].bad = "nothing after message " + std::to_string(last);
          } else {
            any = true;
            if (!p->whole()) seen[k].bad = "torn message";
            if (p->topic != topic) seen[k].bad = "message of topic " + p->topic;
            if (p->n < last) seen[k].bad = "message " + std::to_string(p->n) + " after " + std::to_string(last);
            if (p->n > upper) seen[k].bad = "message " + std::to_string(p->n) + " before it was published";
            if (p->n != last) seen[k].n.push_back(p->n);
            last = p->n;
          }
          jitter(r);
        }
      });
    Rng pr(c.rng.u64());
    const int at = (int)pr.below(total);
    for (int i = 2; i < total; i++) {
      published = i;
      pub(topic, i);
      if (pr.chance(0.3)) pub(other, i);
      if (restart && i == at) {
        l.stop();
        jitter(pr);
        l.start();
      }
      jitter(pr);
    }
    published = total;
    pub(topic, total);
    pub(other, total);
    const bool ok = settle(l, total), ok2 = settle(l2, total);
    done = true;
    for (auto& t : ts) t.join();
    std::string tr;
    size_t n = 0;
    for (auto& s : seen) {
      for (auto x : s.n) tr += std::to_string(x) + ",";
      tr += ";";
      n += s.n.size();
      c.check(s.bad.empty(), "read", "a reader of " + std::to_string(readers) + " got " + s.bad);
    }
    c.check(ok, "latest", "the last of " + std::to_string(total) + " messages never became the current one" + (restart ? " (restarted on the way)" : ""));
    c.check(ok2 && l2.get()->topic == other, "latest", "the other listener did not see its last message");
    c.note(tr);
    c.nontrivial(n > (size_t)readers);
    c.count("distinct messages read", n);
    c.count("messages published", total);
  });
  m.group("wait", 60, 1500, [](Case& c) {
    ros_stub::running() = true;
    const std::string topic = "w";
    ros::NodeHandle nh;
    Listener<Msg> l(nh, topic);
    std::atomic<uint64_t> next(1);
    std::atomic<bool> stop(false);
    std::thread p([&, s = c.rng.u64()] {
      Rng r(s);
      while (!stop) {
        const uint64_t n = next.load();
        pub(topic, n);
        next = n + 1;
        std::this_thread::sleep_for(std::chrono::microseconds(100 + r.below(3000)));
      }
    });
    std::string tr, bad;
    uint64_t last = 0;
    for (int i = 0; i < 8; i++) {
      // whatever is current now was delivered before the wait; the wait must not hand it out again
      auto cur = l.get();
      const uint64_t floor = cur ? cur->n : 0;
      auto m2 = l.waitForNew(c.rng.real(300, 5000));
      if (!m2) {
        bad = "nothing";
        break;
      }
      if (m2->n <= floor || m2->n <= last) bad = "message " + std::to_string(m2->n) + " although " + std::to_string(std::max(floor, last)) + " was current before";
      if (!m2->whole() || m2->n >= next.load() + 1) bad = "a torn or unpublished message";
      last = m2->n;
      tr += std::to_string(m2->n) + ",";
      jitter(c.rng);
    }
    stop = true;
    p.join();
    c.check(bad.empty(), "wait", "waiting returned " + bad);
    c.note(tr);
    c.nontrivial(true);
    c.count("waits", 8);
    // no traffic: only the shutdown of the node ends the wait
    std::this_thread::sleep_for(std::chrono::milliseconds(15));
    std::atomic<int> out(0);
    std::thread w([&] {
      try {
        l.waitForNew(500);
        out = 1;
      } catch (const std::runtime_error&) {
        out = 2;
      }
    });
    std::this_thread::sleep_for(std::chrono::milliseconds(15));
    const int before = out;
    ros::shutdown();
    w.join();
    ros_stub::running() = true;
    c.check(before == 0 && out == 2, "shutdown", "a wait without messages " + std::string(before ? "returned before the node shut down" : "did not fail when the node shut down"));
  });
  m.group("destroy", 200, 5000, [](Case& c) {
    ros_stub::running() = true;
    const std::string topic = "d";
    std::atomic<bool> stop(false);
    std::atomic<uint64_t> n(0);
    std::thread p([&, s = c.rng.u64()] {
      Rng r(s);
      while (!stop) {
        pub(topic, ++n);
        if (r.chance(0.2)) jitter(r);
      }
    });
    uint64_t got = 0;
    for (int i = 0; i < 6; i++) {
      ros::NodeHandle nh;
      Listener<Msg> l(nh, topic);
      for (int j = 0, k = (int)c.rng.below(6); j < k; j++) {
        auto x = l.get();
        if (x) {
          got = x->n;
          c.check(x->whole() && x->topic == topic, "read", "torn message");
        }
        jitter(c.rng);
      }
      if (c.rng.chance(0.5)) std::this_thread::sleep_for(std::chrono::microseconds(c.rng.below(800)));
      if (c.rng.chance(0.2)) l.stop();
    }
    stop = true;
    p.join();
    c.note((double)got);
    c.nontrivial(got > 0);
    c.count("listeners destroyed during traffic", 6);
  });
  return m.finish();
}
