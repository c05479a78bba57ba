#pragma once
#define BOOST_BIND_GLOBAL_PLACEHOLDERS
#include <boost/bind.hpp>
#include <boost/function.hpp>
#include <boost/shared_ptr.hpp>
#include <boost/make_shared.hpp>
#include <algorithm>
#include <cmath>
#include <map>
#include <string>
#include "ros/callback_queue.h"
#include "ros/console.h"
#include "ros/serialization.h"
#include "ros/spinner.h"
#include "ros/time.h"
namespace ros {
typedef boost::shared_ptr<void> VoidPtr;
// A topic delivers every published message to each subscriber's own bounded queue (the oldest is dropped), and one
// queue entry per message to the subscriber's callback queue.
struct SubscribeOptions {
  std::string topic;
  uint32_t size = 1;
  CallbackQueue* queue = nullptr;
  std::function<void(const boost::shared_ptr<void const>&)> call;
  template <class M>
  static SubscribeOptions create(const std::string& topic, uint32_t size, const boost::function<void(const boost::shared_ptr<M const>&)>& cb, const VoidPtr&, CallbackQueue* q) {
    SubscribeOptions o;
    o.topic = topic, o.size = size, o.queue = q;
    o.call = [cb](const boost::shared_ptr<void const>& m) { cb(boost::static_pointer_cast<M const>(m)); };
    return o;
  }
};
}
namespace ros_stub {
struct Subscription {
  ros::SubscribeOptions o;
  uint64_t id;
  std::mutex m;
  std::deque<boost::shared_ptr<void const>> waiting;
};
struct Topics {
  std::mutex m;
  uint64_t next = 1;
  std::vector<std::shared_ptr<Subscription>> subs;
};
inline Topics& topics() { static Topics t; return t; }
inline void publish(const std::string& topic, const boost::shared_ptr<void const>& msg) {
  std::lock_guard<std::mutex> l(topics().m);
  for (auto& s : topics().subs) {
    if (s->o.topic != topic) continue;
    bool full = false;
    {
      std::lock_guard<std::mutex> k(s->m);
      if (s->o.size && s->waiting.size() >= s->o.size) s->waiting.pop_front(), full = true;
      s->waiting.push_back(msg);
    }
    if (full) continue;
    std::weak_ptr<Subscription> w = s;
    s->o.queue->addCallback([w] {
      auto s = w.lock();
      if (!s) return;
      boost::shared_ptr<void const> m;
      {
        std::lock_guard<std::mutex> k(s->m);
        if (s->waiting.empty()) return;
        m = s->waiting.front();
        s->waiting.pop_front();
      }
      s->o.call(m);
    }, s->id);
  }
}
}
namespace ros {
class Subscriber {
  struct Impl {
    std::shared_ptr<ros_stub::Subscription> s;
    ~Impl() {
      {
        auto& t = ros_stub::topics();
        std::lock_guard<std::mutex> l(t.m);
        t.subs.erase(std::remove(t.subs.begin(), t.subs.end(), s), t.subs.end());
      }
      s->o.queue->removeByID(s->id);
    }
  };
  std::shared_ptr<Impl> impl_;

 public:
  Subscriber() {}
  explicit Subscriber(const SubscribeOptions& o) : impl_(std::make_shared<Impl>()) {
    impl_->s = std::make_shared<ros_stub::Subscription>();
    impl_->s->o = o;
    auto& t = ros_stub::topics();
    std::lock_guard<std::mutex> l(t.m);
    impl_->s->id = t.next++;
    t.subs.push_back(impl_->s);
  }
  void shutdown() { impl_.reset(); }
};
class Rate {
  double period_;

 public:
  explicit Rate(double hz) : period_(1.0 / hz) {}
  bool sleep() { std::this_thread::sleep_for(std::chrono::duration<double>(period_)); return true; }
};
}
namespace ros_stub {
// a parameter as the server holds it; getParam() converts between the numeric kinds as roscpp does
struct Param {
  enum Kind { Bool, Int, Double, String, List } kind = Int;
  bool b = false;
  int i = 0;
  double d = 0;
  std::string s;
  std::vector<Param> l;
  static Param of(bool v) { Param p; p.kind = Bool; p.b = v; return p; }
  static Param of(int v) { Param p; p.kind = Int; p.i = v; return p; }
  static Param of(double v) { Param p; p.kind = Double; p.d = v; return p; }
  static Param of(const std::string& v) { Param p; p.kind = String; p.s = v; return p; }
  template <typename T> static Param of(const std::vector<T>& v) { Param p; p.kind = List; for (T x : v) p.l.push_back(of(x)); return p; }
  bool get(bool& v) const { if (kind != Bool) return false; v = b; return true; }
  bool get(int& v) const {
    if (kind == Double) { v = (int)std::floor(d + 0.5); return true; }
    if (kind != Int) return false;
    v = i;
    return true;
  }
  bool get(double& v) const { if (kind == Int) { v = i; return true; } if (kind != Double) return false; v = d; return true; }
  bool get(float& v) const { double x; if (!get(x)) return false; v = (float)x; return true; }
  bool get(std::string& v) const { if (kind != String) return false; v = s; return true; }
  template <typename T> bool get(std::vector<T>& v) const {
    if (kind != List) return false;
    std::vector<T> r;
    for (auto& p : l) { T x; if (!p.get(x)) return false; r.push_back(x); }
    v = r;
    return true;
  }
};
}
namespace ros {
class NodeHandle {
  std::string ns_;
  std::shared_ptr<std::map<std::string, ros_stub::Param>> params_ = std::make_shared<std::map<std::string, ros_stub::Param>>();

 public:
  NodeHandle(const std::string& ns = "") : ns_(ns) {}
  const std::string& getNamespace() const { return ns_; }
  template <typename T> bool getParam(const std::string& k, T& v) const { auto it = params_->find(k); return it != params_->end() && it->second.get(v); }
  template <typename T> void setParam(const std::string& k, const T& v) const { (*params_)[k] = ros_stub::Param::of(v); }
  Subscriber subscribe(const SubscribeOptions& o) { return Subscriber(o); }
};
}

namespace ros {
namespace init_options { enum InitOption { NoSigintHandler = 1, AnonymousName = 2, NoRosout = 4 }; }
inline void init(int& argc, char** argv, const std::string& name, uint32_t options = 0) {
  ros_stub::node().push_back({"init", name, std::vector<std::string>(argv, argv + argc), options, -1});
}
}
