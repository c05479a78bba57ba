#pragma once
#include "ros/callback_queue.h"
namespace ros {
class AsyncSpinner {
  struct Impl {
    uint32_t n;
    CallbackQueue* q;
    std::atomic<bool> go{false};
    std::vector<std::thread> t;
    std::mutex m;
    ~Impl() { stop(); }
    void start() {
      std::lock_guard<std::mutex> l(m);
      if (go) return;
      go = true;
      for (uint32_t i = 0; i < n; i++) t.emplace_back([this] { while (go && ros::ok()) q->callAvailable(WallDuration(0.01)); });
    }
    void stop() {
      std::lock_guard<std::mutex> l(m);
      if (!go) return;
      go = false;
      for (auto& x : t) x.join();
      t.clear();
    }
  };
  std::shared_ptr<Impl> impl_;

 public:
  explicit AsyncSpinner(uint32_t n) : AsyncSpinner(n, getGlobalCallbackQueue()) {}
  AsyncSpinner(uint32_t n, CallbackQueue* q) : impl_(std::make_shared<Impl>()) { impl_->n = n ? n : 1; impl_->q = q; }
  void start() { impl_->start(); }
  void stop() { impl_->stop(); }
};
}
