#pragma once
#include <atomic>
#include <condition_variable>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <shared_mutex>
#include <thread>
#include <vector>
#include "ros/time.h"
namespace ros {
// Ownership and blocking as in roscpp: callbacks carry their owner's id; removeByID() waits for a callback of that
// owner that is being run and drops the waiting ones.
class CallbackQueue {
  struct Info { std::shared_timed_mutex calling; };
  struct Item { uint64_t id; std::shared_ptr<Info> info; std::function<void()> f; };
  std::mutex m_;
  std::condition_variable cv_;
  std::deque<Item> items_;
  std::map<uint64_t, std::shared_ptr<Info>> infos_;

 public:
  void addCallback(std::function<void()> f, uint64_t id) {
    std::lock_guard<std::mutex> l(m_);
    auto& i = infos_[id];
    if (!i) i = std::make_shared<Info>();
    items_.push_back(Item{id, i, f});
    cv_.notify_one();
  }
  void removeByID(uint64_t id) {
    std::shared_ptr<Info> info;
    {
      std::lock_guard<std::mutex> l(m_);
      auto it = infos_.find(id);
      if (it == infos_.end()) return;
      info = it->second;
    }
    std::unique_lock<std::shared_timed_mutex> run(info->calling);
    std::lock_guard<std::mutex> l(m_);
    for (auto it = items_.begin(); it != items_.end();) it = it->id == id ? items_.erase(it) : it + 1;
    infos_.erase(id);
  }
  void callAvailable(WallDuration timeout = WallDuration(0)) {
    std::deque<Item> mine;
    {
      std::unique_lock<std::mutex> l(m_);
      if (items_.empty()) cv_.wait_for(l, std::chrono::duration<double>(timeout.s));
      mine.swap(items_);
    }
    for (auto& i : mine) {
      std::shared_lock<std::shared_timed_mutex> run(i.info->calling);
      {
        std::lock_guard<std::mutex> l(m_);
        auto it = infos_.find(i.id);
        if (it == infos_.end() || it->second != i.info) continue;
      }
      i.f();
    }
  }
};
inline CallbackQueue* getGlobalCallbackQueue() { static CallbackQueue q; return &q; }
}
namespace ros_stub {
inline std::atomic<bool>& running() { static std::atomic<bool> r(true); return r; }
inline std::atomic<int>& shutdowns() { static std::atomic<int> n(0); return n; }
}
namespace ros {
inline bool ok() { return ros_stub::running().load(); }
inline void shutdown() { ros_stub::shutdowns()++, ros_stub::running() = false; }
}
