// Stand-in for swift-nav's ThreadPool fork (an empty git submodule here): a trusted dependency,
// "the future yields f(args...) once the task has run".
// Default: enqueue() runs the task on the calling thread (what the verifier reads; contracts_async.py replaces it).
// VP_THREADS (replays): real workers which pick pending tasks in random order.
#pragma once
#include <cstddef>
#include <future>
#include <functional>
#include <type_traits>
#ifdef VP_THREADS
#include <condition_variable>
#include <memory>
#include <mutex>
#include <thread>
#include <tuple>
#include <vector>
class ThreadPool {
  std::vector<std::thread> workers_;
  std::vector<std::function<void()>> pending_;
  std::mutex m_;
  std::condition_variable cv_;
  bool stop_ = false;
  unsigned long long seed_ = 88172645463325252ull;
  void work() {
    for (;;) {
      std::function<void()> t;
      {
        std::unique_lock<std::mutex> l(m_);
        cv_.wait(l, [this] { return stop_ || !pending_.empty(); });
        if (pending_.empty()) return;
        seed_ ^= seed_ << 13; seed_ ^= seed_ >> 7; seed_ ^= seed_ << 17;
        std::size_t i = std::size_t(seed_ >> 20) % pending_.size();
        t = std::move(pending_[i]); pending_.erase(pending_.begin() + long(i));
        if (!(seed_ & 7)) { l.unlock(); std::this_thread::yield(); }
      }
      t();
    }
  }
public:
  explicit ThreadPool(std::size_t n) { for (std::size_t i = 0; i < n; ++i) workers_.emplace_back([this] { work(); }); }
  template <class Init> ThreadPool(std::size_t n, Init, std::size_t) : ThreadPool(n) {}
  ~ThreadPool() { { std::lock_guard<std::mutex> l(m_); stop_ = true; } cv_.notify_all(); for (auto &w : workers_) w.join(); }
  std::size_t thread_count() const { return workers_.size(); }
  template <class F, class... A> auto enqueue(F &&f, A &&...a) {
    using R = std::invoke_result_t<std::decay_t<F> &, std::decay_t<A> &...>;
    auto t = std::make_shared<std::packaged_task<R()>>([f = std::decay_t<F>(f), args = std::tuple<std::decay_t<A>...>(std::forward<A>(a)...)]() mutable { return std::apply(f, args); });
    auto r = t->get_future();
    { std::lock_guard<std::mutex> l(m_); pending_.push_back([t] { (*t)(); }); }
    cv_.notify_one();
    return r;
  }
};
#else
class ThreadPool {
  std::size_t n_;
public:
  explicit ThreadPool(std::size_t n) : n_(n) {}
  template <class Init> ThreadPool(std::size_t n, Init, std::size_t) : n_(n) {}
  std::size_t thread_count() const { return n_; }
  template <class F, class... A> auto enqueue(F &&f, A &&...a) {
    using R = std::invoke_result_t<std::decay_t<F> &, std::decay_t<A> &...>;
    std::promise<R> p;
    if constexpr (std::is_void_v<R>) { f(a...); p.set_value(); }
    else { p.set_value(f(a...)); }
    return p.get_future();
  }
};
#endif
