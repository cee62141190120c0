// Included first by every driver. With VS_CONTROLLED the standard threading vocabulary used by the code
// under test is replaced by wrappers which perform the very same operation on the real std object and
// additionally are scheduling points of the controlled scheduler (vsched.h).
#pragma once
#include <algorithm>
#include <any>
#include <array>
#include <atomic>
#include <barrier>
#include <bit>
#include <cassert>
#include <chrono>
#include <climits>
#include <concepts>
#include <condition_variable>
#include <coroutine>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <forward_list>
#include <functional>
#include <future>
#include <iostream>
#include <iterator>
#include <latch>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <memory_resource>
#include <mutex>
#include <new>
#include <numeric>
#include <optional>
#include <queue>
#include <ranges>
#include <semaphore>
#include <set>
#include <shared_mutex>
#include <span>
#include <sstream>
#include <stack>
#include <stdexcept>
#include <stop_token>
#include <string>
#include <string_view>
#include <system_error>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>

#include "vsched.h"

#ifdef VS_CONTROLLED

namespace std {

template <typename T>
struct verif_atomic {
  std::atomic<T> a_;
  using value_type = T;
  static constexpr bool is_always_lock_free = std::atomic<T>::is_always_lock_free;

  constexpr verif_atomic() noexcept(std::is_nothrow_default_constructible_v<T>) : a_() {}
  constexpr verif_atomic(T v) noexcept : a_(v) {}
  verif_atomic(const verif_atomic&) = delete;
  verif_atomic& operator=(const verif_atomic&) = delete;

  struct pt {
    const void* p;
    explicit pt(const void* p) noexcept : p(p) { vs::point(vs::K_ATOMIC, p); }
    ~pt() { vs::point(vs::K_ATOMIC, p); }
  };
  bool is_lock_free() const noexcept { return a_.is_lock_free(); }
  T load(std::memory_order o = std::memory_order_seq_cst) const noexcept { pt _(this); return a_.load(o); }
  void store(T v, std::memory_order o = std::memory_order_seq_cst) noexcept { pt _(this); a_.store(v, o); }
  T exchange(T v, std::memory_order o = std::memory_order_seq_cst) noexcept { pt _(this); return a_.exchange(v, o); }
  bool compare_exchange_weak(T& e, T v, std::memory_order s, std::memory_order f) noexcept {
    pt _(this);
    if (vs::spurious()) {
      T x = a_.load(f);
      e = x;
      return false;
    }
    return a_.compare_exchange_strong(e, v, s, f);
  }
  bool compare_exchange_weak(T& e, T v, std::memory_order s = std::memory_order_seq_cst) noexcept {
    pt _(this);
    if (vs::spurious()) {
      T x = a_.load(s == std::memory_order_acq_rel ? std::memory_order_acquire
                    : s == std::memory_order_release ? std::memory_order_relaxed : s);
      e = x;
      return false;
    }
    return a_.compare_exchange_strong(e, v, s);
  }
  bool compare_exchange_strong(T& e, T v, std::memory_order s, std::memory_order f) noexcept { pt _(this); return a_.compare_exchange_strong(e, v, s, f); }
  bool compare_exchange_strong(T& e, T v, std::memory_order s = std::memory_order_seq_cst) noexcept { pt _(this); return a_.compare_exchange_strong(e, v, s); }
  template <typename D> T fetch_add(D d, std::memory_order o = std::memory_order_seq_cst) noexcept { pt _(this); return a_.fetch_add(d, o); }
  template <typename D> T fetch_sub(D d, std::memory_order o = std::memory_order_seq_cst) noexcept { pt _(this); return a_.fetch_sub(d, o); }
  T fetch_and(T d, std::memory_order o = std::memory_order_seq_cst) noexcept { pt _(this); return a_.fetch_and(d, o); }
  T fetch_or(T d, std::memory_order o = std::memory_order_seq_cst) noexcept { pt _(this); return a_.fetch_or(d, o); }
  T fetch_xor(T d, std::memory_order o = std::memory_order_seq_cst) noexcept { pt _(this); return a_.fetch_xor(d, o); }
  operator T() const noexcept { return load(); }
  T operator=(T v) noexcept { store(v); return v; }
  T operator++() noexcept { return fetch_add(1) + 1; }
  T operator++(int) noexcept { return fetch_add(1); }
  T operator--() noexcept { return fetch_sub(1) - 1; }
  T operator--(int) noexcept { return fetch_sub(1); }
  template <typename D> T operator+=(D d) noexcept { return fetch_add(d) + d; }
  template <typename D> T operator-=(D d) noexcept { return fetch_sub(d) - d; }

  void wait(T old, std::memory_order o = std::memory_order_seq_cst) const noexcept {
    if (!vs::active()) {
      a_.wait(old, o);
      return;
    }
    vs::point(vs::K_AWAIT, this);
    for (;;) {
      // same check std::atomic::wait does, with the given order
      if (std::bit_cast<std::array<char, sizeof(T)>>(a_.load(o)) != std::bit_cast<std::array<char, sizeof(T)>>(old))
        break;
      vs::block(vs::K_AWAIT, this);
    }
    vs::point(vs::K_AWAIT, this);
  }
  // only uses the address, like the real one
  void notify_one() noexcept {
    const void* p = this;
    if (!vs::active()) { a_.notify_one(); return; }
    vs::point(vs::K_ATOMIC, p);
    vs::wake(vs::K_AWAIT, p, 1);
    vs::point(vs::K_ATOMIC, p);
  }
  void notify_all() noexcept {
    const void* p = this;
    if (!vs::active()) { a_.notify_all(); return; }
    vs::point(vs::K_ATOMIC, p);
    vs::wake(vs::K_AWAIT, p, -1);
    vs::point(vs::K_ATOMIC, p);
  }
};

template <typename T>
struct verif_atomic_ref {
  std::atomic_ref<T> a_;
  const void* p_;
  explicit verif_atomic_ref(T& x) : a_(x), p_(&x) {}
  using pt = typename verif_atomic<int>::pt;
  T load(std::memory_order o = std::memory_order_seq_cst) const noexcept { pt _(p_); return a_.load(o); }
  void store(T v, std::memory_order o = std::memory_order_seq_cst) const noexcept { pt _(p_); a_.store(v, o); }
  T exchange(T v, std::memory_order o = std::memory_order_seq_cst) const noexcept { pt _(p_); return a_.exchange(v, o); }
  bool compare_exchange_weak(T& e, T v, std::memory_order s = std::memory_order_seq_cst) const noexcept { pt _(p_); if (vs::spurious()) { e = a_.load(); return false; } return a_.compare_exchange_strong(e, v, s); }
  bool compare_exchange_weak(T& e, T v, std::memory_order s, std::memory_order f) const noexcept { pt _(p_); if (vs::spurious()) { e = a_.load(f); return false; } return a_.compare_exchange_strong(e, v, s, f); }
  bool compare_exchange_strong(T& e, T v, std::memory_order s = std::memory_order_seq_cst) const noexcept { pt _(p_); return a_.compare_exchange_strong(e, v, s); }
  bool compare_exchange_strong(T& e, T v, std::memory_order s, std::memory_order f) const noexcept { pt _(p_); return a_.compare_exchange_strong(e, v, s, f); }
  template <typename D> T fetch_add(D d, std::memory_order o = std::memory_order_seq_cst) const noexcept { pt _(p_); return a_.fetch_add(d, o); }
  template <typename D> T fetch_sub(D d, std::memory_order o = std::memory_order_seq_cst) const noexcept { pt _(p_); return a_.fetch_sub(d, o); }
  T fetch_or(T d, std::memory_order o = std::memory_order_seq_cst) const noexcept { pt _(p_); return a_.fetch_or(d, o); }
  T fetch_and(T d, std::memory_order o = std::memory_order_seq_cst) const noexcept { pt _(p_); return a_.fetch_and(d, o); }
  T operator++() const noexcept { return fetch_add(1) + 1; }
  T operator++(int) const noexcept { return fetch_add(1); }
  T operator--() const noexcept { return fetch_sub(1) - 1; }
  T operator--(int) const noexcept { return fetch_sub(1); }
  operator T() const noexcept { return load(); }
  T operator=(T v) const noexcept { store(v); return v; }
};

struct verif_atomic_flag {
  verif_atomic<bool> b_{false};
  constexpr verif_atomic_flag() noexcept = default;
  bool test_and_set(std::memory_order o = std::memory_order_seq_cst) noexcept { return b_.exchange(true, o); }
  void clear(std::memory_order o = std::memory_order_seq_cst) noexcept { b_.store(false, o); }
  bool test(std::memory_order o = std::memory_order_seq_cst) const noexcept { return b_.load(o); }
  void wait(bool old, std::memory_order o = std::memory_order_seq_cst) const noexcept { b_.wait(old, o); }
  void notify_one() noexcept { b_.notify_one(); }
  void notify_all() noexcept { b_.notify_all(); }
};

template <typename Real>
struct verif_basic_mutex {
  Real m_;
  int owner_ = -2;  // accessed by the token holder only
  int depth_ = 0;
  static constexpr bool recursive = std::is_same_v<Real, std::recursive_mutex>;
  constexpr verif_basic_mutex() noexcept {}
  verif_basic_mutex(const verif_basic_mutex&) = delete;
  verif_basic_mutex& operator=(const verif_basic_mutex&) = delete;
  void lock() {
    if (!vs::active()) { m_.lock(); return; }
    vs::point(vs::K_MUTEX, this);
    while (held_by_other())
      vs::block(vs::K_MUTEX, this);
    m_.lock();
    take();
    vs::point(vs::K_MUTEX, this);
  }
  bool try_lock() {
    if (!vs::active()) return m_.try_lock();
    vs::point(vs::K_MUTEX, this);
    if (held_by_other() || vs::spurious()) return false;
    m_.lock();
    take();
    vs::point(vs::K_MUTEX, this);
    return true;
  }
  void unlock() {
    if (!vs::active()) { m_.unlock(); return; }
    vs::point(vs::K_MUTEX, this);
    unlock_nopoint();
    vs::point(vs::K_MUTEX, this);
  }
  void unlock_nopoint() {
    const void* p = this;
    bool last = drop();
    m_.unlock();
    if (last)
      vs::wake(vs::K_MUTEX, p, -1);
  }
  void relock_nopoint() {
    while (held_by_other())
      vs::block(vs::K_MUTEX, this);
    m_.lock();
    take();
  }
 private:
  // model state must not be seen by TSan (the real mutex is what orders)
  __attribute__((no_sanitize("thread"), noinline)) bool held_by_other() const {
    if (owner_ == -2) return false;
    return !(recursive && owner_ == vs::self());
  }
  __attribute__((no_sanitize("thread"), noinline)) void take() { owner_ = vs::self(); ++depth_; }
  __attribute__((no_sanitize("thread"), noinline)) bool drop() { if (--depth_ == 0) { owner_ = -2; return true; } return false; }
};
using verif_mutex = verif_basic_mutex<std::mutex>;
using verif_recursive_mutex = verif_basic_mutex<std::recursive_mutex>;

struct verif_shared_mutex : verif_mutex {  // conservative: shared mode is exclusive
  void lock_shared() { lock(); }
  void unlock_shared() { unlock(); }
  bool try_lock_shared() { return try_lock(); }
};

struct verif_condition_variable {
  std::condition_variable_any real_;
  verif_condition_variable() = default;
  verif_condition_variable(const verif_condition_variable&) = delete;
  void notify_one() noexcept {
    if (!vs::active()) { real_.notify_one(); return; }
    const void* p = this;
    vs::point(vs::K_CV, p);
    vs::wake(vs::K_CV, p, 1);
    vs::point(vs::K_CV, p);
  }
  void notify_all() noexcept {
    if (!vs::active()) { real_.notify_all(); return; }
    const void* p = this;
    vs::point(vs::K_CV, p);
    vs::wake(vs::K_CV, p, -1);
    vs::point(vs::K_CV, p);
  }
  template <typename L>
  void wait(L& l) {
    if (!vs::active()) { real_.wait(l); return; }
    vs::point(vs::K_CV, this);
    auto* m = l.mutex();
    m->unlock_nopoint();
    // atomically with the unlock: no scheduling point in between
    vs::block(vs::K_CV, this);
    m->relock_nopoint();
    vs::point(vs::K_CV, this);
  }
  template <typename L, typename P>
  void wait(L& l, P p) { while (!p()) wait(l); }
  template <typename L, typename R, typename Per>
  std::cv_status wait_for(L& l, const std::chrono::duration<R, Per>&) {
    auto* m = l.mutex();
    m->unlock();
    vs::yield_point();
    m->lock();
    return std::cv_status::timeout;
  }
  template <typename L, typename R, typename Per, typename P>
  bool wait_for(L& l, const std::chrono::duration<R, Per>& d, P p) {
    for (int i = 0; i < 64; i++) { if (p()) return true; wait_for(l, d); }
    return p();
  }
};

template <std::ptrdiff_t Max = INT_MAX>
struct verif_counting_semaphore {
  verif_mutex m_;
  verif_condition_variable cv_;
  std::ptrdiff_t n_;
  explicit verif_counting_semaphore(std::ptrdiff_t n) : n_(n) {}
  void acquire() { std::unique_lock l(m_); while (!n_) cv_.wait(l); --n_; }
  bool try_acquire() { std::unique_lock l(m_); if (!n_) return false; --n_; return true; }
  void release(std::ptrdiff_t k = 1) { std::unique_lock l(m_); n_ += k; cv_.notify_all(); }
};
using verif_binary_semaphore = verif_counting_semaphore<1>;

class verif_thread {
  std::thread t_;
  int id_ = -1;

 public:
  using id = std::thread::id;
  using native_handle_type = std::thread::native_handle_type;
  verif_thread() noexcept = default;
  verif_thread(const verif_thread&) = delete;
  verif_thread(verif_thread&& o) noexcept : t_(std::move(o.t_)), id_(std::exchange(o.id_, -1)) {}
  verif_thread& operator=(verif_thread&& o) noexcept {
    t_ = std::move(o.t_);
    id_ = std::exchange(o.id_, -1);
    return *this;
  }
  template <typename F, typename... Args>
    requires(!std::is_same_v<std::remove_cvref_t<F>, verif_thread>)
  explicit verif_thread(F&& f, Args&&... args) {
    vs::point(vs::K_THREAD, this);
    if (vs::thread_creation_must_fail())
      throw std::system_error(std::make_error_code(std::errc::resource_unavailable_try_again), "injected");
    int id = vs::thread_register();
    try {
      t_ = std::thread(
          [id](std::decay_t<F> f, std::decay_t<Args>... a) {
            vs::thread_enter(id);
            std::invoke(std::move(f), std::move(a)...);
            vs::thread_exit(id);
          },
          std::forward<F>(f), std::forward<Args>(args)...);
    } catch (...) {
      vs::thread_unregister(id);
      throw;
    }
    id_ = id;
    vs::point(vs::K_THREAD, this);
  }
  ~verif_thread() = default;
  void swap(verif_thread& o) noexcept { std::swap(t_, o.t_); std::swap(id_, o.id_); }
  bool joinable() const noexcept { return t_.joinable(); }
  void join() {
    vs::thread_join(id_);
    t_.join();
    id_ = -1;
  }
  void detach() {
    if (id_ >= 0 && vs::active()) {
      // really joined at the end of the case, so that nothing of it outlives the case
      vs::keep_for_end((unsigned long)t_.native_handle());
      alignas(std::thread) static thread_local char slot[sizeof(std::thread)];
      ::new ((void*)slot) std::thread(std::move(t_));  // forget the handle without joining
      id_ = -1;
      vs::point(vs::K_THREAD, this);
      return;
    }
    t_.detach();
  }
  id get_id() const noexcept { return t_.get_id(); }
  native_handle_type native_handle() { return t_.native_handle(); }
  static unsigned hardware_concurrency() noexcept { return std::thread::hardware_concurrency(); }
};
class verif_jthread {
  std::stop_source src_;
  verif_thread t_;

 public:
  using id = std::thread::id;
  verif_jthread() noexcept : src_(std::nostopstate) {}
  template <typename F, typename... Args>
    requires(!std::is_same_v<std::remove_cvref_t<F>, verif_jthread>)
  explicit verif_jthread(F&& f, Args&&... args) {
    if constexpr (std::is_invocable_v<std::decay_t<F>, std::stop_token, std::decay_t<Args>...>)
      t_ = verif_thread(std::forward<F>(f), src_.get_token(), std::forward<Args>(args)...);
    else
      t_ = verif_thread(std::forward<F>(f), std::forward<Args>(args)...);
  }
  verif_jthread(verif_jthread&&) noexcept = default;
  verif_jthread& operator=(verif_jthread&& o) noexcept {
    verif_jthread(std::move(o)).swap(*this);
    return *this;
  }
  ~verif_jthread() {
    if (t_.joinable()) {
      src_.request_stop();
      t_.join();
    }
  }
  void swap(verif_jthread& o) noexcept { std::swap(src_, o.src_); t_.swap(o.t_); }
  bool joinable() const noexcept { return t_.joinable(); }
  void join() { t_.join(); }
  void detach() { t_.detach(); }
  id get_id() const noexcept { return t_.get_id(); }
  std::stop_source get_stop_source() noexcept { return src_; }
  std::stop_token get_stop_token() const noexcept { return src_.get_token(); }
  bool request_stop() noexcept { return src_.request_stop(); }
};
inline void swap(verif_thread& a, verif_thread& b) noexcept { a.swap(b); }

namespace verif_this_thread {
using std::this_thread::get_id;
inline void yield() noexcept { vs::yield_point(); }
template <typename D> void sleep_for(const D&) { vs::yield_point(); }
template <typename D> void sleep_until(const D&) { vs::yield_point(); }
}  // namespace verif_this_thread

using verif_atomic_bool = verif_atomic<bool>;
using verif_atomic_int = verif_atomic<int>;
using verif_atomic_uint = verif_atomic<unsigned>;
using verif_atomic_long = verif_atomic<long>;
using verif_atomic_ulong = verif_atomic<unsigned long>;
using verif_atomic_llong = verif_atomic<long long>;
using verif_atomic_ullong = verif_atomic<unsigned long long>;
using verif_atomic_char = verif_atomic<char>;
using verif_atomic_int8_t = verif_atomic<std::int8_t>;
using verif_atomic_uint8_t = verif_atomic<std::uint8_t>;
using verif_atomic_int16_t = verif_atomic<std::int16_t>;
using verif_atomic_uint16_t = verif_atomic<std::uint16_t>;
using verif_atomic_int32_t = verif_atomic<std::int32_t>;
using verif_atomic_uint32_t = verif_atomic<std::uint32_t>;
using verif_atomic_int64_t = verif_atomic<std::int64_t>;
using verif_atomic_uint64_t = verif_atomic<std::uint64_t>;
using verif_atomic_size_t = verif_atomic<std::size_t>;
using verif_atomic_ptrdiff_t = verif_atomic<std::ptrdiff_t>;
using verif_atomic_intptr_t = verif_atomic<std::intptr_t>;
using verif_atomic_uintptr_t = verif_atomic<std::uintptr_t>;

inline void verif_atomic_thread_fence(std::memory_order o) noexcept {
  vs::point(vs::K_ATOMIC, nullptr);
#ifndef VS_TSAN
  std::atomic_thread_fence(o);
#else
  (void)o;
#endif
}

}  // namespace std

#define atomic verif_atomic
#define atomic_ref verif_atomic_ref
#define atomic_flag verif_atomic_flag
#define atomic_bool verif_atomic_bool
#define atomic_int verif_atomic_int
#define atomic_uint verif_atomic_uint
#define atomic_long verif_atomic_long
#define atomic_ulong verif_atomic_ulong
#define atomic_llong verif_atomic_llong
#define atomic_ullong verif_atomic_ullong
#define atomic_char verif_atomic_char
#define atomic_int8_t verif_atomic_int8_t
#define atomic_uint8_t verif_atomic_uint8_t
#define atomic_int16_t verif_atomic_int16_t
#define atomic_uint16_t verif_atomic_uint16_t
#define atomic_int32_t verif_atomic_int32_t
#define atomic_uint32_t verif_atomic_uint32_t
#define atomic_int64_t verif_atomic_int64_t
#define atomic_uint64_t verif_atomic_uint64_t
#define atomic_size_t verif_atomic_size_t
#define atomic_ptrdiff_t verif_atomic_ptrdiff_t
#define atomic_intptr_t verif_atomic_intptr_t
#define atomic_uintptr_t verif_atomic_uintptr_t
#define atomic_thread_fence verif_atomic_thread_fence
#define mutex verif_mutex
#define recursive_mutex verif_recursive_mutex
#define shared_mutex verif_shared_mutex
#define condition_variable verif_condition_variable
#define condition_variable_any verif_condition_variable
#define counting_semaphore verif_counting_semaphore
#define binary_semaphore verif_binary_semaphore
#define thread verif_thread
#define jthread verif_jthread
#define this_thread verif_this_thread

#endif  // VS_CONTROLLED

#ifndef KELCORO_PLAIN_INCLUDES
#include <kelcoro/kelcoro.hpp>
#include <kelcoro/algorithm.hpp>
#include <kelcoro/inplace_generator.hpp>
#include <kelcoro/stack_memory_resource.hpp>
#include <kelcoro/nonowner_lockfree_stack.hpp>
#endif
