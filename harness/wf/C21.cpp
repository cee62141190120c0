// compiled only if the driver of C21 does not compile: every coroutine kind with memory resource
#include "kelcoro/kelcoro.hpp"
using R = dd::new_delete_resource;
using P = std::pmr::memory_resource;
dd::generator_r<int, R> g() { co_yield 1; }
dd::channel_r<int, R> c() { (void)co_await dd::this_coro::handle; co_yield 1; }
dd::task_r<int, R> t() { (void)co_await dd::this_coro::handle; co_return 1; }
dd::async_task_r<int, R> a() { co_return 1; }
dd::job_r<R> j() { (void)co_await dd::this_coro::handle; }
dd::logical_thread_r<R> l() { auto&& x = co_await dd::this_coro::stop_token; (void)x.stop_requested(); }
dd::generator<int> g2(dd::with_pmr_resource) { co_yield 1; }
dd::channel<int> c2(dd::with_pmr_resource) { co_yield 1; }
dd::task<int> t2(dd::with_pmr_resource) { co_return 1; }
dd::async_task<int> a2(dd::with_pmr_resource) { co_return 1; }
dd::job j2(dd::with_pmr_resource) { co_return; }
dd::logical_thread l2(dd::with_pmr_resource) { co_return; }
dd::pmr::generator<int> g3() { co_yield 1; }
dd::pmr::channel<int> c3() { co_yield 1; }
dd::pmr::task<int> t3() { co_return 1; }
dd::pmr::async_task<int> a3() { co_return 1; }
struct M {  // cannot be copied
  explicit M(int) {}
  M(M&&) = default;
  void* p = nullptr;
  void* allocate(size_t n) { return ::operator new(n); }
  void deallocate(void* p, size_t) noexcept { ::operator delete(p); }
};
dd::generator<int> g4(dd::with_resource<M>) { co_yield 1; }
dd::task<int> t4(dd::with_resource<M>) { co_return 1; }
int main() {
  g4(M(1)), t4(M(1));

  P& p = *std::pmr::new_delete_resource();
  g(), c(), t(), a(), j(), l(), g2(p), c2(p), t2(p), a2(p), j2(p), l2(p), g3(), c3(), t3(), a3();
}
