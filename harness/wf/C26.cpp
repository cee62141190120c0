// compiled only if a driver of C26 does not compile
#include "kelcoro/kelcoro.hpp"
struct fn {
  std::unique_ptr<int> p;
  void operator()() {}
};
dd::job j(std::unique_ptr<int> p, dd::thread_pool& pool) {
  if (co_await dd::jump_on(pool)) *p = 1;
}
int main() {
  dd::thread_pool pool(1);
  dd::worker w;
  dd::strand s(w);
  dd::this_thread_executor_t inl;
  dd::new_thread_executor_t nt;
  dd::any_executor_ref a(pool);
  pool.schedule(fn{});
  pool.schedule(fn{}, 1);
  dd::schedule_to(pool, fn{});
  dd::schedule_to(w, fn{});
  dd::schedule_to(s, fn{});
  dd::schedule_to(inl, fn{});
  dd::schedule_to(nt, fn{});
  dd::schedule_to(a, fn{});
  dd::schedule_to(pool, fn{}, dd::with_resource<dd::new_delete_resource>{});
  j(nullptr, pool);
}
