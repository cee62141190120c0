// compiled only if the drivers of C19 or C20 do not compile
#include "kelcoro/kelcoro.hpp"
#include "kelcoro/algorithm.hpp"
template <typename T>
dd::task<T> f() { throw 1; co_return T(); }
dd::job use() {
  auto all = co_await dd::when_all(f<int>(), f<void>());
  (void)(std::get<0>(all).error() == nullptr && std::get<1>(all).error() == nullptr && std::get<0>(all).has_value());
  std::vector<dd::task<int>> v;
  v.push_back(f<int>());
  auto vec = co_await dd::when_all(std::move(v));
  (void)(vec[0].error() == nullptr && bool(vec[0]));
  auto any = co_await dd::when_any(f<int>(), f<void>());
  (void)any.index();
}
int main() { use(); }
