// compiled only if the driver of C06 does not compile
#include "kelcoro/kelcoro.hpp"
dd::channel<int> c() { co_yield 1; }
dd::job use() {
  dd::channel<int> ch = c();
  auto it = co_await ch.begin();
  (void)(&it.owner() == &ch && it.equivalent(it));
}
int main() { use(); }
