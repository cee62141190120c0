// C24: transfers of control do not grow the call stack, time per value does not depend on the nesting depth
#include <time.h>
#include "vmon.hpp"
#include "kelcoro/kelcoro.hpp"
#include "kelcoro/algorithm.hpp"

using vm::Ctx;
using vm::Exc;
using vm::Obj;
using vm::Rng;

namespace {

// deepest / highest stack address seen while coroutines run. Per thread that runs them.
struct Meter {
  uintptr_t lo = UINTPTR_MAX, hi = 0;
  long marks = 0;
  const char* what = "";
};
thread_local Meter* tl_meter = nullptr;
// a chain or loop has thousands of links, each nested call costs at least 16 bytes
constexpr uintptr_t STACK_LIMIT = 40 * 1024;
constexpr int MIN_LINKS = 4000;

__attribute__((noinline)) void mark() {
  Meter& m = *tl_meter;
  uintptr_t p = (uintptr_t)__builtin_frame_address(0);
  m.marks++;
  if (p < m.lo) m.lo = p;
  if (p > m.hi) m.hi = p;
  VM_CHECK(m.hi - m.lo < STACK_LIMIT, "stack-grows", "%s: %zu bytes of the call stack are used after %ld steps", m.what, (size_t)(m.hi - m.lo), m.marks);
}
// the scenario itself runs between these
struct Measured {
  Meter m;
  Meter* old;
  explicit Measured(const char* what) : old(tl_meter) {
    m.what = what;
    tl_meter = &m;
    mark();
  }
  ~Measured() { tl_meter = old; }
};

struct R {  // random decisions of the bodies
  Rng r;
  bool throws = false;
  long values = 0;  // yielded
  long sub = 0;
  long caught = 0;
  bool stop = false;
};

// ---- generators and channels: same programs ------------------------------------------------------------
template <template <typename> class G>
struct Bodies {
  using T = G<int>;
  static T empty(R&) {
    mark();
    co_return;
  }
  static T few(R& r, int n) {
    mark();
    for (int i = 0; i < n; i++) {
      r.values++;
      co_yield i;
      mark();
    }
  }
  static T thrower(R& r, int n) {
    for (int i = 0; i < n; i++) {
      r.values++;
      co_yield i;
      mark();
    }
    throw Exc{n};
  }
  // few levels, nothing on each
  static T shallow(R& r, int depth) {
    mark();
    if (depth > 0) co_yield dd::elements_of(shallow(r, depth - 1));
    mark();
  }
  // a loop of transfers of all kinds
  static T loop(R& r, long n, int mix) {
    mark();
    for (long i = 0; i < n; i++) {
      int k = r.r.below(100);
      if (mix == 0) k = k % 20;        // mostly empty ones
      else if (mix == 1) k = 40;       // values only
      if (k < 15) co_yield dd::elements_of(empty(r));
      else if (k < 20) co_yield dd::elements_of(shallow(r, 3));
      else if (k < 45) { r.values++; co_yield (int)i; }
      else if (k < 65) co_yield dd::elements_of(few(r, k - 45 < 10 ? 1 : 3));
      else if (k < 70) co_yield dd::elements_of(T{});
      else if (k < 75) { std::vector<int> v(2, 1); r.values += 2; co_yield dd::elements_of(v); }
      else if (k < 80) { std::vector<int> v; co_yield dd::elements_of(v); }
      else if (k < 85 && r.throws) { co_yield dd::elements_of(thrower(r, k - 80)); }
      else { r.values++; const int c = 5; co_yield c; }
      r.sub++;
      mark();
    }
  }
  // a chain: values before and after the nested one
  static T chain(R& r, int depth, int style) {
    mark();
    if (style & 1) { r.values++; co_yield depth; mark(); }
    if (depth > 0) co_yield dd::elements_of(chain(r, depth - 1, style));
    else if (style & 4) {
      for (int i = 0; i < 2000; i++) { r.values++; co_yield i; mark(); }
    }
    mark();
    if (style & 2) { r.values++; co_yield -depth; mark(); }
    r.sub++;
  }
  // empty ends only: everything happens at the end
  static T forever(R& r, int depth) {
    if (depth > 0) co_yield dd::elements_of(forever(r, depth - 1));
    else
      for (int i = 0; !r.stop; i++) co_yield i;
  }
};
template <typename Y>
using gen_t = dd::generator<Y>;
template <typename Y>
using chan_t = dd::channel<Y>;
using GB = Bodies<gen_t>;
using CB = Bodies<chan_t>;

template <typename B>
typename B::T pick(R& r, int kind, long n, int arg) {
  return kind == 0 ? B::loop(r, n, arg) : B::chain(r, (int)n, arg);
}

long consume(R& r, dd::generator<int> g) {
  long got = 0;
  for (int again = 0; again < 100000; again++) {
    try {
      for (int x : g) {
        (void)x;
        got++;
        mark();
      }
      if (g.empty()) break;
    } catch (Exc&) {
      r.caught++;
    }
  }
  return got;
}
dd::job consume_channel(R& r, dd::channel<int> c, long& got, bool& end) {
  for (int again = 0; again < 100000; again++) {
    try {
      co_foreach(int x, c) {
        (void)x;
        got++;
        mark();
      }
      if (c.empty()) break;
    } catch (Exc&) {
      r.caught++;
    }
  }
  end = true;
}
dd::task<long> consume_channel_task(R& r, dd::channel<int> c) {
  long got = 0;
  for (int again = 0; again < 100000; again++) {
    try {
      co_foreach(int x, c) {
        (void)x;
        got++;
        mark();
      }
      if (c.empty()) break;
    } catch (Exc&) {
      r.caught++;
    }
  }
  co_return got;
}

SEQ_SCENARIO("C24", "generators", 4) {
  Rng& rr = cx.rng;
  R r{Rng(rr.next()), rr.chance(1, 3)};
  int kind = rr.below(2);
  long n = rr.range(MIN_LINKS, kind ? 12000 : 20000);
  int arg = kind == 0 ? rr.below(4) : rr.below(8);
  cx.describe = std::string(kind ? "chain of " : "loop of ") + std::to_string(n) + " generators, style " + std::to_string(arg);
  Measured m(kind ? "chain of nested generators" : "loop of generators");
  long got = consume(r, pick<GB>(r, kind, n, arg));
  VM_CHECK(got == r.values, "values-lost", "%ld of %ld values", got, r.values);
  VM_CHECK(r.sub >= n, "not-finished", "");
  cx.observe((uint64_t)got * 31 + (uint64_t)m.m.marks);
  cx.nontrivial = true;
}
SEQ_SCENARIO("C24", "channels", 4) {
  Rng& rr = cx.rng;
  R r{Rng(rr.next()), rr.chance(1, 3)};
  int kind = rr.below(2);
  long n = rr.range(MIN_LINKS, kind ? 12000 : 20000);
  int arg = kind == 0 ? rr.below(4) : rr.below(8);
  cx.describe = std::string(kind ? "chain of " : "loop of ") + std::to_string(n) + " channels, style " + std::to_string(arg);
  Measured m(kind ? "chain of nested channels" : "loop of channels");
  long got = 0;
  if (rr.chance(1, 2)) {
    bool end = false;
    consume_channel(r, pick<CB>(r, kind, n, arg), got, end);
    VM_CHECK(end, "not-finished", "consumer");
  } else
    got = consume_channel_task(r, pick<CB>(r, kind, n, arg)).get();
  VM_CHECK(got == r.values, "values-lost", "%ld of %ld values", got, r.values);
  VM_CHECK(r.sub >= n, "not-finished", "");
  cx.observe((uint64_t)got * 31 + (uint64_t)m.m.marks);
  cx.nontrivial = true;
}
dd::channel<int> over_generators(R& r, int n) {
  for (int i = 0; i < n; i++) {
    if (i % 3 == 0) co_yield dd::elements_of(GB::empty(r));
    else if (i % 3 == 1) co_yield dd::elements_of(GB::few(r, 1));
    else co_yield dd::elements_of(CB::few(r, 2));
    r.sub++;
    mark();
  }
}
dd::inplace_generator<int> in_place(R& r, int n) {
  for (int i = 0; i < n; i++) {
    r.values++;
    co_yield i;
    mark();
  }
  r.sub = n;
}
SEQ_SCENARIO("C24", "mixed", 1) {
  Rng& rr = cx.rng;
  R r{Rng(rr.next()), false};
  int n = rr.range(MIN_LINKS, 12000);
  long got = 0;
  bool end = false;
  if (rr.chance(1, 3)) {
    Measured m("loop of an in-place generator");
    auto g = in_place(r, n);
    for (int x : g) {
      (void)x;
      got++;
      mark();
    }
    cx.observe((uint64_t)m.m.marks);
  } else {
    Measured m("channel over generators");
    consume_channel(r, over_generators(r, n), got, end);
    VM_CHECK(end, "not-finished", "consumer");
    cx.observe((uint64_t)m.m.marks);
  }
  VM_CHECK(got == r.values && r.sub == n, "values-lost", "%ld of %ld values", got, r.values);
  cx.nontrivial = true;
}

// ---- tasks ---------------------------------------------------------------------------------------------------
dd::task<int> done_task(R& r, int x) {
  mark();
  r.sub++;
  co_return x;
}
dd::task<void> done_void(R& r) {
  mark();
  r.sub++;
  co_return;
}
dd::task<Obj> failing(R& r) {
  mark();
  r.sub++;
  throw Exc{3};
  co_return Obj(3);
}
dd::task<int> nested_few(R& r, int d) {
  mark();
  int x = d ? co_await nested_few(r, d - 1) : co_await done_task(r, 7);
  mark();
  co_return x;
}
dd::task<long> task_loop(R& r, long n, int mix) {
  mark();
  long sum = 0;
  for (long i = 0; i < n; i++) {
    int k = mix ? mix - 1 : r.r.below(9);
    switch (k) {
      case 0: sum += co_await done_task(r, 1); break;
      case 1: co_await done_void(r); sum++; break;
      case 2: try { (void)co_await failing(r); } catch (Exc&) { sum++; } break;
      case 3: { auto t = done_task(r, 1); co_await t.wait(); sum += co_await t; break; }
      case 4: sum += co_await nested_few(r, 2) == 7; break;
      case 5: sum += done_task(r, 1).get(); break;
      case 6: done_void(r).start_and_detach(); sum++; break;
      case 7: { auto h = done_void(r).start_and_detach(true); h.destroy(); sum++; break; }
      default: { auto t = done_task(r, 1); (void)co_await t; sum += co_await t; break; }
    }
    mark();
  }
  co_return sum;
}
dd::task<int> task_chain(R& r, int depth, bool fails, Obj o) {
  mark();
  r.sub++;
  if (depth == 0) {
    if (fails) throw Exc{9};
    co_return 1;
  }
  int x = co_await task_chain(r, depth - 1, fails, Obj(depth));
  mark();
  co_return x + (o.get() == depth + 1);
}
// the owner is the next link, not in a nested scope
dd::task<int> up_chain(R& r, dd::task<int> inner, int levels);
dd::task<int> caught_chain(R& r, int depth) {
  mark();
  r.sub++;
  if (depth == 0) throw Exc{9};
  try {
    (void)co_await caught_chain(r, depth - 1);
  } catch (Exc&) {
    r.caught++;
  }
  mark();
  throw Exc{10};
  co_return 0;
}
SEQ_SCENARIO("C24", "tasks", 4) {
  Rng& rr = cx.rng;
  R r{Rng(rr.next()), false};
  int kind = rr.below(5);
  if (kind < 2) {
    int n = rr.range(MIN_LINKS, 12000), mix = rr.chance(1, 2) ? 0 : 1 + rr.below(9);
    if (mix == 0 || mix == 3) n = MIN_LINKS;
    cx.describe = "loop of " + std::to_string(n) + " tasks, mix " + std::to_string(mix);
    Measured m("loop of finished tasks");
    long s = task_loop(r, n, mix).get();
    VM_CHECK(s == n, "wrong-result", "%ld of %d", s, n);
    cx.observe((uint64_t)s * 31 + (uint64_t)m.m.marks);
  } else if (kind < 4) {
    int n = rr.range(MIN_LINKS, 10000);
    bool fails = rr.chance(1, 4);
    if (fails) n = MIN_LINKS;
    cx.describe = "chain of " + std::to_string(n) + " tasks" + (fails ? ", failing" : "");
    Measured m("chain of tasks");
    try {
      int s = task_chain(r, n, fails, Obj(n + 1)).get();
      VM_CHECK(!fails && s == n + 1, "wrong-result", "%d of %d", s, n + 1);
    } catch (Exc& e) { VM_CHECK(fails && e.id == 9, "wrong-result", "exception"); }
    VM_CHECK(r.sub == n + 1, "not-finished", "");
    cx.observe((uint64_t)n * 31 + (uint64_t)m.m.marks);
  } else {
    int n = MIN_LINKS;
    Measured m("chain of failing tasks");
    try {
      (void)caught_chain(r, n).get();
      VM_CHECK(false, "wrong-result", "no exception");
    } catch (Exc& e) { VM_CHECK(e.id == 10 && r.caught == n, "wrong-result", "exception"); }
    cx.describe = "chain of failing tasks";
    cx.observe((uint64_t)n * 31 + (uint64_t)m.m.marks);
  }
  cx.nontrivial = true;
}

// ---- combinators --------------------------------------------------------------------------------------------
struct Later {
  R& r;
  std::coroutine_handle<>& h;
  bool await_ready() { return false; }
  void await_suspend(std::coroutine_handle<> x) { h = x; }
  void await_resume() {}
};
dd::task<int> later(R& r, std::coroutine_handle<>& h) {
  mark();
  co_await Later{r, h};
  mark();
  r.sub++;
  co_return 2;
}
dd::task<long> comb_loop(R& r, long n, int mix, std::coroutine_handle<>& h) {
  mark();
  long ok = 0;
  for (long i = 0; i < n; i++) {
    int k = mix ? mix - 1 : r.r.below(8);
    switch (k) {
      case 0: { auto [a, b] = co_await dd::when_all(done_task(r, 1), done_void(r)); ok += a.has_value() && b.has_value(); break; }
      case 1: { auto [a] = co_await dd::when_all(done_task(r, 1)); ok += a.has_value(); break; }
      case 2: {
        std::vector<dd::task<int>> v;
        for (int q = 0; q < 3; q++) v.push_back(done_task(r, q));
        auto x = co_await dd::when_all(std::move(v));
        ok += x.size() == 3;
        break;
      }
      case 3: { auto [a, b] = co_await dd::when_all(failing(r), done_task(r, 1)); ok += !a.has_value() && b.has_value(); break; }
      case 4: { auto v = co_await dd::when_any(done_task(r, 1), done_void(r)); ok += v.index() == 1; break; }
      case 5: { auto v = co_await dd::when_any(failing(r), done_task(r, 1)); ok += v.index() == 2; break; }
      case 6: { auto v = co_await dd::when_any(failing(r), failing(r)); ok += v.index() == 2; break; }
      default: { co_await dd::when_all(std::vector<dd::task<void>>()); ok++; break; }
    }
    mark();
  }
  (void)h;
  co_return ok;
}
dd::task<long> comb_later(R& r, long n, int mix, std::coroutine_handle<>& h) {
  long ok = 0;
  for (long i = 0; i < n; i++) {
    if (mix % 3 == 0) { auto [a, b] = co_await dd::when_all(done_task(r, 1), later(r, h)); ok += a.has_value() && b.has_value(); }
    else if (mix % 3 == 1) {
      std::vector<dd::task<int>> v;
      v.push_back(done_task(r, 1));
      v.push_back(later(r, h));
      auto x = co_await dd::when_all(std::move(v));
      ok += x.size() == 2;
    } else { auto v = co_await dd::when_any(failing(r), later(r, h)); ok += v.index() == 2; }
    mark();
  }
  co_return ok;
}
SEQ_SCENARIO("C24", "combinators", 4) {
  Rng& rr = cx.rng;
  R r{Rng(rr.next()), false};
  int n = MIN_LINKS, mix = rr.chance(1, 2) ? 0 : 1 + rr.below(8);
  std::coroutine_handle<> h;
  if (rr.chance(2, 3)) {
    cx.describe = "loop of " + std::to_string(n) + " combinators of finished tasks, mix " + std::to_string(mix);
    Measured m("loop of combinators");
    long ok = comb_loop(r, n, mix, h).get();
    VM_CHECK(ok == n, "wrong-result", "%ld of %d", ok, n);
    cx.observe((uint64_t)ok * 31 + (uint64_t)m.m.marks + (uint64_t)mix);
  } else {
    cx.describe = "loop of " + std::to_string(n) + " combinators of tasks resumed later, mix " + std::to_string(mix);
    Measured m("loop of combinators");
    auto t = comb_later(r, n, mix, h);
    auto th = t.start_and_detach(true);
    for (int i = 0; i < n; i++) {
      VM_CHECK(!th.done(), "wrong-result", "too early");
      std::exchange(h, nullptr).resume();
    }
    VM_CHECK(th.done(), "not-finished", "");
    VM_CHECK(th.promise().result() == n, "wrong-result", "");
    th.destroy();
    cx.observe((uint64_t)n * 31 + (uint64_t)m.m.marks + (uint64_t)mix);
  }
  cx.nontrivial = true;
}
// one combinator with very many tasks that finish at once
dd::task<long> wide(R& r, int n) {
  std::vector<dd::task<int>> v;
  for (int i = 0; i < n; i++) v.push_back(done_task(r, i));
  auto x = co_await dd::when_all(std::move(v));
  long s = 0;
  for (auto& e : x) s += e.has_value();
  mark();
  co_return s;
}
SEQ_SCENARIO("C24", "wide", 1) {
  Rng& rr = cx.rng;
  R r{Rng(rr.next()), false};
  int n = rr.range(MIN_LINKS, 9000);
  Measured m("one when_all of many tasks");
  long s = wide(r, n).get();
  VM_CHECK(s == n && r.sub == n, "wrong-result", "%ld of %d", s, n);
  cx.describe = "when_all of " + std::to_string(n) + " finished tasks";
  cx.observe((uint64_t)s);
  cx.nontrivial = true;
}

// ---- coroutines that destroy themselves handing control over -------------------------------------------------
dd::job relay(R& r, std::coroutine_handle<> next, Obj o) {
  co_await std::suspend_always{};
  mark();
  r.sub++;
  VM_CHECK(o.get() == 5, "object-corrupted", "");
  co_await dd::this_coro::destroy_and_transfer_control_to(next);
}
SEQ_SCENARIO("C24", "relay", 1) {
  Rng& rr = cx.rng;
  R r{Rng(rr.next()), false};
  int n = rr.range(MIN_LINKS, 10000);
  std::coroutine_handle<> next = std::noop_coroutine();
  for (int i = 0; i < n; i++) next = relay(r, next, Obj(5)).handle;
  Measured m("coroutines that destroy themselves transferring control");
  next.resume();
  VM_CHECK(r.sub == n, "not-finished", "%ld of %d", r.sub, n);
  cx.describe = "chain of " + std::to_string(n) + " self destroying coroutines";
  cx.observe((uint64_t)n * 31 + (uint64_t)m.m.marks);
  cx.nontrivial = true;
}

// ---- the same on the thread of an executor --------------------------------------------------------------------
dd::task<long> on_worker(R& r, dd::worker& w, long n, int mix) {
  (void)co_await dd::jump_on(w);
  Meter m;
  m.what = "loop on a worker";
  tl_meter = &m;
  long s = 0;
  for (long i = 0; i < n; i++) {
    mark();
    if (mix == 0) { (void)co_await dd::jump_on(w); s++; }
    else if (i % 16 == 0) { (void)co_await dd::jump_on(w); s++; }
    else s += co_await done_task(r, 1);
  }
  tl_meter = nullptr;
  co_return s;
}
SEQ_SCENARIO("C24", "worker_loops", 1) {
  Rng& rr = cx.rng;
  R r{Rng(rr.next()), false};
  int n = MIN_LINKS, mix = rr.below(2);
  dd::worker w;
  long s = on_worker(r, w, n, mix).get();
  VM_CHECK(s == n, "wrong-result", "%ld of %d", s, n);
  cx.describe = "loop of " + std::to_string(n) + " hops and tasks on a worker";
  cx.observe((uint64_t)s * 2 + (uint64_t)mix);
  cx.nontrivial = true;
}

// ---- time per value ----------------------------------------------------------------------------------------------
uint64_t cpu_ns() {
  timespec t;
  clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t);
  return (uint64_t)t.tv_sec * 1000000000u + (uint64_t)t.tv_nsec;
}
constexpr int BATCH = 300;
// best of several batches, ns per batch
template <typename F>
uint64_t best(F step, int batches) {
  uint64_t b = UINT64_MAX;
  for (int k = 0; k < batches; k++) {
    uint64_t t0 = cpu_ns();
    for (int i = 0; i < BATCH; i++) step();
    b = std::min(b, cpu_ns() - t0);
  }
  return std::max<uint64_t>(b, BATCH * 5);
}
uint64_t time_generator(int depth) {
  R r{Rng(1)};
  auto g = GB::forever(r, depth);
  auto it = g.begin();
  uint64_t b = best([&] { ++it; }, 8);
  // the chain ends, destroying it in the middle is recursive
  r.stop = true;
  ++it;
  VM_CHECK(it == g.end(), "not-finished", "");
  return b;
}
dd::job chan_step(dd::channel<int>& c, std::coroutine_handle<>& h, long& got, R& r) {
  co_foreach(int x, c) {
    (void)x;
    got++;
    co_await Later{r, h};
  }
}
uint64_t time_channel(int depth) {
  R r{Rng(1)};
  uint64_t b = 0;
  {
    auto c = CB::forever(r, depth);
    std::coroutine_handle<> h;
    long got = 0;
    chan_step(c, h, got, r);
    b = best([&] { h.resume(); }, 8);
    r.stop = true;
    h.resume();
    VM_CHECK(c.empty(), "not-finished", "");
  }
  return b;
}
SEQ_SCENARIO("C24", "time_per_value", 1) {
  Rng& rr = cx.rng;
  bool chan = rr.chance(1, 2);
  int depth = rr.range(5000, 9000);
  constexpr uint64_t FACTOR = 60;
  uint64_t shallow = 0, deep = 0;
  for (int attempt = 0; attempt < 4; attempt++) {
    shallow = chan ? time_channel(4) : time_generator(4);
    deep = chan ? time_channel(depth) : time_generator(depth);
    if (deep < shallow * FACTOR) break;
  }
  VM_CHECK(deep < shallow * FACTOR, "time-grows-with-depth", "%d values take %llu ns at depth 4 and %llu ns at depth %d of nested %s", BATCH, (unsigned long long)shallow, (unsigned long long)deep, depth, chan ? "channels" : "generators");
  cx.describe = "time per value at depth " + std::to_string(depth);
  cx.observe((uint64_t)depth * 2 + chan);
  cx.nontrivial = true;
}

}  // namespace

VM_MAIN
