// C01-C07 at scale: deep, wide and long programs, many objects, long histories, other element types.
// Every value is predetermined by its position in the program, so the consumer knows what has to come.
#include <ranges>
#include "vbig.hpp"
#include "kelcoro/kelcoro.hpp"
#include "kelcoro/inplace_generator.hpp"

using vm::Ctx;
using vm::Exc;
using vm::MoveOnly;
using vm::Obj;
using vm::Odd;
using vm::Pod;
using vm::Rng;
using vm::Val;
using vm::logsize;
using vm::MAX_DEPTH;

namespace {

template <typename X>
void put(X&& x, long v) {
  x = Val<std::remove_cvref_t<X>>::make(v);
}

// ---- programs -------------------------------------------------------------------------------------------
enum Kind { YIELDS, SUB, RANGE, EMPTY, EATEN, HOP };
struct Plan;
struct Item {
  int kind;
  int n = 0;          // values, or values taken out of the nested one before
  Plan* sub = nullptr;
  int style = 0;
};
struct Plan {
  std::vector<Item> items;
  long len = 0;       // values until the end or the failure
  long throws = 0;    // exceptions of it and everything nested
  bool fails = false;
  int depth = 1;
};

constexpr long BASE2 = 1 << 24;  // values written by the consumer

struct World {
  Rng r;
  std::deque<Plan> plans;
  long made = 0;       // yields executed
  bool exact = true;   // 'made' is exact
  bool can_throw = false, two_way = false, hops = false, eat = false;
  long bodies = 0, ended = 0;
  long running = 0;
  int max_val = 0;
  // sequential suspension
  std::coroutine_handle<> pending = nullptr;
  dd::thread_pool* pool = nullptr;
  long hops_done = 0;

  Plan* fresh() { return &plans.emplace_back(); }
  void leaf(Plan* p, int n) {
    if (n > 0) p->items.push_back({YIELDS, n, nullptr, r.below(16)}), p->len += n;
    if (hops && r.chance(1, 4)) p->items.push_back({HOP});
    if (can_throw && r.chance(1, 4)) fail(p);
  }
  void fail(Plan* p) {
    if (!p->fails) p->fails = true, p->throws++;
  }
  void add_yields(Plan* p, int n) {
    if (n > 0) p->items.push_back({YIELDS, n, nullptr, r.below(16)}), p->len += n;
  }
  void add_sub(Plan* p, Plan* s) {
    if (eat && s->throws == 0 && r.chance(1, 8)) {
      int n = r.below((int)std::min<long>(s->len, 40) + 1);
      p->items.push_back({EATEN, n, s});
      p->len += s->len - n;
    } else {
      p->items.push_back({SUB, 0, s});
      p->len += s->len;
      p->throws += s->throws;
    }
    p->depth = std::max(p->depth, s->depth + 1);
  }
  void add_misc(Plan* p) {
    int k = r.below(12);
    if (k == 0) p->items.push_back({EMPTY});
    else if (k == 1) {
      int n = r.below(5);
      p->items.push_back({RANGE, n});
      p->len += n;
      exact = false;
    } else if (k < 4 && hops) p->items.push_back({HOP});
  }
  Plan* small() {
    Plan* p = fresh();
    leaf(p, r.below(4));
    return p;
  }
  Plan* chain(int depth, int bottom, int pre, int post) {
    depth = std::min(depth, MAX_DEPTH);
    Plan* p = fresh();
    leaf(p, bottom);
    bool rare = r.chance(1, 2);
    for (int i = 1; i < depth; i++) {
      Plan* q = fresh();
      bool here = !rare || r.chance(1, 50);
      if (pre && here) add_yields(q, pre == 1 ? 1 : r.below(pre + 1));
      if (hops && r.chance(1, 16)) q->items.push_back({HOP});
      add_sub(q, p);
      if (post && here) add_yields(q, post == 1 ? 1 : r.below(post + 1));
      if (can_throw && r.chance(1, rare ? 100 : 8)) fail(q);
      p = q;
    }
    return p;
  }
  Plan* wide(int n) {
    Plan* p = fresh();
    for (int i = 0; i < n; i++) {
      add_misc(p);
      if (r.chance(1, 3)) add_yields(p, 1 + r.below(3));
      add_sub(p, small());
    }
    return p;
  }
  Plan* tree(int budget, int fan) {
    if (budget <= 1) return small();
    Plan* p = fresh();
    budget--;
    while (budget > 0) {
      int b = fan == 1 ? budget : 1 + r.below(std::max(1, budget * 2 / fan));
      if (b > budget) b = budget;
      add_misc(p);
      if (r.chance(1, 4)) add_yields(p, 1);
      add_sub(p, tree(b, fan));
      budget -= b;
    }
    if (can_throw && r.chance(1, 10)) fail(p);
    return p;
  }
  Plan* any(int size, std::string& what) {
    switch (r.below(6)) {
      case 0: {
        Plan* p = fresh();
        leaf(p, size * 3);
        what = "flat";
        return p;
      }
      case 1: what = "chain"; return chain(size, r.below(5), r.below(3), r.below(3));
      case 2: what = "chain over a long part"; return chain(std::max(2, size / 3), size * 2, r.below(2), r.below(2));
      case 3: what = "wide"; return wide(size);
      case 4: what = "balanced"; return tree(size, r.range(2, 9));
      default: {
        what = "chains in a row";
        Plan* p = fresh();
        int left = size;
        while (left > 0) {
          int d = logsize(r, 1, std::max(1, size / 2));
          add_sub(p, chain(d, r.below(3), r.below(2), r.below(2)));
          add_misc(p);
          left -= d;
        }
        return p;
      }
    }
  }
};

struct Running {  // a body (with all its locals) exists
  World& w;
  Obj o;
  explicit Running(World& w, long v) : w(w), o((int)v) { w.bodies++, w.running++; }
  ~Running() { w.running--; }
};

struct Hop {
  World& w;
  bool await_ready() { return false; }
  void await_suspend(std::coroutine_handle<> h) {
    VM_CHECK(!w.pending, "two-coroutines-run", "two coroutines of one channel are suspended");
    w.pending = h;
  }
  void await_resume() {}
};
#define BIG_HOP(w)                                                                                    \
  do {                                                                                                \
    (w).hops_done++;                                                                                  \
    if (!(w).pool) co_await Hop{w};                                                                   \
    else {                                                                                            \
      dd::schedule_status st_ = co_await dd::jump_on(*(w).pool);                                      \
      VM_CHECK((bool)st_, "cancelled-while-running", "a hop on a running pool was cancelled");        \
    }                                                                                                 \
  } while (0)

template <typename Y>
using value_of = std::remove_cv_t<std::remove_reference_t<Y>>;
template <typename Y>
constexpr bool writable = !std::is_const_v<std::remove_reference_t<Y>>;

// one yield of value k, in one of several ways
#define BIG_YIELD(Y, w, k, style)                                                                       \
  do {                                                                                                  \
    using T = value_of<Y>;                                                                              \
    (w).made++;                                                                                         \
    if constexpr (std::is_reference_v<Y>) {                                                             \
      T x_ = Val<T>::make(k);                                                                           \
      if ((style) & 1) co_yield x_;                                                                     \
      else co_yield dd::by_ref{static_cast<Y>(x_)};                                                     \
      VM_CHECK(Val<T>::get(x_) == (k) + ((w).two_way && writable<Y> ? BASE2 : 0), "write-lost",         \
               "a write through the iterator did not reach the yielded object");                        \
    } else {                                                                                            \
      int s_ = (style) & 3;                                                                             \
      if (s_ == 0) {                                                                                    \
        co_yield Val<T>::make(k);                                                                       \
      } else if (s_ == 1) {                                                                             \
        T x_ = Val<T>::make(k);                                                                         \
        co_yield std::move(x_);                                                                         \
        if ((w).two_way)                                                                                \
          VM_CHECK(Val<T>::get(x_) == (k) + BASE2, "write-lost", "a write through the iterator did not reach the yielded object"); \
      } else if (s_ == 2) {                                                                             \
        T x_ = Val<T>::make(k);                                                                         \
        co_yield dd::by_ref{x_};                                                                        \
        if ((w).two_way)                                                                                \
          VM_CHECK(Val<T>::get(x_) == (k) + BASE2, "write-lost", "a write through the iterator did not reach the yielded object"); \
      } else {                                                                                          \
        if constexpr (std::is_copy_constructible_v<T>) {                                                \
          const T x_ = Val<T>::make(k);                                                                 \
          co_yield x_;                                                                                  \
          VM_CHECK(Val<T>::get(x_) == (k), "original-changed", "an object yielded by const reference changed"); \
        } else {                                                                                        \
          co_yield Val<T>::make(k);                                                                     \
        }                                                                                               \
      }                                                                                                 \
    }                                                                                                   \
  } while (0)

template <typename Y>
void fill(std::vector<value_of<Y>>& v, long base, int n) {
  v.reserve(n);
  for (int i = 0; i < n; i++) v.push_back(Val<value_of<Y>>::make(base + i));
}

template <typename Y>
dd::generator<Y> gen_body(World& w, long base, const Plan* p, Obj arg) {
  Running run(w, base);
  long k = base;
  for (const Item& it : p->items) {
    VM_CHECK(run.o.get() == (int)base && arg.get() == (int)(base ^ 1), "local-corrupted", "locals of a body changed");
    if (it.kind == YIELDS) {
      for (int i = 0; i < it.n; i++) {
        BIG_YIELD(Y, w, k, it.style + i);
        k++;
      }
    } else if (it.kind == SUB) {
      co_yield dd::elements_of(gen_body<Y>(w, k, it.sub, Obj((int)(k ^ 1))));
      k += it.sub->len;
    } else if (it.kind == RANGE) {
      std::vector<value_of<Y>> v;
      fill<Y>(v, k, it.n);
      w.made += it.n;
      co_yield dd::elements_of(v);
      k += it.n;
    } else if (it.kind == EMPTY) {
      co_yield dd::elements_of(dd::generator<Y>{});
    } else if (it.kind == EATEN) {
      long b = k - it.n;
      auto g = gen_body<Y>(w, b, it.sub, Obj((int)(b ^ 1)));
      for (int i = 0; i < it.n; i++) {
        auto x = g.begin();
        VM_CHECK(x != g.end(), "values-lost", "a nested generator ends after %d of %ld values", i, it.sub->len);
        long got = Val<value_of<Y>>::get(*x);
        VM_CHECK(got == b + i, "wrong-value", "value %ld instead of %ld out of a generator used inside of a body", got, b + i);
        if constexpr (writable<Y>)
          if (w.two_way) put(*x, got + BASE2);
      }
      w.made -= it.n;
      co_yield dd::elements_of(std::move(g));
      k += it.sub->len - it.n;
    }
  }
  VM_CHECK(k == base + p->len, "harness-plan", "plan length");
  w.ended++;
  if (p->fails) throw Exc{(int)k};
}

template <typename Y>
dd::channel<Y> chan_body(World& w, long base, const Plan* p, Obj arg) {
  Running run(w, base);
  long k = base;
  for (const Item& it : p->items) {
    VM_CHECK(run.o.get() == (int)base && arg.get() == (int)(base ^ 1), "local-corrupted", "locals of a body changed");
    if (it.kind == YIELDS) {
      for (int i = 0; i < it.n; i++) {
        BIG_YIELD(Y, w, k, it.style + i);
        k++;
        if (w.hops && ((it.style + i) & 15) == 15) BIG_HOP(w);
      }
    } else if (it.kind == SUB) {
      co_yield dd::elements_of(chan_body<Y>(w, k, it.sub, Obj((int)(k ^ 1))));
      k += it.sub->len;
    } else if (it.kind == RANGE) {
      std::vector<value_of<Y>> v;
      fill<Y>(v, k, it.n);
      w.made += it.n;
      co_yield dd::elements_of(v);
      k += it.n;
    } else if (it.kind == EMPTY) {
      co_yield dd::elements_of(dd::channel<Y>{});
    } else if (it.kind == HOP) {
      BIG_HOP(w);
    } else if (it.kind == EATEN) {
      long b = k - it.n;
      auto g = chan_body<Y>(w, b, it.sub, Obj((int)(b ^ 1)));
      for (int i = 0; i < it.n; i++) {
        auto* x = co_await g.next();
        VM_CHECK(x != nullptr, "values-lost", "a nested channel ends after %d of %ld values", i, it.sub->len);
        long got = Val<value_of<Y>>::get(*x);
        VM_CHECK(got == b + i, "wrong-value", "value %ld instead of %ld out of a channel used inside of a body", got, b + i);
        if constexpr (writable<Y>)
          if (w.two_way) put(*x, got + BASE2);
      }
      w.made -= it.n;
      co_yield dd::elements_of(std::move(g));
      k += it.sub->len - it.n;
    }
  }
  VM_CHECK(k == base + p->len, "harness-plan", "plan length");
  w.ended++;
  if (p->fails) throw Exc{(int)k};
}

// ---- consumers ------------------------------------------------------------------------------------------
struct Seen {
  World& w;
  const Plan* p;
  long expect = 0, caught = 0;
  void value(long v) {
    VM_CHECK(expect < p->len, "too-many-values", "value %ld after the end of %ld values", v, p->len);
    VM_CHECK(v == expect, "wrong-value", "value %ld instead of %ld (of %ld)", v, expect, p->len);
    expect++;
    if (w.exact) VM_CHECK(w.made == expect, "not-on-demand", "%ld yields executed for %ld values", w.made, expect);
  }
  void failure(int id) {
    VM_CHECK(id == (int)expect, "wrong-exception", "exception of position %d after %ld values", id, expect);
    caught++;
    VM_CHECK(caught <= p->throws, "too-many-exceptions", "%ld exceptions", caught);
  }
  void end() {
    VM_CHECK(expect == p->len, "values-lost", "the end after %ld of %ld values", expect, p->len);
    VM_CHECK(caught == p->throws, "exceptions-lost", "%ld of %ld exceptions", caught, p->throws);
  }
};

enum Mode { M_LOOP = 1, M_MOVE = 2, M_STOP = 4, M_AGAIN = 8 };

template <typename Y>
void consume_gen(Ctx& cx, World& w, const Plan* p, int mode) {
  using T = value_of<Y>;
  Rng r(cx.rng.next());
  Seen s{w, p};
  std::vector<dd::generator<Y>> slots(mode & M_MOVE ? logsize(r, 1, 200) : 1);
  size_t cur = r.below((int)slots.size());
  slots[cur] = gen_body<Y>(w, 0, p, Obj(1));
  VM_CHECK(w.bodies == 0, "not-lazy", "a generator started before its first value was asked for");
  long stop_at = mode & M_STOP ? r.below((int)std::min<long>(p->len + 1, 1 << 30)) : -1;
  bool fresh = true;
  long moves = 0;
  for (long steps = 0;; steps++) {
    if (s.expect == stop_at) break;
    if ((mode & M_MOVE) && r.chance(1, 8)) {
      int k = r.below(5);
      size_t j = (size_t)r.below((int)slots.size());
      if (k == 0) {
        slots[cur].swap(slots[j]);
        cur = j;
      } else if (k == 1) {
        dd::generator<Y> tmp = std::move(slots[cur]);
        VM_CHECK(slots[cur].empty(), "moved-from-not-empty", "moved-from generator is not empty");
        slots[j] = std::move(tmp);
        cur = j;
      } else if (k == 2) {
        if (slots.capacity() > slots.size() + 50) slots.shrink_to_fit();
        slots.push_back({});
        slots.insert(slots.begin(), dd::generator<Y>{});
        cur++;
        if (slots.size() > 300) {
          size_t keep = cur;
          std::vector<dd::generator<Y>> n;
          n.push_back(std::move(slots[keep]));
          slots = std::move(n);
          cur = 0;
        }
      } else if (k == 3) {
        std::sort(slots.begin(), slots.end(), [](auto& a, auto& b) { return a.raw_handle().address() < b.raw_handle().address(); });
        for (size_t i = 0; i < slots.size(); i++)
          if (slots[i].raw_handle()) cur = i;
      } else {
        auto h = slots[cur].release();
        VM_CHECK(slots[cur].empty(), "released-not-empty", "released generator is not empty");
        slots[j].reset(h);
        cur = j;
        fresh = true;  // the current value belongs to the object it was released from
      }
      moves++;
    }
    dd::generator<Y>& g = slots[cur];
    dd::generator_iterator<Y> it(g);
    try {
      if (fresh || (mode & M_AGAIN && r.chance(1, 3))) it = g.begin();
      else ++it;
      fresh = false;
    } catch (const Exc& e) {
      s.failure(e.id);
      fresh = true;
      if (s.expect == p->len && s.caught == p->throws && p->fails) VM_CHECK(g.empty(), "failed-not-empty", "generator is not finished by its exception");
      continue;
    }
    if (it == g.end()) {
      s.end();
      VM_CHECK(g.empty(), "ended-not-empty", "generator at its end is not empty");
      VM_CHECK(g.begin() == g.end(), "values-after-end", "a finished generator produces values");
      break;
    }
    long v = Val<T>::get(*it);
    s.value(v);
    if constexpr (writable<Y>)
      if (w.two_way) {
        if (r.chance(1, 2)) put(*it, v + BASE2);
        else put(*dd::generator_iterator<Y>(g).out(), v + BASE2);
      }
  }
  long alive = w.running;
  slots.clear();
  VM_CHECK(w.running == 0, "frames-leaked", "%ld bodies are left of %ld when the generator was destroyed", w.running, alive);
  cx.observe((uint64_t)s.expect * 31 + (uint64_t)s.caught * 7 + (uint64_t)moves);
  cx.observe(vm::mix((uint64_t)w.bodies * 1000003 + (uint64_t)p->len * 17 + p->depth));
  cx.observations += (uint64_t)s.expect + (uint64_t)w.bodies;
  if (s.expect > 20 || w.bodies > 20) cx.nontrivial = true;
}

struct Result {
  vs::flag done;
  bool finished = false;
};
struct Fire {
  struct promise_type {
    Fire get_return_object() { return {}; }
    std::suspend_never initial_suspend() noexcept { return {}; }
    std::suspend_never final_suspend() noexcept { return {}; }
    void return_void() {}
    void unhandled_exception() { vs::fail("exception-escaped", "exception escaped from the consumer"); }
  };
};

template <typename Y, typename X>
void take_chan(World& w, Seen& s, X&& x) {
  using T = value_of<Y>;
  long v = Val<T>::get(x);
  s.value(v);
  if constexpr (writable<Y>)
    if (w.two_way) put(x, v + BASE2);
}

template <typename Y>
Fire consume_chan(World& w, std::vector<dd::channel<Y>>& slots, size_t cur, Seen& s, Rng r, int mode, long stop_at, Result& res) {
  bool stopped = false;
  while (!stopped) {
    if (w.hops && r.chance(1, 8)) BIG_HOP(w);
    if (mode & M_LOOP) {
      dd::channel<Y>& c = slots[cur];
      bool brk = false;
      try {
        auto b = co_await c.begin();
        for (; b != c.end(); (void)(co_await (++b))) {
          take_chan<Y>(w, s, *b);
          if (s.expect == stop_at) { stopped = true; break; }
          if ((mode & M_AGAIN) && r.chance(1, 16)) { brk = true; break; }
          if (w.hops && r.chance(1, 16)) BIG_HOP(w);
        }
      } catch (const Exc& e) {
        s.failure(e.id);
        continue;
      }
      if (stopped) break;
      if (brk) continue;
      VM_CHECK(c.empty(), "ended-not-empty", "channel at its end is not empty");
      s.end();
      break;
    }
    if ((mode & M_MOVE) && r.chance(1, 8)) {
      size_t j = (size_t)r.below((int)slots.size());
      int k = r.below(4);
      if (k == 0) slots[cur].swap(slots[j]), cur = j;
      else if (k == 1) {
        dd::channel<Y> tmp = std::move(slots[cur]);
        VM_CHECK(slots[cur].empty(), "moved-from-not-empty", "moved-from channel is not empty");
        slots[j] = std::move(tmp);
        cur = j;
      } else if (k == 2) {
        slots.push_back({});
        slots.insert(slots.begin(), dd::channel<Y>{});
        cur++;
        if (slots.size() > 300) {
          std::vector<dd::channel<Y>> n;
          n.push_back(std::move(slots[cur]));
          slots = std::move(n);
          cur = 0;
        }
      } else {
        auto h = slots[cur].release();
        VM_CHECK(slots[cur].empty(), "released-not-empty", "released channel is not empty");
        slots[j].reset(h);
        cur = j;
      }
    }
    auto* x = co_await slots[cur].next();
    if (x) {
      take_chan<Y>(w, s, *x);
      if (s.expect == stop_at) break;
      continue;
    }
    std::exception_ptr e = slots[cur].take_exception();
    if (!e) {
      s.end();
      VM_CHECK(slots[cur].empty(), "ended-not-empty", "channel at its end is not empty");
      VM_CHECK(co_await slots[cur].next() == nullptr, "values-after-end", "a finished channel produces values");
      break;
    }
    int id = -1;
    try {
      std::rethrow_exception(e);
    } catch (const Exc& ex) {
      id = ex.id;
    }
    s.failure(id);
    VM_CHECK(!slots[cur].take_exception(), "exception-twice", "an exception can be taken twice");
  }
  res.finished = true;
  vm::hb_release(&res);
  res.done.set();
}

template <typename Y>
void run_chan(Ctx& cx, World& w, const Plan* p, int mode) {
  Rng r(cx.rng.next());
  Seen s{w, p};
  Result res;
  std::vector<dd::channel<Y>> slots(mode & M_MOVE ? logsize(r, 1, 200) : 1);
  size_t cur = r.below((int)slots.size());
  slots[cur] = chan_body<Y>(w, 0, p, Obj(1));
  VM_CHECK(w.bodies == 0, "not-lazy", "a channel started before its first value was asked for");
  long stop_at = mode & M_STOP ? r.below((int)std::min<long>(p->len + 1, 1 << 30)) : -1;
  if (stop_at != 0) {
    consume_chan<Y>(w, slots, cur, s, Rng(r.next()), mode, stop_at, res);
    if (!w.pool) {
      while (!res.finished) {
        auto h = std::exchange(w.pending, nullptr);
        VM_CHECK((bool)h, "consumer-not-resumed", "nothing can be resumed and the consumer has not got its value (%ld of %ld)", s.expect, p->len);
        h.resume();
      }
    } else {
      res.done.wait();
      vm::hb_acquire(&res);
    }
    VM_CHECK(!w.pending, "two-coroutines-run", "a coroutine is suspended although the consumer goes on");
  }
  long alive = w.running;
  slots.clear();
  VM_CHECK(w.running == 0, "frames-leaked", "%ld bodies are left of %ld when the channel was destroyed", w.running, alive);
  cx.observe((uint64_t)s.expect * 31 + (uint64_t)s.caught * 7);
  cx.observe(vm::mix((uint64_t)w.bodies * 1000003 + (uint64_t)p->len * 17 + p->depth + (uint64_t)w.hops_done * 77));
  cx.observations += (uint64_t)s.expect + (uint64_t)w.bodies;
  if (s.expect > 20 || w.bodies > 20) cx.nontrivial = true;
}

// by type of the element
template <typename Y>
void big_one(Ctx& cx, World& w, bool chan, int mode, int maxsize) {
  std::string what;
  int size = logsize(cx.rng, 2, std::max(3, maxsize / Val<value_of<Y>>::scale));
  Plan* p = w.any(size, what);
  cx.describe = what + ", " + std::to_string(w.plans.size()) + " coroutines, depth " + std::to_string(p->depth) + ", " + std::to_string(p->len) + " values, " + std::to_string(p->throws) + " exceptions";
  if (chan) run_chan<Y>(cx, w, p, mode);
  else consume_gen<Y>(cx, w, p, mode);
}
void big(Ctx& cx, World& w, bool chan, int mode, int maxsize) {
  w.r = Rng(cx.rng.next());
  switch (cx.rng.below(9)) {
    case 0: return big_one<Obj>(cx, w, chan, mode, maxsize);
    case 1: return big_one<Obj&>(cx, w, chan, mode, maxsize);
    case 2: return big_one<const Obj&>(cx, w, chan, mode, maxsize);
    case 3: return big_one<MoveOnly>(cx, w, chan, mode, maxsize);
    case 4: return big_one<std::string>(cx, w, chan, mode, maxsize);
    case 5: return big_one<Pod>(cx, w, chan, mode, maxsize);
    case 6: return big_one<Odd>(cx, w, chan, mode, maxsize);
    default: return big_one<int>(cx, w, chan, mode, maxsize);
  }
}

SEQ_SCENARIO("C01", "big_programs", 3) {
  World w;
  w.eat = cx.rng.chance(1, 3);
  big(cx, w, false, M_LOOP | (cx.rng.chance(1, 2) ? M_AGAIN : 0), 30000);
}
SEQ_SCENARIO("C02", "big_throwing", 3) {
  World w;
  w.can_throw = true;
  w.eat = cx.rng.chance(1, 3);
  big(cx, w, false, cx.rng.below(16) & (M_LOOP | M_AGAIN | M_MOVE), 15000);
}
SEQ_SCENARIO("C03", "big_moves", 3) {
  World w;
  w.can_throw = cx.rng.chance(1, 4);
  w.eat = cx.rng.chance(1, 3);
  big(cx, w, false, M_MOVE | (cx.rng.below(16) & (M_AGAIN | M_STOP)), 15000);
}
SEQ_SCENARIO("C04", "big_two_way", 3) {
  World w;
  w.two_way = true;
  w.eat = cx.rng.chance(1, 3);
  bool chan = cx.rng.chance(1, 2);
  if (chan) w.hops = cx.rng.chance(1, 2);
  big(cx, w, chan, cx.rng.below(16), 15000);
}
SEQ_SCENARIO("C05", "big_programs", 3) {
  World w;
  w.eat = cx.rng.chance(1, 3);
  w.hops = cx.rng.chance(2, 3);
  big(cx, w, true, cx.rng.below(16) & (M_LOOP | M_AGAIN), 20000);
}
SEQ_SCENARIO("C06", "big_throwing", 3) {
  World w;
  w.can_throw = cx.rng.chance(2, 3);
  w.eat = cx.rng.chance(1, 3);
  w.hops = cx.rng.chance(1, 2);
  big(cx, w, true, cx.rng.below(16), 15000);
}
MT_SCENARIO("C05", "big_threads", 2) {
  World w;
  int maxsize = vm::big(60, 1500);
  w.eat = cx.rng.chance(1, 3);
  w.hops = true;
  dd::thread_pool pool((size_t)cx.rng.range(1, 8));
  w.pool = &pool;
  big(cx, w, true, cx.rng.below(16) & (M_LOOP | M_AGAIN), maxsize);
}
MT_SCENARIO("C06", "big_threads", 2) {
  World w;
  int maxsize = vm::big(60, 1500);
  w.can_throw = true;
  w.hops = true;
  dd::thread_pool pool((size_t)cx.rng.range(1, 8));
  w.pool = &pool;
  big(cx, w, true, cx.rng.below(16), maxsize);
}

// ---- forests: very many objects, composed, moved, partly consumed, dropped ------------------------------------
struct Seg {
  int from, to;  // values [from, to)
};
struct Model {
  std::deque<Seg> segs;
  int depth = 0;
  void push_front(int a, int b) {
    if (a < b) segs.push_front({a, b});
  }
  void push_back(int a, int b) {
    if (a < b) segs.push_back({a, b});
  }
};
template <typename Y>
struct FG {
  using G = dd::generator<Y>;
  static G plain(World& w, int base, int n) {
    Running run(w, base);
    for (int i = 0; i < n; i++) { Obj o(base + i); co_yield std::move(o); }
  }
  static G compose(World& w, int base, int pre, G inner, G second, int post) {
    Running run(w, base);
    for (int i = 0; i < pre; i++) co_yield Obj(base + i);
    co_yield dd::elements_of(std::move(inner));
    co_yield dd::elements_of(std::move(second));
    for (int i = 0; i < post; i++) { const Obj o(base + pre + i); co_yield o; }
  }
};
template <typename Y>
struct FC {
  using G = dd::channel<Y>;
  static G plain(World& w, int base, int n) {
    Running run(w, base);
    for (int i = 0; i < n; i++) { Obj o(base + i); co_yield std::move(o); }
  }
  static G compose(World& w, int base, int pre, G inner, G second, int post) {
    Running run(w, base);
    for (int i = 0; i < pre; i++) co_yield Obj(base + i);
    co_yield dd::elements_of(std::move(inner));
    co_yield dd::elements_of(std::move(second));
    for (int i = 0; i < post; i++) { const Obj o(base + pre + i); co_yield o; }
  }
};
// next value of 'g' or -1
int step(dd::generator<Obj>& g, bool resume_only) {
  dd::generator_iterator<Obj> it(g);
  if (resume_only && !g.empty()) ++it;
  else it = g.begin();
  return it == g.end() ? -1 : (*it).get();
}
Fire step_chan(dd::channel<Obj>& c, bool, int& out) {
  auto* x = co_await c.next();
  out = x ? x->get() : -1;
}
int step(dd::channel<Obj>& c, bool resume_only) {
  int out = -2;
  step_chan(c, resume_only, out);
  VM_CHECK(out != -2, "consumer-not-resumed", "next of a channel did not continue its consumer");
  return out;
}

template <typename F>
void forest(Ctx& cx) {
  using G = typename F::G;
  World w;
  Rng& r = cx.rng;
  int nslots = logsize(r, 1, 400);
  int nops = logsize(r, 50, 30000);
  std::vector<G> gs(nslots);
  std::vector<Model> ms(nslots);
  int next_id = 0;
  long values = 0, composed = 0, maxdepth = 0, ends = 0;
  int p_new = r.range(1, 6), p_comp = r.range(1, 12), p_step = r.range(4, 30), p_move = r.range(1, 8), p_drop = r.chance(1, 2);
  int tot = p_new + p_comp + p_step + p_move + p_drop;
  auto fresh = [&](int i) {
    int n = r.below(9);
    gs[i] = G();
    gs[i].clear();
    gs[i] = F::plain(w, next_id * 16, n);
    ms[i] = {};
    ms[i].push_back(next_id * 16, next_id * 16 + n);
    ms[i].depth = 1;
    next_id++;
  };
  for (int op = 0; op < nops; op++) {
    int i = r.below(nslots), j = r.below(nslots);
    int k = r.below(tot);
    if ((k -= p_new) < 0) {
      if (gs[i].empty() || r.chance(1, 4)) fresh(i);
    } else if ((k -= p_comp) < 0) {
      // i becomes a part of a new one
      if (ms[i].depth + (i != j ? ms[j].depth : 0) > MAX_DEPTH / 2) {
        gs[i].clear();
        ms[i] = {};
        continue;
      }
      int pre = r.below(4), post = r.below(4), base = next_id++ * 16;
      G second;
      Model m2;
      if (i != j && r.chance(1, 3)) {
        second = std::move(gs[j]);
        m2 = std::move(ms[j]);
        ms[j] = {};
      }
      gs[i] = F::compose(w, base, pre, std::move(gs[i]), std::move(second), post);
      for (Seg& s : m2.segs) ms[i].push_back(s.from, s.to);
      ms[i].push_front(base, base + pre);
      ms[i].push_back(base + pre, base + pre + post);
      ms[i].depth = std::max(ms[i].depth, m2.depth) + 1;
      maxdepth = std::max<long>(maxdepth, ms[i].depth);
      composed++;
    } else if ((k -= p_step) < 0) {
      int n = r.chance(1, 20) ? logsize(r, 1, 300) : r.range(1, 4);
      for (int t = 0; t < n; t++) {
        int got = step(gs[i], r.chance(1, 2));
        if (got == -1) {
          VM_CHECK(ms[i].segs.empty(), "values-lost", "the end although value %d is not produced yet", ms[i].segs.front().from);
          VM_CHECK(gs[i].empty(), "ended-not-empty", "not empty at its end");
          ms[i].depth = 0;
          ends++;
          break;
        }
        VM_CHECK(!ms[i].segs.empty(), "too-many-values", "value %d after the last one", got);
        Seg& s = ms[i].segs.front();
        VM_CHECK(got == s.from, "wrong-value", "value %d instead of %d", got, s.from);
        if (++s.from == s.to) ms[i].segs.pop_front();
        values++;
      }
    } else if ((k -= p_move) < 0) {
      switch (r.below(6)) {
        case 0:
        case 1:
          gs[i].swap(gs[j]);
          if (i != j) std::swap(ms[i], ms[j]);
          break;
        case 2:
          std::swap(gs[i], gs[j]);
          if (i != j) std::swap(ms[i], ms[j]);
          break;
        case 3: {
          auto h = gs[i].release();
          G other;
          other.reset(h);
          gs[i].swap(other);
          break;
        }
        case 4: {  // all of them move
          std::vector<G> n;
          n.reserve(nslots);
          for (auto& g : gs) n.push_back(std::move(g));
          for (auto& g : gs) VM_CHECK(g.empty(), "moved-from-not-empty", "moved-from object is not empty");
          gs = std::move(n);
          break;
        }
        default: {
          int a = std::min(i, j), b = std::max(i, j);
          std::rotate(gs.begin() + a, gs.begin() + (a + b) / 2, gs.begin() + b);
          std::rotate(ms.begin() + a, ms.begin() + (a + b) / 2, ms.begin() + b);
        }
      }
    } else {
      if (r.chance(1, 2)) gs[i].clear();
      else { G dead; dead.swap(gs[i]); }
      ms[i] = {};
      VM_CHECK(gs[i].empty(), "cleared-not-empty", "not empty after clear");
    }
  }
  for (int i = 0; i < nslots; i++) {
    VM_CHECK(ms[i].segs.empty() || !gs[i].empty(), "values-lost", "empty although values are left");
    if (r.chance(1, 4))
      while (!ms[i].segs.empty()) {
        int got = step(gs[i], true);
        Seg& s = ms[i].segs.front();
        VM_CHECK(got == s.from, "wrong-value", "value %d instead of %d", got, s.from);
        if (++s.from == s.to) ms[i].segs.pop_front();
        values++;
      }
  }
  gs.clear();
  VM_CHECK(w.running == 0, "frames-leaked", "%ld bodies exist after everything was destroyed", w.running);
  cx.observe(values * 31 + composed * 7 + maxdepth);
  cx.observe(ends * 1000003 + next_id);
  cx.observations += values + composed;
  cx.nontrivial = true;
  cx.describe = std::to_string(nslots) + " objects, " + std::to_string(nops) + " operations, " + std::to_string(values) + " values, depth " + std::to_string(maxdepth);
}
SEQ_SCENARIO("C03", "forest", 3) { forest<FG<Obj>>(cx); }
SEQ_SCENARIO("C01", "forest", 1) { forest<FG<Obj>>(cx); }
SEQ_SCENARIO("C06", "forest", 3) { forest<FC<Obj>>(cx); }
SEQ_SCENARIO("C05", "forest", 1) { forest<FC<Obj>>(cx); }

// ---- in-place generators ----------------------------------------------------------------------------------
template <typename Y>
dd::inplace_generator<Y> inplace_body(World& w, long n, int style, bool fails, Obj arg) {
  Running run(w, n);
  for (long k = 0; k < n; k++) {
    BIG_YIELD(Y, w, k, style + (int)k);
    VM_CHECK(run.o.get() == (int)n && arg.get() == 77, "local-corrupted", "locals of a body changed");
  }
  w.ended++;
  if (fails) throw Exc{(int)n};
}
template <typename Y>
void inplace_one(Ctx& cx, bool two_way) {
  using T = value_of<Y>;
  Rng& r = cx.rng;
  World w;
  w.two_way = two_way;
  long n = logsize(r, 1, 70000 / Val<T>::scale) - 1;
  bool fails = n > 0 && r.chance(1, 4);
  bool moves = r.chance(1, 2);
  long stop_at = r.chance(1, 4) ? r.below((int)n + 1) : -1;
  long expect = 0, many = 0;
  {
    int k = moves ? logsize(r, 1, 100) : 1;
    std::deque<World> others((size_t)k);
    std::deque<dd::inplace_generator<Y>> slots;
    for (int i = 0; i < k; i++) {
      if (i == 0) slots.push_back(inplace_body<Y>(w, n, r.below(4), fails, Obj(77)));
      else slots.push_back(inplace_body<Y>(others[i], 3, r.below(4), false, Obj(77)));
    }
    VM_CHECK(w.made == (n > 0), "not-eager", "%ld values computed at creation", w.made);
    size_t cur = 0;
    for (;;) {
      if (moves && r.chance(1, 8)) {
        size_t j = (size_t)r.below(k);
        if (r.chance(1, 2)) slots[cur].swap(slots[j]), cur = j;
        else {
          dd::inplace_generator<Y> tmp = std::move(slots[cur]);
          VM_CHECK(slots[cur].empty() && slots[cur].begin() == slots[cur].end(), "moved-from-not-empty", "moved-from generator is not empty");
          slots[j] = std::move(tmp);
          cur = j;
        }
        many++;
      }
      auto& g = slots[cur];
      auto it = g.begin();
      if (it == g.end()) {
        VM_CHECK(expect == n && g.empty(), "values-lost", "the end after %ld of %ld values", expect, n);
        VM_CHECK(!fails, "exceptions-lost", "the end instead of an exception");
        VM_CHECK(w.ended == 1, "end-too-early", "the end is reported before the body finished");
        break;
      }
      VM_CHECK(!g.empty(), "empty-too-early", "empty although there is a value");
      long v = Val<T>::get(*it);
      VM_CHECK(v == expect, "wrong-value", "value %ld instead of %ld", v, expect);
      VM_CHECK(w.made == expect + 1, "not-on-demand", "%ld values computed when value %ld is read", w.made, expect);
      if constexpr (writable<Y>)
        if (two_way) put(*it, v + BASE2);
      if (expect == stop_at) break;
      expect++;
      try {
        if (r.chance(1, 2)) ++it;
        else it++;
      } catch (const Exc& e) {
        VM_CHECK(fails && e.id == n && expect == n, "wrong-exception", "exception %d after %ld values", e.id, expect);
        VM_CHECK(g.empty() && g.begin() == g.end(), "failed-not-empty", "not finished by its exception");
        VM_CHECK(w.running == 0, "locals-alive", "locals of a failed body are alive");
        break;
      }
    }
  }
  VM_CHECK(w.running == 0, "frames-leaked", "%ld bodies left", w.running);
  cx.observe(expect * 31 + many);
  cx.observe(n);
  cx.observations += expect;
  if (expect > 3) cx.nontrivial = true;
}
void inplace(Ctx& cx, bool two_way) {
  switch (cx.rng.below(8)) {
    case 0: return inplace_one<Obj>(cx, two_way);
    case 1: return inplace_one<Obj&>(cx, two_way);
    case 2: return inplace_one<const Obj&>(cx, two_way);
    case 3: return inplace_one<MoveOnly>(cx, two_way);
    case 4: return inplace_one<std::string>(cx, two_way);
    case 5: return inplace_one<Pod>(cx, two_way);
    case 6: return inplace_one<Odd>(cx, two_way);
    default: return inplace_one<int>(cx, two_way);
  }
}
SEQ_SCENARIO("C07", "big_inplace", 3) { inplace(cx, cx.rng.chance(1, 3)); }
SEQ_SCENARIO("C04", "big_inplace", 1) { inplace(cx, true); }

}  // namespace
VM_MAIN
