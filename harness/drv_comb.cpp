// C19 when_all(task...), C20 when_any(task...)
#include "vmon.hpp"
#include "kelcoro/algorithm.hpp"
#include "kelcoro/thread_pool.hpp"

using vm::completion;
using vm::Ctx;
using vm::Exc;
using vm::MoveOnly;
using vm::Obj;
using vm::Rng;

namespace {

struct Pod {
  long a[4];
};
// can be made from anything, as std::any can
struct Greedy {
  int v = -1;
  Greedy() = default;
  Greedy(const Greedy&) = default;
  Greedy(Greedy&&) = default;
  Greedy& operator=(const Greedy&) = default;
  template <typename T>
    requires(!std::is_same_v<std::remove_cvref_t<T>, Greedy>)
  Greedy(T&& x) {
    if constexpr (std::is_same_v<std::remove_cvref_t<T>, int>) v = x;
    else v = -55;
  }
};
struct Env;
struct Kid {
  int id = 0, hops = 0;
  int targets[4] = {};
  bool throws = false, kills = false;
  int nested = 0;  // awaits a combinator of its own: 1 when_all, 2 when_any
  std::deque<Kid> sub;
  // plain: ordered by the library
  int started = 0, ended = 0, payload = 0;
  vs::counter frames, locals, s_started, s_ended;
  completion* gone = nullptr;
};
struct Frame {
  Kid* k;
  explicit Frame(Kid& x) : k(&x) {}
  Frame(Frame&& o) : k(std::exchange(o.k, nullptr)) {}
  ~Frame() {
    if (!k) return;
    VM_CHECK(k->frames.get() == 0, "frame-destroyed-twice", "frame of task %d", k->id);
    VM_CHECK(k->locals.get() == 0, "locals-alive", "frame of task %d destroyed before its locals", k->id);
    completion* g = k->gone;
    vm::hb_release(&k->frames);
    k->frames.add();  // last access to *k, unless 'gone' is set
    if (g) g->one();
  }
};
struct Local {
  Kid& k;
  explicit Local(Kid& x) : k(x) { k.locals.add(); }
  Local(Local&&) = delete;
  ~Local() { k.locals.add(-1); }
};
struct Env {
  bool seq = false;
  dd::thread_pool* pool = nullptr;
  dd::worker* w = nullptr;
  std::vector<struct Park*> parked;
  std::vector<Kid*> order;  // ends, one thread only
  completion* comp = nullptr;
  Rng rng{1};
  std::coroutine_handle<> waiter;  // to be destroyed by a task
  bool killed = false;
};
struct Park {
  Env& e;
  std::coroutine_handle<> h;
  explicit Park(Env& e) : e(e) {}
  bool await_ready() { return false; }
  void await_suspend(std::coroutine_handle<> x) {
    h = x;
    e.parked.push_back(this);
  }
  void await_resume() {}
  ~Park() { std::erase(e.parked, this); }
};
#define HOP(e, target)                                                        \
  do {                                                                        \
    if ((e).seq) co_await Park(e);                                            \
    else if ((target) == 0) (void)co_await dd::jump_on(*(e).w);                \
    else if ((target) == 1) (void)co_await dd::jump_on(*(e).pool);             \
    else (void)co_await dd::jump_on(dd::new_thread_executor);                  \
  } while (0)

void drain(Env& e, Ctx& cx, int limit = 1 << 30) {
  while (!e.parked.empty() && limit-- > 0) {
    size_t i = (size_t)e.rng.below((int)e.parked.size());
    Park* p = e.parked[i];
    e.parked.erase(e.parked.begin() + (long)i);
    cx.observe(i);
    p->h.resume();
  }
}

int value_of(const Kid& k) { return k.id * 10 + 1; }
template <typename T>
void check_value(const Kid& k, T& v, const char* where) {
  if constexpr (std::is_same_v<T, int>) VM_CHECK(v == value_of(k), "wrong-result", "%s: value %d at the position of task %d", where, v, k.id);
  else if constexpr (std::is_same_v<T, Greedy>) VM_CHECK(v.v == value_of(k), "wrong-result", "%s: value %d at the position of task %d", where, v.v, k.id);
  else if constexpr (std::is_same_v<T, Pod>) { for (int i = 0; i < 4; i++) VM_CHECK(v.a[i] == value_of(k) + i, "wrong-result", "%s: value %ld at the position of task %d", where, v.a[i], k.id); }
  else if constexpr (std::is_base_of_v<Obj, T>) VM_CHECK(v.get() == value_of(k), "wrong-result", "%s: value %d at the position of task %d", where, v.get(), k.id);
}
template <typename Ex>
void check_all_pos(Kid& k, Ex& x, const char* where) {
  VM_CHECK(k.started == 1 && k.ended == 1, "completed-too-early", "%s completed, task %d started %d ended %d", where, k.id, k.started, k.ended);
  VM_CHECK(k.payload == value_of(k), "effects-not-visible", "payload of task %d", k.id);
  VM_CHECK(k.locals.get() == 0, "locals-alive", "locals of task %d", k.id);
  VM_CHECK(x.has_value() == !k.throws && bool(x) == !k.throws, "wrong-result", "%s: task %d %s", where, k.id, k.throws ? "failed but has a value" : "succeeded but has none");
  if (k.throws) {
    try { std::rethrow_exception(x.error()); } catch (const Exc& e) { VM_CHECK(e.id == k.id, "wrong-result", "%s: exception of %d at the position of %d", where, e.id, k.id); }
  } else if constexpr (requires { *x; })
    check_value(k, *x, where);
}

template <typename R>
dd::task<R> leaf(Env& e, Kid& k, Frame f, Obj arg);
template <typename R>
dd::task<R> mk(Env& e, Kid& k) { return leaf<R>(e, k, Frame(k), Obj(k.id)); }

// "alive": the combinator's frame is still there when its result is looked at
template <typename T>
dd::task<void> all_vec(Env& e, std::deque<Kid>& kids, Rng& r) {
  std::vector<dd::task<T>> v;
  for (Kid& k : kids) v.push_back(mk<T>(e, k));
  int how = r.below(3);
  int times = 0;
  if (how == 0) {
    auto res = co_await dd::when_all(std::move(v));
    VM_CHECK(++times == 1, "completed-twice", "");
    VM_CHECK(res.size() == kids.size(), "wrong-result", "%zu results of %zu tasks", res.size(), kids.size());
    for (size_t i = 0; i < res.size(); i++) check_all_pos(kids[i], res[i], "when_all(vector)");
    for (Kid& k : kids) VM_CHECK(k.frames.get() == 1, "frame-not-destroyed", "task %d lives longer than when_all", k.id);
  } else {
    auto t = dd::when_all(std::move(v));
    for (Kid& k : kids) VM_CHECK(k.s_started.get() == 0, "started-early", "task %d runs before when_all is awaited", k.id);
    if (how == 1) co_await t.wait();
    auto&& res = co_await t;
    VM_CHECK(++times == 1, "completed-twice", "");
    VM_CHECK(res.size() == kids.size(), "wrong-result", "%zu results of %zu tasks", res.size(), kids.size());
    for (size_t i = 0; i < res.size(); i++) check_all_pos(kids[i], res[i], "when_all(vector)");
  }
}
template <typename... Ts>
dd::task<void> all_tup(Env& e, std::deque<Kid>& kids) {
  int times = 0;
  {
    auto t = [&]<size_t... I>(std::index_sequence<I...>) { return dd::when_all(mk<Ts>(e, kids[I])...); }(std::index_sequence_for<Ts...>{});
    for (Kid& k : kids) VM_CHECK(k.s_started.get() == 0, "started-early", "task %d runs before when_all is awaited", k.id);
    auto res = co_await t;
    VM_CHECK(++times == 1, "completed-twice", "");
    [&]<size_t... I>(std::index_sequence<I...>) { (check_all_pos(kids[I], std::get<I>(res), "when_all"), ...); }(std::index_sequence_for<Ts...>{});
  }
  for (Kid& k : kids) VM_CHECK(k.frames.get() == 1, "frame-not-destroyed", "task %d lives longer than when_all", k.id);
}
template <typename... Ts>
dd::task<void> any_tup(Env& e, std::deque<Kid>& kids) {
  int times = 0;
  size_t order0 = e.order.size();
  auto res = co_await [&]<size_t... I>(std::index_sequence<I...>) { return dd::when_any(mk<Ts>(e, kids[I])...); }(std::index_sequence_for<Ts...>{});
  VM_CHECK(++times == 1, "completed-twice", "");
  size_t idx = res.index();
  VM_CHECK(idx >= 1 && idx <= sizeof...(Ts), "wrong-index", "index %zu of %zu tasks", idx, sizeof...(Ts));
  Kid& k = kids[idx - 1];
  bool failed = false;
  [&]<size_t... I>(std::index_sequence<I...>) {
    auto one = [&](auto* x) {
      if (!x) return;
      failed = !x->has_value();
      check_all_pos(k, *x, "when_any");
    };
    (one(std::get_if<I + 1>(&res)), ...);
  }(std::index_sequence_for<Ts...>{});
  int unfinished_success = 0;
  for (Kid& q : kids) {
    if (failed) VM_CHECK(q.throws && q.s_ended.get() == 1, "failed-too-early", "when_any gives an exception, but task %d %s", q.id, q.throws ? "did not end" : "does not fail");
    (void)unfinished_success;
  }
  if (e.seq) {
    // exact order of the ends of these tasks
    Kid* first_ok = nullptr;
    Kid* last = nullptr;
    for (size_t i = order0; i < e.order.size(); i++)
      for (Kid& q : kids)
        if (&q == e.order[i]) {
          last = &q;
          if (!q.throws && !first_ok) first_ok = &q;
        }
    if (first_ok) VM_CHECK(first_ok == &k, "not-the-first", "result of task %d, task %d succeeded first", k.id, first_ok->id);
    else VM_CHECK(last == &k, "not-the-last-failure", "exception of task %d, task %d failed last", k.id, last ? last->id : 0);
  }
}

template <typename R>
dd::task<R> leaf(Env& e, Kid& k, Frame f, Obj arg) {
  Local l(k);
  Obj tail(k.id);
  k.s_started.add();
  VM_CHECK(k.s_started.get() == 1, "started-twice", "task %d", k.id);
  k.started++;
  for (int i = 0; i < k.hops; i++) {
    HOP(e, k.targets[i]);
    VM_CHECK(arg.get() == k.id && tail.get() == k.id, "object-corrupted", "locals");
  }
  if (k.kills && e.waiter) {
    e.killed = true;
    std::exchange(e.waiter, nullptr).destroy();
    VM_CHECK(arg.get() == k.id && tail.get() == k.id, "object-corrupted", "locals of the task which destroyed the waiter");
  }
  if (k.nested) {
    Rng r((uint64_t)k.id);
    if (k.nested == 1) co_await all_vec<Obj>(e, k.sub, r);
    else if (k.sub.size() == 2) co_await any_tup<Obj, void>(e, k.sub);
    else co_await any_tup<void>(e, k.sub);
  }
  k.payload = value_of(k);
  k.ended++;
  k.s_ended.add();
  VM_CHECK(k.s_ended.get() == 1, "ended-twice", "task %d", k.id);
  if (e.seq) e.order.push_back(&k);
  if (k.throws) throw Exc{k.id};
  if constexpr (std::is_void_v<R>) co_return;
  else if constexpr (std::is_same_v<R, Pod>) {
    Pod p;
    for (int i = 0; i < 4; i++) p.a[i] = value_of(k) + i;
    co_return p;
  } else
    co_return R(value_of(k));
}

struct Case {
  Env e;
  std::deque<std::deque<Kid>> rounds;
  std::vector<int> shape;
  int ids = 0, frames = 0;
  bool any = false;
  int max_hops = 3;
  int throw_den = 4;
  void fill(Rng& r, std::deque<Kid>& kids, int n, int depth) {
    for (int i = 0; i < n; i++) {
      kids.emplace_back();
      Kid& k = kids.back();
      k.id = ++ids;
      frames++;
      k.hops = r.chance(1, 3) ? 0 : r.below(max_hops + 1);
      for (int& t : k.targets) t = r.below(10) == 0 ? 2 : r.below(2);
      k.throws = r.chance(1, throw_den);
      if (depth < 1 && r.chance(1, 6)) {
        k.nested = 1 + r.below(2);
        fill(r, k.sub, k.nested == 1 ? r.below(4) : r.range(1, 2), depth + 1);
      }
    }
  }
  void set_gone(completion* c, std::deque<Kid>& kids) {
    for (Kid& k : kids) k.gone = c, set_gone(c, k.sub);
  }
};

enum { SH_V_OBJ, SH_V_VOID, SH_V_MOVE, SH_V_INT, SH_T1, SH_T2, SH_T3, SH_T4, SH_T5, SH_T9, SH_N };
int shape_size(Rng& r, int sh, bool big) {
  switch (sh) {
    case SH_T1: return 1;
    case SH_T2: return 2;
    case SH_T3: return 3;
    case SH_T4: return 4;
    case SH_T5: return 5;
    case SH_T9: return 9;
    default: return big ? (r.chance(1, 25) ? r.range(250, 1100) : r.range(20, 70)) : r.below(6);
  }
}

struct Here {
  std::coroutine_handle<>& h;
  bool await_ready() { return false; }
  bool await_suspend(std::coroutine_handle<> x) {
    h = x;
    return false;
  }
  void await_resume() {}
};
dd::job waiter(Case& c, Kid& self, Frame f, Rng r, Obj arg) {
  Local l(self);
  Env& e = c.e;
  if (e.seq) co_await Here{e.waiter};
  for (size_t i = 0; i < c.rounds.size(); i++) {
    std::deque<Kid>& kids = c.rounds[i];
    if (!c.any) {
      switch (c.shape[i]) {
        case SH_V_OBJ: co_await all_vec<Obj>(e, kids, r); break;
        case SH_V_VOID: co_await all_vec<void>(e, kids, r); break;
        case SH_V_MOVE: co_await all_vec<MoveOnly>(e, kids, r); break;
        case SH_V_INT: co_await all_vec<Greedy>(e, kids, r); break;
        case SH_T1: co_await all_tup<Obj>(e, kids); break;
        case SH_T2: co_await all_tup<void, Obj>(e, kids); break;
        case SH_T3: co_await all_tup<Greedy, MoveOnly, void>(e, kids); break;
        case SH_T4: co_await all_tup<Obj, Obj, Obj, Obj>(e, kids); break;
        case SH_T9: co_await all_tup<void, int, Obj, void, Greedy, Obj, void, MoveOnly, int>(e, kids); break;
        default: co_await all_tup<void, Pod, MoveOnly, int, Obj>(e, kids); break;
      }
    } else {
      switch (c.shape[i]) {
        case SH_T1: co_await any_tup<Obj>(e, kids); break;
        case SH_T2: co_await any_tup<void, Obj>(e, kids); break;
        case SH_T3: co_await any_tup<Greedy, MoveOnly, void>(e, kids); break;
        case SH_T4: co_await any_tup<Obj, Obj, Obj, Obj>(e, kids); break;
        case SH_T9: co_await any_tup<void, int, Obj, void, Greedy, Obj, void, MoveOnly, int>(e, kids); break;
        default: co_await any_tup<void, Pod, MoveOnly, int, Obj>(e, kids); break;
      }
    }
    VM_CHECK(arg.get() == 77, "object-corrupted", "argument");
    self.payload = (int)i + 1;
  }
  e.waiter = nullptr;
  self.ended++;
  self.s_ended.add();
}

void build(Case& c, Ctx& cx, bool any) {
  Rng& r = cx.rng;
  c.any = any;
  c.throw_den = any ? r.range(1, 4) : r.range(2, 6);
  int rounds = r.range(1, 3);
  for (int i = 0; i < rounds; i++) {
    int sh = any ? SH_T1 + r.below(6) : r.below(SH_N);
    c.shape.push_back(sh);
    c.rounds.emplace_back();
    bool big = !any && c.e.seq && r.chance(1, 20);
    int n = shape_size(r, sh, big);
    c.fill(r, c.rounds.back(), n, big ? 1 : 0);
    cx.describe += (any ? "when_any(" : "when_all(") + std::to_string(n) + " shape " + std::to_string(sh) + ") ";
    if (n > 1) cx.nontrivial = true;
  }
}
void observe_all(Ctx& cx, std::deque<Kid>& kids) {
  for (Kid& k : kids) {
    cx.observe((uint64_t)k.s_started.get() * 4 + (uint64_t)k.s_ended.get() * 2 + k.throws + (uint64_t)k.hops * 16);
    observe_all(cx, k.sub);
  }
}
void check_end(Case& c, std::deque<Kid>& kids, bool all_must_run, bool parent_ran) {
  for (Kid& k : kids) {
    VM_CHECK(k.frames.get() == (parent_ran ? 1 : k.frames.get()) && k.frames.get() <= 1, "frame-not-destroyed", "frame of task %d destroyed %ld times", k.id, k.frames.get());
    VM_CHECK(k.locals.get() == 0, "locals-alive", "");
    VM_CHECK(k.s_started.get() == k.s_ended.get(), "started-not-finished", "task %d was started and did not run to its end", k.id);
    if (all_must_run) VM_CHECK(k.s_started.get() == 1, "not-started", "task %d was not started", k.id);
    bool ran = k.s_started.get() == 1;
    check_end(c, k.sub, ran && k.nested == 1, ran);
  }
}

void run_mt(Ctx& cx, bool any) {
  Case c;
  build(c, cx, any);
  Rng& r = cx.rng;
  Kid self;
  completion gone(1);  // the waiter
  self.gone = &gone;
  {
    dd::thread_pool pool((size_t)r.range(1, 3));
    dd::worker w;
    c.e.pool = &pool;
    c.e.w = &w;
    waiter(c, self, Frame(self), Rng(r.next()), Obj(77));
    gone.wait();
    VM_CHECK(self.s_ended.get() == 1, "never-completed", "waiter was destroyed before its end");
    // losers may be anywhere. wait until all created frames are gone
    std::function<bool(std::deque<Kid>&)> left = [&](std::deque<Kid>& kids) {
      for (Kid& k : kids) {
        if (k.frames.get() == 0) return true;
        vm::hb_acquire(&k.frames);
        if (k.s_started.get() && left(k.sub)) return true;
      }
      return false;
    };
    for (long spins = 0;; spins++) {
      bool l = false;
      for (auto& kids : c.rounds) l |= left(kids);
      if (!l) break;
#ifdef VS_CONTROLLED
      VM_CHECK(spins < 100000, "frame-not-destroyed", "frames of tasks are not destroyed");
      vs::yield_point();
#else
      VM_CHECK(spins < 60000, "frame-not-destroyed", "frames of tasks are not destroyed");
      std::this_thread::sleep_for(std::chrono::milliseconds(spins < 100 ? 0 : 1));
#endif
    }
  }
  for (auto& kids : c.rounds) { check_end(c, kids, !any, true); observe_all(cx, kids); }
}

void run_seq(Ctx& cx, bool any) {
  Case c;
  c.e.seq = true;
  build(c, cx, any);
  Rng& r = cx.rng;
  c.e.rng = Rng(r.next());
  Kid self;
  waiter(c, self, Frame(self), Rng(r.next()), Obj(77));
  drain(c.e, cx);
  VM_CHECK(self.s_ended.get() == 1, "never-completed", "all tasks are done, the waiter is not");
  VM_CHECK(self.frames.get() == 1, "frame-not-destroyed", "waiter");
  for (auto& kids : c.rounds) { check_end(c, kids, !any, true); observe_all(cx, kids); }
}

MT_SCENARIO("C19", "threads", 6) { run_mt(cx, false); }
SEQ_SCENARIO("C19", "sequential", 5) { run_seq(cx, false); }
MT_SCENARIO("C20", "threads", 6) { run_mt(cx, true); }
SEQ_SCENARIO("C20", "sequential", 5) { run_seq(cx, true); }

// waiter, result and everything around are gone while losers run: no nested when_all, which would die with its owner
SEQ_SCENARIO("C20", "waiter_destroyed", 2) {
  Rng& r = cx.rng;
  Case c;
  c.e.seq = true;
  c.any = true;
  c.e.rng = Rng(r.next());
  c.throw_den = r.range(1, 4);
  int rounds = r.range(1, 2);
  for (int i = 0; i < rounds; i++) {
    int sh = SH_T1 + r.below(6);
    c.shape.push_back(sh);
    c.rounds.emplace_back();
    c.fill(r, c.rounds.back(), shape_size(r, sh, false), 1);
    cx.describe += "when_any(shape " + std::to_string(sh) + ") ";
  }
  cx.nontrivial = true;
  Kid self;
  // destroyed from outside, or by one of the tasks, perhaps while the tasks are starting
  if (r.chance(1, 2))
    for (auto& kids : c.rounds)
      for (Kid& k : kids) k.kills = r.chance(1, 4);
  waiter(c, self, Frame(self), Rng(r.next()), Obj(77));
  drain(c.e, cx, r.below(8));
  if (c.e.waiter) std::exchange(c.e.waiter, nullptr).destroy();
  drain(c.e, cx);
  cx.observe(c.e.killed);
  VM_CHECK(self.frames.get() == 1, "frame-not-destroyed", "waiter");
  for (auto& kids : c.rounds)
    for (Kid& k : kids) {
      VM_CHECK(k.s_started.get() == k.s_ended.get(), "started-not-finished", "loser %d did not run to its end", k.id);
      VM_CHECK(k.s_started.get() == 0 || k.frames.get() == 1, "frame-not-destroyed", "frame of task %d destroyed %ld times", k.id, k.frames.get());
      VM_CHECK(k.locals.get() == 0, "locals-alive", "");
    }
  for (auto& kids : c.rounds) observe_all(cx, kids);
}

// two tasks that end at the same time on two threads: the last finisher race
template <typename A, typename B>
dd::task<void> pair_all(Env& e, std::deque<Kid>& k) { co_await all_tup<A, B>(e, k); }
struct Gate {
  std::coroutine_handle<> h;
  bool await_ready() { return false; }
  void await_suspend(std::coroutine_handle<> x) { h = x; }
  void await_resume() {}
};
template <typename R>
dd::task<R> gated(Gate& g, Kid& k, Frame f) {
  Local l(k);
  k.s_started.add();
  k.started++;
  co_await g;
  k.payload = value_of(k);
  k.ended++;
  k.s_ended.add();
  if (k.throws) throw Exc{k.id};
  if constexpr (!std::is_void_v<R>) co_return R(value_of(k));
}
dd::job gate_waiter(std::deque<Gate>& g, std::deque<Kid>& k, int n, bool any, Kid& self, Frame f) {
  Local l(self);
  if (!any && n != 2) {
    std::vector<dd::task<Obj>> v;
    for (int i = 0; i < n; i++) v.push_back(gated<Obj>(g[(size_t)i], k[(size_t)i], Frame(k[(size_t)i])));
    auto res = co_await dd::when_all(std::move(v));
    for (size_t i = 0; i < res.size(); i++) check_all_pos(k[i], res[i], "when_all(vector)");
  } else if (!any) {
    auto res = co_await dd::when_all(gated<Obj>(g[0], k[0], Frame(k[0])), gated<void>(g[1], k[1], Frame(k[1])));
    check_all_pos(k[0], std::get<0>(res), "when_all");
    check_all_pos(k[1], std::get<1>(res), "when_all");
  } else {
    auto one = [&](auto& res) {
      size_t idx = res.index();
      VM_CHECK(idx >= 1 && idx <= (size_t)n, "wrong-index", "index %zu", idx);
      bool failed = false;
      std::visit([&](auto& x) {
        if constexpr (requires { x.has_value(); }) { failed = !x.has_value(); check_all_pos(k[idx - 1], x, "when_any"); }
      }, res);
      if (failed) for (int i = 0; i < n; i++) VM_CHECK(k[(size_t)i].throws && k[(size_t)i].s_ended.get(), "failed-too-early", "exception, but task %d does not fail or did not end", i + 1);
    };
    if (n == 2) {
      auto res = co_await dd::when_any(gated<Obj>(g[0], k[0], Frame(k[0])), gated<void>(g[1], k[1], Frame(k[1])));
      one(res);
    } else {
      auto res = co_await dd::when_any(gated<Obj>(g[0], k[0], Frame(k[0])), gated<MoveOnly>(g[1], k[1], Frame(k[1])), gated<int>(g[2], k[2], Frame(k[2])));
      one(res);
    }
  }
  self.s_ended.add();
  VM_CHECK(self.s_ended.get() == 1, "completed-twice", "");
}
void run_gates(Ctx& cx, bool any) {
  Rng& r = cx.rng;
  int n = any ? r.range(2, 3) : r.range(1, 4);
  std::deque<Gate> g((size_t)n);
  std::deque<Kid> k((size_t)n);
  completion gone(n + 1);
  Kid self;
  self.gone = &gone;
  for (int i = 0; i < n; i++) k[(size_t)i].id = i + 1, k[(size_t)i].throws = r.chance(any ? 1 : 1, any ? 2 : 3), k[(size_t)i].gone = &gone;
  gate_waiter(g, k, n, any, self, Frame(self));
  // everybody has started and waits
  for (auto& q : k) VM_CHECK(q.s_started.get() == 1, "not-started", "task %d", q.id);
  {
    std::vector<std::thread> th;
    for (int i = 1; i < n; i++) th.emplace_back([h = g[(size_t)i].h] { h.resume(); });
    g[0].h.resume();
    for (auto& t : th) t.join();
  }
  VM_CHECK(self.s_ended.get() == 1, "never-completed", "all tasks are done, the waiter is not");
  VM_CHECK(gone.done.is_set(), "frame-not-destroyed", "%ld frames are alive", gone.left.get());
  for (auto& q : k) VM_CHECK(q.frames.get() == 1 && q.s_ended.get() == 1, "frame-not-destroyed", "task %d", q.id);
  cx.describe = (any ? "when_any of " : "when_all of ") + std::to_string(n) + " finishing at once";
}
MT_SCENARIO("C19", "finish_race", 5) { run_gates(cx, false); }
MT_SCENARIO("C20", "finish_race", 5) { run_gates(cx, true); }

}  // namespace

VM_MAIN
