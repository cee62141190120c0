// C10, C11, C19, C20 at scale: thousands of coroutines, big types, wide combinators, long histories
#include "vbigtask.hpp"

namespace {

// =====================================================================================================
// C10
// =====================================================================================================
struct ACell {
  int id = 0, hops = 0;
  bool throws = false, rvo = false, detached = false;
  int payload = 0;
  vs::counter ended, frames;
  completion* gone = nullptr;
};
struct AFrame {  // dies with the frame
  ACell* c;
  explicit AFrame(ACell& x) : c(&x) {}
  AFrame(AFrame&& o) : c(std::exchange(o.c, nullptr)) {}
  ~AFrame() {
    if (!c) return;
    c->frames.add();
    VM_CHECK(c->frames.get() == 1, "frame-destroyed-twice", "frame of %d", c->id);
    VM_CHECK(c->ended.get() == 1, "frame-destroyed-early", "frame of %d is destroyed while it runs", c->id);
    if (c->gone) c->gone->one();
  }
};
template <typename R>
dd::async_task<R> abody(AFrame f, Env& e, ACell& c, Obj o, int& cell) {
  Obj local(c.id);
  for (int i = 0; i < c.hops; i++) HOP(e);
  VM_CHECK(o.get() == c.id && local.get() == c.id, "object-corrupted", "argument of %d", c.id);
  c.payload = c.id * 3;
  cell = c.id;
  c.ended.add();
  if (c.throws) throw Exc{c.id};
  if constexpr (std::is_void_v<R>) co_return;
  else if constexpr (std::is_same_v<R, int&>) co_return cell;
  else co_return Val<R>::make(c.id);
}
template <typename R>
void check_async(dd::async_task<R>& t, ACell& c, int& cell, int how) {
  if (how == 1) t.wait();
  if (how == 2) {
    while (!t.ready()) std::this_thread::yield();
    VM_CHECK(c.payload == c.id * 3, "stale-payload", "what task %d did is not visible after ready()", c.id);
  }
  for (int k = how == 3 ? 2 : 1; k > 0; k--) {
    int by = 0;
    try {
      if constexpr (std::is_void_v<R>) t.get();
      else if constexpr (std::is_same_v<R, int&>) {
        int& x = t.get();
        VM_CHECK(&x == &cell && x == c.id, "wrong-result", "reference of task %d", c.id);
      } else {
        auto&& x = t.get();
        VM_CHECK(Val<R>::get(x) == c.id, "wrong-result", "result %ld of task %d", (long)Val<R>::get(x), c.id);
      }
    } catch (const Exc& x) {
      by = x.id;
    }
    VM_CHECK(by == (c.throws ? c.id : 0), "wrong-exception", "exception %d of task %d", by, c.id);
  }
  VM_CHECK(t.ready() && !t.empty(), "not-ready", "task %d is not ready after get()", c.id);
  VM_CHECK(c.ended.get() == 1 && c.payload == c.id * 3, "stale-payload", "what task %d did is not visible", c.id);
  VM_CHECK(c.frames.get() == 0, "frame-destroyed-early", "frame of %d", c.id);
}
template <typename R>
void big_async(Ctx& cx, bool seq) {
  Rng& r = cx.rng;
  Env e;
  e.seq = seq;
  e.order = Rng(r.next());
  std::optional<dd::thread_pool> pool;
  if (!seq) pool.emplace((size_t)r.range(1, big(4, 9))), e.pool = &*pool;
  int n = logsize(r, 1, (seq ? 3000 : big(50, 3000)));
  std::deque<ACell> cells(n);
  std::vector<int> refs(n);
  completion gone(n);
  std::vector<dd::async_task<R>> v;
  std::vector<int> of;
  int throw_den = r.chance(1, 2) ? 1 << 30 : 4;
  int hop_of = r.range(0, 4);
  int detached = 0;
  for (int i = 0; i < n; i++) {
    ACell& c = cells[i];
    c.id = i + 1;
    c.hops = r.chance(hop_of, 4) ? r.range(1, 3) : 0;
    c.throws = r.chance(1, throw_den);
    c.gone = &gone;
    dd::async_task<R> t = abody<R>(AFrame(c), e, c, Obj(c.id), refs[i]);
    VM_CHECK(!t.empty() && t, "task-empty", "new async task");
    int k = r.below(8);
    if (k == 0) {
      t.detach();
      VM_CHECK(t.empty() && !t.ready(), "detached-not-empty", "");
      detached++;
    } else if (k == 1) {
      dd::async_task<R> x = std::move(t);  // destroyed here
      VM_CHECK(t.empty(), "moved-from-not-empty", "");
      detached++;
    } else {
      v.push_back(std::move(t));
      of.push_back(i);
    }
    if (seq && r.chance(1, 10)) e.drain(cx, r.below(40));
  }
  for (size_t i = v.size(); i > 1; i--) {
    size_t j = (size_t)r.below((int)i);
    if (r.chance(1, 2)) std::swap(v[i - 1], v[j]);
    else v[i - 1].swap(v[j]);
    std::swap(of[i - 1], of[j]);
  }
  if (seq) e.drain(cx);
  int nt = seq ? 1 : r.range(1, 3);
  auto consume = [&](int t, uint64_t seed) {
    Rng q(seed);
    for (size_t i = (size_t)t; i < v.size(); i += (size_t)nt) {
      int how = q.below(5);
      if (how == 4) v[i].detach();
      else check_async<R>(v[i], cells[of[i]], refs[of[i]], how);
      if (q.chance(1, 2)) dd::async_task<R>().swap(v[i]);
    }
  };
  if (nt == 1) consume(0, r.next());
  else {
    std::vector<std::thread> ts;
    for (int t = 0; t < nt; t++) ts.emplace_back(consume, t, r.next());
    for (auto& t : ts) t.join();
  }
  v.clear();
  gone.wait();
  for (auto& c : cells) VM_CHECK(c.frames.get() == 1 && c.ended.get() == 1, "frame-not-destroyed", "task %d: ended %ld, frames destroyed %ld", c.id, c.ended.get(), c.frames.get());
  cx.observe((uint64_t)n * 1000 + detached);
  cx.observations += n;
  cx.nontrivial = true;
  cx.describe = std::to_string(n) + " async tasks, " + std::to_string(detached) + " detached at once";
}
void some_async(Ctx& cx, bool seq) {
  switch (cx.rng.below(7)) {
    case 0: return big_async<int>(cx, seq);
    case 1: return big_async<Obj>(cx, seq);
    case 2: return big_async<void>(cx, seq);
    case 3: return big_async<int&>(cx, seq);
    case 4: return big_async<std::string>(cx, seq);
    case 5: return big_async<Odd>(cx, seq);
    default: return big_async<Pod>(cx, seq);
  }
}
SEQ_SCENARIO("C10", "big_async", 1) { some_async(cx, true); }
MT_SCENARIO("C10", "big_threads", 3) { some_async(cx, false); }

// =====================================================================================================
// C11
// =====================================================================================================
struct LCell {
  int id = 0, kind = 0, hops = 0;
  int payload = 0, asked = 0;
  vs::counter ended, frames, stop_asked, saw_stop, may_end;
  completion* gone = nullptr;
};
struct LFrame {
  LCell* c;
  explicit LFrame(LCell& x) : c(&x) {}
  LFrame(LFrame&& o) : c(std::exchange(o.c, nullptr)) {}
  ~LFrame() {
    if (!c) return;
    c->frames.add();
    VM_CHECK(c->frames.get() == 1, "frame-destroyed-twice", "frame of %d", c->id);
    VM_CHECK(c->ended.get() == 1, "frame-destroyed-early", "frame of %d is destroyed while it runs", c->id);
    if (c->gone) c->gone->one();
  }
};
enum { L_SHORT, L_UNTIL_STOP, L_FREE };
dd::logical_thread lbody(LFrame f, Env& e, LCell& c, Obj o) {
  Obj local(c.id);
  dd::stop_token tok = co_await dd::this_coro::stop_token;
  if (c.kind != L_SHORT || c.hops) HOP(e);
  for (int i = 0; i < c.hops; i++) {
    HOP(e);
    // nothing but a request makes it stop
    if (tok.stop_requested()) VM_CHECK(c.stop_asked.get() == 1, "stop-seen-without-request", "logical thread %d", c.id);
  }
  if (c.kind == L_UNTIL_STOP) {
    while (!tok.stop_requested()) HOP(e);
    VM_CHECK(c.stop_asked.get() == 1, "stop-seen-without-request", "logical thread %d", c.id);
    VM_CHECK(c.asked == c.id + 9, "stale-payload", "what was done before the request to stop %d is not visible", c.id);
    c.saw_stop.add();
  }
  VM_CHECK(o.get() == c.id && local.get() == c.id, "object-corrupted", "argument of %d", c.id);
  c.payload = c.id * 3;
  c.ended.add();
}
void lcheck(LCell& c) {
  VM_CHECK(c.ended.get() == 1, "joined-before-end", "logical thread %d is joined but did not end", c.id);
  VM_CHECK(c.payload == c.id * 3, "stale-payload", "what logical thread %d did is not visible after join", c.id);
  VM_CHECK(c.frames.get() == 1, "frame-not-destroyed", "frame of logical thread %d", c.id);
}
void ask(LCell& c) {
  if (c.stop_asked.get() == 0) {
    c.asked = c.id + 9;
    c.stop_asked.set(1);
  }
}
MT_SCENARIO("C11", "big_threads", 3) {
  Rng& r = cx.rng;
  Env e;
  e.seq = false;
  dd::thread_pool pool((size_t)r.range(1, big(4, 9)));
  e.pool = &pool;
  int n = logsize(r, 1, big(30, 400));
  std::deque<LCell> cells(n);
  completion gone(n);
  std::vector<dd::logical_thread> v;
  std::vector<int> of;
  int detached = 0;
  for (int i = 0; i < n; i++) {
    LCell& c = cells[i];
    c.id = i + 1;
    c.kind = r.below(3);
    c.hops = r.below(4);
    c.gone = &gone;
    bool until = c.kind == L_UNTIL_STOP;
    dd::logical_thread t = lbody(LFrame(c), e, c, Obj(c.id));
    VM_CHECK(t.joinable() && t.stop_possible(), "task-empty", "new logical thread");
    if (!until && r.chance(1, 6)) {
      if (r.chance(1, 2)) ask(c), t.request_stop();
      t.detach();
      VM_CHECK(!t.joinable() && !t.request_stop(), "detached-joinable", "");
      detached++;
    } else {
      v.push_back(std::move(t));
      of.push_back(i);
    }
  }
  size_t m = v.size();
  for (size_t i = m; i > 1; i--) {
    size_t j = (size_t)r.below((int)i);
    if (r.chance(1, 2)) std::swap(v[i - 1], v[j]);
    else v[i - 1].swap(v[j]);
    std::swap(of[i - 1], of[j]);
  }
  int how = r.below(4);
  if (how == 0) {
    for (size_t i = 0; i < m; i++) ask(cells[of[i]]);
    dd::stop(v);
    for (size_t i = 0; i < m; i++) {
      VM_CHECK(!v[i].joinable(), "joined-joinable", "");
      lcheck(cells[of[i]]);
    }
  } else if (how == 1) {
    // one by one, in any of the ways
    for (size_t i = 0; i < m; i++) {
      LCell& c = cells[of[i]];
      bool until = c.kind == L_UNTIL_STOP;
      switch (r.below(4)) {
        case 0:
          if (until || r.chance(1, 2)) {
            ask(c);
            VM_CHECK(v[i].request_stop(), "stop-not-possible", "");
          }
          v[i].join();
          break;
        case 1:
          ask(c);
          v[i] = dd::logical_thread();
          break;
        case 2:
          ask(c);
          { dd::logical_thread x(std::move(v[i])); }
          break;
        default: {
          ask(c);
          dd::stop(v[i]);
        }
      }
      VM_CHECK(!v[i].joinable(), "joined-joinable", "");
      lcheck(c);
    }
  } else if (how == 2) {
    for (size_t i = 0; i < m; i++) ask(cells[of[i]]);
    dd::stop(std::span(v).first(m / 2));
    for (size_t i = 0; i < m / 2; i++) lcheck(cells[of[i]]);
    for (size_t i = m / 2; i < m; i++) VM_CHECK(v[i].joinable(), "joined-too-many", "");
    v.clear();
    for (size_t i = 0; i < m; i++) lcheck(cells[of[i]]);
  } else {
    // everyone is replaced by a newer one, which is destroyed at the end
    for (size_t i = 0; i + 1 < m; i++) {
      ask(cells[of[i]]);
      v[i] = std::move(v[i + 1]);
      lcheck(cells[of[i]]);
      VM_CHECK(v[i].joinable() && !v[i + 1].joinable(), "moved-from-joinable", "");
      std::swap(v[i], v[i + 1]);
    }
    if (m) {
      ask(cells[of[m - 1]]);
      v.clear();
      lcheck(cells[of[m - 1]]);
    }
  }
  gone.wait();
  for (auto& c : cells) VM_CHECK(c.frames.get() == 1 && c.ended.get() == 1, "frame-not-destroyed", "logical thread %d", c.id);
  cx.observe((uint64_t)n * 1000 + detached * 4 + how);
  cx.observations += n;
  cx.describe = std::to_string(n) + " logical threads, " + std::to_string(detached) + " detached, ended in way " + std::to_string(how);
}

// =====================================================================================================
// C19, C20: vectors of thousands of tasks, wide tuples, long histories
// =====================================================================================================
struct Kid {
  int id = 0, hops = 0;
  bool throws = false;
  int payload = 0;
  vs::counter started, ended, frames;
  completion* gone = nullptr;
};
struct KFrame {
  Kid* k;
  explicit KFrame(Kid& x) : k(&x) {}
  KFrame(KFrame&& o) : k(std::exchange(o.k, nullptr)) {}
  ~KFrame() {
    if (!k) return;
    VM_CHECK(k->frames.get() == 0, "frame-destroyed-twice", "frame of task %d", k->id);
    VM_CHECK(k->started.get() == k->ended.get(), "frame-destroyed-early", "frame of task %d is destroyed while it runs", k->id);
    completion* g = k->gone;
    vm::hb_release(&k->frames);
    k->frames.add();
    if (g) g->one();
  }
};
std::vector<int>* ends = nullptr;  // one thread only
template <typename R>
dd::task<R> leaf(Env& e, Kid& k, KFrame f, Obj o) {
  k.started.add();
  VM_CHECK(k.started.get() == 1, "task-started-twice", "task %d", k.id);
  for (int i = 0; i < k.hops; i++) HOP(e);
  VM_CHECK(o.get() == k.id, "object-corrupted", "argument of task %d", k.id);
  k.payload = k.id * 5;
  k.ended.add();
  if (ends) ends->push_back(k.id);
  if (k.throws) throw Exc{k.id};
  if constexpr (std::is_void_v<R>) co_return;
  else co_return Val<R>::make(k.id);
}
template <typename R>
dd::task<R> mkleaf(Env& e, Kid& k) { return leaf<R>(e, k, KFrame(k), Obj(k.id)); }
template <typename Ex>
void check_pos(Kid& k, Ex& x, const char* where) {
  VM_CHECK(k.started.get() == 1 && k.ended.get() == 1, "completed-too-early", "%s: task %d started %ld ended %ld", where, k.id, k.started.get(), k.ended.get());
  VM_CHECK(k.payload == k.id * 5, "effects-not-visible", "what task %d did is not visible", k.id);
  VM_CHECK(x.has_value() == !k.throws, "wrong-result", "%s: task %d", where, k.id);
  if (k.throws) {
    int by = 0;
    try { std::rethrow_exception(x.error()); } catch (const Exc& t) { by = t.id; }
    VM_CHECK(by == k.id, "wrong-result", "%s: exception of %d at the position of %d", where, by, k.id);
  } else if constexpr (requires { *x; }) {
    using V = std::remove_cvref_t<decltype(*x)>;
    VM_CHECK(Val<V>::get(*x) == k.id, "wrong-result", "%s: value %ld at the position of %d", where, (long)Val<V>::get(*x), k.id);
  }
}
void fill(Rng& r, std::deque<Kid>& kids, int n, int throw_den, int hop_of_4, int max_hops) {
  for (int i = 0; i < n; i++) {
    kids.emplace_back();
    Kid& k = kids.back();
    k.id = (int)kids.size();
    k.hops = r.chance(hop_of_4, 4) ? r.range(1, max_hops) : 0;
    k.throws = r.chance(1, throw_den);
  }
}
template <typename R>
dd::job vector_job(Env& e, std::deque<Kid>& kids, completion& c, bool split, uint64_t seed, Obj o) {
  Rng r(seed);
  int times = 0;
  if (!split) {
    std::vector<dd::task<R>> v;
    for (Kid& k : kids) v.push_back(mkleaf<R>(e, k));
    auto res = co_await dd::when_all(std::move(v));
    VM_CHECK(++times == 1, "completed-twice", "");
    VM_CHECK(res.size() == kids.size(), "wrong-result", "%zu results of %zu tasks", res.size(), kids.size());
    for (size_t i = 0; i < res.size(); i++) check_pos(kids[i], res[i], "when_all(vector)");
    for (Kid& k : kids) VM_CHECK(k.frames.get() == 1, "frame-not-destroyed", "task %d lives longer than when_all", k.id);
  } else {
    // when_all of when_alls
    using inner = std::vector<dd::expected<R, std::exception_ptr>>;
    std::vector<dd::task<inner>> v;
    std::vector<size_t> sizes;
    for (size_t i = 0; i < kids.size();) {
      size_t m = std::min(kids.size() - i, (size_t)logsize(r, 1, 400));
      if (r.chance(1, 8)) m = 0;
      std::vector<dd::task<R>> w;
      for (size_t k = 0; k < m; k++) w.push_back(mkleaf<R>(e, kids[i + k]));
      v.push_back(dd::when_all(std::move(w)));
      sizes.push_back(m);
      i += m;
    }
    auto res = co_await dd::when_all(std::move(v));
    VM_CHECK(++times == 1, "completed-twice", "");
    VM_CHECK(res.size() == sizes.size(), "wrong-result", "%zu results of %zu tasks", res.size(), sizes.size());
    size_t at = 0;
    for (size_t i = 0; i < res.size(); i++) {
      VM_CHECK(res[i].has_value(), "wrong-result", "an inner when_all fails");
      auto& x = *res[i];
      VM_CHECK(x.size() == sizes[i], "wrong-result", "%zu results of %zu tasks", x.size(), sizes[i]);
      for (auto& y : x) check_pos(kids[at++], y, "inner when_all(vector)");
    }
  }
  VM_CHECK(o.get() == 8, "object-corrupted", "argument");
  c.one();
}
template <typename R>
void big_vector(Ctx& cx, bool seq) {
  Rng& r = cx.rng;
  Env e;
  e.seq = seq;
  e.order = Rng(r.next());
  std::optional<dd::thread_pool> pool;
  if (!seq) pool.emplace((size_t)r.range(1, big(4, 9))), e.pool = &*pool;
  int scale = 1;
  if constexpr (!std::is_void_v<R>) scale = Val<R>::scale;
  int n = vm::widesize(r, 1, (seq ? 20000 : big(60, 8000)) / scale, scale == 1 && (seq || big(0, 1)));
  std::deque<Kid> kids;
  fill(r, kids, n, r.chance(1, 2) ? 1 << 30 : logsize(r, 1, n), r.below(5), 2);
  completion comp(1);
  vector_job<R>(e, kids, comp, r.chance(1, 3), r.next(), Obj(8));
  if (seq) e.drain(cx);
  comp.wait();
  for (Kid& k : kids) VM_CHECK(k.started.get() == 1 && k.ended.get() == 1 && k.frames.get() <= 1, "completed-too-early", "task %d", k.id);
  cx.observe((uint64_t)n);
  cx.observations += n;
  cx.nontrivial = true;
  cx.describe = "when_all of " + std::to_string(n) + " tasks";
}
void some_vector(Ctx& cx, bool seq) {
  switch (cx.rng.below(7)) {
    case 0: return big_vector<int>(cx, seq);
    case 1: return big_vector<Obj>(cx, seq);
    case 2: return big_vector<void>(cx, seq);
    case 3: return big_vector<MoveOnly>(cx, seq);
    case 4: return big_vector<std::string>(cx, seq);
    case 5: return big_vector<Odd>(cx, seq);
    default: return big_vector<Pod>(cx, seq);
  }
}
SEQ_SCENARIO("C19", "big_vector", 3) { some_vector(cx, true); }
MT_SCENARIO("C19", "big_vector_threads", 3) { some_vector(cx, false); }

template <size_t I>
using kind_of = std::tuple_element_t<I % 7, std::tuple<int, Obj, void, std::string, MoveOnly, Odd, Obj>>;
template <size_t N>
dd::job tuple_job(Env& e, std::deque<Kid>& kids, completion& c, Obj o) {
  int times = 0;
  {
    auto t = [&]<size_t... I>(std::index_sequence<I...>) { return dd::when_all(mkleaf<kind_of<I>>(e, kids[I])...); }(std::make_index_sequence<N>{});
    auto res = co_await t;
    VM_CHECK(++times == 1, "completed-twice", "");
    static_assert(std::tuple_size_v<decltype(res)> == N);
    [&]<size_t... I>(std::index_sequence<I...>) { (check_pos(kids[I], std::get<I>(res), "when_all"), ...); }(std::make_index_sequence<N>{});
  }
  for (Kid& k : kids) VM_CHECK(k.frames.get() == 1, "frame-not-destroyed", "task %d lives longer than when_all", k.id);
  VM_CHECK(o.get() == 8, "object-corrupted", "argument");
  c.one();
}
template <size_t N>
void wide_tuple(Ctx& cx, bool seq) {
  Rng& r = cx.rng;
  Env e;
  e.seq = seq;
  e.order = Rng(r.next());
  std::optional<dd::thread_pool> pool;
  if (!seq) pool.emplace((size_t)r.range(1, big(4, 9))), e.pool = &*pool;
  std::deque<Kid> kids;
  fill(r, kids, (int)N, r.chance(1, 2) ? 1 << 30 : r.range(1, 10), r.below(5), 3);
  completion comp(1);
  tuple_job<N>(e, kids, comp, Obj(8));
  if (seq) e.drain(cx);
  comp.wait();
  cx.observe(N);
  cx.observations += N;
  cx.nontrivial = true;
  cx.describe = "when_all of " + std::to_string(N) + " arguments";
}
SEQ_SCENARIO("C19", "wide_tuple", 1) { cx.rng.chance(1, 2) ? wide_tuple<14>(cx, true) : wide_tuple<40>(cx, true); }
MT_SCENARIO("C19", "wide_tuple_threads", 1) { cx.rng.chance(1, 2) ? wide_tuple<14>(cx, false) : wide_tuple<40>(cx, false); }

// C20
template <size_t N>
dd::job any_job(Env& e, std::deque<Kid>& kids, int rounds, completion& c, Obj o) {
  for (int i = 0; i < rounds; i++) {
    std::vector<Kid*> ptr(N);
    for (size_t k = 0; k < N; k++) ptr[k] = &kids[(size_t)i * N + k];
    int times = 0;
    size_t from = ends ? ends->size() : 0;
    auto res = co_await [&]<size_t... I>(std::index_sequence<I...>) { return dd::when_any(mkleaf<kind_of<I>>(e, *ptr[I])...); }(std::make_index_sequence<N>{});
    VM_CHECK(++times == 1, "completed-twice", "");
    size_t idx = res.index();
    VM_CHECK(idx >= 1 && idx <= N, "wrong-index", "index %zu of %zu tasks", idx, N);
    Kid& k = *ptr[idx - 1];
    bool failed = false;
    [&]<size_t... I>(std::index_sequence<I...>) {
      auto one = [&](auto* x) {
        if (!x) return;
        failed = !x->has_value();
        check_pos(k, *x, "when_any");
      };
      (one(std::get_if<I + 1>(&res)), ...);
    }(std::make_index_sequence<N>{});
    if (failed)
      for (Kid* q : ptr) VM_CHECK(q->throws && q->ended.get() == 1, "failed-too-early", "when_any gives an exception, but task %d %s", q->id, q->throws ? "did not end" : "does not fail");
    if (ends) {
      int lo = ptr[0]->id, hi = ptr[N - 1]->id, first_ok = 0, last = 0;
      for (size_t x = from; x < ends->size(); x++) {
        int id = (*ends)[x];
        if (id < lo || id > hi) continue;
        last = id;
        if (!ptr[(size_t)(id - lo)]->throws && !first_ok) first_ok = id;
      }
      VM_CHECK(k.id == (first_ok ? first_ok : last), "not-the-first", "result of task %d, expected that of %d", k.id, first_ok ? first_ok : last);
    }
  }
  VM_CHECK(o.get() == 8, "object-corrupted", "argument");
  c.one();
}
template <size_t N>
void wide_any(Ctx& cx, bool seq) {
  Rng& r = cx.rng;
  Env e;
  e.seq = seq;
  e.order = Rng(r.next());
  std::vector<int> log;
  std::optional<dd::thread_pool> pool;
  if (!seq) pool.emplace((size_t)r.range(1, big(4, 9))), e.pool = &*pool;
  else ends = &log;
  int rounds = logsize(r, 1, (seq ? 3000 : big(30, 1500)) / (int)N);
  std::deque<Kid> kids;
  int all = rounds * (int)N;
  int throw_den = r.chance(1, 3) ? 1 << 30 : r.range(1, 4);
  fill(r, kids, all, throw_den, r.below(5), 3);
  completion gone(all), comp(1);
  for (auto& k : kids) k.gone = &gone;
  any_job<N>(e, kids, rounds, comp, Obj(8));
  if (seq) e.drain(cx);  // losers run to their ends too
  comp.wait();
  gone.wait();
  ends = nullptr;
  for (Kid& k : kids) {
    vm::hb_acquire(&k.frames);
    VM_CHECK(k.frames.get() == 1 && k.started.get() == k.ended.get() && k.started.get() <= 1, "frame-not-destroyed", "task %d: started %ld, ended %ld, destroyed %ld", k.id, k.started.get(), k.ended.get(), k.frames.get());
  }
  cx.observe((uint64_t)rounds * 100 + N);
  cx.observations += all;
  cx.nontrivial = true;
  cx.describe = std::to_string(rounds) + " rounds of when_any of " + std::to_string(N) + " tasks";
}
void some_any(Ctx& cx, bool seq) {
  switch (cx.rng.below(4)) {
    case 0: return wide_any<2>(cx, seq);
    case 1: return wide_any<5>(cx, seq);
    case 2: return wide_any<14>(cx, seq);
    default: return wide_any<40>(cx, seq);
  }
}
SEQ_SCENARIO("C20", "wide", 2) { some_any(cx, true); }
MT_SCENARIO("C20", "wide_threads", 3) { some_any(cx, false); }

}  // namespace
VM_MAIN
