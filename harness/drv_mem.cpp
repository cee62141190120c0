// C21 frames and memory resources, C22 stack_resource
#include "vmem.hpp"
#include "kelcoro/async_task.hpp"
#include "kelcoro/channel.hpp"
#include "kelcoro/generator.hpp"
#include "kelcoro/job.hpp"
#include "kelcoro/logical_thread.hpp"
#include "kelcoro/stack_memory_resource.hpp"
#include "kelcoro/task.hpp"
#include "kelcoro/thread_pool.hpp"

using vm::completion;
using vm::Ctx;
using vm::MoveOnly;
using vm::Obj;
using vm::Rng;

namespace {

// ---- what is known about a coroutine --------------------------------------------------------------------
struct Ctl {
  int id = 0, susp = 0;
  vs::counter frames, locals, ended;
  completion* gone = nullptr;
  Arena* arena = nullptr;  // null: the global heap
  char* lo = nullptr;
  size_t n = 0;
  const void* seen[4] = {};
  int nseen = 0;
  bool placed = false;
  int target[3] = {};
  struct World* w = nullptr;
  void note(const void* p) {
    if (nseen < 4) seen[nseen++] = p;
  }
  void check_places() {
    if (!arena || !placed) return;
    for (int i = 0; i < nseen; i++)
      VM_CHECK(seen[i] >= lo && seen[i] < lo + n, "frame-elsewhere", "part of coroutine %d is at %p, its frame at %p, %zu bytes", id, seen[i], (void*)lo, n);
    nseen = 0;
  }
};
struct Frame {
  Ctl* c;
  explicit Frame(Ctl& x) : c(&x) {}
  Frame(Frame&& o) : c(std::exchange(o.c, nullptr)) {}
  ~Frame() {
    if (!c) return;
    VM_CHECK(c->frames.get() == 0, "frame-destroyed-twice", "coroutine %d", c->id);
    VM_CHECK(c->locals.get() == 0, "locals-alive", "frame of %d destroyed before its locals", c->id);
    completion* g = c->gone;
    vm::hb_release(&c->frames);
    c->frames.add();
    if (g) g->one();
  }
};
struct Local {
  Ctl& c;
  explicit Local(Ctl& x) : c(x) { c.locals.add(); }
  Local(Local&&) = delete;
  ~Local() { c.locals.add(-1); }
};
struct Park;
struct World {
  Arena arenas[ARENAS];
  PArena pmr[3];  // arena 2 and two more of its own
  Arena more[2];
  bool mt = false;
  dd::thread_pool* pool = nullptr;
  dd::worker* wk = nullptr;
  std::vector<Park*> parked;
  std::deque<Ctl> ctls;
  // model of the pending resource of this thread, and of the default one
  Arena* pending = nullptr;
  Arena* deflt = nullptr;
  Arena* expected = nullptr;
  Rng rng{1};
  int objs = 0;
  World() {
    for (int i = 0; i < ARENAS; i++) arenas[i].id = i;
    for (int i = 0; i < 2; i++) more[i].id = 10 + i;
    pmr[0].a = &arenas[2];
    pmr[1].a = &more[0];
    pmr[2].a = &more[1];
    g_arenas = arenas;
  }
  ~World() { g_arenas = nullptr; }
  Arena* take_pending() { return pending ? std::exchange(pending, nullptr) : deflt; }
  long live() {
    long s = 0;
    for (auto& a : arenas) s += a.live.get();
    for (auto& a : more) s += a.live.get();
    return s;
  }
  long total() {
    long s = 0;
    for (auto& a : arenas) s += a.allocs.get();
    for (auto& a : more) s += a.allocs.get();
    return s;
  }
  void acquire() {
    for (auto& a : arenas) vm::hb_acquire(&a.live);
    for (auto& a : more) vm::hb_acquire(&a.live);
    for (auto& c : ctls) vm::hb_acquire(&c.frames);
  }
};
struct Park {
  World& e;
  std::coroutine_handle<> h;
  explicit Park(World& e) : e(e) {}
  bool await_ready() { return false; }
  void await_suspend(std::coroutine_handle<> x) {
    h = x;
    e.parked.push_back(this);
  }
  void await_resume() {}
  ~Park() { std::erase(e.parked, this); }
};
#define HOP(e, target)                                                        \
  do {                                                                        \
    if (!(e).mt) co_await Park(e);                                            \
    else if ((target) == 0) (void)co_await dd::jump_on(*(e).wk);               \
    else if ((target) == 1) (void)co_await dd::jump_on(*(e).pool);             \
    else (void)co_await dd::jump_on(dd::new_thread_executor);                  \
  } while (0)

#define ENTER(N)                                                                  \
  Local l(c);                                                                     \
  Obj tail(c.id);                                                                 \
  char pad[(N) + 1];                                                              \
  memset(pad, (char)c.id, (N) + 1);                                               \
  c.note(&l), c.note(&f), c.note(pad + (N)), c.note(std::addressof(tail));                       \
  VM_CHECK((uintptr_t)std::addressof(tail) % alignof(Obj) == 0 && (uintptr_t)&l % alignof(Local) == 0, "frame-misaligned", "local at %p", (void*)&l)
#define STILL(N)                                                                  \
  do {                                                                            \
    VM_CHECK(tail.get() == c.id && o.get() == c.id, "object-corrupted", "locals of %d", c.id); \
    for (char x : pad) VM_CHECK(x == (char)c.id, "frame-overlap", "locals of coroutine %d are overwritten", c.id); \
  } while (0)

// ---- coroutines of all kinds. pack of none or one resource as the last argument ---------------------------
// address of the frame
struct Here {
  Ctl& c;
  bool await_ready() { return false; }
  template <typename P>
  bool await_suspend(std::coroutine_handle<P> h) {
    c.note(h.address());
    VM_CHECK((uintptr_t)h.address() % dd::coroframe_align() == 0, "frame-misaligned", "frame at %p", h.address());
    return false;
  }
  void await_resume() {}
};
// ... and by the library's own means, also in coroutines whose promise is derived
#define THIS                                                                                              \
  do {                                                                                                    \
    std::coroutine_handle<> h_ = co_await dd::this_coro::handle;                                                             \
    c.note(h_.address());                                                                                 \
    VM_CHECK(h_ && !h_.done(), "wrong-handle", "handle of coroutine %d", c.id);      \
  } while (0)
#define HERE  \
  do {        \
    co_await Here{c}; \
    THIS;     \
  } while (0)
#define TOKEN                                                                                             \
  do {                                                                                                    \
    auto&& tok_ = co_await dd::this_coro::stop_token;                                                     \
    VM_CHECK(!tok_.stop_requested(), "stop-without-request", "stop is requested at the start of %d", c.id); \
  } while (0)

struct KGen {
  static constexpr const char* name = "generator";
  using C = dd::generator<int>;
  template <typename R> using typed = dd::generator_r<int, R>;
  template <typename CC, int N, typename... W>
  static CC body(Frame f, Ctl& c, Obj o, W...) {
    ENTER(N);
    THIS;
    for (int i = 0; i < c.susp; i++) {
      co_yield i;
      STILL(N);
    }
    c.ended.add();
  }
};
struct KChan {
  static constexpr const char* name = "channel";
  using C = dd::channel<int>;
  template <typename R> using typed = dd::channel_r<int, R>;
  template <typename CC, int N, typename... W>
  static CC body(Frame f, Ctl& c, Obj o, W...) {
    ENTER(N);
    HERE;
    for (int i = 0; i < c.susp; i++) {
      co_yield i;
      STILL(N);
      if (c.w->mt) HOP(*c.w, c.target[i % 3]);
    }
    c.ended.add();
  }
};
struct KTask {
  static constexpr const char* name = "task";
  using C = dd::task<int>;
  template <typename R> using typed = dd::task_r<int, R>;
  template <typename CC, int N, typename... W>
  static CC body(Frame f, Ctl& c, Obj o, W...) {
    ENTER(N);
    HERE;
    for (int i = 0; i < c.susp; i++) {
      HOP(*c.w, c.target[i % 3]);
      STILL(N);
    }
    c.ended.add();
    co_return c.id;
  }
};
struct KAsync {
  static constexpr const char* name = "async_task";
  using C = dd::async_task<int>;
  template <typename R> using typed = dd::async_task_r<int, R>;
  template <typename CC, int N, typename... W>
  static CC body(Frame f, Ctl& c, Obj o, W...) {
    ENTER(N);
    for (int i = 0; i < c.susp; i++) {
      HOP(*c.w, c.target[i % 3]);
      STILL(N);
    }
    c.ended.add();
    co_return c.id;
  }
};
struct KJob {
  static constexpr const char* name = "job";
  using C = dd::job;
  template <typename R> using typed = dd::job_r<R>;
  template <typename CC, int N, typename... W>
  static CC body(Frame f, Ctl& c, Obj o, W...) {
    ENTER(N);
    HERE;
    for (int i = 0; i < c.susp; i++) {
      HOP(*c.w, c.target[i % 3]);
      STILL(N);
    }
    c.ended.add();
  }
};
struct KThread {
  static constexpr const char* name = "logical_thread";
  using C = dd::logical_thread;
  template <typename R> using typed = dd::logical_thread_r<R>;
  template <typename CC, int N, typename... W>
  static CC body(Frame f, Ctl& c, Obj o, W...) {
    ENTER(N);
    TOKEN;
    for (int i = 0; i < c.susp; i++) {
      HOP(*c.w, c.target[i % 3]);
      STILL(N);
    }
    c.ended.add();
  }
};

// other signatures
template <typename K, typename W>
typename K::C sig_ref(Frame f, Ctl& c, Obj o, MoveOnly, const int&, double, W w);
struct Member {
  int v = 5;
  template <typename K, typename W>
  typename K::C sig_member(Frame f, Ctl& c, Obj o, W w);
};
#define SIGS(K, PRE, DO, RET)                                                                        \
  template <typename W>                                                                              \
  typename K::C sig_ref_##K(Frame f, Ctl& c, Obj o, MoveOnly m, const int&, double d, W) {            \
    ENTER(37);                                                                                       \
    PRE;                                                                                             \
    for (int i = 0; i < c.susp; i++) {                                                               \
      DO;                                                                                            \
      STILL(37);                                                                                     \
      VM_CHECK(m.get() == c.id && d == c.id, "object-corrupted", "arguments of %d", c.id);            \
    }                                                                                                \
    c.ended.add();                                                                                   \
    RET;                                                                                             \
  }                                                                                                  \
  struct Member_##K {                                                                                \
    int v = 5;                                                                                       \
    template <typename W>                                                                            \
    typename K::C run(Frame f, Ctl& c, Obj o, W) {                                                    \
      ENTER(1003);                                                                                   \
      PRE;                                                                                           \
      for (int i = 0; i < c.susp; i++) {                                                             \
        DO;                                                                                          \
        STILL(1003);                                                                                 \
        VM_CHECK(v == 5, "object-corrupted", "this");                                                \
      }                                                                                              \
      c.ended.add();                                                                                 \
      RET;                                                                                           \
    }                                                                                                \
  };
SIGS(KGen, THIS, co_yield i, )
SIGS(KChan, HERE, co_yield i; if (c.w->mt) HOP(*c.w, c.target[i % 3]), )
SIGS(KTask, HERE, HOP(*c.w, c.target[i % 3]), co_return c.id)
SIGS(KAsync, , HOP(*c.w, c.target[i % 3]), co_return c.id)
SIGS(KJob, HERE, HOP(*c.w, c.target[i % 3]), )
SIGS(KThread, TOKEN, HOP(*c.w, c.target[i % 3]), )
template <typename K, typename W>
typename K::C sig_ref(Frame f, Ctl& c, Obj o, MoveOnly m, const int& x, double d, W w) {
#define ONE(KK) if constexpr (std::is_same_v<K, KK>) return sig_ref_##KK<W>(std::move(f), c, std::move(o), std::move(m), x, d, std::forward<W>(w))
  ONE(KGen); ONE(KChan); ONE(KTask); ONE(KAsync); ONE(KJob); ONE(KThread);
#undef ONE
}
template <typename K, typename W>
typename K::C sig_member(Frame f, Ctl& c, Obj o, W w) {
#define ONE(KK) if constexpr (std::is_same_v<K, KK>) { static Member_##KK m; return m.template run<W>(std::move(f), c, std::move(o), std::move(w)); }
  ONE(KGen); ONE(KChan); ONE(KTask); ONE(KAsync); ONE(KJob); ONE(KThread);
#undef ONE
}

// ---- using them ---------------------------------------------------------------------------------------
struct Slot {
  Ctl* c = nullptr;
  virtual ~Slot() = default;
  virtual void step(World&, Rng&) = 0;
  bool over = false;
};
template <typename CC>
dd::job eat(CC& ch, int k, int& got) {
  // no '&& co_await': g++ evaluates it anyway
  while (k-- > 0) {
    if (!co_await ch.next()) break;
    got++;
  }
}
template <typename CC>
dd::job await_it(CC t, int id, vs::counter* done) {
  int v = co_await t;
  VM_CHECK(v == id, "wrong-result", "result %d of task %d", v, id);
  if (done) done->add();
}
template <typename K, typename CC>
struct SlotOf final : Slot {
  std::optional<CC> x;
  int got = 0;
  bool started = false;
  explicit SlotOf(CC&& v) : x(std::move(v)) {}
  void finish() { x.reset(); this->over = true; }
  void step(World& w, Rng& r) override {
    if (over) return;
    if constexpr (std::is_same_v<K, KGen>) {
      if (r.chance(1, 5)) return finish();
      auto it = x->begin();
      if (it == x->end()) {
        VM_CHECK(c->ended.get() == 1 && got == c->susp, "wrong-values", "%s: %d values of %d, ended %ld", K::name, got, c->susp, c->ended.get());
        return finish();
      }
      VM_CHECK(*it == got, "wrong-values", "value %d, expected %d", *it, got);
      got++;
    } else if constexpr (std::is_same_v<K, KChan>) {
      if (r.chance(1, 5)) return finish();
      int k = r.range(1, 3), before = got;
      eat(*x, k, got);
      if (got < before + k) {
        VM_CHECK(c->ended.get() == 1 && got == c->susp, "wrong-values", "%s: %d values of %d, ended %ld", K::name, got, c->susp, c->ended.get());
        finish();
      }
    } else if constexpr (std::is_same_v<K, KTask>) {
      int k = r.below(6);
      if (k == 0) return finish();
      if (k == 1) return;
      over = true;
      if (k <= 3) (void)x->start_and_detach();
      else await_it<CC>(std::move(*x), c->id, nullptr);
      x.reset();
    } else if constexpr (std::is_same_v<K, KAsync>) {
      if (r.chance(1, 4)) return finish();
      if (x->ready()) {
        VM_CHECK(x->get() == c->id, "wrong-result", "result of %d", c->id);
        if (r.chance(1, 2)) finish();
      }
    } else if constexpr (std::is_same_v<K, KThread>) {
      if (c->ended.get() == 1 && r.chance(1, 2)) {
        if (r.chance(1, 2)) x->join();
        finish();
      } else if (r.chance(1, 4)) {
        x->detach();
        finish();
      }
    } else
      finish();
  }
  ~SlotOf() override {
    if constexpr (std::is_same_v<K, KThread>)
      if (x && x->joinable() && c->ended.get() == 0) x->detach();
  }
};

// resources of the last argument: name, type, how it is made and which arena must be used
struct AStatic { static constexpr const char* name = "static"; using W = dd::with_resource<StaticRes>; template <typename F> static auto with(World& w, Rng&, F f) { w.expected = &w.arenas[0]; return f(W{}); } };
struct AChunk { static constexpr const char* name = "chunk_from"; using W = dd::with_resource<dd::chunk_from<Arena>>; template <typename F> static auto with(World& w, Rng& r, F f) { Arena& a = w.arenas[r.chance(1, 2) ? 1 : 3]; w.expected = &a; return f(W{a}); } };
struct APmr { static constexpr const char* name = "pmr"; using W = dd::with_pmr_resource; template <typename F> static auto with(World& w, Rng& r, F f) { PArena& a = w.pmr[r.below(3)]; w.expected = a.a; return f(W{static_cast<std::pmr::memory_resource&>(a)}); } };
struct AFat { static constexpr const char* name = "fat"; using W = dd::with_resource<Fat>; template <typename F> static auto with(World& w, Rng& r, F f) { if (r.chance(1, 3)) { w.expected = &w.arenas[4]; return f(W{}); } w.expected = &w.arenas[3]; return f(W{Fat(w.arenas[3])}); } };
struct ATiny { static constexpr const char* name = "tiny"; using W = dd::with_resource<Tiny>; template <typename F> static auto with(World& w, Rng& r, F f) { int i = r.below(ARENAS); w.expected = &w.arenas[i]; return f(W{Tiny(w.arenas[i])}); } };
struct AOdd { static constexpr const char* name = "odd"; using W = dd::with_resource<Odd>; template <typename F> static auto with(World& w, Rng& r, F f) { int i = r.below(ARENAS); w.expected = &w.arenas[i]; return f(W{Odd(w.arenas[i])}); } };
struct AWide { static constexpr const char* name = "wide"; using W = dd::with_resource<Wide>; template <typename F> static auto with(World& w, Rng& r, F f) { int i = r.below(ARENAS); w.expected = &w.arenas[i]; return f(W{Wide(w.arenas[i])}); } };
struct AMoves { static constexpr const char* name = "move only"; using W = dd::with_resource<Moves>; template <typename F> static auto with(World& w, Rng& r, F f) { int i = r.below(ARENAS); w.expected = &w.arenas[i]; return f(W{Moves(w.arenas[i])}); } };
struct APoly { static constexpr const char* name = "polymorphic"; using W = dd::with_resource<Poly>; template <typename F> static auto with(World& w, Rng& r, F f) {
  if (r.chance(1, 2)) { PArena& a = w.pmr[r.below(3)]; w.expected = a.a; return f(W{static_cast<std::pmr::memory_resource&>(a)}); }
  w.expected = w.take_pending();
  return f(W{});
} };
struct ADef { static constexpr const char* name = "default"; using W = dd::with_default_resource; template <typename F> static auto with(World& w, Rng&, F f) { w.expected = nullptr; return f(W{}); } };

struct Maker {
  std::string name;
  bool eager;  // runs at once
  std::unique_ptr<Slot> (*make)(World&, Rng&, Ctl&);
};
template <typename K>
constexpr bool is_eager = std::is_same_v<K, KAsync> || std::is_same_v<K, KJob> || std::is_same_v<K, KThread>;

template <typename K, typename CC>
std::unique_ptr<Slot> slot(CC&& x, Ctl& c) {
  auto s = std::make_unique<SlotOf<K, std::remove_cvref_t<CC>>>(std::move(x));
  s->c = &c;
  return s;
}
// the resource given as an lvalue stays usable for the one who gave it
template <typename W>
struct Keeps {
  const W& w;
  Arena* expected;
  ~Keeps() {
    if constexpr (std::is_same_v<W, dd::with_resource<Fat>>) {
      VM_CHECK(w.resource.a == expected, "resource-of-caller-moved-out", "resource %d", w.resource.a ? w.resource.a->id : -1);
      w.resource.check();
    }
  }
};
template <typename K, typename A, int SIG>
std::unique_ptr<Slot> make_arg(World& w, Rng& r, Ctl& c) {
  using W = typename A::W;
  int how = r.below(3);
  return slot<K>(A::with(w, r, [&](W res) {
    if constexpr (std::is_copy_constructible_v<decltype(res.resource)>) {
      if (how) {
        Keeps<W> keeps{res, w.expected};
        if constexpr (SIG == 0) {
          if (how == 1) return K::template body<typename K::C, 0, W>(Frame(c), c, Obj(c.id), res);
          return K::template body<typename K::C, 0, W>(Frame(c), c, Obj(c.id), std::as_const(res));
        } else if constexpr (SIG == 1) {
          if (how == 1) return sig_ref<K, W&>(Frame(c), c, Obj(c.id), MoveOnly(c.id), 7, c.id, res);
          return sig_ref<K, const W&>(Frame(c), c, Obj(c.id), MoveOnly(c.id), 7, c.id, res);
        } else
          return sig_member<K, W>(Frame(c), c, Obj(c.id), res);
      }
    }
    if constexpr (SIG == 0) return K::template body<typename K::C, 0, W>(Frame(c), c, Obj(c.id), std::move(res));
    else if constexpr (SIG == 1) return sig_ref<K, W&&>(Frame(c), c, Obj(c.id), MoveOnly(c.id), 7, c.id, std::move(res));
    else return sig_member<K, W>(Frame(c), c, Obj(c.id), std::move(res));
  }), c);
}
template <typename R>
Arena* typed_default(World& w) {
  if constexpr (std::is_same_v<R, StaticRes>) return &w.arenas[0];
  else if constexpr (std::is_same_v<R, Poly>) return w.take_pending();
  else if constexpr (std::is_same_v<R, dd::new_delete_resource>) return nullptr;
  else return &w.arenas[4];
}
template <typename K, typename R, int N>
std::unique_ptr<Slot> make_typed(World& w, Rng&, Ctl& c) {
  w.expected = typed_default<R>(w);
  return slot<K>(K::template body<typename K::template typed<R>, N>(Frame(c), c, Obj(c.id)), c);
}
// resource chosen by type and given as argument too
template <typename K, typename A, typename R>
std::unique_ptr<Slot> make_typed_arg(World& w, Rng& r, Ctl& c) {
  using W = typename A::W;
  return slot<K>(A::with(w, r, [&](W res) { return K::template body<typename K::template typed<R>, 5, W>(Frame(c), c, Obj(c.id), std::move(res)); }), c);
}
// resource of another type as argument: the type decides
template <typename K, typename A, typename R>
std::unique_ptr<Slot> make_typed_other(World& w, Rng& r, Ctl& c) {
  using W = typename A::W;
  return slot<K>(A::with(w, r, [&](W res) {
    w.expected = typed_default<R>(w);
    return K::template body<typename K::template typed<R>, 9, W>(Frame(c), c, Obj(c.id), std::move(res));
  }), c);
}

template <typename K, int S>
void add_kind(std::vector<Maker>& m) {
  auto add = [&](const char* res, auto f) { m.push_back({std::string(K::name) + "/" + res, is_eager<K>, f}); };
  add(AStatic::name, &make_arg<K, AStatic, S % 3>);
  add(AChunk::name, &make_arg<K, AChunk, (S + 1) % 3>);
  add(APmr::name, &make_arg<K, APmr, (S + 2) % 3>);
  add(AFat::name, &make_arg<K, AFat, S % 3>);
  add(ATiny::name, &make_arg<K, ATiny, (S + 1) % 3>);
  add(AOdd::name, &make_arg<K, AOdd, (S + 2) % 3>);
  add(APoly::name, &make_arg<K, APoly, S % 3>);
  add(AWide::name, &make_arg<K, AWide, (S + 1) % 3>);
  add(AMoves::name, &make_arg<K, AMoves, S % 2 * 2>);
  add(ADef::name, &make_arg<K, ADef, 0>);
#if defined(__clang__) && !defined(__OPTIMIZE__)
  // clang -O0 writes the return object converted from 'job' into the frame, which may be gone: compiler bug
  if constexpr (std::is_same_v<K, KJob>) return;
#endif
  add("type polymorphic", &make_typed<K, Poly, 3>);
  add("type polymorphic", &make_typed<K, Poly, 64>);
  if constexpr (S == 1 || S == 2) add("type new_delete", &make_typed<K, dd::new_delete_resource, 21>);
  if constexpr (S % 2) add("type static", &make_typed<K, StaticRes, 11>);
  else add("type fat", &make_typed<K, Fat, 17>);
  if constexpr (S % 3 == 0) add("type+arg fat", &make_typed_arg<K, AFat, Fat>);
  else if constexpr (S % 3 == 1) add("type+arg polymorphic", &make_typed_arg<K, APoly, Poly>);
  else add("type+other", &make_typed_other<K, ATiny, StaticRes>);
}
const std::vector<Maker>& makers() {
  static const std::vector<Maker> m = [] {
    std::vector<Maker> m;
    add_kind<KGen, 0>(m);
    add_kind<KChan, 1>(m);
    add_kind<KTask, 2>(m);
    add_kind<KAsync, 3>(m);
    add_kind<KJob, 4>(m);
    add_kind<KThread, 5>(m);
    return m;
  }();
  return m;
}

// creates a coroutine, checks where its frame comes from. null if its allocation was made to fail
std::unique_ptr<Slot> create(World& w, Rng& r, Ctx& cx, bool may_fail) {
  const auto& ms = makers();
  size_t mi = (size_t)r.below((int)ms.size());
  const Maker& m = ms[mi];
  w.ctls.emplace_back();
  Ctl& c = w.ctls.back();
  c.id = (int)w.ctls.size();
  c.susp = r.below(4);
  c.w = &w;
  for (int& t : c.target) t = r.below(8) == 0 ? 2 : r.below(2);
  bool fail = may_fail && r.chance(1, 6);
  std::vector<Arena*> all;
  if (fail) {
    for (auto& a : w.arenas) a.fail_next.set(1);
    for (auto& a : w.more) a.fail_next.set(1);
  }
  long t0 = w.total(), live0 = w.live(), objs = vm::live_objects.get(), res0 = live_resources.get();
  tl = Trace{};
  long heap0 = vs::live_blocks();
  std::unique_ptr<Slot> s;
  Rng mr(r.next());
  bool failed = false;
  cx.observe(mi * 8 + (uint64_t)c.susp);
  try {
    s = m.make(w, mr, c);
  } catch (const std::bad_alloc&) {
    failed = true;
  }
  for (auto& a : w.arenas) a.fail_next.set(0);
  for (auto& a : w.more) a.fail_next.set(0);
  if (fail && w.expected) {
    VM_CHECK(failed, "allocation-failure-swallowed", "%s is created without memory", m.name.c_str());
    VM_CHECK(w.total() == t0 && w.live() == live0, "wrong-resource", "%s: another resource is used after a failure", m.name.c_str());
    VM_CHECK(vm::live_objects.get() == objs, "object-leak", "%s: %ld objects are left after a failed creation", m.name.c_str(), vm::live_objects.get() - objs);
    VM_CHECK(live_resources.get() == res0, "resource-leak", "%s: %ld resource objects are left after a failed creation", m.name.c_str(), live_resources.get() - res0);
    VM_CHECK(vs::live_blocks() == heap0, "memory-leak", "%s: %ld heap blocks are left after a failed creation", m.name.c_str(), vs::live_blocks() - heap0);
    VM_CHECK(c.frames.get() == 1, "argument-lifetime", "%s: argument is destroyed %ld times", m.name.c_str(), c.frames.get());
    VM_CHECK(c.locals.get() == 0 && c.ended.get() == 0, "body-without-frame", "%s", m.name.c_str());
    return nullptr;
  }
  VM_CHECK(!failed, "unexpected-failure", "%s: bad_alloc", m.name.c_str());
  c.arena = w.expected;
  long made = w.mt ? tl.allocs : w.total() - t0;
  if (w.expected) {
    VM_CHECK(made == 1, "wrong-allocation-count", "%s: %ld blocks are taken for one frame", m.name.c_str(), made);
    VM_CHECK(tl.a == w.expected, "wrong-resource", "%s: frame is taken from resource %d, expected %d", m.name.c_str(), tl.a ? tl.a->id : -1, w.expected->id);
    c.lo = tl.p;
    c.n = tl.n;
    c.placed = true;
  } else
    VM_CHECK(made == 0, "wrong-resource", "%s: frame is taken from resource %d, expected the heap", m.name.c_str(), tl.a ? tl.a->id : -1);
  if (!w.mt) {
    c.check_places();
    VM_CHECK(c.locals.get() <= 1, "started-early", "");
    if (!m.eager) VM_CHECK(c.locals.get() == 0 && c.ended.get() == 0, "started-early", "%s runs at creation", m.name.c_str());
  }
  if (cx.describe.size() < 300) cx.describe += m.name + " ";
  return s;
}
void pending_ops(World& w, Rng& r) {
  int k = r.below(10);
  if (k < 3) {
    PArena& a = w.pmr[r.below(3)];
    dd::pmr::pass_resource(a);
    w.pending = a.a;
  } else if (k == 3) {
    PArena& a = w.pmr[r.below(3)];
    std::pmr::memory_resource* now = &dd::pmr::get_default_resource();
    std::pmr::memory_resource* old = &dd::pmr::set_default_resource(a);
    VM_CHECK(old == now, "wrong-default", "set_default_resource does not give the previous default");
    VM_CHECK(&dd::pmr::get_default_resource() == &a, "wrong-default", "get_default_resource does not give what was set");
    w.deflt = a.a;
  }
}
struct RestoreDefault {
  ~RestoreDefault() {
    dd::pmr::set_default_resource(*std::pmr::new_delete_resource());
    // forget what is passed
    (void)Poly();
  }
};

SEQ_SCENARIO("C21", "histories", 6) {
  Rng& r = cx.rng;
  RestoreDefault rd;
  World w;
  w.rng = Rng(r.next());
  std::vector<std::unique_ptr<Slot>> slots;
  int steps = r.range(4, 30);
  long res0 = live_resources.get();
  for (int i = 0; i < steps; i++) {
    pending_ops(w, r);
    int k = r.below(5);
    if (k < 2 && slots.size() < 10) {
      auto s = create(w, r, cx, true);
      if (s) slots.push_back(std::move(s));
    } else if (k < 4 && !slots.empty()) {
      auto& s = slots[(size_t)r.below((int)slots.size())];
      s->step(w, r);
      if (s->over && r.chance(1, 2)) {
        std::swap(s, slots.back());
        slots.pop_back();
      }
    } else if (!w.parked.empty()) {
      size_t j = (size_t)r.below((int)w.parked.size());
      Park* p = w.parked[j];
      w.parked.erase(w.parked.begin() + (long)j);
      p->h.resume();
    }
    for (auto& s : slots) s->c->check_places();
    cx.observe((uint64_t)w.live());
  }
  cx.nontrivial = w.ctls.size() > 1;
  while (!slots.empty()) {
    std::swap(slots[(size_t)r.below((int)slots.size())], slots.back());
    slots.pop_back();
  }
  while (!w.parked.empty()) {
    Park* p = w.parked.back();
    w.parked.pop_back();
    if (r.chance(1, 2)) w.parked.insert(w.parked.begin(), p), p = w.parked.back(), w.parked.pop_back();
    p->h.resume();
  }
  for (Ctl& c : w.ctls) {
    c.check_places();
    VM_CHECK(c.frames.get() == 1, "frame-not-destroyed", "frame of coroutine %d destroyed %ld times", c.id, c.frames.get());
    VM_CHECK(c.locals.get() == 0, "locals-alive", "");
  }
  VM_CHECK(w.live() == 0, "memory-leak", "%ld blocks are not returned to their resource", w.live());
  VM_CHECK(live_resources.get() == res0, "resource-leak", "%ld resource objects are left", live_resources.get() - res0);
}

// frames end on other threads than they began on
MT_SCENARIO("C21", "threads", 5) {
  Rng& r = cx.rng;
  RestoreDefault rd;
  World w;
  w.mt = true;
  long res0 = live_resources.get();
  {
    dd::thread_pool pool((size_t)r.range(1, 2));
    dd::worker wk;
    w.pool = &pool;
    w.wk = &wk;
    std::vector<std::unique_ptr<Slot>> slots;
    int n = r.range(1, 5);
    for (int i = 0; i < n; i++) {
      pending_ops(w, r);
      auto s = create(w, r, cx, false);
      if (!s) continue;
      if (dynamic_cast<SlotOf<KChan, dd::channel<int>>*>(s.get()) || r.chance(1, 4)) {
        // dies on another thread, wherever it has come to
        std::thread([s = std::move(s)]() mutable { s.reset(); }).join();
        continue;
      }
      slots.push_back(std::move(s));
    }
    for (auto& s : slots) {
      // channels of other types hop too, they are not consumed here
      if (w.rng.chance(1, 3)) s.reset();
    }
    bool any = true;
    for (int k = 0; any && k < 12; k++) {
      any = false;
      for (auto& s : slots)
        if (s && !s->over) {
          std::string nm = typeid(*s).name();
          if (nm.find("KChan") != std::string::npos) { s.reset(); continue; }
          s->step(w, r);
          any = true;
        }
    }
    slots.clear();
    for (long spins = 0;; spins++) {
      bool left = w.live() != 0;
      for (Ctl& c : w.ctls) left |= c.frames.get() == 0;
      if (!left) break;
#ifdef VS_CONTROLLED
      VM_CHECK(spins < 100000, "memory-leak", "%ld blocks are not returned to their resource", w.live());
      vs::yield_point();
#else
      VM_CHECK(spins < 60000, "memory-leak", "%ld blocks are not returned to their resource", w.live());
      std::this_thread::sleep_for(std::chrono::milliseconds(spins < 100 ? 0 : 1));
#endif
    }
    w.acquire();
  }
  w.acquire();
  for (Ctl& c : w.ctls) VM_CHECK(c.frames.get() == 1 && c.locals.get() == 0, "frame-not-destroyed", "coroutine %d", c.id);
  VM_CHECK(live_resources.get() == res0, "resource-leak", "%ld resource objects are left", live_resources.get() - res0);
}

// ---- the resource is part of the type: such objects are used as all others ------------------------------------
struct Plan {
  std::vector<std::pair<int, std::unique_ptr<Plan>>> items;  // a value, or how the nested one is given
  std::vector<int> flat;
};
std::unique_ptr<Plan> make_plan(Rng& r, int depth, int& next) {
  auto p = std::make_unique<Plan>();
  for (int n = r.below(4); n > 0; n--) {
    if (depth > 0 && r.chance(1, 2)) {
      auto sub = make_plan(r, depth - 1, next);
      p->flat.insert(p->flat.end(), sub->flat.begin(), sub->flat.end());
      p->items.emplace_back(r.below(6), std::move(sub));
    } else {
      p->items.emplace_back(++next, nullptr);
      p->flat.push_back(next);
    }
  }
  return p;
}
template <typename R>
dd::generator_r<int, R> plan_gen(const Plan& p, Obj o) {
  for (auto& [v, sub] : p.items) {
    if (!sub) {
      co_yield v;
      VM_CHECK(o.get() == 3, "object-corrupted", "argument");
      continue;
    }
    switch (v) {
      case 0: co_yield dd::elements_of(plan_gen<R>(*sub, Obj(3))); break;
      case 1: {
        auto g = plan_gen<R>(*sub, Obj(3));
        co_yield dd::elements_of(g);
        break;
      }
      case 2: co_yield dd::elements_of(plan_gen<R>(*sub, Obj(3)).decay()); break;
      case 3: {
        dd::generator<int> g = plan_gen<R>(*sub, Obj(3));
        co_yield dd::elements_of(std::move(g));
        break;
      }
      case 4: co_yield dd::elements_of(plan_gen<StaticRes>(*sub, Obj(3))); break;
      default: {
        auto g = plan_gen<R>(*sub, Obj(3));
        co_yield dd::elements_of(g.decay());
      }
    }
  }
}
template <typename R>
dd::channel_r<int, R> plan_chan(const Plan& p, Obj o) {
  for (auto& [v, sub] : p.items) {
    if (!sub) {
      co_yield v;
      VM_CHECK(o.get() == 3, "object-corrupted", "argument");
      continue;
    }
    switch (v) {
      case 0: co_yield dd::elements_of(plan_chan<R>(*sub, Obj(3))); break;
      case 1: {
        auto g = plan_chan<R>(*sub, Obj(3));
        co_yield dd::elements_of(g);
        break;
      }
      case 2: co_yield dd::elements_of(plan_chan<R>(*sub, Obj(3)).decay()); break;
      case 3: {
        dd::channel<int> g = plan_chan<R>(*sub, Obj(3));
        co_yield dd::elements_of(std::move(g));
        break;
      }
      case 4: co_yield dd::elements_of(plan_gen<R>(*sub, Obj(3))); break;
      default: co_yield dd::elements_of(plan_chan<StaticRes>(*sub, Obj(3)));
    }
  }
}
template <typename X>
struct Held {
  std::optional<X> x;
  const Plan* p = nullptr;
  size_t at = 0;
  bool over() const { return !p || at > p->flat.size(); }
};
template <typename X>
dd::job take_from_channel(X& ch, Held<X>& h, int k) {
  while (k-- > 0 && h.p) {
    int* v = co_await ch.next();
    if (!v) {
      VM_CHECK(h.at == h.p->flat.size(), "wrong-values", "%zu values of %zu", h.at, h.p->flat.size());
      h.p = nullptr;
      co_return;
    }
    VM_CHECK(h.at < h.p->flat.size() && *v == h.p->flat[h.at], "wrong-values", "value %d at %zu of %zu", *v, h.at, h.p->flat.size());
    h.at++;
  }
}
template <typename X>
void take_some(Held<X>& h, int k) {
  if constexpr (requires(X& x) { x.next(); })
    take_from_channel(*h.x, h, k);
  else {
    while (k-- > 0 && h.p) {
      auto it = h.x->begin();
      if (it == h.x->end()) {
        VM_CHECK(h.at == h.p->flat.size(), "wrong-values", "%zu values of %zu", h.at, h.p->flat.size());
        h.p = nullptr;
        return;
      }
      VM_CHECK(h.at < h.p->flat.size() && *it == h.p->flat[h.at], "wrong-values", "value %d at %zu of %zu", *it, h.at, h.p->flat.size());
      h.at++;
    }
  }
}
template <typename X, typename Base, typename F>
void resourced_sequences(Ctx& cx, F make) {
  Rng& r = cx.rng;
  std::vector<std::unique_ptr<Plan>> plans;
  Held<X> hs[4];
  std::vector<Held<Base>> bases;
  bases.reserve(64);
  int next = 0;
  for (int steps = r.range(3, 25); steps > 0; steps--) {
    auto &a = hs[r.below(4)], &b = hs[r.below(4)];
    int k = r.below(10);
    cx.observe((uint64_t)k);
    if (!a.x) {
      if (k < 3) { a.x.emplace(); a.p = nullptr; VM_CHECK(a.x->empty(), "not-empty", ""); continue; }
      plans.push_back(make_plan(r, 3, next));
      a.p = plans.back().get();
      a.at = 0;
      a.x.emplace(make(*a.p));
      continue;
    }
    auto take_model = [](auto& to, auto& from) { to.p = std::exchange(from.p, nullptr); to.at = from.at; };
    switch (k) {
      case 0: {  // into a new one
        X y(std::move(*a.x));
        VM_CHECK(a.x->empty() && !*a.x, "moved-from-not-empty", "");
        a.x.emplace(std::move(y));
        break;
      }
      case 1:
        if (&a == &b || !b.x) break;
        *a.x = std::move(*b.x);
        b.x->clear();
        take_model(a, b);
        break;
      case 2:
        if (&a == &b || !b.x) break;
        if (r.chance(1, 2)) std::swap(*a.x, *b.x);
        else a.x->swap(*b.x);
        std::swap(a.p, b.p), std::swap(a.at, b.at);
        break;
      case 3: {  // no longer known as resourced
        if (bases.size() == 60) break;
        bases.emplace_back();
        if (r.chance(1, 2)) bases.back().x.emplace(std::move(*a.x));
        else bases.back().x.emplace(std::move(*a.x).decay());
        take_model(bases.back(), a);
        a.x.reset();
        break;
      }
      case 4: {
        if (&a == &b || !b.x) break;
        auto h = a.x->release();
        VM_CHECK(a.x->empty(), "release-keeps-coroutine", "");
        b.x->reset(h);
        take_model(b, a);
        break;
      }
      case 5: a.x->clear(); a.p = nullptr; VM_CHECK(a.x->empty(), "not-empty", ""); break;
      case 6: a.x.reset(); a.p = nullptr; break;
      default: take_some(a, r.range(1, 4));
    }
    if (!bases.empty() && r.chance(1, 4)) take_some(bases[(size_t)r.below((int)bases.size())], r.range(1, 4));
    cx.observations++;
  }
  for (auto& h : hs) if (h.x) take_some(h, r.below(40));
  for (auto& h : bases) take_some(h, r.below(40));
}
template <typename R>
dd::task_r<int, R> plain_task(int v, Obj o) { VM_CHECK(o.get() == v, "object-corrupted", ""); co_return v; }
template <typename R>
dd::task_r<void, R> void_task(int& x, int v) { x = v; co_return; }
template <typename R>
dd::task_r<int, R> all_task(int v, int& x) {
  auto [a, b, c] = co_await dd::when_all(plain_task<R>(v, Obj(v)).decay(), void_task<R>(x, v).decay(), plain_task<StaticRes>(v + 1, Obj(v + 1)).decay());
  VM_CHECK(*a == v && b.has_value() && x == v && *c == v + 1, "wrong-result", "when_all");
  std::vector<dd::task<int>> ts;
  for (int i = 0; i < v % 4; i++) ts.push_back(plain_task<R>(i, Obj(i)));
  auto rs = co_await dd::when_all(std::move(ts));
  for (int i = 0; i < v % 4; i++) VM_CHECK(*rs[(size_t)i] == i, "wrong-result", "when_all");
  auto any = co_await dd::when_any(plain_task<R>(v, Obj(v)).decay(), plain_task<R>(v + 1, Obj(v + 1)).decay());
  VM_CHECK(any.index() == 1 && *std::get<1>(any) == v, "wrong-result", "when_any");
  co_return co_await plain_task<R>(v, Obj(v));
}
template <typename R>
dd::async_task_r<int, R> over_task(int v, int& x) { co_return co_await all_task<R>(v, x); }
template <typename R>
void resourced_tasks(Ctx& cx) {
  Rng& r = cx.rng;
  std::optional<dd::task_r<int, R>> ts[3];
  int vs[3] = {};
  int x = 0;
  for (int steps = r.range(3, 15); steps > 0; steps--) {
    int i = r.below(3), j = r.below(3), k = r.below(8);
    cx.observe((uint64_t)k);
    if (!ts[i] || ts[i]->empty()) {
      vs[i] = r.below(1000);
      ts[i].emplace(all_task<R>(vs[i], x));
      continue;
    }
    switch (k) {
      case 0: if (i != j && ts[j]) { *ts[i] = std::move(*ts[j]); ts[j].reset(); vs[i] = vs[j]; } break;
      case 1: { dd::task<int> t(std::move(*ts[i])); ts[i].reset(); VM_CHECK(t.get() == vs[i], "wrong-result", "task"); break; }
      case 2: { dd::task<int> t = std::move(*ts[i]).decay(); ts[i].reset(); if (r.chance(1, 2)) (void)t.start_and_detach(); break; }
      case 3: { auto a = over_task<R>(7, x); VM_CHECK(a.get() == 7, "wrong-result", "async_task"); dd::async_task<int> b = over_task<R>(8, x); VM_CHECK(b.get() == 8, "wrong-result", "async_task"); break; }
      case 4: { auto h = ts[i]->release(); ts[i].emplace(h); break; }
      case 5: ts[i].reset(); break;
      default: VM_CHECK(ts[i]->get() == vs[i], "wrong-result", "task"); ts[i].reset();
    }
    cx.observations++;
  }
}
template <typename R>
void resourced_objects(Ctx& cx, int what) {
  if (what == 0) resourced_sequences<dd::generator_r<int, R>, dd::generator<int>>(cx, [](const Plan& p) { return plan_gen<R>(p, Obj(3)); });
  else if (what == 1) resourced_sequences<dd::channel_r<int, R>, dd::channel<int>>(cx, [](const Plan& p) { return plan_chan<R>(p, Obj(3)); });
  else resourced_tasks<R>(cx);
}
SEQ_SCENARIO("C21", "resourced_objects", 3) {
  Rng& r = cx.rng;
  RestoreDefault rd;
  World w;
  long res0 = live_resources.get();
  if (r.chance(3, 4)) dd::pmr::set_default_resource(w.pmr[r.below(3)]);
  int which = r.below(3), what = r.below(3);
  switch (which) {
    case 0: resourced_objects<Poly>(cx, what); break;
    case 1: resourced_objects<Fat>(cx, what); break;
    default: resourced_objects<StaticRes>(cx, what);
  }
  cx.nontrivial = w.total() > 1;
  cx.observe((uint64_t)w.total());
  VM_CHECK(w.live() == 0, "memory-leak", "%ld blocks are not returned to their resource", w.live());
  VM_CHECK(live_resources.get() == res0, "resource-leak", "%ld resource objects are left", live_resources.get() - res0);
  static const char* names[] = {"generators", "channels", "tasks"};
  cx.describe = std::string(names[what]) + " of a resource type " + std::to_string(which);
}

// what is passed ahead belongs to one thread
MT_SCENARIO("C21", "pass_threads", 3) {
  Rng& r = cx.rng;
  RestoreDefault rd;
  World w;
  int n = r.range(2, 3);
  PArena* def = r.chance(1, 2) ? &w.pmr[0] : nullptr;
  if (def) dd::pmr::set_default_resource(*def);
  struct T { Arena own; PArena res; };
  std::deque<T> ts((size_t)n);
  {
    std::vector<std::thread> th;
    for (int i = 0; i < n; i++) {
      T& t = ts[(size_t)i];
      t.own.id = 20 + i;
      t.res.a = &t.own;
      th.emplace_back([&, i, tr = Rng(r.next())]() mutable {
        Arena* pending = nullptr;
        std::vector<std::pair<std::optional<dd::pmr::generator<int>>, int>> keep;
        std::deque<Ctl> ctl;
        for (int k = tr.range(2, 8); k > 0; k--) {
          switch (tr.below(4)) {
            case 0:
              dd::pmr::pass_resource(t.res);
              pending = &t.own;
              break;
            case 1: {  // not polymorphic: takes nothing
              ctl.emplace_back();
              auto g = KGen::body<dd::generator<int>, 3>(Frame(ctl.back()), ctl.back(), Obj(0));
              break;
            }
            default: {
              ctl.emplace_back();
              tl = Trace{};
              auto g = KGen::body<dd::pmr::generator<int>, 3>(Frame(ctl.back()), ctl.back(), Obj(0));
              Arena* want = pending ? std::exchange(pending, nullptr) : def ? def->a : nullptr;
              VM_CHECK(tl.a == want && tl.allocs == (want ? 1 : 0), "wrong-resource", "thread %d: frame is taken from resource %d, expected %d", i, tl.a ? tl.a->id : -1, want ? want->id : -1);
              if (tr.chance(1, 2)) keep.emplace_back(std::move(g), 0);
            }
          }
          vs::point(vs::K_USER, &t);
        }
        keep.clear();
        if (pending) (void)Poly();
      });
    }
    for (auto& t : th) t.join();
  }
  VM_CHECK(w.live() == 0, "memory-leak", "");
  for (auto& t : ts) VM_CHECK(t.own.live.get() == 0, "memory-leak", "");
}

// copying an argument into the frame throws: the memory goes back
struct Boom {
  bool armed = false;
  Obj o;
  explicit Boom(bool a) : armed(a), o(3) {}
  Boom(Boom&& x) : armed(x.armed), o(3) {
    if (armed) throw vm::Exc{5};
  }
};
template <typename CC, typename... W>
CC boom_body(Ctl& c, Obj a, Boom b, W...) {
  Local l(c);
  co_await std::suspend_always{};
  VM_CHECK(a.get() == c.id && b.o.get() == 3, "object-corrupted", "");
}
template <typename A>
void boom_case(World& w, Rng& r, Ctl& c, bool armed) {
  using W = typename A::W;
  tl = Trace{};
  long objs = vm::live_objects.get(), res = live_resources.get(), heap = vs::live_blocks();
  bool thrown = false;
  try {
    dd::job j = A::with(w, r, [&](W x) { return boom_body<dd::job, W>(c, Obj(c.id), Boom(armed), std::move(x)); });
    VM_CHECK(tl.allocs == 1 && tl.a == w.expected, "wrong-resource", "");
    j.handle.destroy();
  } catch (const vm::Exc&) {
    thrown = true;
  }
  VM_CHECK(thrown == armed, "exception-lost", "");
  VM_CHECK(tl.frees == tl.allocs, "memory-leak", "frame is not returned after a throwing copy of an argument: %ld taken, %ld returned", tl.allocs, tl.frees);
#if defined(__clang__)
  // g++ leaks arguments copied before the failing one
  VM_CHECK(vm::live_objects.get() == objs, "object-leak", "%ld objects", vm::live_objects.get() - objs);
#else
  (void)objs;
#endif
  VM_CHECK(live_resources.get() == res, "resource-leak", "%ld resources", live_resources.get() - res);
  VM_CHECK(vs::live_blocks() == heap, "memory-leak", "%ld heap blocks", vs::live_blocks() - heap);
}
SEQ_SCENARIO("C21", "throwing_argument", 1) {
  Rng& r = cx.rng;
  World w;
  Ctl c;
  c.id = 9;
  c.w = &w;
#if !defined(__clang__)
  long objs = vm::live_objects.get();
#endif
  for (int k = r.range(1, 4); k > 0; k--) {
    bool armed = r.chance(1, 2);
    int which = r.below(5);
    switch (which) {
      case 0: boom_case<AStatic>(w, r, c, armed); break;
      case 1: boom_case<AFat>(w, r, c, armed); break;
      case 2: boom_case<ATiny>(w, r, c, armed); break;
      case 3: boom_case<APmr>(w, r, c, armed); break;
      default: boom_case<AChunk>(w, r, c, armed);
    }
    cx.observe((uint64_t)which * 2 + armed);
  }
  VM_CHECK(w.live() == 0, "memory-leak", "%ld blocks are not returned", w.live());
#if !defined(__clang__)
  vm::live_objects.set(objs);
#endif
  cx.nontrivial = true;
}

// ---- C22 ------------------------------------------------------------------------------------------------
struct Blk {
  unsigned char* p;
  size_t len;
  unsigned char pat;
};
struct Stack {
  std::unique_ptr<std::byte[]> mem;
  unsigned char* buf = nullptr;
  size_t buflen = 0;
  std::optional<dd::stack_resource> res;
  std::vector<Blk> blocks;
  unsigned char next = 1;
  size_t peak_len = 0;  // biggest block given since construction

  explicit Stack(size_t buflen_, int align_to) : buflen(buflen_) {
    blocks.reserve(64);
    if (buflen) {
      mem = std::make_unique<std::byte[]>(buflen + 64);
      uintptr_t q = ((uintptr_t)mem.get() + 15) & ~(uintptr_t)15;
      (void)align_to;
      if (q % 32 == 0) q += 16;
      buf = (unsigned char*)q;
      memset(mem.get(), 0x5A, buflen + 64);
      res.emplace(std::span<unsigned char>(buf, buflen));
    } else
      res.emplace();
  }
  bool in_buf(const unsigned char* p, size_t n) const { return buflen && p >= buf && p + n <= buf + buflen; }
  static size_t up(size_t n) { return (n + 15) / 16 * 16; }

  // an allocation that fails leaves everything as it was
  void failing_push(size_t len, bool inject, Ctx& cx) {
    bool threw = false;
    void* p = nullptr;
    long n0 = vs::total_allocs();
    if (inject) vs::fail_alloc_at(1);
    try { p = res->allocate(len); } catch (const std::bad_alloc&) { threw = true; }
    bool fired = vs::alloc_failure_fired();
    vs::fail_alloc_at(0);
    cx.observe(13 + threw);
    if (!inject) {
      VM_CHECK(threw, "block-too-small", "allocate(%zu) gives a block", len);
    } else if (!fired) {
      VM_CHECK(!threw, "unexpected-failure", "allocate(%zu) throws", len);
      memset(p, next, len);
      blocks.push_back({(unsigned char*)p, len, next});
      if (++next == 0) next = 1;
      peak_len = std::max(peak_len, len);
    } else
      VM_CHECK(threw, "lost-failure", "allocate(%zu) gives a block, but no memory is left", len);
    VM_CHECK(!threw || vs::total_allocs() == n0, "memory-leak", "failed allocate(%zu) allocates", len);
    check_all();
  }
  void push(size_t len, Ctx& cx) {
    unsigned char* p = (unsigned char*)res->allocate(len);
    if (len == 0) {
      blocks.push_back({p, 0, 0});
      return;
    }
    VM_CHECK(p != nullptr, "null-block", "allocate(%zu)", len);
    VM_CHECK((uintptr_t)p % dd::coroframe_align() == 0, "block-misaligned", "allocate(%zu) gives %p", len, (void*)p);
    for (Blk& b : blocks) VM_CHECK(p + len <= b.p || b.p + b.len <= p, "blocks-overlap", "block of %zu bytes at %p overlaps one of %zu bytes at %p", len, (void*)p, b.len, (void*)b.p);
    if (buflen) VM_CHECK(p + len <= buf || p >= buf + buflen || in_buf(p, len), "block-crosses-buffer", "block of %zu bytes crosses the border of the initial buffer", len);
    memset(p, next, len);
    blocks.push_back({p, len, next});
    if (++next == 0) next = 1;
    peak_len = std::max(peak_len, len);
    cx.observe(len * 2 + in_buf(p, len));
  }
  void check_top() {
    Blk& b = blocks.back();
    for (size_t i = 0; i < b.len; i++) VM_CHECK(b.p[i] == b.pat, "block-overwritten", "byte %zu of a block of %zu bytes is overwritten", i, b.len);
  }
  void check_all() {
    for (Blk& b : blocks)
      for (size_t i = 0; i < b.len; i++) VM_CHECK(b.p[i] == b.pat, "block-overwritten", "byte %zu of a block of %zu bytes is overwritten", i, b.len);
    if (buflen) {
      for (auto* q = (unsigned char*)mem.get(); q < buf; q++) VM_CHECK(*q == 0x5A, "write-outside-of-buffer", "");
      for (auto* q = buf + buflen; q < (unsigned char*)mem.get() + buflen + 64; q++) VM_CHECK(*q == 0x5A, "write-outside-of-buffer", "");
    }
  }
  void pop() {
    check_top();
    Blk b = blocks.back();
    blocks.pop_back();
    if (b.len) memset(b.p, 0xDD, b.len);
    res->deallocate(b.p, b.len);
  }
};
size_t pick_len(Rng& r, size_t buflen) {
  switch (r.below(8)) {
    case 0: return (size_t)r.range(1, 16);
    case 1: return (size_t)r.range(1, 16) * 16;
    case 2: return (size_t)r.range(1, 600);
    case 3: return buflen ? std::max<long>(1, (long)buflen + r.range(-20, 20)) : 33;
    case 4: return (size_t)r.range(400, 5000);
    default: return (size_t)r.range(1, 100);
  }
}

SEQ_SCENARIO("C22", "histories", 6) {
  Rng& r = cx.rng;
  static const size_t bufs[] = {0, 16, 64, 100, 256, 1000, 2048};
  size_t bl = bufs[r.below(7)];
  {
    Stack s(bl, 16);
    std::optional<Stack> other;
    int steps = r.range(5, 80);
    int bias = r.range(1, 4);
    for (int i = 0; i < steps; i++) {
      int k = r.below(12);
      if (r.chance(1, 24)) {
        if (s.blocks.size() < 40) {
          if (r.chance(1, 3)) s.failing_push(r.chance(1, 2) ? SIZE_MAX - r.below(48) : ((size_t)1 << 63) + r.below(4096), false, cx);
          else s.failing_push(pick_len(r, bl), true, cx);
        }
      } else if (k < 5 + bias) {
        if (s.blocks.size() < 40) s.push(r.chance(1, 32) ? 0 : pick_len(r, bl), cx);
      } else if (k < 10) {
        for (int m = r.chance(1, 4) ? r.range(1, 8) : 1; m > 0 && !s.blocks.empty(); m--) {
          Blk b = s.blocks.back();
          s.pop();
          if (b.len && r.chance(1, 4)) {
            // what was just returned is used again
            long n0 = vs::total_allocs();
            size_t len = (size_t)r.range(1, (int)b.len);
            s.push(len, cx);
            VM_CHECK(vs::total_allocs() == n0, "memory-not-reused", "%zu bytes right after %zu bytes were returned take new memory", len, b.len);
            if (s.in_buf(b.p, b.len)) VM_CHECK(s.in_buf(s.blocks.back().p, len), "memory-not-reused", "initial buffer is not used again");
          }
        }
      } else if (k == 10) {
        // everything at once
        s.check_all();
        s.blocks.clear();
        s.res->reuse_memory();
        cx.observe(7);
        size_t len = (size_t)r.range(1, (int)std::max<size_t>(1, s.peak_len));
        bool fits = bl && Stack::up(len) <= bl;
        if (s.peak_len || fits) {
          long n0 = vs::total_allocs();
          s.push(len, cx);
          if (len <= s.peak_len) VM_CHECK(vs::total_allocs() == n0, "memory-not-reused", "%zu bytes after reuse_memory take new memory, %zu bytes were allocated before", len, s.peak_len);
          if (fits) VM_CHECK(s.in_buf(s.blocks.back().p, len), "memory-not-reused", "initial buffer of %zu bytes is not used again for %zu bytes", bl, len);
        }
      } else {
        // moves: blocks stay where they are and belong to the new object
        dd::stack_resource t(std::move(*s.res));
        if (r.chance(1, 2)) {
          // moved-from object is an empty one
          void* p = s.res->allocate(40);
          VM_CHECK(!s.in_buf((unsigned char*)p, 1), "blocks-overlap", "moved-from resource gives the same buffer");
          memset(p, 1, 40);
          if (r.chance(1, 2)) s.res->deallocate(p, 40);
        }
        if (r.chance(1, 2)) *s.res = std::move(t);
        else {
          s.res.reset();
          s.res.emplace(std::move(t));
        }
        cx.observe(9);
        if (r.chance(1, 3)) {
          // another resource that was used before (and is in use, maybe) takes its place
          Stack o(bufs[r.below(7)], 16);
          for (int q = r.below(12); q > 0; q--) {
            if (r.chance(3, 5)) o.push(pick_len(r, o.buflen) << r.below(4), cx);
            else if (!o.blocks.empty()) o.pop();
          }
          if (r.chance(1, 3)) while (!o.blocks.empty()) o.pop();
          if (r.chance(1, 4)) { o.blocks.clear(); o.res->reuse_memory(); }
          s.check_all();
          *s.res = std::move(*o.res);
          std::swap(s.mem, o.mem);
          std::swap(s.buf, o.buf);
          std::swap(s.buflen, o.buflen);
          s.blocks.swap(o.blocks);
          o.blocks.clear();
          s.peak_len = o.peak_len;
          bl = s.buflen;
          s.check_all();
          if (r.chance(1, 2)) {
            // moved-from object is an empty one
            o.buflen = 0;
            o.peak_len = 0;
            o.push(pick_len(r, 0), cx);
            o.check_all();
          }
          cx.observe(11);
        }
      }
      if (r.chance(1, 6)) s.check_all();
    }
    cx.nontrivial = s.blocks.size() > 0 || steps > 20;
    cx.describe = "buffer " + std::to_string(bl) + ", " + std::to_string(steps) + " steps";
    s.check_all();
    if (r.chance(1, 2))
      while (!s.blocks.empty()) s.pop();
  }
}

// the same stack ordered use again and again needs bounded memory
SEQ_SCENARIO("C22", "repeated", 2) {
  Rng& r = cx.rng;
  static const size_t bufs[] = {0, 64, 256, 1000};
  size_t bl = bufs[r.below(4)];
  Stack s(bl, 16);
  struct Op { bool push; size_t len; };
  std::vector<Op> ops;
  int depth = 0, pushes = 0;
  for (int i = r.range(2, 14); i > 0; i--) {
    if (depth && r.chance(2, 5)) ops.push_back({false, 0}), depth--;
    else if (pushes < 6) ops.push_back({true, pick_len(r, bl)}), depth++, pushes++;
  }
  bool all_at_once = r.chance(1, 2);
  long n0 = vs::total_allocs();
  long limit = (long)pushes * (pushes + 1) + 1;
  int rounds = 3 * (int)limit + 10;
  std::vector<Blk> keep;
  keep.reserve(64);
  s.blocks.reserve(64);
  n0 = vs::total_allocs();
  for (int k = 0; k < rounds; k++) {
    for (Op& o : ops) {
      if (o.push) s.push(o.len, cx);
      else s.pop();
    }
    if (all_at_once) {
      s.check_all();
      s.blocks.clear();
      s.res->reuse_memory();
    } else
      while (!s.blocks.empty()) s.pop();
    VM_CHECK(vs::total_allocs() - n0 <= limit, "memory-grows", "%ld chunks after %d rounds of %d blocks, all returned", vs::total_allocs() - n0, k + 1, pushes);
  }
  cx.nontrivial = pushes > 1;
}

// coroutines nested in stack order: tasks which await tasks, generators inside of generators
struct Shape {
  int depth, width;
  long sum = 0;
};
std::array<int, 3> pads{};
template <int N>
dd::task<int> nest(Shape& sh, int depth, Obj o, uint64_t seed, dd::with_stack_resource sr);
dd::task<int> nest_any(Shape& sh, int depth, uint64_t seed, dd::with_stack_resource sr) {
  switch (seed % 3) {
    case 0: return nest<0>(sh, depth, Obj(depth), seed, sr);
    case 1: return nest<100>(sh, depth, Obj(depth), seed, sr);
    default: return nest<1500>(sh, depth, Obj(depth), seed, sr);
  }
}
template <int N>
dd::task<int> nest(Shape& sh, int depth, Obj o, uint64_t seed, dd::with_stack_resource sr) {
  char pad[N + 1];
  memset(pad, depth, N + 1);
  Rng r(seed);
  int mine = 1;
  Obj tail(depth);
  if (depth < sh.depth)
    for (int i = r.below(sh.width + 1); i > 0; i--) {
      mine += co_await nest_any(sh, depth + 1, r.next(), sr);
      for (char x : pad) VM_CHECK(x == (char)depth, "blocks-overlap", "frame is overwritten by a nested one");
      VM_CHECK(tail.get() == depth && o.get() == depth, "object-corrupted", "");
    }
  sh.sum++;
  co_return mine;
}
dd::generator<int> gnest(Shape& sh, int depth, uint64_t seed, dd::with_stack_resource sr) {
  Obj tail(depth);
  Rng r(seed);
  char pad[65];
  memset(pad, depth, 65);
  co_yield depth;
  sh.sum++;
  if (depth < sh.depth)
    for (int i = r.below(sh.width + 1); i > 0; i--) {
      co_yield dd::elements_of(gnest(sh, depth + 1, r.next(), sr));
      for (char x : pad) VM_CHECK(x == (char)depth, "blocks-overlap", "frame is overwritten by a nested one");
      VM_CHECK(tail.get() == depth, "object-corrupted", "");
    }
}
SEQ_SCENARIO("C22,C21", "coroutines", 2) {
  Rng& r = cx.rng;
  static const size_t bufs[] = {0, 512, 4096};
  size_t bl = bufs[r.below(3)];
  Stack s(bl, 16);
  long first = -1;
  long n0 = vs::total_allocs();
  for (int round = r.range(1, 4); round > 0; round--) {
    Shape sh{r.range(1, 6), r.range(1, 3)};
    bool gen = r.chance(1, 2);
    int n = 0;
    if (gen) {
      int stop = r.chance(1, 3) ? r.range(1, 10) : 1 << 30;
      for (int d : gnest(sh, 0, r.next(), *s.res)) {
        VM_CHECK(d >= 0 && d <= sh.depth, "wrong-values", "");
        if (++n == stop) break;
      }
      cx.observe((uint64_t)n);
    } else {
      n = nest_any(sh, 0, r.next(), *s.res).get();
      VM_CHECK(n == sh.sum, "wrong-result", "%d of %ld", n, sh.sum);
      cx.observe((uint64_t)n);
    }
    if (n > 2) cx.nontrivial = true;
    // everything was returned in stack order: user's own block is the next
    s.push(24, cx);
    s.pop();
  }
  (void)first;
  (void)n0;
  s.check_all();
}

}  // namespace

VM_MAIN
