// random trees of tasks: every task keeps its own log which is compared with what the program of the tree says
#pragma once
#include "vmon.hpp"
#include "kelcoro/task.hpp"
#include "kelcoro/algorithm.hpp"
#include "kelcoro/thread_pool.hpp"
#include "kelcoro/job.hpp"
#include "kelcoro/logical_thread.hpp"

namespace vt {
using vm::completion;
using vm::Ctx;
using vm::Exc;
using vm::MoveOnly;
using vm::Obj;
using vm::Rng;

enum { R_OBJ, R_MOVE, R_INT, R_REF, R_VOID, R_POD, R_PICKY, R_KINDS };
struct Pod {
  long a[5];
};
struct Trigger {
  int v;
  bool boom;
};
// construction of the result may throw
struct Picky : Obj {
  Picky(Trigger t) : Obj(t.v) {
    if (t.boom) throw Exc{t.v};
  }
  Picky(Picky&&) = default;
  Picky& operator=(Picky&&) = default;
};

enum {
  S_HOP,        // continue on another thread / later
  S_AWAIT,      // co_await child
  S_SKIP,       // create and destroy a task
  S_DETACH,     // start_and_detach(false)
  S_STOPPED,    // start_and_detach(true)
  S_RESUME,     // detach() and resume by hand
  S_ALL,        // when_all
};
enum { A_PLAIN, A_TWICE, A_WAIT_GET, A_WAIT_AWAIT, A_MOVED, A_GET, A_PROXY, A_STYLES };
enum { L_START = 1, L_HOP, L_VAL, L_EXC, L_SKIP, L_DET, L_END, L_BEGIN };

struct Node;
struct Step {
  int kind = S_HOP;
  int style = 0;
  int target = 0;
  bool catches = true;
  Node* child = nullptr;
  std::vector<Node*> kids;
};
struct Node {
  int id = 0, rkind = R_OBJ;
  bool throws = false, rvo = false, sync = true;
  bool waste = false;  // asks for the return place, but ends otherwise
  bool detached = false, no_start_call = false;
  std::vector<Step> steps;
  // run time. plain memory on purpose: whoever reads it relies on the ordering promised by the library
  bool allowed = false;
  int started = 0, ended = 0, locals = 0, args = 0;
  int ctx_ended = 0;
  void* ctx_addr = nullptr;
  void* want_owner = nullptr;
  const void* place = nullptr;  // where the body built its result
  bool any_owner = false;
  int cell = 0, wrong_cell = -78;
  std::vector<long> log;
  // expected
  std::vector<long> want;
  bool want_started = false;

  int value() const { return id * 10 + 3; }
  void put(int what, long v = 0) { log.push_back(what * 1000000l + v); }
  void expect(int what, long v = 0) { want.push_back(what * 1000000l + v); }
};

struct World;
struct Park;
struct World {
  bool mt = false;
  bool abandoned = false;
  dd::thread_pool* pool = nullptr;
  dd::worker* w = nullptr;
  completion* comp = nullptr;
  std::vector<Park*> parked;
  std::vector<std::coroutine_handle<>> zombies;
  std::deque<Node> nodes;
  Rng order{1};
  int max_nodes = 24;
  bool rec = false;
  void drain(Ctx& cx, int limit = 1 << 30);
};
// manual executor: the coroutine continues when the driver says so
struct Park {
  World& w;
  std::coroutine_handle<> h;
  explicit Park(World& w) : w(w) {}
  Park(Park&&) = delete;
  bool await_ready() { return false; }
  void await_suspend(std::coroutine_handle<> x) {
    h = x;
    w.parked.push_back(this);
  }
  void await_resume() {}
  ~Park() { std::erase(w.parked, this); }
};
inline void World::drain(Ctx& cx, int limit) {
  while (!parked.empty() && limit-- > 0) {
    size_t i = (size_t)order.below((int)parked.size());
    Park* p = parked[i];
    parked.erase(parked.begin() + (long)i);
    cx.observe(i);
    p->h.resume();
  }
}

// ---- contexts ------------------------------------------------------------------------------------------
struct RecCtx {
  enum { OWNER = 1, START, END };
  int n = 0;
  struct call { int what; void* owner; void* self; } calls[6] = {};
  Node* node = nullptr;
  // hostile: gives the address of another one
#ifdef OBJ_DEL
  RecCtx* operator&() = delete;
  const RecCtx* operator&() const = delete;
#else
  RecCtx* operator&() noexcept { return other(); }
  const RecCtx* operator&() const noexcept { return other(); }
#endif
  static RecCtx* other() noexcept { static RecCtx c; return std::addressof(c); }
  void add(int what, void* owner, void* self) {
    VM_CHECK(n < 6, "context-told-too-often", "context called %d times", n + 1);
    calls[n++] = {what, owner, self};
  }
  template <typename O, typename T>
  void on_owner_setted(std::coroutine_handle<O> o, std::coroutine_handle<T> t) noexcept {
    VM_CHECK(o.address() != nullptr, "context-null-owner", "on_owner_setted with a null owner");
    VM_CHECK(n == 0, "context-order", "owner is told after %d other calls", n);
    add(OWNER, o.address(), t.address());
  }
  template <typename T>
  void on_start(std::coroutine_handle<T> t) noexcept {
    add(START, nullptr, t.address());
    VM_CHECK(n == 1 || (n == 2 && calls[0].what == OWNER), "context-order", "start is call number %d", n);
  }
  template <typename T>
  void on_end(std::coroutine_handle<T> t) noexcept {
    VM_CHECK(n > 0 || (node && node->no_start_call), "context-end-without-body", "end is told without a start");
    for (int i = 0; i < n; i++) VM_CHECK(calls[i].what != END, "context-told-too-often", "end is told twice");
    add(END, nullptr, t.address());
    VM_CHECK(std::addressof(t.promise().ctx) == this, "context-identity", "context of another task is told");
    if (!node) return;  // a combinator's own task
    VM_CHECK(node->started == 1 && node->locals == 0, "context-end-early", "end is told while locals of the body are alive");
    node->ctx_ended++;
  }
  static inline bool abandoning = false;
  RecCtx() = default;
  RecCtx(RecCtx&&) = delete;
  ~RecCtx() {
    // a task that never ran is told nothing. otherwise the end is the last that is told
    if (n == 0) { VM_CHECK(!node, "context-no-end", "task ran but is told nothing"); }
    else if (!abandoning) VM_CHECK(calls[n - 1].what == END, "context-no-end", "no end is told");
  }
};
template <typename C>
constexpr bool is_rec = std::is_same_v<C, RecCtx>;

// first argument: destroyed last, with the frame. nothing of the case is touched after that
struct Arg {
  World& w;
  Node* n;
  Arg(World& w, Node& x) : w(w), n(&x) { n->args++; }
  Arg(Arg&& o) : w(o.w), n(o.n) { n->args++; }
  ~Arg() {
    n->args--;
    if (n->args == 0 && n->detached && w.comp) w.comp->one();
  }
};
// first local: destroyed last
struct Life {
  World& w;
  Node& n;
  Life(World& w, Node& n) : w(w), n(n) { n.locals++; }
  ~Life() {
    n.locals--;
    n.ended++;
  }
};

template <typename R, typename C>
dd::task<R, C> body(World& w, Node& n, Arg arg, Obj a2, std::unique_ptr<int> a3);

template <typename R, typename C>
dd::task<R, C> make(World& w, Node& n) {
  VM_CHECK(n.args == 0, "argument-lifetime", "arguments of a task that does not exist yet");
  dd::task<R, C> t = body<R, C>(w, n, Arg(w, n), Obj(n.id), std::make_unique<int>(n.id));
  VM_CHECK(t && !t.empty() && t.raw_handle() && !t.raw_handle().done(), "task-empty", "new task is empty");
  VM_CHECK(n.started == 0, "task-started-early", "body of task %d runs before it is awaited", n.id);
  VM_CHECK(n.args == 1, "argument-lifetime", "%d copies of the argument", n.args);
  n.ctx_addr = t.get_context();
  return t;
}

template <typename R, typename V>
void check_value(Node& c, V&& v) {
  if constexpr (std::is_same_v<R, int&>) {
    VM_CHECK(&v == &c.cell, "wrong-result", "reference to another object");
    VM_CHECK(v == c.value(), "wrong-result", "referenced value %d, expected %d", v, c.value());
  } else if constexpr (std::is_same_v<R, int>) {
    VM_CHECK(v == c.value(), "wrong-result", "result %d, expected %d", v, c.value());
  } else if constexpr (std::is_same_v<R, Pod>) {
    for (int i = 0; i < 5; i++) VM_CHECK(v.a[i] == c.value() + i, "wrong-result", "result %ld, expected %d", v.a[i], c.value() + i);
  } else {
    VM_CHECK(v.get() == c.value(), "wrong-result", "result %d, expected %d", v.get(), c.value());
  }
}
// result seen by reference in the task itself
template <typename R, typename V>
void check_in_place(Node& c, V& v) {
  check_value<R>(c, v);
  if constexpr (std::is_same_v<R, Obj> || std::is_same_v<R, MoveOnly>) {
    if (!c.rvo) return;
    VM_CHECK(std::addressof(v) == c.place, "rvo-copies", "result built in the return place is another object");
    VM_CHECK(v.hops == 0, "rvo-copies", "result built in the return place was copied or moved %d times", v.hops);
  } else if constexpr (std::is_same_v<R, Pod>)
    if (c.rvo) VM_CHECK(std::addressof(v) == c.place, "rvo-copies", "result built in the return place is another object");
}
inline void check_finished(Node& c) {
  VM_CHECK(c.started == 1 && c.ended == 1, "awaited-task-not-finished", "awaiter of task %d continues, started %d, ended %d", c.id, c.started, c.ended);
  VM_CHECK(c.locals == 0, "locals-alive", "locals of finished task %d are alive", c.id);
}
template <typename C>
void check_ctx(Node& c, C* ctx) {
  if constexpr (is_rec<C>) {
    VM_CHECK(ctx == c.ctx_addr, "context-identity", "get_context() changed");
    VM_CHECK(c.ctx_ended == 1, "context-no-end", "owner continues before end is told");
  }
}

// finished tasks are moved like all others
template <typename R, typename C>
void move_finished(dd::task<R, C>& t, int how) {
  void* p = t.raw_handle().address();
  switch (how % 4) {
    case 0: {
      dd::task<R, C> o(std::move(t));
      VM_CHECK(t.empty() && !o.empty() && o.raw_handle().address() == p, "moved-from-not-empty", "finished task moved from");
      t = std::move(o);
      VM_CHECK(o.empty(), "moved-from-not-empty", "finished task moved from by assignment");
      break;
    }
    case 1: {
      dd::task<R, C> o;
      o = std::move(t);
      VM_CHECK(t.empty() && !o.empty(), "moved-from-not-empty", "finished task moved from by assignment");
      t = dd::task<R, C>(o.release());
      VM_CHECK(o.empty(), "release-keeps-task", "not empty");
      break;
    }
    default: break;
  }
  VM_CHECK(!t.empty() && t.raw_handle().address() == p && t.raw_handle().done(), "task-empty", "finished task was lost by a move");
}
// awaits a child in different ways
template <typename R, typename C>
dd::task<void> await_child(World& w, Node& p, Node& c, Step& s) {
  std::coroutine_handle<> self = co_await dd::this_coro::handle;
  {
    dd::task<R, C> t = make<R, C>(w, c);
    c.want_owner = self.address();
    try {
      switch (s.style) {
        case A_MOVED: {
          dd::task<R, C> t2(std::move(t));
          VM_CHECK(t.empty() && !t && t.raw_handle() == nullptr && t.get_context() == nullptr, "moved-from-not-empty", "moved-from task");
          dd::task<R, C> t3;
          VM_CHECK(t3.empty(), "default-not-empty", "default constructed task");
          t3 = std::move(t2);
          t = std::move(t3);
          dd::task<R, C>& self_ref = t;
          if (c.id % 2) t = std::move(self_ref);
          VM_CHECK(t.get_context() == c.ctx_addr, "context-identity", "context changes by a move");
        }
          [[fallthrough]];
        case A_PLAIN: {
          VM_CHECK(c.started == 0, "task-started-early", "task %d runs before it is awaited", c.id);
          c.allowed = true;
          if constexpr (std::is_void_v<R>) {
            co_await t;
          } else if (c.rkind == R_OBJ && c.id % 3 == 0) {
            R v = co_await t;
            check_value<R>(c, v);
          } else {
            auto&& v = co_await t;
            check_in_place<R>(c, v);
          }
          break;
        }
        case A_TWICE: {
          c.allowed = true;
          const void* a = nullptr;
          bool exc = false;
          int id = 0;
          try {
            if constexpr (std::is_void_v<R>) co_await t;
            else { auto&& v = co_await t; check_in_place<R>(c, v); a = std::addressof(v); }
          } catch (const Exc& e) {
            exc = true;
            id = e.id;
          }
          check_finished(c);
          bool exc2 = false;
          try {
            if constexpr (std::is_void_v<R>) co_await t;
            else { auto&& v = co_await t; check_in_place<R>(c, v); VM_CHECK(a == std::addressof(v), "wrong-result", "second await gives another object"); }
          } catch (const Exc& e) {
            exc2 = true;
            VM_CHECK(exc && e.id == id, "wrong-exception", "second await throws %d, first %d", e.id, id);
          }
          VM_CHECK(exc == exc2, "wrong-exception", "second await differs");
          if (exc) throw Exc{id};
          break;
        }
        case A_WAIT_GET:
        case A_PROXY: {
          c.allowed = true;
          if (s.style == A_PROXY) {
            auto proxy = std::noop_coroutine();
            auto other = w.rec ? std::coroutine_handle<>(proxy) : self;
            c.want_owner = other.address();
            if (w.rec) co_await t.wait_with_proxy_owner(proxy);
            else co_await t.wait_with_proxy_owner(other);
          } else
            co_await t.wait();
          check_finished(c);
          VM_CHECK(t.raw_handle().done(), "awaited-task-not-finished", "not done after wait");
          move_finished(t, c.id);
          // a finished task gives its result again and again
          for (int i = 0, n = std::is_void_v<R> || std::is_reference_v<R> || std::is_trivially_copyable_v<R> ? 2 : 1; i < n; i++) {
            try {
              if constexpr (std::is_void_v<R>) t.get();
              else { auto&& v = t.get(); check_value<R>(c, v); }
            } catch (const Exc& e) {
              int id = e.id;
              if (c.id % 3 == 0) {
                bool again = false;
                try { t.get(); } catch (const Exc& e2) { again = e2.id == id; }
                VM_CHECK(again, "wrong-exception", "second get() does not throw %d", id);
              }
              throw Exc{id};
            }
            VM_CHECK(!t.empty(), "get-loses-task", "finished task is empty after get()");
          }
          break;
        }
        case A_WAIT_AWAIT: {
          c.allowed = true;
          co_await t.wait();
          check_finished(c);
          move_finished(t, c.id);
          if constexpr (std::is_void_v<R>) co_await t;
          else { auto&& v = co_await t; check_in_place<R>(c, v); }
          break;
        }
        case A_GET: {
          c.allowed = true;
          c.any_owner = true;
          if constexpr (std::is_void_v<R>) t.get();
          else { auto&& v = t.get(); check_value<R>(c, v); }
          VM_CHECK(t.empty(), "get-keeps-task", "task is not empty after get()");
          break;
        }
      }
      check_finished(c);
      p.put(L_VAL, c.id);
    } catch (const Exc& e) {
      check_finished(c);
      p.put(L_EXC, e.id);
      if (!t.empty()) check_ctx<C>(c, t.get_context());
      if (!s.catches) throw;
    }
    if (!t.empty()) check_ctx<C>(c, t.get_context());
    if (!t.empty() && c.id % 5 == 1) {
      // starting a finished task again does nothing but take it away
      bool stop = c.id % 2;
      auto h = t.start_and_detach(stop);
      VM_CHECK(t.empty() && !t.start_and_detach(stop), "detach-keeps-task", "not empty");
      VM_CHECK(c.started == 1 && c.ended == 1, "task-ran-twice", "finished task %d was started again", c.id);
      VM_CHECK(!!h == stop && c.args == (stop ? 1 : 0), "argument-lifetime", "finished detached task %d: handle %d, arguments alive %d", c.id, (int)!!h, c.args);
      if (h) {
        VM_CHECK(h.done(), "detached-not-stopped", "not done");
        h.destroy();
      }
    }
  }
  VM_CHECK(c.args == 0, "argument-lifetime", "arguments of the destroyed task %d are alive", c.id);
}

template <typename R, typename C>
void child_no_await(World& w, Node& p, Node& c, Step& s) {
  dd::task<R, C> t = make<R, C>(w, c);
  switch (s.kind) {
    case S_SKIP:
      if constexpr (is_rec<C>) VM_CHECK(t.get_context()->n == 0, "context-told-without-run", "task which did not run is told %d calls", t.get_context()->n);
      if (s.style == 0) {
        dd::task<R, C> t2 = std::move(t);
      } else if (s.style == 1) {
        auto h = t.release();
        VM_CHECK(t.empty(), "release-keeps-task", "not empty");
        h.destroy();
      } else if (s.style == 2) {
        auto h = t.detach();
        VM_CHECK(t.empty(), "detach-keeps-task", "not empty");
        h.destroy();
        // nothing to start
        VM_CHECK(!t.detach() && !t.start_and_detach(false) && !t.start_and_detach(true) && !t.release() && t.empty(), "handle-of-empty-task", "not null");
      } else if (s.style == 3) {
        dd::task<R, C> t2(t.release());
        VM_CHECK(t2.raw_handle() && !t2.empty(), "task-empty", "empty");
        t = std::move(t2);
        { dd::task<R, C> d = std::move(t); }
      } else {
        { dd::task<R, C> d = std::move(t); }
      }
      VM_CHECK(c.started == 0 && c.args == 0, "task-started-early", "task %d was never awaited, started %d, arguments %d", c.id, c.started, c.args);
      p.put(L_SKIP, c.id);
      break;
    case S_DETACH: {
      c.allowed = true;
      void* frame = t.raw_handle().address();
      auto h = t.start_and_detach(false);  // may be destroyed already
      VM_CHECK(h.address() == frame, "wrong-handle", "start_and_detach gives another handle than the one of the task");
      VM_CHECK(t.empty(), "detach-keeps-task", "not empty");
      if (c.sync) {
        check_finished(c);
        VM_CHECK(c.args == 0, "argument-lifetime", "finished detached task did not destroy itself");
      }
      p.put(L_DET, c.id);
      break;
    }
    case S_STOPPED: {
      c.allowed = true;
      void* frame = t.raw_handle().address();
      auto h = t.start_and_detach(true);
      VM_CHECK(h.address() == frame, "wrong-handle", "start_and_detach gives another handle than the one of the task");
      VM_CHECK(t.empty(), "detach-keeps-task", "not empty");
      if (c.sync) {
        VM_CHECK(h && h.done(), "detached-not-stopped", "task that stops at its end is not done");
        check_finished(c);
        VM_CHECK(c.args == 1, "argument-lifetime", "frame destroyed at its end, though asked to stop");
        h.destroy();
        VM_CHECK(c.args == 0, "argument-lifetime", "arguments alive");
      } else
        w.zombies.push_back(h);
      p.put(L_DET, c.id);
      break;
    }
    case S_RESUME: {
      c.allowed = true;
      c.no_start_call = true;
      auto h = t.detach();
      VM_CHECK(c.started == 0, "task-started-early", "detach() runs the task");
      if (w.mt) w.pool->schedule(h);
      else h.resume();
      p.put(L_DET, c.id);
      break;
    }
  }
}

template <typename C>
dd::task<void> await_all(World& w, Node& p, Step& s) {
  for (Node* k : s.kids) k->allowed = false;
  auto mark = [&](void* owner) { for (Node* k : s.kids) { VM_CHECK(k->started == 0, "task-started-early", "started before when_all is awaited"); k->allowed = true; k->want_owner = owner; } };
  auto one = [&](size_t i, auto& e, bool is_void) {
    Node& k = *s.kids[i];
    check_finished(k);
    if (e.has_value()) {
      if constexpr (requires { *e; }) VM_CHECK((*e).get() == k.value(), "wrong-result", "when_all position %zu has value %d, expected %d", i, (*e).get(), k.value());
      p.put(L_VAL, k.id);
    } else {
      try { std::rethrow_exception(e.error()); } catch (const Exc& x) { p.put(L_EXC, x.id); }
    }
    (void)is_void;
  };
  if (s.style == 0) {
    std::vector<dd::task<Obj, C>> v;
    for (Node* k : s.kids) v.push_back(make<Obj, C>(w, *k));
    auto t = dd::when_all(std::move(v));
    mark(t.raw_handle().address());
    auto res = co_await t;
    VM_CHECK(res.size() == s.kids.size(), "wrong-result", "when_all of %zu gives %zu results", s.kids.size(), res.size());
    for (size_t i = 0; i < res.size(); i++) one(i, res[i], false);
  } else {
    auto t = dd::when_all(make<Obj, C>(w, *s.kids[0]), make<void, C>(w, *s.kids[1]), make<MoveOnly, C>(w, *s.kids[2]));
    mark(t.raw_handle().address());
    auto res = co_await t;
    one(0, std::get<0>(res), false);
    one(1, std::get<1>(res), true);
    one(2, std::get<2>(res), false);
  }
  for (Node* k : s.kids) {
    VM_CHECK(k->args == 0, "argument-lifetime", "arguments of task %d alive after when_all", k->id);
    if (w.rec) VM_CHECK(k->ctx_ended == 1, "context-no-end", "when_all continues before end is told");
  }
}

template <typename C>
dd::task<void> one_step(World& w, Node& n, Step& s) {
#define VT_KINDS(X)                         \
  switch (s.child->rkind) {                 \
    case R_OBJ: { using R = Obj; X; break; }      \
    case R_MOVE: { using R = MoveOnly; X; break; } \
    case R_INT: { using R = int; X; break; }      \
    case R_REF: { using R = int&; X; break; }     \
    case R_VOID: { using R = void; X; break; }    \
    case R_POD: { using R = Pod; X; break; }      \
    case R_PICKY: { using R = Picky; X; break; }  \
  }
  if (s.kind == S_AWAIT) {
    VT_KINDS(co_await (await_child<R, C>(w, n, *s.child, s)))
  } else if (s.kind == S_ALL) {
    co_await await_all<C>(w, n, s);
  } else {
    VT_KINDS((child_no_await<R, C>(w, n, *s.child, s)))
  }
}

template <typename R, typename C>
dd::task<R, C> body(World& w, Node& n, Arg arg, Obj a2, std::unique_ptr<int> a3) {
  Life life(w, n);
  Obj local(n.id + 1000);
  VM_CHECK(n.allowed, "task-started-early", "task %d runs before somebody awaits or starts it", n.id);
  VM_CHECK(++n.started == 1, "task-run-twice", "task %d runs %d times", n.id, n.started);
  n.put(L_START, n.id);
  if constexpr (is_rec<C>) {
    RecCtx& ctx = co_await dd::this_coro::context;
    auto h = co_await dd::this_coro::handle;
    ctx.node = &n;
    VM_CHECK(std::addressof(ctx) == n.ctx_addr && std::addressof(h.promise().ctx) == std::addressof(ctx), "context-identity", "body sees another context than the task object");
    if (n.want_owner || n.any_owner) {
      VM_CHECK(ctx.n == 2 && ctx.calls[0].what == RecCtx::OWNER && ctx.calls[1].what == RecCtx::START, "context-order", "owner and start are not told before the body (%d calls)", ctx.n);
      VM_CHECK(n.any_owner || ctx.calls[0].owner == n.want_owner, "context-wrong-owner", "owner is not the awaiting coroutine");
      VM_CHECK(ctx.calls[0].self == h.address() && ctx.calls[1].self == h.address(), "context-wrong-task", "calls with the handle of another task");
    } else if (!n.no_start_call) {
      VM_CHECK(ctx.n == 1 && ctx.calls[0].what == RecCtx::START && ctx.calls[0].self == h.address(), "context-order", "task without owner is not told start exactly once (%d calls)", ctx.n);
    } else
      for (int i = 0; i < ctx.n; i++) VM_CHECK(ctx.calls[i].what == RecCtx::START, "context-order", "task without owner is told an owner");
  }
  for (Step& s : n.steps) {
    VM_CHECK(local.get() == n.id + 1000 && a2.get() == n.id && *a3 == n.id && arg.n == &n, "wrong-argument", "locals or arguments of task %d changed", n.id);
    if (s.kind == S_HOP) {
      if (!w.mt) co_await Park(w);
      else if (s.target == 0) (void)co_await dd::jump_on(*w.pool);
      else if (s.target == 1) (void)co_await dd::jump_on(*w.w);
      else (void)co_await dd::jump_on(dd::new_thread_executor);
      n.put(L_HOP);
    } else
      co_await one_step<C>(w, n, s);
  }
  if constexpr (!std::is_void_v<R> && !std::is_same_v<R, Picky>) {
    if (n.waste) {
      // what was put into the return place is replaced
      auto& place = co_await dd::this_coro::return_place;
      if constexpr (std::is_same_v<R, int&>) place = &n.wrong_cell;
      else if constexpr (std::is_same_v<R, Pod>) for (auto& x : place.a) x = -77;
      else if constexpr (std::is_same_v<R, int>) place = -77;
      else place.v = -77;
    }
  }
  n.put(L_END, n.id);
  if (n.throws && n.rkind != R_PICKY) throw Exc{n.id};
  if constexpr (std::is_void_v<R>) {
    co_return;
  } else if constexpr (std::is_same_v<R, int&>) {
    n.cell = n.value();
    if (n.rvo) {
      auto& place = co_await dd::this_coro::return_place;
      place = &n.cell;
      co_return dd::rvo;
    }
    co_return n.cell;
  } else if constexpr (std::is_same_v<R, Pod>) {
    if (n.rvo) {
      Pod& place = co_await dd::this_coro::return_place;
      n.place = &place;
      for (int i = 0; i < 5; i++) place.a[i] = n.value() + i;
      co_return dd::rvo;
    }
    Pod pod;
    for (int i = 0; i < 5; i++) pod.a[i] = n.value() + i;
    co_return pod;
  } else if constexpr (std::is_same_v<R, Picky>) {
    co_return Trigger{n.throws ? n.id : n.value(), n.throws};
  } else if constexpr (std::is_same_v<R, int>) {
    if (n.rvo) {
      int& place = co_await dd::this_coro::return_place;
      place = n.value();
      co_return dd::rvo;
    }
    co_return n.value();
  } else {
    if (n.rvo) {
      R& place = co_await dd::this_coro::return_place;
      place.v = n.value();
      n.place = std::addressof(place);
      co_return dd::rvo;
    }
    co_return R(n.value());
  }
}

// ---- generation and expected behaviour -----------------------------------------------------------------
struct Params {
  bool mt = false;
  bool throws = true, hops = true, detach = true, all = true;
};
inline Node& gen(World& w, Rng& r, const Params& p, int depth, int rkind = -1) {
  w.nodes.emplace_back();
  Node& n = w.nodes.back();
  n.id = (int)w.nodes.size();
  n.rkind = rkind >= 0 ? rkind : r.below(R_KINDS);
  n.throws = p.throws && r.chance(1, 4);
  n.rvo = r.chance(1, 2);
  n.waste = r.chance(1, 4);
  int ns = r.below(depth > 4 ? 2 : 5);
  for (int i = 0; i < ns; i++) {
    Step s;
    int k = r.below(20);
    if (k < 6) {
      if (!p.hops) continue;
      s.kind = S_HOP;
      s.target = r.below(8) == 0 ? 2 : r.below(2);
      n.sync = false;
    } else {
      if ((int)w.nodes.size() >= w.max_nodes || depth > 6) continue;
      if (k < 14) s.kind = S_AWAIT;
      else if (k < 16) s.kind = S_SKIP;
      else if (k < 18 && p.detach) s.kind = r.chance(1, 2) ? S_DETACH : r.chance(1, 2) ? S_STOPPED : S_RESUME;
      else if (p.all) s.kind = S_ALL;
      else s.kind = S_AWAIT;
      if (s.kind == S_ALL) {
        s.style = r.below(2);
        int cnt = s.style ? 3 : r.below(4);
        static const int kinds[] = {R_OBJ, R_VOID, R_MOVE};
        for (int q = 0; q < cnt; q++) {
          Node& c = gen(w, r, p, depth + 1, s.style ? kinds[q] : R_OBJ);
          if (!c.sync) n.sync = false;
          s.kids.push_back(&c);
        }
      } else {
        Node& c = gen(w, r, p, depth + 1);
        s.child = &c;
        s.catches = r.chance(3, 4);
        if (s.kind == S_AWAIT) {
          s.style = r.below(A_STYLES);
          if (s.style == A_GET && !c.sync) s.style = A_PLAIN;
          if (!c.sync) n.sync = false;
        } else {
          s.style = r.below(5);
          // the end of a task on another thread cannot be seen from outside
          if (s.kind == S_STOPPED && p.mt && !c.sync) s.kind = S_DETACH;
          if (s.kind == S_DETACH || s.kind == S_RESUME) c.detached = true;
        }
      }
    }
    n.steps.push_back(std::move(s));
  }
  return n;
}

struct Out {
  bool exc = false;
  int id = 0;
};
inline Out model(Node& n, int& detached, Ctx& cx) {
  n.want_started = true;
  n.expect(L_START, n.id);
  cx.observe((uint64_t)n.id * 16 + (uint64_t)n.rkind);
  for (Step& s : n.steps) {
    switch (s.kind) {
      case S_HOP: n.expect(L_HOP); break;
      case S_SKIP: n.expect(L_SKIP, s.child->id); break;
      case S_ALL:
        for (Node* k : s.kids) {
          Out o = model(*k, detached, cx);
          n.expect(o.exc ? L_EXC : L_VAL, o.exc ? o.id : k->id);
        }
        cx.nontrivial = true;
        break;
      case S_AWAIT: {
        cx.nontrivial = true;
        Out o = model(*s.child, detached, cx);
        n.expect(o.exc ? L_EXC : L_VAL, o.exc ? o.id : s.child->id);
        if (o.exc && !s.catches) return o;
        break;
      }
      default:
        detached += s.child->detached;
        model(*s.child, detached, cx);
        n.expect(L_DET, s.child->id);
    }
  }
  n.expect(L_END, n.id);
  return {n.throws, n.id};
}
inline void verify(World& w) {
  for (Node& n : w.nodes) {
    if (w.abandoned) {
      VM_CHECK(n.log.size() <= n.want.size() && std::equal(n.log.begin(), n.log.end(), n.want.begin()), "wrong-program-order", "task %d did something else than its program", n.id);
      VM_CHECK(n.started == n.ended, "locals-alive", "locals of task %d alive", n.id);
    } else {
      if (n.log != n.want) {
        size_t i = 0;
        while (i < n.log.size() && i < n.want.size() && n.log[i] == n.want[i]) i++;
        vs::fail("wrong-program-order", "task %d: step %zu is %ld, expected %ld (%zu of %zu steps)", n.id, i, i < n.log.size() ? n.log[i] : -1, i < n.want.size() ? n.want[i] : -1, n.log.size(), n.want.size());
      }
      VM_CHECK(n.started == n.want_started && n.ended == n.want_started, "task-run-count", "task %d started %d ended %d, expected %d", n.id, n.started, n.ended, n.want_started);
    }
    VM_CHECK(n.locals == 0 && n.args == 0, "argument-lifetime", "task %d: %d locals, %d arguments alive", n.id, n.locals, n.args);
  }
}
inline std::string describe(World& w) {
  std::string d;
  for (Node& n : w.nodes) {
    char b[96];
    snprintf(b, sizeof b, "#%d%s%s[", n.id, n.throws ? "!" : "", n.detached ? "d" : "");
    d += b;
    for (Step& s : n.steps) {
      static const char* nm[] = {"hop", "await", "skip", "detach", "stopped", "resume", "all"};
      d += nm[s.kind];
      if (s.child) d += "#" + std::to_string(s.child->id);
      d += ' ';
    }
    d += "] ";
    if (d.size() > 300) break;
  }
  return d;
}

template <typename C>
dd::async_task<void> root_async(World& w, Node& p, Node& c, Step& s) {
  switch (s.child->rkind) {
    case R_OBJ: co_await await_child<Obj, C>(w, p, c, s); break;
    default: co_await await_child<void, C>(w, p, c, s); break;
  }
}

template <typename C>
void run_seq(Ctx& cx, const Params& p, bool abandon) {
  Rng& r = cx.rng;
  World w;
  w.order = Rng(r.next());
  w.max_nodes = r.range(1, 30);
  w.rec = is_rec<C>;
  // node 1 stands for the driver
  w.nodes.emplace_back();
  Node& drv = w.nodes.back();
  drv.id = 1;
  Node& root = gen(w, r, p, 0, r.chance(1, 2) ? R_OBJ : R_VOID);
  Step s;
  s.kind = S_AWAIT;
  s.child = &root;
  s.catches = true;
  s.style = r.below(A_STYLES);
  if (s.style == A_GET && !root.sync) s.style = A_PLAIN;
  int det = 0;
  Out o = model(root, det, cx);
  cx.describe = describe(w);
  int how = r.below(abandon ? 3 : 5);
  RecCtx::abandoning = abandon;
  int limit = abandon ? r.below(12) : 1 << 30;
  if (how == 0) {
    // stopped at end
    dd::task<Obj, C> t;
    dd::task<void, C> tv;
    std::coroutine_handle<> h;
    root.allowed = true;
    if (root.rkind == R_OBJ) { t = make<Obj, C>(w, root); h = t.start_and_detach(true); }
    else { tv = make<void, C>(w, root); h = tv.start_and_detach(true); }
    w.drain(cx, limit);
    if (!abandon) {
      VM_CHECK(h.done(), "detached-not-stopped", "not done");
      check_finished(root);
    } else
      w.abandoned = true;
    h.destroy();
  } else if (how <= 2 || abandon) {
    // destroyed by an owner in whatever state it is
    {
      dd::task<void> t = await_child<void, C>(w, drv, root, s);
      if (root.rkind == R_OBJ) t = await_child<Obj, C>(w, drv, root, s);
      auto h = t.start_and_detach(true);
      w.drain(cx, limit);
      if (!abandon) {
        VM_CHECK(h.done(), "task-lost", "root task does not finish");
        drv.expect(o.exc ? L_EXC : L_VAL, o.exc ? o.id : root.id);
      } else {
        w.abandoned = true;
        drv.expect(o.exc ? L_EXC : L_VAL, o.exc ? o.id : root.id);
      }
      h.destroy();
    }
  } else {
    dd::async_task<void> a = root_async<C>(w, drv, root, s);
    drv.expect(o.exc ? L_EXC : L_VAL, o.exc ? o.id : root.id);
    VM_CHECK(!root.sync || a.ready(), "task-lost", "synchronous tree does not finish synchronously");
    w.drain(cx, limit);
    VM_CHECK(a.ready(), "task-lost", "root task does not finish");
    a.get();
  }
  if (abandon) {
    // tasks without an owner: continue them to their end
    while (!w.parked.empty()) w.drain(cx, 1);
  }
  for (auto h : w.zombies) {
    VM_CHECK(h.done(), "detached-not-stopped", "task that stops at its end is not done");
    h.destroy();
  }
  RecCtx::abandoning = false;
  verify(w);
}

template <typename C>
void run_mt(Ctx& cx, Params p) {
  Rng& r = cx.rng;
  p.mt = true;
  World w;
  w.mt = true;
  w.rec = is_rec<C>;
  w.max_nodes = r.range(1, 14);
  w.nodes.emplace_back();
  Node& drv = w.nodes.back();
  drv.id = 1;
  Node& root = gen(w, r, p, 0, r.chance(1, 2) ? R_OBJ : R_VOID);
  Step s;
  s.kind = S_AWAIT;
  s.child = &root;
  s.catches = true;
  static const int styles[] = {A_PLAIN, A_TWICE, A_WAIT_GET, A_WAIT_AWAIT, A_MOVED, A_PROXY};
  s.style = styles[r.below(6)];
  int det = 0;
  int how = r.below(4);
  // get(): the frame may die on the finishing thread after the getter returned
  if (how == 3 || how == 0) root.detached = true, det = 1;
  Out o = model(root, det, cx);
  cx.describe = describe(w);
  completion comp(det);
  w.comp = &comp;
  {
    dd::thread_pool pool(r.range(1, 3));
    dd::worker wk;
    w.pool = &pool;
    w.w = &wk;
    if (how == 0) {
      // blocking getter
      root.allowed = true;
      root.any_owner = true;
      bool exc = false;
      try {
        if (root.rkind == R_OBJ) { Obj v = make<Obj, C>(w, root).get(); check_value<Obj>(root, v); }
        else make<void, C>(w, root).get();
      } catch (const Exc& e) {
        exc = true;
        VM_CHECK(e.id == o.id, "wrong-exception", "getter throws %d, expected %d", e.id, o.id);
      }
      VM_CHECK(exc == o.exc, "wrong-exception", "getter %s", exc ? "throws" : "does not throw");
      check_finished(root);
    } else if (how == 3) {
      root.allowed = true;
      if (root.rkind == R_OBJ) make<Obj, C>(w, root).start_and_detach();
      else make<void, C>(w, root).start_and_detach();
    } else {
      dd::async_task<void> a = root_async<C>(w, drv, root, s);
      drv.expect(o.exc ? L_EXC : L_VAL, o.exc ? o.id : root.id);
      a.get();
      check_finished(root);
    }
    comp.wait();
  }
  w.comp = nullptr;
  cx.nontrivial = true;
  verify(w);
}
}  // namespace vt
