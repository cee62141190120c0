// C10 async_task, C11 logical_thread
#include "vmon.hpp"
#include "kelcoro/async_task.hpp"
#include "kelcoro/logical_thread.hpp"
#include "kelcoro/thread_pool.hpp"

using vm::completion;
using vm::Ctx;
using vm::Exc;
using vm::MoveOnly;
using vm::Obj;
using vm::Rng;

namespace {

struct Pod {
  long a[5];
};

// what is known about one coroutine. Plain members are ordered only by what the library promises
struct Cell {
  int id = 0;
  int hops = 0;
  int targets[6] = {};
  bool throws = false, rvo = false;
  int kind = 0;
  // plain
  int payload = 0;
  int steps = 0;
  int lvalue = 0;
  int before_stop = 0;  // written before the first request to stop
  bool asked = false;
  // invisible to tsan
  vs::counter started, completed, locals, frames, stop_req_begin, stop_req_end, stop_seen;
  completion* gone = nullptr;  // told when the frame dies
};

struct Frame {  // first parameter: dies with the frame
  Cell* c;
  explicit Frame(Cell& x) : c(&x) {}
  Frame(Frame&& o) : c(std::exchange(o.c, nullptr)) {}
  ~Frame() {
    if (!c) return;
    c->frames.add();
    VM_CHECK(c->frames.get() == 1, "frame-destroyed-twice", "frame of %d destroyed %ld times", c->id, c->frames.get());
    VM_CHECK(c->locals.get() == 0, "locals-alive", "frame of %d destroyed before its locals", c->id);
    if (c->gone) c->gone->one();
  }
};
struct Local {
  Cell* c;
  explicit Local(Cell& x) : c(&x) { c->locals.add(); }
  Local(Local&&) = delete;
  ~Local() { c->locals.add(-1); }
};

struct Env {
  dd::thread_pool* pool = nullptr;
  dd::worker* w = nullptr;
  bool seq = false;
  std::vector<struct Park*> parked;
};
struct Park {
  Env& e;
  std::coroutine_handle<> h;
  explicit Park(Env& e) : e(e) {}
  bool await_ready() { return false; }
  void await_suspend(std::coroutine_handle<> x) {
    h = x;
    e.parked.push_back(this);
  }
  void await_resume() {}
  ~Park() { std::erase(e.parked, this); }
};
#define HOP(e, target)                                                                        \
  do {                                                                                        \
    if ((e).seq) co_await Park(e);                                                            \
    else if ((target) == 0) (void)co_await dd::jump_on(*(e).w);                                \
    else if ((target) == 1) (void)co_await dd::jump_on(*(e).pool);                             \
    else (void)co_await dd::jump_on(dd::new_thread_executor);                                  \
  } while (0)

int value_of(const Cell& c) { return c.id * 10 + 7; }

template <typename R>
dd::async_task<R> abody(Frame f, Env& e, Cell& c, Obj a) {
  Obj tail(c.id);
  Local l(c);
  c.started.add();
  c.steps = 1;
  for (int i = 0; i < c.hops; i++) {
    HOP(e, c.targets[i]);
    VM_CHECK(a.get() == c.id && tail.get() == c.id, "wrong-argument", "argument changed");
    VM_CHECK(c.steps == i + 1, "wrong-program-order", "step %d, expected %d", c.steps, i + 1);
    c.steps++;
  }
  c.payload = value_of(c);
  c.completed.add();
  if (c.throws) throw Exc{c.id};
  if constexpr (std::is_void_v<R>) co_return;
  else if constexpr (std::is_same_v<R, int&>) {
    c.lvalue = value_of(c);
    co_return c.lvalue;
  } else if constexpr (std::is_same_v<R, Pod>) {
    Pod p;
    for (int i = 0; i < 5; i++) p.a[i] = value_of(c) + i;
    co_return p;
  } else
    co_return R(value_of(c));
}

template <typename R>
void check_get(Cell& c, dd::async_task<R>& t) {
  bool exc = false;
  const void* addr = nullptr;
  for (int k = 0; k < 2; k++) {
    try {
      if constexpr (std::is_void_v<R>) {
        t.get();
      } else {
        auto&& v = t.get();
        VM_CHECK(!addr || addr == std::addressof(v), "wrong-result", "second get gives another object");
        addr = std::addressof(v);
        if constexpr (std::is_same_v<R, Pod>) {
          for (int i = 0; i < 5; i++) VM_CHECK(v.a[i] == value_of(c) + i, "wrong-result", "result %ld, expected %d", v.a[i], value_of(c) + i);
        } else if constexpr (std::is_same_v<R, int&>) {
          VM_CHECK(&v == &c.lvalue && v == value_of(c), "wrong-result", "reference to another object");
        } else if constexpr (std::is_same_v<R, int>) {
          VM_CHECK(v == value_of(c), "wrong-result", "result %d, expected %d", v, value_of(c));
        } else
          VM_CHECK(v.get() == value_of(c), "wrong-result", "result %d, expected %d", v.get(), value_of(c));
      }
    } catch (const Exc& x) {
      exc = true;
      VM_CHECK(x.id == c.id, "wrong-exception", "exception %d, expected %d", x.id, c.id);
    }
    VM_CHECK(exc == c.throws, "wrong-exception", "get() %s", exc ? "throws" : "does not throw");
  }
  VM_CHECK(c.payload == value_of(c) && c.steps == c.hops + 1, "effects-not-visible", "payload %d after get()", c.payload);
  VM_CHECK(c.completed.get() == 1 && c.started.get() == 1, "not-completed", "getter returns before the body ended");
  VM_CHECK(t.ready() && !t.empty(), "not-ready", "not ready after get()");
  VM_CHECK(c.frames.get() == 0, "frame-destroyed-early", "frame destroyed while it is owned");
}

template <typename R>
void run_async(Ctx& cx, Env& e, int mode) {
  Rng& r = cx.rng;
  int n = r.range(1, 4);
  std::deque<Cell> cells((size_t)n);
  completion gone(n);
  bool has_new = false;
  for (int i = 0; i < n; i++) {
    Cell& c = cells[(size_t)i];
    c.id = i + 1;
    c.hops = r.below(4);
    if (mode == 1 && c.hops == 0) c.hops = 1;
    for (int& t : c.targets) t = r.below(8) == 0 ? 2 : r.below(2);
    c.throws = r.chance(1, 4);
    c.gone = &gone;
    for (int k = 0; k < c.hops; k++) has_new |= c.targets[k] == 2;
    cx.describe += "task(hops " + std::to_string(c.hops) + (c.throws ? ",throws) " : ") ");
  }
  {
    std::vector<dd::async_task<R>> t;
    for (int i = 0; i < n; i++) {
      Cell& c = cells[(size_t)i];
      t.push_back(abody<R>(Frame(c), e, c, Obj(c.id)));
      VM_CHECK(c.started.get() == 1, "not-started", "body does not start in the call");
      if (c.hops == 0) {
        VM_CHECK(c.completed.get() == 1 && t.back().ready(), "not-ready", "body without suspensions is not ready after the call");
        VM_CHECK(c.payload == value_of(c), "effects-not-visible", "payload");
      }
      VM_CHECK(!t.back().empty(), "task-empty", "new task is empty");
    }
    for (int i = 0; i < n; i++) {
      Cell& c = cells[(size_t)i];
      dd::async_task<R>& x = t[(size_t)i];
      for (int k = r.below(3); k > 0; k--) {
        // published only after completion
        if (x.ready()) {
          VM_CHECK(c.completed.get() == 1, "ready-too-early", "ready() before the body completed");
          VM_CHECK(c.payload == value_of(c), "effects-not-visible", "payload %d when ready", c.payload);
        }
      }
      int op = r.below(9);
      cx.observe((uint64_t)op + (x.ready() ? 100 : 0));
      switch (op) {
        case 0: x.wait(); VM_CHECK(x.ready() && c.completed.get() == 1, "not-ready", "wait() returns early"); check_get<R>(c, x); break;
        case 1: check_get<R>(c, x); break;
        case 2: x.detach(); VM_CHECK(x.empty() && !x.ready(), "detach-keeps-task", "not empty"); break;
        case 3: { dd::async_task<R> y(std::move(x)); VM_CHECK(x.empty(), "moved-from-not-empty", ""); if (r.chance(1, 2)) check_get<R>(c, y); break; }
        case 4: { dd::async_task<R>& self = x; if (r.chance(1, 4)) self.swap(x); else if (r.chance(1, 4)) self = std::move(x); VM_CHECK(!x.empty(), "swap", "lost by self assignment"); dd::async_task<R> y; y = std::move(x); if (r.chance(1, 2)) check_get<R>(c, y); else y.detach(); break; }
        case 5: { dd::async_task<R> y; using std::swap; swap(x, y); VM_CHECK(x.empty() && !y.empty(), "swap", ""); break; }
        case 6: while (!x.ready()) { vs::yield_point(); } check_get<R>(c, x); x.detach(); break;
        case 7: {
          // consumer in another thread
          std::thread th([&] { check_get<R>(c, x); if (c.id % 2) x.detach(); });
          th.join();
          break;
        }
        default: break;  // destroyed with the vector
      }
    }
  }
  gone.wait();
  for (auto& c : cells) VM_CHECK(c.frames.get() == 1 && c.completed.get() == 1, "frame-not-destroyed", "frame of %d destroyed %ld times", c.id, c.frames.get());
  (void)has_new;
}

void async_mt(Ctx& cx, int mode) {
  Rng& r = cx.rng;
  int k = r.below(6);
  dd::thread_pool pool((size_t)r.range(1, 2));
  dd::worker w;
  Env e;
  e.pool = &pool;
  e.w = &w;
  switch (k) {
    case 0: run_async<Obj>(cx, e, mode); break;
    case 1: run_async<MoveOnly>(cx, e, mode); break;
    case 2: run_async<int>(cx, e, mode); break;
    case 3: run_async<int&>(cx, e, mode); break;
    case 4: run_async<Pod>(cx, e, mode); break;
    default: run_async<void>(cx, e, mode); break;
  }
}
MT_SCENARIO("C10", "race", 6) { async_mt(cx, 0); }

// one short task against one owner operation: the window between completion and release
template <typename R>
dd::async_task<R> tiny(Frame f, vs::flag* go, Cell& c, std::coroutine_handle<>* out) {
  struct aw {
    std::coroutine_handle<>* out;
    bool await_ready() { return false; }
    void await_suspend(std::coroutine_handle<> h) { *out = h; }
    void await_resume() {}
  };
  Local l(c);
  co_await aw{out};
  c.payload = value_of(c);
  c.completed.add();
  if (c.throws) throw Exc{c.id};
  if constexpr (!std::is_void_v<R>) co_return R(value_of(c));
}
template <typename R>
void run_tiny(Ctx& cx) {
  Rng& r = cx.rng;
  Cell c;
  c.id = r.range(1, 50);
  c.throws = r.chance(1, 3);
  completion gone(1);
  c.gone = &gone;
  vs::flag go;
  std::coroutine_handle<> h;
  int op = r.below(6);
  cx.describe = "owner op " + std::to_string(op);
  dd::async_task<R> t = tiny<R>(Frame(c), &go, c, &h);
  VM_CHECK(!t.ready(), "ready-too-early", "ready before resumed");
  std::thread th([&] { h.resume(); });
  switch (op) {
    case 0: t.detach(); break;
    case 1: { dd::async_task<R> x = std::move(t); break; }
    case 2: { bool b = t.ready(); if (b) VM_CHECK(c.payload == value_of(c), "effects-not-visible", "payload"); t.detach(); cx.observe(b); break; }
    case 3: t.wait(); VM_CHECK(c.payload == value_of(c), "effects-not-visible", "payload"); t.detach(); break;
    case 4: try { t.get(); } catch (const Exc&) {} VM_CHECK(c.payload == value_of(c), "effects-not-visible", "payload"); { dd::async_task<R> x(std::move(t)); } break;
    default: {
      std::thread t2([&] { while (!t.ready()) vs::yield_point(); VM_CHECK(c.payload == value_of(c), "effects-not-visible", "payload"); t.detach(); });
      t2.join();
    }
  }
  th.join();
  gone.wait();
  VM_CHECK(c.frames.get() == 1, "frame-not-destroyed", "%ld", c.frames.get());
  cx.observe(op);
}
MT_SCENARIO("C10", "tiny_race", 4) {
  switch (cx.rng.below(3)) {
    case 0: run_tiny<Obj>(cx); break;
    case 1: run_tiny<int>(cx); break;
    default: run_tiny<void>(cx); break;
  }
}

// every history of owners and completion, one thread
SEQ_SCENARIO("C10", "histories", 3) {
  Rng& r = cx.rng;
  using T = dd::async_task<Obj>;
  Env e;
  e.seq = true;
  std::deque<Cell> cells;
  std::vector<T> slots((size_t)r.range(1, 4));
  std::vector<int> owner(slots.size(), -1);  // which cell
  auto check = [&] {
    for (size_t i = 0; i < slots.size(); i++) {
      VM_CHECK(slots[i].empty() == (owner[i] < 0) && bool(slots[i]) == (owner[i] >= 0), "emptiness", "slot %zu", i);
      if (owner[i] >= 0) {
        Cell& c = cells[(size_t)owner[i]];
        VM_CHECK(c.frames.get() == 0, "frame-destroyed-early", "frame destroyed while it is owned");
        VM_CHECK(slots[i].ready() == (c.completed.get() == 1), "ready-wrong", "ready() differs from completion");
      } else
        VM_CHECK(!slots[i].ready(), "ready-wrong", "empty task is ready");
    }
    for (size_t k = 0; k < cells.size(); k++) {
      bool owned = std::find(owner.begin(), owner.end(), (int)k) != owner.end();
      bool done = cells[k].completed.get() == 1;
      VM_CHECK((cells[k].frames.get() == 1) == (!owned && done), "frame-lifetime", "owned %d done %d destroyed %ld", owned, done, cells[k].frames.get());
      VM_CHECK((cells[k].locals.get() == 0) == done, "locals-alive", "locals of a finished body");
    }
  };
  int ops = r.range(2, 40);
  for (int k = 0; k < ops; k++) {
    size_t i = (size_t)r.below((int)slots.size()), j = (size_t)r.below((int)slots.size());
    switch (r.below(8)) {
      case 0:
      case 1: {
        if (owner[i] >= 0 || cells.size() > 12) break;
        cells.emplace_back();
        Cell& c = cells.back();
        c.id = (int)cells.size();
        c.hops = r.below(4);
        c.throws = r.chance(1, 4);
        slots[i] = abody<Obj>(Frame(c), e, c, Obj(c.id));
        owner[i] = c.id - 1;
        break;
      }
      case 2:
      case 3:
        if (!e.parked.empty()) {
          size_t q = (size_t)r.below((int)e.parked.size());
          Park* p = e.parked[q];
          e.parked.erase(e.parked.begin() + (long)q);
          p->h.resume();
          cx.nontrivial = true;
        }
        break;
      case 4:
        // i == j: self swap
        slots[i].swap(slots[j]);
        std::swap(owner[i], owner[j]);
        break;
      case 5: {
        T x(std::move(slots[i]));
        slots[j] = std::move(x);
        // the previous content of j dies with x. i == j: comes back
        if (i != j) owner[j] = owner[i], owner[i] = -1;
        break;
      }
      case 6:
        slots[i].detach();
        owner[i] = -1;
        break;
      case 7:
        if (owner[i] >= 0 && slots[i].ready()) check_get<Obj>(cells[(size_t)owner[i]], slots[i]);
        if (owner[i] < 0 || slots[i].ready()) slots[i].wait();
        break;
    }
    cx.observe((uint64_t)k * 31 + i);
    check();
  }
  slots.clear();
  owner.clear();
  while (!e.parked.empty()) {
    Park* p = e.parked.back();
    e.parked.pop_back();
    p->h.resume();
  }
  for (auto& c : cells) VM_CHECK(c.frames.get() == 1 && c.locals.get() == 0, "frame-not-destroyed", "%ld", c.frames.get());
}

// =====================================================================================================
// C11
// =====================================================================================================
enum { LT_RUN, LT_UNTIL_STOP, LT_GROUP };
struct Group {
  vs::counter seen;
  int n = 0;
};

void check_token(Cell& c, const dd::stop_token& tok, bool& stop) {
  long before_end = c.stop_req_end.get();
  bool s = tok.stop_requested();
  long after_begin = c.stop_req_begin.get();
  if (before_end) VM_CHECK(s, "stop-not-observed", "stop was requested before the check but is not seen");
  if (s) VM_CHECK(after_begin > 0, "stop-without-request", "stop seen, never requested");
  if (s) VM_CHECK(c.before_stop == 0 || c.before_stop == value_of(c), "effects-not-visible", "%d is seen of what was done before the request", c.before_stop);
  if (s) c.stop_seen.add();
  if (stop) VM_CHECK(s, "stop-not-observed", "stop request disappears");
  stop = s;
}

dd::logical_thread lbody(Frame f, Env& e, Cell& c, int kind, Group* g, Obj a) {
  Obj tail(c.id);
  Local l(c);
  c.started.add();
  c.steps = 1;
  dd::stop_token const& tok = co_await dd::this_coro::stop_token;
  bool stop = false;
  if (kind == LT_RUN) {
    for (int i = 0; i < c.hops; i++) {
      HOP(e, c.targets[i]);
      check_token(c, tok, stop);
      VM_CHECK(a.get() == c.id && tail.get() == c.id, "wrong-argument", "argument changed");
      c.steps++;
    }
  } else {
    for (int i = 0; !stop; i++) {
      if (!e.seq && i > 2) vs::yield_point();
      HOP(e, i < 6 ? c.targets[i] : i % 2);
      check_token(c, tok, stop);
      c.steps++;
    }
    if (kind == LT_GROUP) {
      g->seen.add();
      // goes on until every member of the group has seen its own request
      for (int i = 0; g->seen.get() < g->n; i++) {
        if (!e.seq) vs::yield_point();
        HOP(e, i % 2);
      }
    }
  }
  c.payload = value_of(c);
  c.completed.add();
}

void check_joined(Cell& c) {
  VM_CHECK(c.completed.get() == 1, "join-too-early", "join returns before the coroutine finished");
  VM_CHECK(c.payload == value_of(c), "effects-not-visible", "payload %d after join", c.payload);
  VM_CHECK(c.locals.get() == 0, "locals-alive", "locals alive after join");
  VM_CHECK(c.frames.get() == 1, "frame-not-destroyed", "frame destroyed %ld times after join", c.frames.get());
}
void will_stop(Cell& c) {
  if (!c.asked) c.before_stop = value_of(c);
  c.asked = true;
  c.stop_req_begin.add();
}
bool req_stop(Cell& c, dd::logical_thread& t) {
  will_stop(c);
  bool b = t.request_stop();
  c.stop_req_end.add();
  return b;
}

void run_logical(Ctx& cx) {
  Rng& r = cx.rng;
  Env e;
  dd::thread_pool pool((size_t)r.range(1, 3));
  dd::worker w;
  e.pool = &pool;
  e.w = &w;
  int n = r.range(1, 4);
  std::deque<Cell> cells((size_t)n);
  completion gone(n);
  Group g;
  bool group = r.chance(1, 4);
  g.n = n;
  std::vector<int> kinds;
  for (int i = 0; i < n; i++) {
    Cell& c = cells[(size_t)i];
    c.id = i + 1;
    c.hops = r.below(4);
    for (int& t : c.targets) t = r.below(10) == 0 ? 2 : r.below(2);
    c.gone = &gone;
    kinds.push_back(group ? LT_GROUP : r.below(2));
  }
  {
    std::vector<dd::logical_thread> t;
    for (int i = 0; i < n; i++) {
      t.push_back(lbody(Frame(cells[(size_t)i]), e, cells[(size_t)i], kinds[(size_t)i], &g, Obj(i + 1)));
      VM_CHECK(cells[(size_t)i].started.get() == 1, "not-started", "body does not start in the call");
      VM_CHECK(t.back().joinable() && t.back().stop_possible(), "not-joinable", "new logical thread");
    }
    if (group) {
      int how = r.below(3);
      cx.describe = "group stop " + std::to_string(n) + " how " + std::to_string(how);
      for (auto& c : cells) will_stop(c);
      if (how == 0) dd::stop(t);
      else if (how == 1) dd::stop(std::span<dd::logical_thread>(t));
      else {
        switch (n) {
          case 1: dd::stop(t[0]); break;
          case 2: dd::stop(t[0], t[1]); break;
          case 3: dd::stop(t[0], t[1], t[2]); break;
          default: dd::stop(t[0], t[1], t[2], t[3]); break;
        }
      }
      for (int i = 0; i < n; i++) {
        VM_CHECK(!t[(size_t)i].joinable(), "joinable-after-stop", "joinable after stop");
        check_joined(cells[(size_t)i]);
      }
    } else {
      for (int i = 0; i < n; i++) {
        Cell& c = cells[(size_t)i];
        dd::logical_thread& x = t[(size_t)i];
        bool until = kinds[(size_t)i] == LT_UNTIL_STOP;
        int op = r.below(9);
        cx.observe((uint64_t)op);
        cx.describe += std::string(until ? "loop" : "run") + " op " + std::to_string(op) + " ";
        switch (op) {
          case 0:
            if (until || r.chance(1, 3)) VM_CHECK(req_stop(c, x), "stop-not-possible", "request_stop returns false");
            x.join();
            VM_CHECK(!x.joinable() && !x.stop_possible() && !x.request_stop(), "joinable-after-join", "joinable after join");
            check_joined(c);
            break;
          case 1:
            if (until) req_stop(c, x);
            x.detach();
            VM_CHECK(!x.joinable(), "joinable-after-detach", "joinable after detach");
            break;
          case 2: {  // overwritten
            will_stop(c);
            dd::logical_thread y;
            VM_CHECK(!y.joinable(), "default-joinable", "");
            x = std::move(y);
            VM_CHECK(!x.joinable(), "joinable-after-overwrite", "");
            check_joined(c);
            if (until) VM_CHECK(c.stop_seen.get() > 0, "stop-not-observed", "");
            break;
          }
          case 3: {  // moved then destroyed
            will_stop(c);
            {
              dd::logical_thread y(std::move(x));
              VM_CHECK(!x.joinable() && y.joinable(), "moved-from-joinable", "");
            }
            check_joined(c);
            break;
          }
          case 4: {
            will_stop(c);
            {
              dd::logical_thread y;
              if (r.chance(1, 2)) y.swap(x);
              else { using std::swap; swap(x, y); }
              VM_CHECK(!x.joinable() && y.joinable(), "swap", "");
            }
            check_joined(c);
            break;
          }
          case 5: {  // joined by another thread
            will_stop(c);
            std::thread th([&] {
              if (until) x.request_stop();
              x.join();
              check_joined(c);
            });
            th.join();
            break;
          }
          case 6: {  // detached by another thread
            will_stop(c);
            std::thread th([&] {
              if (until) x.request_stop();
              x.detach();
            });
            th.join();
            break;
          }
          case 7: {  // overwritten by another running one
            if (i + 1 >= n) { will_stop(c); break; }
            will_stop(c);
            x = std::move(t[(size_t)i + 1]);
            check_joined(c);
            VM_CHECK(!t[(size_t)i + 1].joinable() && x.joinable(), "moved-from-joinable", "");
            t[(size_t)i + 1] = std::move(x);
            break;
          }
          default:
            will_stop(c);  // destroyed with the vector
        }
      }
    }
  }
  gone.wait();
  for (auto& c : cells) VM_CHECK(c.frames.get() == 1 && c.completed.get() == 1, "frame-not-destroyed", "frame of %d destroyed %ld times", c.id, c.frames.get());
}
MT_SCENARIO("C11", "race", 6) { run_logical(cx); }

// a coroutine which finishes at once on another thread against one owner operation
dd::logical_thread tiny_lt(Frame f, Cell& c, std::coroutine_handle<>* out) {
  struct aw {
    std::coroutine_handle<>* out;
    bool await_ready() { return false; }
    void await_suspend(std::coroutine_handle<> h) { *out = h; }
    void await_resume() {}
  };
  Local l(c);
  bool stop = false;
  dd::stop_token const& tok = co_await dd::this_coro::stop_token;
  check_token(c, tok, stop);
  co_await aw{out};
  check_token(c, tok, stop);
  c.payload = value_of(c);
  c.completed.add();
}
MT_SCENARIO("C11", "tiny_race", 4) {
  Rng& r = cx.rng;
  Cell c;
  c.id = r.range(1, 50);
  completion gone(1);
  c.gone = &gone;
  std::coroutine_handle<> h;
  int op = r.below(5);
  dd::logical_thread t = tiny_lt(Frame(c), c, &h);
  std::thread th([&] { h.resume(); });
  if (r.chance(1, 2)) req_stop(c, t);
  switch (op) {
    case 0: t.join(); check_joined(c); break;
    case 1: t.detach(); break;
    case 2: will_stop(c); { dd::logical_thread y(std::move(t)); } check_joined(c); break;
    case 3: will_stop(c); t = dd::logical_thread(); check_joined(c); break;
    default: {
      std::thread t2([&] { if (c.id % 2) t.join(); else t.detach(); });
      t2.join();
    }
  }
  th.join();
  gone.wait();
  VM_CHECK(c.frames.get() == 1, "frame-not-destroyed", "%ld", c.frames.get());
  cx.observe((uint64_t)op);
  cx.describe = "owner op " + std::to_string(op);
}

SEQ_SCENARIO("C11", "histories", 2) {
  Rng& r = cx.rng;
  Env e;
  e.seq = true;
  Group g;
  std::deque<Cell> cells;
  std::vector<dd::logical_thread> slots((size_t)r.range(1, 4));
  std::vector<int> owner(slots.size(), -1);
  auto finished = [&](size_t i) { return owner[i] >= 0 && cells[(size_t)owner[i]].completed.get() == 1; };
  int ops = r.range(2, 40);
  for (int k = 0; k < ops; k++) {
    size_t i = (size_t)r.below((int)slots.size()), j = (size_t)r.below((int)slots.size());
    switch (r.below(9)) {
      case 0:
      case 1: {
        if ((owner[i] >= 0 && !finished(i)) || cells.size() > 12) break;
        Cell* old = owner[i] >= 0 ? &cells[(size_t)owner[i]] : nullptr;
        cells.emplace_back();
        Cell& c = cells.back();
        c.id = (int)cells.size();
        c.hops = r.below(4);
        slots[i] = lbody(Frame(c), e, c, r.chance(1, 2) ? LT_RUN : LT_UNTIL_STOP, &g, Obj(c.id));
        if (old) check_joined(*old);
        owner[i] = c.id - 1;
        break;
      }
      case 2:
      case 3:
        if (!e.parked.empty()) {
          size_t q = (size_t)r.below((int)e.parked.size());
          Park* p = e.parked[q];
          e.parked.erase(e.parked.begin() + (long)q);
          p->h.resume();
          cx.nontrivial = true;
        }
        break;
      case 4: slots[i].swap(slots[j]); std::swap(owner[i], owner[j]); break;
      case 5: {
        if (i == j || (owner[j] >= 0 && !finished(j))) break;
        Cell* old = owner[j] >= 0 ? &cells[(size_t)owner[j]] : nullptr;
        slots[j] = std::move(slots[i]);
        if (old) check_joined(*old);
        owner[j] = owner[i];
        owner[i] = -1;
        break;
      }
      case 6: if (owner[i] >= 0) { slots[i].detach(); owner[i] = -1; } break;
      case 7: if (finished(i)) { Cell& c = cells[(size_t)owner[i]]; slots[i].join(); owner[i] = -1; check_joined(c); } break;
      default: if (owner[i] >= 0) { VM_CHECK(req_stop(cells[(size_t)owner[i]], slots[i]), "stop-not-possible", ""); } else VM_CHECK(!slots[i].request_stop(), "stop-possible", "request_stop of an empty one"); break;
    }
    cx.observe((uint64_t)k * 31 + i);
    for (size_t q = 0; q < slots.size(); q++) {
      VM_CHECK(slots[q].joinable() == (owner[q] >= 0), "emptiness", "slot %zu", q);
      if (owner[q] >= 0) VM_CHECK(cells[(size_t)owner[q]].frames.get() == 0, "frame-destroyed-early", "frame destroyed while it is owned");
    }
    for (size_t q = 0; q < cells.size(); q++) {
      bool owned = std::find(owner.begin(), owner.end(), (int)q) != owner.end();
      bool done = cells[q].completed.get() == 1;
      VM_CHECK((cells[q].frames.get() == 1) == (!owned && done), "frame-lifetime", "owned %d done %d destroyed %ld", owned, done, cells[q].frames.get());
    }
  }
  // nobody waits in one thread: finish everything before destruction
  for (size_t q = 0; q < slots.size(); q++)
    if (owner[q] >= 0) req_stop(cells[(size_t)owner[q]], slots[q]);
  int guard = 0;
  while (!e.parked.empty() && guard++ < 150) {
    Park* p = e.parked.front();
    e.parked.erase(e.parked.begin());
    p->h.resume();
  }
  // detached loops that nobody can stop any more
  while (!e.parked.empty()) {
    Park* p = e.parked.back();
    e.parked.pop_back();
    p->h.destroy();
  }
  slots.clear();
  for (auto& c : cells) VM_CHECK(c.frames.get() == 1, "frame-not-destroyed", "%ld", c.frames.get());
}

}  // namespace

VM_MAIN
