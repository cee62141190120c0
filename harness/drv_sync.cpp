// C16 latch, C17 event, C18 when_all/when_any of events, C23 lock-free stack
#include "vmon.hpp"
#include "kelcoro/latch.hpp"
#include "kelcoro/events.hpp"
#include "kelcoro/async_task.hpp"
#include "kelcoro/task.hpp"
#include "kelcoro/thread_pool.hpp"

using vm::completion;
using vm::Ctx;
using vm::Exc;
using vm::Obj;
using vm::Rng;

namespace {

// =====================================================================================================
// C16
// =====================================================================================================
struct L16 {
  dd::latch* l = nullptr;
  dd::thread_pool* pool = nullptr;
  dd::worker* w = nullptr;
  int exe = 0;  // 0 pool 1 worker 2 inline 3 new thread
  long total = 0;
  vs::counter begun;       // sum of amounts whose count down has begun
  vs::counter all_counted; // set when every count down has returned
  vs::counter released;
  int payload[16] = {};    // written before a count down
  int npayload = 0;
  completion* comp = nullptr;
  // destruction by the last one who is released
  bool destroy = false;
  vs::counter to_release;
  std::unique_ptr<dd::latch> owned;
};

void released16(L16& x, int id, int times, std::thread::id before, bool may_stay) {
  VM_CHECK(times == 1, "released-twice", "waiter %d released %d times", id, times);
  VM_CHECK(x.begun.get() == x.total, "released-too-early", "waiter %d released when %ld of %ld are counted", id, x.begun.get(), x.total);
  for (int i = 0; i < x.npayload; i++) VM_CHECK(x.payload[i] == i + 1, "effects-not-visible", "effect %d of a count down is not visible", i);
  auto now = std::this_thread::get_id();
  bool same = now == before && may_stay;
  if (x.exe == 0) VM_CHECK(same || x.pool->is_worker(), "wrong-executor", "waiter does not continue on the executor");
  if (x.exe == 1) VM_CHECK(same || x.w->get_id() == now, "wrong-executor", "waiter does not continue on the executor");
  x.released.add();
  if (x.destroy) {
    // nobody else uses the latch when all others are released
    vm::hb_release(&x.to_release);
    if (x.to_release.sub_and_get() == 0) {
      vm::hb_acquire(&x.to_release);
      x.owned.reset();
    }
  }
}

dd::job waiter16(L16& x, int id, int how, int amount, int slot, bool hop, Obj arg) {
  Obj local(id);
  if (hop) (void)co_await dd::jump_on(*x.pool);
  auto before = std::this_thread::get_id();
  int times = 0;
  if (how == 0) {
    co_await x.l->wait();
  } else {
    if (slot >= 0) x.payload[slot] = slot + 1;
    x.begun.add(amount);
    if (amount == 1 && id % 2) co_await x.l->arrive_and_wait();
    else co_await x.l->arrive_and_wait(amount);
  }
  ++times;
  VM_CHECK(local.get() == id && arg.get() == id, "object-corrupted", "locals");
  completion* comp = x.comp;
  released16(x, id, times, before, true);
  comp->one();
}

MT_SCENARIO("C16", "threads", 6) {
  Rng& r = cx.rng;
  L16 x;
  int workers = r.range(1, 2);
  dd::thread_pool pool((size_t)workers);
  dd::worker w;
  x.pool = &pool;
  x.w = &w;
  x.exe = r.below(4);
  x.destroy = r.chance(1, 3);
  struct op { int kind, amount, slot, id; bool hop; };  // 0 wait 1 arrive_and_wait 2 count_down 3 ready
  int nthreads = r.range(1, 3);
  std::vector<std::vector<op>> plan((size_t)nthreads);
  int waiters = 0, slot = 0;
  for (auto& t : plan) {
    int n = r.range(1, 4);
    for (int i = 0; i < n; i++) {
      op o{r.below(x.destroy ? 3 : 4), 0, -1, 0, r.chance(1, 4)};
      if (o.kind == 0 || o.kind == 1) o.id = ++waiters;
      if (o.kind == 1 || o.kind == 2) {
        o.amount = r.chance(1, 6) ? 0 : r.range(1, 3);
        // with destruction nothing may use the latch after the count is zero but waiters
        if (x.destroy && o.amount == 0) o.amount = 1;
        if (o.amount > 0 && slot < 16) o.slot = slot++;
        x.total += o.amount;
      }
      t.push_back(o);
    }
  }
  // ready() and plain waits after destruction are the user's fault: with destruction every wait must come from
  // someone who still holds an arrival. turn plain waits into arrivals
  if (x.destroy)
    for (auto& t : plan)
      for (auto& o : t)
        if (o.kind == 0) {
          o.kind = 1;
          o.amount = 1;
          x.total++;
          if (slot < 16) o.slot = slot++;
        }
  if (x.destroy && waiters == 0) x.destroy = false;
  x.npayload = slot;
  completion comp(waiters);
  x.comp = &comp;
  x.to_release.set(waiters);
  dd::this_thread_executor_t ine;
  dd::new_thread_executor_t newe;
  dd::any_executor_ref exe = x.exe == 0 ? dd::any_executor_ref(pool) : x.exe == 1 ? dd::any_executor_ref(w) : x.exe == 2 ? dd::any_executor_ref(ine) : dd::any_executor_ref(newe);
  std::optional<dd::latch> plain;
  if (x.destroy) { x.owned = std::make_unique<dd::latch>(x.total, exe); x.l = x.owned.get(); }
  else { plain.emplace(x.total, exe); x.l = &*plain; }
  cx.describe = "threads " + std::to_string(nthreads) + " waiters " + std::to_string(waiters) + " count " + std::to_string(x.total) + " executor " + std::to_string(x.exe) + (x.destroy ? " destroys" : "");
  if (x.total == 0) VM_CHECK(x.l->ready(), "ready-wrong", "latch with count 0 is not ready");
  {
    std::vector<std::thread> th;
    for (auto& t : plan)
      th.emplace_back([&x, &t] {
        bool was_ready = false;
        for (op& o : t) {
          switch (o.kind) {
            case 0:
            case 1: waiter16(x, o.id, o.kind, o.amount, o.slot, o.hop, Obj(o.id)); break;
            case 2:
              if (o.slot >= 0) x.payload[o.slot] = o.slot + 1;
              x.begun.add(o.amount);
              x.l->count_down(o.amount);
              break;
            default: {
              bool rd = x.l->ready();
              if (rd) {
                VM_CHECK(x.begun.get() == x.total, "ready-too-early", "ready when %ld of %ld are counted", x.begun.get(), x.total);
                for (int i = 0; i < x.npayload; i++) VM_CHECK(x.payload[i] == i + 1, "effects-not-visible", "effect %d is not visible after ready()", i);
              }
              VM_CHECK(rd || !was_ready, "ready-wrong", "ready() goes back");
              was_ready = rd;
            }
          }
        }
      });
    for (auto& t : th) t.join();
  }
  comp.wait();
  if (!x.destroy) {
    VM_CHECK(x.l->ready(), "ready-wrong", "not ready after everything is counted");
    // late waiter does not suspend
    completion late(2);
    x.comp = &late;
    waiter16(x, 100, 0, 0, -1, false, Obj(100));
    waiter16(x, 101, 1, 0, -1, false, Obj(101));
    VM_CHECK(late.done.is_set(), "late-waiter-suspended", "wait on a completed latch suspends");
    x.l->count_down(0);
    VM_CHECK(x.released.get() == waiters + 2, "released-twice", "%ld releases of %d waiters", x.released.get(), waiters + 2);
  } else
    VM_CHECK(!x.owned && x.released.get() == waiters, "released-twice", "%ld releases of %d waiters", x.released.get(), waiters);
  cx.observe((uint64_t)x.total);
}

// manual executor, one thread, exact model
struct man_exe {
  std::vector<dd::task_node*> q;
  dd::task_node trap;
  // hostile: gives the address of another one
#ifdef OBJ_DEL
  man_exe* operator&() = delete;
#else
  man_exe* operator&() noexcept { static man_exe x; return std::addressof(x); }
#endif
  void attach(dd::task_node* n) {
    VM_CHECK(n && n->task, "bad-node", "attach of an empty node");
    for (auto* p : q) VM_CHECK(p != n, "attached-twice", "waiter is attached twice");
    n->next = &trap;  // an executor is free to use the link
    q.push_back(n);
  }
};
struct W16 {
  bool arrived = false;  // suspended
  int done = 0;
};
dd::job seq_waiter(dd::latch& l, W16& w, int how, int amount, Obj o) {
  Obj loc(1);
  w.arrived = true;
  if (how == 0) co_await l.wait();
  else if (amount == 1) co_await l.arrive_and_wait();
  else co_await l.arrive_and_wait(amount);
  w.done++;
}
SEQ_SCENARIO("C16", "histories", 3) {
  Rng& r = cx.rng;
  man_exe e;
  long count = r.below(8);
  dd::latch l(count, e);
  long left = count;
  std::deque<W16> ws;
  std::vector<W16*> waiting;  // before zero
  size_t attached_expected = 0, attached_seen = 0;
  VM_CHECK(dd::latch::max() > 0, "max", "");
  int ops = r.range(1, 30);
  for (int i = 0; i < ops; i++) {
    long before = left;
    int k = r.below(6);
    size_t q0 = e.q.size();
    size_t completes = 0;
    if (k == 0 || k == 1 || (k == 2 && left == 0)) {
      ws.emplace_back();
      W16& w = ws.back();
      if (left > 0) waiting.push_back(&w);
      seq_waiter(l, w, 0, 0, Obj(i));
      VM_CHECK(w.done == (left == 0), left == 0 ? "late-waiter-suspended" : "released-too-early", "count %ld, waiter done %d", left, w.done);
    } else if (k == 2) {
      int a = r.below((int)std::min<long>(left, 3) + 1);
      ws.emplace_back();
      W16& w = ws.back();
      waiting.push_back(&w);
      left -= a;
      seq_waiter(l, w, 1, a, Obj(i));
      VM_CHECK(w.done == 0, "released-too-early", "");
    } else if (k == 3) {
      int a = r.below((int)std::min<long>(left, 3) + 1);
      left -= a;
      if (a == 1 && r.chance(1, 2)) l.count_down();
      else l.count_down(a);
    } else if (k == 4) {
      VM_CHECK(l.ready() == (left == 0), "ready-wrong", "ready() with count %ld", left);
    } else if (!e.q.empty()) {
      size_t j = (size_t)r.below((int)e.q.size());
      auto* n = e.q[j];
      e.q.erase(e.q.begin() + (long)j);
      n->task.resume();
      q0 = e.q.size();
      cx.nontrivial = true;
      attached_seen++;
    }
    if (before > 0 && left == 0) completes = waiting.size();
    VM_CHECK(e.q.size() == q0 + completes, completes ? "waiter-lost" : "released-too-early", "%zu waiters attached, expected %zu", e.q.size() - q0, completes);
    attached_expected += completes;
    size_t done = 0;
    for (auto* w : waiting) {
      VM_CHECK(w->done <= 1, "released-twice", "");
      done += (size_t)w->done;
    }
    VM_CHECK(done == attached_seen, "released-twice", "%zu waiters done, %zu resumed", done, attached_seen);
    cx.observe((uint64_t)k * 8 + (uint64_t)left);
  }
  if (left) l.count_down(left);
  else if (count == 0) l.count_down(0);
  while (!e.q.empty()) {
    auto* n = e.q.back();
    e.q.pop_back();
    n->task.resume();
  }
  for (auto& w : ws) VM_CHECK(w.done == 1, "waiter-lost", "waiter released %d times", w.done);
  VM_CHECK(l.ready(), "ready-wrong", "");
}

// =====================================================================================================
// C17
// =====================================================================================================
// copies throw on demand
inline int copy_fail_at = 0;
struct TObj : Obj {
  TObj() noexcept {}
  TObj(int v) noexcept : Obj(v) {}
  TObj(const TObj& o) : Obj((boom(), o)) {}
  TObj(TObj&&) noexcept = default;
  TObj& operator=(const TObj& o) { boom(); Obj::operator=(o); return *this; }
  TObj& operator=(TObj&&) noexcept = default;
  static void boom() {
    if (copy_fail_at > 0 && --copy_fail_at == 0) throw Exc{4242};
  }
};

struct Hist {
  struct Sub { uint64_t b = 0, e = ~0ull; long got = -1; uint64_t at = 0; };
  struct Not { uint64_t b = 0, e = ~0ull; int ret = -1; bool failed = false; };
  // fixed capacity, slots are taken with an invisible counter: threads write disjoint slots
  Sub subs[48];
  Not nots[48];
  vs::counter ns, nn;
  int new_sub() { ns.add(); return 0; }
};
// slot allocation that is not seen by tsan
struct Alloc {
  vs::counter left;
  int take() { return (int)(1000 - left.sub_and_get()) - 1; }
  Alloc() { left.set(1000); }
};

// Is there an order of all subscriptions and notifications, compatible with real time, in which every notification
// takes exactly the waiters subscribed at that moment?
struct Lin {
  std::vector<Hist::Sub> s;
  std::vector<Hist::Not> n;  // index = id
  std::unordered_set<uint64_t> bad;
  int total() { return (int)(s.size() + n.size()); }
  uint64_t B(int i) { return i < (int)s.size() ? s[(size_t)i].b : n[(size_t)i - s.size()].b; }
  uint64_t E(int i) { return i < (int)s.size() ? std::min(s[(size_t)i].e, s[(size_t)i].at ? s[(size_t)i].at : ~(uint64_t)0) : n[(size_t)i - s.size()].e; }
  bool run(uint64_t mask, int done) {
    if (done == total()) return true;
    if (bad.count(mask)) return false;
    // minimal: nobody not yet placed ended before it began
    uint64_t min_end = ~0ull;
    for (int i = 0; i < total(); i++)
      if (!(mask >> i & 1)) min_end = std::min(min_end, E(i));
    for (int i = 0; i < total(); i++) {
      if (mask >> i & 1) continue;
      if (B(i) > min_end) continue;
      if (i < (int)s.size()) {
        long g = s[(size_t)i].got;
        if (g >= 0 && (mask >> (s.size() + (size_t)g) & 1)) continue;  // would have been taken before
      } else {
        long id = i - (long)s.size();
        bool any = false, ok = true;
        for (size_t k = 0; k < s.size() && ok; k++) {
          if (!(mask >> k & 1)) continue;
          long g = s[k].got;
          if (g >= 0 && (mask >> (s.size() + (size_t)g) & 1)) continue;  // gone already
          any = true;
          if (g != id) ok = false;
        }
        if (n[(size_t)id].failed) ok = true, any = false;
        else if (!ok || (int)any != n[(size_t)id].ret) continue;
        // whoever got it must have been there
        bool complete = true;
        for (size_t k = 0; k < s.size() && complete; k++)
          if (s[k].got == id && !(mask >> k & 1)) complete = false;
        if (!complete) continue;
      }
      if (run(mask | 1ull << i, done + 1)) return true;
    }
    if (bad.size() > 300000) return true;  // gives up: not decided
    bad.insert(mask);
    return false;
  }
};

template <typename In>
struct E17 {
  dd::event<In> ev;
  Hist h;
  Alloc subs, nots;
  vs::counter open, finished;
  dd::worker* w = nullptr;
  dd::thread_pool* pool = nullptr;
  completion* comp = nullptr;
  int payload[48] = {};  // written by the notifier before the notification, plain
};
// notification that this thread delivers inline
inline thread_local long tl_current = -1;
// last subscription that was begun on this thread
inline thread_local int tl_last_sub = -1;

template <typename In>
struct tag_exe {
  E17<In>& e;
  long id;
  int how;  // 0 inline 1 worker 2 pool
  void attach(dd::task_node* n) {
    if (how == 0) {
      long saved = tl_current;
      int saved_sub = tl_last_sub;
      tl_current = id;
      tl_last_sub = -1;
      n->task.resume();
      tl_current = saved;
      if (tl_last_sub >= 0) e.h.subs[tl_last_sub].e = vs::stamp();
      tl_last_sub = saved_sub;
    } else if (how == 1) e.w->attach(n);
    else e.pool->attach(n);
  }
};

template <typename In>
long value_id(E17<In>& e, const Obj& o) {
  int v = o.get();
  VM_CHECK(v >= 1000 && v < 1048, "wrong-input", "input %d was never sent", v);
  VM_CHECK(e.payload[v - 1000] == v, "effects-not-visible", "effects before the notification are not visible");
  return v - 1000;
}

template <typename In>
dd::job sub17(E17<In>& e, int rounds, Obj arg) {
  Obj local(5);
  for (int i = 0; i < rounds; i++) {
    int s = e.subs.take();
    VM_CHECK(s < 48, "harness", "too many subscriptions");
    tl_last_sub = s;
    e.h.subs[s].b = vs::stamp();
    if constexpr (std::is_void_v<In>) {
      (void)co_await e.ev;
      e.h.subs[s].got = tl_current;
    } else {
      In v = co_await e.ev;
      e.h.subs[s].got = value_id(e, v);
    }
    uint64_t at = vs::stamp();
    VM_CHECK(e.h.subs[s].at == 0, "woken-twice", "one wait ends twice");
    e.h.subs[s].at = at;
    VM_CHECK(local.get() == 5 && arg.get() == 6, "object-corrupted", "locals");
  }
  e.open.add(-1);
}
template <typename In>
void callback17(E17<In>& e) {
  int s = e.subs.take();
  VM_CHECK(s < 48, "harness", "too many subscriptions");
  e.h.subs[s].b = vs::stamp();
  auto fin = [&e, s, guard = Obj(9)](long got) {
    VM_CHECK(guard.get() == 9, "object-corrupted", "callback");
    uint64_t at = vs::stamp();
    VM_CHECK(e.h.subs[s].at == 0, "woken-twice", "callback runs twice");
    e.h.subs[s].got = got;
    e.h.subs[s].at = at;
    e.open.add(-1);
  };
  if constexpr (std::is_void_v<In>) e.ev.set_callback([fin] { fin(tl_current); });
  else e.ev.set_callback([fin, &e](In&& v) { fin(value_id(e, v)); });
}

template <typename In>
int notify17(E17<In>& e, int how, int fail_at = 0) {
  int id = e.nots.take();
  VM_CHECK(id < 48, "harness", "too many notifications");
  e.payload[id] = 1000 + id;
  tag_exe<In> exe{e, id, how};
  auto& n = e.h.nots[id];
  n.b = vs::stamp();
  bool ret = false;
  if constexpr (std::is_void_v<In>) ret = e.ev.notify_all(exe);
  else {
    In v(1000 + id);
    if (fail_at) {
      copy_fail_at = fail_at + 1;  // one for the argument itself
      try {
        ret = e.ev.notify_all(exe, v);
      } catch (const Exc& x) {
        VM_CHECK(x.id == 4242, "wrong-exception", "");
        n.failed = true;
      }
      copy_fail_at = 0;
    } else
      ret = e.ev.notify_all(exe, std::move(v));
  }
  n.e = vs::stamp();
  n.ret = ret;
  return ret;
}

template <typename In>
void check17(E17<In>& e, Ctx& cx) {
  Lin l;
  int nn = (int)(1000 - e.nots.left.get()), ns = (int)(1000 - e.subs.left.get());
  for (int i = 0; i < nn; i++) l.n.push_back(e.h.nots[i]);
  for (int i = 0; i < ns; i++) {
    auto& s = e.h.subs[i];
    VM_CHECK(s.at, "waiter-lost", "subscription %d was never notified", i);
    VM_CHECK(s.got >= 0 && s.got < nn, "woken-without-notification", "");
    VM_CHECK(e.h.nots[s.got].b < s.at && e.h.nots[s.got].e > s.b, "woken-without-notification", "woken by a notification that ended before the subscription");
    VM_CHECK(!e.h.nots[s.got].failed, "woken-by-failed-notification", "");
    l.s.push_back(s);
    cx.observe((uint64_t)s.got);
  }
  for (int i = 0; i < nn; i++) {
    int cnt = 0;
    for (auto& s : l.s) cnt += s.got == i;
    if (!l.n[(size_t)i].failed) VM_CHECK((cnt > 0) == (l.n[(size_t)i].ret == 1), "wrong-notify-result", "notification reports %d, woke %d", l.n[(size_t)i].ret, cnt);
  }
  if (l.total() <= 40) VM_CHECK(l.run(0, 0), "not-linearizable", "no order of the %d operations explains who was woken by whom", l.total());
}

template <typename In>
void run17(Ctx& cx, bool workers) {
  Rng& r = cx.rng;
  auto ep = std::make_unique<E17<In>>();
  E17<In>& e = *ep;
  std::optional<dd::worker> w;
  std::optional<dd::thread_pool> pool;
  if (workers) {
    w.emplace();
    pool.emplace((size_t)r.range(1, 2));
    e.w = &*w;
    e.pool = &*pool;
  }
  int T = r.range(2, 4);
  struct act { int kind, n, how; };
  std::vector<std::vector<act>> plan((size_t)T);
  int nsub = 0, nnot = 0, jobs = 0;
  for (auto& t : plan) {
    int n = r.range(1, 4);
    for (int i = 0; i < n; i++) {
      act a{r.below(3), r.range(1, 3), workers ? r.below(3) : 0};
      if (std::is_void_v<In>) a.how = 0;
      if (a.kind == 0 && nsub + a.n > 12) a.kind = 2;
      if (a.kind == 1 && nsub + 1 > 12) a.kind = 2;
      if (a.kind == 2 && nnot > 8) continue;
      if (a.kind == 0) nsub += a.n, jobs++;
      if (a.kind == 1) nsub++, jobs++;
      if (a.kind == 2) nnot++;
      t.push_back(a);
    }
  }
  e.open.set(jobs);
  cx.describe = "threads " + std::to_string(T) + " subscriptions " + std::to_string(nsub) + " notifications " + std::to_string(nnot);
  {
    std::vector<std::thread> th;
    for (auto& t : plan)
      th.emplace_back([&e, &t] {
        for (act& a : t) {
          if (a.kind == 2) notify17(e, a.how);
          else {
            tl_last_sub = -1;
            int s0 = -1;
            if (a.kind == 0) sub17(e, a.n, Obj(6));
            else callback17(e);
            s0 = tl_last_sub;
            // the subscription made by this call is complete
            if (s0 >= 0 && e.h.subs[s0].e == ~0ull) e.h.subs[s0].e = vs::stamp();
          }
        }
      });
    for (auto& t : th) t.join();
  }
  // everything that was handed to an executor is done after this
  w.reset();
  pool.reset();
  e.w = nullptr;
  e.pool = nullptr;
  // wake the rest
  for (int guard = 0; e.open.get() > 0; guard++) {
    VM_CHECK(guard < 20, "waiter-lost", "%ld waiters are not woken by any notification", e.open.get());
    notify17(e, 0);
  }
  VM_CHECK(!notify17(e, 0), "wrong-notify-result", "notification of an event without subscribers reports someone");
  check17(e, cx);
}
MT_SCENARIO("C17", "threads", 5) { run17<Obj>(cx, false); }
MT_SCENARIO("C17", "threads_workers", 3) { run17<Obj>(cx, true); }
MT_SCENARIO("C17", "threads_void", 3) { run17<void>(cx, false); }

// throwing copies: one notifier, any number of subscribing threads
MT_SCENARIO("C17", "throwing_copy", 3) {
  Rng& r = cx.rng;
  auto ep = std::make_unique<E17<TObj>>();
  E17<TObj>& e = *ep;
  int T = r.range(1, 2);
  struct act { int kind, n; };
  std::vector<std::vector<act>> plan((size_t)T);
  int jobs = 0, nsub = 0;
  for (auto& t : plan) {
    int n = r.range(1, 4);
    for (int i = 0; i < n; i++) {
      act a{r.below(2), r.range(1, 2)};
      nsub += a.kind ? 1 : a.n;
      if (nsub > 14) break;
      t.push_back(a);
      jobs++;
    }
  }
  e.open.set(jobs);
  std::vector<std::thread> th;
  for (auto& t : plan)
    th.emplace_back([&e, &t] {
      for (act& a : t) {
        tl_last_sub = -1;
        if (a.kind == 0) sub17(e, a.n, Obj(6));
        else callback17(e);
        if (tl_last_sub >= 0 && e.h.subs[tl_last_sub].e == ~0ull) e.h.subs[tl_last_sub].e = vs::stamp();
      }
    });
  int k = r.range(1, 6);
  for (int i = 0; i < k; i++) notify17(e, 0, r.chance(1, 2) ? r.range(1, 4) : 0);
  for (auto& t : th) t.join();
  for (int guard = 0; e.open.get() > 0; guard++) {
    VM_CHECK(guard < 20, "waiter-lost", "%ld waiters are not woken by any notification", e.open.get());
    notify17(e, 0);
  }
  check17(e, cx);
}

// one thread, every mix, exact
template <typename In>
void seq17(Ctx& cx) {
  Rng& r = cx.rng;
  auto ep = std::make_unique<E17<In>>();
  E17<In>& e = *ep;
  int ops = r.range(2, 12);
  int nsub = 0;
  e.open.set(0);
  for (int i = 0; i < ops; i++) {
    int k = r.below(4);
    long before = e.open.get();
    if (k <= 1) {
      int rounds = r.range(1, 3);
      if (nsub + rounds > 14) continue;
      nsub += k == 0 ? rounds : 1;
      e.open.add(1);
      tl_last_sub = -1;
      if (k == 0) sub17(e, rounds, Obj(6));
      else { callback17(e); }
      if (tl_last_sub >= 0) e.h.subs[tl_last_sub].e = vs::stamp();
      VM_CHECK(e.open.get() == before + 1, "woken-without-notification", "waiter does not wait");
    } else {
      int fail = 0;
      if constexpr (std::is_same_v<In, TObj>)
        if (k == 3) fail = r.range(1, 6);
      int nn = (int)(1000 - e.nots.left.get());
      bool ret = notify17(e, 0, fail);
      bool failed = e.h.nots[nn].failed;
      if (failed) VM_CHECK(e.open.get() == before, "woken-by-failed-notification", "");
      else VM_CHECK(ret == (before > 0), "wrong-notify-result", "%ld waiters, reports %d", before, ret);
    }
    if (e.open.get()) cx.nontrivial = true;
    cx.observe((uint64_t)k * 100 + (uint64_t)e.open.get());
  }
  for (int g = 0; e.open.get() > 0; g++) {
    VM_CHECK(g < 6, "waiter-lost", "%ld waiters are not woken by any notification", e.open.get());
    notify17(e, 0);
  }
  check17(e, cx);
}
SEQ_SCENARIO("C17", "histories", 3) {
  switch (cx.rng.below(3)) {
    case 0: seq17<Obj>(cx); break;
    case 1: seq17<void>(cx); break;
    default: seq17<TObj>(cx); break;
  }
}

// =====================================================================================================
// C18
// =====================================================================================================
struct Src {
  struct Not { uint64_t b = 0, e = ~0ull; int ret = -1; };
  Not nots[40];
  Alloc alloc;
  int payload[40] = {};
  int count() { return (int)(1000 - alloc.left.get()); }
};
struct E18 {
  dd::event<Obj> a;
  dd::event<void> b;
  dd::event<Obj> c;
  dd::event<std::string> d;
  Src src[4];
  dd::worker* w = nullptr;
  vs::counter done, running;
};
int val18(int ev, int id) { return (ev + 1) * 1000 + id; }
struct Wait18 {
  uint64_t b = 0, e = ~0ull, at = 0;
  int times = 0;
  int n = 0;       // events
  bool any = false;
  int winner = -1;
  long got[4] = {-1, -1, -1, -1};
};
inline thread_local Wait18* tl_wait = nullptr;
struct in18 {
  void attach(dd::task_node* n) {
    Wait18* saved = tl_wait;
    tl_wait = nullptr;
    n->task.resume();
    // whatever was awaited by the resumed coroutine is subscribed now
    if (tl_wait && tl_wait->e == ~0ull) tl_wait->e = vs::stamp();
    tl_wait = saved;
  }
};
bool notify18(E18& e, int ev, int how) {
  Src& s = e.src[ev];
  int id = s.alloc.take();
  VM_CHECK(id < 40, "harness", "too many notifications");
  s.payload[id] = val18(ev, id);
  s.nots[id].b = vs::stamp();
  bool ret = false;
  auto go = [&](auto& x) {
    switch (ev) {
      case 0: ret = e.a.notify_all(x, Obj(val18(ev, id))); break;
      case 1: ret = e.b.notify_all(x); break;
      case 2: ret = e.c.notify_all(x, Obj(val18(ev, id))); break;
      default: ret = e.d.notify_all(x, std::string("a string that is long enough for the heap ") + std::to_string(val18(ev, id)));
    }
  };
  in18 in;
  if (how == 1 && e.w) go(*e.w);
  else go(in);
  s.nots[id].e = vs::stamp();
  s.nots[id].ret = ret;
  return ret;
}
long id18(E18& e, int ev, int v) {
  int id = v - (ev + 1) * 1000;
  VM_CHECK(id >= 0 && id < 40 && id < e.src[ev].count(), "wrong-input", "event %d: input %d was never sent", ev, v);
  VM_CHECK(e.src[ev].payload[id] == v, "effects-not-visible", "effects before the notification are not visible");
  return id;
}
long id18(E18& e, int ev, const std::string& s) {
  size_t p = s.rfind(' ');
  VM_CHECK(p != s.npos && p > 30, "wrong-input", "event %d: string input is damaged", ev);
  return id18(e, ev, atoi(s.c_str() + p));
}

dd::job waiter18(E18& e, std::deque<Wait18>& ws, int rounds, int variant, vs::counter& next, Obj arg) {
  Obj local(3);
  for (int i = 0; i < rounds; i++) {
    long idx = 1000 - next.sub_and_get() - 1;
    Wait18& w = ws[(size_t)idx];
    tl_wait = &w;
    w.b = vs::stamp();
    switch (variant) {
      case 0: {
        w.n = 2;
        auto t = co_await dd::when_all(e.a, e.b);
        w.got[0] = id18(e, 0, std::get<0>(t).get());
        break;
      }
      case 1: {
        w.n = 3;
        auto t = co_await dd::when_all(e.a, e.b, e.c);
        w.got[0] = id18(e, 0, std::get<0>(t).get());
        w.got[2] = id18(e, 2, std::get<2>(t).get());
        break;
      }
      case 2: {
        w.n = 4;
        auto t = co_await dd::when_all(e.a, e.b, e.c, e.d);
        w.got[0] = id18(e, 0, std::get<0>(t).get());
        w.got[2] = id18(e, 2, std::get<2>(t).get());
        w.got[3] = id18(e, 3, std::get<3>(t));
        break;
      }
      case 3: {
        w.n = 2, w.any = true;
        auto v = co_await dd::when_any(e.a, e.b);
        w.winner = (int)v.index();
        if (w.winner == 0) w.got[0] = id18(e, 0, std::get<0>(v).get());
        break;
      }
      case 4: {
        w.n = 3, w.any = true;
        auto v = co_await dd::when_any(e.a, e.b, e.c);
        w.winner = (int)v.index();
        if (w.winner == 0) w.got[0] = id18(e, 0, std::get<0>(v).get());
        if (w.winner == 2) w.got[2] = id18(e, 2, std::get<2>(v).get());
        break;
      }
      case 5: {
        w.n = 4, w.any = true;
        auto v = co_await dd::when_any(e.a, e.b, e.c, e.d);
        w.winner = (int)v.index();
        if (w.winner == 0) w.got[0] = id18(e, 0, std::get<0>(v).get());
        if (w.winner == 2) w.got[2] = id18(e, 2, std::get<2>(v).get());
        if (w.winner == 3) w.got[3] = id18(e, 3, std::get<3>(v));
        break;
      }
      default: {  // one event only
        w.n = 1;
        auto t = co_await dd::when_all(e.a);
        w.got[0] = id18(e, 0, std::get<0>(t).get());
        break;
      }
    }
    VM_CHECK(++w.times == 1, "completed-twice", "one wait completes %d times", w.times);
    w.at = vs::stamp();
    VM_CHECK(local.get() == 3 && arg.get() == 4, "object-corrupted", "locals");
  }
  e.done.add();
}

void check18(E18& e, std::deque<Wait18>& ws, int used, Ctx& cx) {
  for (int i = 0; i < used; i++) {
    Wait18& w = ws[(size_t)i];
    VM_CHECK(w.times == 1, "never-completed", "wait %d completes %d times", i, w.times);
    cx.observe((uint64_t)(w.winner + 2));
    for (int ev = 0; ev < w.n; ev++) {
      Src& s = e.src[ev];
      if (w.any && ev != w.winner) {
        // a notification that lies completely between subscribing and completion would have completed it
        for (int k = 0; k < s.count(); k++) {
          bool taken = false;  // another notification of this event may have taken the subscription
          for (int q = 0; q < s.count(); q++) taken |= q != k && s.nots[q].ret == 1 && s.nots[q].b < s.nots[k].e && s.nots[q].e > w.b;
          VM_CHECK(taken || !(s.nots[k].b > w.e && s.nots[k].e < w.at && s.nots[k].ret == 0), "notification-missed", "event %d: notification %d found no waiter", ev, k);
        }
        continue;
      }
      cx.observe((uint64_t)(w.got[ev] + 1));
      // some notification woke it
      bool some = false;
      for (int k = 0; k < s.count(); k++) some |= s.nots[k].b < w.at && s.nots[k].e > w.b;
      VM_CHECK(some, "completed-too-early", "completed, but event %d was not notified", ev);
      if (w.got[ev] >= 0) {
        auto& n = s.nots[w.got[ev]];
        VM_CHECK(n.b < w.at && n.e > w.b, "wrong-input", "input of a notification outside of the wait");
        VM_CHECK(n.ret == 1, "wrong-notify-result", "notification which woke someone reports false");
        for (int k = 0; k < s.count(); k++)
          VM_CHECK(!(s.nots[k].b > w.e && s.nots[k].e < n.b), "not-the-first-notification", "event %d: input of notification %ld, but %d was earlier", ev, w.got[ev], k);
      }
    }
    if (w.any) VM_CHECK(w.winner >= 0 && w.winner < w.n, "wrong-index", "index %d", w.winner);
  }
}

void run18(Ctx& cx, int first_variant, int variants, bool seq) {
  Rng& r = cx.rng;
  auto ep = std::make_unique<E18>();
  E18& e = *ep;
  std::optional<dd::worker> w;
  if (!seq && r.chance(1, 3)) { w.emplace(); e.w = &*w; }
  int nw = r.range(1, 3);
  std::deque<Wait18> ws(12);
  vs::counter next;
  next.set(1000);
  struct act { int kind, a, b; };
  int T = seq ? 1 : r.range(2, 4);
  std::vector<std::vector<act>> plan((size_t)T);
  int total_rounds = 0;
  // notifiers and subscribers are in the same threads
  for (int i = 0; i < nw; i++) {
    int rounds = r.range(1, 3);
    total_rounds += rounds;
    plan[(size_t)r.below(T)].push_back({0, rounds, first_variant + r.below(variants)});
    cx.describe += "waiter(variant " + std::to_string(plan[0].empty() ? -1 : plan[0].back().b) + ") ";
  }
  int nn = r.range(2, 10);
  for (int i = 0; i < nn; i++) {
    auto& t = plan[(size_t)r.below(T)];
    t.insert(t.begin() + r.below((int)t.size() + 1), {1, r.below(4), r.below(2)});
  }
  auto run = [&](std::vector<act>& t) {
    for (act& a : t) {
      if (a.kind == 1) notify18(e, a.a, a.b);
      else {
        tl_wait = nullptr;
        waiter18(e, ws, a.a, a.b, next, Obj(4));
        Wait18* x = tl_wait;
        if (x && x->e == ~0ull) x->e = vs::stamp();
      }
    }
  };
  if (seq) run(plan[0]);
  else {
    std::vector<std::thread> th;
    for (auto& t : plan) th.emplace_back([&run, &t] { run(t); });
    for (auto& t : th) t.join();
  }
  // everything that was handed to an executor is done after this
  w.reset();
  e.w = nullptr;
  // complete everybody
  for (int guard = 0; e.done.get() < nw; guard++) {
    VM_CHECK(guard < 25, "never-completed", "%ld of %d waiters completed", e.done.get(), nw);
    for (int ev = 0; ev < 4; ev++) notify18(e, ev, 0);
  }
  cx.nontrivial = true;
  check18(e, ws, total_rounds, cx);
  // subscriptions that are left over by when_any are harmless
  for (int ev = 0; ev < 4; ev++) { notify18(e, ev, 0); VM_CHECK(!notify18(e, ev, 0), "wrong-notify-result", "event %d has subscribers after it was notified", ev); }
  for (int i = 0; i < total_rounds; i++) VM_CHECK(ws[(size_t)i].times == 1, "completed-twice", "");
}
MT_SCENARIO("C18", "all_threads", 4) {
  int v = cx.rng.below(4);
  run18(cx, v == 3 ? 6 : v, 1, false);
}
MT_SCENARIO("C18", "any_threads", 5) { run18(cx, 3, 3, false); }
MT_SCENARIO("C18", "mixed_threads", 4) { run18(cx, 0, 7, false); }
SEQ_SCENARIO("C18", "mixed_sequential", 2) { run18(cx, 0, 7, true); }

// =====================================================================================================
// C23
// =====================================================================================================
struct N23 {
  N23* next = nullptr;
  int payload = 0;  // plain
  int id = 0;       // incarnation
};
struct Op23 {
  uint64_t b = 0, e = ~0ull;
  int kind = 0;            // 0 push, 1 chain, 2 pop
  std::vector<int> ids;    // pushed (top first) or taken (top first)
};
struct Lin23 {
  std::vector<Op23> ops;
  std::set<std::pair<uint64_t, std::vector<int>>> bad;
  long work = 0;
  bool run(uint64_t mask, std::vector<int>& st) {  // st: back is top
    if (mask == (ops.size() == 64 ? ~0ull : (1ull << ops.size()) - 1)) return st.empty();
    if (++work > 200000) return true;
    if (bad.count({mask, st})) return false;
    uint64_t min_end = ~0ull;
    for (size_t i = 0; i < ops.size(); i++)
      if (!(mask >> i & 1)) min_end = std::min(min_end, ops[i].e);
    for (size_t i = 0; i < ops.size(); i++) {
      if ((mask >> i & 1) || ops[i].b > min_end) continue;
      Op23& o = ops[i];
      if (o.kind == 2) {
        if (o.ids.size() != st.size() || !std::equal(o.ids.begin(), o.ids.end(), st.rbegin())) continue;
        std::vector<int> empty;
        if (run(mask | 1ull << i, empty)) return true;
      } else {
        size_t n = st.size();
        for (size_t k = o.ids.size(); k-- > 0;) st.push_back(o.ids[k]);
        if (run(mask | 1ull << i, st)) return true;
        st.resize(n);
      }
    }
    bad.insert({mask, st});
    return false;
  }
};
MT_SCENARIO("C23", "linearizable", 6) {
  Rng& r = cx.rng;
  dd::nonowner_lockfree_stack<N23> st;
  int T = r.range(2, 4);
  vs::counter ids;
  ids.set(100000);
  struct Th {
    std::vector<int> plan;
    std::vector<Op23> ops;
    std::deque<N23> own;
    std::vector<N23*> pool;
  };
  std::deque<Th> th((size_t)T);
  int total = 0;
  for (auto& t : th) {
    int n = r.range(1, 5);
    for (int i = 0; i < n && total < 16; i++, total++) t.plan.push_back(r.below(10) < 5 ? 0 : r.below(10) < 4 ? 1 + r.range(1, 4) * 16 : 2);
    t.own.resize(6);
    for (auto& x : t.own) t.pool.push_back(&x);
  }
  auto fresh = [&](Th& t) {
    N23* n = t.pool.back();
    t.pool.pop_back();
    n->id = (int)(100000 - ids.sub_and_get());
    n->payload = n->id * 3;
    return n;
  };
  auto walk = [&](Th& t, Op23& o, N23* top) {
    int guard = 0;
    while (top) {
      VM_CHECK(++guard < 100, "cycle", "taken list has a cycle");
      N23* nx = top->next;
      VM_CHECK(top->payload == top->id * 3, "effects-not-visible", "payload %d of node %d", top->payload, top->id);
      o.ids.push_back(top->id);
      top->payload = -1;
      t.pool.push_back(top);  // reused at once
      top = nx;
    }
  };
  {
    std::vector<std::thread> v;
    for (auto& t : th)
      v.emplace_back([&] {
        for (int p : t.plan) {
          Op23 o;
          o.kind = p % 16;
          if (o.kind != 2 && t.pool.empty()) o.kind = 2;
          if (o.kind == 0) {
            N23* n = fresh(t);
            o.ids.push_back(n->id);
            o.b = vs::stamp();
            st.push(n);
          } else if (o.kind == 1) {
            N23* top = nullptr;
            for (int k = p / 16; k > 0 && !t.pool.empty(); k--) {
              N23* n = fresh(t);
              n->next = top;
              top = n;
              o.ids.insert(o.ids.begin(), n->id);
            }
            o.b = vs::stamp();
            st.push_stack(top);
          } else {
            o.b = vs::stamp();
            N23* top = st.try_pop_all();
            o.e = vs::stamp();
            walk(t, o, top);
          }
          if (o.e == ~0ull) o.e = vs::stamp();
          t.ops.push_back(std::move(o));
        }
      });
    for (auto& x : v) x.join();
  }
  Lin23 l;
  Th last;
  Op23 fin;
  fin.kind = 2;
  fin.b = vs::stamp();
  N23* top = st.try_pop_all();
  fin.e = vs::stamp();
  walk(last, fin, top);
  for (auto& t : th)
    for (auto& o : t.ops) l.ops.push_back(o);
  l.ops.push_back(fin);
  std::map<int, int> pushed, taken;
  for (auto& o : l.ops)
    for (int id : o.ids) ++(o.kind == 2 ? taken : pushed)[id];
  for (auto& [id, n] : taken) VM_CHECK(n == 1 && pushed.count(id), n > 1 ? "duplicated-node" : "invented-node", "node %d taken %d times", id, n);
  for (auto& [id, n] : pushed) VM_CHECK(taken.count(id), "lost-node", "node %d was never taken", id);
  std::vector<int> init;
  VM_CHECK(l.run(0, init), "not-linearizable", "no order of the %zu operations explains the results", l.ops.size());
  VM_CHECK(st.try_pop_all() == nullptr, "not-empty", "");
  st.push_stack(nullptr);
  VM_CHECK(st.try_pop_all() == nullptr, "not-empty", "push of an empty chain");
  for (auto& o : l.ops) { cx.observe((uint64_t)o.kind); for (int id : o.ids) cx.observe((uint64_t)id); }
  cx.describe = std::to_string(T) + " threads, " + std::to_string(l.ops.size()) + " operations";
}

// long runs: conservation and per-thread order
MT_SCENARIO("C23", "stress", 1) {
  Rng& r = cx.rng;
  dd::nonowner_lockfree_stack<N23> st;
  int T = r.range(2, 4), per = r.range(20, 60);
  std::deque<std::vector<N23>> nodes;
  for (int i = 0; i < T; i++) nodes.emplace_back((size_t)per);
  std::vector<std::vector<int>> got((size_t)T);
  int batch = r.range(1, 5), popper = r.range(1, 8);
  {
    std::vector<std::thread> v;
    for (int t = 0; t < T; t++)
      v.emplace_back([&, t] {
        auto take = [&] {
          int prev[8];
          for (int& p : prev) p = 1 << 30;
          for (N23* n = st.try_pop_all(); n;) {
            N23* nx = n->next;
            VM_CHECK(n->payload == n->id * 3, "effects-not-visible", "");
            int o = n->id / 1000, k = n->id % 1000;
            VM_CHECK(k < prev[o], "not-lifo", "thread %d: node %d under %d", o, k, prev[o]);
            prev[o] = k;
            got[(size_t)t].push_back(n->id);
            n = nx;
          }
        };
        for (int i = 0; i < per;) {
          int b = std::min(batch, per - i);
          N23* top = nullptr;
          for (int k = 0; k < b; k++, i++) {
            N23& n = nodes[(size_t)t][(size_t)i];
            n.id = t * 1000 + i;
            n.payload = n.id * 3;
            n.next = top;
            top = &n;
          }
          if (b == 1) st.push(top);
          else st.push_stack(top);
          if (i % popper == 0) take();
        }
        take();
      });
    for (auto& x : v) x.join();
  }
  VM_CHECK(st.try_pop_all() == nullptr, "lost-node", "nodes are left although every thread took all after its last push");
  std::vector<int> seen((size_t)T * 1000);
  size_t n = 0;
  for (auto& g : got)
    for (int id : g) {
      VM_CHECK(++seen[(size_t)id] == 1, "duplicated-node", "node %d", id);
      n++;
    }
  VM_CHECK(n == (size_t)(T * per), "lost-node", "%zu of %d nodes taken", n, T * per);
  cx.observe(n);
}
SEQ_SCENARIO("C23", "sequential", 2) {
  Rng& r = cx.rng;
  dd::nonowner_lockfree_stack<N23> st;
  std::deque<N23> nodes(12);
  std::vector<N23*> free;
  for (auto& n : nodes) free.push_back(&n);
  std::vector<N23*> model;  // back is top
  int ops = r.range(1, 30);
  for (int i = 0; i < ops; i++) {
    int k = r.below(5);
    if (k <= 1 && !free.empty()) {
      N23* n = free.back();
      free.pop_back();
      n->next = r.chance(1, 2) ? n : nullptr;  // stale link
      st.push(n);
      model.push_back(n);
    } else if (k <= 3) {
      N23* top = nullptr;
      int c = r.below(5);
      std::vector<N23*> add;
      while (c-- > 0 && !free.empty()) {
        N23* n = free.back();
        free.pop_back();
        n->next = top;
        top = n;
        add.push_back(n);
      }
      st.push_stack(top);
      for (auto* n : add) model.push_back(n);
    } else {
      N23* n = st.try_pop_all();
      size_t left = model.size();
      while (n) {
        VM_CHECK(left > 0 && model[left - 1] == n, "not-lifo", "wrong node");
        left--;
        free.push_back(n);
        n = n->next;
      }
      VM_CHECK(left == 0, "lost-node", "%zu nodes missing", left);
      if (!model.empty()) cx.nontrivial = true;
      model.clear();
    }
    cx.observe((uint64_t)k * 64 + model.size());
  }
  N23* n = st.try_pop_all();
  while (n) {
    VM_CHECK(!model.empty() && model.back() == n, "not-lifo", "wrong node");
    model.pop_back();
    n = n->next;
  }
  VM_CHECK(model.empty(), "lost-node", "%zu nodes missing", model.size());
}

}  // namespace

VM_MAIN
