// C12 exactly-once execution, C13 stop/cancel, C14 strand order, C15 construction faults and memory,
// C25 executor hops, C26 fire-and-forget coroutines
#include <cstring>
#include <utility>

#include "vmon.hpp"

using vm::completion;
using vm::Ctx;
using vm::Obj;

namespace {

// ---- logging memory resource -------------------------------------------------------------------------
// own bookkeeping without global new; all state is guarded by the "one thread at a time"/malloc-free design:
// entries are written with uninstrumented counters only
struct log_resource : std::pmr::memory_resource {
  vs::counter live, total, bytes;
  vs::counter fail_at;  // k-th allocation fails
  struct head {
    uint64_t magic;
    log_resource* owner;
    size_t bytes, align;
    char* raw;
    uint64_t pad[3];
  };
  static_assert(sizeof(head) == 64);
  void* do_allocate(size_t n, size_t al) override {
    if (fail_at.get() > 0) {
      fail_at.add(-1);
      if (fail_at.get() == 0) throw std::bad_alloc();
    }
    VM_CHECK(al && (al & (al - 1)) == 0, "resource-bad-alignment", "allocate(%zu, %zu)", n, al);
    size_t A = std::max<size_t>(al, 64);
    char* raw = (char*)malloc(n + sizeof(head) + A + 16);
    char* p = (char*)(((uintptr_t)raw + sizeof(head) + A - 1) / A * A);
    head* h = (head*)(p - sizeof(head));
    h->magic = 0xFEEDFACE12345678ull;
    h->owner = this;
    h->bytes = n;
    h->align = al;
    h->raw = raw;
    memset(p + n, 0x5C, 8);
    live.add();
    total.add();
    bytes.add((long)n);
    return p;
  }
  void do_deallocate(void* p, size_t n, size_t al) override {
    head* h = (head*)((char*)p - sizeof(head));
    VM_CHECK(h->magic == 0xFEEDFACE12345678ull, "resource-foreign-block", "deallocate of a block that is not allocated from this resource");
    VM_CHECK(h->owner == this, "resource-foreign-block", "block returned to another resource than it came from");
    VM_CHECK(h->bytes == n && h->align == al, "resource-size-mismatch", "block allocated as (%zu,%zu) returned as (%zu,%zu)", h->bytes, h->align, n, al);
    for (int i = 0; i < 8; i++) VM_CHECK(((unsigned char*)p)[n + i] == 0x5C, "resource-overrun", "write behind the end of a block");
    h->magic = 0;
    live.add(-1);
    bytes.add(-(long)n);
    free(h->raw);
  }
  bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};

struct payload {
  int a[6] = {};
  void fill(int x) { for (int i = 0; i < 6; i++) a[i] = x + i; }
  void expect(int x, const char* where) {
    for (int i = 0; i < 6; i++) VM_CHECK(a[i] == x + i, "stale-payload", "%s: payload[%d]=%d, expected %d", where, i, a[i], x + i);
  }
};

// awaiter which parks the coroutine in a node given from outside (lists of nodes)
struct park : dd::task_node {
  std::vector<dd::task_node*>* where;
  explicit park(std::vector<dd::task_node*>* w) : where(w) {}
  bool await_ready() { return false; }
  void await_suspend(std::coroutine_handle<> h) { task = h; where->push_back(this); }
  dd::schedule_status await_resume() { return {status}; }
};

dd::task_node* chain(std::vector<dd::task_node*>& v) {
  for (size_t i = 0; i + 1 < v.size(); i++) v[i]->next = v[i + 1];
  if (v.empty()) return nullptr;
  v.back()->next = nullptr;
  return v.front();
}

// =====================================================================================================
// C12
// =====================================================================================================
struct plan12 {
  int workers = 1;
  bool use_worker = false, use_pool = true;
  struct item {
    int kind;    // 0 hopper job, 1 schedule(fn), 2 schedule(fn,hash), 3 schedule_to(target), 4 list of coroutines
    int target;  // 0 pool, 1 worker, 2 strand of worker, 3 strand of pool, 4 any_executor_ref(pool), 5 any_executor_ref(worker), 6 queue of pool
    int hops;
    int children;  // submitted from inside the task
    size_t hash;
    int id;
  };
  std::vector<std::vector<item>> threads;
  int total_units = 0;
};

struct env12 {
  dd::thread_pool* pool = nullptr;
  dd::worker* w = nullptr;
  completion* comp = nullptr;
  std::vector<vs::counter> runs;
  vs::counter ok_resumes;
  void check_thread(int target) {
    bool inpool = pool && pool->is_worker();
    bool inw = w && w->get_id() == std::this_thread::get_id();
    bool want_w = target == 1 || target == 2 || target == 5;
    VM_CHECK(want_w ? inw : inpool, "wrong-thread", "task for target %d continued on a thread that does not belong to it", target);
  }
};

// a type-erased reference, or a copy or move of one that is gone
template <typename E>
dd::any_executor_ref erased(E& e, size_t how) {
  if (how % 3 == 0) return dd::any_executor_ref(e);
  using ref = dd::any_executor_ref;
  auto mem = std::make_unique<std::byte[]>(sizeof(ref));
  ref* a = new (mem.get()) ref(e);
  ref b = how % 3 == 1 ? ref(std::as_const(*a)) : ref(std::move(*a));
  a->~ref();
  memset(mem.get(), 0, sizeof(ref));
  return b;
}

template <typename F>
void with_target(env12& e, int target, size_t hash, F f) {
  switch (target) {
    case 0: f(*e.pool); break;
    case 1: f(*e.w); break;
    case 2: { dd::strand s(*e.w); f(s); break; }
    case 3: { dd::strand s = e.pool->get_strand(hash); f(s); break; }
    case 4: { dd::any_executor_ref r = erased(*e.pool, hash); f(r); break; }
    case 5: { dd::any_executor_ref r = erased(*e.w, hash); f(r); break; }
    default: f(e.pool->select_queue(hash)); break;
  }
}

dd::job leaf_job(env12& e, int id, int target, size_t hash, std::unique_ptr<payload> p, Obj o);

void after_run(env12& e, int id) {
  e.runs[id].add();
  VM_CHECK(e.runs[id].get() == 1, "executed-twice", "task %d executed %ld times", id, e.runs[id].get());
  e.comp->one();
}

dd::job hop_once(env12& e, int id, int target, size_t hash, int hops, int children, int child_first, Obj o) {
  payload p;
  for (int h = 0; h < hops; h++) {
    int x = id * 100 + h;
    p.fill(x);
    int tgt = target;
    if (h > 0 && e.pool && e.w) tgt = (target + h) % 7;
    dd::schedule_status st{dd::schedule_errc::timed_out};
    switch (tgt) {
      case 0: st = co_await dd::jump_on(*e.pool); break;
      case 1: st = co_await dd::jump_on(*e.w); break;
      case 2: { dd::strand s(*e.w); st = co_await dd::jump_on(s); break; }
      case 3: { dd::strand s = e.pool->get_strand(hash); st = co_await dd::jump_on(s); break; }
      case 4: { dd::any_executor_ref r = erased(*e.pool, hash + h); st = co_await dd::jump_on(r); break; }
      case 5: { dd::any_executor_ref r = erased(*e.w, hash + h); st = co_await dd::jump_on(r); break; }
      default: st = co_await dd::jump_on(e.pool->select_queue(hash)); break;
    }
    VM_CHECK(st.what == dd::schedule_errc::ok, "cancelled-while-running", "task %d hop %d got status %d from a running executor", id, h, (int)st.what);
    e.ok_resumes.add();
    p.expect(x, "after hop");
    VM_CHECK(o.get() == id, "argument-corrupted", "coroutine argument changed");
    e.check_thread(tgt);
  }
  for (int c = 0; c < children; c++) {
    auto pl = std::make_unique<payload>();
    pl->fill(child_first + c);
    leaf_job(e, child_first + c, e.pool ? 0 : 1, hash + c, std::move(pl), Obj(child_first + c));
  }
  after_run(e, id);
}

dd::job leaf_job(env12& e, int id, int target, size_t hash, std::unique_ptr<payload> p, Obj o) {
  (void)hash;
  dd::schedule_status st{};
  if (target == 0)
    st = co_await dd::jump_on(*e.pool);
  else
    st = co_await dd::jump_on(*e.w);
  VM_CHECK(st.what == dd::schedule_errc::ok, "cancelled-while-running", "child task %d got status %d", id, (int)st.what);
  e.ok_resumes.add();
  p->expect(id, "child");
  VM_CHECK(o.get() == id, "argument-corrupted", "coroutine argument changed");
  e.check_thread(target);
  after_run(e, id);
}

dd::job list_member(env12& e, int id, int target, std::vector<dd::task_node*>* nodes, std::unique_ptr<payload> p) {
  auto st = co_await park(nodes);
  VM_CHECK(st.what == dd::schedule_errc::ok, "cancelled-while-running", "list task %d got status %d", id, (int)st.what);
  e.ok_resumes.add();
  p->expect(id, "list");
  e.check_thread(target);
  after_run(e, id);
}

plan12 make_plan12(vm::Rng& r, bool big) {
  plan12 p;
  p.use_worker = r.chance(1, 2);
  p.use_pool = !p.use_worker || r.chance(4, 5);
  p.workers = r.range(1, 3);
  int nt = r.range(1, 3);
  p.threads.resize(nt);
  int id = 0;
  for (auto& t : p.threads) {
    int k = r.range(1, big ? 8 : 4);
    for (int i = 0; i < k; i++) {
      plan12::item it{};
      it.kind = r.below(5);
      it.target = p.use_pool && p.use_worker ? r.below(7) : p.use_pool ? std::array{0, 3, 4, 6}[r.below(4)] : std::array{1, 2, 5}[r.below(3)];
      if ((it.kind == 1 || it.kind == 2) && !p.use_pool) it.kind = 0;
      if (it.kind == 1 || it.kind == 2) it.target = 0;
      it.hops = r.range(1, 3);
      it.children = it.kind == 0 ? r.below(3) : it.kind == 4 ? r.range(1, 4) : 0;
      it.hash = r.below(5);
      it.id = id;
      id += it.kind == 4 ? it.children : 1 + it.children;
      t.push_back(it);
    }
  }
  p.total_units = id;
  return p;
}

void submit12(env12& e, const plan12::item& it, bool& used) {
  used = true;
  switch (it.kind) {
    case 0:
      hop_once(e, it.id, it.target, it.hash, it.hops, it.children, it.id + 1, Obj(it.id));
      break;
    case 1: case 2: case 3: {
      auto pl = std::make_shared<payload>();
      pl->fill(it.id);
      auto fn = [&e, it, pl, o = Obj(it.id)] {
        pl->expect(it.id, "scheduled function");
        VM_CHECK(o.get() == it.id, "argument-corrupted", "captured object changed");
        e.check_thread(it.target);
        after_run(e, it.id);
      };
      if (it.kind == 1) e.pool->schedule(std::move(fn));
      else if (it.kind == 2) e.pool->schedule(std::move(fn), it.hash);
      else with_target(e, it.target, it.hash, [&](auto& x) { dd::schedule_to(x, std::move(fn)); });
      // shared_ptr is released here by the submitter: its count is synchronised by itself
      break;
    }
    case 4: {
      std::vector<dd::task_node*> nodes;
      nodes.reserve(it.children);
      for (int c = 0; c < it.children; c++) {
        auto pl = std::make_unique<payload>();
        pl->fill(it.id + c);
        list_member(e, it.id + c, it.target, &nodes, std::move(pl));
      }
      VM_CHECK((int)nodes.size() == it.children, "job-did-not-run-to-first-suspension", "%zu of %d list members parked", nodes.size(), it.children);
      dd::task_node* top = chain(nodes);
      if (it.target == 6)
        e.pool->select_queue(it.hash).push_list(top);
      else if (it.target == 0)
        attach_list(*e.pool, top);
      else
        with_target(e, it.target, it.hash, [&](auto& x) { dd::attach_list(x, top); });
      break;
    }
  }
}

void run12(Ctx& cx, bool big) {
  plan12 p = make_plan12(cx.rng, big);
  env12 e;
  e.runs.resize(p.total_units);
  completion comp(p.total_units);
  e.comp = &comp;
  std::optional<dd::thread_pool> pool;
  std::optional<dd::worker> w;
  if (p.use_pool) pool.emplace(p.workers), e.pool = &*pool;
  if (p.use_worker) w.emplace(), e.w = &*w;
  if (e.pool) VM_CHECK((int)e.pool->workers_range().size() == p.workers && (int)e.pool->queues_range().size() == p.workers, "pool-size", "pool has %zu workers, %d requested", e.pool->workers_range().size(), p.workers);
  std::vector<std::thread> ts;
  for (auto& t : p.threads)
    ts.emplace_back([&] {
      bool used = false;
      for (auto& it : t) submit12(e, it, used);
    });
  for (auto& t : ts) t.join();
  comp.wait();
  // everything executed while the executors are still running: nothing may be left for the destructors
  for (int i = 0; i < p.total_units; i++) VM_CHECK(e.runs[i].get() == 1, "lost-task", "task %d executed %ld times", i, e.runs[i].get());
  cx.observe(p.total_units);
  cx.observations += e.ok_resumes.get();
  pool.reset();
  w.reset();
  for (int i = 0; i < p.total_units; i++) VM_CHECK(e.runs[i].get() == 1, "executed-twice", "task %d executed %ld times", i, e.runs[i].get());
  char b[120];
  snprintf(b, sizeof b, "%d workers%s, %zu submitters, %d units", p.use_pool ? p.workers : 0, p.use_worker ? "+1 single" : "", p.threads.size(), p.total_units);
  cx.describe = b;
}

MT_SCENARIO("C12,C25", "submit_mix", 5) { run12(cx, false); }
MT_SCENARIO("C12", "submit_burst", 1) { run12(cx, true); }

// idle/burst alternation: the worker must be woken each time it went to sleep
MT_SCENARIO("C12", "idle_wake", 3) {
  int rounds = cx.rng.range(2, 6), n = cx.rng.range(1, 3);
  dd::worker w;
  for (int r = 0; r < rounds; r++) {
    completion c(n);
    std::vector<payload> pl(n);
    for (int i = 0; i < n; i++) {
      pl[i].fill(r * 10 + i);
      dd::schedule_to(w, [&, i] {
        pl[i].expect(r * 10 + i, "idle_wake");
        VM_CHECK(std::this_thread::get_id() == w.get_id(), "wrong-thread", "task ran on another thread");
        c.one();
      });
    }
    c.wait();
    cx.observe(n);
  }
}

// =====================================================================================================
// C13
// =====================================================================================================
struct rec13 {
  vs::counter attempts, resumes, cancelled, finished;
  uint64_t submitted = 0;  // stamp after the first submission returned to the submitter
  bool first_cancelled = false;
};

struct env13 {
  dd::thread_pool* pool = nullptr;
  dd::worker* w = nullptr;
  std::vector<rec13> recs;
  vs::counter first_stop;  // stamp of the first initiated stop, 0 = none
  vs::counter over;        // destructor/wait returned: nobody may run any more
  vs::counter fn_runs, fn_alive;
  void stop_initiated() {
    // take the smallest
    if (first_stop.get() == 0) first_stop.set((long)vs::stamp());
  }
};

// what: 0 plain, 1 requests stop from inside, 2 submits scheduled functions from inside
dd::job stopper_task(env13& e, int id, int hops, int what, size_t hash, Obj o) {
  rec13& r = e.recs[id];
  for (int h = 0; h < hops; h++) {
    dd::schedule_status st{};
    r.attempts.add();
    if (e.pool) {
      switch ((id + h) % 3) {
        case 0: st = co_await dd::jump_on(*e.pool); break;
        case 1: st = co_await dd::jump_on(e.pool->select_queue(hash + h)); break;
        default: { dd::strand s = e.pool->get_strand(hash + 2 * h); st = co_await dd::jump_on(s); break; }
      }
    } else {
      if ((id + h) % 2) { dd::strand s(*e.w); st = co_await dd::jump_on(s); }
      else st = co_await dd::jump_on(*e.w);
    }
    r.resumes.add();
    VM_CHECK(!e.over.get(), "resumed-after-shutdown", "task %d resumed after the shutdown completed", id);
    VM_CHECK(r.resumes.get() == r.attempts.get(), "resumed-twice", "task %d: %ld resumes for %ld submissions", id, r.resumes.get(), r.attempts.get());
    VM_CHECK(o.get() == id, "argument-corrupted", "coroutine argument changed");
    VM_CHECK(st.what == dd::schedule_errc::ok || st.what == dd::schedule_errc::cancelled, "bad-status", "status %d", (int)st.what);
    if (!st) {
      r.cancelled.add();
      if (h == 0) r.first_cancelled = true;
      break;
    }
    if (what == 1 && h == 0 && e.pool) {
      e.stop_initiated();
      e.pool->request_stop();
    }
    if (what == 2 && e.pool) {
      e.fn_alive.add();
      struct guard {
        env13* e;
        explicit guard(env13* e) : e(e) {}
        guard(guard&& g) : e(std::exchange(g.e, nullptr)) {}
        ~guard() { if (e) e->fn_alive.add(-1); }
      };
      e.pool->schedule([&e, g = guard(&e), n = 0]() mutable {
        VM_CHECK(++n == 1, "executed-twice", "scheduled function invoked twice");
        VM_CHECK(!e.over.get(), "resumed-after-shutdown", "scheduled function ran after the shutdown completed");
        e.fn_runs.add();
      }, hash + h);
    }
  }
  r.finished.add();
}

void verify13(Ctx& cx, env13& e) {
  long canc = 0, ok = 0;
  for (size_t i = 0; i < e.recs.size(); i++) {
    auto& r = e.recs[i];
    VM_CHECK(r.finished.get() == 1, "lost-task", "task %zu: %ld submissions, %ld resumes, not finished after the shutdown completed", i, r.attempts.get(), r.resumes.get());
    VM_CHECK(r.resumes.get() == r.attempts.get(), "resumed-twice", "task %zu: %ld submissions but %ld resumes", i, r.attempts.get(), r.resumes.get());
    if (r.first_cancelled && r.submitted && (!e.first_stop.get() || r.submitted < (uint64_t)e.first_stop.get()))
      vs::fail("cancelled-before-stop", "task %zu submitted before any stop was initiated was cancelled", i);
    canc += r.cancelled.get();
    ok += r.resumes.get() - r.cancelled.get();
  }
  VM_CHECK(e.fn_alive.get() == 0, "scheduled-function-leak", "%ld scheduled functions not destroyed after the shutdown", e.fn_alive.get());
  cx.observe(canc);
  cx.observe(ok);
  cx.observations += ok + canc;
  char b[100];
  snprintf(b, sizeof b, "%zu tasks, %ld ok, %ld cancelled, %ld functions run", e.recs.size(), ok, canc, e.fn_runs.get());
  cx.describe = b;
}

MT_SCENARIO("C13", "pool_stop", 6) {
  auto& r = cx.rng;
  int workers = r.range(1, 3), nthreads = r.range(0, 2), own = r.range(0, 3);
  int mode = r.below(4);  // 0 destructor, 1 request_stop(s) then destructor, 2 request_stop + wait_stop, 3 as 2 with late submissions
  int nstop = mode == 0 ? 0 : r.range(1, 3);
  bool stop_from_tasks = r.chance(1, 4);
  struct st { int id, hops, what; size_t hash; };
  std::vector<std::vector<st>> plans(nthreads + 1);
  int id = 0;
  for (int t = 0; t <= nthreads; t++) {
    int k = t == 0 ? own : r.range(1, 4);
    for (int i = 0; i < k; i++)
      plans[t].push_back({id++, r.range(1, 3), stop_from_tasks && r.chance(1, 3) ? 1 : r.chance(1, 4) ? 2 : 0, (size_t)r.below(6)});
  }
  int late0 = id, nlate = mode == 3 ? r.range(1, 3) : 0;
  id += nlate;
  env13 e;
  e.recs.resize(id);
  bool sep_stop_thread = r.chance(1, 2);
  {
    std::optional<dd::thread_pool> pool;
    pool.emplace(workers);
    e.pool = &*pool;
    auto submit = [&](const st& s) {
      stopper_task(e, s.id, s.hops, s.what, s.hash, Obj(s.id));
      // only reached before the pool is destroyed; read back after all threads are joined
      e.recs[s.id].submitted = vs::stamp();
    };
    std::vector<std::thread> ts;
    for (int t = 1; t <= nthreads; t++)
      ts.emplace_back([&, t] { for (auto& s : plans[t]) submit(s); });
    for (auto& s : plans[0]) submit(s);
    bool join_first = r.chance(1, 2);
    if (join_first) for (auto& t : ts) t.join();
    if (mode != 0) {
      auto stop = [&] { e.stop_initiated(); e.pool->request_stop(); };
      std::vector<std::thread> ss;
      for (int i = 0; i < nstop; i++)
        if (sep_stop_thread) ss.emplace_back(stop);
        else stop();
      if (mode >= 2) {
        // at least one stop is requested before waiting
        if (sep_stop_thread) stop();
        std::move(*pool).wait_stop();
      }
      for (auto& s : ss) s.join();
      if (mode >= 2 && join_first)
        for (int i = 0; i < late0; i++)
          VM_CHECK(e.recs[i].finished.get() == 1, "lost-task", "task %d: %ld submissions, %ld resumes, not finished after the wait for the stop returned", i, e.recs[i].attempts.get(), e.recs[i].resumes.get());
      if (mode == 2 && join_first) e.over.set(1);
    }
    if (!join_first) for (auto& t : ts) t.join();
    for (int i = 0; i < nlate; i++) submit({late0 + i, 1, 0, (size_t)i});
    e.stop_initiated();
    pool.reset();
    e.over.set(1);
  }
  verify13(cx, e);
}

MT_SCENARIO("C13", "worker_stop", 3) {
  auto& r = cx.rng;
  int nthreads = r.range(0, 2), own = r.range(0, 3), id = 0;
  struct st { int id, hops; };
  std::vector<std::vector<st>> plans(nthreads + 1);
  for (int t = 0; t <= nthreads; t++) {
    int k = t == 0 ? own : r.range(1, 3);
    for (int i = 0; i < k; i++) plans[t].push_back({id++, r.range(1, 4)});
  }
  env13 e;
  e.recs.resize(id);
  {
    std::optional<dd::worker> w;
    w.emplace();
    e.w = &*w;
    auto submit = [&](const st& s) {
      stopper_task(e, s.id, s.hops, 0, 0, Obj(s.id));
      e.recs[s.id].submitted = vs::stamp();
    };
    std::vector<std::thread> ts;
    for (int t = 1; t <= nthreads; t++)
      ts.emplace_back([&, t] { for (auto& s : plans[t]) submit(s); });
    for (auto& s : plans[0]) submit(s);
    for (auto& t : ts) t.join();
    e.stop_initiated();
    w.reset();
    e.over.set(1);
  }
  verify13(cx, e);
}

// scheduled functions during shutdown: invoked at most once, destroyed exactly once
MT_SCENARIO("C13", "functions_stop", 2) {
  auto& r = cx.rng;
  int n = r.range(1, 6), workers = r.range(1, 2), mode = r.below(3);
  vs::counter runs, before_ok;
  std::vector<vs::counter> each(n);
  {
    dd::thread_pool pool(workers);
    int stop_at = mode == 0 ? n : r.below(n + 1);
    for (int i = 0; i < n; i++) {
      if (i == stop_at) pool.request_stop();
      auto fn = [&each, i, o = Obj(i)] { VM_CHECK(o.get() == i, "argument-corrupted", "capture changed"); each[i].add(); };
      if (r.chance(1, 2)) pool.schedule(std::move(fn), r.below(4));
      else dd::schedule_to(pool, std::move(fn));
    }
    if (mode == 2) { pool.request_stop(); std::move(pool).wait_stop(); }
    (void)stop_at;
    n = std::min(n, n);
    if (mode != 0) {
      // those before the stop request run, checked after the destructor
      before_ok.set(stop_at);
    } else
      before_ok.set(n);
  }
  for (int i = 0; i < n; i++) {
    VM_CHECK(each[i].get() <= 1, "executed-twice", "function %d invoked %ld times", i, each[i].get());
    if (i < before_ok.get()) VM_CHECK(each[i].get() == 1, "cancelled-before-stop", "function %d scheduled before any stop was not invoked", i);
    cx.observe(each[i].get());
  }
}

// =====================================================================================================
// C14
// =====================================================================================================
struct rec14 {
  int submitter, seq, strand;
  uint64_t begin = 0, end = 0;
  vs::counter start;  // position, 0 = not started
};
struct strand_state {
  // deliberately unsynchronised: only the strand's tasks touch it
  long sum = 0;
  int running = 0;
  bool have_tid = false;
  std::thread::id tid;
};

// 'inside': called in the middle of the task, e.g. submits further tasks to the same strand
template <typename F>
void enter14(strand_state& s, rec14& r, int id, F inside) {
  VM_CHECK(s.running == 0, "strand-overlap", "two tasks of one strand run at the same time");
  s.running = 1;
  s.sum += id;
  if (!s.have_tid) s.tid = std::this_thread::get_id(), s.have_tid = true;
  else VM_CHECK(s.tid == std::this_thread::get_id(), "strand-thread-changed", "tasks of one strand ran on different threads");
  VM_CHECK(r.start.get() == 0, "executed-twice", "task started twice");
  r.start.set((long)vs::stamp());
  inside();
  vs::point(vs::K_USER, &s);
  VM_CHECK(s.running == 1, "strand-overlap", "two tasks of one strand run at the same time");
  s.running = 0;
}

void enter14(strand_state& s, rec14& r, int id) {
  enter14(s, r, id, [] {});
}

template <typename E>
dd::job strand_coro(strand_state& s, rec14& r, int id, E& where, completion& c, int extra, dd::strand st) {
  auto ok = co_await dd::jump_on(where);
  VM_CHECK(!!ok, "cancelled-while-running", "strand task cancelled");
  enter14(s, r, id);
  for (int i = 0; i < extra; i++) {
    // later hops of the same coroutine on the strand: still exclusive
    (void)co_await dd::jump_on(st);
    VM_CHECK(s.running == 0, "strand-overlap", "two tasks of one strand run at the same time");
    s.running = 1;
    s.sum += 1;
    vs::point(vs::K_USER, &s);
    s.running = 0;
  }
  c.one();
}
dd::job strand_list_coro(strand_state& s, rec14& r, int id, std::vector<dd::task_node*>* nodes, completion& c) {
  auto ok = co_await park(nodes);
  VM_CHECK(!!ok, "cancelled-while-running", "strand task cancelled");
  enter14(s, r, id);
  c.one();
}

MT_SCENARIO("C14", "strand_order", 6) {
  auto& r = cx.rng;
  int nstr = r.range(1, 3), nthreads = r.range(1, 3);
  bool use_worker = r.chance(1, 2);
  int workers = r.range(1, 3);
  // kind 0 coroutine, 1 schedule_to fn, 2 list, 3 list via queue push_list, 4 pool.schedule(fn, hash)
  // 'direct': through the worker or the queue itself instead of a strand
  // nested: the first task of the step submits so many further tasks to its own strand while it is running
  struct step { int strand, kind, n, extra, nested; bool direct; };
  std::vector<std::vector<step>> plans(nthreads);
  int total = 0;
  for (auto& p : plans) {
    int k = r.range(1, 4);
    for (int i = 0; i < k; i++) {
      step s{r.below(nstr), r.below(5), 1, 0, 0, r.chance(1, 2)};
      if (s.kind == 2 || s.kind == 3) s.n = r.range(1, 4);
      if (s.kind == 0) s.extra = r.below(3);
      if ((s.kind == 1 || s.kind == 4) && r.chance(1, 2)) s.nested = r.range(1, 2);
      total += s.n + s.nested;
      p.push_back(s);
    }
  }
  std::vector<rec14> recs(total);
  std::vector<strand_state> state(nstr);
  std::vector<std::optional<dd::strand>> co_strands(total);
  completion c(total);
  {
    std::optional<dd::worker> w[3];
    std::optional<dd::thread_pool> pool;
    if (use_worker) for (int i = 0; i < nstr; i++) w[i].emplace();
    else pool.emplace(workers);
    auto get = [&](int i) { return use_worker ? dd::strand(*w[i]) : pool->get_strand((size_t)i); };
    // with fewer workers than strands several strands share one worker: the state is per worker slot then
    auto slot = [&](int i) {
      if (use_worker) return i;
      for (int k = 0; k < nstr; k++) if (&pool->select_queue((size_t)k) == &pool->select_queue((size_t)i)) return k;
      return i;
    };
    std::vector<std::thread> ts;
    int base = 0;
    for (int t = 0; t < nthreads; t++) {
      int first = base;
      for (auto& s : plans[t]) base += s.n + s.nested;
      ts.emplace_back([&, t, first] {
        int id = first, seq = 0;
        for (auto& s : plans[t]) {
          strand_state& S = state[slot(s.strand)];
          dd::strand st = get(s.strand);
          dd::strand copy = st;
          uint64_t b = vs::stamp();
          for (int i = 0; i < s.n; i++) recs[id + i].submitter = t, recs[id + i].seq = seq++, recs[id + i].strand = slot(s.strand), recs[id + i].begin = b;
          int id0 = id;
          int kind = s.kind;
          if (kind == 4 && use_worker) kind = 1;
          auto fn = [&, R = &recs[id], id, t, s] {
            enter14(S, *R, id, [&] {
              for (int k = 0; k < s.nested; k++) {
                int x = id + 1 + k;
                rec14& N = recs[x];
                N.submitter = 1000 + id, N.seq = k, N.strand = slot(s.strand), N.begin = vs::stamp();
                auto nested = [&S, &c, N = &N, x] { enter14(S, *N, x); c.one(); };
                if (!s.direct) { dd::strand st = get(s.strand); dd::schedule_to(st, nested); }
                else if (use_worker) dd::schedule_to(*w[s.strand], nested);
                else if (k) dd::schedule_to(pool->select_queue((size_t)s.strand), nested);
                else pool->schedule(nested, (size_t)s.strand);
                N.end = vs::stamp();
              }
            });
            c.one();
          };
          switch (kind) {
            case 0:
              if (!s.direct) { co_strands[id] = copy; strand_coro(S, recs[id], id, *co_strands[id], c, s.extra, copy); }
              else if (use_worker) strand_coro(S, recs[id], id, *w[s.strand], c, s.extra, copy);
              else strand_coro(S, recs[id], id, pool->select_queue((size_t)s.strand), c, s.extra, copy);
              break;
            case 1:
              if (!s.direct) dd::schedule_to(st, fn);
              else if (use_worker) dd::schedule_to(*w[s.strand], fn);
              else dd::schedule_to(pool->select_queue((size_t)s.strand), fn);
              break;
            case 4: pool->schedule(fn, (size_t)s.strand); break;
            default: {
              std::vector<dd::task_node*> nodes;
              nodes.reserve(s.n);
              for (int i = 0; i < s.n; i++) strand_list_coro(S, recs[id + i], id + i, &nodes, c);
              if (kind == 2) dd::attach_list(copy, chain(nodes));
              else st.get_queue().push_list(chain(nodes));
            }
          }
          uint64_t e = vs::stamp();
          for (int i = 0; i < s.n; i++) recs[id0 + i].end = e;
          id += s.n + s.nested;
        }
      });
    }
    for (auto& t : ts) t.join();
    c.wait();
  }
  // offline order check
  for (int a = 0; a < total; a++) {
    VM_CHECK(recs[a].start.get() != 0, "lost-task", "strand task %d never started", a);
    for (int b = 0; b < total; b++) {
      if (a == b || recs[a].strand != recs[b].strand) continue;
      bool before = (recs[a].submitter == recs[b].submitter && recs[a].seq < recs[b].seq) || recs[a].end < recs[b].begin;
      if (before && recs[a].start.get() > recs[b].start.get())
        vs::fail("strand-order", "task %d (thread %d #%d) was submitted before task %d (thread %d #%d) but started later", a, recs[a].submitter, recs[a].seq, b, recs[b].submitter, recs[b].seq);
      ++cx.observations;
    }
    cx.observe((uint64_t)recs[a].strand * 100 + recs[a].submitter);
  }
  char b[100];
  snprintf(b, sizeof b, "%d strands on %s, %d submitters, %d tasks", nstr, use_worker ? "workers" : "pool", nthreads, total);
  cx.describe = b;
}

// long single-queue streams: order must survive many refills of the queue
MT_SCENARIO("C14", "stream", 2) {
  auto& r = cx.rng;
  int nthreads = r.range(1, 2), per = r.range(3, 12);
  std::vector<std::vector<int>> seen(nthreads);
  completion c(nthreads * per);
  std::vector<int> order, next(nthreads, 0);  // unsynchronised on purpose
  order.reserve(nthreads * per);
  {
    dd::worker w;
    std::vector<std::thread> ts;
    for (int t = 0; t < nthreads; t++)
      ts.emplace_back([&, t] {
        for (int i = 0; i < per; i++)
          dd::schedule_to(w, [&, t, i] { order.push_back(t * 1000 + i); c.one(); });
      });
    for (auto& t : ts) t.join();
    if (r.chance(1, 2)) c.wait();
    // the worker is idle now, but only its destruction orders its writes before our reads
    dd::schedule_to(w, [&] {
      for (int x : order) {
        VM_CHECK(next[x / 1000] == x % 1000, "strand-order", "submitter %d: expected its task %d next, got %d", x / 1000, next[x / 1000], x % 1000);
        next[x / 1000]++;
      }
    });
  }
  cx.observe(nthreads * 100 + per);
  cx.observations += nthreads * per;
}

// =====================================================================================================
// C15
// =====================================================================================================
MT_SCENARIO("C15", "construction_faults", 4) {
  auto& r = cx.rng;
  int n = r.range(1, 5);
  log_resource res;
  bool custom = r.chance(2, 3);
  std::pmr::memory_resource& mr = custom ? (std::pmr::memory_resource&)res : *std::pmr::new_delete_resource();
#ifdef VS_CONTROLLED
  int what = r.below(3);
#else
  int what = custom ? 1 : 2;
#endif
  bool must_throw = false;
  if (what == 0) { vs::fail_thread_creation(r.range(1, n)); must_throw = true; }
  if (what == 1 && custom) { res.fail_at.set(r.range(1, 2)); must_throw = true; }
  bool threw = false;
  try {
    dd::thread_pool pool(n, dd::default_worker_job, mr);
    VM_CHECK(&pool.get_resource() == &mr, "pool-resource", "pool reports another memory resource than the one it was given");
    if (r.chance(1, 2)) {
      vs::counter c;
      pool.schedule([&c] { c.add(); }, 0);
    }
  } catch (const std::system_error&) {
    threw = true;
    VM_CHECK(what == 0, "wrong-exception", "system_error without a thread creation failure");
  } catch (const std::bad_alloc&) {
    threw = true;
    VM_CHECK(what == 1, "wrong-exception", "bad_alloc without an allocation failure");
  }
  vs::fail_thread_creation(0);
  VM_CHECK(threw == must_throw, threw ? "unexpected-exception" : "failure-swallowed", "construction of %d threads with fault kind %d: threw=%d", n, what, (int)threw);
  VM_CHECK(res.live.get() == 0, "resource-leak", "%ld blocks not returned to the pool's resource", res.live.get());
  if (custom && !must_throw) VM_CHECK(res.total.get() > 0, "resource-unused", "pool took no memory from its resource");
  cx.observe(what * 10 + n + (custom ? 100 : 0));
  cx.observations += res.total.get() + 1;
  char b[100];
  snprintf(b, sizeof b, "%d threads, fault kind %d, %s resource, %ld blocks", n, what, custom ? "custom" : "default", res.total.get());
  cx.describe = b;
  // all threads are gone: checked by the end of the case (a thread left behind would block it)
}

MT_SCENARIO("C15", "resource_accounting", 4) {
  auto& r = cx.rng;
  int n = r.range(1, 3), tasks = r.range(0, 6), mode = r.below(3);
  log_resource res;
  vs::counter ran;
  long expect_min = 0;
  long before_global = 0, after_global = 0;
  {
    dd::thread_pool pool(n, dd::default_worker_job, res);
    VM_CHECK(&pool.get_resource() == &res, "pool-resource", "pool reports another memory resource than the one it was given");
    long t0 = res.total.get();
    VM_CHECK(t0 >= 2, "resource-unused", "queues and threads are not from the given resource (%ld blocks)", t0);
    for (int i = 0; i < tasks; i++) {
      if (mode == 1 && i == tasks / 2) pool.request_stop();
      before_global = vs::total_allocs();
      long t1 = res.total.get();
      if (r.chance(1, 2)) pool.schedule([&ran] { ran.add(); }, r.below(5));
      else pool.schedule([&ran, o = Obj(i)] { ran.add(o.get() >= 0); });
      VM_CHECK(res.total.get() >= t1 + 1, "resource-unused", "scheduled function did not take its memory from the pool's resource");
      after_global = vs::total_allocs();
      (void)after_global;
      expect_min++;
    }
    if (mode == 2) { pool.request_stop(); std::move(pool).wait_stop(); }
  }
  (void)before_global;
  VM_CHECK(res.live.get() == 0, "resource-leak", "%ld blocks (%ld bytes) not returned to the pool's resource", res.live.get(), res.bytes.get());
  VM_CHECK(res.total.get() >= 2 + expect_min, "resource-unused", "only %ld blocks taken from the resource for %ld functions", res.total.get(), expect_min);
  cx.observe(res.total.get());
  cx.observe(ran.get());
  cx.observations += res.total.get();
}

// schedule() when the pool's resource fails: exception, nothing left behind, the pool keeps working
MT_SCENARIO("C15", "schedule_alloc_failure", 2) {
  auto& r = cx.rng;
  int n = r.range(1, 2), tasks = r.range(1, 4), bad = r.below(4);
  log_resource res;
  vs::counter ran;
  int ok = 0;
  {
    dd::thread_pool pool(n, dd::default_worker_job, res);
    for (int i = 0; i < tasks; i++) {
      if (i == bad) res.fail_at.set(1);
      bool threw = false;
      try {
        pool.schedule([&ran, o = Obj(i)] { ran.add(); }, i);
        ok++;
      } catch (const std::bad_alloc&) { threw = true; }
      VM_CHECK(threw == (i == bad), threw ? "unexpected-exception" : "failure-swallowed", "schedule %d: threw=%d", i, (int)threw);
      res.fail_at.set(0);
    }
  }
  VM_CHECK(ran.get() == ok, "lost-task", "%ld functions ran, %d scheduled", ran.get(), ok);
  VM_CHECK(res.live.get() == 0, "resource-leak", "%ld blocks left", res.live.get());
  cx.observe(tasks * 10 + bad);
}

// =====================================================================================================
// C25
// =====================================================================================================
struct env25 {
  dd::thread_pool* pool;
  dd::worker* w;
  completion* c;
};
enum { X_THIS, X_NEW, X_POOL, X_WORKER, X_STRAND, X_QUEUE, X_ANY_THIS, X_ANY_NEW, X_ANY_POOL, X_ANY_WORKER, X_ANY_STRAND, X_COUNT };

dd::job hops25(env25& e, std::vector<int> path, int id, Obj o) {
  payload p;
  std::vector<int> local;
  int step = 0;
  for (int x : path) {
    p.fill(id * 1000 + step);
    local.push_back(step);
    auto before = std::this_thread::get_id();
    dd::schedule_status st{dd::schedule_errc::timed_out};
    dd::this_thread_executor_t te;
    dd::new_thread_executor_t ne;
    dd::strand s(*e.w);
    switch (x) {
      case X_THIS: st = co_await dd::jump_on(te); break;
      case X_NEW: st = co_await dd::jump_on(ne); break;
      case X_POOL: st = co_await dd::jump_on(*e.pool); break;
      case X_WORKER: st = co_await dd::jump_on(*e.w); break;
      case X_STRAND: st = co_await dd::jump_on(s); break;
      case X_QUEUE: st = co_await dd::jump_on(e.pool->select_queue((size_t)id)); break;
      case X_ANY_THIS: { dd::any_executor_ref r = erased(te, id + step); st = co_await dd::jump_on(r); break; }
      case X_ANY_NEW: { dd::any_executor_ref r = erased(ne, id + step); st = co_await dd::jump_on(r); break; }
      case X_ANY_POOL: { dd::any_executor_ref r = erased(*e.pool, id + step); st = co_await dd::jump_on(r); break; }
      case X_ANY_WORKER: { dd::any_executor_ref r = erased(*e.w, id + step); st = co_await dd::jump_on(r); break; }
      case X_ANY_STRAND: { dd::any_executor_ref r = erased(s, id + step); st = co_await dd::jump_on(r); break; }
    }
    auto now = std::this_thread::get_id();
    VM_CHECK(st.what == dd::schedule_errc::ok, "hop-status", "hop kind %d returned status %d", x, (int)st.what);
    p.expect(id * 1000 + step, "after hop");
    VM_CHECK((int)local.size() == step + 1 && local.back() == step, "hop-count", "coroutine state after hop %d is inconsistent", step);
    VM_CHECK(o.get() == id, "argument-corrupted", "argument changed");
    bool isw = now == e.w->get_id(), isp = e.pool->is_worker(now);
    switch (x) {
      case X_THIS: case X_ANY_THIS: VM_CHECK(now == before, "wrong-thread", "inline executor changed the thread"); break;
      case X_NEW: case X_ANY_NEW: VM_CHECK(now != before && !isw && !isp, "wrong-thread", "new thread executor continued on an existing thread"); break;
      case X_POOL: case X_QUEUE: case X_ANY_POOL: VM_CHECK(isp, "wrong-thread", "pool hop continued outside of the pool"); break;
      default: VM_CHECK(isw, "wrong-thread", "worker hop continued outside of the worker"); break;
    }
    step++;
  }
  VM_CHECK(step == (int)path.size(), "hop-count", "wrong number of hops");
  e.c->one();
}

MT_SCENARIO("C25", "hop_chains", 6) {
  auto& r = cx.rng;
  int n = r.range(1, 3);
  completion c(n);
  {
    dd::thread_pool pool(r.range(1, 2));
    dd::worker w;
    env25 e{&pool, &w, &c};
    int news = 0;
    for (int i = 0; i < n; i++) {
      std::vector<int> path;
      int len = r.range(1, 6);
      for (int k = 0; k < len; k++) {
        int x = r.below(X_COUNT);
        if ((x == X_NEW || x == X_ANY_NEW) && ++news > 4) x = X_POOL;
        path.push_back(x);
        cx.observe(x);
      }
      hops25(e, path, i, Obj(i));
    }
    c.wait();
  }
}

struct counting_executor {
  std::vector<dd::task_node*> got;
  void attach(dd::task_node* n) { got.push_back(n); }
};

// lists: every element is submitted once, in order, also when the executor resumes it inline (the node dies)
SEQ_SCENARIO("C25", "attach_list_inline", 1) {
  auto& r = cx.rng;
  int n = r.range(0, 6);
  std::vector<dd::task_node*> nodes;
  nodes.reserve(n);
  std::vector<int> order;
  auto mk = [](std::vector<dd::task_node*>* nodes, std::vector<int>* order, int i, Obj o) -> dd::job {
    (void)co_await park(nodes);
    order->push_back(o.get() + i - i);
  };
  for (int i = 0; i < n; i++) mk(&nodes, &order, i, Obj(i));
  dd::task_node* top = chain(nodes);
  int how = r.below(3);
  std::vector<int> want;
  for (int i = 0; i < n; i++) want.push_back(i);
  if (how == 2) {
    top = dd::reverse_list(top);
    std::reverse(want.begin(), want.end());
  }
  if (how == 0) {
    counting_executor ce;
    dd::attach_list(ce, top);
    VM_CHECK(ce.got == nodes, "list-submission", "attach_list submitted %zu of %d nodes or in another order", ce.got.size(), n);
    for (auto* x : ce.got) x->task.resume();
  } else {
    dd::this_thread_executor_t t;
    if (r.chance(1, 2)) { dd::any_executor_ref a = erased(t, r.below(3)); dd::attach_list(a, top); }
    else dd::attach_list(t, top);
  }
  VM_CHECK(order == want, "list-submission", "list of %d: %zu executed or order differs", n, order.size());
  cx.observe(n * 3 + how);
  cx.nontrivial = n > 1;
}

// =====================================================================================================
// C26
// =====================================================================================================
struct frame_mark {
  vs::counter* alive;
  explicit frame_mark(vs::counter& c) : alive(&c) { c.add(); }
  frame_mark(frame_mark&& o) : alive(o.alive) { alive->add(); }
  frame_mark(const frame_mark& o) : alive(o.alive) { alive->add(); }
  ~frame_mark() { alive->add(-1); }
};

struct env26 {
  dd::thread_pool* pool;
  dd::worker* w;
  completion* c;
  vs::counter alive, progress;
};

dd::job faf(env26& e, int id, int hops, int ending, frame_mark arg, Obj o, std::coroutine_handle<> next) {
  e.progress.add();
  frame_mark local(e.alive);
  payload p;
  for (int h = 0; h < hops; h++) {
    p.fill(id + h);
    if ((id + h) % 3 == 0) (void)co_await dd::jump_on(*e.w);
    else (void)co_await dd::jump_on(*e.pool);
    p.expect(id + h, "job");
    VM_CHECK(o.get() == id, "argument-corrupted", "argument changed");
  }
  e.c->one();
  switch (ending) {
    case 0: co_return;
    case 1: co_await dd::this_coro::destroy;
      vs::fail("continued-after-destroy", "coroutine continued after destroying itself"); 
    case 2: co_await dd::this_coro::destroy_and_transfer_control_to(next);
      vs::fail("continued-after-destroy", "coroutine continued after destroying itself");
    case 3: {
      co_await dd::this_coro::destroy_and_transfer_control_to(std::coroutine_handle<>(nullptr));
      vs::fail("continued-after-destroy", "coroutine continued after destroying itself");
    }
  }
}

dd::job receiver(env26& e, int id, int times, frame_mark arg, std::coroutine_handle<>* out) {
  frame_mark local(e.alive);
  struct aw {
    std::coroutine_handle<>* out;
    bool await_ready() { return false; }
    void await_suspend(std::coroutine_handle<> h) { *out = h; }
    void await_resume() {}
  };
  co_await aw{out};
  e.progress.add(1000);
  e.c->one();
  (void)id; (void)times;
}

MT_SCENARIO("C26", "fire_and_forget", 6) {
  auto& r = cx.rng;
  int n = r.range(1, 4);
  int extra = 0;
  std::vector<int> ending(n), hops(n);
  for (int i = 0; i < n; i++) {
    ending[i] = r.below(4);
    hops[i] = r.range(0, 3);
    if (ending[i] == 2) extra++;
    cx.observe(ending[i] * 10 + hops[i]);
  }
  completion c(n + extra);
  std::vector<std::coroutine_handle<>> hs(n);
  env26 e{};
  {
    dd::thread_pool pool(r.range(1, 2));
    dd::worker w;
    e.pool = &pool;
    e.w = &w;
    e.c = &c;
    for (int i = 0; i < n; i++) {
      if (ending[i] == 2) {
        receiver(e, i, 1, frame_mark(e.alive), &hs[i]);
        VM_CHECK(!!hs[i], "job-did-not-run-to-first-suspension", "job did not run in its caller");
      }
      long before = e.progress.get() % 1000;
      faf(e, i, hops[i], ending[i], frame_mark(e.alive), Obj(i), hs[i]);
      VM_CHECK(e.progress.get() % 1000 == before + 1, "job-did-not-run-to-first-suspension", "job did not start in its caller");
    }
    c.wait();
  }
  // the executors are stopped and joined: everything must be gone
  VM_CHECK(e.alive.get() == 0, "frame-leak", "%ld arguments/locals of finished coroutines alive", e.alive.get());
}

// schedule_to with every executor kind and with a memory resource
MT_SCENARIO("C26", "schedule_to", 4) {
  auto& r = cx.rng;
  int n = r.range(1, 5);
  std::vector<vs::counter> runs(n);
  vs::counter alive;
  log_resource res;
  int nres = 0;
  {
    completion c(n);
    dd::thread_pool pool(r.range(1, 2));
    dd::worker w;
    int news = 0;
    for (int i = 0; i < n; i++) {
      int x = r.below(8);
      if (x == 1 && ++news > 2) x = 2;
      auto fn = [&runs, &c, i, m = frame_mark(alive), o = Obj(i)] {
        VM_CHECK(o.get() == i, "argument-corrupted", "capture changed");
        runs[i].add();
        c.one();
      };
      dd::this_thread_executor_t te;
      dd::new_thread_executor_t ne;
      dd::strand s(w);
      cx.observe(x);
      switch (x) {
        case 0: dd::schedule_to(te, std::move(fn)); VM_CHECK(runs[i].get() == 1, "inline-not-executed", "inline executor did not run the function at once"); break;
        // the executor object must stay alive as long as the hop uses it: static ones are stateless
        case 1: dd::schedule_to(ne, std::move(fn)); break;
        case 2: dd::schedule_to(pool, std::move(fn)); break;
        case 3: dd::schedule_to(w, std::move(fn)); break;
        case 4: dd::schedule_to(s, std::move(fn)); break;
        case 5: dd::schedule_to(pool, std::move(fn), dd::with_pmr_resource{res}); nres++; break;
        case 6: dd::schedule_to(w, std::move(fn), dd::with_resource<dd::new_delete_resource>{}); break;
        case 7: pool.schedule(std::move(fn)); break;
      }
    }
    c.wait();
  }
  for (int i = 0; i < n; i++) VM_CHECK(runs[i].get() == 1, "executed-twice", "function %d invoked %ld times", i, runs[i].get());
  VM_CHECK(res.live.get() == 0 && res.total.get() == nres, "resource-leak", "%ld blocks alive, %ld taken, %d expected", res.live.get(), res.total.get(), nres);
  (void)alive;
  // a detached new thread may still be about to destroy its frame in native mode: frames are checked at the
  // end of the case by the object and block accounting
}

// functions scheduled in every way, some of them cancelled because their executor is being stopped
MT_SCENARIO("C26,C13,C15", "cancelled_functions", 2) {
  auto& r = cx.rng;
  int n = r.range(1, 5);
  vs::counter alive;
  std::vector<vs::counter> runs(n);
  int first_cancelled = r.below(n + 1);
  bool wait = r.chance(1, 3);
  log_resource res, own;
  {
    dd::thread_pool pool(1, dd::default_worker_job, res);
    for (int i = 0; i < n; i++) {
      if (i == first_cancelled) pool.request_stop();
      auto fn = [&runs, i, m = frame_mark(alive), o = Obj(i)] { runs[i].add(); VM_CHECK(o.get() == i, "argument-corrupted", "capture"); };
      int x = r.below(6);
      cx.observe(x);
      switch (x) {
        case 0: dd::schedule_to(pool, std::move(fn)); break;
        case 1: pool.schedule(std::move(fn)); break;
        case 2: pool.schedule(fn, (size_t)i); break;
        case 3: dd::schedule_to(pool, std::move(fn), dd::with_pmr_resource{own}); break;
        case 4: { dd::task_queue& q = pool.select_queue((size_t)i); dd::schedule_to(q, std::move(fn)); break; }
        case 5: { dd::task_queue& q = pool.select_queue((size_t)i); dd::schedule_to(q, std::move(fn), dd::with_resource<dd::new_delete_resource>{}); break; }
      }
    }
    if (first_cancelled < n && wait) std::move(pool).wait_stop();
  }
  for (int i = 0; i < n; i++) VM_CHECK(runs[i].get() == (i < first_cancelled ? 1 : 0), "cancelled-function-invoked", "function %d invoked %ld times, %d is the first after the stop", i, runs[i].get(), first_cancelled);
  VM_CHECK(alive.get() == 0, "frame-leak", "%ld captured objects alive", alive.get());
  VM_CHECK(res.live.get() == 0 && own.live.get() == 0, "resource-leak", "%ld blocks of the pool resource, %ld of the passed resource not returned", res.live.get(), own.live.get());
  cx.observe(n * 10 + first_cancelled);
}

}  // namespace

VM_MAIN
