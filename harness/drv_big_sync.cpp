// C12-C17, C23, C25 at scale: many workers, tasks, waiters, nodes; long lists; big counts and inputs
#include "vbig.hpp"
#include "kelcoro/kelcoro.hpp"

using vm::big;
using vm::completion;
using vm::Ctx;
using vm::logsize;
using vm::widesize;
using vm::Obj;
using vm::Pod;
using vm::Rng;
using vm::Val;

namespace {

struct park : dd::task_node {
  std::vector<dd::task_node*>* where;
  explicit park(std::vector<dd::task_node*>* w) : where(w) {}
  bool await_ready() { return false; }
  void await_suspend(std::coroutine_handle<> h) {
    task = h;
    where->push_back(this);
  }
  dd::schedule_status await_resume() { return {status}; }
};
dd::task_node* chain(std::vector<dd::task_node*>& v) {
  for (size_t i = 0; i + 1 < v.size(); i++) v[i]->next = v[i + 1];
  if (v.empty()) return nullptr;
  v.back()->next = nullptr;
  return v.front();
}
void join_all(std::vector<std::thread>& ts) {
  for (auto& t : ts) t.join();
}

// a worker function of the user, as its documentation describes it
void user_worker_job(dd::task_queue& q) {
  bool stop = false;
  while (!stop) {
    dd::task_node* top = q.pop_all_not_empty();
    VM_CHECK(top != nullptr, "empty-list", "pop_all_not_empty returns nothing");
    while (top) {
      dd::task_node* next = top->next;
      if (top->is_deadpill()) stop = true;
      else {
        if (stop) top->status = dd::schedule_errc::cancelled;
        top->task.resume();
      }
      top = next;
    }
  }
}

// =====================================================================================================
// C12
// =====================================================================================================
struct Units {
  std::vector<vs::counter> runs;
  std::vector<int> data;  // written by the submitter
  completion comp;
  dd::thread_pool* pool = nullptr;
  dd::worker* w = nullptr;
  vs::counter not_ok;
  explicit Units(int n) : runs(n), data(n, 0), comp(n) {}
  void run(int id, bool on_worker) {
    VM_CHECK(data[id] == id * 3 + 1, "stale-payload", "task %d does not see what its submitter wrote (%d)", id, data[id]);
    bool there = on_worker ? w->get_id() == std::this_thread::get_id() : pool->is_worker();
    VM_CHECK(there, "wrong-thread", "task %d runs on a thread that does not belong to its executor", id);
    runs[id].add();
    VM_CHECK(runs[id].get() == 1, "executed-twice", "task %d executed %ld times", id, runs[id].get());
    comp.one();
  }
};

void submit(Units& u, int first, int n, Rng r, int depth);

dd::job hopper(Units& u, int id, int hops, bool on_worker, size_t hash, Obj o) {
  for (int i = 0; i < hops; i++) {
    dd::schedule_status st{dd::schedule_errc::timed_out};
    if (on_worker) {
      if (i & 1) { dd::strand s(*u.w); st = co_await dd::jump_on(s); }
      else st = co_await dd::jump_on(*u.w);
    } else if (i % 3 == 1) { dd::strand s = u.pool->get_strand(hash + (size_t)i); st = co_await dd::jump_on(s); }
    else if (i % 3 == 2) { dd::any_executor_ref e(*u.pool); st = co_await dd::jump_on(e); }
    else st = co_await dd::jump_on(*u.pool);
    VM_CHECK(st.what == dd::schedule_errc::ok, "cancelled-while-running", "task %d got status %d from a running executor", id, (int)st.what);
  }
  VM_CHECK(o.get() == id, "argument-corrupted", "argument of task %d", id);
  u.run(id, on_worker);
}
dd::job member(Units& u, int id, bool on_worker, std::vector<dd::task_node*>* nodes, Obj o) {
  auto st = co_await park(nodes);
  VM_CHECK(st.what == dd::schedule_errc::ok, "cancelled-while-running", "task %d of a list got status %d", id, (int)st.what);
  VM_CHECK(o.get() == id, "argument-corrupted", "argument of task %d", id);
  u.run(id, on_worker);
}
// submits tasks [first, first+n)
void submit(Units& u, int first, int n, Rng r, int depth) {
  while (n > 0) {
    bool on_worker = !u.pool || (u.w && r.chance(1, 4));
    size_t hash = r.chance(1, 2) ? (size_t)r.next() : (size_t)r.below(20);
    int k = r.below(8);
    if (k < 2) {
      u.data[first] = first * 3 + 1;
      hopper(u, first, k == 0 ? 1 : r.range(1, 6), on_worker, hash, Obj(first));
      first++, n--;
    } else if (k < 5) {
      u.data[first] = first * 3 + 1;
      auto fn = [&u, id = first, on_worker, o = Obj(first)] {
        VM_CHECK(o.get() == id, "argument-corrupted", "captured object of task %d", id);
        u.run(id, on_worker);
      };
      if (on_worker) dd::schedule_to(*u.w, std::move(fn));
      else if (k == 2) u.pool->schedule(std::move(fn));
      else if (k == 3) u.pool->schedule(std::move(fn), hash);
      else { dd::strand s = u.pool->get_strand(hash); dd::schedule_to(s, std::move(fn)); }
      first++, n--;
    } else if (k < 7) {
      int m = logsize(r, 1, std::min(n, 40000));
      std::vector<dd::task_node*> nodes;
      for (int i = 0; i < m; i++) {
        u.data[first + i] = (first + i) * 3 + 1;
        member(u, first + i, on_worker, &nodes, Obj(first + i));
      }
      VM_CHECK((int)nodes.size() == m, "job-did-not-run-to-first-suspension", "%zu of %d list members parked", nodes.size(), m);
      dd::task_node* top = chain(nodes);
      if (on_worker) {
        if (r.chance(1, 2)) dd::attach_list(*u.w, top);
        else dd::strand(*u.w).get_queue().push_list(top);
      } else if (r.chance(1, 3)) dd::attach_list(*u.pool, top);
      else if (r.chance(1, 2)) u.pool->select_queue(hash).push_list(top);
      else { dd::any_executor_ref e(*u.pool); dd::attach_list(e, top); }
      first += m, n -= m;
    } else if (depth > 0 && n > 2) {
      // a task that submits others
      int m = logsize(r, 2, n);
      u.data[first] = first * 3 + 1;
      auto fn = [&u, id = first, m, on_worker, seed = r.next(), depth] {
        submit(u, id + 1, m - 1, Rng(seed), depth - 1);
        u.run(id, on_worker);
      };
      if (on_worker) dd::schedule_to(*u.w, std::move(fn));
      else u.pool->schedule(std::move(fn));
      first += m, n -= m;
    }
  }
}
void big_submit(Ctx& cx, dd::worker::job_t job) {
  Rng& r = cx.rng;
  int rounds = r.range(1, 3);
  int workers = big(0, 1) && r.chance(1, 40) ? r.range(250, 300) : r.range(1, big(9, 12));
  bool use_w = r.chance(1, 2), use_p = !use_w || r.chance(3, 4);
  std::optional<dd::thread_pool> pool;
  std::optional<dd::worker> w;
  if (use_p) pool.emplace((size_t)workers, job);
  if (use_w) w.emplace(job);
  long all = 0;
  for (int k = 0; k < rounds; k++) {
    int n = widesize(r, 4, big(150, 8000), big(0, 1));
    Units u(n);
    u.pool = use_p ? &*pool : nullptr;
    u.w = use_w ? &*w : nullptr;
    int nt = std::min(n, r.range(1, 4));
    std::vector<std::thread> ts;
    for (int t = 0; t < nt; t++) {
      int a = (int)((long)n * t / nt), b = (int)((long)n * (t + 1) / nt);
      ts.emplace_back([&u, a, b, seed = r.next()] { submit(u, a, b - a, Rng(seed), 4); });
    }
    join_all(ts);
    u.comp.wait();
    for (int i = 0; i < n; i++) VM_CHECK(u.runs[i].get() == 1, "lost-task", "task %d executed %ld times", i, u.runs[i].get());
    all += n;
    cx.observe(n);
  }
  if (pool) VM_CHECK((int)pool->workers_range().size() == workers && (int)pool->queues_range().size() == workers, "pool-size", "%zu workers of %d", pool->workers_range().size(), workers);
  cx.observe(workers * 4 + use_p * 2 + use_w);
  cx.observations += all;
  cx.nontrivial = true;
  cx.describe = std::to_string(use_p ? workers : 0) + " pool workers" + (use_w ? " and a worker" : "") + ", " + std::to_string(all) + " tasks in " + std::to_string(rounds) + " rounds";
}
MT_SCENARIO("C12", "big_submit", 3) { big_submit(cx, dd::default_worker_job); }
MT_SCENARIO("C12", "user_worker_job", 1) { big_submit(cx, user_worker_job); }

// a task queue of its own as an executor
void own_queue(Ctx& cx, bool want_order) {
  Rng& r = cx.rng;
  dd::task_queue q;
  int n = widesize(r, 1, big(60, 3000), big(0, 1)), nt = r.range(1, 3), nc = want_order ? 1 : r.range(1, 2);
  std::vector<vs::counter> runs(n);
  std::vector<int> data(n), last((size_t)nt, -1);
  vs::counter left;
  left.set(n);
  completion comp(n);
  std::vector<std::thread> ts, cs;
  q.push_list(nullptr);
  VM_CHECK(q.pop_all() == nullptr, "queue-not-empty", "an empty list was pushed");
  bool lists = r.chance(1, 2), ordered = want_order;
  int per = r.range(1, 5);
  struct Own {
    dd::task_queue& q;
    std::vector<vs::counter>& runs;
    std::vector<int>&data, &last;
    completion& c;
    bool ordered;
    int nt;
    void run(int i, dd::schedule_status st, Obj& o) {
      VM_CHECK((bool)st, "cancelled-while-running", "task %d of an own queue is cancelled", i);
      VM_CHECK(o.get() == i && data[i] == i + 5, "stale-payload", "task %d", i);
      runs[i].add();
      VM_CHECK(runs[i].get() == 1, "executed-twice", "task %d", i);
      if (ordered) {
        VM_CHECK(last[(size_t)(i % nt)] < i, "order", "task %d of submitter %d runs after task %d", i, i % nt, last[(size_t)(i % nt)]);
        last[(size_t)(i % nt)] = i;
      }
      c.one();
    }
  } own{q, runs, data, last, comp, ordered, nt};
  for (int t = 0; t < nt; t++)
    ts.emplace_back([&, t] {
      std::vector<dd::task_node*> group;
      auto flush = [&] {
        dd::task_node* top = chain(group);
        dd::task_node* end = top ? group.back() : nullptr;
        bool know_end = top && group.size() % 2;
        group.clear();
        if (know_end) q.push_list(top, end);
        else q.push_list(top);
      };
      for (int i = t; i < n; i += nt) {
        data[i] = i + 5;
        if (lists && i % 4 != 3) {
          [](Own& w, std::vector<dd::task_node*>* g, int i, Obj o) -> dd::job {
            auto st = co_await park(g);
            w.run(i, st, o);
          }(own, &group, i, Obj(i));
          if ((int)group.size() == per) flush();
          continue;
        }
        flush();
        [](Own& w, int i, Obj o) -> dd::job {
          auto st = co_await dd::jump_on(w.q);
          w.run(i, st, o);
        }(own, i, Obj(i));
      }
      flush();
    });
  bool blocking = nc == 1;
  std::vector<dd::task_node*> order;
  for (int k = 0; k < nc; k++)
    cs.emplace_back([&] {
      while (left.get() > 0) {
        dd::task_node* top = blocking ? q.pop_all_not_empty() : q.pop_all();
        if (!top) { std::this_thread::yield(); continue; }
        while (top) {
          dd::task_node* next = top->next;
          top->task.resume();
          left.add(-1);
          top = next;
        }
      }
    });
  join_all(ts);
  comp.wait();
  join_all(cs);
  VM_CHECK(q.pop_all() == nullptr, "queue-not-empty", "tasks left");
  for (int i = 0; i < n; i++) VM_CHECK(runs[i].get() == 1, "lost-task", "task %d executed %ld times", i, runs[i].get());
  cx.observe(n * 16 + nt * 4 + nc);
  cx.observations += n;
}
MT_SCENARIO("C12", "own_queue", 1) { own_queue(cx, false); }
MT_SCENARIO("C14", "own_queue_order", 1) { own_queue(cx, true); }

// =====================================================================================================
// C13
// =====================================================================================================
struct Stop13 {
  std::vector<vs::counter> resumed, ok;
  std::vector<uint64_t> submitted;  // stamp after the submission, 0: not submitted before the stop
  vs::counter over, functions;
  uint64_t stop_at = 0;
  explicit Stop13(int n) : resumed(n), ok(n), submitted(n) {}
  void done(int id, bool k) {
    resumed[id].add();
    if (k) ok[id].add();
    VM_CHECK(resumed[id].get() == 1, "resumed-twice", "task %d resumed %ld times", id, resumed[id].get());
    VM_CHECK(over.get() == 0, "resumed-after-stop", "task %d resumed after the stop was complete", id);
  }
};
template <typename E>
dd::job stop_task(Stop13& s, E& e, int id, int more, int first_child, Obj o) {
  auto st = co_await dd::jump_on(e);
  VM_CHECK(o.get() == id, "argument-corrupted", "argument of task %d", id);
  if (st)
    for (int i = 0; i < more; i++) stop_task(s, e, first_child + i, 0, 0, Obj(first_child + i));
  else
    for (int i = 0; i < more; i++) s.resumed[first_child + i].add();  // never submitted
  s.done(id, (bool)st);
}
dd::job stop_member(Stop13& s, int id, std::vector<dd::task_node*>* nodes) {
  auto st = co_await park(nodes);
  s.done(id, (bool)st);
}
struct Big {
  char c[3000];
};
MT_SCENARIO("C13", "big_stop", 3) {
  Rng& r = cx.rng;
  bool single = r.chance(1, 3);
  int workers = single ? 1 : r.range(1, big(8, 12));
  int n = logsize(r, 2, big(120, 6000));
  Stop13 s(n + 4);
  std::optional<dd::thread_pool> pool;
  std::optional<dd::worker> w;
  dd::worker::job_t job = r.chance(1, 6) ? user_worker_job : dd::default_worker_job;
  if (single) w.emplace(job);
  else pool.emplace((size_t)workers, job);
  // every worker waits at a gate while the tasks pile up behind it
  vs::flag gate;
  bool gated = r.chance(2, 3);
  vs::counter at_gate;
  if (gated) {
    if (single) dd::schedule_to(*w, [&] { gate.wait(); });
    else
      for (int i = 0; i < workers; i++) pool->schedule([&] { gate.wait(); }, (size_t)i);
  }
  int fns = 0, id = 0;
  std::vector<int> fn_ids;
  auto submit_some = [&](int upto) {
    while (id < upto) {
      int k = r.below(4);
      if (k == 0) {
        int more = std::min(r.below(4), n - id - 1);
        if (more < 0) more = 0;
        if (single) stop_task(s, *w, id, more, id + 1, Obj(id));
        else stop_task(s, *pool, id, more, id + 1, Obj(id));
        s.submitted[id] = vs::stamp();
        id += 1 + more;
      } else if (k == 1) {
        int m = logsize(r, 1, n - id > 600 ? 600 : n - id);
        std::vector<dd::task_node*> nodes;
        for (int i = 0; i < m; i++) stop_member(s, id + i, &nodes);
        auto* top = chain(nodes);
        if (single) dd::attach_list(*w, top);
        else if (r.chance(1, 2)) dd::attach_list(*pool, top);
        else pool->select_queue((size_t)r.next()).push_list(top);
        for (int i = 0; i < m; i++) s.submitted[id + i] = vs::stamp();
        id += m;
      } else {
        // functions are not invoked if cancelled, so only their destruction counts then
        auto fn = [&s, id = id, b = r.chance(1, 4) ? std::make_unique<Big>() : nullptr, o = Obj(id)] {
          VM_CHECK(o.get() == id, "argument-corrupted", "captured object of %d", id);
          s.done(id, true);
        };
        if (single) dd::schedule_to(*w, std::move(fn));
        else if (r.chance(1, 2)) pool->schedule(std::move(fn), (size_t)r.next());
        else pool->schedule(std::move(fn));
        s.submitted[id] = vs::stamp();
        fn_ids.push_back(id);
        fns++, id++;
      }
    }
  };
  submit_some(n);
  int how = single ? 0 : r.below(4);
  std::vector<std::thread> ts;
  if (gated)
    ts.emplace_back([&, d = r.below(30)] {
      for (int i = 0; i < d; i++) std::this_thread::yield();
      gate.set();
    });
  if (how > 0) {
    int req = r.range(1, 12), nt = r.range(1, 3);
    bool from_worker = r.chance(1, 4);
    std::vector<std::thread> rs;
    if (from_worker)
      pool->schedule([&] { pool->request_stop(); });
    for (int t = 0; t < nt; t++)
      rs.emplace_back([&, req] {
        for (int i = 0; i < req; i++) pool->request_stop();
      });
    join_all(rs);
    if (how == 2) std::move(*pool).wait_stop();
    if (how == 2) s.over.set(1);
  }
  pool.reset();
  w.reset();
  s.over.set(1);
  join_all(ts);
  std::sort(fn_ids.begin(), fn_ids.end());
  long cancelled = 0;
  for (int i = 0; i < n; i++) {
    VM_CHECK(s.resumed[i].get() == 1, "lost-task", "task %d of %d resumed %ld times by a stop of kind %d", i, n, s.resumed[i].get(), how);
    // everything was submitted before the stop began
    if (s.submitted[i]) VM_CHECK(s.ok[i].get() == 1, "cancelled-before-stop", "task %d submitted before the stop is cancelled", i);
    cancelled += s.ok[i].get() == 0;
  }
  cx.observe((uint64_t)n * 64 + (uint64_t)workers * 4 + how);
  cx.observe((uint64_t)cancelled);
  cx.observations += n;
  cx.describe = std::to_string(workers) + (single ? " (single)" : "") + " workers, " + std::to_string(n) + " tasks, " + std::to_string(cancelled) + " cancelled, stop " + std::to_string(how);
}

// =====================================================================================================
// C14
// =====================================================================================================
struct Strand14 {
  vs::counter inside;
  std::thread::id tid;
  bool has_tid = false;
  std::vector<int> next;   // per submitter, not synchronised
  std::vector<int> trace;
  vs::counter total;
};
struct Env14 {
  std::vector<Strand14> s;
  completion comp;
  Env14(int n, int subs, int total) : s(n), comp(total) {
    for (auto& x : s) x.next.resize(subs);
  }
  void run(int k, int sub, int seq) {
    Strand14& x = s[k];
    x.inside.add();
    VM_CHECK(x.inside.get() == 1, "strand-overlap", "two tasks of one strand run at the same time");
    auto id = std::this_thread::get_id();
    if (x.has_tid) VM_CHECK(x.tid == id, "strand-thread-changed", "a strand continues on another thread");
    x.tid = id, x.has_tid = true;
    VM_CHECK(x.next[sub] == seq, "order", "strand %d: task %d of submitter %d starts when %d is expected", k, seq, sub, x.next[sub]);
    x.next[sub]++;
    x.trace.push_back(seq);
    x.inside.add(-1);
    comp.one();
  }
};
dd::job strand_job(Env14& e, dd::strand st, int k, int sub, int seq, Obj o) {
  (void)(bool)co_await dd::jump_on(st);
  VM_CHECK(o.get() == seq, "argument-corrupted", "argument");
  e.run(k, sub, seq);
}
dd::job strand_member(Env14& e, int k, int sub, int seq, std::vector<dd::task_node*>* nodes) {
  (void)(bool)co_await park(nodes);
  e.run(k, sub, seq);
}
MT_SCENARIO("C14", "big_order", 3) {
  Rng& r = cx.rng;
  int workers = r.range(1, big(8, 12)), nstr = logsize(r, 1, big(5, 60)), nt = r.range(1, 4);
  int per = logsize(r, 1, big(40, 3000));
  bool user = r.chance(1, 5), single = r.chance(1, 4);
  Env14 e(nstr, nt, nt * per);
  std::vector<size_t> hash(nstr);
  for (auto& h : hash) h = r.chance(1, 2) ? (size_t)r.next() : (size_t)r.below(1000);
  std::optional<dd::thread_pool> pool;
  std::vector<std::unique_ptr<dd::worker>> ws;
  std::vector<dd::strand> strands;
  if (single) {
    for (int i = 0; i < std::min(nstr, 6); i++) ws.push_back(std::make_unique<dd::worker>(user ? user_worker_job : dd::default_worker_job));
    for (int i = 0; i < nstr; i++) strands.emplace_back(*ws[i % ws.size()]);
  } else {
    pool.emplace((size_t)workers, user ? user_worker_job : dd::default_worker_job);
    for (int i = 0; i < nstr; i++) strands.push_back(pool->get_strand(hash[i]));
  }
  {
    std::vector<std::thread> ts;
    for (int t = 0; t < nt; t++)
      ts.emplace_back([&, t, seed = r.next()] {
        Rng q(seed);
        std::vector<int> seq(nstr);
        int left = per;
        while (left > 0) {
          int k = q.below(nstr);
          dd::strand st = pool && q.chance(1, 2) ? pool->get_strand(hash[k]) : strands[k];
          int how = q.below(5);
          if (how < 2) {
            strand_job(e, st, k, t, seq[k], Obj(seq[k]));
            seq[k]++, left--;
          } else if (how == 2 && pool) {
            pool->schedule([&e, k, t, i = seq[k]] { e.run(k, t, i); }, hash[k]);
            seq[k]++, left--;
          } else if (how == 3) {
            dd::schedule_to(st, [&e, k, t, i = seq[k]] { e.run(k, t, i); });
            seq[k]++, left--;
          } else {
            int m = logsize(q, 1, std::min(left, 500));
            std::vector<dd::task_node*> nodes;
            for (int i = 0; i < m; i++) strand_member(e, k, t, seq[k]++, &nodes);
            auto* top = chain(nodes);
            if (q.chance(1, 2)) st.get_queue().push_list(top);
            else if (q.chance(1, 2)) st.get_queue().push_list(nodes.front(), nodes.back());
            else dd::attach_list(st, top);
            left -= m;
          }
        }
      });
    join_all(ts);
    e.comp.wait();
  }
  long sum = 0;
  for (int k = 0; k < nstr; k++) sum += (long)e.s[k].trace.size();
  VM_CHECK(sum == (long)nt * per, "lost-task", "%ld tasks of %d", sum, nt * per);
  cx.observe((uint64_t)workers * 1000 + nstr * 8 + nt);
  for (auto& x : e.s)
    for (size_t i = 0; i < x.trace.size() && i < 64; i++) cx.observe(x.trace[i]);
  cx.observations += sum;
  cx.describe = std::to_string(nstr) + " strands, " + std::to_string(nt) + " submitters, " + std::to_string(sum) + " tasks";
}

// =====================================================================================================
// C15
// =====================================================================================================
struct Ledger : std::pmr::memory_resource {
  vs::counter live, total, blocks;
  long fail_at = 0;
  struct alignas(64) head {
    uint64_t magic;
    size_t n, al;
    Ledger* l;
    char* raw;
  };
  void* do_allocate(size_t n, size_t al) override {
    total.add();
    if (fail_at && total.get() == fail_at) throw std::bad_alloc();
    size_t A = std::max<size_t>(al, 64);
    char* raw = (char*)malloc(n + A + sizeof(head) + 8);
    char* p = (char*)(((uintptr_t)raw + sizeof(head) + A - 1) / A * A);
    head* h = (head*)(p - sizeof(head));
    *h = head{0xFEEDFACE12345678ull, n, al, this, raw};
    memset(p + n, 0x5C, 8);
    live.add((long)n);
    blocks.add();
    return p;
  }
  void do_deallocate(void* p, size_t n, size_t al) override {
    head* h = (head*)((char*)p - sizeof(head));
    VM_CHECK(h->magic == 0xFEEDFACE12345678ull && h->l == this, "resource-foreign-block", "a block returned to a resource it did not come from");
    VM_CHECK(h->n == n && h->al == al, "resource-size-mismatch", "block allocated as (%zu,%zu) returned as (%zu,%zu)", h->n, h->al, n, al);
    for (int i = 0; i < 8; i++) VM_CHECK(((unsigned char*)p)[n + i] == 0x5C, "resource-overrun", "write behind a block");
    h->magic = 1;
    live.add(-(long)n);
    blocks.add(-1);
    free(h->raw);
  }
  bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};
template <size_t N>
struct Cap {
  unsigned char c[N];
};
template <size_t N>
void sched_cap(dd::thread_pool& p, completion& c, int id) {
  Cap<N> x;
  memset(x.c, id & 255, N);
  p.schedule([x, id, &c] {
    VM_CHECK(x.c[0] == (id & 255) && x.c[N / 2] == (id & 255) && x.c[N - 1] == (id & 255), "argument-corrupted", "captured bytes of %d", id);
    c.one();
  }, (size_t)id * 7919);
}
MT_SCENARIO("C15", "big_resource", 2) {
  Rng& r = cx.rng;
  Ledger l;
  int workers = r.range(1, big(12, 40)), n = logsize(r, 1, big(60, 2000));
  long before = vs::live_blocks();
  {
    dd::thread_pool p((size_t)workers, dd::default_worker_job, l);
    VM_CHECK(&p.get_resource() == &l, "pool-resource", "pool reports another resource");
    VM_CHECK((int)p.workers_range().size() == workers, "pool-size", "%zu workers instead of %d", p.workers_range().size(), workers);
    completion c(n);
    long b = l.total.get();
    for (int i = 0; i < n; i++) {
      switch (r.below(5)) {
        case 0: sched_cap<1>(p, c, i); break;
        case 1: sched_cap<100>(p, c, i); break;
        case 2: sched_cap<4096>(p, c, i); break;
        case 3: sched_cap<9001>(p, c, i); break;
        default: sched_cap<33>(p, c, i);
      }
    }
    VM_CHECK(l.total.get() - b == n, "not-from-resource", "%ld blocks of the pool's resource for %d functions", l.total.get() - b, n);
    if (r.chance(1, 2)) c.wait();
    else if (r.chance(1, 2)) p.request_stop();
  }
  VM_CHECK(l.blocks.get() == 0 && l.live.get() == 0, "resource-leak", "%ld blocks not returned", l.blocks.get());
  (void)before;
  cx.observe((uint64_t)workers * 10007 + n);
  cx.observations += n;
}
MT_SCENARIO("C15", "big_construction", 2) {
  Rng& r = cx.rng;
  Ledger l;
  int workers = r.range(1, big(14, 40));
  bool mem = r.chance(1, 4);
  int at = mem ? r.range(1, 2) : r.range(1, workers);
#ifndef VS_CONTROLLED
  mem = true;
  at = r.range(1, 2);
#endif
  if (mem) l.fail_at = at;
  else vs::fail_thread_creation(at);
  bool threw = false;
  try {
    dd::thread_pool p((size_t)workers, dd::default_worker_job, l);
    (void)p;
  } catch (const std::bad_alloc&) {
    threw = mem;
    VM_CHECK(mem, "wrong-exception", "bad_alloc although a thread could not be created");
  } catch (const std::system_error&) {
    threw = !mem;
    VM_CHECK(!mem, "wrong-exception", "system_error although memory was missing");
  }
  vs::fail_thread_creation(0);
  VM_CHECK(threw, "exception-lost", "pool was constructed although the construction failed at %d", at);
  VM_CHECK(l.blocks.get() == 0, "resource-leak", "%ld blocks not returned", l.blocks.get());
  // and it works afterwards
  l.fail_at = 0;
  dd::thread_pool p((size_t)workers, dd::default_worker_job, l);
  completion c(workers);
  for (int i = 0; i < workers; i++) p.schedule([&] { c.one(); }, (size_t)i);
  c.wait();
  cx.observe((uint64_t)workers * 64 + at * 2 + mem);
  cx.nontrivial = true;
}

// =====================================================================================================
// C16
// =====================================================================================================
struct Latch16 {
  dd::latch* l;
  vs::counter begun;        // sum of count downs which have begun, in units
  std::vector<int> data;    // one per count down
  std::vector<vs::counter> released;
  completion comp;
  dd::thread_pool* pool = nullptr;
  long parts;
  Latch16(int parts, int waiters) : data(parts), released(waiters), comp(waiters), parts(parts) {}
  void resumed(int id, Rng r) {
    VM_CHECK(begun.get() == parts, "released-too-early", "a waiter continues when %ld of %ld count downs have begun", begun.get(), parts);
    released[id].add();
    VM_CHECK(released[id].get() == 1, "released-twice", "waiter %d released %ld times", id, released[id].get());
    if (parts <= 64)
      for (long i = 0; i < parts; i++) VM_CHECK(data[i] == i + 3, "stale-payload", "what was done before count down %ld is not visible", i);
    else
      for (int k = 0; k < 40; k++) { long i = r.below((int)parts); VM_CHECK(data[i] == i + 3, "stale-payload", "what was done before count down %ld is not visible", i); }
    comp.one();
  }
};
dd::job latch_waiter(Latch16& e, int id, uint64_t seed, Obj o) {
  co_await e.l->wait();
  VM_CHECK(o.get() == id, "argument-corrupted", "argument of waiter %d", id);
  e.resumed(id, Rng(seed));
}
dd::job latch_arriver(Latch16& e, int id, int part, ptrdiff_t n, uint64_t seed, Obj o) {
  e.data[part] = part + 3;
  e.begun.add();
  co_await e.l->arrive_and_wait(n);
  VM_CHECK(o.get() == id, "argument-corrupted", "argument of waiter %d", id);
  e.resumed(id, Rng(seed));
}
MT_SCENARIO("C16", "big_latch", 3) {
  Rng& r = cx.rng;
  int parts = logsize(r, 1, big(40, 2000)), waiters = widesize(r, 1, big(60, 3000), big(0, 1));
  ptrdiff_t total = 0;
  std::vector<ptrdiff_t> amount(parts);
  ptrdiff_t room = dd::latch::max() / parts;
  int style = r.below(3);
  for (auto& a : amount) {
    a = style == 0 ? 1 : style == 1 ? 1 + (ptrdiff_t)(r.next() % 1000000) : 1 + (ptrdiff_t)(r.next() % (uint64_t)room);
    total += a;
  }
  Latch16 e(parts, waiters);
  int exe = r.below(4);
  std::optional<dd::thread_pool> pool;
  std::optional<dd::worker> w;
  dd::this_thread_executor_t inl;
  if (exe == 1) pool.emplace((size_t)r.range(1, big(5, 8)));
  if (exe == 2) w.emplace();
  {
    dd::latch l(total, exe == 1 ? dd::any_executor_ref(*pool) : exe == 2 ? dd::any_executor_ref(*w) : dd::any_executor_ref(inl));
    e.l = &l;
    VM_CHECK(!l.ready(), "ready-too-early", "ready at the beginning");
    int nt = r.range(1, 4);
    // some of the waiters count down themselves
    std::vector<int> arrives(parts, -1);
    int next_waiter = 0;
    for (int i = 0; i < parts && next_waiter < waiters; i++)
      if (r.chance(1, 3)) arrives[i] = next_waiter++;
    int first_plain = next_waiter;
    std::vector<std::thread> ts;
    for (int t = 0; t < nt; t++)
      ts.emplace_back([&, t, seed = r.next()] {
        Rng q(seed);
        int pw = first_plain + t, pp = t;
        while (pw < waiters || pp < parts) {
          if (pw < waiters && (pp >= parts || q.chance(waiters, waiters + parts))) {
            latch_waiter(e, pw, q.next(), Obj(pw));
            pw += nt;
          } else if (pp < parts) {
            if (arrives[pp] >= 0) latch_arriver(e, arrives[pp], pp, amount[pp], q.next(), Obj(arrives[pp]));
            else {
              e.data[pp] = pp + 3;
              e.begun.add();
              l.count_down(amount[pp]);
            }
            pp += nt;
          }
          if (q.chance(1, 50)) l.count_down(0);
        }
      });
    join_all(ts);
    e.comp.wait();
    VM_CHECK(l.ready(), "not-ready", "not ready at zero");
  }
  pool.reset();
  w.reset();
  for (int i = 0; i < waiters; i++) VM_CHECK(e.released[i].get() == 1, "released-twice", "waiter %d released %ld times", i, e.released[i].get());
  cx.observe((uint64_t)parts * 100003 + (uint64_t)waiters * 4 + exe);
  cx.observe((uint64_t)total);
  cx.observations += waiters + parts;
  cx.describe = std::to_string(waiters) + " waiters, " + std::to_string(parts) + " count downs of " + std::to_string(total);
}

// =====================================================================================================
// C17
// =====================================================================================================
template <typename T>
struct In {  // default constructible value
  T x = Val<T>::make(0);
};
template <typename T>
struct Event17 {
  dd::event<In<T>> ev;
  vs::counter woken, finished, notified;
  vs::counter begun_max;  // highest notification that has begun
  int notifiers = 1;      // two notifiers send the same input
  completion comp;
  explicit Event17(int waiters) : comp(waiters) {}
};
template <typename T>
dd::job event_waiter(Event17<T>& e, int loops, Obj o) {
  long last = -1;
  for (int i = 0; i < loops; i++) {
    auto in = co_await e.ev;
    long v = Val<T>::get(in.x);
    VM_CHECK(v >= 1 && v <= e.begun_max.get(), "woken-without-notification", "woken with input %ld, %ld notifications have begun", v, e.begun_max.get());
    if (e.notifiers == 1) VM_CHECK(v != last, "woken-twice", "two wake-ups by notification %ld", v);
    last = v;
    e.woken.add();
  }
  VM_CHECK(o.get() == loops, "argument-corrupted", "argument");
  e.comp.one();
}
// sequential rounds: everyone subscribed gets exactly this input
template <typename T>
void event_rounds(Ctx& cx) {
  Rng& r = cx.rng;
  int n = widesize(r, 1, big(400, 4000) / Val<T>::scale, Val<T>::scale == 1);
  Event17<T> e(n);
  long expected = 0;
  std::vector<int> loops(n);
  for (int i = 0; i < n; i++) {
    loops[i] = r.range(1, 4);
    event_waiter<T>(e, loops[i], Obj(loops[i]));
  }
  // a function too
  int called = 0;
  long called_with = 0;
  e.ev.set_callback([&](In<T> in) { called++, called_with = Val<T>::get(in.x); });
  for (int k = 1; k <= 5; k++) {
    for (int i = 0; i < n; i++) expected += loops[i] >= k;
    e.begun_max.set(k);
    bool any = e.ev.notify_all(dd::this_thread_executor, In<T>{Val<T>::make(k)});
    long left = 0;
    for (int i = 0; i < n; i++) left += loops[i] >= k;
    VM_CHECK(any == (left > 0 || k == 1), "notify-result", "notification %d reports %d with %ld waiters", k, any, left);
    VM_CHECK(e.woken.get() == expected, "waiter-lost", "%ld wake-ups after notification %d, %ld expected", e.woken.get(), k, expected);
    VM_CHECK(called == 1 && called_with == 1, "callback", "callback was invoked %d times, with %ld", called, called_with);
  }
  cx.observe((uint64_t)n * 1000003 + expected);
  cx.observations += expected;
  cx.nontrivial = true;
  cx.describe = std::to_string(n) + " waiters, " + std::to_string(expected) + " wake-ups in rounds";
}
template <typename T>
void event_threads(Ctx& cx) {
  Rng& r = cx.rng;
  int n = logsize(r, 1, big(50, 2000) / Val<T>::scale + 1), nt = r.range(1, 3);
  std::optional<dd::thread_pool> pool;
  if (r.chance(1, 2)) pool.emplace((size_t)r.range(1, big(4, 8)));
  Event17<T> e(n);
  long total = 0;
  std::vector<int> loops(n);
  for (auto& l : loops) l = r.range(1, big(2, 4)), total += l;
  std::vector<std::thread> ts;
  int nn = r.range(1, 2);
  e.notifiers = nn;
  for (int t = 0; t < nt; t++)
    ts.emplace_back([&, t] {
      for (int i = t; i < n; i += nt) event_waiter<T>(e, loops[i], Obj(loops[i]));
    });
  std::vector<std::thread> ns;
  for (int t = 0; t < nn; t++)
    ns.emplace_back([&] {
      while (e.woken.get() < total) {
        e.begun_max.add(1);
        int id;
        id = nn == 1 ? (int)e.begun_max.get() : 1;
        bool any = pool ? e.ev.notify_all(*pool, In<T>{Val<T>::make(id)}) : e.ev.notify_all(dd::this_thread_executor, In<T>{Val<T>::make(id)});
        if (!any) std::this_thread::yield();
      }
    });
  join_all(ts);
  e.comp.wait();
  join_all(ns);
  VM_CHECK(e.woken.get() == total, "woken-twice", "%ld wake-ups for %ld subscriptions", e.woken.get(), total);
  VM_CHECK(!e.ev.notify_all(dd::this_thread_executor, In<T>{}), "notify-result", "a notification of nobody reports true");
  cx.observe((uint64_t)n * 1000003 + total);
  cx.observations += total;
  cx.describe = std::to_string(n) + " waiters, " + std::to_string(total) + " subscriptions, " + std::to_string(nn) + " notifiers";
}
SEQ_SCENARIO("C17", "big_rounds", 2) {
  switch (cx.rng.below(4)) {
    case 0: return event_rounds<Obj>(cx);
    case 1: return event_rounds<std::string>(cx);
    case 2: return event_rounds<Pod>(cx);
    default: return event_rounds<int>(cx);
  }
}

// =====================================================================================================
// C23
// =====================================================================================================
struct Node {
  Node* next = nullptr;
  int pusher = 0, seq = 0;
  int data = 0;
};
MT_SCENARIO("C23", "big_stack", 3) {
  Rng& r = cx.rng;
  dd::nonowner_lockfree_stack<Node> st;
  int np = r.range(1, 3), nc = r.range(1, 2), per = widesize(r, 1, big(80, 20000), big(0, 1));
  std::vector<std::vector<Node>> nodes(np, std::vector<Node>(per));
  std::vector<std::vector<vs::counter>> taken(np, std::vector<vs::counter>(per));
  vs::counter left, batches;
  left.set((long)np * per);
  std::vector<std::thread> ts, cs;
  for (int p = 0; p < np; p++)
    ts.emplace_back([&, p, seed = r.next()] {
      Rng q(seed);
      int i = 0;
      while (i < per) {
        int m = q.chance(1, 2) ? 1 : logsize(q, 1, std::min(per - i, 3000));
        for (int k = 0; k < m; k++) {
          Node& n = nodes[p][i + k];
          n.pusher = p, n.seq = i + k, n.data = (i + k) * 3 + p;
        }
        if (m == 1 && q.chance(1, 2)) st.push(&nodes[p][i]);
        else {
          for (int k = m - 1; k > 0; k--) nodes[p][i + k].next = &nodes[p][i + k - 1];
          nodes[p][i].next = nullptr;
          st.push_stack(&nodes[p][i + m - 1]);
        }
        i += m;
      }
    });
  for (int c = 0; c < nc; c++)
    cs.emplace_back([&] {
      std::vector<int> high(np, -1);
      while (left.get() > 0) {
        Node* top = st.try_pop_all();
        if (!top) { std::this_thread::yield(); continue; }
        batches.add();
        std::vector<int> prev(np, 1 << 30), low(np, 1 << 30), first(np, -1);
        while (top) {
          Node* n = top;
          top = top->next;
          n->next = nullptr;
          VM_CHECK(n->data == n->seq * 3 + n->pusher, "stale-payload", "data of a node is not visible");
          VM_CHECK(n->seq < prev[n->pusher], "order", "node %d of a pusher behind node %d", n->seq, prev[n->pusher]);
          prev[n->pusher] = n->seq;
          if (first[n->pusher] < 0) first[n->pusher] = n->seq;
          taken[n->pusher][n->seq].add();
          VM_CHECK(taken[n->pusher][n->seq].get() == 1, "taken-twice", "node %d of pusher %d taken twice", n->seq, n->pusher);
          VM_CHECK(left.sub_and_get() >= 0, "taken-twice", "too many nodes");
        }
        for (int p = 0; p < np; p++)
          if (first[p] >= 0) {
            VM_CHECK(prev[p] > high[p], "order", "node %d taken after node %d of the same pusher", prev[p], high[p]);
            if (nc == 1) VM_CHECK(prev[p] == high[p] + 1, "node-lost", "nodes %d to %d are not taken before %d", high[p] + 1, prev[p] - 1, prev[p]);
            high[p] = first[p];
          }
      }
    });
  join_all(ts);
  join_all(cs);
  VM_CHECK(st.try_pop_all() == nullptr, "taken-twice", "nodes are left");
  for (int p = 0; p < np; p++)
    for (int i = 0; i < per; i++) VM_CHECK(taken[p][i].get() == 1, "node-lost", "node %d of pusher %d taken %ld times", i, p, taken[p][i].get());
  cx.observe((uint64_t)np * per * 8 + nc);
  cx.observe((uint64_t)batches.get());
  cx.observations += (uint64_t)np * per;
  cx.describe = std::to_string(np) + " pushers of " + std::to_string(per) + " nodes, " + std::to_string(batches.get()) + " batches";
}

// =====================================================================================================
// C25
// =====================================================================================================
struct Hops25 {
  dd::thread_pool *a, *b;
  dd::worker* w;
  completion comp;
  Hops25(int n) : comp(n) {}
};
dd::job hopping(Hops25& e, int id, int hops, uint64_t seed, Obj o) {
  Rng r(seed);
  std::unique_ptr<long[]> data(new long[4]{id, 0, 0, 0});
  dd::this_thread_executor_t inl;
  std::thread::id before;
  for (int i = 0; i < hops; i++) {
    data[i & 3] = i * 7 + id;
    before = std::this_thread::get_id();
    int k = r.below(8);
    size_t hash = (size_t)r.next();
    dd::schedule_status st{dd::schedule_errc::timed_out};
    switch (k) {
      case 0: st = co_await dd::jump_on(*e.a); break;
      case 1: st = co_await dd::jump_on(*e.b); break;
      case 2: st = co_await dd::jump_on(*e.w); break;
      case 3: { dd::strand s = e.a->get_strand(hash); st = co_await dd::jump_on(s); break; }
      case 4: { dd::any_executor_ref x(*e.b); st = co_await dd::jump_on(x); break; }
      case 5: st = co_await dd::jump_on(dd::this_thread_executor); break;
      case 6: { dd::any_executor_ref x(inl); st = co_await dd::jump_on(x); break; }
      default: { dd::strand s(*e.w); dd::any_executor_ref x(s); st = co_await dd::jump_on(x); break; }
    }
    VM_CHECK(st.what == dd::schedule_errc::ok, "cancelled-while-running", "hop %d: status %d", i, (int)st.what);
    auto now = std::this_thread::get_id();
    bool good = k == 0 || k == 3 ? e.a->is_worker(now) : k == 1 || k == 4 ? e.b->is_worker(now) : k == 2 || k == 7 ? e.w->get_id() == now : now == before;
    VM_CHECK(good, "wrong-thread", "hop of kind %d continues on another thread", k);
    VM_CHECK(data[i & 3] == i * 7 + id && o.get() == id, "stale-payload", "data of coroutine %d after hop %d", id, i);
  }
  e.comp.one();
}
MT_SCENARIO("C25", "big_hops", 3) {
  Rng& r = cx.rng;
  int n = logsize(r, 1, big(20, 300)), hops = logsize(r, 1, big(40, 20000 / n));
  dd::thread_pool a((size_t)r.range(1, big(5, 12))), b((size_t)r.range(1, 3));
  dd::worker w;
  Hops25 e(n);
  e.a = &a, e.b = &b, e.w = &w;
  for (int i = 0; i < n; i++) hopping(e, i, hops, r.next(), Obj(i));
  e.comp.wait();
  cx.observe((uint64_t)n * 100003 + hops);
  cx.observations += (uint64_t)n * hops;
  cx.describe = std::to_string(n) + " coroutines with " + std::to_string(hops) + " hops";
}

MT_SCENARIO("C17", "big_threads", 2) {
  switch (cx.rng.below(4)) {
    case 0: return event_threads<Obj>(cx);
    case 1: return event_threads<std::string>(cx);
    case 2: return event_threads<Pod>(cx);
    default: return event_threads<int>(cx);
  }
}

}  // namespace
VM_MAIN
