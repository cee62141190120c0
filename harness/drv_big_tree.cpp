// C08, C09, C19 at scale: deep and wide trees of tasks, thousands of tasks nobody has started
#include "vbigtask.hpp"

namespace {

enum { R_INT, R_OBJ, R_MOVE, R_VOID, R_STRING, R_POD, R_ODD, R_REF, R_N };

// =====================================================================================================
// a tree of tasks
// =====================================================================================================
struct BigCtx;
struct BNode {
  int id = 0, rkind = 0, hops = 0, style = 0, group = -1;
  bool throws = false, pass = false, rvo = false;
  std::vector<BNode*> kids;
  // what must happen
  bool runs = false;
  int fails = 0;  // number of the exception that leaves it
  int pre = -1;   // number among the bodies that run
  // what happens
  int started = 0, ended = 0, cell = 0, ctx_ends = 0;
  BigCtx* want_parent = nullptr;
};

bool abandoning = false;
struct BigCtx {
  BigCtx* parent = nullptr;
  int owners = 0, starts = 0, ends = 0, depth = 0;
  BNode* node = nullptr;
  BigCtx() = default;
  BigCtx(BigCtx&&) = delete;
  template <typename O, typename T>
  void on_owner_setted(std::coroutine_handle<O> o, std::coroutine_handle<T> t) noexcept {
    VM_CHECK(o && t && &t.promise().ctx == this, "context-identity", "context of another task is told");
    VM_CHECK(owners == 0 && starts == 0 && ends == 0, "context-order", "owner is told after %d, %d, %d", owners, starts, ends);
    owners++;
    if constexpr (requires { o.promise().ctx.depth; }) {
      parent = &o.promise().ctx;
      depth = parent->depth + 1;
      VM_CHECK(parent->starts == 1 && parent->ends == 0, "context-order", "owner is told %d starts and %d ends", parent->starts, parent->ends);
    }
  }
  template <typename T>
  void on_start(std::coroutine_handle<T> t) noexcept {
    VM_CHECK(&t.promise().ctx == this, "context-identity", "context of another task is told");
    VM_CHECK(starts == 0 && ends == 0, "context-order", "start is told after %d starts and %d ends", starts, ends);
    starts++;
  }
  template <typename T>
  void on_end(std::coroutine_handle<T> t) noexcept {
    VM_CHECK(&t.promise().ctx == this, "context-identity", "context of another task is told");
    VM_CHECK(starts == 1 && ends == 0, "context-order", "end is told after %d starts and %d ends", starts, ends);
    if (parent) VM_CHECK(parent->ends == 0, "context-order", "end is told after the owner's");
    if (node) {
      VM_CHECK(node->ended == 1, "context-end-early", "end is told while the body of %d runs", node->id);
      node->ctx_ends++;
    }
    ends++;
  }
  ~BigCtx() {
    if (!abandoning) VM_CHECK(starts == ends && owners <= starts, "context-no-end", "%d owners, %d starts and %d ends are told", owners, starts, ends);
  }
};
template <typename C>
constexpr bool is_ctx = std::is_same_v<C, BigCtx>;

struct Life {
  Env& e;
  BNode& n;
  Life(Env& e, BNode& n) : e(e), n(n) {}
  ~Life() {
    n.ended++;
    e.ended_all.add();
  }
};

template <typename R, typename C>
dd::task<R, C> node_body(Env& e, BNode& n, Obj arg, std::unique_ptr<int> a2);
template <typename R, typename C>
dd::task<R, C> mk(Env& e, BNode& n) {
  return node_body<R, C>(e, n, Obj(n.id), std::make_unique<int>(n.id));
}
template <typename R, typename V>
void check_value(BNode& n, V&& v) {
  if constexpr (std::is_same_v<R, int&>) VM_CHECK(&v == &n.cell && v == n.id, "wrong-result", "reference of task %d", n.id);
  else VM_CHECK(Val<R>::get(v) == n.id, "wrong-result", "result %ld of task %d", (long)Val<R>::get(v), n.id);
}
void check_ended(BNode& n, bool fails) {
  VM_CHECK(n.started == 1 && n.ended == 1, "awaited-task-not-finished", "task %d: started %d, ended %d", n.id, n.started, n.ended);
  VM_CHECK(fails == (n.fails != 0), fails ? "wrong-exception" : "exception-lost", "task %d %s", n.id, fails ? "fails" : "does not fail");
}
template <typename R, typename C>
dd::task<void, C> await_impl(Env& e, BNode& n) {
  BNode& k = n;
  BigCtx* here = nullptr;
  if constexpr (is_ctx<C>) here = &co_await dd::this_coro::context;
  bool failed = false;
  int by = 0;
  {
    dd::task<R, C> t = mk<R, C>(e, k);
    VM_CHECK(k.started == 0, "task-started-early", "task %d runs before it is awaited", k.id);
    k.want_parent = here;
    if constexpr (is_ctx<C>) t.get_context()->node = &k;
    if (k.style == 1) {
      dd::task<R, C> t2(std::move(t)), t3;
      VM_CHECK(t.empty() && !t2.empty() && t3.empty(), "moved-from-not-empty", "task %d", k.id);
      t3 = std::move(t2);
      t = dd::task<R, C>(t3.release());
    }
    try {
      if (k.style == 2) {
        co_await t.wait();
        check_ended(k, k.fails != 0);
        VM_CHECK(t.raw_handle().done(), "awaited-task-not-finished", "task %d is not done after wait", k.id);
      }
      if (k.style == 3) {
        co_await t.wait();
        if constexpr (std::is_void_v<R>) t.get();
        else check_value<R>(k, t.get());
      } else if constexpr (std::is_void_v<R>) co_await t;
      else {
        auto&& v = co_await t;
        check_value<R>(k, v);
      }
      check_ended(k, false);
    } catch (const Exc& x) {
      failed = true;
      by = x.id;
    }
    if (failed) {
      check_ended(k, true);
      VM_CHECK(by == k.fails, "wrong-exception", "exception %d instead of %d", by, k.fails);
    }
    if constexpr (is_ctx<C>) {
      VM_CHECK(k.ctx_ends == 1, "context-no-end", "the end of task %d is told %d times", k.id, k.ctx_ends);
      VM_CHECK(t.get_context()->parent == here, "context-owner", "wrong owner of task %d", k.id);
    }
  }
  if (failed) throw Exc{by};
}
template <typename R, typename C>
dd::task<void, C> all_impl(Env& e, BNode& n) {
  std::vector<dd::task<R, C>> v;
  v.reserve(n.kids.size());
  for (BNode* k : n.kids) {
    v.push_back(mk<R, C>(e, *k));
    if constexpr (is_ctx<C>) v.back().get_context()->node = k;
  }
  auto t = dd::when_all(std::move(v));
  for (BNode* k : n.kids) {
    VM_CHECK(k->started == 0, "task-started-early", "task %d runs before when_all is awaited", k->id);
    if constexpr (is_ctx<C>) k->want_parent = t.get_context();
  }
  auto res = co_await t;
  VM_CHECK(res.size() == n.kids.size(), "wrong-result", "%zu results of %zu tasks", res.size(), n.kids.size());
  for (size_t i = 0; i < res.size(); i++) {
    BNode& k = *n.kids[i];
    check_ended(k, !res[i].has_value());
    if constexpr (is_ctx<C>) VM_CHECK(k.ctx_ends == 1, "context-no-end", "the end of task %d is told %d times", k.id, k.ctx_ends);
    if (res[i].has_value()) {
      if constexpr (!std::is_void_v<R>) check_value<R>(k, *res[i]);
    } else {
      int by = 0;
      try { std::rethrow_exception(res[i].error()); } catch (const Exc& x) { by = x.id; }
      VM_CHECK(by == k.fails, "wrong-exception", "exception %d instead of %d", by, k.fails);
    }
  }
}
template <typename C>
dd::task<void, C> await_kid(Env& e, BNode& k) {
  switch (k.rkind) {
    case R_INT: return await_impl<int, C>(e, k);
    case R_OBJ: return await_impl<Obj, C>(e, k);
    case R_MOVE: return await_impl<MoveOnly, C>(e, k);
    case R_VOID: return await_impl<void, C>(e, k);
    case R_STRING: return await_impl<std::string, C>(e, k);
    case R_POD: return await_impl<Pod, C>(e, k);
    case R_ODD: return await_impl<Odd, C>(e, k);
    default: return await_impl<int&, C>(e, k);
  }
}
template <typename C>
dd::task<void, C> await_group(Env& e, BNode& n) {
  switch (n.group) {
    case R_INT: return all_impl<int, C>(e, n);
    case R_OBJ: return all_impl<Obj, C>(e, n);
    case R_MOVE: return all_impl<MoveOnly, C>(e, n);
    case R_STRING: return all_impl<std::string, C>(e, n);
    case R_POD: return all_impl<Pod, C>(e, n);
    default: return all_impl<void, C>(e, n);
  }
}
template <typename R, typename C>
dd::task<R, C> node_body(Env& e, BNode& n, Obj arg, std::unique_ptr<int> a2) {
  Life life(e, n);
  Obj local(n.id + 1);
  n.started++;
  VM_CHECK(n.started == 1, "task-started-twice", "task %d", n.id);
  VM_CHECK(n.runs, "task-started-early", "task %d runs although nobody awaits it", n.id);
  if (e.ordered) {
    VM_CHECK(e.cursor == n.pre, "wrong-order", "task %d is number %d to run, expected %d", n.id, e.cursor, n.pre);
    e.cursor++;
  }
  e.started_all.add();
  if constexpr (is_ctx<C>) {
    BigCtx& c = co_await dd::this_coro::context;
    VM_CHECK(c.node == &n && c.starts == 1 && c.ends == 0 && c.owners == 1, "context-order", "body of %d runs, %d owners, %d starts and %d ends are told", n.id, c.owners, c.starts, c.ends);
    VM_CHECK(c.parent == n.want_parent, "context-owner", "wrong owner of task %d", n.id);
  }
  for (int i = 0; i < n.hops; i++) HOP(e);
  try {
    if (n.group >= 0) co_await await_group<C>(e, n);
    else
      for (BNode* k : n.kids) {
        bool failed = false;
        int by = 0;
        if (n.pass) co_await await_kid<C>(e, *k);
        else {
          try {
            co_await await_kid<C>(e, *k);
          } catch (const Exc& x) {
            failed = true, by = x.id;
          }
          VM_CHECK(failed == (k->fails != 0) && by == k->fails, "wrong-exception", "exception %d of task %d, expected %d", by, k->id, k->fails);
        }
      }
  } catch (const Exc& x) {
    VM_CHECK(n.pass && x.id == n.fails, "wrong-exception", "exception %d passes task %d, expected %d", x.id, n.id, n.fails);
    throw;
  }
  VM_CHECK(arg.get() == n.id && *a2 == n.id && local.get() == n.id + 1, "object-corrupted", "arguments of task %d", n.id);
  n.cell = n.id;
  if (n.throws) throw Exc{n.id};
  if constexpr (std::is_void_v<R>) co_return;
  else if constexpr (std::is_same_v<R, int&>) co_return n.cell;
  else if constexpr (std::is_same_v<R, Pod> || std::is_same_v<R, std::string> || std::is_same_v<R, Odd>) {
    if (n.rvo) {
      R& place = co_await dd::this_coro::return_place;
      place = Val<R>::make(n.id);
      co_return dd::rvo;
    }
    co_return Val<R>::make(n.id);
  } else
    co_return Val<R>::make(n.id);
}

struct Tree {
  std::deque<BNode> nodes;
  int bodies = 0;
  int grow(Rng& r, bool groups, bool hops, int throw_den, int pass_of_8, int max_depth, int max_nodes) {
    // shape: long chain, wide, random
    int shape = r.below(4);
    int n = shape == 0 ? logsize(r, 1, std::min(max_depth, max_nodes)) : logsize(r, 1, max_nodes);
    std::vector<int> depth;
    auto add = [&] {
      nodes.emplace_back();
      BNode& b = nodes.back();
      b.id = (int)nodes.size();
      b.rkind = r.below(R_N);
      b.hops = hops && r.chance(1, 6) ? r.range(1, 2) : 0;
      b.style = r.below(5);
      b.throws = throw_den && r.chance(1, throw_den);
      b.pass = r.chance(pass_of_8, 8);
      b.rvo = r.chance(1, 2);
    };
    add();
    depth.push_back(1);
    std::vector<size_t> open{0};  // may get children
    while ((int)nodes.size() < n) {
      size_t p = shape == 0 ? nodes.size() - 1 : shape == 1 ? (r.chance(1, 20) ? nodes.size() - 1 : 0) : shape == 2 ? (size_t)r.below((int)nodes.size()) : (r.chance(3, 4) ? nodes.size() - 1 : (size_t)r.below((int)nodes.size()));
      if (depth[p] >= max_depth) p = 0;
      add();
      depth.push_back(depth[p] + 1);
      nodes[p].kids.push_back(&nodes.back());
    }
    if (groups)
      for (auto& b : nodes)
        if (!b.kids.empty() && r.chance(b.kids.size() > 4 ? 3 : 1, 4)) {
          b.group = r.below(6);
          b.pass = false;
          for (BNode* k : b.kids) k->rkind = b.group;
        }
    expect(nodes[0]);
    return *std::max_element(depth.begin(), depth.end());
  }
  void expect(BNode& n) {
    n.runs = true;
    n.pre = bodies++;
    for (BNode* k : n.kids) {
      expect(*k);
      if (k->fails && n.pass) {
        n.fails = k->fails;
        return;
      }
    }
    if (n.throws) n.fails = n.id;
  }
  bool has_groups() {
    for (auto& b : nodes)
      if (b.group >= 0) return true;
    return false;
  }
  void check_all() {
    for (auto& b : nodes) {
      VM_CHECK(b.started == b.runs && b.ended == b.runs, "awaited-task-not-finished", "task %d: started %d, ended %d, expected %d", b.id, b.started, b.ended, b.runs);
    }
  }
};
template <typename C>
dd::job tree_job(Env& e, Tree& t, completion& c, Obj o) {
  bool failed = false;
  int by = 0;
  try {
    co_await await_kid<C>(e, t.nodes[0]);
  } catch (const Exc& x) {
    failed = true, by = x.id;
  }
  VM_CHECK(failed == (t.nodes[0].fails != 0) && by == t.nodes[0].fails, "wrong-exception", "exception %d leaves the tree, expected %d", by, t.nodes[0].fails);
  VM_CHECK(o.get() == 5, "object-corrupted", "argument");
  c.one();
}
template <typename C>
dd::task<int, C> tree_task(Env& e, Tree& t, Obj o) {
  int by = 0;
  try {
    co_await await_kid<C>(e, t.nodes[0]);
  } catch (const Exc& x) {
    by = x.id;
  }
  VM_CHECK(by == t.nodes[0].fails, "wrong-exception", "exception %d leaves the tree, expected %d", by, t.nodes[0].fails);
  co_return by;
}
template <typename C>
dd::task<void, C> tree_detached(Env& e, Tree& t, completion& c, Obj o) {
  int by = 0;
  try {
    co_await await_kid<C>(e, t.nodes[0]);
  } catch (const Exc& x) {
    by = x.id;
  }
  VM_CHECK(by == t.nodes[0].fails, "wrong-exception", "exception %d leaves the tree, expected %d", by, t.nodes[0].fails);
  c.one();
}

// deep nesting costs stack only where frames are destroyed by their owners
constexpr int TREE_DEPTH = MAX_DEPTH / 2;

template <typename C>
void seq_trees(Ctx& cx, bool groups) {
  Rng& r = cx.rng;
  Env e;
  e.order = Rng(r.next());
  bool hops = r.chance(1, 2);
  int throw_den = r.chance(1, 2) ? 0 : logsize(r, 2, 2000);
  int n = r.chance(1, 2) ? 1 : r.range(2, 5);
  std::deque<Tree> trees(n);
  int deepest = 0, bodies = 0;
  size_t nodes = 0;
  for (auto& t : trees) {
    deepest = std::max(deepest, t.grow(r, groups, hops, throw_den, r.below(9), TREE_DEPTH, 5000 / n));
    bodies += t.bodies;
    nodes += t.nodes.size();
  }
  e.ordered = n == 1 && !trees[0].has_groups();
  completion comp(n);
  std::vector<dd::task<int, C>> kept;
  std::vector<dd::task<void, C>> late;
  for (auto& t : trees) {
    int how = r.below(hops ? 2 : 4);
    if (how == 0) tree_job<C>(e, t, comp, Obj(5));
    else if (how == 1) tree_detached<C>(e, t, comp, Obj(5)).start_and_detach();
    else if (how == 2) {
      dd::task<int, C> x = tree_task<C>(e, t, Obj(5));
      int by = x.get();
      VM_CHECK(by == t.nodes[0].fails, "wrong-result", "result %d", by);
      comp.one();
    } else {
      auto h = tree_detached<C>(e, t, comp, Obj(5)).start_and_detach(true);
      VM_CHECK(h.done(), "awaited-task-not-finished", "a task without suspensions is not done");
      h.destroy();
    }
  }
  e.drain(cx);
  comp.wait();
  for (auto& t : trees) t.check_all();
  cx.observe((uint64_t)nodes * 10007 + deepest);
  cx.observe((uint64_t)e.ended_all.get());
  cx.observations += bodies;
  if (bodies > 1) cx.nontrivial = true;
  cx.describe = std::to_string(n) + " trees of " + std::to_string(nodes) + " tasks, " + std::to_string(bodies) + " run, deepest " + std::to_string(deepest);
}
template <typename C>
void abandoned_trees(Ctx& cx) {
  Rng& r = cx.rng;
  Env e;
  e.order = Rng(r.next());
  Tree t;
  int deepest = t.grow(r, false, true, r.chance(1, 2) ? 0 : 50, r.below(9), TREE_DEPTH, 4000);
  completion comp(1);
  // where it stays
  dd::task<void, C> owner = tree_detached<C>(e, t, comp, Obj(5));
  auto h = owner.start_and_detach(true);
  e.drain(cx, r.below((int)t.nodes.size() / 4 + 2));
  bool done = h.done();
  abandoning = true;
  h.destroy();
  abandoning = false;
  VM_CHECK(e.parked.empty(), "frame-not-destroyed", "%zu tasks survive the destruction of their owner", e.parked.size());
  VM_CHECK(e.started_all.get() == e.ended_all.get(), "locals-alive", "%ld bodies started, locals of %ld are destroyed", e.started_all.get(), e.ended_all.get());
  if (done) t.check_all();
  cx.observe((uint64_t)e.started_all.get() * 2 + done);
  cx.observations += (uint64_t)e.started_all.get();
  if (e.started_all.get() > 1) cx.nontrivial = true;
  cx.describe = "tree of " + std::to_string(t.nodes.size()) + " tasks, deepest " + std::to_string(deepest) + ", destroyed after " + std::to_string(e.started_all.get()) + " started";
}
SEQ_SCENARIO("C08", "big_trees", 4) { seq_trees<dd::null_context>(cx, cx.rng.chance(1, 4)); }
SEQ_SCENARIO("C08", "big_abandoned", 2) { abandoned_trees<dd::null_context>(cx); }
SEQ_SCENARIO("C09", "big_contexts", 4) { seq_trees<BigCtx>(cx, cx.rng.chance(1, 2)); }
SEQ_SCENARIO("C09", "big_abandoned", 1) { abandoned_trees<BigCtx>(cx); }
SEQ_SCENARIO("C19", "big_groups", 3) { seq_trees<dd::null_context>(cx, true); }

template <typename C>
void mt_trees(Ctx& cx, bool groups) {
  Rng& r = cx.rng;
  Env e;
  e.seq = false;
  dd::thread_pool pool((size_t)r.range(1, big(4, 9)));
  e.pool = &pool;
  int n = logsize(r, 1, big(5, 40));
  int throw_den = r.chance(1, 2) ? 0 : logsize(r, 2, 200);
  std::deque<Tree> trees(n);
  int deepest = 0, bodies = 0;
  size_t nodes = 0;
  for (auto& t : trees) {
    deepest = std::max(deepest, t.grow(r, groups, true, throw_den, r.below(9), big(30, TREE_DEPTH), big(40, 3000) / n + 1));
    bodies += t.bodies;
    nodes += t.nodes.size();
  }
  completion comp(n);
  std::vector<std::thread> ts;
  for (auto& t : trees) {
    switch (r.below(4)) {
      case 0: tree_job<C>(e, t, comp, Obj(5)); break;
      case 1: tree_detached<C>(e, t, comp, Obj(5)).start_and_detach(); break;
      case 2: {
        dd::task<void, C> x = tree_detached<C>(e, t, comp, Obj(5));
        dd::schedule_to(pool, [h = x.start_and_detach(false)] {});
        break;
      }
      default:
        ts.emplace_back([&e, &t, &comp] {
          int by = tree_task<C>(e, t, Obj(5)).get();
          VM_CHECK(by == t.nodes[0].fails, "wrong-result", "result %d", by);
          comp.one();
        });
    }
    if (ts.size() > 4) ts.back().join(), ts.pop_back();
  }
  for (auto& x : ts) x.join();
  comp.wait();
  for (auto& t : trees) t.check_all();
  cx.observe((uint64_t)nodes * 10007 + deepest);
  cx.observations += bodies;
  cx.describe = std::to_string(n) + " trees of " + std::to_string(nodes) + " tasks, " + std::to_string(bodies) + " run, deepest " + std::to_string(deepest);
}
MT_SCENARIO("C08", "big_threads", 3) { mt_trees<dd::null_context>(cx, false); }
MT_SCENARIO("C09", "big_threads", 2) { mt_trees<BigCtx>(cx, cx.rng.chance(1, 2)); }
MT_SCENARIO("C19", "big_groups_threads", 2) { mt_trees<dd::null_context>(cx, true); }

// thousands of tasks nobody has started yet, moved around, some thrown away
template <typename R>
dd::task<R> lazy(Env& e, BNode& n, Obj o, Pod* p) {
  n.started++;
  VM_CHECK(n.started == 1 && n.runs, "task-started-early", "task %d runs without being awaited", n.id);
  if (n.hops) co_await Park(e);
  VM_CHECK(o.get() == n.id, "object-corrupted", "argument of task %d", n.id);
  n.cell = n.id;
  n.ended++;
  if (n.throws) throw Exc{n.id};
  if constexpr (std::is_void_v<R>) co_return;
  else if constexpr (std::is_same_v<R, int&>) co_return n.cell;
  else co_return Val<R>::make(n.id);
}
template <typename R>
dd::task<void> collect(Env& e, std::vector<dd::task<R>>& v, std::vector<BNode*>& of) {
  for (size_t i = 0; i < v.size(); i++) {
    BNode& n = *of[i];
    VM_CHECK(n.started == 0, "task-started-early", "task %d", n.id);
    n.runs = true;
    int times = n.style == 0 ? 2 : 1;
    for (int k = 0; k < times; k++) {
      int by = 0;
      try {
        if constexpr (std::is_void_v<R>) co_await v[i];
        else { auto&& x = co_await v[i]; check_value<R>(n, x); }
      } catch (const Exc& x) {
        by = x.id;
      }
      VM_CHECK(n.started == 1 && n.ended == 1, "awaited-task-not-finished", "task %d", n.id);
      VM_CHECK(by == (n.throws ? n.id : 0), "wrong-exception", "exception %d of task %d", by, n.id);
    }
  }
}
template <typename R>
void moved_tasks(Ctx& cx) {
  Rng& r = cx.rng;
  Env e;
  e.order = Rng(r.next());
  int n = logsize(r, 1, 6000);
  std::deque<BNode> nodes(n);
  std::vector<dd::task<R>> v;
  std::vector<BNode*> of;
  int throw_den = r.chance(1, 2) ? 1 << 30 : 5;
  if (r.chance(1, 2)) v.reserve(n);
  for (int i = 0; i < n; i++) {
    BNode& b = nodes[i];
    b.id = i + 1;
    b.hops = r.chance(1, 5);
    b.throws = r.chance(1, throw_den);
    b.style = r.below(4);
    v.push_back(lazy<R>(e, b, Obj(b.id), nullptr));
    of.push_back(&b);
  }
  for (int k = r.below(5); k > 0; k--) {
    switch (r.below(4)) {
      case 0:
        std::reverse(v.begin(), v.end()), std::reverse(of.begin(), of.end());
        break;
      case 1: {
        size_t m = (size_t)r.below(n);
        std::rotate(v.begin(), v.begin() + (long)(m % v.size()), v.end());
        std::rotate(of.begin(), of.begin() + (long)(m % of.size()), of.end());
        break;
      }
      case 2: {  // some are destroyed without having run
        size_t from = (size_t)r.below((int)v.size()), to = from + (size_t)r.below((int)(v.size() - from) / 2 + 1);
        if (to - from == v.size()) break;
        v.erase(v.begin() + (long)from, v.begin() + (long)to);
        of.erase(of.begin() + (long)from, of.begin() + (long)to);
        break;
      }
      default: {
        for (size_t i = v.size(); i > 1; i--) {
          size_t j = (size_t)r.below((int)i);
          std::swap(v[i - 1], v[j]);
          std::swap(of[i - 1], of[j]);
        }
      }
    }
  }
  for (auto& b : nodes) VM_CHECK(b.started == 0, "task-started-early", "task %d runs before it is awaited", b.id);
  dd::task<void> c = collect<R>(e, v, of);
  auto h = c.start_and_detach(true);
  e.drain(cx);
  VM_CHECK(h.done(), "awaited-task-not-finished", "the collector does not come to its end");
  h.destroy();
  long ran = 0;
  for (auto& b : nodes) {
    VM_CHECK(b.started == b.runs && b.ended == b.runs, "awaited-task-not-finished", "task %d", b.id);
    ran += b.runs;
  }
  VM_CHECK(ran == (long)v.size(), "lost-task", "%ld of %zu tasks run", ran, v.size());
  v.clear();
  cx.observe((uint64_t)n * 100003 + ran);
  cx.observations += ran;
  cx.nontrivial = true;
  cx.describe = std::to_string(n) + " unstarted tasks, " + std::to_string(ran) + " awaited";
}
SEQ_SCENARIO("C08", "big_moved", 2) {
  switch (cx.rng.below(6)) {
    case 0: return moved_tasks<int>(cx);
    case 1: return moved_tasks<Obj>(cx);
    case 2: return moved_tasks<void>(cx);
    case 3: return moved_tasks<std::string>(cx);
    case 4: return moved_tasks<int&>(cx);
    default: return moved_tasks<Odd>(cx);
  }
}

}  // namespace
VM_MAIN
