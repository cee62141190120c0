// C21 many coroutines over many resources, C22 long histories of a stack_resource, C26 many fire-and-forget coroutines
#include "vbig.hpp"
#include "vmem.hpp"
#include <map>
#include "kelcoro/async_task.hpp"
#include "kelcoro/channel.hpp"
#include "kelcoro/generator.hpp"
#include "kelcoro/job.hpp"
#include "kelcoro/stack_memory_resource.hpp"
#include "kelcoro/task.hpp"
#include "kelcoro/thread_pool.hpp"

using vm::big;
using vm::completion;
using vm::Ctx;
using vm::logsize;
using vm::MAX_DEPTH;
using vm::MoveOnly;
using vm::Obj;
using vm::Pod;
using vm::Rng;

namespace {

// =====================================================================================================
// C21
// =====================================================================================================
struct Mem {
  Arena arenas[ARENAS];
  Arena more[2];
  PArena pmr[3];
  std::pmr::memory_resource* old;
  Mem() {
    for (int i = 0; i < ARENAS; i++) arenas[i].id = i;
    for (int i = 0; i < 2; i++) more[i].id = 10 + i;
    pmr[0].a = &arenas[2];
    pmr[1].a = &more[0];
    pmr[2].a = &more[1];
    g_arenas = arenas;
    old = &dd::pmr::set_default_resource(pmr[2]);
  }
  ~Mem() {
    dd::pmr::set_default_resource(*old);
    g_arenas = nullptr;
  }
  long live() {
    long s = 0;
    for (auto& a : arenas) s += a.live.get();
    for (auto& a : more) s += a.live.get();
    return s;
  }
  void acquire() {
    for (auto& a : arenas) vm::hb_acquire(&a.live);
    for (auto& a : more) vm::hb_acquire(&a.live);
  }
};

struct Rec {
  int id = 0, susp = 0;
  std::coroutine_handle<> h;
  const void* place = nullptr;  // an object of its frame
  vs::counter locals, ended;
  struct Any {
    virtual ~Any() = default;
    virtual void use(Rec&, int steps) = 0;
  };
  std::unique_ptr<Any> obj;
  int kind = 0;
  // threads
  dd::thread_pool* pool = nullptr;
  completion* comp = nullptr;
};
struct Here {  // an object in the frame
  Rec& r;
  explicit Here(Rec& r) : r(r) { r.locals.add(); }
  Here(Here&&) = delete;
  ~Here() { r.locals.add(-1); }
};
struct Stop {
  Rec& r;
  bool await_ready() { return false; }
  void await_suspend(std::coroutine_handle<> x) { r.h = x; }
  void await_resume() { r.h = nullptr; }
};
struct Last {  // the only local which is destroyed after the others
  completion* c;
  ~Last() {
    if (c) c->one();
  }
};

#define BODY(N, POINT, RET)                                                                                                    \
  Here here(c);                                                                                                                \
  unsigned char pad[(N) + 1];                                                                                                  \
  memset(pad, c.id & 255, (N) + 1);                                                                                            \
  c.place = pad + (N) / 2;                                                                                                     \
  for (int i = 0; i < c.susp; i++) {                                                                                           \
    POINT;                                                                                                                     \
    VM_CHECK(pad[0] == (c.id & 255) && pad[N] == (c.id & 255) && pad[(N) / 2] == (c.id & 255), "frame-overlap", "locals of coroutine %d are overwritten", c.id); \
    VM_CHECK(o.get() == c.id && m.get() == c.id + 1 && a == c.id + 0.5 && b == 'b' && s.size() == (size_t)(c.id % 50), "object-corrupted", "arguments of coroutine %d", c.id); \
  }                                                                                                                            \
  for (unsigned char x : pad) VM_CHECK(x == (c.id & 255), "frame-overlap", "locals of coroutine %d are overwritten", c.id);    \
  c.ended.add();                                                                                                               \
  RET;

struct Gen {
  using C = dd::generator<int>;
  template <typename R> using typed = dd::generator_r<int, R>;
  template <typename CC, int N, typename... W>
  static CC body(Rec& c, Obj o, double a, char b, std::string s, MoveOnly m, W...) {
    BODY(N, co_yield i, )
  }
  template <typename CC>
  static void use(CC& x, Rec& c, int steps) {
    int k = 0;
    if (steps <= 0) return;
    for (int v : x) {
      VM_CHECK(v == k, "wrong-values", "value %d, expected %d", v, k);
      if (++k >= steps) break;
    }
    VM_CHECK(k == std::min(steps, c.susp), "wrong-values", "%d values of %d", k, c.susp);
  }
};
struct Task {
  using C = dd::task<int>;
  template <typename R> using typed = dd::task_r<int, R>;
  template <typename CC, int N, typename... W>
  static CC body(Rec& c, Obj o, double a, char b, std::string s, MoveOnly m, W...) {
    BODY(N, if (c.pool) (void)co_await dd::jump_on(*c.pool), co_return c.id * 3)
  }
  template <typename CC>
  static void use(CC& x, Rec& c, int steps) {
    if (steps <= 0) return;
    int v = x.get();
    VM_CHECK(v == c.id * 3 && c.ended.get() == 1, "wrong-result", "%d of coroutine %d", v, c.id);
  }
};
struct Job {
  using C = dd::job;
  template <typename R> using typed = dd::job_r<R>;
  template <typename CC, int N, typename... W>
  static CC body(Rec& c, Obj o, double a, char b, std::string s, MoveOnly m, W...) {
    BODY(N, if (c.pool) (void)co_await dd::jump_on(*c.pool); else co_await Stop{c}, if (c.comp) c.comp->one(); co_return)
  }
  template <typename CC>
  static void use(CC&, Rec&, int) {}
};
struct Async {
  using C = dd::async_task<int>;
  template <typename R> using typed = dd::async_task_r<int, R>;
  template <typename CC, int N, typename... W>
  static CC body(Rec& c, Obj o, double a, char b, std::string s, MoveOnly m, W...) {
    BODY(N, if (c.pool) (void)co_await dd::jump_on(*c.pool); else co_await Stop{c}, if (c.comp) c.comp->one(); co_return c.id * 5)
  }
  template <typename CC>
  static void use(CC& x, Rec& c, int steps) {
    if (steps <= 0) return;
    if (!c.pool)
      while (c.h) c.h.resume();
    int v = x.get();
    VM_CHECK(v == c.id * 5 && c.ended.get() == 1, "wrong-result", "%d of coroutine %d", v, c.id);
  }
};
template <typename K, typename CC>
struct Holds final : Rec::Any {
  CC x;
  explicit Holds(CC&& v) : x(std::move(v)) {}
  void use(Rec& c, int steps) override { K::use(x, c, steps); }
};

struct Maker {
  Mem& m;
  Arena* pending = nullptr;  // of this thread
  Arena* expected = nullptr;
  explicit Maker(Mem& m) : m(m) {}
  void pass(int i) {
    dd::pmr::pass_resource(m.pmr[i]);
    pending = m.pmr[i].a;
  }
  template <typename K, typename CC, int N, typename... W>
  void run(Rec& c, W&&... w) {
    tl = Trace{};
    c.obj = std::make_unique<Holds<K, CC>>(K::template body<CC, N, std::remove_cvref_t<W>...>(c, Obj(c.id), c.id + 0.5, 'b', std::string((size_t)(c.id % 50), 's'), MoveOnly(c.id + 1), std::forward<W>(w)...));
    VM_CHECK(tl.a == expected && tl.allocs == (expected ? 1 : 0), "wrong-resource", "coroutine %d is taken from resource %d (%ld blocks), expected %d", c.id, tl.a ? tl.a->id : -1, tl.allocs, expected ? expected->id : -1);
    VM_CHECK(!expected || tl.n >= (size_t)N, "block-too-small", "%zu bytes", tl.n);
    if (expected && c.place) VM_CHECK((char*)c.place >= tl.p && (char*)c.place < tl.p + tl.n, "frame-elsewhere", "local of coroutine %d at %p, its frame at %p, %zu bytes", c.id, c.place, (void*)tl.p, tl.n);
    if (std::is_same_v<K, Job>) c.obj.reset();
  }
  template <typename K, int N>
  void res(Rec& c, int which, Rng& r) {
#if defined(__clang__) && !defined(__OPTIMIZE__)
    // clang -O0 writes the return object converted from 'job' into the frame, which may be gone: compiler bug
    if (std::is_same_v<K, Job> && which >= 4 && which <= 6) which = 3;
#endif
    switch (which) {
      case 0: expected = &m.arenas[0]; return run<K, typename K::C, N>(c, dd::with_resource<StaticRes>{});
      case 1: {
        Arena& a = m.arenas[r.below(ARENAS)];
        expected = &a;
        return run<K, typename K::C, N>(c, dd::with_resource<Fat>(a));
      }
      case 2: {
        Arena& a = m.arenas[r.below(ARENAS)];
        expected = &a;
        return run<K, typename K::C, N>(c, dd::with_resource<dd::chunk_from<Arena>>(a));
      }
      case 3: {
        PArena& a = m.pmr[r.below(3)];
        expected = a.a;
        return run<K, typename K::C, N>(c, dd::with_pmr_resource(static_cast<std::pmr::memory_resource&>(a)));
      }
      case 4:
        if (r.chance(1, 2)) pass(r.below(2));
        [[fallthrough]];
      case 5: {
        expected = pending ? std::exchange(pending, nullptr) : m.pmr[2].a;
        return run<K, typename K::template typed<Poly>, N>(c);
      }
      case 6: expected = &m.arenas[4]; return run<K, typename K::template typed<Fat>, N>(c);
      case 7: {
        Arena& a = m.arenas[r.below(ARENAS)];
        expected = &a;
        return run<K, typename K::C, N>(c, dd::with_resource<Wide>(a));
      }
      case 8: {
        Arena& a = m.arenas[r.below(ARENAS)];
        expected = &a;
        return run<K, typename K::C, N>(c, dd::with_resource<Tiny>(a));
      }
      default: expected = nullptr; return run<K, typename K::C, N>(c);
    }
  }
  template <int N>
  void kind(Rec& c, int which, Rng& r) {
    switch (c.kind) {
      case 0: return res<Gen, N>(c, which, r);
      case 1: return res<Task, N>(c, which, r);
      case 2: return res<Job, N>(c, which, r);
      default: return res<Async, N>(c, which, r);
    }
  }
  void make(Rec& c, Rng& r, long& budget, Ctx& cx) {
    int which = r.below(10);
    int size = r.below(12);
    if (size == 0 && budget > 1000000) {
      budget -= 900000;
      expected = &m.arenas[1];
      c.kind = 0;
      run<Gen, dd::generator<int>, 900000>(c, dd::with_resource<dd::chunk_from<Arena>>(m.arenas[1]));
    } else if (size == 1 && budget > 1000000) {
      budget -= 70000;
      expected = pending ? std::exchange(pending, nullptr) : m.pmr[2].a;
      c.kind = 1;
      run<Task, dd::task_r<int, Poly>, 70000>(c);
    } else if (size < 4 && budget > 1000000) {
      budget -= 3000;
      kind<3000>(c, which, r);
    } else
      kind<5>(c, which, r);
    cx.observe((uint64_t)(which * 16 + size));
  }
};

SEQ_SCENARIO("C21", "big_many", 3) {
  Rng& r = cx.rng;
  Mem m;
  long res0 = live_resources.get();
  long budget = 20 << 20;
  int n = logsize(r, 1, 4000);
  std::deque<Rec> recs((size_t)n);
  std::vector<int> alive;
  Maker mk(m);
  int order = r.below(3), made = 0, ended = 0;
  int keep = logsize(r, 1, n);
  auto end = [&](Rec& c) {
    int steps = r.below(3) ? r.range(0, c.susp + 1) : 0;
    if (c.kind == 2) {
      for (int i = 0; i < steps && c.h; i++) c.h.resume();
      if (c.h) c.h.destroy();
    } else if (c.kind == 3) {
      while (c.h) c.h.resume();
      c.obj->use(c, steps);
      c.obj.reset();
    } else {
      c.obj->use(c, steps);
      c.obj.reset();
    }
    VM_CHECK(c.locals.get() == 0, "frame-not-destroyed", "coroutine %d", c.id);
    ended++;
  };
  while (ended < n) {
    if (made < n && ((int)alive.size() < keep || r.chance(1, 3))) {
      Rec& c = recs[(size_t)made];
      c.id = made;
      c.susp = r.range(0, 3);
      c.kind = r.below(4);
      mk.make(c, r, budget, cx);
      alive.push_back(made++);
      if (r.chance(1, 10)) mk.pass(r.below(2));
    } else {
      size_t i = order == 0 ? alive.size() - 1 : order == 1 ? 0 : (size_t)r.below((int)alive.size());
      Rec& c = recs[(size_t)alive[i]];
      if (order == 1) std::swap(alive[0], alive.back()), i = alive.size() - 1;
      std::swap(alive[i], alive.back());
      alive.pop_back();
      end(c);
    }
  }
  if (mk.pending) (void)Poly();
  cx.nontrivial = n > 2;
  cx.describe = std::to_string(n) + " coroutines, " + std::to_string(keep) + " at a time, order " + std::to_string(order);
  VM_CHECK(m.live() == 0, "memory-leak", "%ld blocks are not returned to their resource", m.live());
  VM_CHECK(live_resources.get() == res0, "resource-leak", "%ld resource objects are left", live_resources.get() - res0);
}

MT_SCENARIO("C21", "big_many_threads", 3) {
  Rng& r = cx.rng;
  Mem m;
  long res0 = live_resources.get();
  int n = logsize(r, 2, big(30, 1500));
  int T = r.range(1, 3);
  std::deque<Rec> recs((size_t)n);
  std::vector<std::vector<int>> plan((size_t)T), ends((size_t)T);
  int finishing = 0;
  for (int i = 0; i < n; i++) {
    recs[(size_t)i].kind = r.below(4);
    recs[(size_t)i].susp = r.range(0, 2);
    plan[(size_t)r.below(T)].push_back(i);
    ends[(size_t)r.below(T)].push_back(i);
  }
  vs::counter frames;
  {
    dd::thread_pool pool((size_t)r.range(1, big(2, 4)));
    std::deque<completion> comps;
    std::vector<Ctx> ctx((size_t)T);
    auto making = [&](int t, uint64_t seed) {
      Rng tr(seed);
      Maker mk(m);
      long budget = big(200000, 8 << 20);
      for (int i : plan[(size_t)t]) {
        Rec& c = recs[(size_t)i];
        c.id = i;
        c.pool = &pool;
        if (tr.chance(1, 10)) mk.pass(tr.below(2));
        // kinds may change for the biggest frames
        int which = tr.below(10);
        tl = Trace{};
        if (tr.chance(1, 5) && budget > 5000) {
          budget -= 3000;
          mk.kind<3000>(c, which, tr);
        } else
          mk.kind<5>(c, which, tr);
        ctx[(size_t)t].observe((uint64_t)which);
      }
      if (mk.pending) (void)Poly();
    };
    // eager coroutines count down when they end
    for (auto& c : recs)
      if (c.kind >= 2) finishing++;
    comps.emplace_back(finishing);
    for (auto& c : recs)
      if (c.kind >= 2) c.comp = &comps[0];
    {
      std::vector<std::thread> th;
      for (int t = 0; t < T; t++) th.emplace_back(making, t, r.next());
      for (auto& t : th) t.join();
    }
    // used and destroyed by other threads
    {
      std::vector<std::thread> th;
      for (int t = 0; t < T; t++)
        th.emplace_back([&, t, tr = Rng(r.next())]() mutable {
          for (int i : ends[(size_t)t]) {
            Rec& c = recs[(size_t)i];
            if (!c.obj) continue;
            int steps = c.kind == 0 ? tr.range(0, c.susp + 1) : tr.below(2);
            c.obj->use(c, steps);
            c.obj.reset();
          }
        });
      for (auto& t : th) t.join();
    }
    comps[0].wait();
    for (auto& x : ctx) cx.observe(x.sig);
  }
  // the workers are joined
  VM_CHECK(m.live() == 0, "memory-leak", "%ld blocks are not returned to their resource", m.live());
  m.acquire();
  for (auto& c : recs) VM_CHECK(c.locals.get() == 0, "frame-not-destroyed", "coroutine %d", c.id);
  VM_CHECK(live_resources.get() == res0, "resource-leak", "%ld resource objects are left", live_resources.get() - res0);
  cx.nontrivial = true;
  cx.describe = std::to_string(n) + " coroutines " + std::to_string(T) + " threads";
}

// =====================================================================================================
// C22
// =====================================================================================================
struct Block {
  unsigned char* p;
  size_t len;
  unsigned char pat;
};
struct Checked {
  std::unique_ptr<std::byte[]> mem;
  unsigned char* buf = nullptr;
  size_t buflen = 0;
  std::optional<dd::stack_resource> res;
  std::vector<Block> blocks;
  std::map<unsigned char*, size_t> taken;  // address -> length
  size_t total = 0, peak_len = 0;
  unsigned char next = 1;
  explicit Checked(size_t bl) : buflen(bl) {
    blocks.reserve(8192);
    if (bl) {
      mem = std::make_unique<std::byte[]>(bl + 64);
      uintptr_t q = ((uintptr_t)mem.get() + 15) & ~(uintptr_t)15;
      if (q % 32 == 0) q += 16;
      buf = (unsigned char*)q;
      memset(mem.get(), 0x5A, bl + 64);
      res.emplace(std::span<unsigned char>(buf, bl));
    } else
      res.emplace();
  }
  bool in_buf(const unsigned char* p, size_t n) const { return buflen && p >= buf && p + n <= buf + buflen; }
  void push(size_t len, Ctx& cx) {
    auto* p = (unsigned char*)res->allocate(len);
    VM_CHECK(p && (uintptr_t)p % dd::coroframe_align() == 0, "block-misaligned", "allocate(%zu) gives %p", len, (void*)p);
    auto it = taken.lower_bound(p);
    VM_CHECK(it == taken.end() || p + len <= it->first, "blocks-overlap", "block of %zu bytes overlaps the one after it", len);
    VM_CHECK(it == taken.begin() || std::prev(it)->first + std::prev(it)->second <= p, "blocks-overlap", "block of %zu bytes overlaps the one before it", len);
    if (buflen) VM_CHECK(p + len <= buf || p >= buf + buflen || in_buf(p, len), "block-crosses-buffer", "block of %zu bytes", len);
    taken.emplace_hint(it, p, len);
    memset(p, next, len);
    blocks.push_back({p, len, next});
    if (++next == 0) next = 1;
    total += len;
    peak_len = std::max(peak_len, len);
    cx.observe(len * 2 + in_buf(p, len));
  }
  void check(const Block& b) {
    // all of it, by words of the same byte
    for (size_t i = 0; i < b.len; i++)
      if (b.p[i] != b.pat) [[unlikely]] VM_CHECK(false, "block-overwritten", "byte %zu of a block of %zu bytes is overwritten", i, b.len);
  }
  void check_buffer() {
    if (!buflen) return;
    for (auto* q = (unsigned char*)mem.get(); q < buf; q++) VM_CHECK(*q == 0x5A, "write-outside-of-buffer", "");
    for (auto* q = buf + buflen; q < (unsigned char*)mem.get() + buflen + 64; q++) VM_CHECK(*q == 0x5A, "write-outside-of-buffer", "");
  }
  size_t pop() {
    Block b = blocks.back();
    check(b);
    blocks.pop_back();
    taken.erase(b.p);
    total -= b.len;
    memset(b.p, 0xDD, b.len);
    res->deallocate(b.p, b.len);
    return b.len;
  }
  void all_at_once() {
    for (auto& b : blocks) check(b);
    blocks.clear();
    taken.clear();
    total = 0;
    res->reuse_memory();
  }
};

SEQ_SCENARIO("C22", "big_history", 3) {
  Rng& r = cx.rng;
  Checked s(r.chance(1, 3) ? 0 : (size_t)logsize(r, 16, 200000));
  constexpr size_t LIMIT = 12 << 20;
  size_t work = 24 << 20;  // bytes written
  int n = logsize(r, 10, 4000);
  int scale = logsize(r, 16, 400000);
  int style = r.below(4);
  long moves = 0;
  auto len = [&] { return (size_t)(style == 0 ? logsize(r, 1, scale) : style == 1 ? r.range(1, std::min(scale, 3000)) : style == 2 ? (r.chance(1, 20) ? logsize(r, 1, scale) : r.range(1, 64)) : logsize(r, 1, 1 << r.range(0, 18))); };
  int target = 0;
  for (int i = 0; i < n; i++) {
    if (target == 0) target = (r.chance(1, 2) ? 1 : -1) * logsize(r, 1, 600);
    if (target > 0) {
      --target;
      size_t l = len();
      if (s.total + l > LIMIT || work < l) continue;
      work -= l;
      s.push(l, cx);
    } else {
      ++target;
      if (s.blocks.empty()) continue;
      size_t l = s.pop();
      if (r.chance(1, 8)) {
        long n0 = vs::total_allocs();
        auto before = s.peak_len;
        size_t k = (size_t)r.range(1, (int)l);
        // the model's own memory is not counted
        s.blocks.reserve(s.blocks.size() + 1);
        auto* p = (unsigned char*)s.res->allocate(k);
        VM_CHECK(vs::total_allocs() == n0, "memory-not-reused", "%zu bytes right after %zu bytes were returned take new memory", k, l);
        s.res->deallocate(p, k);
        s.peak_len = before;
      }
    }
    if (r.chance(1, 300)) {
      s.all_at_once();
      size_t l = (size_t)r.range(1, (int)std::max<size_t>(1, s.peak_len));
      bool known = s.peak_len != 0, fits = s.buflen && (l + 15) / 16 * 16 <= s.buflen;
      long n0 = vs::total_allocs();
      if (known || fits) {
        auto* p = (unsigned char*)s.res->allocate(l);
        VM_CHECK(vs::total_allocs() == n0, "memory-not-reused", "%zu bytes after reuse_memory take new memory", l);
        if (fits) VM_CHECK(s.in_buf(p, l), "memory-not-reused", "initial buffer of %zu bytes is not used again for %zu bytes", s.buflen, l);
        s.res->deallocate(p, l);
      }
      target = 0;
    }
    if (r.chance(1, 100)) {
      moves++;
      dd::stack_resource t(std::move(*s.res));
      if (r.chance(1, 2)) *s.res = std::move(t);
      else {
        s.res.reset();
        s.res.emplace(std::move(t));
      }
    }
  }
  s.check_buffer();
  cx.describe = "buffer " + std::to_string(s.buflen) + ", " + std::to_string(n) + " steps, " + std::to_string(s.blocks.size()) + " blocks at the end";
  cx.nontrivial = n > 20;
  if (r.chance(1, 2))
    while (!s.blocks.empty()) s.pop();
  else
    for (auto& b : s.blocks) s.check(b);
}

// the same again and again: the number of chunks is bounded
SEQ_SCENARIO("C22", "big_repeated", 2) {
  Rng& r = cx.rng;
  Checked s(r.chance(1, 3) ? 0 : (size_t)logsize(r, 16, 20000));
  int pushes = r.range(2, 60), scale = logsize(r, 100, 60000);
  std::vector<int> ops;  // length, or 0: pop
  int depth = 0;
  for (int i = 0; i < pushes;) {
    if (depth && r.chance(2, 5)) ops.push_back(0), depth--;
    else ops.push_back(logsize(r, 1, scale)), depth++, i++;
  }
  bool at_once = r.chance(1, 2);
  int rounds = std::min(4 * pushes + 20, 3000000 / (pushes * (scale / 8 + 1)) + 6);
  long chunks = 0;
  std::vector<unsigned char*> st;
  std::vector<size_t> ln;
  st.reserve(64), ln.reserve(64);
  long n0 = vs::total_allocs();
  int k = 0;
  for (; k < rounds; k++) {
    for (int o : ops) {
      if (o) {
        st.push_back((unsigned char*)s.res->allocate((size_t)o));
        ln.push_back((size_t)o);
        memset(st.back(), k & 255, (size_t)o);
      } else {
        VM_CHECK(*st.back() == (k & 255), "block-overwritten", "");
        s.res->deallocate(st.back(), ln.back());
        st.pop_back(), ln.pop_back();
      }
    }
    for (size_t i = st.size(); i-- > 0;) {
      VM_CHECK(*st[i] == (k & 255) && st[i][ln[i] - 1] == (k & 255), "block-overwritten", "");
      if (!at_once) s.res->deallocate(st[i], ln[i]);
    }
    if (at_once) s.res->reuse_memory();
    st.clear(), ln.clear();
    chunks = vs::total_allocs() - n0;
    VM_CHECK(chunks <= 2 * pushes + 2, "memory-grows", "%ld chunks after %d rounds of %d blocks, all returned", chunks, k + 1, pushes);
  }
  cx.nontrivial = pushes > 4;
  cx.observe((uint64_t)pushes * 1000003 + (uint64_t)scale);
  cx.observe((uint64_t)chunks);
  cx.describe = std::to_string(pushes) + " blocks of up to " + std::to_string(scale) + ", " + std::to_string(rounds) + " rounds, " + std::to_string(chunks) + " chunks";
}

// deep stack-ordered nesting
struct Deep {
  int depth = 0;
  long inside = 0, peak = 0;
  bool stop = false;
  std::coroutine_handle<> h;
};
struct StopAt {
  Deep& d;
  bool await_ready() { return false; }
  void await_suspend(std::coroutine_handle<> h) { d.h = h; }
  void await_resume() {}
};
struct Inside {
  Deep& d;
  explicit Inside(Deep& d) : d(d) { d.peak = std::max(d.peak, ++d.inside); }
  ~Inside() { d.inside--; }
};
template <int N>
dd::task<long> deep_task(Deep& d, int depth, Obj o, uint64_t seed, dd::with_stack_resource sr);
dd::task<long> any_task(Deep& d, int depth, uint64_t seed, dd::with_stack_resource sr) {
  return seed % 7 == 0 ? deep_task<3000>(d, depth, Obj(depth), seed, sr) : seed % 2 ? deep_task<200>(d, depth, Obj(depth), seed, sr) : deep_task<1>(d, depth, Obj(depth), seed, sr);
}
template <int N>
dd::task<long> deep_task(Deep& d, int depth, Obj o, uint64_t seed, dd::with_stack_resource sr) {
  Inside in(d);
  unsigned char pad[N];
  memset(pad, depth & 255, N);
  long sum = depth;
  Rng r(seed);
  if (depth + 1 < d.depth) {
    int below = r.chance(1, 20) ? 2 : 1;
    // no more than one of the subtrees is deep
    if (below == 2) {
      Deep small;
      small.depth = r.range(1, 3);
      (void)co_await any_task(small, 0, r.next(), sr);
    }
    sum += co_await any_task(d, depth + 1, r.next(), sr);
  } else if (d.stop)
    co_await StopAt{d};
  for (unsigned char x : pad) VM_CHECK(x == (depth & 255), "blocks-overlap", "frame is overwritten");
  VM_CHECK(o.get() == depth, "object-corrupted", "");
  co_return sum;
}
template <int N>
dd::generator<int> deep_gen(Deep& d, int depth, Obj o, uint64_t seed, dd::with_stack_resource sr);
dd::generator<int> any_gen(Deep& d, int depth, uint64_t seed, dd::with_stack_resource sr) {
  return seed % 7 == 0 ? deep_gen<3000>(d, depth, Obj(depth), seed, sr) : seed % 2 ? deep_gen<200>(d, depth, Obj(depth), seed, sr) : deep_gen<1>(d, depth, Obj(depth), seed, sr);
}
template <int N>
dd::generator<int> deep_gen(Deep& d, int depth, Obj o, uint64_t seed, dd::with_stack_resource sr) {
  Inside in(d);
  unsigned char pad[N];
  memset(pad, depth & 255, N);
  Rng r(seed);
  co_yield depth;
  if (depth + 1 < d.depth) co_yield dd::elements_of(any_gen(d, depth + 1, r.next(), sr));
  for (unsigned char x : pad) VM_CHECK(x == (depth & 255), "blocks-overlap", "frame is overwritten");
  VM_CHECK(o.get() == depth, "object-corrupted", "");
  if (seed % 3) co_yield -1;
}
dd::job run_task(dd::task<long> t, long* out) { *out = co_await t; }

SEQ_SCENARIO("C22,C21", "big_nesting", 2) {
  Rng& r = cx.rng;
  Checked s(r.chance(1, 3) ? 0 : (size_t)logsize(r, 16, 100000));
  for (int round = r.range(1, 3); round > 0; round--) {
    Deep d;
    d.depth = logsize(r, 1, MAX_DEPTH / 3);
    int k = r.below(3);
    if (k == 0) {
      d.stop = r.chance(1, 2);
      long out = -1;
      if (d.stop) {
        auto t = any_task(d, 0, r.next(), *s.res);
        if (r.chance(1, 2)) {
          run_task(std::move(t), &out);
          VM_CHECK(!!d.h, "never-resumed", "");
          d.h.resume();
          VM_CHECK(out == (long)d.depth * (d.depth - 1) / 2, "wrong-result", "%ld", out);
        } else {
          // all of them end while they wait
          t.raw_handle().resume();
          VM_CHECK(d.inside == d.depth, "wrong-result", "%ld frames inside", d.inside);
        }
      } else {
        out = any_task(d, 0, r.next(), *s.res).get();
        VM_CHECK(out == (long)d.depth * (d.depth - 1) / 2, "wrong-result", "%ld", out);
      }
    } else {
      int stop = k == 1 ? 1 << 30 : r.range(1, d.depth), n = 0;
      for (int v : any_gen(d, 0, r.next(), *s.res)) {
        if (n < d.depth) VM_CHECK(v == n, "wrong-values", "value %d, expected %d", v, n);
        else VM_CHECK(v == -1, "wrong-values", "value %d", v);
        if (++n == stop) break;
      }
      VM_CHECK(n >= std::min(stop, d.depth), "wrong-values", "%d values", n);
      cx.observe((uint64_t)n);
    }
    VM_CHECK(d.inside == 0, "frame-not-destroyed", "%ld frames", d.inside);
    cx.observe((uint64_t)d.depth);
    cx.observe((uint64_t)d.peak);
    // everything was returned
    s.push(24, cx);
    s.pop();
    cx.nontrivial |= d.depth > 10;
  }
  s.check_buffer();
}

// =====================================================================================================
// C26
// =====================================================================================================
struct Mark {
  vs::counter* alive;
  explicit Mark(vs::counter& c) : alive(&c) { c.add(); }
  Mark(Mark&& o) : alive(o.alive) { alive->add(); }
  Mark(const Mark& o) : alive(o.alive) { alive->add(); }
  ~Mark() { alive->add(-1); }
};
struct Pass {
  std::vector<std::coroutine_handle<>> h;
  std::vector<int> order;
  vs::counter alive;
};
struct Park26 {
  std::coroutine_handle<>& out;
  bool await_ready() { return false; }
  void await_suspend(std::coroutine_handle<> h) { out = h; }
  void await_resume() {}
};
dd::job link26(Pass& p, int id, int how, Mark arg, Obj o) {
  Mark local(p.alive);
  co_await Park26{p.h[(size_t)id]};
  VM_CHECK(o.get() == id, "argument-corrupted", "argument of %d", id);
  p.order.push_back(id);
  bool last = (size_t)id + 1 == p.h.size();
  if (how == 2 || last) {
    // ends in one of the other ways, the main thread resumes the next one
    if (id % 3 == 0) co_await dd::this_coro::destroy;
    if (id % 3 == 1) co_await dd::this_coro::destroy_and_transfer_control_to(std::coroutine_handle<>(nullptr));
    co_return;
  }
  co_await dd::this_coro::destroy_and_transfer_control_to(p.h[(size_t)id + 1]);
  vs::fail("continued-after-destroy", "coroutine continued after destroying itself");
}
SEQ_SCENARIO("C26", "big_chain", 2) {
  Rng& r = cx.rng;
  Pass p;
  int n = logsize(r, 1, 20000);
  p.h.resize((size_t)n);
  std::vector<int> how;
  int stops = r.below(3);
  for (int i = 0; i < n; i++) {
    how.push_back(stops && r.chance(1, stops == 1 ? 10 : 500) ? 2 : 0);
    link26(p, i, how[(size_t)i], Mark(p.alive), Obj(i));
    VM_CHECK(!!p.h[(size_t)i], "job-did-not-run-to-first-suspension", "");
  }
  p.order.reserve((size_t)n);
  VM_CHECK(p.alive.get() == 2 * n, "frame-leak", "%ld arguments and locals of %d coroutines", p.alive.get(), n);
  while ((int)p.order.size() < n) {
    size_t at = p.order.size();
    p.h[at].resume();
    VM_CHECK(p.order.size() > at, "never-resumed", "");
    VM_CHECK(p.alive.get() == 2 * (n - (long)p.order.size()), "frame-leak", "%ld arguments and locals, %zu of %d coroutines ended", p.alive.get(), p.order.size(), n);
    cx.observe(p.order.size());
  }
  for (int i = 0; i < n; i++) VM_CHECK(p.order[(size_t)i] == i, "executed-twice", "coroutine %d continues in place %d", p.order[(size_t)i], i);
  cx.nontrivial = n > 2;
}

struct Env26 {
  dd::thread_pool* pool;
  dd::worker* w;
  completion* c;
  vs::counter alive, started;
};
struct Big {
  Pod p;
  explicit Big(int id) { p = vm::Val<Pod>::make(id); }
};
template <typename X>
struct Cap {
  X x;
  explicit Cap(int id) : x(id) {}
};
// a tree of jobs which start each other
template <typename X>
dd::job tree26(Env26& e, int id, int children, int depth, uint64_t seed, Mark arg, X o) {
  e.started.add();
  Mark local(e.alive);
  Rng r(seed);
  auto good = [&] {
    if constexpr (std::is_same_v<X, Big>) return vm::Val<Pod>::get(o.p) == id;
    else return o.get() == id;
  };
  int hops = r.range(0, 2);
  bool late = r.chance(1, 2);
  for (int part = 0; part < 2; part++) {
    if ((part == 1) == late && depth > 0)
      for (int i = 0; i < children; i++) {
        long before = e.started.get();
        if (r.chance(1, 3)) tree26<Big>(e, id + i + 1, children, depth - 1, r.next(), Mark(e.alive), Big(id + i + 1));
        else tree26<Obj>(e, id + i + 1, children, depth - 1, r.next(), Mark(e.alive), Obj(id + i + 1));
        VM_CHECK(e.started.get() > before, "job-did-not-run-to-first-suspension", "job did not start in its caller");
      }
    if (part == 0)
      for (int i = 0; i < hops; i++) {
        if (r.chance(1, 3)) (void)co_await dd::jump_on(*e.w);
        else (void)co_await dd::jump_on(*e.pool);
        VM_CHECK(good(), "argument-corrupted", "argument of %d", id);
      }
  }
  VM_CHECK(good(), "argument-corrupted", "argument of %d", id);
  e.c->one();
  if (r.chance(1, 3)) co_await dd::this_coro::destroy;
  if (r.chance(1, 3)) co_await dd::this_coro::destroy_and_transfer_control_to(std::coroutine_handle<>(nullptr));
}
MT_SCENARIO("C26", "big_jobs", 3) {
  Rng& r = cx.rng;
  int children = r.range(1, 3);
  int depth = children == 1 ? logsize(r, 1, big(20, 200)) : children == 2 ? r.range(1, big(3, 8)) : r.range(1, big(2, 5));
  long per = 0;
  for (long k = 1, i = 0; i <= depth; i++, k *= children) per += k;
  int roots = logsize(r, 1, (int)std::max<long>(1, big(40, 3000) / per));
  long n = roots * per;
  Env26 e{};
  completion c(n);
  {
    dd::thread_pool pool((size_t)r.range(1, big(2, 4)));
    dd::worker w;
    e.pool = &pool, e.w = &w, e.c = &c;
    int T = r.range(1, std::min(roots, 3));
    std::vector<std::thread> th;
    auto go = [&](int t, uint64_t seed) {
      Rng tr(seed);
      for (int i = t; i < roots; i += T) tree26<Obj>(e, i, children, depth, tr.next(), Mark(e.alive), Obj(i));
    };
    if (T == 1) go(0, r.next());
    else
      for (int t = 0; t < T; t++) th.emplace_back(go, t, r.next());
    for (auto& t : th) t.join();
    c.wait();
  }
  VM_CHECK(e.started.get() == n, "executed-too-often", "%ld jobs started, expected %ld", e.started.get(), n);
  VM_CHECK(e.alive.get() == 0, "frame-leak", "%ld arguments/locals of finished coroutines alive", e.alive.get());
  cx.observe((uint64_t)n);
  cx.observations += (uint64_t)n;
  cx.describe = std::to_string(n) + " jobs in " + std::to_string(roots) + " trees";
}

struct Fun26 {
  dd::thread_pool* pool;
  dd::worker* w;
  std::vector<vs::counter> runs;
  vs::counter alive, taken;
  PArena* res;
  Mem* mem;
};
struct Fn26 {
  Fun26& e;
  completion* c;
  int id, children;
  uint64_t seed;
  Mark m;
  Obj o;
  void operator()();
};
struct FatFn26 {  // more than a page of captures
  Fn26 f;
  Pod p;
  std::unique_ptr<int> own;  // can only be moved
  void operator()() {
    VM_CHECK(own && *own == f.id, "argument-corrupted", "owned capture");
    VM_CHECK(vm::Val<Pod>::get(p) == f.id, "argument-corrupted", "capture");
    f();
  }
};
// children of number i are i * k + 1 ... i * k + k
void schedule26(Fun26& e, completion* c, int id, int children, Rng& r) {
  Fn26 f{e, c, id, children, r.next(), Mark(e.alive), Obj(id)};
  dd::strand s(*e.w);
  dd::this_thread_executor_t inl;
  auto go = [&](auto fn) {
    switch (r.below(8)) {
      case 0: return (void)dd::schedule_to(*e.pool, std::move(fn));
      case 1: return (void)dd::schedule_to(*e.w, std::move(fn));
      case 2: return (void)dd::schedule_to(s, std::move(fn));
      case 3: e.taken.add(); return (void)dd::schedule_to(*e.pool, std::move(fn), dd::with_pmr_resource(static_cast<std::pmr::memory_resource&>(*e.res)));
      case 4: return (void)dd::schedule_to(*e.w, std::move(fn), dd::with_resource<Fat>(e.mem->arenas[3]));
      case 5: return (void)dd::schedule_to(inl, std::move(fn));
      case 6: return e.pool->schedule(std::move(fn));
      default: return e.pool->schedule(std::move(fn), (size_t)r.next());
    }
  };
  if (r.chance(1, 6)) go(FatFn26{std::move(f), vm::Val<Pod>::make(id), std::make_unique<int>(id)});
  else go(std::move(f));
}
void Fn26::operator()() {
  VM_CHECK(o.get() == id, "argument-corrupted", "capture of %d", id);
  e.runs[(size_t)id].add();
  Rng r(seed);
  for (int i = 1; i <= children; i++) {
    long k = (long)id * children + i;
    if (k < (long)e.runs.size()) schedule26(e, c, (int)k, children, r);
  }
  if (c) c->one();
}
MT_SCENARIO("C26", "big_functions", 3) {
  Rng& r = cx.rng;
  Mem m;
  Fun26 e;
  int n = logsize(r, 1, big(40, 3000));
  int children = r.range(0, 3);
  e.runs = std::vector<vs::counter>((size_t)n);
  e.res = &m.pmr[0];
  e.mem = &m;
  bool stopped = r.chance(1, 3);
  // a function which was not cancelled must not schedule to what is gone
  if (stopped) children = 0;
  // inline functions nest
  if (children == 1) n = std::min(n, 800), e.runs = std::vector<vs::counter>((size_t)n);
  completion c(n);
  PArena pool_res;  // queues and threads come from it too
  pool_res.frames_only = false;
  pool_res.a = &m.more[0];
  {
    dd::worker w;
    dd::thread_pool pool((size_t)r.range(1, big(2, 4)), dd::default_worker_job, pool_res);
    e.pool = &pool, e.w = &w;
    int T = r.range(1, 3);
    auto go = [&](int t, uint64_t seed) {
      Rng tr(seed);
      if (children == 0)
        for (int i = t; i < n; i += T) schedule26(e, stopped ? nullptr : &c, i, 0, tr);
      else if (t == 0) schedule26(e, stopped ? nullptr : &c, 0, children, tr);
    };
    std::vector<std::thread> th;
    for (int t = 0; t < T; t++) th.emplace_back(go, t, r.next());
    if (stopped) {
      pool.request_stop();
      for (auto& t : th) t.join();
    } else {
      for (auto& t : th) t.join();
      c.wait();
    }
  }
  long ran = 0;
  for (int i = 0; i < n; i++) {
    long k = e.runs[(size_t)i].get();
    VM_CHECK(k == 1 || (stopped && k == 0), k ? "executed-twice" : "lost-function", "function %d of %d invoked %ld times", i, n, k);
    ran += k;
  }
  m.acquire();
  VM_CHECK(e.alive.get() == 0, "frame-leak", "%ld captured objects alive", e.alive.get());
  VM_CHECK(m.live() == 0, "resource-leak", "%ld blocks are not returned", m.live());
  VM_CHECK(m.arenas[2].allocs.get() == e.taken.get(), "wrong-resource", "%ld blocks of the passed resource for %ld functions", m.arenas[2].allocs.get(), e.taken.get());
  cx.observe((uint64_t)ran);
  cx.observations += (uint64_t)n;
  cx.describe = std::to_string(n) + " functions, " + std::to_string(ran) + " invoked";
}

}  // namespace

VM_MAIN
