// C05 channel sequences, C06 channel exceptions and operations, C04 (channel part)
#include "vprog.hpp"

using vm::Ctx;
using vm::Exc;
using vm::MoveOnly;
using vm::Obj;
using namespace vp;

namespace {

// fire and forget coroutine of the harness itself
struct Fire {
  struct promise_type {
    Fire get_return_object() { return {}; }
    std::suspend_never initial_suspend() noexcept { return {}; }
    std::suspend_never final_suspend() noexcept { return {}; }
    void return_void() {}
    void unhandled_exception() { vs::fail("exception-escaped", "exception escaped from the consumer"); }
  };
};

struct Env {
  const World* w = nullptr;
  Trace t;
  const void* last_addr = nullptr;
  bool addr_known = false, addr_forbidden = false;
  std::pmr::memory_resource* mr = nullptr;
  // suspension inside of bodies
  std::vector<std::coroutine_handle<>> parked;  // sequential mode
  dd::worker* w0 = nullptr;
  dd::worker* w1 = nullptr;
  dd::thread_pool* pool = nullptr;
  vs::counter hops;
};
struct Park {
  Env& e;
  bool await_ready() { return false; }
  void await_suspend(std::coroutine_handle<> h) { e.parked.push_back(h); }
  void await_resume() {}
};

struct Guard {
  Env* e;
  int id;
  uint32_t magic = 0x6a6a6a6a;
  Guard(Env& e, int id) : e(&e), id(id) { e.t.r(E_GUARD, id); }
  Guard(const Guard&) = delete;
  ~Guard() {
    VM_CHECK(magic == 0x6a6a6a6a, "guard-destroyed-twice", "scope guard %d destroyed twice", id);
    magic = 0;
    e->t.r(E_UNGUARD, id);
  }
};
template <typename T>
int rawv(const T& x) {
  if constexpr (std::is_same_v<T, int>) return x;
  else { x.check("read"); return x.v; }
}
template <typename Y>
using val_t = std::remove_reference_t<Y>;
using with_pmr = dd::with_resource<dd::chunk_from<std::pmr::memory_resource>>;
template <typename Y>
using channel_rr = dd::channel_r<Y, dd::chunk_from<std::pmr::memory_resource>>;

template <typename Y>
dd::channel<Y> make(Env& e, int prog);

// clang-format off
#define VP_HOP(e, how)                                                   \
  do {                                                                   \
    (e).hops.add();                                                      \
    if (!(e).w0) co_await Park{e};                                       \
    else {                                                               \
      dd::schedule_status st_{};                                         \
      int how_ = (how) & 3;                                              \
      if (how_ == 0) st_ = co_await dd::jump_on(*(e).w0);                \
      else if (how_ == 1) st_ = co_await dd::jump_on(*(e).w1);           \
      else st_ = co_await dd::jump_on(*(e).pool);                        \
      VM_CHECK(st_.what == dd::schedule_errc::ok, "cancelled-while-running", "hop on a running executor was cancelled"); \
    }                                                                    \
  } while (0)

// consumes up to n values of the inner channel g from inside of a body
#define CHAN_CONSUME_SOME(Y, g, n, var)                                                  \
  do {                                                                                   \
    int i_ = 0;                                                                          \
    bool end_ = false;                                                                   \
    while (i_ < (n) && !end_) {                                                          \
      if ((var) & 2) {                                                                   \
        auto* p_ = co_await g.next();                                                    \
        if (p_) { e.t.r(E_INNER, rawv(*p_)); ++i_; continue; }                           \
        std::exception_ptr x_ = g.take_exception();                                      \
        if (!x_) { e.t.r(E_INNER_END, 0); end_ = true; continue; }                       \
        ++i_;                                                                            \
        try { std::rethrow_exception(x_); } catch (const Exc& ex_) { e.t.r(E_INNER_EXC, ex_.id); } \
        continue;                                                                        \
      }                                                                                  \
      bool reached_ = false; int got_ = 0;                                               \
      try {                                                                              \
        auto it_ = co_await g.begin();                                                   \
        for (;;) {                                                                       \
          if (it_ == g.end()) { reached_ = true; break; }                                \
          ++i_, ++got_;                                                                  \
          e.t.r(E_INNER, rawv(*it_));                                                    \
          if (i_ >= (n)) break;                                                          \
          (void)(co_await (++it_));                                                      \
        }                                                                                \
      } catch (const Exc& ex_) { ++i_; reached_ = false; e.t.r(E_INNER_EXC, ex_.id); }   \
      if (reached_) { e.t.r(E_INNER_END, 0); end_ = true; }                              \
    }                                                                                    \
  } while (0)

#define CHAN_BODY(Y)                                                                                         \
  using T = val_t<Y>;                                                                                       \
  constexpr bool isref = std::is_reference_v<Y>;                                                            \
  Guard g0(e, P->id);                                                                                       \
  for (size_t pc = 0; pc < P->code.size(); ++pc) {                                                          \
    const Instr& in = P->code[pc];                                                                          \
    VM_CHECK(arg.get() == P->id, "argument-corrupted", "coroutine argument changed");                       \
    std::optional<Guard> gi;                                                                                \
    if (in.guard) gi.emplace(e, in.guard);                                                                  \
    e.addr_known = e.addr_forbidden = false;                                                                \
    switch (in.kind) {                                                                                      \
      case I_EFFECT: e.t.r(E_EFFECT, in.v); break;                                                          \
      case I_HOP: VP_HOP(e, in.var); break;                                                                 \
      case I_THROW: throw Exc{in.v};                                                                        \
      case I_RETURN: co_return;                                                                             \
      case I_YTEMP:                                                                                         \
        if constexpr (!isref) { co_yield T(in.v); }                                                         \
        break;                                                                                              \
      case I_YNAMED:                                                                                        \
        if constexpr (!isref) {                                                                             \
          T x(in.v);                                                                                        \
          e.last_addr = std::addressof(x), e.addr_known = true;                                                            \
          co_yield std::move(x);                                                                            \
          e.t.r(E_READBACK, rawv(x));                                                                       \
        }                                                                                                   \
        break;                                                                                              \
      case I_YCONST:                                                                                        \
        if constexpr (!isref && std::is_copy_constructible_v<T>) {                                          \
          const T x(in.v);                                                                                  \
          e.last_addr = std::addressof(x), e.addr_forbidden = true;                                                        \
          co_yield x;                                                                                       \
          e.t.r(E_READBACK, rawv(x));                                                                       \
        }                                                                                                   \
        break;                                                                                              \
      case I_YREF: {                                                                                        \
        T x(in.v);                                                                                          \
        e.last_addr = std::addressof(x), e.addr_known = true;                                                              \
        if constexpr (isref) { if (in.var & 1) co_yield x; else co_yield dd::by_ref{x}; }                   \
        else co_yield dd::by_ref{x};                                                                        \
        e.t.r(E_READBACK, rawv(x));                                                                         \
        break;                                                                                              \
      }                                                                                                     \
      case I_SUB:                                                                                           \
        if (in.tried) {                                                                                     \
          bool caught = false;                                                                              \
          try { co_yield dd::elements_of(make<Y>(e, in.sub)); } catch (...) { caught = true; }              \
          if (caught) e.t.r(E_CAUGHT, in.v);                                                                \
        } else if (e.w->P[in.sub].res && (in.var & 1)) {                                                    \
          co_yield dd::elements_of(body_rr<Y>(e, &e.w->P[in.sub], Obj(e.w->P[in.sub].id), *e.mr));          \
        } else                                                                                              \
          co_yield dd::elements_of(make<Y>(e, in.sub));                                                     \
        break;                                                                                              \
      case I_SUB_EMPTY: co_yield dd::elements_of(dd::channel<Y>{}); break;                                  \
      case I_SUB_PART: {                                                                                    \
        dd::channel<Y> g = make<Y>(e, in.sub);                                                              \
        CHAN_CONSUME_SOME(Y, g, in.n, in.var);                                                              \
        if (in.var & 1) co_yield dd::elements_of(g);                                                        \
        else co_yield dd::elements_of(std::move(g));                                                        \
        e.t.r(E_INNER_EMPTY, g.empty());                                                                    \
        break;                                                                                              \
      }                                                                                                     \
      case I_SUB_RANGE:                                                                                     \
        if constexpr (isref) {                                                                              \
          std::vector<T> v; v.reserve(8);                                                                   \
          for (int i = 0; i < in.n; i++) v.emplace_back(in.v + 1 + i);                                      \
          co_yield dd::elements_of(v);                                                                      \
        } else if (in.var == 0) {                                                                           \
          std::vector<T> v; v.reserve(8);                                                                   \
          for (int i = 0; i < in.n; i++) v.emplace_back(in.v + 1 + i);                                      \
          co_yield dd::elements_of(std::move(v));                                                           \
        } else if (in.var == 1) {                                                                           \
          co_yield dd::elements_of(std::views::iota(in.v + 1, in.v + 1 + in.n) | std::views::transform([](int x) { return T(x); })); \
        } else if (in.var == 2) {                                                                           \
          co_yield dd::elements_of(int_range<T>(in.v + 1, in.n));                                           \
        } else {                                                                                            \
          std::vector<T> v; v.reserve(8);                                                                   \
          for (int i = 0; i < in.n; i++) v.emplace_back(in.v + 1 + i);                                      \
          co_yield dd::elements_of(std::span<T>(v));                                                        \
        }                                                                                                   \
        break;                                                                                              \
      case I_SUB_CONV:                                                                                      \
        if constexpr (std::is_same_v<Y, Obj> || std::is_same_v<Y, MoveOnly>) co_yield dd::elements_of(make<int>(e, in.sub)); \
        break;                                                                                              \
      case I_CONSUME: {                                                                                     \
        if (in.var & 1) {                                                                                   \
          co_foreach(auto&& x, make<Y>(e, in.sub)) {                                                        \
            e.addr_known = e.addr_forbidden = false;                                                        \
            if constexpr (isref) co_yield x;                                                                \
            else co_yield T(rawv(x));                                                                       \
          }                                                                                                 \
        } else {                                                                                            \
          dd::channel<Y> g = make<Y>(e, in.sub);                                                            \
          while (auto* p = co_await g.next()) {                                                             \
            e.addr_known = e.addr_forbidden = false;                                                        \
            if constexpr (isref) co_yield *p;                                                               \
            else co_yield T(rawv(*p));                                                                      \
          }                                                                                                 \
          if (std::exception_ptr x = g.take_exception()) std::rethrow_exception(x);                         \
        }                                                                                                   \
        break;                                                                                              \
      }                                                                                                     \
      default: break;                                                                                       \
    }                                                                                                       \
  }
// clang-format on

template <typename T>
dd::generator<T> int_range(int from, int n) {
  for (int i = 0; i < n; i++) co_yield T(from + i);
}

template <typename Y>
channel_rr<Y> body_rr(Env& e, const Prog* P, Obj arg, with_pmr);
template <typename Y>
dd::channel<Y> body(Env& e, const Prog* P, Obj arg) {
  CHAN_BODY(Y)
}
template <typename Y>
dd::channel<Y> body_r(Env& e, const Prog* P, Obj arg, with_pmr) {
  CHAN_BODY(Y)
}
template <typename Y>
channel_rr<Y> body_rr(Env& e, const Prog* P, Obj arg, with_pmr) {
  CHAN_BODY(Y)
}
template <typename Y>
dd::channel<Y> make(Env& e, int prog) {
  const Prog* P = &e.w->P[prog];
  if (P->res) {
    if (P->id & 1) return body_r<Y>(e, P, Obj(P->id), *e.mr);
    return body_rr<Y>(e, P, Obj(P->id), *e.mr).decay();
  }
  return body<Y>(e, P, Obj(P->id));
}

struct counting_resource : std::pmr::memory_resource {
  vs::counter live;
  struct head { size_t n; uint64_t magic; };
  void* do_allocate(size_t n, size_t) override {
    head* h = (head*)malloc(n + sizeof(head));
    h->n = n;
    h->magic = 0x1122334455667788ull;
    live.add();
    return h + 1;
  }
  void do_deallocate(void* p, size_t n, size_t) override {
    head* h = (head*)p - 1;
    VM_CHECK(h->magic == 0x1122334455667788ull && h->n == n, "resource-size-mismatch", "frame of %zu bytes returned as %zu", h->n, n);
    h->magic = 0;
    live.add(-1);
    free(h);
  }
  bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};

struct Profile {
  bool throws = false;
  int ops = 12, slots = 1;
  int p_write = 10, p_moveout = 5, p_own = 10, p_hop = 0;
  bool chain = false;
  int chain_len = 0;
};

template <typename Y>
struct Session {
  using T = val_t<Y>;
  using C = dd::channel<Y>;
  static constexpr bool isref = std::is_reference_v<Y>;
  static constexpr bool isint = std::is_same_v<T, int>;

  Ctx& cx;
  vm::Rng& r;
  Profile pf;
  World w;
  Env e;
  counting_resource res;
  struct Slot {
    std::optional<C> c;
    MGen m;
    T* cur = nullptr;  // current object, nullptr if none
    const void* addr = nullptr;
    bool addr_known = false, addr_forbidden = false;
    int begun = 0;  // session of the consumer that asked for a value last
  };
  std::vector<Slot> s;
  int nops = 0, part = 0;

  Session(Ctx& cx, Profile pf) : cx(cx), r(cx.rng), pf(pf) {
    e.w = &w;
    e.mr = &res;
  }
  int new_prog() {
    Opts o;
    o.throws = pf.throws;
    o.conv = std::is_same_v<T, Obj> || std::is_same_v<T, MoveOnly>;
    if (isref) o.conv = false;
    o.constcopy = !isref && std::is_copy_constructible_v<T>;
    o.ytemp = !isref;
    o.max_len = r.range(1, 7);
    o.max_depth = r.range(0, 4);
    int p;
    int p0 = (int)w.P.size();
    if (pf.chain) p = make_chain(w, r, o, pf.chain_len);
    else {
      int budget = r.range(2, 30);
      p = make_prog(w, r, o, 0, budget);
    }
    // suspension points anywhere between the instructions
    for (size_t i = p0; i < w.P.size(); i++) {
      std::vector<Instr> out;
      for (auto& in : w.P[i].code) {
        if (r.chance(pf.p_hop, 100)) { Instr h; h.kind = I_HOP; h.var = r.below(4); out.push_back(h); }
        out.push_back(in);
      }
      if (r.chance(pf.p_hop, 100)) { Instr h; h.kind = I_HOP; h.var = r.below(4); out.push_back(h); }
      w.P[i].code = std::move(out);
    }
    return p;
  }
  MGen model(int prog) {
    MGen m(&w, &e.t, prog);
    m.ints = isint, m.refs = isref;
    return m;
  }
  void put(Slot& x) {
    int p = new_prog();
    x.m = model(p);
    x.cur = nullptr;
    x.begun = 0;
    if (r.chance(1, 3)) {
      x.c.emplace();
      x.c->reset(make<Y>(e, p).release());
    } else
      x.c.emplace(make<Y>(e, p));
  }
  void look(Slot& x) {
    e.t.r(E_VALUE, rawv(*x.cur));
    e.t.m(E_VALUE, x.m.cur.moved ? MOVED : x.m.cur.v);
    if (x.addr_known) VM_CHECK((const void*)x.cur == x.addr, "yield-identity", "the consumer does not see the object that was yielded");
    if (x.addr_forbidden) VM_CHECK((const void*)x.cur != x.addr, "const-yield-aliases", "the consumer sees the const object of the body instead of a copy");
  }
  void before() { e.addr_known = e.addr_forbidden = false; }
  static C failing_body(bool yes) {
    if (yes) throw Exc{-4711};
    co_return;
  }
  // 'pend' is a channel whose exception nobody has taken yet
  static dd::job fail_it(C& t, C& pend) {
    dd::channel_iterator<Y> it = co_await t.begin();
    VM_CHECK(it == t.end(), "value-of-failed-channel", "a failed channel shows a value");
    pend.swap(t);
  }
  static void failed_channel(C& t, C& pend) {
    t = failing_body(true);
    fail_it(t, pend);
  }
  static int exc_id(std::exception_ptr p) {
    if (!p) return 0;
    try { std::rethrow_exception(p); } catch (const Exc& ex) { return ex.id; }
  }
  // exception of the last step. the channel may be moved before it is asked
  bool taken(Slot& x, int& id) {
    std::exception_ptr ep;
    switch (r.below(7)) {
      case 0: {
        C other(std::move(*x.c));
        VM_CHECK(!x.c->take_exception(), "exception-duplicated", "exception in a moved-from channel");
        ep = other.take_exception();
        *x.c = std::move(other);
        break;
      }
      case 1: {
        C other;
        if (r.chance(1, 2)) other.swap(*x.c);
        else { using std::swap; swap(other, *x.c); }
        VM_CHECK(!x.c->take_exception(), "exception-duplicated", "exception in a channel swapped with an empty one");
        *x.c = std::move(other);
        ep = x.c->take_exception();
        break;
      }
      case 2: {  // swapped with a channel that has one too
        C t, pend;
        failed_channel(t, pend);
        switch (r.below(3)) {
          case 0: x.c->swap(pend); break;
          case 1: pend.swap(*x.c); break;
          default: *x.c = std::move(pend);
        }
        VM_CHECK(exc_id(x.c->take_exception()) == -4711, "exception-lost", "a channel swapped with a failed one does not have its exception");
        if (r.chance(1, 2)) x.c->swap(pend);
        else pend.swap(*x.c);
        VM_CHECK(!pend.take_exception(), "exception-duplicated", "exception in a channel swapped with one that has none");
        ep = x.c->take_exception();
        break;
      }
      case 3: {  // swapped with an empty one from this side
        C other;
        if (r.chance(1, 2)) x.c->swap(other);
        else *x.c = std::move(other);
        VM_CHECK(!x.c->take_exception(), "exception-duplicated", "exception in a channel swapped with an empty one");
        ep = other.take_exception();
        other.swap(*x.c);
        break;
      }
      default: ep = x.c->take_exception();
    }
    VM_CHECK(!x.c->take_exception(), "exception-duplicated", "exception is given twice");
    if (!ep) return false;
    try { std::rethrow_exception(ep); } catch (const Exc& ex) { id = ex.id; }
    return true;
  }
  // result of one step of the real channel
  void after(Slot& x, T* p, bool exc, int id, const char* op) {
    step_result m = x.m.step();
    x.cur = p;
    x.addr = e.last_addr, x.addr_known = e.addr_known, x.addr_forbidden = e.addr_forbidden;
    if (!x.m.st.empty() && x.m.st.back().is_conv) x.addr_known = x.addr_forbidden = false;
    if (exc) e.t.r(E_EXC, id);
    else if (!p) e.t.r(E_END, 0);
    if (m == S_EXC) e.t.m(E_EXC, x.m.exc);
    if (m == S_END) e.t.m(E_END, 0);
    e.t.compare(cx, op);
    if (p) {
      VM_CHECK(m == S_VALUE, "trace:end-expected,value-seen", "after %s a value is reported although the body has none", op);
      look(x);
      e.t.compare(cx, op);
    } else
      VM_CHECK(m != S_VALUE, "trace:value-expected,end-seen", "after %s no value is reported although the body has one", op);
    check_empty(x);
  }
  void check_empty(Slot& x) {
    bool fin = x.m.finished();
    VM_CHECK(x.c->empty() == fin, fin ? "not-empty-after-finish" : "empty-too-early", "empty()=%d but the body %s", x.c->empty(), fin ? "has finished" : "has not finished");
    VM_CHECK((bool)*x.c == !fin, "bool-conversion", "operator bool disagrees with empty()");
    VM_CHECK(!x.c->take_exception(), "exception-left", "an exception which was already delivered is still stored");
  }
  void touch(Slot& x) {  // writes and moves of the current object
    if (!x.cur) return;
    int k = r.below(100);
    if (k < pf.p_write) {
      int v = w.next_id++;
      *x.cur = T(v);
      x.m.cur = Cell{v, false};
      look(x);
    } else if (k < pf.p_write + pf.p_moveout) {
      if constexpr (!isint)
        if (!x.m.cur.moved) {
          T got = std::move(*x.cur);
          VM_CHECK(got.get() == x.m.cur.v, "wrong-value", "moved-out value %d, expected %d", got.get(), x.m.cur.v);
          x.m.cur.moved = true;
        }
    } else if (k < 40)
      look(x);
    e.t.compare(cx, "access");
  }

  Fire consumer(vm::completion& done, int from_op, int to_op, bool last) {
    if (e.w0 && r.chance(1, 2)) VP_HOP(e, r.below(4));
    for (nops = from_op; nops < to_op; nops++) {
      Slot& x = s[r.below((int)s.size())];
      if (!x.c) {
        put(x);
        e.t.compare(cx, "creation");
        continue;
      }
      if (e.w0 && r.chance(1, 10)) VP_HOP(e, r.below(4));
      int k = r.below(100);
      if (k < pf.p_own) {
        own(x);
        continue;
      }
      if (k < 55) {  // one value with next()
        bool exc = false;
        int id = 0;
        before();
        T* p = co_await x.c->next();
        if (!p) exc = taken(x, id);
        x.begun = part;
        after(x, p, exc, id, "next");
        touch(x);
        continue;
      }
      if (k < 63 && x.cur && x.begun == part) {
        // another iterator of a channel this consumer has already begun. the channel may have been moved since then
        bool exc = false;
        int id = 0;
        T* p = nullptr;
        try {
          dd::channel_iterator<Y> it(*x.c);
          VM_CHECK(it != x.c->end() && it.operator->() == x.cur, "yield-identity", "new iterator shows another object");
          before();
          (void)(co_await (++it));
          if (it != x.c->end()) p = it.operator->();
        } catch (const Exc& ex) {
          exc = true;
          id = ex.id;
        }
        after(x, p, exc, id, "increment of another iterator");
        touch(x);
        continue;
      }
      // a loop which takes at most n values
      x.begun = part;
      int n = r.below(8);
      bool pending_exc = false, reached_end = false;
      bool foreach = r.chance(1, 3) && n > 0;
      int id = 0, got = 0;
      try {
        before();
        if (foreach) {
          co_foreach(Y && v, *x.c) {
            after(x, std::addressof(static_cast<T&>(v)), false, 0, "co_foreach");
            touch(x);
            if (++got >= n) break;
            before();
          }
          else {}
          if (got < n) reached_end = true;
        } else {
          auto it = co_await x.c->begin();
          VM_CHECK(&it.owner() == &*x.c && it.equivalent(dd::channel_iterator<Y>(*x.c)), "iterator-owner", "iterator does not belong to its channel");
          for (;;) {
            if (it == x.c->end()) { reached_end = true; break; }
            T* p = it.operator->();
            VM_CHECK(p == std::addressof(static_cast<T&>(*p)), "yield-identity", "operator-> and operator*");
            after(x, p, false, 0, got ? "increment" : "begin");
            touch(x);
            if (++got >= n) break;
            before();
            (void)(co_await (++it));
          }
        }
      } catch (const Exc& ex) {
        pending_exc = true;
        id = ex.id;
      }
      if (pending_exc) after(x, nullptr, true, id, "loop");
      else if (reached_end) after(x, nullptr, false, 0, "loop");
    }
    if (last) {
      for (auto& x : s) {
        if (!x.c) continue;
        if (r.chance(1, 2)) {
          int n = 0;
          do {
            bool exc = false;
            int id = 0;
            before();
            T* p = co_await x.c->next();
            if (!p) exc = taken(x, id);
            after(x, p, exc, id, "drain");
            if (++n > 3000) break;
          } while (!x.m.finished() || x.cur);
          if (x.m.finished()) {
            auto it = co_await x.c->begin();
            VM_CHECK(it == x.c->end(), "value-after-end", "begin() of a finished channel is not end()");
            VM_CHECK(co_await x.c->next() == nullptr, "value-after-end", "next() of a finished channel yields");
          }
        }
        x.m.destroy();
        x.c.reset();
        e.t.compare(cx, "destruction");
      }
    }
    done.one();
  }
  void swap_state(Slot& a, Slot& b) {
    std::swap(a.m, b.m);
    std::swap(a.cur, b.cur);
    std::swap(a.addr, b.addr);
    std::swap(a.addr_known, b.addr_known);
    std::swap(a.addr_forbidden, b.addr_forbidden);
    std::swap(a.begun, b.begun);
  }
  void check_cur(Slot& x) {
    dd::channel_iterator<Y> it(*x.c);
    VM_CHECK((it == x.c->end()) == (x.cur == nullptr), "iterator-after-operation", "iterator %s a value", x.cur ? "lost" : "still shows");
    if (x.cur) {
      VM_CHECK(it.operator->() == x.cur, "yield-identity", "iterator shows another object than before");
      look(x);
    }
  }
  void own(Slot& x) {
    Slot& y = s[r.below((int)s.size())];
    switch (r.below(8)) {
      case 0:
        if (&x == &y) {  // with itself
          C& self = *x.c;
          int k = r.below(3);
          if (k == 0) x.c->swap(self);
          else if (k == 1) { using std::swap; swap(*x.c, self); }
          else *x.c = std::move(self);
          check_cur(x);
          break;
        }
        if (!y.c) break;
        if (r.chance(1, 2)) x.c->swap(*y.c);
        else { using std::swap; swap(*x.c, *y.c); }
        swap_state(x, y);
        check_cur(x), check_cur(y);
        break;
      case 1: {
        C tmp(std::move(*x.c));
        VM_CHECK(x.c->empty() && dd::channel_iterator<Y>(*x.c) == x.c->end(), "moved-from-not-empty", "moved-from channel is not empty");
        if (!y.c) {
          y.c.emplace(std::move(tmp));
          y.m = MGen();
          y.cur = nullptr;
          swap_state(x, y);
          x.cur = nullptr;
          check_cur(y);
        } else {
          *x.c = std::move(tmp);
          check_cur(x);
        }
        break;
      }
      case 2: {
        if (!y.c || &x == &y) break;
        *x.c = std::move(*y.c);
        y.c.reset();
        x.m.destroy();
        x.m = std::move(y.m);
        y.m = MGen();
        x.cur = y.cur, x.addr = y.addr, x.addr_known = y.addr_known, x.addr_forbidden = y.addr_forbidden, x.begun = y.begun;
        y.cur = nullptr;
        check_cur(x);
        break;
      }
      case 3:
        x.c->clear();
        x.m.destroy();
        x.cur = nullptr;
        VM_CHECK(x.c->raw_handle() == nullptr, "not-empty-after-clear", "handle kept after clear");
        check_cur(x);
        break;
      case 4: {
        bool fin = x.m.finished();
        auto h = x.c->release();
        VM_CHECK(x.c->empty() && x.c->raw_handle() == nullptr, "not-empty-after-release", "released channel is not empty");
        if (h) VM_CHECK(h.done() == fin, "released-handle", "released handle has another state than its program");
        if (r.chance(1, 2) || !y.c || &x == &y || x.cur) {
          if (h) h.destroy();
          x.m.destroy();
        } else {
          y.m.destroy();
          y.c->reset(h);
          y.m = std::move(x.m);
          x.m = MGen();
          y.cur = nullptr;
          y.begun = 0;
          check_cur(y);
        }
        x.cur = nullptr;
        check_cur(x);
        break;
      }
      case 5:
        x.c->reset(nullptr);
        x.m.destroy();
        x.cur = nullptr;
        check_cur(x);
        break;
      case 6:
        x.c.reset();
        x.m.destroy();
        x.m = MGen();
        x.cur = nullptr;
        break;
      default:
        if (y.c) VM_CHECK((*x.c == *y.c) == (&x == &y || (x.m.finished() && y.m.finished())), "comparison", "operator== of channels");
        if (y.c) VM_CHECK(dd::channel_iterator<Y>(*x.c).equivalent(dd::channel_iterator<Y>(*y.c)) == (&x == &y), "iterator-owner", "iterators of different objects are equivalent, or of the same are not");
        break;
    }
    if (x.c) check_empty(x);
    if (y.c) check_empty(y);
    e.t.compare(cx, "ownership operation");
  }

  void prepare() {
    s.resize(pf.slots + 1);
    w.P.reserve(600);
    for (int i = 0; i < pf.slots; i++) put(s[i]);
    s[pf.slots].c.emplace();
    e.t.compare(cx, "creation");
  }
  void finish() {
    VM_CHECK(res.live.get() == 0, "frame-leak", "%ld frames not returned to their memory resource", res.live.get());
    char b[140];
    snprintf(b, sizeof b, "%d programs, %d operations, %d slots, %ld suspensions, %llu events", (int)w.P.size(), pf.ops, pf.slots, e.hops.get(), (unsigned long long)cx.observations);
    cx.describe = b;
    cx.nontrivial = cx.observations >= 4;
  }
  void run_seq() {
    prepare();
    // one or several consumers one after another
    int parts = r.chance(1, 3) ? r.range(2, 3) : 1, at = 0;
    for (int p = 0; p < parts; p++) {
      int to = p == parts - 1 ? pf.ops : at + (pf.ops - at) / 2;
      vm::completion done(1);
      part = p + 1;
      consumer(done, at, to, p == parts - 1);
      int guard = 0;
      while (!done.done.is_set()) {
        VM_CHECK(e.parked.size() == 1, "lost-resumption", "%zu suspended coroutines although one logical thread is running", e.parked.size());
        auto h = e.parked.back();
        e.parked.pop_back();
        h.resume();
        VM_CHECK(++guard < 100000, "no-progress", "consumer does not finish");
      }
      VM_CHECK(e.parked.empty(), "lost-resumption", "coroutines left after the consumer finished");
      at = to;
    }
    finish();
  }
  void run_mt() {
    {
      dd::worker w0, w1;
      dd::thread_pool pool(2);
      e.w0 = &w0, e.w1 = &w1, e.pool = &pool;
      prepare();
      int parts = r.chance(1, 2) ? 2 : 1, at = 0;
      for (int p = 0; p < parts; p++) {
        int to = p == parts - 1 ? pf.ops : at + (pf.ops - at) / 2;
        vm::completion done(1);
        part = p + 1;
        consumer(done, at, to, p == parts - 1);
        done.wait();
        at = to;
      }
    }
    finish();
  }
};

template <typename F>
void with_type(vm::Rng& r, F f) {
  switch (r.below(5)) {
    case 0: f(std::type_identity<int>{}); break;
    case 1: case 2: f(std::type_identity<Obj>{}); break;
    case 3: f(std::type_identity<MoveOnly>{}); break;
    default: f(std::type_identity<Obj&>{}); break;
  }
}
void session(Ctx& cx, Profile pf, bool threads = false) {
  with_type(cx.rng, [&]<typename Y>(std::type_identity<Y>) {
    Session<Y> s(cx, pf);
    threads ? s.run_mt() : s.run_seq();
  });
}

SEQ_SCENARIO("C05", "programs", 6) {
  Profile p;
  p.ops = cx.rng.range(1, 30);
  p.slots = cx.rng.range(1, 2);
  p.p_own = cx.rng.chance(1, 2) ? 0 : 5;
  p.p_hop = cx.rng.chance(1, 2) ? 0 : 20;
  session(cx, p);
}
SEQ_SCENARIO("C05", "chains", 1) {
  Profile p;
  p.ops = cx.rng.range(1, 20);
  p.chain = true;
  p.chain_len = cx.rng.chance(1, 8) ? cx.rng.range(20, 120) : cx.rng.range(1, 12);
  p.p_own = 2;
  p.p_hop = cx.rng.chance(1, 2) ? 0 : 20;
  session(cx, p);
}
MT_SCENARIO("C05", "threads", 3) {
  Profile p;
  p.ops = cx.rng.range(1, 14);
  p.p_hop = 30;
  p.p_own = 3;
  session(cx, p, true);
}
SEQ_SCENARIO("C06", "throwing", 6) {
  Profile p;
  p.throws = true;
  p.ops = cx.rng.range(1, 40);
  p.slots = cx.rng.range(1, 2);
  p.p_own = cx.rng.chance(1, 2) ? 0 : 8;
  p.p_hop = cx.rng.chance(1, 2) ? 0 : 20;
  session(cx, p);
}
SEQ_SCENARIO("C06", "throwing_chains", 1) {
  Profile p;
  p.throws = true;
  p.chain = true;
  p.chain_len = cx.rng.range(1, 14);
  p.ops = cx.rng.range(1, 30);
  session(cx, p);
}
SEQ_SCENARIO("C06", "ownership", 4) {
  Profile p;
  p.throws = cx.rng.chance(1, 2);
  p.ops = cx.rng.range(4, 50);
  p.slots = cx.rng.range(2, 4);
  p.p_own = cx.rng.range(20, 50);
  p.p_hop = cx.rng.chance(1, 2) ? 0 : 20;
  session(cx, p);
}
MT_SCENARIO("C06", "threads_throwing", 2) {
  Profile p;
  p.throws = true;
  p.ops = cx.rng.range(1, 14);
  p.p_hop = 30;
  p.p_own = 10;
  p.slots = cx.rng.range(1, 2);
  session(cx, p, true);
}
SEQ_SCENARIO("C04", "channel_two_way", 6) {
  Profile p;
  p.throws = cx.rng.chance(1, 6);
  p.ops = cx.rng.range(4, 50);
  p.slots = cx.rng.range(1, 3);
  p.p_own = 6;
  p.p_write = 25;
  p.p_moveout = 12;
  p.p_hop = cx.rng.chance(1, 2) ? 0 : 20;
  session(cx, p);
}

}  // namespace
VM_MAIN
