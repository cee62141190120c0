// C01 sequences, C02 exceptions, C03 ownership, C04 yielded objects, C07 in-place generators
#include "vprog.hpp"

using vm::Ctx;
using vm::Exc;
using vm::MoveOnly;
using vm::Obj;
using namespace vp;

namespace {

struct Env {
  const World* w = nullptr;
  Trace t;
  const void* last_addr = nullptr;  // address of the object yielded last, if known
  bool addr_known = false;
  bool addr_forbidden = false;      // last_addr must not be what the consumer sees (private copy)
  std::pmr::memory_resource* mr = nullptr;
};

struct Guard {
  Env* e;
  int id;
  uint32_t magic = 0x6a6a6a6a;
  Guard(Env& e, int id) : e(&e), id(id) { e.t.r(E_GUARD, id); }
  Guard(const Guard&) = delete;
  ~Guard() {
    VM_CHECK(magic == 0x6a6a6a6a, "guard-destroyed-twice", "scope guard %d destroyed twice", id);
    magic = 0;
    e->t.r(E_UNGUARD, id);
  }
};

// raw access which does not complain about moved-from values
template <typename T>
int rawv(const T& x) {
  if constexpr (std::is_same_v<T, int>) return x;
  else if constexpr (std::is_same_v<T, dd::nothing_t>) return 0;
  else { x.check("read"); return x.v; }
}
template <typename T>
T mk(int v) {
  if constexpr (std::is_same_v<T, dd::nothing_t>) return {};
  else return T(v);
}

template <typename Y>
using val_t = std::remove_reference_t<Y>;
using with_pmr = dd::with_resource<dd::chunk_from<std::pmr::memory_resource>>;

template <typename Y>
dd::generator<Y> make(Env& e, int prog);

// clang-format off
#define GEN_BODY(Y)                                                                                          \
  using T = val_t<Y>;                                                                                       \
  constexpr bool isref = std::is_reference_v<Y>;                                                            \
  constexpr bool isnothing = std::is_same_v<T, dd::nothing_t>;                                              \
  Guard g0(e, P->id);                                                                                       \
  for (size_t pc = 0; pc < P->code.size(); ++pc) {                                                          \
    const Instr& in = P->code[pc];                                                                          \
    VM_CHECK(arg.get() == P->id, "argument-corrupted", "coroutine argument changed");                       \
    std::optional<Guard> gi;                                                                                \
    if (in.guard) gi.emplace(e, in.guard);                                                                  \
    e.addr_known = e.addr_forbidden = false;                                                                \
    switch (in.kind) {                                                                                      \
      case I_EFFECT: e.t.r(E_EFFECT, in.v); break;                                                          \
      case I_THROW: throw Exc{in.v};                                                                        \
      case I_RETURN: co_return;                                                                             \
      case I_YTEMP:                                                                                         \
        if constexpr (!isref) { co_yield mk<T>(in.v); }                                                     \
        break;                                                                                              \
      case I_YNAMED:                                                                                        \
        if constexpr (!isref) {                                                                             \
          T x = mk<T>(in.v);                                                                                \
          if constexpr (!isnothing) e.last_addr = std::addressof(x), e.addr_known = true;                                  \
          co_yield std::move(x);                                                                            \
          e.t.r(E_READBACK, rawv(x));                                                                       \
        }                                                                                                   \
        break;                                                                                              \
      case I_YCONST:                                                                                        \
        if constexpr (!isref && std::is_copy_constructible_v<T>) {                                          \
          const T x = mk<T>(in.v);                                                                          \
          if constexpr (!isnothing) e.last_addr = std::addressof(x), e.addr_forbidden = true;                              \
          co_yield x;                                                                                       \
          e.t.r(E_READBACK, rawv(x));                                                                       \
        }                                                                                                   \
        break;                                                                                              \
      case I_YREF: {                                                                                        \
        T x = mk<T>(in.v);                                                                                  \
        if constexpr (!isnothing) e.last_addr = std::addressof(x), e.addr_known = true;                                    \
        if constexpr (isnothing) co_yield {};                                                               \
        else if constexpr (isref) { if (in.var & 1) co_yield x; else co_yield dd::by_ref{x}; }              \
        else co_yield dd::by_ref{x};                                                                        \
        e.t.r(E_READBACK, rawv(x));                                                                         \
        break;                                                                                              \
      }                                                                                                     \
      case I_SUB:                                                                                           \
        if (in.tried) {                                                                                     \
          bool caught = false;                                                                              \
          try { co_yield dd::elements_of(make<Y>(e, in.sub)); } catch (...) { caught = true; }              \
          if (caught) e.t.r(E_CAUGHT, in.v);                                                                \
        } else if (e.w->P[in.sub].res && (in.var & 1)) {                                                    \
          co_yield dd::elements_of(body_rr<Y>(e, &e.w->P[in.sub], Obj(e.w->P[in.sub].id), *e.mr));          \
        } else                                                                                              \
          co_yield dd::elements_of(make<Y>(e, in.sub));                                                     \
        break;                                                                                              \
      case I_SUB_EMPTY: co_yield dd::elements_of(dd::generator<Y>{}); break;                                \
      case I_SUB_PART: {                                                                                    \
        dd::generator<Y> g = make<Y>(e, in.sub);                                                            \
        consume_some<Y>(e, g, in.n);                                                                        \
        if (in.var & 1) co_yield dd::elements_of(g);                                                        \
        else co_yield dd::elements_of(std::move(g));                                                        \
        e.t.r(E_INNER_EMPTY, g.empty());                                                                    \
        break;                                                                                              \
      }                                                                                                     \
      case I_SUB_RANGE:                                                                                     \
        if constexpr (isnothing) {                                                                          \
          for (int i = 0; i < in.n; i++) co_yield {};                                                       \
        } else if constexpr (isref) {                                                                       \
          std::vector<T> v; v.reserve(8);                                                                   \
          for (int i = 0; i < in.n; i++) v.emplace_back(in.v + 1 + i);                                      \
          co_yield dd::elements_of(v);                                                                      \
        } else if (in.var == 0) {                                                                           \
          std::vector<T> v; v.reserve(8);                                                                   \
          for (int i = 0; i < in.n; i++) v.emplace_back(in.v + 1 + i);                                      \
          co_yield dd::elements_of(std::move(v));                                                           \
        } else if (in.var == 1) {                                                                           \
          co_yield dd::elements_of(std::views::iota(in.v + 1, in.v + 1 + in.n) | std::views::transform([](int x) { return T(x); })); \
        } else if (in.var == 2) {                                                                           \
          std::list<T> v;                                                                                   \
          for (int i = 0; i < in.n; i++) v.emplace_back(in.v + 1 + i);                                      \
          co_yield dd::elements_of(v);                                                                      \
        } else {                                                                                            \
          std::vector<T> v; v.reserve(8);                                                                   \
          for (int i = 0; i < in.n; i++) v.emplace_back(in.v + 1 + i);                                      \
          co_yield dd::elements_of(std::span<T>(v));                                                        \
        }                                                                                                   \
        break;                                                                                              \
      case I_SUB_CONV:                                                                                      \
        if constexpr (std::is_same_v<Y, Obj> || std::is_same_v<Y, MoveOnly>) co_yield dd::elements_of(make<int>(e, in.sub)); \
        break;                                                                                              \
      case I_CONSUME: {                                                                                     \
        dd::generator<Y> g = make<Y>(e, in.sub);                                                            \
        for (auto&& x : g) {                                                                                \
          e.addr_known = e.addr_forbidden = false;                                                          \
          if constexpr (isnothing) co_yield {};                                                             \
          else if constexpr (isref) co_yield x;                                                             \
          else co_yield T(rawv(x));                                                                         \
        }                                                                                                   \
        break;                                                                                              \
      }                                                                                                     \
      default: break;                                                                                       \
    }                                                                                                       \
  }
// clang-format on

template <typename Y>
void consume_some(Env& e, dd::generator<Y>& g, int n) {
  int i = 0;
  while (i < n) {
    try {
      auto it = g.begin();
      for (;;) {
        if (it == g.end()) { e.t.r(E_INNER_END, 0); return; }
        ++i;
        if constexpr (std::is_same_v<Y, dd::nothing_t>) { *it; e.t.r(E_INNER, 0); }
        else e.t.r(E_INNER, rawv(*it));
        if (i >= n) return;
        ++it;
      }
    } catch (const Exc& x) {
      ++i;
      e.t.r(E_INNER_EXC, x.id);
    }
  }
}

template <typename Y>
dd::generator_r<Y, dd::chunk_from<std::pmr::memory_resource>> body_rr(Env& e, const Prog* P, Obj arg, with_pmr);
template <typename Y>
dd::generator<Y> body(Env& e, const Prog* P, Obj arg) {
  GEN_BODY(Y)
}
template <typename Y>
dd::generator<Y> body_r(Env& e, const Prog* P, Obj arg, with_pmr) {
  GEN_BODY(Y)
}
template <typename Y>
dd::generator_r<Y, dd::chunk_from<std::pmr::memory_resource>> body_rr(Env& e, const Prog* P, Obj arg, with_pmr) {
  GEN_BODY(Y)
}
template <typename Y>
dd::generator<Y> make(Env& e, int prog) {
  const Prog* P = &e.w->P[prog];
  if (P->res) {
    if (P->id & 1) return body_r<Y>(e, P, Obj(P->id), *e.mr);
    return body_rr<Y>(e, P, Obj(P->id), *e.mr).decay();
  }
  return body<Y>(e, P, Obj(P->id));
}

struct counting_resource : std::pmr::memory_resource {
  long live = 0;
  struct head { size_t n; uint64_t magic; };
  void* do_allocate(size_t n, size_t) override {
    head* h = (head*)malloc(n + sizeof(head));
    h->n = n;
    h->magic = 0x1122334455667788ull;
    ++live;
    return h + 1;
  }
  void do_deallocate(void* p, size_t n, size_t) override {
    head* h = (head*)p - 1;
    VM_CHECK(h->magic == 0x1122334455667788ull && h->n == n, "resource-size-mismatch", "frame of %zu bytes returned as %zu", h->n, n);
    h->magic = 0;
    --live;
    free(h);
  }
  bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};

struct Profile {
  bool throws = false;
  int ops = 12;          // number of consumer operations
  int slots = 1;
  int p_write = 10, p_moveout = 5, p_own = 10;  // per cent
  bool chain = false;
  int chain_len = 0;
};

template <typename Y>
struct Session {
  using T = val_t<Y>;
  using G = dd::generator<Y>;
  static constexpr bool isref = std::is_reference_v<Y>;
  static constexpr bool isnothing = std::is_same_v<T, dd::nothing_t>;
  static constexpr bool isint = std::is_same_v<T, int>;

  Ctx& cx;
  vm::Rng& r;
  Profile pf;
  World w;
  Env e;
  counting_resource res;
  struct Slot {
    std::optional<G> g;
    std::optional<typename G::iterator> it;
    MGen m;
    bool it_ok = false;      // iterator may be used
    const void* addr = nullptr;  // known address of the current object
    bool addr_known = false, addr_forbidden = false;
  };
  std::vector<Slot> s;
  int nops = 0;

  Session(Ctx& cx, Profile pf) : cx(cx), r(cx.rng), pf(pf) {
    e.w = &w;
    e.mr = &res;
  }

  int new_prog() {
    Opts o;
    o.throws = pf.throws;
    o.ranges = true;
    o.conv = std::is_same_v<T, Obj> || std::is_same_v<T, MoveOnly>;
    o.constcopy = !isref && !isnothing && std::is_copy_constructible_v<T>;
    o.ytemp = !isref;
    if (isref) o.conv = false;
    o.max_len = r.range(1, 7);
    o.max_depth = r.range(0, 4);
    if (pf.chain) return make_chain(w, r, o, pf.chain_len);
    int budget = r.range(2, 40);
    return make_prog(w, r, o, 0, budget);
  }
  MGen model(int prog) {
    MGen m(&w, &e.t, prog);
    m.ints = isint, m.nothing = isnothing, m.refs = isref;
    return m;
  }

  void deref(Slot& x) {
    if constexpr (isnothing) {
      **x.it;
      e.t.r(E_VALUE, 0);
    } else {
      static_assert(std::is_same_v<decltype(**x.it), T&&> || isref);
      T& o = const_cast<T&>(static_cast<const T&>(**x.it));
      e.t.r(E_VALUE, rawv(o));
      const void* p = std::addressof(o);
      VM_CHECK(x.it->operator->() == std::addressof(o), "yield-identity", "operator-> and operator* refer to different objects");
      if (x.addr_known) VM_CHECK(p == x.addr, "yield-identity", "the iterator does not refer to the object that was yielded");
      if (x.addr_forbidden) VM_CHECK(p != x.addr, "const-yield-aliases", "the iterator refers to the const object of the body instead of a copy");
    }
    e.t.m(E_VALUE, x.m.cur.moved ? MOVED : x.m.cur.v);
  }
  // model and real one ask for the next value
  void advance(Slot& x, int how, const char* op) {
    // real
    bool exc = false, end = false;
    e.addr_known = e.addr_forbidden = false;
    long live_it = 0;
    (void)live_it;
    try {
      if (how == 0) x.it.emplace(x.g->begin());
      else if (how == 1) ++*x.it;
      else if (how == 2) (*x.it)++;
      else if constexpr (!isnothing) {
        // as an output iterator
        auto out = typename G::iterator(*x.it).out();
        auto& same = how == 3 ? ++out : out++;
        VM_CHECK(&same == &out && (out == x.g->end()) == (*x.it == x.g->end()), "output-iterator", "increment gives another iterator");
      } else
        ++*x.it;
      end = *x.it == x.g->end();
    } catch (const Exc& ex) {
      exc = true;
      e.t.r(E_EXC, ex.id);
    }
    step_result m = x.m.step();
    x.addr = e.last_addr;
    x.addr_known = e.addr_known;
    x.addr_forbidden = e.addr_forbidden;
    if (!x.m.st.empty() && x.m.st.back().is_conv) x.addr_known = x.addr_forbidden = false;
    if (exc) {
      x.it_ok = false;
      x.it.reset();
    } else if (end) {
      e.t.r(E_END, 0);
      x.it_ok = false;
    }
    if (m == S_EXC) e.t.m(E_EXC, x.m.exc);
    if (m == S_END) e.t.m(E_END, 0);
    e.t.compare(cx, op);  // the body events and the kind of result
    if (!exc && !end) {
      VM_CHECK(m == S_VALUE, "trace:end-expected,value-seen", "after %s a value is reported although the body has none", op);
      x.it_ok = true;
      deref(x);
      e.t.compare(cx, op);
    } else
      VM_CHECK(m != S_VALUE, "trace:value-expected,end-seen", "after %s no value is reported although the body has one", op);
    check_empty(x);
  }
  void check_empty(Slot& x) {
    bool fin = x.m.finished();
    VM_CHECK(x.g->empty() == fin, fin ? "not-empty-after-finish" : "empty-too-early", "empty()=%d but the body %s", x.g->empty(), fin ? "has finished" : "has not finished");
    VM_CHECK((bool)*x.g == !fin, "bool-conversion", "operator bool disagrees with empty()");
  }
  void put(Slot& x) {
    if (!x.g) {
      int p = new_prog();
      x.m = model(p);
      if (r.chance(1, 3)) {
        x.g.emplace();
        x.g->reset(make<Y>(e, p).release());
      } else
        x.g.emplace(make<Y>(e, p));
    }
  }
  void run() {
    s.resize(pf.slots + 1);
    w.P.reserve(600);
    for (int i = 0; i < pf.slots; i++) put(s[i]);
    s[pf.slots].g.emplace();  // default constructed
    e.t.compare(cx, "creation");  // nothing runs before begin
    for (nops = 0; nops < pf.ops; nops++) {
      Slot& x = s[r.below((int)s.size())];
      if (!x.g) {
        put(x);
        e.t.compare(cx, "creation");
        continue;
      }
      int k = r.below(100);
      if (k < pf.p_own) {
        own(x);
        continue;
      }
      k = r.below(100);
      if (x.it_ok && x.it && k < pf.p_write) {
        if constexpr (!isnothing && !isint) {
          int v = w.next_id++;
          if (r.chance(1, 2)) { T& o = *x.it->operator->(); o = T(v); }
          else { auto out = typename G::iterator(*x.it).out(); assign_out(out, v); }
          x.m.cur = Cell{v, false};
        } else if constexpr (isint) {
          int v = w.next_id++;
          if (r.chance(1, 2)) *x.it->operator->() = v;
          else { auto out = typename G::iterator(*x.it).out(); *out = v; }
          x.m.cur = Cell{v, false};
        }
        deref(x);
        e.t.compare(cx, "write");
        continue;
      }
      if (x.it_ok && x.it && k < pf.p_write + pf.p_moveout) {
        if constexpr (!isnothing && !isint) {
          if (!x.m.cur.moved) {
            T got = std::move(*x.it->operator->());
            VM_CHECK(got.get() == x.m.cur.v, "wrong-value", "moved-out value %d, expected %d", got.get(), x.m.cur.v);
            x.m.cur.moved = true;
          }
        }
        continue;
      }
      if (x.it_ok && x.it && k < 30) {
        deref(x);
        e.t.compare(cx, "dereference");
        continue;
      }
      if (x.it_ok && x.it && k < 80) {
        if (r.chance(1, 6) && x.g->raw_handle()) x.it.emplace(x.g->cur_iterator());
        VM_CHECK(&x.it->owner() == &*x.g && x.it->equivalent(typename G::iterator(*x.g)), "iterator-owner", "iterator does not belong to its generator");
        advance(x, 1 + r.below(4), "increment");
      } else if (k < 90) {
        advance(x, 0, "begin");
      } else {
        // for loop, possibly left early
        int n = r.below(12), i = 0;
        while (i < n) {
          advance(x, i == 0 || !x.it_ok ? 0 : 1, i == 0 ? "loop begin" : "loop increment");
          ++i;
          if (!x.it_ok && x.m.finished()) break;
        }
      }
    }
    // end of the session: some are drained, the others abandoned in the middle
    for (auto& x : s) {
      if (!x.g) continue;
      if (r.chance(1, 2)) {
        int n = 0;
        do {
          advance(x, x.it_ok && r.chance(3, 4) ? 1 : 0, "drain");
          if (++n > 3000) break;
        } while (!x.m.finished() || x.it_ok);
        if (x.m.finished() && !x.it_ok) {
          for (auto&& y : *x.g) { (void)y; vs::fail("value-after-end", "finished generator yields again"); }
          VM_CHECK(x.g->begin() == x.g->end(), "value-after-end", "begin() of a finished generator is not end()");
        }
      }
      x.it.reset();
      x.m.destroy();
      x.g.reset();
      e.t.compare(cx, "destruction");
    }
    VM_CHECK(res.live == 0, "frame-leak", "%ld frames not returned to their memory resource", res.live);
    char b[120];
    snprintf(b, sizeof b, "%d programs, %d consumer operations, %d slots, %llu events", (int)w.P.size(), nops, pf.slots, (unsigned long long)cx.observations);
    cx.describe = b;
    cx.nontrivial = cx.observations >= 4;
  }
  template <typename O>
  void assign_out(O& out, int v) {
    if constexpr (std::is_copy_assignable_v<T>) {
      T tmp(v);
      *out = tmp;
    } else
      *out = T(v);
  }
  void moved_from_must_be_empty(G& g) {
    VM_CHECK(g.empty() && !g && g.begin() == g.end(), "moved-from-not-empty", "moved-from generator still has values");
  }
  void swap_state(Slot& a, Slot& b) {
    std::swap(a.m, b.m);
    std::swap(a.addr, b.addr);
    std::swap(a.addr_known, b.addr_known);
    std::swap(a.addr_forbidden, b.addr_forbidden);
    // iterators stay with the objects and now show the other's value
    bool av = a.m.has_value, bv = b.m.has_value;
    a.it_ok = av, b.it_ok = bv;
    if (!a.it) a.it.emplace(*a.g);
    if (!b.it) b.it.emplace(*b.g);
    if constexpr (!isnothing) {
      VM_CHECK((*a.it == a.g->end()) == !av, "iterator-after-swap", "iterator does not follow its object after swap");
      VM_CHECK((*b.it == b.g->end()) == !bv, "iterator-after-swap", "iterator does not follow its object after swap");
    }
    if (a.it_ok) deref(a);
    if (b.it_ok) deref(b);
  }
  void own(Slot& x) {
    Slot& y = s[r.below((int)s.size())];
    switch (r.below(9)) {
      case 0: {  // swap
        if (&x == &y) {  // with itself
          G& self = *x.g;
          int k = r.below(3);
          if (k == 0) x.g->swap(self);
          else if (k == 1) { using std::swap; swap(*x.g, self); }
          else *x.g = std::move(self);
          if (x.it_ok) deref(x);
          break;
        }
        if (!y.g) break;
        if (r.chance(1, 2)) x.g->swap(*y.g);
        else { using std::swap; swap(*x.g, *y.g); }
        swap_state(x, y);
        break;
      }
      case 1: {  // move construct there and back
        G tmp(std::move(*x.g));
        moved_from_must_be_empty(*x.g);
        if (!y.g) {
          y.g.emplace(std::move(tmp));
          y.m = std::move(x.m);
          x.m = MGen();
          y.addr = x.addr, y.addr_known = x.addr_known, y.addr_forbidden = x.addr_forbidden;
          moved_from_must_be_empty(tmp);
          y.it.reset();
          y.it_ok = y.m.has_value;
          if (y.it_ok) { y.it.emplace(*y.g); deref(y); }
          x.it_ok = false;
          x.it.reset();
        } else {
          *x.g = std::move(tmp);
          if (x.it_ok) deref(x);
        }
        break;
      }
      case 2: {  // move assign, the source dies at once
        if (!y.g || &x == &y) break;
        y.it.reset();
        {
          *x.g = std::move(*y.g);
          y.g.reset();
        }
        x.m.destroy();
        x.m = std::move(y.m);
        y.m = MGen();
        x.addr = y.addr, x.addr_known = y.addr_known, x.addr_forbidden = y.addr_forbidden;
        x.it_ok = x.m.has_value;
        y.it_ok = false;
        if (!x.it) x.it.emplace(*x.g);
        if (x.it_ok) deref(x);
        break;
      }
      case 3:  // clear
        x.g->clear();
        x.m.destroy();
        x.it_ok = false;
        if constexpr (!isnothing)
          if (x.it) VM_CHECK(*x.it == x.g->end(), "dangling-after-clear", "iterator of a cleared generator still shows a value");
        VM_CHECK(x.g->raw_handle() == nullptr, "not-empty-after-clear", "handle kept after clear");
        break;
      case 4: {  // release and destroy by hand, or hand over to another object
        bool fin = x.m.finished();
        auto h = x.g->release();
        VM_CHECK(x.g->empty() && x.g->raw_handle() == nullptr, "not-empty-after-release", "released generator is not empty");
        if constexpr (!isnothing) VM_CHECK(typename G::iterator(*x.g) == x.g->end(), "dangling-after-release", "iterator of a released generator still shows a value");
        if (h) VM_CHECK(h.done() == fin, "released-handle", "released handle has another state than its program");
        if (r.chance(1, 2) || !y.g || &x == &y || x.m.has_value) {
          if (h) h.destroy();
          x.m.destroy();
        } else {
          y.m.destroy();
          y.it_ok = false;
          y.g->reset(h);
          y.m = std::move(x.m);
          x.m = MGen();
          check_empty(y);
        }
        x.it_ok = false;
        break;
      }
      case 5:  // reset with nothing
        if (r.chance(1, 2)) x.g->reset(nullptr);
        else { dd::generator<Y> z; *x.g = std::move(z); z.clear(); }
        x.m.destroy();
        x.it_ok = false;
        break;
      case 6:  // destroyed where it is
        x.it.reset();
        x.g.reset();
        x.m.destroy();
        x.m = MGen();
        x.it_ok = false;
        break;
      case 7:  // comparison
        if (y.g) VM_CHECK((*x.g == *y.g) == (&x == &y || (x.m.finished() && y.m.finished())), "comparison", "operator== of generators");
        if (y.g) VM_CHECK(typename G::iterator(*x.g).equivalent(typename G::iterator(*y.g)) == (&x == &y), "iterator-owner", "iterators of different objects are equivalent, or of the same are not");
        break;
      default: {  // given away into a function and destroyed there
        if (r.chance(1, 2)) break;
        [](G g) { (void)g; }(std::move(*x.g));
        x.m.destroy();
        x.it_ok = false;
        moved_from_must_be_empty(*x.g);
        break;
      }
    }
    if (x.g) check_empty(x);
    if (y.g) check_empty(y);
    e.t.compare(cx, "ownership operation");
  }
};

template <typename F>
void with_type(vm::Rng& r, F f) {
  switch (r.below(6)) {
    case 0: f(std::type_identity<int>{}); break;
    case 1: case 2: f(std::type_identity<Obj>{}); break;
    case 3: f(std::type_identity<MoveOnly>{}); break;
    case 4: f(std::type_identity<Obj&>{}); break;
    default: f(std::type_identity<dd::nothing_t>{}); break;
  }
}
void session(Ctx& cx, Profile pf) {
  with_type(cx.rng, [&]<typename Y>(std::type_identity<Y>) { Session<Y>(cx, pf).run(); });
}

SEQ_SCENARIO("C01", "programs", 6) {
  Profile p;
  p.ops = cx.rng.range(1, 30);
  p.slots = cx.rng.range(1, 2);
  p.p_own = cx.rng.chance(1, 2) ? 0 : 5;
  p.p_write = p.p_moveout = cx.rng.chance(1, 2) ? 0 : 5;
  session(cx, p);
}
SEQ_SCENARIO("C01", "chains", 1) {
  Profile p;
  p.ops = cx.rng.range(1, 20);
  p.chain = true;
  p.chain_len = cx.rng.chance(1, 8) ? cx.rng.range(20, 120) : cx.rng.range(1, 12);
  p.p_own = 2;
  session(cx, p);
}
SEQ_SCENARIO("C02", "throwing_programs", 6) {
  Profile p;
  p.throws = true;
  p.ops = cx.rng.range(1, 40);
  p.slots = cx.rng.range(1, 2);
  p.p_own = cx.rng.chance(1, 2) ? 0 : 8;
  session(cx, p);
}
SEQ_SCENARIO("C02", "throwing_chains", 2) {
  Profile p;
  p.throws = true;
  p.chain = true;
  p.chain_len = cx.rng.range(1, 14);
  p.ops = cx.rng.range(1, 30);
  session(cx, p);
}
SEQ_SCENARIO("C03", "ownership", 6) {
  Profile p;
  p.throws = cx.rng.chance(1, 3);
  p.ops = cx.rng.range(4, 50);
  p.slots = cx.rng.range(2, 4);
  p.p_own = cx.rng.range(20, 60);
  session(cx, p);
}
SEQ_SCENARIO("C04", "two_way", 6) {
  Profile p;
  p.throws = cx.rng.chance(1, 6);
  p.ops = cx.rng.range(4, 50);
  p.slots = cx.rng.range(1, 3);
  p.p_own = 6;
  p.p_write = 25;
  p.p_moveout = 12;
  session(cx, p);
}

// =====================================================================================================
// C07 in-place generators
// =====================================================================================================
template <typename Y>
dd::inplace_generator<Y> ibody(Env& e, const Prog* P, Obj arg) {
  using T = val_t<Y>;
  constexpr bool isref = std::is_reference_v<Y>;
  Guard g0(e, P->id);
  for (size_t pc = 0; pc < P->code.size(); ++pc) {
    const Instr& in = P->code[pc];
    VM_CHECK(arg.get() == P->id, "argument-corrupted", "coroutine argument changed");
    std::optional<Guard> gi;
    if (in.guard) gi.emplace(e, in.guard);
    e.addr_known = e.addr_forbidden = false;
    switch (in.kind) {
      case I_EFFECT: e.t.r(E_EFFECT, in.v); break;
      case I_THROW: throw Exc{in.v};
      case I_RETURN: co_return;
      case I_YTEMP:
        if constexpr (!isref) co_yield T(in.v);
        break;
      case I_YNAMED:
        if constexpr (!isref) {
          T x(in.v);
          e.last_addr = std::addressof(x), e.addr_known = true;
          co_yield std::move(x);
          e.t.r(E_READBACK, rawv(x));
        }
        break;
      case I_YCONST:
        if constexpr (!isref && std::is_copy_constructible_v<T>) {
          const T x(in.v);
          e.last_addr = std::addressof(x), e.addr_forbidden = true;
          co_yield x;
          e.t.r(E_READBACK, rawv(x));
        }
        break;
      case I_YREF: {
        T x(in.v);
        e.last_addr = std::addressof(x), e.addr_known = true;
        if constexpr (isref) { if (in.var & 1) co_yield x; else co_yield dd::by_ref{x}; }
        else co_yield dd::by_ref{x};
        e.t.r(E_READBACK, rawv(x));
        break;
      }
      case I_CONSUME: {
        dd::inplace_generator<Y> g = ibody<Y>(e, &e.w->P[in.sub], Obj(e.w->P[in.sub].id));
        for (auto&& x : g) {
          e.addr_known = e.addr_forbidden = false;
          if constexpr (isref) co_yield x;
          else co_yield T(rawv(x));
        }
        break;
      }
      default: break;
    }
  }
}

template <typename Y>
struct ISession {
  using T = val_t<Y>;
  using G = dd::inplace_generator<Y>;
  static constexpr bool isref = std::is_reference_v<Y>;
  static constexpr bool isint = std::is_same_v<T, int>;
  Ctx& cx;
  vm::Rng& r;
  bool throws;
  World w;
  Env e;
  struct Slot {
    std::optional<G> g;
    MGen m;
    const void* addr = nullptr;
    bool known = false, forbidden = false;
  };
  std::vector<Slot> s;
  ISession(Ctx& cx, bool throws) : cx(cx), r(cx.rng), throws(throws) { e.w = &w; }

  void deref(Slot& x) {
    auto it = x.g->begin();
    T& o = const_cast<T&>(static_cast<const T&>(*it));
    VM_CHECK(it.operator->() == std::addressof(o), "yield-identity", "operator-> and operator* refer to different objects");
    if (x.known) VM_CHECK((const void*)std::addressof(o) == x.addr, "yield-identity", "the iterator does not refer to the object that was yielded");
    if (x.forbidden) VM_CHECK((const void*)std::addressof(o) != x.addr, "const-yield-aliases", "the iterator refers to the const object of the body");
    e.t.r(E_VALUE, rawv(o));
    e.t.m(E_VALUE, x.m.cur.moved ? MOVED : x.m.cur.v);
    e.t.compare(cx, "dereference");
  }
  void after(Slot& x, bool exc, int id, const char* op) {
    x.addr = e.last_addr, x.known = e.addr_known, x.forbidden = e.addr_forbidden;
    step_result m = x.m.step();
    if (exc) e.t.r(E_EXC, id);
    if (m == S_EXC) {
      e.t.m(E_EXC, x.m.exc);
      x.m.destroy();
    }
    bool end = !exc && x.g && x.g->begin() == x.g->end();
    if (end) e.t.r(E_END, 0);
    if (m == S_END) e.t.m(E_END, 0);
    e.t.compare(cx, op);
    if (!exc && !end) {
      VM_CHECK(m == S_VALUE, "trace:end-expected,value-seen", "after %s a value is reported although the body has none", op);
      deref(x);
    }
    check_empty(x);
  }
  void check_empty(Slot& x) {
    if (!x.g) return;
    bool fin = x.m.finished();
    VM_CHECK(x.g->empty() == fin && (bool)*x.g == !fin && (x.g->begin() == x.g->end()) == fin, "wrong-end", "the end is reported %s the body has finished", fin ? "late: " : "before ");
  }
  void create(Slot& x) {
    Opts o;
    o.throws = throws;
    o.ranges = o.conv = o.part = o.subs = false;
    o.constcopy = !isref && std::is_copy_constructible_v<T>;
    o.ytemp = !isref;
    o.max_len = r.range(0, 8);
    int budget = 30;
    int p = make_prog(w, r, o, 0, budget);
    for (auto& in : w.P[p].code)
      if (in.kind == I_EFFECT && r.chance(1, 6)) {
        int b = 6;
        Opts oo = o;
        oo.max_len = 4;
        int q = make_prog(w, r, oo, 0, b);
        for (auto& in2 : w.P[p].code)
          if (in2.v == in.v) in2.kind = I_CONSUME, in2.sub = q;
        break;
      }
    x.m = MGen(&w, &e.t, p);
    x.m.ints = isint, x.m.refs = isref;
    bool exc = false;
    int id = 0;
    e.addr_known = e.addr_forbidden = false;
    try {
      x.g.emplace(ibody<Y>(e, &w.P[p], Obj(w.P[p].id)));
    } catch (const Exc& ex) {
      exc = true;
      id = ex.id;
      VM_CHECK(!x.g.has_value(), "exception-after-creation", "generator exists although its creation threw");
    }
    after(x, exc, id, "creation");
  }
  void advance(Slot& x) {
    bool exc = false;
    int id = 0;
    e.addr_known = e.addr_forbidden = false;
    try {
      auto it = x.g->begin();
      if (r.chance(1, 2)) ++it; else it++;
    } catch (const Exc& ex) {
      exc = true;
      id = ex.id;
    }
    after(x, exc, id, "increment");
  }
  void run() {
    w.P.reserve(400);
    s.resize(r.range(1, 3));
    int ops = r.range(2, 40);
    for (int i = 0; i < ops; i++) {
      Slot& x = s[r.below((int)s.size())];
      if (!x.g) { create(x); continue; }
      int k = r.below(100);
      if (k < 45) {
        if (!x.m.finished()) advance(x);
        else for (auto&& v : *x.g) { (void)v; vs::fail("value-after-end", "finished generator yields again"); }
      } else if (k < 55) {
        if (x.m.has_value) deref(x);
      } else if (k < 65) {
        if (!x.m.has_value) continue;
        int v = w.next_id++;
        *x.g->begin().operator->() = T(v);
        x.m.cur = Cell{v, false};
        deref(x);
      } else if (k < 70) {
        if constexpr (!isint)
          if (x.m.has_value && !x.m.cur.moved) {
            T got = std::move(*x.g->begin().operator->());
            VM_CHECK(got.get() == x.m.cur.v, "wrong-value", "moved-out value");
            x.m.cur.moved = true;
          }
      } else if (k < 80) {  // swap
        Slot& y = s[r.below((int)s.size())];
        if (&x == &y) {  // with itself
          G& self = *x.g;
          int k = r.below(3);
          if (k == 0) x.g->swap(self);
          else if (k == 1) { using std::swap; swap(*x.g, self); }
          else *x.g = std::move(self);
          check_empty(x);
          if (x.m.has_value) deref(x);
          continue;
        }
        if (!y.g) continue;
        if (r.chance(1, 2)) x.g->swap(*y.g);
        else { using std::swap; swap(*x.g, *y.g); }
        std::swap(x.m, y.m);
        std::swap(x.addr, y.addr), std::swap(x.known, y.known), std::swap(x.forbidden, y.forbidden);
        check_empty(x), check_empty(y);
        if (x.m.has_value) deref(x);
        if (y.m.has_value) deref(y);
      } else if (k < 88) {  // move construct
        G tmp(std::move(*x.g));
        VM_CHECK(x.g->empty() && !*x.g && x.g->begin() == x.g->end(), "moved-from-not-empty", "moved-from in-place generator still has values");
        x.g.reset();
        x.g.emplace(std::move(tmp));
        check_empty(x);
        if (x.m.has_value) deref(x);
      } else if (k < 93) {  // move assign, the source dies
        Slot& y = s[r.below((int)s.size())];
        if (!y.g || &x == &y) continue;
        *x.g = std::move(*y.g);
        y.g.reset();
        x.m.destroy();
        x.m = std::move(y.m);
        y.m = MGen();
        x.addr = y.addr, x.known = y.known, x.forbidden = y.forbidden;
        e.t.compare(cx, "move assignment");
        check_empty(x);
        if (x.m.has_value) deref(x);
      } else {
        x.g.reset();
        x.m.destroy();
        x.m = MGen();
        e.t.compare(cx, "destruction");
      }
    }
    for (auto& x : s) {
      if (!x.g) continue;
      while (r.chance(9, 10) && !x.m.finished()) advance(x);
      x.m.destroy();
      x.g.reset();
      e.t.compare(cx, "destruction");
    }
    cx.nontrivial = cx.observations >= 4;
    char b[100];
    snprintf(b, sizeof b, "%d programs, %d operations, %llu events", (int)w.P.size(), ops, (unsigned long long)cx.observations);
    cx.describe = b;
  }
};
template <typename F>
void with_itype(vm::Rng& r, F f) {
  switch (r.below(4)) {
    case 0: f(std::type_identity<int>{}); break;
    case 1: f(std::type_identity<Obj>{}); break;
    case 2: f(std::type_identity<MoveOnly>{}); break;
    default: f(std::type_identity<Obj&>{}); break;
  }
}
SEQ_SCENARIO("C07,C04", "inplace", 3) {
  with_itype(cx.rng, [&]<typename Y>(std::type_identity<Y>) { ISession<Y>(cx, false).run(); });
}
SEQ_SCENARIO("C07", "inplace_throwing", 2) {
  with_itype(cx.rng, [&]<typename Y>(std::type_identity<Y>) { ISession<Y>(cx, true).run(); });
}

}  // namespace
VM_MAIN
