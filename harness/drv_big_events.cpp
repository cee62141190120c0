// C18: when_all/when_any over many events, many waiters and many rounds
#include "vbig.hpp"
#include "kelcoro/async_task.hpp"
#include "kelcoro/events.hpp"
#include "kelcoro/thread_pool.hpp"

using vm::big;
using vm::completion;
using vm::Ctx;
using vm::logsize;
using vm::Obj;
using vm::Rng;

namespace {

template <size_t I>
using in_t = std::conditional_t<I % 3 == 0, int, std::conditional_t<I % 3 == 1, void, Obj>>;

template <typename Seq>
struct Events;
template <size_t... Is>
struct Events<std::index_sequence<Is...>> {
  static constexpr size_t N = sizeof...(Is);
  std::tuple<dd::event<in_t<Is>>...> ev;

  auto all() { return dd::when_all(std::get<Is>(ev)...); }
  auto any() { return dd::when_any(std::get<Is>(ev)...); }

  template <typename E>
  bool notify(size_t i, E& exe, int v) {
    bool ret = false;
    (void)((i == Is ? (one<Is>(exe, v, ret), true) : false) || ...);
    return ret;
  }
  template <size_t I, typename E>
  void one(E& exe, int v, bool& ret) {
    if constexpr (std::is_void_v<in_t<I>>) ret = std::get<I>(ev).notify_all(exe);
    else ret = std::get<I>(ev).notify_all(exe, in_t<I>(v));
  }
  // values of all events, 0 for events without input
  static void values(auto&& t, std::vector<int>& out) {
    out.clear();
    (out.push_back(value(std::get<Is>(t))), ...);
  }
  static int value(const int& x) { return x; }
  static int value(const Obj& x) { return x.get(); }
  static int value(const dd::nullstruct&) { return 0; }
  static int winner_value(auto&& v) {
    int r = -1;
    VM_CHECK(v.index() < N, "wrong-index", "index %zu of %zu events", v.index(), N);
    std::visit([&](auto& x) { r = value(x); }, v);
    return r;
  }
};
template <size_t N>
using Ev = Events<std::make_index_sequence<N>>;

struct Done {  // one completion
  int winner = -1, value = 0;
  std::vector<int> got;
  uint64_t b = 0, at = 0;
};
struct Waiter {
  bool any = false;
  int rounds = 0;
  vs::counter done, ended;
  std::vector<Done> log;  // one for each round
  std::vector<int>* payload = nullptr;
};

template <typename EV>
dd::job waiter(EV& e, Waiter& w, Obj arg) {
  Obj local(3);
  for (int i = 0; i < w.rounds; i++) {
    Done& d = w.log[(size_t)i];
    d.b = vs::stamp();
    if (w.any) {
      auto v = co_await e.any();
      d.winner = (int)v.index();
      d.value = EV::winner_value(v);
    } else {
      auto t = co_await e.all();
      EV::values(t, d.got);
    }
    VM_CHECK(d.at == 0, "completed-twice", "round %d completes twice", i);
    d.at = vs::stamp();
    VM_CHECK(local.get() == 3 && arg.get() == 4, "object-corrupted", "locals");
    w.done.add();
  }
  w.ended.add();
}

constexpr bool has_input(size_t i) { return i % 3 != 1; }

// ---- one thread, exact model ----------------------------------------------------------------------------
struct Model {
  struct W {
    int round = 0;
    std::vector<int> got;  // -1: not notified in this round
    size_t missing = 0;
  };
  size_t n;
  std::vector<Waiter*> ws;
  std::vector<W> m;
  std::vector<std::vector<std::pair<int, int>>> subs;  // of each event: waiter, round
  void subscribe(int w) {
    W& x = m[(size_t)w];
    if (x.round == ws[(size_t)w]->rounds) return;
    x.got.assign(n, -1);
    x.missing = n;
    for (auto& s : subs) s.push_back({w, x.round});
  }
  bool notify(size_t i, int v, long& completions) {
    auto taken = std::move(subs[i]);
    subs[i].clear();
    for (auto [w, round] : taken) {
      W& x = m[(size_t)w];
      if (x.round != round) continue;
      Waiter& real = *ws[(size_t)w];
      int val = has_input(i) ? v : 0;
      bool complete = false;
      if (real.any) complete = true;
      else {
        x.got[i] = val;
        complete = --x.missing == 0;
      }
      if (!complete) continue;
      VM_CHECK(real.done.get() > round, "never-completed", "waiter %d (%s) is still waiting in round %d after event %zu", w, real.any ? "any" : "all", round, i);
      Done& d = real.log[(size_t)round];
      if (real.any) {
        VM_CHECK(d.winner == (int)i, "wrong-index", "event %zu was notified first, completed with %d", i, d.winner);
        VM_CHECK(d.value == val, "wrong-input", "event %zu: input %d instead of %d", i, d.value, val);
      } else
        for (size_t k = 0; k < n; k++) VM_CHECK(d.got[k] == x.got[k], "wrong-input", "event %zu of %zu: input %d instead of %d", k, n, d.got[k], x.got[k]);
      x.round++;
      ++completions;
      subscribe(w);
    }
    return !taken.empty();
  }
};

template <size_t N>
void wide_sequential(Ctx& cx) {
  using EV = Ev<N>;
  Rng& r = cx.rng;
  auto e = std::make_unique<EV>();
  int nw = logsize(r, 1, 40);
  std::deque<Waiter> ws((size_t)nw);
  Model m;
  m.n = N;
  m.subs.resize(N);
  m.m.resize((size_t)nw);
  // the callbacks of lost rounds of when_any are kept until their events are notified
  int max_rounds = std::max(1, std::min(40, 60000 / (int)N / nw));
  for (auto& w : ws) {
    w.any = r.chance(1, 2);
    w.rounds = logsize(r, 1, max_rounds);
    w.log.resize((size_t)w.rounds);
    m.ws.push_back(&w);
  }
  int started = 0;
  auto start = [&] {
    waiter(*e, ws[(size_t)started], Obj(4));
    m.subscribe(started);
    VM_CHECK(ws[(size_t)started].done.get() == 0, "completed-too-early", "completed while subscribing");
    ++started;
  };
  int first = r.chance(1, 2) ? nw : r.range(1, nw);
  while (started < first) start();
  dd::this_thread_executor_t ine;
  long expected = 0, before_all = 0;
  long ops = logsize(r, 1, 3 * (int)N + 20);
  int next = 1;
  auto notify = [&](size_t i) {
    int v = ++next;
    bool had = !m.subs[i].empty();
    bool ret = e->notify(i, ine, v);
    VM_CHECK(ret == had, "wrong-notify-result", "event %zu: %d, there were waiters: %d", i, ret, had);
    m.notify(i, v, expected);
    cx.observe(i * 2 + ret);
  };
  auto check = [&] {
    long done = 0;
    for (auto& w : ws) done += w.done.get();
    VM_CHECK(done == expected, done > expected ? "completed-too-early" : "never-completed", "%ld completions, expected %ld", done, expected);
  };
  std::vector<size_t> order(N);
  for (size_t i = 0; i < N; i++) order[i] = i;
  auto shuffle = [&] {
    int k = r.below(3);
    if (k == 0) for (size_t i = N; i > 1; i--) std::swap(order[i - 1], order[(size_t)r.below((int)i)]);
    else if (k == 1) std::reverse(order.begin(), order.end());
  };
  int style = r.below(3);
  size_t at = 0;
  for (long i = 0; i < ops; i++) {
    if (started < nw && r.chance(1, 10)) start();
    if (style == 0) notify((size_t)r.below((int)N));
    else {
      if (at == 0) shuffle();
      // all but one, often more than once
      if (!(style == 2 && at == 0)) notify(order[at]);
      at = (at + 1) % N;
    }
    check();
  }
  while (started < nw) start();
  cx.nontrivial = expected > 0;
  for (int guard = 0;; guard++) {
    long left = 0;
    for (auto& w : ws) left += w.ended.get() == 0;
    if (!left) break;
    before_all = expected;
    shuffle();
    for (size_t i = 0; i < N; i++) {
      notify(order[i]);
      check();
    }
    VM_CHECK(expected > before_all && guard < 100000, "never-completed", "%ld waiters are left after all events were notified", left);
  }
  // callbacks of finished rounds
  for (size_t i = 0; i < N; i++) notify(i);
  for (size_t i = 0; i < N; i++) VM_CHECK(!e->notify(i, ine, 0), "wrong-notify-result", "event %zu has subscribers after it was notified", i);
  check();
  for (auto& w : ws) VM_CHECK(w.done.get() == w.rounds && w.ended.get() == 1, "completed-twice", "%ld of %d rounds", w.done.get(), w.rounds);
  cx.describe = std::to_string(N) + " events " + std::to_string(nw) + " waiters " + std::to_string(expected) + " completions";
}
SEQ_SCENARIO("C18", "wide_sequential", 3) {
#ifdef EVENTS_LIMIT
  wide_sequential<255>(cx);
#else
  switch (cx.rng.below(4)) {
    case 0: return wide_sequential<2>(cx);
    case 1: return wide_sequential<19>(cx);
    default: return wide_sequential<131>(cx);
  }
#endif
}

// ---- threads ----------------------------------------------------------------------------------------------
template <size_t N>
void wide_threads(Ctx& cx) {
  using EV = Ev<N>;
  Rng& r = cx.rng;
  auto e = std::make_unique<EV>();
  struct Send { uint64_t b = 0, e = ~0ull; int ret = -1, payload = 0; };
  int passes = r.range(1, 3);
  // pass 'passes' belongs to the main thread, many times
  constexpr int LAST = 64;
  std::vector<std::vector<Send>> sent(N, std::vector<Send>((size_t)(passes + LAST)));
  int nw = r.range(1, 3);
  std::deque<Waiter> ws((size_t)nw);
  int kind = r.below(3);
  int total = 0;
  for (auto& w : ws) {
    w.any = kind == 0 ? false : kind == 1 ? true : r.chance(1, 2);
    w.rounds = r.chance(1, 2) ? 1 : logsize(r, 1, w.any ? 6 : 3);
    total += w.rounds;
    w.log.resize((size_t)w.rounds);
  }
  std::optional<dd::thread_pool> pool;
  if (r.chance(1, 2)) pool.emplace((size_t)r.range(1, 3));
  auto send = [&](size_t i, int pass, bool on_pool) {
    Send& s = sent[i][(size_t)pass];
    int v = 1 + (int)i * 128 + pass;
    s.payload = v;
    s.b = vs::stamp();
    dd::this_thread_executor_t ine;
    s.ret = on_pool && pool ? e->notify(i, *pool, v) : e->notify(i, ine, v);
    s.e = vs::stamp();
  };
  int T = r.range(2, 4);
  // which thread sends what: events are split, or every thread sends a pass of its own
  bool split = r.chance(1, 2);
  std::vector<std::vector<std::pair<size_t, int>>> plan((size_t)T);
  for (int p = 0; p < passes; p++)
    for (size_t i = 0; i < N; i++)
      plan[(size_t)(split ? r.below(T) : (p + (int)(i * (size_t)T / N)) % T)].push_back({i, p});
  for (auto& t : plan)
    if (r.chance(1, 2))
      for (size_t i = t.size(); i > 1; i--) std::swap(t[i - 1], t[(size_t)r.below((int)i)]);
  int pool_chance = r.below(3);
  uint64_t salt = r.next();
  int subscribed = r.chance(2, 3) ? nw : r.range(0, nw);
  for (int i = 0; i < subscribed; i++) waiter(*e, ws[(size_t)i], Obj(4));
  {
    std::vector<std::thread> th;
    for (auto& t : plan)
      th.emplace_back([&, &t = t] {
        Rng tr(salt + (uint64_t)(&t - plan.data()));
        for (auto [i, p] : t) send(i, p, tr.below(3) < pool_chance);
      });
    if (subscribed < nw)
      th.emplace_back([&] {
        for (int i = subscribed; i < nw; i++) waiter(*e, ws[(size_t)i], Obj(4));
      });
    for (auto& t : th) t.join();
  }
  pool.reset();
  // everything which was sent had an effect now: whoever waited through a whole pass is done
  long ended_now = 0;
  for (int i = 0; i < subscribed; i++) {
    Waiter& w = ws[(size_t)i];
    VM_CHECK(w.done.get() >= 1, "never-completed", "every event was notified, but a waiter (%s of %zu events) is not done", w.any ? "any" : "all", N);
    ended_now += w.ended.get();
  }
  int p = passes;
  for (;; p++) {
    bool left = false;
    for (auto& w : ws) left |= w.ended.get() == 0;
    if (!left) break;
    VM_CHECK(p < passes + LAST, "never-completed", "a waiter is left after %d notifications of all events", p);
    for (size_t i = 0; i < N; i++) send(i, p, false);
  }
  // callbacks of finished rounds
  dd::this_thread_executor_t ine;
  for (size_t i = 0; i < N; i++) (void)e->notify(i, ine, -5);
  for (size_t i = 0; i < N; i++) VM_CHECK(!e->notify(i, ine, -5), "wrong-notify-result", "event %zu has subscribers after it was notified", i);
  auto check_value = [&](Done& d, size_t i, int v) {
    int pass = (v - 1) - (int)i * 128;
    VM_CHECK(pass >= 0 && pass < p, "wrong-input", "event %zu of %zu: input %d was never sent", i, N, v);
    Send& s = sent[i][(size_t)pass];
    VM_CHECK(s.payload == v, "effects-not-visible", "effects before the notification");
    VM_CHECK(s.b < d.at && s.e > d.b, "wrong-input", "event %zu: input of a notification outside of the wait", i);
    VM_CHECK(s.ret == 1, "wrong-notify-result", "notification which woke someone reports false");
  };
  for (auto& w : ws) {
    VM_CHECK(w.done.get() == w.rounds && w.ended.get() == 1, "completed-twice", "%ld of %d rounds", w.done.get(), w.rounds);
    for (auto& d : w.log) {
      if (w.any) {
        cx.observe((uint64_t)d.winner);
        if (has_input((size_t)d.winner)) check_value(d, (size_t)d.winner, d.value);
        else {
          bool some = false;
          for (auto& s : sent[(size_t)d.winner]) some |= s.b && s.b < d.at && s.e > d.b && s.ret == 1;
          VM_CHECK(some, "completed-too-early", "event %d won without a notification", d.winner);
        }
      } else
        for (size_t i = 0; i < N; i++) {
          if (has_input(i)) check_value(d, i, d.got[i]);
          else {
            bool some = false;
            for (auto& s : sent[i]) some |= s.b && s.b < d.at && s.e > d.b && s.ret == 1;
            VM_CHECK(some, "completed-too-early", "completed, but event %zu was not notified", i);
          }
          cx.observe((uint64_t)d.got[i]);
        }
    }
  }
  cx.nontrivial = true;
  cx.observe((uint64_t)ended_now);
  cx.describe = std::to_string(N) + " events " + std::to_string(nw) + " waiters " + std::to_string(total) + " rounds " + std::to_string(T) + " threads";
}
MT_SCENARIO("C18", "wide_threads", 3) {
#ifdef EVENTS_LIMIT
  wide_threads<255>(cx);
#else
  switch (cx.rng.below(big(5, 3))) {
    case 0: return wide_threads<2>(cx);
    case 1: return wide_threads<131>(cx);
    default: return wide_threads<19>(cx);
  }
#endif
}

}  // namespace

VM_MAIN
