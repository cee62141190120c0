// Monitors and case runner shared by all drivers. Include after vshim.hpp.
#pragma once
#include "vshim.hpp"
#include <sys/personality.h>
#include <unistd.h>

#ifdef VS_TSAN
extern "C" void __tsan_acquire(void*);
extern "C" void __tsan_release(void*);
#endif
#define VM_CHECK(cond, key, ...)          \
  do {                                    \
    if (!(cond)) [[unlikely]]             \
      vs::fail(key, __VA_ARGS__);         \
  } while (0)

namespace vm {

// happens-before edges of the *user's* synchronisation (vs:: primitives themselves are invisible to TSan)
inline void hb_release([[maybe_unused]] void* p) {
#ifdef VS_TSAN
  __tsan_release(p);
#endif
}
inline void hb_acquire([[maybe_unused]] void* p) {
#ifdef VS_TSAN
  __tsan_acquire(p);
#endif
}

inline uint64_t mix(uint64_t z) {
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
struct Rng {
  uint64_t s = 1;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() { return mix(s += 0x9e3779b97f4a7c15ULL); }
  // [0, n)
  int below(int n) { return n <= 1 ? 0 : (int)(next() % (uint64_t)n); }
  int range(int a, int b) { return a + below(b - a + 1); }
  bool chance(int num, int den) { return below(den) < num; }
};

// ---- tracked objects -------------------------------------------------------------------------------
inline vs::counter live_objects;
inline vs::counter copies_made, moves_made;

// value with identity: detects use after destruction, double destruction, reads of moved-from values
struct Obj {
  static constexpr uint32_t ALIVE = 0x600DF00D, DEAD = 0xDEADDEAD;
  uint32_t magic = ALIVE;
  int v = 0;
  bool moved = false;
  int hops = 0;  // copies and moves since the value was made
  const Obj* me = nullptr;

  Obj() noexcept { born(); }
  Obj(int v) noexcept : v(v) { born(); }
  Obj(const Obj& o) : v(o.get()), hops(o.hops + 1) { born(); copies_made.add(); }
  Obj(Obj&& o) noexcept : v(o.v), moved(o.moved), hops(o.hops + 1) { o.check("move from"); o.moved = true; o.v = -7777; born(); moves_made.add(); }
  Obj& operator=(const Obj& o) { check("assign to"); v = o.get(); moved = false; hops = o.hops + 1; return *this; }
  Obj& operator=(Obj&& o) noexcept {
    check("assign to");
    o.check("move from");
    if (this != std::addressof(o)) { v = o.v; moved = o.moved; hops = o.hops + 1; o.moved = true; o.v = -7777; }
    return *this;
  }
  ~Obj() {
    check("destroy");
    magic = DEAD;
    live_objects.add(-1);
  }
  void born() noexcept { me = this; live_objects.add(1); }
  void check(const char* what) const {
    if (magic != ALIVE || me != this)
      vs::fail(magic == DEAD ? "object-used-after-destruction" : "object-corrupted", "%s an object that is not alive (magic %x)", what, magic);
  }
  int get() const {
    check("read");
    if (moved)
      vs::fail("moved-from-value-observed", "read of a moved-from value");
    return v;
  }
  friend bool operator==(const Obj& a, const Obj& b) { return a.get() == b.get(); }
#ifdef OBJ_DEL
  Obj* operator&() = delete;
  const Obj* operator&() const = delete;
#else
  // a hostile type: the address of an object has to be taken by std::addressof
  Obj* operator&() noexcept { return decoy(); }
  const Obj* operator&() const noexcept { return decoy(); }
#endif
  static Obj* decoy() noexcept;
};
alignas(16) inline unsigned char obj_decoy[sizeof(Obj) + 64];
inline Obj* Obj::decoy() noexcept { return reinterpret_cast<Obj*>(obj_decoy + 16); }
struct MoveOnly : Obj {
  using Obj::Obj;
  MoveOnly(MoveOnly&&) = default;
  MoveOnly& operator=(MoveOnly&&) = default;
  MoveOnly(const MoveOnly&) = delete;
  MoveOnly& operator=(const MoveOnly&) = delete;
};

// what a user's own latch would do: every one() happens before the return of wait(), and nothing else
struct completion {
  vs::counter left;
  vs::flag done;
  explicit completion(long n) { left.set(n); if (n == 0) done.set(); }
  void one() {
    hb_release(&left);
    long l = left.sub_and_get();
    VM_CHECK(l >= 0, "executed-too-often", "more completions than submitted tasks");
    if (l == 0) done.set();
  }
  void wait() {
    done.wait();
    hb_acquire(&left);
  }
};

// exception type carrying an id
struct Exc {
  int id;
};

// ---- case context -------------------------------------------------------------------------------------
struct Ctx {
  Rng rng{1};
  uint64_t sig = 0;       // signature of what was observed in this case
  uint64_t observations = 0;
  bool nontrivial = false;
  bool thorough = false;
  std::string describe;
  void observe(uint64_t x) { sig = mix(sig ^ mix(x + 0x77)); ++observations; }
};

using scenario_fn = void (*)(Ctx&);
struct Scenario {
  const char* prop;
  const char* name;
  int weight;
  bool controlled;  // runs under the controlled scheduler
  scenario_fn fn;
};
inline std::vector<Scenario>& scenarios() {
  static std::vector<Scenario> s;
  return s;
}
struct Reg {
  Reg(const char* props, const char* name, int weight, bool controlled, scenario_fn fn) {
    // several properties separated by ','
    std::string p = props;
    size_t b = 0;
    while (b <= p.size()) {
      size_t e = p.find(',', b);
      if (e == std::string::npos) e = p.size();
      scenarios().push_back({strdup(p.substr(b, e - b).c_str()), name, weight, controlled, fn});
      b = e + 1;
    }
  }
};
#define VM_CAT2(a, b) a##b
#define VM_CAT(a, b) VM_CAT2(a, b)
// sequential scenario
#define SEQ_SCENARIO(PROPS, NAME, WEIGHT)                                                    \
  static void VM_CAT(sc_, __LINE__)(vm::Ctx&);                                               \
  static vm::Reg VM_CAT(reg_, __LINE__)(PROPS, NAME, WEIGHT, false, VM_CAT(sc_, __LINE__)); \
  static void VM_CAT(sc_, __LINE__)(vm::Ctx & cx)
// concurrent scenario
#define MT_SCENARIO(PROPS, NAME, WEIGHT)                                                     \
  static void VM_CAT(sc_, __LINE__)(vm::Ctx&);                                               \
  static vm::Reg VM_CAT(reg_, __LINE__)(PROPS, NAME, WEIGHT, true, VM_CAT(sc_, __LINE__));  \
  static void VM_CAT(sc_, __LINE__)(vm::Ctx & cx)

inline vs::config make_config(Rng& r) {
  vs::config c;
  c.seed = r.next();
  int k = r.below(10);
  if (k < 5) {
    c.strategy = 0;
    static const unsigned ps[] = {1000, 600, 300, 150, 60, 20};
    c.switch_permille = ps[r.below(6)];
  } else if (k < 9) {
    c.strategy = 1;
    c.pct_depth = r.range(0, 5);
    c.est_len = 1ull << r.range(5, 11);
  } else {
    c.strategy = 0;
    c.switch_permille = 0;
  }
  if (r.chance(1, 3))
    c.spurious_permille = r.chance(1, 2) ? 50 : 300;
  return c;
}

struct RunStats {
  uint64_t cases = 0, observations = 0, steps = 0, switches = 0, nontrivial = 0;
};

// in some of the cases everything happens in a destructor while an exception is being unwound
inline void run_body(scenario_fn fn, Ctx& cx, uint64_t cseed) {
  if (mix(cseed ^ 0x5151) % 8) return fn(cx);
  struct unwinding { int id; };
  struct in_destructor {
    scenario_fn fn;
    Ctx& cx;
    ~in_destructor() { fn(cx); }
  };
  try {
    in_destructor d{fn, cx};
    throw unwinding{1};
  } catch (unwinding& u) {
    VM_CHECK(u.id == 1, "harness-unwinding", "exception of the runner corrupted");
  }
}

inline int run_main(int argc, char** argv) {
  // same addresses in every run: pool queue choice depends on coroutine addresses
  if (!getenv("VS_ASLR_OFF")) {
    setenv("VS_ASLR_OFF", "1", 1);
    if (personality(ADDR_NO_RANDOMIZE) != -1) {
      execv("/proc/self/exe", argv);
    }
  }
  std::string prop, out, status, only;
  uint64_t seed = 1, first = 0, count = 100, shard = 0, nshards = 1;
  uint64_t case_seed = 0;
  bool replay = false, thorough = false, list = false, verbose = false;
  double max_s = 1e9;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--prop") prop = val();
    else if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--count") count = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--first") first = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--shard") shard = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--nshards") nshards = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--out") out = val();
    else if (a == "--status") status = val();
    else if (a == "--scenario") only = val();
    else if (a == "--case") { case_seed = strtoull(val().c_str(), nullptr, 10); replay = true; }
    else if (a == "--thorough") thorough = true;
    else if (a == "--max-seconds") max_s = atof(val().c_str());
    else if (a == "--list") list = true;
    else if (a == "--verbose") verbose = true;
  }
  if (list) {
    for (auto& s : scenarios()) printf("%s %s %d %d\n", s.prop, s.name, s.weight, s.controlled);
    return 0;
  }
  if (!status.empty()) vs::open_status(status.c_str());
  std::vector<Scenario> S;
  long total_w = 0;
  for (auto& s : scenarios())
    if (s.prop == prop && (only.empty() || only == s.name)) {
      S.push_back(s);
      total_w += s.weight;
    }
  if (S.empty()) {
    fprintf(stderr, "no scenario for %s\n", prop.c_str());
    return 9;
  }
  std::vector<RunStats> st(S.size());
  std::vector<uint64_t> hashes;
  hashes.reserve(count);
  std::vector<std::string> samples;
  auto t0 = std::chrono::steady_clock::now();
  uint64_t done = 0;
  bool timed_out = false;

  // first cases of each scenario once for warm up (lazily initialised library state), then counted cases
  auto run_case = [&](size_t si, uint64_t cseed, uint64_t index, bool counted) {
    Scenario& s = S[si];
    vs::set_status(s.prop, s.name, cseed, index);
    Ctx cx;
    cx.rng = Rng(cseed);
    cx.thorough = thorough;
    copies_made.set(0);
    moves_made.set(0);
    vs::log_clear();
    vs::fail_alloc_at(0);
    long objs0 = live_objects.get();
    uint64_t h = 0, steps = 0, sw = 0;
#ifdef VS_CONTROLLED
    if (s.controlled) {
      vs::config c = make_config(cx.rng);
      vs::begin(c);
      run_body(s.fn, cx, cseed);
      vs::end();
      steps = vs::steps();
      sw = vs::switches();
      h = vs::schedule_hash();
      if (sw > 1) cx.nontrivial = true;
    } else
#endif
      run_body(s.fn, cx, cseed);
    h = mix(h ^ cx.sig ^ mix(si));
    if (counted && samples.size() < 6 && !cx.describe.empty())
      samples.push_back(std::string(s.name) + ": " + cx.describe);
    long objs1 = live_objects.get();
#ifndef VS_CONTROLLED
    // detached threads may still be running their last instructions
    for (int k = 0; k < 20000 && s.controlled && objs1 > objs0; k++) {
      std::this_thread::sleep_for(std::chrono::milliseconds(1));
      objs1 = live_objects.get();
    }
#endif
    VM_CHECK(objs1 == objs0, objs1 > objs0 ? "object-leak" : "object-overdestroyed", "%ld tracked objects alive after the case, %ld before", objs1, objs0);
    st[si].steps += steps;
    st[si].switches += sw;
    if (counted) {
      st[si].cases++;
      st[si].observations += cx.observations;
      st[si].nontrivial += cx.nontrivial;
      if (cx.nontrivial && hashes.size() < hashes.capacity()) hashes.push_back(h);
    }
  };
  // exact leak accounting around the scenario only: runner vectors are pre-reserved, the sample strings are
  // accounted separately
  samples.reserve(16);
  auto run_checked = [&](size_t si, uint64_t cseed, uint64_t index, bool counted) {
    size_t ns = samples.size();
    long b0 = vs::live_blocks();
    run_case(si, cseed, index, counted);
    long b1 = vs::live_blocks();
    long own = 0;
    for (size_t k = ns; k < samples.size(); k++) own += samples[k].capacity() > 15 ? 1 : 0;
#ifndef VS_CONTROLLED
    for (int k = 0; k < 20000 && S[si].controlled && b1 - own > b0; k++) {
      std::this_thread::sleep_for(std::chrono::milliseconds(1));
      b1 = vs::live_blocks();
    }
#endif
    if (index != ~0ull)
      VM_CHECK(b1 - own == b0, b1 - own > b0 ? "memory-leak" : "memory-overfreed", "%ld heap blocks more after the case than before", b1 - own - b0);
  };

  for (size_t si = 0; si < S.size(); si++)
    for (int w = 0; w < 2; w++) run_checked(si, mix(0xABCDEF + w), ~0ull, false);

  if (replay) {
    for (uint64_t k = 0; k < count; k++) run_checked(0, case_seed, k, true);
    done = count;
  } else {
    for (uint64_t i = first; i < first + count; i++) {
      if (i % nshards != shard) continue;
      if ((done & 15) == 15) {
        double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        if (el > max_s) {
          timed_out = true;
          break;
        }
      }
      uint64_t cs = mix(seed * 0x9E3779B97F4A7C15ull + i * 0xD1B54A32D192ED03ull + 12345);
      Rng pick(cs);
      long x = (long)(pick.next() % (uint64_t)total_w);
      size_t si = 0;
      while (x >= S[si].weight) x -= S[si].weight, ++si;
      if (verbose) fprintf(stderr, "case %llu %s seed %llu\n", (unsigned long long)i, S[si].name, (unsigned long long)cs);
      run_checked(si, cs, i, true);
      ++done;
    }
  }
  double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  if (!out.empty()) {
    std::sort(hashes.begin(), hashes.end());
    hashes.erase(std::unique(hashes.begin(), hashes.end()), hashes.end());
    FILE* f = fopen(out.c_str(), "w");
    if (f) {
      fprintf(f, "{\"done\":%llu,\"wall\":%.3f,\"timed_out\":%s,\"distinct\":%zu,\"scenarios\":{", (unsigned long long)done, wall, timed_out ? "true" : "false", hashes.size());
      for (size_t i = 0; i < S.size(); i++)
        fprintf(f, "%s\"%s\":{\"cases\":%llu,\"observations\":%llu,\"steps\":%llu,\"switches\":%llu,\"nontrivial\":%llu}", i ? "," : "", S[i].name, (unsigned long long)st[i].cases, (unsigned long long)st[i].observations, (unsigned long long)st[i].steps, (unsigned long long)st[i].switches, (unsigned long long)st[i].nontrivial);
      fprintf(f, "},\"samples\":[");
      for (size_t i = 0; i < samples.size(); i++) {
        std::string e;
        for (char c : samples[i]) { if (c == '"' || c == '\\') e += '\\'; if ((unsigned char)c >= 32) e += c; }
        fprintf(f, "%s\"%s\"", i ? "," : "", e.c_str());
      }
      fprintf(f, "]}\n");
      fclose(f);
    }
    FILE* g = fopen((out + ".h").c_str(), "wb");
    if (g) {
      fwrite(hashes.data(), 8, hashes.size(), g);
      fclose(g);
    }
  }
  printf("@DONE cases=%llu wall=%.2f\n", (unsigned long long)done, wall);
  fflush(stdout);
  // std::terminate etc. must not be hidden by exit handlers of sanitizers
  return 0;
}
}  // namespace vm

#define VM_MAIN int main(int argc, char** argv) { return vm::run_main(argc, argv); }
