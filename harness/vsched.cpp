// compiled without sanitizers, see vsched.h
#include "vsched.h"
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace vs {
namespace {

enum st { FREE = 0, RUNNABLE, BLOCKED, FINISHED };
constexpr int MAXT = 512;
struct thr {
  int state;
  int futex;
  int bkind;
  const void* baddr;
  uint64_t prio;
};
thr T[MAXT];
int nT = 0;
volatile int on = 0;
int cur = 0;
config C;
uint64_t R;
uint64_t n_steps, n_switch, hsh;
uint64_t change_at[16];
int n_change;
unsigned long kept[MAXT];
int n_kept;
int fail_thread_k;
thread_local int me __attribute__((tls_model("initial-exec"))) = -1;

inline uint64_t mix(uint64_t z) {
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
inline uint64_t next() { return mix(R += 0x9e3779b97f4a7c15ULL); }

void fwait(int* a) {
  while (__atomic_load_n(a, __ATOMIC_ACQUIRE) == 0)
    syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  __atomic_store_n(a, 0, __ATOMIC_RELAXED);
}
void fpost(int* a) {
  __atomic_store_n(a, 1, __ATOMIC_RELEASE);
  syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

const char* kname(int k) {
  switch (k) {
    case K_ATOMIC: return "atomic"; case K_MUTEX: return "mutex"; case K_CV: return "condvar";
    case K_AWAIT: return "atomic-wait"; case K_THREAD: return "thread"; case K_USER: return "user";
    case K_YIELD: return "yield"; case K_JOIN: return "join"; case K_EVENT: return "event"; case K_SEM: return "sem";
  }
  return "?";
}

[[noreturn]] void dead(const char* key) {
  char buf[1500];
  int o = 0;
  for (int i = 0; i < nT && o < 1300; i++)
    if (T[i].state == BLOCKED)
      o += snprintf(buf + o, sizeof(buf) - o, " T%d:%s", i, kname(T[i].bkind));
    else if (T[i].state == RUNNABLE)
      o += snprintf(buf + o, sizeof(buf) - o, " T%d:runnable", i);
  buf[o] = 0;
  fail(key, "no thread can make progress after %llu steps:%s", (unsigned long long)n_steps, buf);
}

// picks the next thread to run among runnable ones, -1 if none
int pick(bool self_ok, bool prefer_other) {
  int run[MAXT], n = 0;
  for (int i = 0; i < nT; i++)
    if (T[i].state == RUNNABLE && (self_ok || i != me))
      run[n++] = i;
  // spurious wakeups of condition/atomic waiters (never needed for progress)
  if (n && C.spurious_permille && next() % 8000 < C.spurious_permille) {
    int b[MAXT], m = 0;
    for (int i = 0; i < nT; i++)
      if (T[i].state == BLOCKED && (T[i].bkind == K_CV || T[i].bkind == K_AWAIT))
        b[m++] = i;
    if (m) {
      int w = b[next() % m];
      T[w].state = RUNNABLE;
      run[n++] = w;
    }
  }
  if (!n)
    return -1;
  if (n == 1)
    return run[0];
  int strat = C.strategy;
  if (n_steps > 40000)
    strat = 0;  // fair fallback
  if (prefer_other && self_ok) {
    int k = 0;
    for (int i = 0; i < n; i++)
      if (run[i] != me)
        run[k++] = run[i];
    n = k;
    if (n == 1)
      return run[0];
    if (strat == 1)
      return run[next() % n];
  }
  if (strat == 0) {
    bool can_stay = self_ok && !prefer_other && T[me].state == RUNNABLE;
    unsigned p = n_steps > 40000 ? 300 : C.switch_permille;
    if (can_stay && next() % 1000 >= p)
      return me;
    return run[next() % n];
  }
  // priority based (PCT) and run-to-block: highest priority runs
  int best = run[0];
  for (int i = 1; i < n; i++)
    if (T[run[i]].prio > T[best].prio)
      best = run[i];
  return best;
}

void hand_over(int n) {
  // called by the token holder 'me'
  n_switch++;
  cur = n;
  fpost(&T[n].futex);
}
void note(int kind, int n) { hsh = mix(hsh ^ (uint64_t)(n * 31 + kind) ^ (n_steps << 20)); }

void maybe_change() {
  for (int i = 0; i < n_change; i++)
    if (change_at[i] == n_steps) {
      T[me].prio = (uint64_t)i;  // below all initial priorities
    }
}
}  // namespace

bool active() noexcept { return on && me >= 0; }
int self() noexcept { return me; }
uint64_t steps() noexcept { return n_steps; }
uint64_t schedule_hash() noexcept { return hsh; }
uint64_t switches() noexcept { return n_switch; }
uint64_t rnd() noexcept { return next(); }
bool spurious() noexcept {
  return active() && C.spurious_permille && next() % 1000 < C.spurious_permille;
}

void begin(const config& c) {
  C = c;
  R = mix(c.seed + 0x1234567);
  n_steps = n_switch = 0;
  hsh = 0;
  nT = 1;
  n_kept = 0;
  fail_thread_k = 0;
  for (auto& t : T) t = thr{};
  T[0].state = RUNNABLE;
  T[0].prio = 100 + next() % 1000000;
  n_change = 0;
  if (c.strategy == 1 || c.strategy == 2) {
    int d = c.pct_depth;
    if (d > 16) d = 16;
    for (int i = 0; i < d; i++)
      change_at[n_change++] = 1 + next() % (c.est_len ? c.est_len : 1);
  }
  me = 0;
  cur = 0;
  on = 1;
}

void end() {
  if (!active())
    return;
  // wait for all others
  for (;;) {
    bool all = true;
    for (int i = 1; i < nT; i++)
      if (T[i].state == RUNNABLE || T[i].state == BLOCKED)
        all = false;
    if (all)
      break;
    T[0].state = BLOCKED;
    T[0].bkind = K_JOIN;
    T[0].baddr = &T[0];
    int n = pick(false, false);
    if (n < 0)
      dead("deadlock-at-end");
    note(K_JOIN, n);
    hand_over(n);
    fwait(&T[0].futex);
  }
  on = 0;
  me = -1;
  for (int i = 0; i < n_kept; i++)
    pthread_join(kept[i], nullptr);
  n_kept = 0;
}

static void switch_from_point(int kind, bool prefer_other) {
  if (++n_steps > C.max_steps)
    dead("no-progress");
  maybe_change();
  int n = pick(true, prefer_other);
  note(kind, n);
  if (n != me) {
    hand_over(n);
    fwait(&T[me].futex);
  }
}

void point(int kind, const void*) noexcept {
  if (!active())
    return;
  switch_from_point(kind, false);
}
void yield_point() noexcept {
  if (!active()) {
    sched_yield();
    return;
  }
  switch_from_point(K_YIELD, true);
}

void block(int kind, const void* addr) noexcept {
  if (++n_steps > C.max_steps)
    dead("no-progress");
  T[me].state = BLOCKED;
  T[me].bkind = kind;
  T[me].baddr = addr;
  int n = pick(false, false);
  if (n < 0) {
    dead("deadlock");
  }
  note(kind + 100, n);
  if (n != me) {
    hand_over(n);
    fwait(&T[me].futex);
  }
  T[me].state = RUNNABLE;
}

int wake(int kind, const void* addr, int n) noexcept {
  if (!on)
    return 0;
  int b[MAXT], m = 0;
  for (int i = 0; i < nT; i++)
    if (T[i].state == BLOCKED && T[i].bkind == kind && T[i].baddr == addr)
      b[m++] = i;
  int woken = 0;
  while (m && (n < 0 || woken < n)) {
    int k = (int)(next() % (uint64_t)m);
    T[b[k]].state = RUNNABLE;
    b[k] = b[--m];
    woken++;
  }
  return woken;
}

int thread_register() noexcept {
  if (!active())
    return -1;
  if (nT >= MAXT)
    fail("harness-too-many-threads", "more than %d threads in one case", MAXT);
  int id = nT++;
  T[id] = thr{};
  T[id].state = RUNNABLE;  // it will wait for its turn in thread_enter
  T[id].prio = 100 + next() % 1000000;
  return id;
}
void thread_unregister(int id) noexcept {
  if (id >= 0)
    T[id].state = FINISHED;
}
void thread_enter(int id) noexcept {
  if (id < 0)
    return;
  me = id;
  fwait(&T[id].futex);
}
void thread_exit(int id) noexcept {
  if (id < 0)
    return;
  n_steps++;
  T[id].state = FINISHED;
  for (int i = 0; i < nT; i++)
    if (T[i].state == BLOCKED && T[i].bkind == K_JOIN && (T[i].baddr == &T[id] || (i == 0 && T[0].baddr == &T[0])))
      T[i].state = RUNNABLE;
  int n = pick(false, false);
  if (n < 0)
    dead("deadlock");
  note(K_THREAD, n);
  me = -1;
  hand_over(n);
}
void thread_join(int id) noexcept {
  if (id < 0 || !active())
    return;
  point(K_JOIN, nullptr);
  while (T[id].state != FINISHED)
    block(K_JOIN, &T[id]);
}
void keep_for_end(unsigned long h) noexcept {
  if (n_kept < MAXT)
    kept[n_kept++] = h;
}
void fail_thread_creation(int k) noexcept { fail_thread_k = k; }
bool thread_creation_must_fail() noexcept { return fail_thread_k && --fail_thread_k == 0; }

// ---- order -----------------------------------------------------------------------------------------
static uint64_t g_stamp;
uint64_t stamp() noexcept { return __atomic_add_fetch(&g_stamp, 1, __ATOMIC_SEQ_CST); }
constexpr size_t MAXLOG = 1 << 18;
static ev g_log[MAXLOG];
static uint64_t g_log_n;
void log(int kind, int64_t a, int64_t b, int64_t c) noexcept {
  uint64_t i = __atomic_fetch_add(&g_log_n, 1, __ATOMIC_SEQ_CST);
  if (i >= MAXLOG)
    fail("harness-log-overflow", "event log overflow");
  g_log[i] = ev{i, me, kind, a, b, c};
}
size_t log_size() noexcept { return __atomic_load_n(&g_log_n, __ATOMIC_SEQ_CST); }
const ev& log_at(size_t i) noexcept { return g_log[i]; }
void log_clear() noexcept { __atomic_store_n(&g_log_n, 0, __ATOMIC_SEQ_CST); }

void counter::add(long d) noexcept { __atomic_fetch_add(&v, d, __ATOMIC_SEQ_CST); }
long counter::sub_and_get() noexcept { return __atomic_sub_fetch(&v, 1, __ATOMIC_SEQ_CST); }
long counter::get() const noexcept { return __atomic_load_n(&v, __ATOMIC_SEQ_CST); }
void counter::set(long x) noexcept { __atomic_store_n(&v, x, __ATOMIC_SEQ_CST); }

void flag::set() noexcept {
  if (active()) {
    point(K_EVENT, this);
    v = 1;
    vs::wake(K_EVENT, this, -1);
    point(K_EVENT, this);
    return;
  }
  __atomic_store_n(&v, 1, __ATOMIC_SEQ_CST);
  syscall(SYS_futex, &v, FUTEX_WAKE_PRIVATE, INT_MAX, nullptr, nullptr, 0);
}
void flag::wait() noexcept {
  if (active()) {
    point(K_EVENT, this);
    while (!v)
      block(K_EVENT, this);
    return;
  }
  while (!__atomic_load_n(&v, __ATOMIC_SEQ_CST))
    syscall(SYS_futex, &v, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
}
bool flag::is_set() const noexcept { return __atomic_load_n(&v, __ATOMIC_SEQ_CST); }
void flag::clear() noexcept { __atomic_store_n(&v, 0, __ATOMIC_SEQ_CST); }

// ---- violations --------------------------------------------------------------------------------------
static char* g_status;  // shared mapping of the status file
void open_status(const char* path) noexcept {
  int fd = open(path, O_RDWR | O_CREAT | O_TRUNC, 0644);
  if (fd < 0 || ftruncate(fd, 4096) != 0)
    return;
  void* p = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  close(fd);
  if (p != MAP_FAILED)
    g_status = (char*)p;
}
void set_status(const char* prop, const char* sc, uint64_t seed, uint64_t index) noexcept {
  if (g_status)
    snprintf(g_status, 4096, "{\"prop\":\"%s\",\"scenario\":\"%s\",\"seed\":\"%llu\",\"index\":%llu}\n", prop, sc,
             (unsigned long long)seed, (unsigned long long)index);
}
void fail(const char* key, const char* fmt, ...) {
  static int once;
  if (__atomic_exchange_n(&once, 1, __ATOMIC_SEQ_CST)) {
    for (;;)
      pause();
  }
  char buf[4096];
  int o = snprintf(buf, sizeof buf, "\n@FAIL key=%s msg=", key);
  va_list a;
  va_start(a, fmt);
  o += vsnprintf(buf + o, sizeof buf - o - 2, fmt, a);
  va_end(a);
  if (o > (int)sizeof buf - 2)
    o = sizeof buf - 2;
  buf[o++] = '\n';
  fflush(stdout);
  ssize_t r = write(1, buf, o);
  (void)r;
  _exit(3);
}

// ---- memory -------------------------------------------------------------------------------------------
static long g_blocks, g_bytes, g_allocs, g_fail_at, g_fired;
long live_blocks() noexcept { return __atomic_load_n(&g_blocks, __ATOMIC_SEQ_CST); }
long live_bytes() noexcept { return __atomic_load_n(&g_bytes, __ATOMIC_SEQ_CST); }
long total_allocs() noexcept { return __atomic_load_n(&g_allocs, __ATOMIC_SEQ_CST); }
void fail_alloc_at(long k) noexcept {
  __atomic_store_n(&g_fail_at, k, __ATOMIC_SEQ_CST);
  g_fired = 0;
}
bool alloc_failure_fired() noexcept { return g_fired; }

struct hdr {
  uint64_t size;
  uint32_t magic;
  uint16_t kind;   // 0 new, 1 new[]
  uint16_t shift;  // distance from malloc result
};
static_assert(sizeof(hdr) == 16);
static void* alloc(size_t n, size_t al, int kind) {
  if (__atomic_load_n(&g_fail_at, __ATOMIC_RELAXED) > 0 && __atomic_sub_fetch(&g_fail_at, 1, __ATOMIC_SEQ_CST) == 0) {
    g_fired = 1;
    return nullptr;
  }
  size_t shift = al <= 16 ? 16 : al;
  char* raw;
  if (al <= 16)
    raw = (char*)malloc(n + shift);
  else if (posix_memalign((void**)&raw, al, n + shift))
    raw = nullptr;
  if (!raw)
    return nullptr;
  char* p = raw + shift;
  hdr* h = (hdr*)(p - 16);
  h->size = n;
  h->magic = 0xA110CA7E;
  h->kind = (uint16_t)kind;
  h->shift = (uint16_t)shift;
  // garbage pattern so that uninitialised use is visible in behaviour (bounded: big blocks only partly)
  for (size_t i = 0; i < n && i < 512; i++)
    p[i] = (char)0xA5;
  __atomic_fetch_add(&g_blocks, 1, __ATOMIC_RELAXED);
  __atomic_fetch_add(&g_bytes, (long)n, __ATOMIC_RELAXED);
  __atomic_fetch_add(&g_allocs, 1, __ATOMIC_RELAXED);
  return p;
}
static void dealloc(void* p, int kind, bool sized, size_t n) {
  if (!p)
    return;
  hdr* h = (hdr*)((char*)p - 16);
  if (h->magic == 0xDEADBEEF)
    fail("double-delete", "operator delete called twice for the same block (size %llu)", (unsigned long long)h->size);
  if (h->magic != 0xA110CA7E)
    fail("bad-delete", "operator delete of a pointer not obtained from operator new");
  if (h->kind != kind)
    fail("mismatched-delete", "new/delete and new[]/delete[] mixed");
  if (sized && n != h->size)
    fail("sized-delete-mismatch", "block of %llu bytes deleted with size %llu", (unsigned long long)h->size,
         (unsigned long long)n);
  __atomic_fetch_sub(&g_blocks, 1, __ATOMIC_RELAXED);
  __atomic_fetch_sub(&g_bytes, (long)h->size, __ATOMIC_RELAXED);
  h->magic = 0xDEADBEEF;
  for (size_t i = 0; i < h->size && i < 512; i++)
    ((volatile char*)p)[i] = (char)0xDD;
  free((char*)p - h->shift);
}
}  // namespace vs

void* operator new(size_t n) { if (void* p = vs::alloc(n, 16, 0)) return p; throw std::bad_alloc(); }
void* operator new[](size_t n) { if (void* p = vs::alloc(n, 16, 1)) return p; throw std::bad_alloc(); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return vs::alloc(n, 16, 0); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return vs::alloc(n, 16, 1); }
void* operator new(size_t n, std::align_val_t a) { if (void* p = vs::alloc(n, (size_t)a, 0)) return p; throw std::bad_alloc(); }
void* operator new[](size_t n, std::align_val_t a) { if (void* p = vs::alloc(n, (size_t)a, 1)) return p; throw std::bad_alloc(); }
void operator delete(void* p) noexcept { vs::dealloc(p, 0, false, 0); }
void operator delete[](void* p) noexcept { vs::dealloc(p, 1, false, 0); }
void operator delete(void* p, size_t n) noexcept { vs::dealloc(p, 0, true, n); }
void operator delete[](void* p, size_t n) noexcept { vs::dealloc(p, 1, true, n); }
void operator delete(void* p, std::align_val_t) noexcept { vs::dealloc(p, 0, false, 0); }
void operator delete[](void* p, std::align_val_t) noexcept { vs::dealloc(p, 1, false, 0); }
void operator delete(void* p, size_t n, std::align_val_t) noexcept { vs::dealloc(p, 0, true, n); }
void operator delete[](void* p, size_t n, std::align_val_t) noexcept { vs::dealloc(p, 1, true, n); }
void operator delete(void* p, const std::nothrow_t&) noexcept { vs::dealloc(p, 0, false, 0); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { vs::dealloc(p, 1, false, 0); }
