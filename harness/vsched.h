// Deterministic controlled scheduler for real threads + monitor primitives.
// vsched.cpp is always compiled WITHOUT sanitizer instrumentation and uses only raw futexes, so that the
// hand-over between threads is invisible to ThreadSanitizer: happens-before edges seen by TSan come only
// from the code under test.
#pragma once
#include <cstddef>
#include <cstdint>

namespace vs {

enum kind : int {
  K_ATOMIC = 1, K_MUTEX, K_CV, K_AWAIT /* atomic wait */, K_THREAD, K_USER, K_YIELD, K_JOIN, K_EVENT, K_SEM,
};

// ---- controlled mode ------------------------------------------------------------------------------
struct config {
  uint64_t seed = 0;
  int strategy = 0;          // 0 random walk, 1 PCT, 2 run-to-block with few preemptions
  unsigned switch_permille = 500;
  int pct_depth = 3;
  uint64_t est_len = 300;    // estimated number of scheduling points
  unsigned spurious_permille = 0;  // spurious wakeups / spurious weak CAS failures
  uint64_t max_steps = 3000000;
};

void begin(const config&);     // called by the main thread, which becomes thread 0
// waits (in the model) for all other threads and then really joins the detached ones
void end();
bool active() noexcept;        // a controlled case runs and this thread takes part in it
int self() noexcept;           // index of this thread in the case, -1 if not controlled
uint64_t steps() noexcept;
uint64_t schedule_hash() noexcept;  // hash of the decisions taken so far
uint64_t switches() noexcept;

void point(int kind, const void* addr) noexcept;
void yield_point() noexcept;                               // prefers another thread
void block(int kind, const void* addr) noexcept;           // until wake() (or spurious for K_CV/K_AWAIT)
int wake(int kind, const void* addr, int n) noexcept;      // n<0: all. returns number woken
bool spurious() noexcept;                                   // inject a spurious failure now?
uint64_t rnd() noexcept;                                    // scheduler's own random stream

int thread_register() noexcept;       // parent: new thread id, -1 if not controlled
void thread_unregister(int) noexcept; // creation failed
void thread_enter(int) noexcept;      // child
void thread_exit(int) noexcept;       // child, last action
void thread_join(int) noexcept;       // model join
void keep_for_end(unsigned long pthread_handle) noexcept;  // detached thread, really joined in end()

// fault injection for thread creation: the k-th std::thread construction from now on fails (k>=1, 0 = off)
void fail_thread_creation(int k) noexcept;
bool thread_creation_must_fail() noexcept;

// ---- global event order (any mode, never visible to TSan) -----------------------------------------
uint64_t stamp() noexcept;                 // strictly increasing
struct ev { uint64_t t; int32_t th, kind; int64_t a, b, c; };
void log(int kind, int64_t a = 0, int64_t b = 0, int64_t c = 0) noexcept;
size_t log_size() noexcept;
const ev& log_at(size_t) noexcept;
void log_clear() noexcept;

// counters invisible to TSan
struct counter {
  long v = 0;
  void add(long d = 1) noexcept;
  long get() const noexcept;
  long sub_and_get() noexcept;
  void set(long) noexcept;
};

// one-shot/flag style blocking primitives for harness code (no happens-before visible to TSan!)
struct flag {
  int v = 0;
  void set() noexcept;
  void wait() noexcept;
  bool is_set() const noexcept;
  void clear() noexcept;
};

// ---- violations -----------------------------------------------------------------------------------
[[noreturn]] void fail(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void set_status(const char* prop, const char* scenario, uint64_t seed, uint64_t index) noexcept;
void open_status(const char* path) noexcept;

// ---- memory accounting ----------------------------------------------------------------------------
long live_blocks() noexcept;
long live_bytes() noexcept;
long total_allocs() noexcept;
void fail_alloc_at(long k) noexcept;  // k-th operator new from now on throws (0 = off)
bool alloc_failure_fired() noexcept;
// counts per thread allocations: used to see that something did not allocate
}  // namespace vs
