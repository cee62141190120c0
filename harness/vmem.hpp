// memory resources which know every block they gave away
#pragma once
#include "vmon.hpp"
#include "kelcoro/memory_support.hpp"

#if defined(__SANITIZE_ADDRESS__)
#define VM_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VM_ASAN 1
#endif
#endif
#ifdef VM_ASAN
extern "C" void __asan_poison_memory_region(void const volatile*, size_t);
extern "C" void __asan_unpoison_memory_region(void const volatile*, size_t);
#endif

namespace {

// ---- a source of memory which knows every block it gave away --------------------------------------------
struct Arena;
struct Hdr {
  enum : uint64_t { ALIVE = 0x1122334455667788ull, DEAD = 0xdeaddeaddeaddeadull };
  uint64_t magic;
  Arena* owner;
  size_t size;
  char* base;
};
struct Trace {
  long allocs = 0, frees = 0;
  Arena* a = nullptr;
  char* p = nullptr;
  size_t n = 0;
};
thread_local Trace tl;

struct Arena {
  int id = 0;
  vs::counter allocs, live, fail_next;

  void* allocate(size_t n) {
    if (fail_next.get()) {
      fail_next.set(0);
      throw std::bad_alloc();
    }
    char* base = (char*)::operator new(n + 128);
    char* p = base + 48;
    // aligned to 16 and not more than that
    if ((uintptr_t)p % 32 == 0) p += 16;
    Hdr* h = (Hdr*)(p - sizeof(Hdr));
    *h = Hdr{Hdr::ALIVE, this, n, base};
    memset(p, 0xCD, n);
    memset(p + n, 0xEE, 16);
#ifdef VM_ASAN
    __asan_poison_memory_region(p + n, (size_t)(base + n + 128 - (p + n)));
#endif
    tl.allocs++;
    tl.a = this;
    tl.p = p;
    tl.n = n;
    allocs.add();
    live.add();
    return p;
  }
  void deallocate(void* ptr, size_t n) noexcept {
    char* p = (char*)ptr;
    VM_CHECK(p && (uintptr_t)p % 16 == 0, "wrong-block-returned", "deallocate(%p)", ptr);
    Hdr* h = (Hdr*)(p - sizeof(Hdr));
    VM_CHECK(h->magic != Hdr::DEAD, "block-returned-twice", "deallocate(%p)", ptr);
    VM_CHECK(h->magic == Hdr::ALIVE, "wrong-block-returned", "deallocate(%p) of something that is not a block", ptr);
    VM_CHECK(h->owner == this, "wrong-resource", "block of resource %d is returned to resource %d", h->owner->id, id);
    VM_CHECK(h->size == n, "wrong-size-returned", "block of %zu bytes is returned with size %zu", h->size, n);
    char* base = h->base;
#ifdef VM_ASAN
    __asan_unpoison_memory_region(p + n, (size_t)(base + n + 128 - (p + n)));
#endif
    for (int i = 0; i < 16; i++) VM_CHECK((unsigned char)p[n + (size_t)i] == 0xEE, "write-outside-of-frame", "byte %d after a block of %zu bytes is overwritten", i, n);
    h->magic = Hdr::DEAD;
    memset(p, 0xDE, n);
    tl.frees++;
    ::operator delete(base);
    vm::hb_release(&live);
    live.add(-1);  // last access
  }
};
struct PArena final : std::pmr::memory_resource {
  Arena* a = nullptr;
  bool frames_only = true;
  void* do_allocate(size_t n, size_t al) override {
    VM_CHECK(!frames_only || al == dd::coroframe_align(), "wrong-alignment-requested", "alignment %zu", al);
    return a->allocate(n);
  }
  void do_deallocate(void* p, size_t n, size_t al) override {
    VM_CHECK(!frames_only || al == dd::coroframe_align(), "wrong-alignment-requested", "alignment %zu", al);
    a->deallocate(p, n);
  }
  bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
};

constexpr int ARENAS = 5;  // 0 static, 1 chunk_from, 2 pmr, 3 stateful, 4 the default of stateful ones
Arena* g_arenas = nullptr;

// ---- resources ------------------------------------------------------------------------------------------
struct StaticRes {  // empty
  static void* allocate(size_t n) { return g_arenas[0].allocate(n); }
  static void deallocate(void* p, size_t n) noexcept { g_arenas[0].deallocate(p, n); }
};
vs::counter live_resources;
struct Fat {  // stateful, not trivial
  uint64_t magic = Hdr::ALIVE;
  Fat* me = this;
  Arena* a;
  char more[21] = {};
  Fat() noexcept : a(&g_arenas[4]) { live_resources.add(); }
  explicit Fat(Arena& x) noexcept : a(&x) { live_resources.add(); }
  Fat(const Fat& o) noexcept : a(o.a) { o.check(); live_resources.add(); }
  Fat(Fat&& o) noexcept : a(std::exchange(o.a, nullptr)) { o.check(); live_resources.add(); }
  ~Fat() {
    check();
    magic = Hdr::DEAD;
    live_resources.add(-1);
  }
  void check() const { VM_CHECK(magic == Hdr::ALIVE && me == this, "resource-used-after-destruction", "magic %lx", (long)magic); }
  Arena* at() const { check(); VM_CHECK(a, "resource-corrupted", "moved-from resource is used"); return a; }
  void* allocate(size_t n) { return at()->allocate(n); }
  void deallocate(void* p, size_t n) noexcept { at()->deallocate(p, n); }
};
struct Tiny {  // one byte
  unsigned char i = 4;
  Tiny() = default;
  explicit Tiny(Arena& x) noexcept : i((unsigned char)(&x - g_arenas)) {}
  Arena& a() const { VM_CHECK(i < ARENAS, "resource-corrupted", "%d", i); return g_arenas[i]; }
  void* allocate(size_t n) { return a().allocate(n); }
  void deallocate(void* p, size_t n) noexcept { a().deallocate(p, n); }
};
struct Odd {  // odd size, alignment 2
  unsigned short i = 4;
  unsigned short b[4] = {1, 2, 3, 4};
  Odd() = default;
  // hostile: gives the address of another one
  static Odd* other() noexcept { static Odd o; o.b[0] = 0; return std::addressof(o); }
#ifdef OBJ_DEL
  Odd* operator&() = delete;
  const Odd* operator&() const = delete;
#else
  Odd* operator&() noexcept { return other(); }
  const Odd* operator&() const noexcept { return other(); }
#endif
  explicit Odd(Arena& x) noexcept : i((unsigned short)(&x - g_arenas)) {}
  Arena& a() const {
    VM_CHECK(i < ARENAS && b[0] == 1 && b[3] == 4, "resource-corrupted", "%d %d", i, b[3]);
    return g_arenas[i];
  }
  void* allocate(size_t n) { return a().allocate(n); }
  void deallocate(void* p, size_t n) noexcept { a().deallocate(p, n); }
};
struct Moves {  // cannot be copied
  Arena* a;
  Moves* me = this;
  explicit Moves(Arena& x) noexcept : a(&x) { live_resources.add(); }
  Moves(Moves&& o) noexcept : a(std::exchange(o.a, nullptr)) { live_resources.add(); }
  Moves(const Moves&) = delete;
  ~Moves() { live_resources.add(-1); }
  Arena& at() const { VM_CHECK(a && me == this, "resource-corrupted", "moved-from resource is used"); return *a; }
  void* allocate(size_t n) { return at().allocate(n); }
  void deallocate(void* p, size_t n) noexcept { at().deallocate(p, n); }
};
struct alignas(16) Wide {  // alignment of a frame
  Arena* p = &g_arenas[4];
  long double x = 1;
  Wide() = default;
  explicit Wide(Arena& x) noexcept : p(&x) {}
  void self() { VM_CHECK((uintptr_t)this % 16 == 0 && x == 1, "resource-corrupted", "resource at %p", (void*)this); }
  void* allocate(size_t n) { self(); return p->allocate(n); }
  void deallocate(void* q, size_t n) noexcept { self(); p->deallocate(q, n); }
};
using Poly = dd::pmr::polymorphic_resource;


}  // namespace
