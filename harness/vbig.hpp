// shared by the drv_big_* drivers: sizes and element types
#pragma once
#include <cmath>
#include <deque>
#include "vmon.hpp"

namespace vm {

inline int logsize(Rng& r, int lo, int hi) {
  if (hi <= lo) return lo;
  double a = std::log((double)lo), b = std::log((double)hi + 1);
  int v = (int)std::exp(a + (b - a) * r.below(1 << 20) / (double)(1 << 20));
  return v < lo ? lo : v > hi ? hi : v;
}
// sometimes more than fits into 16 bits
inline int widesize(Rng& r, int lo, int hi, bool may) {
  return may && r.chance(1, 40) ? r.range(65530, 66600) : logsize(r, lo, hi);
}
// sizes under the controlled scheduler are smaller: each scheduling point is a hand-over of threads
#ifdef VS_CONTROLLED
constexpr int big(int controlled, int) { return controlled; }
#else
constexpr int big(int, int native) { return native; }
#endif

struct Pod {
  long v = 0;
  unsigned char fill[4088] = {};
};
struct Odd {  // 3 bytes more than a word
  long v = 0;
  char c[3] = {};
};

// value number k of type T, and back
template <typename T>
struct Val {
  static T make(long v) { return T((int)v); }
  static long get(const T& x) { return x.get(); }
  static constexpr int scale = 1;
};
template <>
struct Val<int> {
  static int make(long v) { return (int)v; }
  static long get(const int& x) { return x; }
  static constexpr int scale = 1;
};
template <>
struct Val<std::string> {
  static std::string make(long v) { return std::to_string(v) + std::string(v % 3 ? 0 : 30, 'x'); }
  static long get(const std::string& x) {
    long v = atol(x.c_str());
    VM_CHECK(x == make(v), "value-corrupted", "a string changed on its way");
    return v;
  }
  static constexpr int scale = 4;
};
template <>
struct Val<Pod> {
  static Pod make(long v) {
    Pod p;
    p.v = v;
    memset(p.fill, (int)(v * 7 + 1) & 255, sizeof p.fill);
    return p;
  }
  static long get(const Pod& p) {
    unsigned char c = (unsigned char)(p.v * 7 + 1);
    VM_CHECK(p.fill[0] == c && p.fill[2000] == c && p.fill[4087] == c, "value-corrupted", "a big value changed on its way");
    return p.v;
  }
  static constexpr int scale = 16;
};
template <>
struct Val<Odd> {
  static Odd make(long v) { return Odd{v, {(char)v, (char)(v + 1), (char)(v >> 8)}}; }
  static long get(const Odd& p) {
    VM_CHECK(p.c[0] == (char)p.v && p.c[1] == (char)(p.v + 1) && p.c[2] == (char)(p.v >> 8), "value-corrupted", "a value changed on its way");
    return p.v;
  }
  static constexpr int scale = 1;
};

// destroying an abandoned chain of coroutines is recursive
#ifdef __OPTIMIZE__
constexpr int MAX_DEPTH = 6000;
#else
constexpr int MAX_DEPTH = 1200;
#endif

}  // namespace vm
