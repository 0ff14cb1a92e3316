// C14: to_string of integers.
#define PBT_MAIN
#include "numtext.h"
using namespace pbt;
// 'u' decimal digits of |v|, independent of the code under test
static int ref(bool neg, u64 a, char *out) {
  char t[24];
  int n = 0;
  do {
    t[n++] = (char)('0' + (int)(a % 10));
    a /= 10;
  } while (a);
  int k = 0;
  if (neg) out[k++] = '-';
  while (n) out[k++] = t[--n];
  out[k] = 0;
  return k;
}
template <class T>
static void one(T v) {
  char e[32];
  bool neg = v < 0;
  u64 a = neg ? 0 - (u64)v : (u64)v;
  int n = ref(neg, a, e);
  const nanostl::string got = nanostl::to_string(v);
  if ((int)got.size() != n || memcmp(got.c_str(), e, (size_t)n + 1) != 0)
    REQUIRE_MSG(false, "to_string gives %s instead of %s", show(plain(got)).c_str(), e);
}
#ifdef __SANITIZE_ADDRESS__
#define Q 400000
#define T 100000000
#else
#define Q 4000000
#define T (1ull << 32)
#endif
SWEEP(ints, 0, 1ull << 32, Q, T, "to_string(int) is the decimal representation (thorough: all 2^32 values)") {
  one((int)(uint32_t)x);
  return true;
}
SWEEP(unsigneds, 0, 1ull << 32, Q, T, "to_string(unsigned) is the decimal representation (thorough: all 2^32 values)") {
  one((unsigned)x);
  return true;
}
static u64 wide(Src &s) {
  switch (s.below(5)) {
    case 0: return s.bits64();
    case 1: return s.below(1ull << (1 + s.below(63)));
    case 2: {
      u64 p = 1;
      for (u64 k = s.below(20); k > 0; k--) p *= 10;
      return p + (u64)s.range(-2, 2);
    }
    case 3: return (1ull << s.below(64)) + (u64)s.range(-2, 2);
    default: {
      u64 p = 1 + s.below(99);
      for (u64 k = s.below(18); k > 0; k--) p *= 10;
      return p;
    }
  }
}
PROPERTY(wides, 500000, 60000000, "to_string of 64-bit and 32-bit integers at edges, powers of ten and random values") {
  u64 v = wide(s);
  if (s.flip()) v = 0 - v;
  s.note("%lld / %llu\n", (long long)v, (unsigned long long)v);
  LeakCheck l;
  one((nanostl::int64_t)v);
  one((nanostl::uint64_t)v);
  one((int)v);
  one((unsigned)v);
  l.done();
  if (v > 99) s.nontrivial();
}
