// C22: floor and ceil.
#define PBT_MAIN
#include "mathref.h"
using namespace pbt;
template <class T>
static void one(T f, const char *n) {
  const T c = nanostl::ceil(f), l = nanostl::floor(f);
  if (is_nan(f)) {
    REQUIRE_MSG(is_nan(c) && is_nan(l), "%s NaN: ceil gives %g, floor %g", n, (double)c, (double)l);
    return;
  }
  if (c != std::ceil(f)) REQUIRE_MSG(false, "ceil(%s %a = %.17g) gives %.17g instead of %.17g", n, (double)f, (double)f, (double)c, (double)std::ceil(f));
  if (l != std::floor(f)) REQUIRE_MSG(false, "floor(%s %a = %.17g) gives %.17g instead of %.17g", n, (double)f, (double)f, (double)l, (double)std::floor(f));
}
SWEEP(floats, 0, 1ull << 32, 1ull << 31, 1ull << 32, "floor and ceil of floats (thorough: every one)") {
  one(bits2f((uint32_t)x), "float");
  return ((x >> 23) & 255) >= 126 && ((x >> 23) & 255) < 150;
}
SWEEP(fractional, 0x3e800000u, 0x53000000u, 0x53000000u - 0x3e800000u, 0x53000000u - 0x3e800000u, "floor and ceil of every float of magnitude 0.25 to 2^39, both signs (exhaustive)") {
  one(bits2f((uint32_t)x), "float");
  one(bits2f((uint32_t)x | 0x80000000u), "float");
  return true;
}
SWEEP(doubles, 0x3fdull << 52, 0x43full << 52, 200000000, 2000000000, "floor and ceil of doubles of magnitude 0.25 to 2^64, one per stratum, both signs") {
  one(bits2d(x), "double");
  one(bits2d(x | 1ull << 63), "double");
  return true;
}
SWEEP(any_doubles, 0, ~0ull, 20000000, 500000000, "floor and ceil of doubles over the whole bit range") {
  one(bits2d(x), "double");
  return true;
}
PROPERTY(near_integers, 5000000, 200000000, "floor and ceil next to integers: n, n +- k ulps, n + 1/2 +- k ulps, for n of every size") {
  const int bits = (int)s.below(64);
  const i64 n = (i64)((1ull << bits) + s.below(bits ? 1ull << bits : 1));
  double d = (double)(u64)n + (s.flip() ? 0.5 : 0);
  const int k = (int)s.range(0, 3);
  const bool up = s.flip(), neg = s.flip();
  float f = (float)d;
  for (int i = 0; i < k; i++) d = std::nextafter(d, up ? INFINITY : -INFINITY), f = std::nextafterf(f, up ? INFINITY : -INFINITY);
  if (neg) d = -d, f = -f;
  s.note("%a %a\n", d, f);
  s.nontrivial();
  one(d, "double");
  one(f, "float");
}
