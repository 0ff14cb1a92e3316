// C21: classification, absolute value, copysign and bit casts.
#define PBT_MAIN
#include "mathref.h"
using namespace pbt;
static const uint32_t kSigns[] = {0u, 0x80000000u, 0x3f800000u, 0xbf800000u, 0x7fc00000u, 0xffc00001u, 0x7f800000u, 0xff800000u, 1u, 0x80000001u};
SWEEP(floats, 0, 1ull << 32, 1ull << 32, 1ull << 32, "isnan, isinf, isfinite, isnormal, fabs, bit casts of every float (exhaustive)") {
  const uint32_t b = (uint32_t)x, m = b & 0x7fffffff;
  const float f = bits2f(b);
  const bool nan = m > 0x7f800000, inf = m == 0x7f800000, norm = m >= 0x00800000 && m < 0x7f800000;
  if (nanostl::isnan(f) != nan) REQUIRE_MSG(false, "isnan(0x%08x) is %d", b, !nan);
  if (nanostl::isinf(f) != inf) REQUIRE_MSG(false, "isinf(0x%08x) is %d", b, !inf);
  if (nanostl::isfinite(f) != (m < 0x7f800000)) REQUIRE_MSG(false, "isfinite(0x%08x) is %d", b, nan || inf);
  if (nanostl::isnormal(f) != norm) REQUIRE_MSG(false, "isnormal(0x%08x) is %d", b, !norm);
  const float a = nanostl::fabs(f);
  if (nan ? !is_nan(a) : fbits(a) != m) REQUIRE_MSG(false, "fabs(0x%08x) is 0x%08x", b, fbits(a));
  if (nanostl::FloatToUint(f) != b || nanostl::FloatToInt(f) != (int)b) REQUIRE_MSG(false, "FloatToUint/FloatToInt of 0x%08x", b);
  const uint32_t u = fbits(nanostl::UintToFloat(b)), i = fbits(nanostl::IntToFloat((int)b));
  if (u != b || i != b) REQUIRE_MSG(false, "UintToFloat/IntToFloat of 0x%08x gives 0x%08x, 0x%08x", b, u, i);
  return m != 0;
}
SWEEP(copysigns, 0, 1ull << 32, 1ull << 29, 1ull << 32, "copysign(x, y) has the magnitude of x and the sign of y (all x; y zero, one, NaN, infinity, subnormal of both signs)") {
  const uint32_t b = (uint32_t)x;
  const uint32_t ys[2] = {kSigns[mix(x) % 10], (uint32_t)mix(x + 99)};
  for (int k = 0; k < 2; k++) {
    const uint32_t e = (b & 0x7fffffff) | (ys[k] & 0x80000000u), g = fbits(nanostl::copysign(bits2f(b), bits2f(ys[k])));
    if (g != e) REQUIRE_MSG(false, "copysign(0x%08x, 0x%08x) is 0x%08x", b, ys[k], g);
  }
  return (b & 0x7fffffff) != 0;
}
static void one(uint64_t b) {
  const uint64_t m = b & ~(1ull << 63), I = 0x7ffull << 52;
  const double f = bits2d(b);
  const bool nan = m > I, inf = m == I, norm = m >= (1ull << 52) && m < I;
  REQUIRE_MSG(nanostl::isnan(f) == nan, "isnan(0x%016llx)", (unsigned long long)b);
  REQUIRE_MSG(nanostl::isinf(f) == inf, "isinf(0x%016llx)", (unsigned long long)b);
  REQUIRE_MSG(nanostl::isfinite(f) == (m < I), "isfinite(0x%016llx)", (unsigned long long)b);
  REQUIRE_MSG(nanostl::isnormal(f) == norm, "isnormal(0x%016llx)", (unsigned long long)b);
  const double a = nanostl::fabs(f);
  REQUIRE_MSG(nan ? is_nan(a) : dbits(a) == m, "fabs(0x%016llx) is 0x%016llx", (unsigned long long)b, (unsigned long long)dbits(a));
}
SWEEP(doubles, 0, 1ull << 63, 100000000, 3000000000ull, "classification and fabs of doubles, one per stratum, both signs") {
  one(x);
  one(x | 1ull << 63);
  return x != 0;
}
// Every exponent with every mantissa of at most two bits set or cleared.
SWEEP(edges, 0, 2048ull * 52 * 53 * 2, 2048ull * 52 * 53 * 2, 2048ull * 52 * 53 * 2, "classification of doubles: every exponent, mantissas with at most two bits set, or at most two clear (exhaustive)") {
  const uint64_t e = x % 2048, i = x / 2048 % 52, j = x / 2048 / 52 % 53, inv = x / 2048 / 52 / 53;
  uint64_t m = j < 52 ? (1ull << i) ^ (1ull << j) : 1ull << i;
  if (inv) m = ~m & ((1ull << 52) - 1);
  one(e << 52 | m);
  one(1ull << 63 | e << 52 | m);
  return true;
}
SWEEP(integers, 0, 1ull << 32, 1ull << 27, 1ull << 32, "fabs of integers (int, long long) whose absolute value is representable") {
  const int i = (int)(uint32_t)x;
  if (i == INT32_MIN) return false;
  REQUIRE_MSG(nanostl::fabs(i) == (i < 0 ? -i : i), "fabs(%d) is %d", i, nanostl::fabs(i));
  const long long l = (long long)mix(x) >> (x % 60);
  if (l != INT64_MIN) REQUIRE_MSG(nanostl::fabs(l) == (l < 0 ? -l : l), "fabs(%lld) is %lld", l, nanostl::fabs(l));
  return i < 0;
}
