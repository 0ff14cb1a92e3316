// C28: numeric_limits describes its types.
#define PBT_MAIN
#include "nano_pre.h"
#include <cfloat>
#include <climits>
#include <cmath>
#include <cstring>
#include <limits>
#include "mathref.h"
#include "nanolimits.h"
using pbt::Src;
using pbt::i64;
using pbt::u64;

template <class T, class U> struct same_t { enum { v = 0 }; };
template <class T> struct same_t<T, T> { enum { v = 1 }; };

// The functions return T and agree with the definition for every integer type.
template <class T>
static void integer(Src &s, T v) {
  typedef nanostl::numeric_limits<T> L;
  REQUIRE((same_t<decltype(L::min()), T>::v && same_t<decltype(L::max()), T>::v && same_t<decltype(L::epsilon()), T>::v));
  REQUIRE_MSG(L::min() <= v && v <= L::max(), "min %lld, value %lld, max %llu (%u bytes)", (i64)L::min(), (i64)v, (u64)L::max(), (unsigned)sizeof(T));
  REQUIRE_MSG(L::min() == std::numeric_limits<T>::min() && L::max() == std::numeric_limits<T>::max(), "min %lld max %llu of a type of %u bytes", (i64)L::min(), (u64)L::max(), (unsigned)sizeof(T));
  REQUIRE(L::epsilon() == T(0));
  // digits10 decimal digits always fit, one more does not
  const int d = L::digits10;
  u64 p = 1;
  for (int i = 0; i < d; i++) p *= 10;
  REQUIRE_MSG(p - 1 <= (u64)L::max(), "%d digits do not fit in a type of %u bytes", d, (unsigned)sizeof(T));
  REQUIRE_MSG(p > (u64)L::max() / 10 || p * 10 - 1 > (u64)L::max(), "%d digits fit in a type of %u bytes", d + 1, (unsigned)sizeof(T));
}
PROPERTY(integers, 200000, 5000000, "every value of an integer type lies between min and max; digits10 digits fit and no more") {
  u64 x = s.flip() ? s.bits64() : (u64)s.edgy(INT64_MIN, INT64_MAX);
  s.note("%llx\n", x);
  if (x) s.nontrivial();
  integer<bool>(s, x & 1);
  integer<char>(s, (char)x);
  integer<unsigned char>(s, (unsigned char)x);
  integer<short>(s, (short)x);
  integer<unsigned short>(s, (unsigned short)x);
  integer<int>(s, (int)x);
  integer<unsigned>(s, (unsigned)x);
  integer<long long>(s, (long long)x);
  integer<unsigned long long>(s, x);
}
typedef nanostl::numeric_limits<float> F;
typedef nanostl::numeric_limits<double> D;
// Every finite float is within max, every positive one at least denorm_min, every normal one at least min.
SWEEP(floats, 0, 1ull << 31, 1ull << 31, 1ull << 31, "bounds of the float limits over every non-negative float (exhaustive)") {
  const uint32_t b = (uint32_t)x;
  const float f = bits2f(b);
  if (b >= 0x7f800000u) {
    if (b == 0x7f800000u) REQUIRE(f == F::infinity());
    return false;
  }
  if (f > F::max() || !(f < F::infinity())) REQUIRE_MSG(false, "%a is above max %a or infinity %a", f, F::max(), F::infinity());
  if (b && f < F::denorm_min()) REQUIRE_MSG(false, "%a is below denorm_min %a", f, F::denorm_min());
  if (b >= 0x00800000u ? f < F::min() : f >= F::min()) REQUIRE_MSG(false, "min %a does not separate normal and subnormal: %a", F::min(), f);
  if (f > 1 ? f < 1 + F::epsilon() : f > 1 - F::epsilon() / 2 && f < 1) REQUIRE_MSG(false, "%a is closer to 1 than epsilon %a", f, F::epsilon());
  return b != 0;
}
PROPERTY(doubles, 2000000, 50000000, "bounds of the double limits, over doubles of every exponent and next to the limits") {
  u64 b;
  switch (s.below(4)) {
    case 0: b = s.below(0x7ffull << 52); break;
    case 1: b = (0x7ffull << 52) - 1 - s.below(16); break;
    case 2: b = (1ull << 52) + s.below(32) - 16; break;
    default: b = s.flip() ? s.below(16) : (0x3ffull << 52) + s.below(32) - 16;
  }
  const double d = bits2d(b);
  s.note("%a\n", d);
  if (b) s.nontrivial();
  REQUIRE(d <= D::max() && d < D::infinity());
  REQUIRE(!b || d >= D::denorm_min());
  REQUIRE(b >= (1ull << 52) ? d >= D::min() : d < D::min());
  REQUIRE(d > 1 ? d >= 1 + D::epsilon() : d == 1 || d <= 1 - D::epsilon() / 2);
}
template <class T>
static void text(Src &s, int digits) {
  // a decimal number of digits10 digits survives the conversion to T and back
  char a[64], b[64];
  u64 p = 1;
  for (int i = 1; i < digits; i++) p *= 10;
  u64 m = p + s.below(9 * p);
  const int e = sizeof(T) == 4 ? (int)s.range(-37, 30) : (int)s.range(-300, 280);
  snprintf(a, sizeof a, "%llue%d", m, e);
  const T v = sizeof(T) == 4 ? (T)strtof(a, 0) : (T)strtod(a, 0);
  snprintf(b, sizeof b, "%.*e", digits - 1, (double)v);
  char c[64];
  snprintf(c, sizeof c, "%.*Le", digits - 1, strtold(a, 0));
  s.note("%s\n", a);
  REQUIRE_MSG(!strcmp(b, c), "%s reads back as %s", a, b);
  s.nontrivial();
}
PROPERTY(digits, 300000, 10000000, "numbers of digits10 decimal digits survive float and double") {
  text<float>(s, F::digits10);
  text<double>(s, D::digits10);
}
PROPERTY(constants, 1, 1, "the limits of float and double are those of <limits>") {
  s.nontrivial();
  s.note("constants\n");
  REQUIRE((same_t<decltype(F::min()), float>::v && same_t<decltype(D::infinity()), double>::v));
  REQUIRE(fbits(F::min()) == fbits(FLT_MIN) && fbits(F::max()) == fbits(FLT_MAX) && fbits(F::epsilon()) == fbits(FLT_EPSILON));
  REQUIRE(dbits(D::min()) == dbits(DBL_MIN) && dbits(D::max()) == dbits(DBL_MAX) && dbits(D::epsilon()) == dbits(DBL_EPSILON));
  REQUIRE(fbits(F::denorm_min()) == 1 && dbits(D::denorm_min()) == 1);
  REQUIRE(fbits(F::infinity()) == 0x7f800000u && dbits(D::infinity()) == 0x7ffull << 52);
  const uint32_t q = fbits(F::quiet_NaN()), g = fbits(F::signaling_NaN());
  const u64 Q = dbits(D::quiet_NaN()), G = dbits(D::signaling_NaN());
  REQUIRE((q & 0x7fc00000u) == 0x7fc00000u && (Q & (0xfffull << 51)) == 0xfffull << 51);
  REQUIRE((g & 0x7fc00000u) == 0x7f800000u && (g & 0x3fffffu) && (G & (0xfffull << 51)) == 0x7ffull << 52 && (G << 13));
  REQUIRE(int(F::digits10) == FLT_DIG && int(D::digits10) == DBL_DIG && int(nanostl::numeric_limits<bool>::digits10) == 0);
}
