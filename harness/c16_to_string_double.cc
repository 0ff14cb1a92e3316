// C16: to_string(double): the shortest decimal that reads back as the same value, the closest of those.
#define PBT_MAIN
#include "numtext.h"
#include "hardcases.h"
using namespace pbt;
static nanostl::string one(double f) {
  char e[64];
  int n = expect_d(f, e);
  const nanostl::string got = nanostl::to_string(f);
  if ((int)got.size() == n && memcmp(got.c_str(), e, (size_t)n + 1) == 0) return got;
  if (got.size() == (u64)n && f == f && f - f == 0 && strlen(got.c_str()) == (size_t)n && digits_of(got.c_str()) == digits_of(e)) {
    char c[64];
    nearest(f, digits_of(e), c);
    if (!strcmp(c, got.c_str()) && dbits(strtod(got.c_str(), 0)) == dbits(f)) return got;
  }
  REQUIRE_MSG(false, "to_string(%a, bits 0x%016llx) gives %s instead of \"%s\"", f, (unsigned long long)dbits(f), show(plain(got)).c_str(), e);
  return got;
}
#ifdef __SANITIZE_ADDRESS__
#define Q 200000
#define T 20000000
#else
#define Q 4000000
#define T 1500000000ull
#endif
SWEEP(doubles, 0, ~0ull, Q, T, "to_string(double) is shortest, closest and well formed, over the whole bit range") {
  one(bits2d(x));
  return true;
}
SWEEP(edges, 0, 2048 * 64, 2048 * 64, 2048 * 64, "to_string(double) next to every power of two, both signs (exhaustive)") {
  u64 b = ((u64)(x >> 6) << 52) + (x & 31) - 16;
  if (x & 32) b ^= 1ull << 63;
  one(bits2d(b));
  return true;
}
SWEEP(small_integers, 0, 1ull << 53, Q / 2, T / 4, "to_string(double) of integers below 2^53") {
  one((double)x);
  one(-(double)(x >> (x & 31)));
  return true;
}
// Of every exponent the doubles (or limits of their intervals) whose decimal quotient is closest to a whole number.
SWEEP(hardest, 0, 2047, 2047, 2047, "to_string(double) of the doubles of every exponent that need the most precise arithmetic (continued fractions)") {
  const int e2 = (x ? (int)x : 1) - 1077;
  const int q0 = e2 >= 0 ? (int)(e2 * 0.30102999566398119) : (int)(-e2 * 0.69897000433601880);
  std::vector<u64> v;
  for (int q = q0 > 1 ? q0 - 2 : 0; q <= q0; q++)
    for (int k = x ? 54 : 12; k < (x ? 55 : 54); k += 3) {
      const u64 lo = 1ull << k, hi = (x ? 2 : 8) * lo - 1;
      if (e2 >= 0) close_multiples(-q, e2 - q, lo, hi, v);
      else close_multiples(-e2 - q, -q, lo, hi, v);
    }
  for (size_t i = 0; i < v.size(); i++)
    for (int d = -1; d <= 1; d++) {
      const u64 m = v[i] / 4 + (u64)d;
      if (m < (x ? 1ull << 52 : 1) || m >= 1ull << (x ? 53 : 52)) continue;
      one(bits2d((x << 52) + (m & ((1ull << 52) - 1))));
    }
  return v.size() > 50;
}
PROPERTY(decimals, 400000, 40000000, "to_string(double) of structured values: short decimals, integers, powers of ten, subnormals; checked with exact arithmetic") {
  double f = any_double(s);
  s.note("%a (0x%016llx)\n", f, (unsigned long long)dbits(f));
  LeakCheck l;
  {
    const nanostl::string got = one(f);
    if (f == f && f - f == 0) {
      REQUIRE_MSG(dbits(strtod(got.c_str(), 0)) == dbits(f), "%s does not read back as the same double", got.c_str());
      int n = digits_of(got.c_str());
      REQUIRE(n <= 17 && (f == 0 || got.c_str()[f < 0] != '0'));
      char c[64];
      if (n > 1) {
        nearest(f, n - 1, c);
        REQUIRE_MSG(dbits(strtod(c, 0)) != dbits(f), "%s is longer than %s", got.c_str(), c);
        s.nontrivial();
      }
    }
  }
  l.done();
}
