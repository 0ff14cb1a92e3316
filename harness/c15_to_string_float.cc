// C15: to_string(float): the shortest decimal that reads back as the same value, the closest of those.
#define PBT_MAIN
#include "numtext.h"
using namespace pbt;
static void one(float f) {
  char e[64];
  int n = expect_f(f, e);
  const nanostl::string got = nanostl::to_string(f);
  if ((int)got.size() == n && memcmp(got.c_str(), e, (size_t)n + 1) == 0) return;
  // Another decimal of the same length that is just as good would do.
  if (got.size() == (u64)n && f == f && f - f == 0 && strlen(got.c_str()) == (size_t)n && digits_of(got.c_str()) == digits_of(e)) {
    char c[64];
    nearest(f, digits_of(e), c);
    if (!strcmp(c, got.c_str()) && fbits(strtof(got.c_str(), 0)) == fbits(f)) return;
  }
  REQUIRE_MSG(false, "to_string(%a, bits 0x%08x) gives %s instead of \"%s\"", f, fbits(f), show(plain(got)).c_str(), e);
}
#ifdef __SANITIZE_ADDRESS__
#define Q 200000
#define T 50000000
#else
#define Q 3000000
#define T (1ull << 32)
#endif
SWEEP(floats, 0, 1ull << 32, Q, T, "to_string(float) is shortest, closest and well formed (thorough: all 2^32 values)") {
  one(bits2f((uint32_t)x));
  return true;
}
// Boundaries, where the rounding interval is asymmetric or the decimal exponent changes.
SWEEP(edges, 0, 256 * 64, 256 * 64, 256 * 64, "to_string(float) next to every power of two, both signs (exhaustive)") {
  uint32_t b = (uint32_t)((x >> 6) << 23) + (uint32_t)(x & 31) - 16;
  if (x & 32) b ^= 0x80000000u;
  one(bits2f(b));
  return true;
}
PROPERTY(decimals, 300000, 20000000, "to_string(float) of structured values: short decimals, integers, powers of ten, subnormals; checked with exact arithmetic") {
  float f = any_float(s);
  s.note("%a (0x%08x)\n", f, fbits(f));
  LeakCheck l;
  {
    one(f);
    if (f == f && f - f == 0) {
      const nanostl::string got = nanostl::to_string(f);
      REQUIRE_MSG(fbits(strtof(got.c_str(), 0)) == fbits(f), "%s does not read back as the same float", got.c_str());
      int n = digits_of(got.c_str());
      REQUIRE(n <= 9 && (f == 0 || got.c_str()[f < 0] != '0'));
      char c[64];
      if (n > 1) {
        nearest(f, n - 1, c);
        REQUIRE_MSG(fbits(strtof(c, 0)) != fbits(f), "%s is longer than %s", got.c_str(), c);
        s.nontrivial();
      }
      REQUIRE(strtof((nearest(f, n, c), c), 0) != f || !strcmp(c, got.c_str()));
    }
  }
  l.done();
}
