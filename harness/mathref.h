// Helpers of the math harnesses. The reference is the C library's double-precision function.
#ifndef MATHREF_H_
#define MATHREF_H_
#include <cmath>
#include <cfloat>
#include "nano_pre.h"
#include "nanomath.h"
static inline float bits2f(uint32_t b) {
  float f;
  memcpy(&f, &b, 4);
  return f;
}
static inline uint32_t fbits(float f) {
  uint32_t b;
  memcpy(&b, &f, 4);
  return b;
}
static inline double bits2d(uint64_t b) {
  double f;
  memcpy(&f, &b, 8);
  return f;
}
static inline uint64_t dbits(double f) {
  uint64_t b;
  memcpy(&b, &f, 8);
  return b;
}
static inline bool is_nan(float f) { return (fbits(f) & 0x7fffffff) > 0x7f800000; }
static inline bool is_nan(double f) { return (dbits(f) & ~(1ull << 63)) > 0x7ffull << 52; }
static inline bool same(float a, float b) { return fbits(a) == fbits(b); }
// Distance of floats next to v.
static inline double ulp(double v) {
  v = std::fabs(v);
  if (v < FLT_MIN) return std::ldexp(1.0, -149);
  int e;
  std::frexp(v, &e);
  return std::ldexp(1.0, e - 24);
}
static inline void near_abs(const char *fn, float x, float got, double ref, double tol) {
  const double e = std::fabs(got - ref);
  REQUIRE_MSG(e <= tol, "%s(%a = %.9g, bits 0x%08x) gives %.9g, %.17g expected: off by %.4g, allowed %.4g", fn, x, x, fbits(x), got, ref, e, tol);
}
// Floats of interest: every exponent, special mantissas, small integers and fractions, named constants.
static inline float any_f(pbt::Src &s) {
  static const float named[] = {0.0f, 1.0f, 0.5f, 2.0f, 3.0f, 1.5f, 0.1f, 10.0f, 100.0f, 3.14159265f, 1.57079633f, 6.28318531f, 0.785398163f, 2.71828183f, 0.693147181f,
                                88.0f, 87.3f, 126.0f, 127.0f, 128.0f, 149.0f, 150.0f, 8192.0f, 8388608.0f, 16777216.0f, 2147483648.0f, 9.2233720e18f, 4503599627370496.0f,
                                FLT_MAX, FLT_MIN, FLT_EPSILON, FLT_EPSILON / 2, 1.401298464e-45f, 0.99999994f, 1.00000012f};
  float f;
  switch (s.below(6)) {
    case 0: f = named[s.below(sizeof named / sizeof *named)]; break;
    case 1: f = (float)s.range(0, 300); break;
    case 2: f = (float)s.range(0, 4096) / (float)(1 << s.below(13)); break;
    case 3: f = bits2f((uint32_t)(s.below(255) << 23) + (uint32_t)s.range(0, 8)); break;
    case 4: f = bits2f((uint32_t)(s.below(254) << 23) + 0x7fffff - (uint32_t)s.range(0, 8)); break;
    default: f = bits2f((uint32_t)s.below(0x7f800000u));
  }
  return s.flip() ? -f : f;
}
#endif
