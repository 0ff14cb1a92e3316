// C27: sinh, cosh, tanh, erf, erfc, ierf.
#define PBT_MAIN
#include "mathref.h"
using namespace pbt;
static void odd(const char *fn, float f, float p, float n) {
  if (!(p == -n)) REQUIRE_MSG(false, "%s is not odd at %a: %.9g and %.9g", fn, f, p, n);
}
static void hyp(float f) {  // f >= 0
  const float s = nanostl::sinh(f), c = nanostl::cosh(f), t = nanostl::tanh(f);
  odd("sinh", f, s, nanostl::sinh(-f));
  odd("tanh", f, t, nanostl::tanh(-f));
  if (!same(c, nanostl::cosh(-f))) REQUIRE_MSG(false, "cosh is not even at %a", f);
  if (!(s >= 0 && s <= FLT_MAX && c >= 1 && c <= FLT_MAX && t >= 0 && t <= 1))
    REQUIRE_MSG(false, "sinh, cosh, tanh of %.9g give %.9g, %.9g, %.9g: out of range", f, s, c, t);
  const double e = std::exp(std::min((double)f, 88.0)), i = 1 / e;
  if (f <= 1) near_abs("sinh", f, s, std::sinh((double)f), 1.35e-7);  // documented: 1.19209e-07
  if (f <= 87.33f) {
    const double rs = (e - i) / 2, rc = (e + i) / 2;
    if (f >= 1) near_abs("sinh", f, s, rs, (135 + f) * ulp(rs));  // documented: 178 ulp
    near_abs("cosh", f, c, rc, (f < 0.125f ? 4 : 135 + f) * ulp(rc));
  }
  near_abs("tanh", f, t, f < 1 ? std::tanh((double)f) : f > 44 ? 1.0 : (e - i) / (e + i),
           f < 0.0078125f ? 2.5e-7 : f < 2 ? 3.4e-6 : f < 4 ? 3.5e-7 : 1e-7);  // documented: 3.12924e-06
}
static void err(float f) {  // f >= 0
  const float g = nanostl::erf(f), m = nanostl::erf(-f), c = nanostl::erfc(f), cm = nanostl::erfc(-f);
  odd("erf", f, g, m);
  if (!(g >= 0 && g <= 1 && c >= 0 && cm <= 2)) REQUIRE_MSG(false, "erf, erfc of +-%.9g give %.9g, %.9g, %.9g: out of range", f, g, c, cm);
  const double r = f > 6 ? 1.0 : std::erf((double)f);
  const double b = f < 1 ? 2.1e-6 : f < 2 ? 6.5e-7 : f < 4 ? 4e-7 : 3e-7;
  near_abs("erf", f, g, r, b);  // documented: 1.93715e-06
  near_abs("erfc", f, c, 1 - r, b);
  near_abs("erfc", -f, cm, 1 + r, b);
}
static double ref_ierf(double y) {  // 0 <= y < 1
  const double k = 1.1283791670955125739;  // 2 / sqrt(pi)
  double x = y < 0.9 ? y * 0.9 : std::sqrt(-std::log(1 - y));
  for (int i = 0; i < 60; i++) {
    const double e = y < 0.5 ? std::erf(x) - y : (1 - y) - std::erfc(x);
    const double st = e / (k * std::exp(-x * x));
    x -= st;
    if (std::fabs(st) <= 1e-15 * x) break;
  }
  return x;
}
static void inv(float f) {  // f >= 0
  const float g = nanostl::ierf(f);
  odd("ierf", f, g, nanostl::ierf(-f));
  if (f >= 1) {
    // the argument is clamped to the value below 1; the result grows with x beyond
    if (f == 1) near_abs("ierf", f, g, ref_ierf(0.99999994f), 2.5e-3 * 4);
    return;
  }
  const double r = ref_ierf(f);
  // documented clamp and polynomial; the tail goes through the approximate log and sqrt
  near_abs("ierf", f, g, r, f < FLT_MIN ? 3e-45 : f < 0.996f ? 3.5e-7 * r : 2.2e-3 * r);
}
SWEEP(hyperbolic, 0, 0x7f800001u, 1ull << 26, 1ull << 32, "sinh, cosh, tanh of all floats, infinity included, both signs (thorough: every one)") {
  hyp(bits2f((uint32_t)x));
  return x > 0x30000000 && x < 0x43000000;
}
SWEEP(hyp_dense, 0x36000000u, 0x42b00000u, 1ull << 26, 0x42b00000u - 0x36000000u, "sinh, cosh, tanh of floats of magnitude 2^-19 to 88, both signs (thorough: every one)") {
  hyp(bits2f((uint32_t)x));
  return true;
}
SWEEP(erf_all, 0, 0x7f800000u, 1ull << 26, 1ull << 32, "erf and erfc of all finite floats, both signs (thorough: every one)") {
  err(bits2f((uint32_t)x));
  return x > 0x30000000 && x < 0x41000000;
}
SWEEP(erf_dense, 0x36000000u, 0x41000000u, 1ull << 26, 0x41000000u - 0x36000000u, "erf and erfc of floats of magnitude 2^-19 to 8, both signs (thorough: every one)") {
  err(bits2f((uint32_t)x));
  return true;
}
SWEEP(ierf_all, 0, 0x3f800001u, 1ull << 23, 1ull << 29, "ierf of floats in [0, 1], both signs, by Newton's method on the C library's erf") {
  inv(bits2f((uint32_t)x));
  return x > 0;
}
SWEEP(ierf_dense, 0x3c000000u, 0x3f800001u, 1ull << 23, 0x3800001u, "ierf of floats in [2^-7, 1], both signs (thorough: every one)") {
  inv(bits2f((uint32_t)x));
  return true;
}
SWEEP(edges, 0, 256 * 65, 256 * 65, 256 * 65, "all six next to every power of two, and next to 1 (exhaustive)") {
  const int64_t b = x < 255 * 65 ? (int64_t)((x / 65) << 23) + (int64_t)(x % 65) - 32 : 0x3f800000 - (int64_t)(x % 65);
  if (b < 0 || b >= 0x7f800000) return false;
  hyp(bits2f((uint32_t)b));
  err(bits2f((uint32_t)b));
  inv(bits2f((uint32_t)b));
  return true;
}
PROPERTY(named, 300000, 10000000, "structured values; erf(ierf(y)) is y") {
  float f = std::fabs(any_f(s));
  s.note("%a\n", f);
  hyp(f), err(f), inv(f);
  if (f < 0.99f) {
    near_abs("erf(ierf(y)): ", f, nanostl::erf(nanostl::ierf(f)), f, 1e-3);
    s.nontrivial();
  }
}
