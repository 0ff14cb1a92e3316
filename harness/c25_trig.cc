// C25: sin, cos, tan within their documented errors.
#define PBT_MAIN
#include "mathref.h"
using namespace pbt;
static void one(float f) {
  const float a = std::fabs(f), si = nanostl::sin(f), co = nanostl::cos(f);
  if (!(si >= -1 && si <= 1)) REQUIRE_MSG(false, "sin(%.9g) gives %.9g, outside [-1, 1]", f, si);
  if (!(co >= -1 && co <= 1)) REQUIRE_MSG(false, "cos(%.9g) gives %.9g, outside [-1, 1]", f, co);
  if (!(a <= 8192)) return;
  double rs, rc;
  sincos((double)f, &rs, &rc);
  const bool tight = a <= 6.2831855f;
  near_abs("sin", f, si, rs, tight ? 1.7e-7 : 2.2e-7);  // documented: 1.19e-7 on [-2pi, 2pi]
  near_abs("cos", f, co, rc, a <= 1 ? 1.9e-7 : tight ? 5.5e-7 : 6.5e-7);  // documented: 4.33e-7 on [-2pi, 2pi]
  const double rt = rs / rc;
  near_abs("tan", f, nanostl::tan(f), rt, 1.8e-7 * (1 + rt * rt));
}
SWEEP(all, 0, 1ull << 32, 1ull << 26, 1ull << 32, "sin, cos, tan over all floats of magnitude below 2^30 (thorough: every one)") {
  const float f = bits2f((uint32_t)x);
  if (!(std::fabs(f) < 1073741824.0f)) return false;
  one(f);
  return std::fabs(f) > 1e-6f && std::fabs(f) <= 8192;
}
SWEEP(dense, 0x35000000u, 0x46000001u, 1ull << 26, 0x46000001u - 0x35000000u, "sin, cos, tan of floats of magnitude 2^-21 to 8192, both signs (thorough: every one)") {
  one(bits2f((uint32_t)x));
  one(bits2f((uint32_t)x | 0x80000000u));
  return true;
}
// Around every multiple of pi/4 up to 8192, where the reduction changes quadrant.
SWEEP(quadrants, 0, 10432 * 64, 10432 * 64, 10432 * 64, "sin, cos, tan of the 64 floats around every multiple of pi/4 up to 8192, both signs (exhaustive)") {
  const float m = (float)((double)(x / 64) * 0.78539816339744830962);
  const float f = bits2f(fbits(m) + (uint32_t)(m == 0 ? x % 64 : x % 64 - 32));
  if (f > 8192) return false;
  one(f);
  one(-f);
  return true;
}
PROPERTY(named, 500000, 20000000, "sin, cos, tan of structured values: integers, fractions, edges of exponents, and the square sum") {
  float f = any_f(s);
  if (!(std::fabs(f) < 1073741824.0f)) return;
  s.note("%a\n", f);
  one(f);
  if (std::fabs(f) > 8192) return;
  const double q = (double)nanostl::sin(f) * nanostl::sin(f) + (double)nanostl::cos(f) * nanostl::cos(f);
  REQUIRE_MSG(std::fabs(q - 1) < 2e-6, "sin^2 + cos^2 of %a is %.9g", f, q);
  s.nontrivial();
}
