// C24: exp, fast_exp2, log, log10 within their documented errors.
#define PBT_MAIN
#include "mathref.h"
using namespace pbt;
// Documented: 230 (exp), 232 (exp2), counted below a power of two. The argument of exp is scaled by 1 / ln 2 first,
// whose rounding grows with it; close to 0 the polynomial is nearly exact.
static double exp_ulp(double x) { return std::fabs(x) < 0.0625 ? 8 : 135 + std::fabs(x); }
static double exp2_ulp(double x) { return std::fabs(x) < 0.0625 ? 8 : 200; }
static const double kLo = 1.1754943508222875e-38, kHi = 8.507059173023462e37;  // 2^-126, 2^126
static void exps(float f) {
  const float e2 = nanostl::fast_exp2(f), e = nanostl::exp(f);
  const double w = 1 + 250 * 1.2e-7;
  if (!(e2 >= kLo / w && e2 <= kHi * w)) REQUIRE_MSG(false, "fast_exp2(%.9g) gives %g, outside 2^-126 .. 2^126", f, e2);
  if (!(e >= kLo / w && e <= kHi * w)) REQUIRE_MSG(false, "exp(%.9g) gives %g, outside 2^-126 .. 2^126", f, e);
  const double r2 = std::exp2((double)std::max(-126.0f, std::min(126.0f, f)));
  near_abs("fast_exp2", f, e2, r2, exp2_ulp(f) * ulp(r2));
  if (f >= -87.33f && f <= 87.33f) {
    const double r = std::exp((double)f);
    near_abs("exp", f, e, r, exp_ulp(f) * ulp(r));
  } else {
    if (f > 87.3366f) near_abs("exp", f, e, kHi, 240 * ulp(kHi));
    if (f < -87.3366f) near_abs("exp", f, e, kLo, 240 * ulp(kLo));
  }
}
static void logs(float f) {
  const float l = nanostl::log(f), l10 = nanostl::log10(f);
  if (f >= FLT_MIN) {
    const double g = std::min(f, FLT_MAX);  // infinity counts as the largest value
    const double r = std::log(g), r10 = r * 0.43429448190325182765;
    near_abs("log", f, l, r, 3e-7 + 1.8e-7 * std::fabs(r));
    near_abs("log10", f, l10, r10, 1.5e-7 + 2.5e-7 * std::fabs(r10));
  } else if (f > 0) {
    REQUIRE_MSG(l >= std::log((double)f) - 2e-5 && l <= -87.33651, "log of the subnormal %a gives %.9g", f, l);
    REQUIRE_MSG(l10 >= std::log10((double)f) - 1.2e-5 && l10 <= -37.92976, "log10 of the subnormal %a gives %.9g", f, l10);
  }
  if (f == 1) REQUIRE(l == 0 && l10 == 0);
  if (f == 0) REQUIRE(l == -INFINITY && l10 == -INFINITY);
}
SWEEP(exp_all, 0, 1ull << 32, 1ull << 27, 1ull << 32, "exp and fast_exp2 over all floats that are not NaN (thorough: every one)") {
  const float f = bits2f((uint32_t)x);
  if (is_nan(f)) return false;
  exps(f);
  return std::fabs(f) > 1e-7 && std::fabs(f) < 126;
}
// From 2^-24 to 128, where the results vary.
SWEEP(exp_dense, 0x33800000u, 0x43000000u, 0x43000000u - 0x33800000u, 0x43000000u - 0x33800000u, "exp and fast_exp2 of every float of magnitude 2^-24 to 128, both signs (exhaustive)") {
  exps(bits2f((uint32_t)x));
  exps(bits2f((uint32_t)x | 0x80000000u));
  return true;
}
SWEEP(log_all, 0, 0x7f800001u, 1ull << 29, 1ull << 32, "log and log10 of all non-negative floats (thorough: every one)") {
  logs(bits2f((uint32_t)x));
  return x >= 0x00800000 && x != 0x3f800000;
}
SWEEP(log_near_one, 0x3f000000u, 0x40000000u, 1u << 24, 1u << 24, "log and log10 of every float in [0.5, 2) (exhaustive)") {
  logs(bits2f((uint32_t)x));
  return x != 0x3f800000;
}
SWEEP(log_edges, 0, 255 * 65, 255 * 65, 255 * 65, "log and log10 next to every power of two (exhaustive)") {
  const int64_t b = (int64_t)((x / 65) << 23) + (int64_t)(x % 65) - 32;
  if (b < 0 || b > 0x7f800000) return false;
  logs(bits2f((uint32_t)b));
  return true;
}
PROPERTY(identities, 1000000, 50000000, "log(exp(x)) is x, exp(log(x)) is x, within the two documented errors; special values") {
  REQUIRE(nanostl::log(-0.0f) == -INFINITY && nanostl::log10(-0.0f) == -INFINITY);
  float f = any_f(s);
  s.note("%a\n", f);
  exps(f);
  if (f >= 0) logs(f);
  if (std::fabs(f) <= 87) {
    near_abs("log(exp(x)): ", f, nanostl::log(nanostl::exp(f)), f, 3e-5 + 4e-7 * std::fabs(f));
    s.nontrivial();
  }
  if (f >= FLT_MIN * 2 && f <= 8e37f) {
    near_abs("exp(log(x)): ", f, nanostl::exp(nanostl::log(f)), f, f * (4e-5 + 4e-7 * std::fabs(std::log((double)f))));
    s.nontrivial();
  }
}
