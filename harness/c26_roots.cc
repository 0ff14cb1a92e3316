// C26: sqrt, cbrt, pow.
#define PBT_MAIN
#include "mathref.h"
using namespace pbt;
static void sq(float f) {
  const float g = nanostl::sqrt(f);
  if (is_nan(f) || f < 0) {
    if (!is_nan(g)) REQUIRE_MSG(false, "sqrt(%.9g) gives %.9g instead of NaN", f, g);
  } else if (f == 0 || f == 1 || f == INFINITY) {
    REQUIRE_MSG(same(f, g), "sqrt(%.9g) gives %.9g", f, g);
  } else if (f >= FLT_MIN) {
    const double r = std::sqrt((double)f);
    near_abs("sqrt", f, g, r, r * 1.76e-3);  // one Newton step from the bit-level estimate
  } else {
    if (!(g >= 0 && g <= 1.0861e-19)) REQUIRE_MSG(false, "sqrt(%a) gives %.9g, more than sqrt of the smallest normal value", f, g);
  }
}
static void cb(float f) {
  const float g = nanostl::cbrt(f);
  REQUIRE_MSG(std::signbit(g) == std::signbit(f), "cbrt(%.9g) gives %.9g", f, g);
  if (f == 0) {
    REQUIRE_MSG(g == 0, "cbrt(%.9g) gives %.9g", f, g);
    return;
  }
  const double r = std::cbrt((double)f);
  near_abs("cbrt", f, g, r, std::fabs(f) >= 1e-38f ? 13 * ulp(r) : 8.3e-14);  // documented: 12 ulp, 8.14687e-14
}
SWEEP(sqrt_all, 0, 1ull << 32, 1ull << 30, 1ull << 32, "sqrt of all floats (thorough: every one)") {
  sq(bits2f((uint32_t)x));
  return x > 0 && x < 0x7f800000;
}
SWEEP(cbrt_all, 0, 1ull << 32, 1ull << 27, 1ull << 32, "cbrt of all finite floats (thorough: every one)") {
  const float f = bits2f((uint32_t)x);
  if (!(std::fabs(f) <= FLT_MAX)) return false;
  cb(f);
  return f != 0;
}
SWEEP(edges, 0, 255 * 129, 255 * 129, 255 * 129, "sqrt and cbrt next to every power of two (exhaustive)") {
  const int64_t b = (int64_t)((x / 129) << 23) + (int64_t)(x % 129) - 64;
  if (b < 0) return false;
  const float f = bits2f((uint32_t)b);
  sq(f), sq(-f);
  if (f <= FLT_MAX) cb(f), cb(-f);
  return true;
}
// pow: x^y = 2^(y log2 x) with both steps approximated.
static bool pw(float x, float y, bool strict) {
  const float g = nanostl::pow(x, y);
  const double ay = std::fabs((double)y);
  if (ay < FLT_EPSILON) {
    REQUIRE_MSG(g == 1, "pow(%a, %a) gives %.9g instead of 1", x, y, g);
    return false;
  }
  if (x == 0) {
    if (y > 0) REQUIRE_MSG(g == 0, "pow(%a, %a) gives %.9g instead of 0", x, y, g);
    return false;
  }
  if (y == 1) {
    REQUIRE_MSG(same(g, x), "pow(%a, 1) gives %.9g", x, g);
    return true;
  }
  if (y == 2) {
    const float q = x * x;
    REQUIRE_MSG(g == (q > FLT_MAX ? FLT_MAX : q), "pow(%a, 2) gives %.9g", x, g);
    return true;
  }
  const bool integral = std::nearbyint((double)y) == y;
  if (x < 0 && !integral) {
    REQUIRE_MSG(g == 0, "pow(%a, %a) gives %.9g instead of 0 (negative base, fractional power)", x, y, g);
    return true;
  }
  const bool negative = x < 0 && std::fmod((double)y, 2) != 0;
  REQUIRE_MSG(g != 0 && std::signbit(g) == negative && std::fabs(g) <= FLT_MAX, "pow(%a, %a) gives %.9g: wrong sign, zero or not finite", x, y, g);
  if (!(std::fabs(x) >= FLT_MIN)) return false;
  const double L = std::log2(std::fabs((double)x)), e = y * L;
  // error of log2 (absolute) times y, rounding of the product, error of exp2
  const double d = ay * (4.5e-7 + 1.8e-7 * std::fabs(L)) + 2e-7 * std::fabs(e);
  const double rel = 1.1 * 0.6931472 * d + 240 * 1.2e-7;
  if (rel > 0.3) return false;
  const double ce = e < -126 ? -126 : e > 126 ? 126 : e, r = std::exp2(ce) * (negative ? -1 : 1);
  if (!(std::fabs(g - r) <= rel * std::fabs(r)))
    REQUIRE_MSG(false, "pow(%a = %.9g, %a = %.9g) gives %.9g, %.9g expected: relative error %.3g, allowed %.3g", x, x, y, y, g, r, std::fabs(g / r - 1), rel);
  (void)strict;
  return std::fabs(e) < 126;
}
PROPERTY(pow_values, 6000000, 300000000, "pow of random bases and exponents within the errors of log2 and exp2; rules for 0, 1, 2, negative bases") {
  float x, y;
  switch (s.below(5)) {
    case 0: x = any_f(s), y = any_f(s); break;
    case 1: x = any_f(s), y = (float)s.range(-40, 40); break;
    case 2: x = (float)s.range(-1000, 1000) / 8, y = (float)s.range(-400, 400) / 16; break;
    case 3: {  // result anywhere in the range
      x = bits2f(0x00800000u + (uint32_t)s.below(0x7f000000u));
      double L = std::log2((double)x), t = ((double)s.below(1u << 24) / (1u << 24) - 0.5) * 260;
      y = L != 0 ? (float)(t / L) : 3.0f;
      if (s.flip()) x = -x, y = (float)(long long)y;
      break;
    }
    default: x = any_f(s), y = (s.flip() ? -1 : 1) * (float)(s.below(1u << 24) << s.below(12)) + (s.flip() ? 0.5f : 0.0f);
  }
  if (is_nan(x) || is_nan(y)) return;
  if (!(std::fabs(x) <= FLT_MAX && std::fabs(y) <= FLT_MAX)) return;
  s.note("pow(%a, %a) = pow(%.9g, %.9g)\n", x, y, x, y);
  if (pw(x, y, true)) s.nontrivial();
  if (x < 0 && std::nearbyint((double)y) == y) s.label("negative base, integer power");
  if (x < 0 && std::nearbyint((double)y) != y) s.label("negative base, fractional power");
}
// Every exponent with a fraction, or odd, or even, for a negative base.
SWEEP(pow_parity, 0, 1ull << 32, 1ull << 27, 1ull << 32, "sign rule: pow(-1.5, y), pow(-0.75, y) over all finite y (thorough: every one)") {
  const float y = bits2f((uint32_t)x);
  if (!(std::fabs(y) <= FLT_MAX)) return false;
  pw(-1.5f, y, false);
  pw(-0.75f, y, false);
  return std::fabs(y) > 0.5f;
}
SWEEP(pow_square, 0, 1ull << 32, 1ull << 27, 1ull << 32, "pow(x, 0), pow(x, 1), pow(x, 2), pow(x, 3), pow(x, -1), pow(x, 0.5) over all finite x (thorough: every one)") {
  const float f = bits2f((uint32_t)x);
  if (!(std::fabs(f) <= FLT_MAX)) return false;
  static const float ys[] = {0.0f, 1.0f, 2.0f, 3.0f, -1.0f, 0.5f, -2.0f};
  for (int i = 0; i < 3; i++) pw(f, ys[i], true);
  pw(f, ys[3 + (x >> 3) % 4], true);
  return f != 0;
}
