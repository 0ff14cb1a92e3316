// C17: stof and stod of well-formed decimal numbers, against glibc's correctly rounded strtof and strtod.
#define PBT_MAIN
#include "numtext.h"
#include "hardcases.h"
using namespace pbt;

// Significant digits: all digits from the first non-zero one on (also trailing zeros).
static void shape(const std::string &t, int &digits, int &expdigits) {
  size_t i = 0;
  digits = expdigits = 0;
  if (t[i] == '-') i++;
  for (; i < t.size() && t[i] != 'e' && t[i] != 'E'; i++)
    if (t[i] != '.' && (t[i] != '0' || digits)) digits++;
  for (; i < t.size(); i++)
    if (t[i] >= '0' && t[i] <= '9' && (t[i] != '0' || expdigits)) expdigits++;
}
static void check(const std::string &t, bool f32, bool f64) {
  int d, e;
  shape(t, d, e);
  const nanostl::string n(t.c_str());
  if (f32) {
    float got = nanostl::stof(n), want = strtof(t.c_str(), 0);
    if (d > 9 || e > 4) {  // more than the parser takes: refused, or right
      REQUIRE_MSG(got != got || fbits(got) == fbits(want), "stof(%s) is %a, neither NaN nor %a", t.c_str(), got, want);
    } else {
      REQUIRE_MSG(fbits(got) == fbits(want), "stof(%s) is %a (0x%08x) instead of %a (0x%08x)", t.c_str(), got, fbits(got), want, fbits(want));
    }
  }
  if (f64) {
    double got = nanostl::stod(n), want = strtod(t.c_str(), 0);
    if (d > 17 || e > 4) {
      REQUIRE_MSG(got != got || dbits(got) == dbits(want), "stod(%s) is %a, neither NaN nor %a", t.c_str(), got, want);
    } else {
      REQUIRE_MSG(dbits(got) == dbits(want), "stod(%s) is %a (0x%016llx) instead of %a (0x%016llx)", t.c_str(), got, (unsigned long long)dbits(got), want, (unsigned long long)dbits(want));
    }
  }
}
// Writes the digits m * 10^e in one of the many ways.
static std::string spell(Src &s, bool neg, const std::string &m, int e) {
  std::string d = m;
  for (u64 z = s.chance(1, 4) ? s.below(4) : 0; z > 0; z--) d = "0" + d;
  int point = (int)d.size() + (s.flip() ? 0 : -(int)s.below(d.size() + 1));  // position of the point
  std::string pre = d.substr(0, (size_t)point), post = d.substr((size_t)point);
  e += (int)post.size();
  std::string r = neg ? "-" : "";
  if (s.chance(1, 6) && e <= 0 && e > -40 && post.empty()) {  // all positional
    std::string w = d;
    while ((int)w.size() < -e) w = "0" + w;
    w.insert(w.size() - (size_t)(-e), ".");
    if (w[0] == '.' && s.flip()) w = "0" + w;
    return r + w;
  }
  r += pre;
  if (!post.empty() || s.chance(1, 5)) r += "." + post;
  if (e != 0 || s.chance(1, 3)) {
    r += s.flip() ? "e" : "E";
    if (e < 0) r += "-";
    else if (s.chance(1, 3)) r += e == 0 && s.flip() ? "-" : "+";
    if (s.chance(1, 5)) r += std::string(1 + s.below(3), '0');
    r += fmt("%d", e < 0 ? -e : e);
  }
  return r;
}
static std::string number(u64 v) { return fmt("%llu", (unsigned long long)v); }

PROPERTY(random_floats, 1500000, 150000000, "stof of up to 9 random digits at any exponent") {
  u64 p = 1;
  for (u64 k = 1 + s.below(9); k > 0; k--) p *= 10;
  u64 m = s.below(p);
  int e = (int)s.range(-60, 45);
  std::string t = spell(s, s.chance(1, 4), number(m), e);
  s.note("%s\n", t.c_str());
  check(t, true, s.chance(1, 8));
  if (m > 9) s.nontrivial();
}
PROPERTY(random_doubles, 1500000, 150000000, "stod of up to 17 random digits at any exponent") {
  u64 p = 1;
  for (u64 k = 1 + s.below(17); k > 0; k--) p *= 10;
  u64 m = s.below(p);
  int e = (int)s.range(-345, 315);
  std::string t = spell(s, s.chance(1, 4), number(m), e);
  s.note("%s\n", t.c_str());
  check(t, s.chance(1, 16), true);
  if (m > 9) s.nontrivial();
}
// Decimals next to the midpoint of two neighbouring values, or of a value itself.
PROPERTY(close_floats, 700000, 80000000, "stof of decimals closest to floats, to midpoints between floats, and their neighbours") {
  uint32_t b = s.flip() ? fbits(any_float(s)) & 0x7fffffff : (uint32_t)s.below(0x7f800000);
  if (b >= 0x7f7fffff) b = 0x7f7ffffe;
  double x = bits2f(b);
  if (s.chance(3, 4)) x = (x + (double)bits2f(b + 1)) / 2;  // exact in double
  char t[64];
  int n = (int)s.range(1, 9);
  snprintf(t, sizeof t, "%.*e", n - 1, x);
  std::string d;
  char *p = t;
  for (; *p && *p != 'e'; p++)
    if (*p != '.') d += *p;
  int e = atoi(p + 1) - (n - 1);
  u64 m = strtoull(d.c_str(), 0, 10) + (u64)s.range(-1, 1);
  if (m > 999999999ull) m = 999999999ull;
  std::string r = spell(s, s.chance(1, 4), number(m), e);
  s.note("%s\n", r.c_str());
  check(r, true, false);
  s.nontrivial();
}
PROPERTY(close_doubles, 700000, 80000000, "stod of decimals closest to doubles, to midpoints between doubles, and their neighbours") {
  u64 b = s.flip() ? dbits(any_double(s)) & ~(1ull << 63) : s.below(0x7ff0000000000000ull);
  if (b >= 0x7fefffffffffffffull) b = 0x7feffffffffffffeull;
  long double x = bits2d(b);
  if (s.chance(3, 4)) x = (x + (long double)bits2d(b + 1)) / 2;  // exact in long double
  char t[64];
  int n = (int)s.range(1, 17);
  snprintf(t, sizeof t, "%.*Le", n - 1, x);
  std::string d;
  char *p = t;
  for (; *p && *p != 'e'; p++)
    if (*p != '.') d += *p;
  int e = atoi(p + 1) - (n - 1);
  u64 m = strtoull(d.c_str(), 0, 10) + (u64)s.range(-1, 1);
  if (m > 99999999999999999ull) m = 99999999999999999ull;
  std::string r = spell(s, s.chance(1, 4), number(m), e);
  s.note("%s\n", r.c_str());
  check(r, false, true);
  s.nontrivial();
}
// The decimals of n digits around base + half * (distance to the next value): offset units in the last place from the nearest one.
static std::string around(long double x, int n, int offset) {
  char t[64];
  snprintf(t, sizeof t, "%.*Le", n - 1, x);
  std::string d;
  char *p = t;
  for (; *p && *p != 'e'; p++)
    if (*p != '.') d += *p;
  const int e = atoi(p + 1) - (n - 1);
  u64 lim = 1;
  for (int i = 0; i < n; i++) lim *= 10;
  i64 m = strtoll(d.c_str(), 0, 10) + offset;
  if (m >= (i64)lim) m = (i64)lim - 1;
  if (m < 0) m = 0;
  return number((u64)m) + fmt("e%d", e);
}
SWEEP(binade_floats, 0, 256ull * 5 * 41 * 3, 256ull * 5 * 41 * 3, 256ull * 5 * 41 * 3, "stof of the decimals of 7 to 9 digits around every power of two, its two neighbours and the midpoints between them (largest subnormal, FLT_MIN, FLT_MAX and the overflow limit among them)") {
  const int n = 7 + (int)(x % 3), off = (int)(x / 3 % 41) - 20, half = (int)(x / 123 % 5) - 2;
  const uint32_t b = (uint32_t)(x / 615) << 23;
  const double v = b >= 0x7f800000 ? 0x1p128 : (double)bits2f(b), below = b ? v - (double)bits2f((b >= 0x7f800000 ? 0x7f800000u : b) - 1) : 0, above = b >= 0x7f800000 ? below * 2 : (double)bits2f(b + 1) - v;
  const std::string t = around(half < 0 ? v + below * half / 2 : v + above * half / 2, n, off);
  check(t, true, false);
  return true;
}
SWEEP(binade_doubles, 0, 2048ull * 5 * 41 * 3, 2048ull * 5 * 41 * 3, 2048ull * 5 * 41 * 3, "stod of the decimals of 15 to 17 digits around every power of two, its two neighbours and the midpoints between them (largest subnormal, DBL_MIN, DBL_MAX and the overflow limit among them)") {
  const int n = 15 + (int)(x % 3), off = (int)(x / 3 % 41) - 20, half = (int)(x / 123 % 5) - 2;
  const u64 b = (x / 615) << 52, top = 0x7ff0000000000000ull;
  const long double v = b >= top ? 0x1p1024L : (long double)bits2d(b), below = b ? v - (long double)bits2d(b - 1) : 0, above = b >= top ? below * 2 : (long double)bits2d(b + 1) - v;
  const std::string t = around(half < 0 ? v + below * half / 2 : v + above * half / 2, n, off);
  check(t, false, true);
  return true;
}
// Of every number of digits and power of ten the decimals closest to a value, or to the midpoint of two.
static bool closest(u64 x, int most, int lowest, int mantissa, int least, bool f64) {
  const int n = most - (int)(x % 3), e10 = lowest + (int)(x / 3);
  u64 p = 1;
  for (int i = 1; i < n; i++) p *= 10;
  std::vector<u64> v;
  const long double unit = powl(10.0L, e10);
  if (unit == 0) return false;
  for (long double lo = p; lo < (long double)p * 10;) {  // the part of a binade that is in the decade
    int b;
    frexpl(lo * unit, &b);  // value in [2^(b-1), 2^b)
    long double hi = ldexpl(1.0L, b) / unit;
    if (hi > (long double)p * 10) hi = (long double)p * 10;
    const int e = b - mantissa < least ? least : b - mantissa;  // exponent of the last place
    if (hi - 1 > lo) close_multiples(e10, e10 - e + 1, (u64)lo, (u64)(hi - 1), v);
    lo = hi > lo + 1 ? hi : lo + 1;
  }
  for (size_t i = 0; i < v.size(); i++) check(number(v[i]) + fmt("e%d", e10), !f64, f64);
  return v.size() > 20;
}
SWEEP(hardest_floats, 0, 3 * 100, 3 * 100, 3 * 100, "stof of the decimals of 7 to 9 digits that are hardest to round, for every exponent (continued fractions)") { return closest(x, 9, -56, 24, -149, false); }
SWEEP(hardest_doubles, 0, 3 * 640, 3 * 640, 3 * 640, "stod of the decimals of 15 to 17 digits that are hardest to round, for every exponent (continued fractions)") { return closest(x, 17, -343, 53, -1074, true); }
// Exact ties: integers and dyadic fractions of few digits exactly half way.
PROPERTY(ties, 300000, 30000000, "exact ties round to even") {
  std::string t;
  if (s.flip()) {  // float: 25 bit odd integer times a power of two, below 10^9
    u64 m = (1ull << 24) + 1 + 2 * s.below(1ull << 23);
    while (m < 500000000 && s.chance(2, 3)) m *= 2;
    t = number(m);
    int z = 0;
    while (z < 9 && t.size() > 1 && t[t.size() - 1] == '0' && s.flip()) t.erase(t.size() - 1), z++;
    t = spell(s, s.chance(1, 4), t, z);
    s.note("%s\n", t.c_str());
    check(t, true, true);
  } else {  // double: 54 bit odd integer, up to 17 digits
    u64 m = (1ull << 53) + 1 + 2 * s.below(1ull << 52);
    while (m < 45000000000000000ull && s.flip()) m *= 2;
    t = spell(s, s.chance(1, 4), number(m), 0);
    s.note("%s\n", t.c_str());
    check(t, false, true);
  }
  s.nontrivial();
}
// k/2^j written out positionally.
PROPERTY(dyadic, 200000, 20000000, "dyadic fractions") {
  int j = (int)s.below(30);
  u64 k = s.below(1ull << (1 + s.below(30)));
  char t[80];
  snprintf(t, sizeof t, "%.*f", j, ldexp((double)k, -j));
  s.note("%s\n", t);
  check(t, true, true);
  if (k > 1) s.nontrivial();
}
PROPERTY(long_spellings, 100000, 10000000, "long spellings: many leading zeros, long fractions, huge exponents that cancel out or overflow") {
  std::string t = s.flip() ? "-" : "";
  u64 z = s.size(400);
  u64 m = s.below(s.flip() ? 1000 : 1000000000);
  int lim = s.chance(1, 4) ? 9999 : 400;
  int e = (int)s.range(-lim, lim);
  switch (s.below(4)) {
    case 0: t += std::string(z, '0') + number(m); break;
    case 1: t += "0." + std::string(z, '0') + number(m); if (s.flip()) e += (int)z; break;
    case 2: t += number(m) + "." + std::string(z, '0'); break;  // may have too many digits
    default: t += std::string(z, '0') + "." + std::string(z / 2, '0') + number(m); e += (int)(z / 2);
  }
  if (e > 9999) e = 9999;
  if (s.chance(3, 4)) t += fmt(s.flip() ? "e%d" : "E%+d", e);
  s.note("%s\n", t.c_str());
  LeakCheck l;
  check(t, true, true);
  l.done();
  if (m && z) s.nontrivial();
}
PROPERTY(printed, 400000, 40000000, "stod and stof of printf output") {
  double x = any_double(s);
  if (x != x || x - x != 0) return;
  char t[512];
  switch (s.below(4)) {
    case 0: snprintf(t, sizeof t, "%.17g", x); break;
    case 1: snprintf(t, sizeof t, "%.*g", (int)s.range(1, 17), x); break;
    case 2: snprintf(t, sizeof t, "%.*e", (int)s.range(0, 16), x); break;
    default: snprintf(t, sizeof t, "%.*f", (int)s.range(0, 17), x);
  }
  s.note("%s\n", t);
  check(t, s.flip(), true);
  s.nontrivial();
}
