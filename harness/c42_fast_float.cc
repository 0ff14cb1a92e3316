// C42: fast_float::from_chars against a grammar written from its documentation and glibc's correctly rounded strtod and strtof.
#define PBT_MAIN
#include "numtext.h"
#include "hardcases.h"
#undef FASTFLOAT_FAST_FLOAT_H
#include "fast_float/fast_float.h"
using namespace pbt;
typedef fast_float::chars_format Format;

static bool digit(char c) { return c >= '0' && c <= '9'; }
static bool letters(const char *p, const char *end, const char *w) {
  for (; *w; w++, p++)
    if (p == end || (*p | 32) != *w || !((*p >= 'a' && *p <= 'z') || (*p >= 'A' && *p <= 'Z'))) return false;
  return true;
}
// What is read from [p, end): the length of the match (0: nothing), and what to hand to strtod.
static size_t grammar(const char *first, const char *end, int fmt, char point, std::string &text) {
  const char *p = first;
  text = "";
  if (p != end && *p == '-') text += *p++;
  const char *const start = p;
  if (p != end && (digit(*p) || *p == point)) {
    size_t digits = 0;
    for (; p != end && digit(*p); p++, digits++) text += *p;
    if (p != end && *p == point) {
      text += '.', p++;
      for (; p != end && digit(*p); p++, digits++) text += *p;
    }
    if (digits == 0) return 0;
    const bool sci = fmt & Format::scientific, fixed = fmt & Format::fixed;
    if (sci) {
      const char *q = p;
      std::string e;
      bool ok = false;
      if (q != end && (*q == 'e' || *q == 'E')) {
        e += *q++;
        if (q != end && (*q == '+' || *q == '-')) e += *q++;
        for (; q != end && digit(*q); q++) e += *q, ok = true;
      }
      if (ok) text += e, p = q;
      else if (!fixed) return 0;
    }
    return (size_t)(p - first);
  }
  p = start;
  if (letters(p, end, "infinity")) return text += "infinity", (size_t)(p + 8 - first);
  if (letters(p, end, "inf")) return text += "inf", (size_t)(p + 3 - first);
  if (letters(p, end, "nan")) {
    text += "nan", p += 3;
    if (p != end && *p == '(') {
      const char *q = p + 1;
      while (q != end && (digit(*q) || (*q >= 'a' && *q <= 'z') || (*q >= 'A' && *q <= 'Z') || *q == '_')) q++;
      if (q != end && *q == ')') p = q + 1;
    }
    return (size_t)(p - first);
  }
  return 0;
}
static u64 bits_of(double d) { return dbits(d); }
static u64 bits_of(float d) { return fbits(d); }
static void reference(const char *t, double &v) { v = strtod(t, 0); }
static void reference(const char *t, float &v) { v = strtof(t, 0); }

template <class T>
static void one(const char *p, size_t n, const std::string &bytes, int fmt, char point, int how, const char *type) {
  std::string text;
  const size_t len = grammar(p, p + n, fmt, point, text);
  const T before = (T)-7.25;
  T got = before, want = before;
  fast_float::from_chars_result r;
  const long blocks = made_blocks();
  if (how == 0) r = fast_float::from_chars(p, p + n, got);
  else if (how == 1) r = fast_float::from_chars(p, p + n, got, (Format)fmt);
  else r = fast_float::from_chars_advanced(p, p + n, got, fast_float::parse_options((Format)fmt, point));
  REQUIRE_MSG(made_blocks() == blocks, "%s of %s allocates memory", type, show(bytes).c_str());
  if (len == 0) {
    REQUIRE_MSG(r.ec == nanostl::errc::invalid_argument && r.ptr == p && bits_of(got) == bits_of(before), "%s of %s (format %d): error %d, %td characters read, value %a, instead of invalid_argument", type, show(bytes).c_str(), fmt, (int)r.ec, r.ptr - p, (double)got);
    return;
  }
  reference(text.c_str(), want);
  REQUIRE_MSG(r.ec == nanostl::errc(), "%s of %s (format %d): error %d", type, show(bytes).c_str(), fmt, (int)r.ec);
  REQUIRE_MSG((size_t)(r.ptr - p) == len, "%s of %s (format %d): %td characters read instead of %zu", type, show(bytes).c_str(), fmt, r.ptr - p, len);
  if (want != want) {
    REQUIRE_MSG(got != got && bits_of(got) >> (sizeof(T) * 8 - 1) == (u64)(bytes[0] == '-'), "%s of %s: %a instead of NaN of the sign", type, show(bytes).c_str(), (double)got);
  } else {
    REQUIRE_MSG(bits_of(got) == bits_of(want), "%s of %s (%zu characters): %a (0x%llx) instead of %a (0x%llx)", type, show(bytes).c_str(), bytes.size(), (double)got, (unsigned long long)bits_of(got), (double)want, (unsigned long long)bits_of(want));
  }
}
// In a block of exactly its size.
static void check(const std::string &t, int fmt, char point, int how, bool f32, bool f64) {
  char *p = (char *)malloc(t.size());
  memcpy(p, t.data(), t.size());
  struct Free {
    char *p;
    ~Free() { free(p); }
  } fr = {p};
  if (f64) one<double>(p, t.size(), t, fmt, point, how, "double");
  if (f32) one<float>(p, t.size(), t, fmt, point, how, "float");
  REQUIRE(memcmp(p, t.data(), t.size()) == 0);
}
static void check(const std::string &t, bool f32, bool f64) { check(t, Format::general, '.', 0, f32, f64); }
static void check(Src &s, const std::string &t, bool f32, bool f64) {
  int fmt = Format::general, how = (int)s.below(6);
  char point = '.';
  if (how > 2) how = 0;
  if (how) {
    static const int F[] = {Format::general, Format::scientific, Format::fixed};
    fmt = F[s.below(3)];
  }
  std::string u = t;
  if (how == 2) {
    static const char P[] = {'.', ',', ';', '_', ' ', 0};
    point = P[s.below(6)];
    if (s.chance(7, 8))
      for (size_t i = 0; i < u.size(); i++)
        if (u[i] == '.') u[i] = point;
  }
  s.note("%s, format %d, point %d, form %d\n", show(u).c_str(), fmt, point, how);
  check(u, fmt, point, how, f32, f64);
}
static std::string number(u64 v) { return fmt("%llu", (unsigned long long)v); }
static std::string digits(Src &s, size_t n) {
  std::string r;
  const int kind = (int)s.below(5);
  for (size_t i = 0; i < n; i++) r += (char)('0' + (kind == 0 ? 0 : kind == 1 ? 9 : kind == 2 && i ? 0 : i < 40 ? s.below(10) : (i * 7 + n) % 10));
  return r;
}
// m * 10^e in one of many spellings, possibly with many more digits than needed.
static std::string spell(Src &s, std::string d, int e) {
  if (s.chance(1, 4)) d = std::string(s.size(s.chance(1, 10) ? 900 : 60), '0') + d;
  if (s.chance(1, 4)) {
    const size_t z = s.size(s.chance(1, 10) ? 900 : 30);
    d += std::string(z, '0');
    e -= (int)z;
  }
  std::string r = s.chance(1, 4) ? "-" : "";
  if (s.chance(1, 6) && e > -400 && e < 400) {  // positional
    if (e >= 0) return r + d + std::string((size_t)e, '0') + (s.flip() ? "." : "");
    while ((int)d.size() < -e) d = "0" + d;
    d.insert(d.size() - (size_t)-e, ".");
    return r + d;
  }
  const size_t point = s.flip() ? d.size() : (size_t)s.below(d.size() + 1);
  e += (int)(d.size() - point);
  r += d.substr(0, point);
  if (point < d.size() || s.chance(1, 5)) r += "." + d.substr(point);
  if (e || s.chance(1, 3)) {
    r += s.flip() ? "e" : "E";
    if (e < 0) r += "-", e = -e;
    else if (s.chance(1, 3)) r += "+";
    if (s.chance(1, 6)) r += std::string(1 + s.below(30), '0');
    r += fmt("%d", e);
  }
  return r;
}
static void tail(Src &s, std::string &t) {  // what follows a number
  if (!s.chance(1, 5)) return;
  static const char *const T[] = {" ", ".", "e", "E+", "e-", "-", "+1", "x", ",5", "..1", "e5", "f", "0x", "\xb0", "/", ":"};
  t += T[s.below(sizeof T / sizeof *T)];
}
#ifdef __SANITIZE_ADDRESS__
#define SHARE 4
#define MORE 8
#else
#define SHARE 1
#define MORE 40
#endif
PROPERTY(random_digits, 1600000 / SHARE, 1600000ull * MORE, "random digits at any exponent, in any spelling and format, also with something behind") {
  const std::string d = digits(s, 1 + (size_t)s.below(s.chance(1, 4) ? 60 : 24));
  const bool f32 = s.flip();
  const int lim = f32 ? 60 : 350;
  std::string t = spell(s, d, (int)s.range(-lim, lim) - (int)d.size() / 2);
  tail(s, t);
  check(s, t, f32, s.chance(3, 4) || !f32);
  if (d.size() > 1) s.nontrivial();
}
// All texts of up to six of these characters.
static const char ALPHA[] = "0195.-+eEinfa( ";
SWEEP(short_texts, 0, 11390625, 1200000, 11390625, "every text of one to six of fifteen characters, general format (exhaustive in the thorough check)") {
  std::string t;
  for (int i = 0; i < 6; i++, x /= 15)
    if (x % 15 != 14 || i < 2) t += ALPHA[x % 15];
  check(t, true, true);
  static const int F[] = {Format::scientific, Format::fixed};
  check(t, F[t[0] & 1], '.', 1, t[0] & 2, !(t[0] & 2));
  return t.size() > 1;
}
PROPERTY(texts, 800000 / SHARE, 800000ull * MORE, "texts over a number alphabet and of any bytes, with other decimal points") {
  std::string t;
  if (s.chance(1, 3)) t = any_string(s, 30, true);
  else
    for (u64 k = s.below(30); k > 0; k--) t += s.chance(1, 40) ? any_char(s, true) : "0123456789019..-+eEeinfatyNIA()_"[s.below(32)];
  if (t.size() > 3 && s.flip()) t[1 + s.below(t.size() - 1)] = '.';
  check(s, t, true, true);
  if (t.size() > 1) s.nontrivial();
}
PROPERTY(special, 100000 / SHARE, 100000ull * MORE, "spellings of infinity and NaN, complete and not") {
  static const char *const W[] = {"inf", "infinity", "nan", "nan()", "nan(1)", "nan(a_Z9)", "nan(", "nan(a", "nan(a-)", "infinit", "in", "na", "i", "n", "infinityinf", "nan(nan)", "infe5", "nan)"};
  std::string t = W[s.below(sizeof W / sizeof *W)];
  for (size_t i = 0; i < t.size(); i++) {
    if (s.flip() && t[i] >= 'a' && t[i] <= 'z') t[i] = (char)(t[i] - 32);
    if (s.chance(1, 30)) t[i] = (char)(t[i] ^ (1 << s.below(8)));
  }
  if (s.chance(1, 3)) t = "-" + t;
  else if (s.chance(1, 8)) t = "+" + t;
  if (s.chance(1, 4)) t.resize(s.below(t.size()) + 1);
  tail(s, t);
  check(s, t, true, true);
  s.nontrivial();
}
// The exact decimals of values and of midpoints, cut, continued and off by little.
static void around(Src &s, bool f32) {
  std::string d;
  int e;
  {
    char t[1300];
    if (f32) {
      uint32_t b = s.flip() ? fbits(any_float(s)) & 0x7fffffff : (uint32_t)s.below(0x7f800000);
      if (b >= 0x7f7fffff) b = 0x7f7fffff;
      if (s.chance(1, 16)) b = (uint32_t)s.below(40);
      double x = bits2f(b);
      if (s.chance(4, 5)) x = b == 0x7f7fffff ? 0x1.ffffffp127 : (x + (double)bits2f(b + 1)) / 2;
      snprintf(t, sizeof t, "%.*e", 160, x);
    } else {
      u64 b = s.flip() ? dbits(any_double(s)) & ~(1ull << 63) : s.below(0x7ff0000000000000ull);
      if (b >= 0x7fefffffffffffffull) b = 0x7fefffffffffffffull;
      if (s.chance(1, 16)) b = s.below(40);
      long double x = bits2d(b);
      if (s.chance(4, 5)) x = b == 0x7fefffffffffffffull ? 0x1.fffffffffffff8p1023L : (x + (long double)bits2d(b + 1)) / 2;
      snprintf(t, sizeof t, "%.*Le", 1100, x);
    }
    const char *p = t;
    for (; *p && *p != 'e'; p++)
      if (*p != '.') d += *p;
    e = atoi(p + 1) + 1 - (int)d.size();
  }
  size_t z = d.size();
  while (z > 1 && d[z - 1] == '0') z--;
  e += (int)(d.size() - z);
  d.resize(z);
  switch (s.below(5)) {
    case 0: break;
    case 1: {  // cut off
      const size_t n = s.flip() ? (size_t)s.range(15, 22) : 1 + (size_t)s.below(z);
      if (n < z) {
        e += (int)(z - n);
        d.resize(n);
        if (s.flip() && d[n - 1] < '9') d[n - 1]++;
      }
      break;
    }
    case 2: {  // a little more
      const size_t k = s.size(s.chance(1, 4) ? 900 : 20);
      d += std::string(k, '0') + "1";
      e -= (int)k + 1;
      break;
    }
    case 3:  // a little less: 5 becomes 4999
      if (d[z - 1] > '0') {
        const size_t k = s.size(s.chance(1, 4) ? 900 : 20);
        d[z - 1]--;
        d += std::string(k, '9');
        e -= (int)k;
      }
      break;
    default: {  // another digit somewhere
      size_t k = z - 1 - s.below(z > 20 && s.flip() ? z - 18 : z);
      d[k] = (char)('0' + s.below(10));
    }
  }
  std::string t = spell(s, d, e);
  tail(s, t);
  check(s, t, f32, !f32);
  s.nontrivial();
}
PROPERTY(near_floats, 600000 / SHARE, 600000ull * MORE, "exact decimals of floats and of the midpoints between them: whole, cut off, continued, off by one digit") { around(s, true); }
PROPERTY(near_doubles, 600000 / SHARE, 600000ull * MORE, "exact decimals of doubles and of the midpoints between them, up to 1100 digits: whole, cut off, continued, off by one digit") { around(s, false); }
PROPERTY(cancelling, 6000 / SHARE, 3000ull * MORE, "very many zeros before or behind the digits, and an exponent that makes up for them") {
  const size_t z = ((size_t)1 << s.range(3, 17)) + (size_t)s.range(-3, 3);
  const std::string d = "1" + digits(s, (size_t)s.below(25));
  const i64 off = s.range(-350, 320);
  std::string t = s.flip() ? "-" : "";
  i64 e;
  switch (s.below(4)) {
    case 0: t += (s.flip() ? "0." : ".") + std::string(z, '0') + d, e = (i64)z + 1 + off; break;
    case 1: t += d + std::string(z, '0') + (s.flip() ? "." : ""), e = -(i64)z - (i64)d.size() + off; break;
    case 2: t += std::string(z, '0') + "." + d, e = off; break;
    default: t += d + "." + std::string(z, '0') + (s.flip() ? "1" : ""), e = off;
  }
  t += fmt("%c%lld", s.flip() ? 'e' : 'E', (long long)e);
  s.note("%zu zeros, %s, exponent %lld\n", z, d.c_str(), (long long)e);
  check(t, s.flip(), s.flip());
  s.nontrivial();
}
PROPERTY(far_exponents, 200000 / SHARE, 200000ull * MORE, "exponents of up to forty digits") {
  std::string t = s.flip() ? "-" : "";
  t += digits(s, 1 + (size_t)s.below(30));
  if (s.flip()) t += "." + digits(s, (size_t)s.below(30));
  static const char *const E[] = {"e", "E-", "e+", "E", "e-"};
  t += E[s.below(5)];
  switch (s.below(3)) {
    case 0: t += digits(s, 1 + (size_t)s.below(40)); break;
    case 1: t += number(((u64)1 << s.below(64)) + s.below(5) - 2); break;
    default: t += std::string(s.below(60), '0') + number(s.below(400));
  }
  s.note("%s\n", t.c_str());
  check(t, true, true);
  s.nontrivial();
}
// Of every number of digits and power of ten the decimals closest to a value, or to the midpoint of two.
static bool closest(u64 x, int most, int lowest, int mantissa, int least, bool f64) {
  const int n = most - (int)(x % 5), e10 = lowest + (int)(x / 5);
  u64 p = 1;
  for (int i = 1; i < n; i++) p *= 10;
  std::vector<u64> v;
  const long double unit = powl(10.0L, e10), end = (long double)p * 10;
  if (unit == 0) return false;
  for (long double lo = p; lo < end;) {  // the part of a binade that is in the decade
    int b;
    frexpl(lo * unit, &b);
    long double hi = ldexpl(1.0L, b) / unit;
    if (hi > end) hi = end;
    const int e = b - mantissa < least ? least : b - mantissa;
    if (hi - 2 > lo) close_multiples(e10, e10 - e + 1, (u64)lo, (u64)(hi - 2), v);
    lo = hi > lo + 1 ? hi : lo + 1;
  }
  for (size_t i = 0; i < v.size(); i++) check(number(v[i]) + fmt("e%d", e10), !f64, f64);
  return v.size() > 20;
}
SWEEP(hardest_floats, 0, 5 * 130, 5 * 130, 5 * 130, "the decimals of 7 to 11 digits that are hardest to round to a float, for every exponent (continued fractions)") { return closest(x, 11, -66, 24, -149, false); }
SWEEP(hardest_floats_long, 0, 5 * 130, 5 * 130, 5 * 130, "the decimals of 15 to 19 digits that are hardest to round to a float, for every exponent (continued fractions)") { return closest(x, 19, -76, 24, -149, false); }
SWEEP(hardest_doubles, 0, 5 * 670, 5 * 670, 5 * 670, "the decimals of 15 to 19 digits that are hardest to round to a double, for every exponent (continued fractions)") { return closest(x, 19, -350, 53, -1074, true); }
// A power of two, its neighbours and the midpoints between them, to 1..40 digits, and the texts next to those.
static bool binade(int e, int which, int n, bool f64) {
  const int mantissa = f64 ? 53 : 24, least = f64 ? -1074 : -149;
  const long double p = ldexpl(1.0L, e), up = ldexpl(1.0L, std::max(e - mantissa + 1, least)), down = ldexpl(1.0L, std::max(e - mantissa, least));
  const long double v = which == 0 ? p - down : which == 1 ? p - down / 2 : which == 2 ? p : which == 3 ? p + up / 2 : p + up;
  if (!(v > 0)) return false;
  char t[80];
  snprintf(t, sizeof t, "%.*Le", n - 1, v);
  u128 m = 0;
  const char *q = t;
  for (; *q != 'e'; q++)
    if (*q != '.') m = n > 36 ? m : m * 10 + (u128)(*q - '0');
  const int e10 = atoi(q + 1) - (n - 1);
  if (n > 36) {
    check(t, !f64, f64);
    return true;
  }
  for (int k = -3; k <= 3; k++) {
    u128 a = m + (u128)(__int128)k;
    std::string d;
    for (; a; a /= 10) d.insert(d.begin(), (char)('0' + (int)(a % 10)));
    if (d.empty() || d.size() > 38) continue;
    check(d + fmt("e%d", e10), !f64, f64);
  }
  return true;
}
SWEEP(binade_floats, 0, 280ull * 5 * 40, 280ull * 5 * 40, 280ull * 5 * 40, "decimals of 1 to 40 digits next to every power of two, its neighbouring floats and the midpoints between them, from 2^-151 to 2^128") { return binade((int)(x / 200) - 151, (int)(x / 40 % 5), (int)(x % 40) + 1, false); }
SWEEP(binade_doubles, 0, 2102ull * 5 * 40, 2102ull * 5 * 40 / SHARE, 2102ull * 5 * 40, "decimals of 1 to 40 digits next to every power of two, its neighbouring doubles and the midpoints between them, from 2^-1077 to 2^1024") { return binade((int)(x / 200) - 1077, (int)(x / 40 % 5), (int)(x % 40) + 1, true); }
SWEEP(powers, 0, 1800ull * 21, 1800ull * 21, 1800ull * 21, "every power of ten and its neighbours of up to twenty digits, from 1e-900 to 1e899") {
  const int e = (int)(x / 21) - 900, n = (int)(x % 21);
  const std::string z((size_t)n, '0'), nines((size_t)n, '9');
  check("1" + z + fmt("e%d", e - n), true, true);
  check("-1" + z + fmt("1e%d", e - n - 1), true, true);
  check("9" + nines + fmt("e%d", e - n - 1), true, true);
  check("0." + std::string((size_t)n * 3, '0') + fmt("12345e%d", e + n * 3), true, true);
  return true;
}
SWEEP(printed_floats, 0, 0x7f800000, 1200000 / SHARE, 1200000ull * MORE, "floats printed with nine digits, and the shortest text of each, read back bit for bit") {
  char t[64];
  snprintf(t, sizeof t, "%.8e", bits2f((uint32_t)x));
  check(t, true, false);
  expect_f(bits2f((uint32_t)x), t);
  check(t, true, false);
  return true;
}
SWEEP(printed_doubles, 0, 0x7ff0000000000000ull, 1200000 / SHARE, 1200000ull * MORE, "doubles printed with seventeen digits, and the shortest text of each, read back bit for bit") {
  char t[64];
  snprintf(t, sizeof t, "%.16e", bits2d(x));
  check(t, false, true);
  expect_d(bits2d(x), t);
  check(t, false, true);
  return true;
}
