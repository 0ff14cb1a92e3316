// C18: stof and stod are total: any bytes give NaN or the number that is written there.
#define PBT_MAIN
#include "numtext.h"
using namespace pbt;

enum Kind { NUMBER, NO_EXPONENT_DIGITS, OTHER };
// '-'? digits with at most one '.' and at least one digit, then (e|E) (+|-)? digits
static Kind kind(const std::string &t, int &digits, int &expdigits) {
  size_t i = 0, n = t.size();
  digits = expdigits = 0;
  if (i < n && t[i] == '-') i++;
  bool dot = false, any = false;
  for (; i < n; i++) {
    char c = t[i];
    if (c == '.' && !dot) dot = true;
    else if (c >= '0' && c <= '9') {
      any = true;
      if (c != '0' || digits) digits++;
    } else break;
  }
  if (!any) return OTHER;
  if (i == n) return NUMBER;
  if (t[i] != 'e' && t[i] != 'E') return OTHER;
  i++;
  if (i < n && (t[i] == '+' || t[i] == '-')) i++;
  if (i == n) return NO_EXPONENT_DIGITS;
  for (; i < n; i++) {
    if (t[i] < '0' || t[i] > '9') return OTHER;
    if (t[i] != '0' || expdigits) expdigits++;
  }
  return NUMBER;
}
template <class F>
static void judge(const std::string &t, F got, F want, Kind k, bool beyond, const char *fn) {
  bool nan = got != got, same = memcmp(&got, &want, sizeof(F)) == 0;
  char *end = 0;
  switch (k) {
    case NUMBER:
      REQUIRE_MSG(same || (beyond && nan), "%s(%s) is %a instead of %a", fn, show(t).c_str(), (double)got, (double)want);
      break;
    case NO_EXPONENT_DIGITS:  // 1e, 1e+: refused or read without the exponent
      REQUIRE_MSG(nan || same, "%s(%s) is %a, neither NaN nor %a", fn, show(t).c_str(), (double)got, (double)want);
      break;
    default: {
      if (nan) return;
      double w = strtod(t.c_str(), &end);
      bool full = !t.empty() && end == t.c_str() + t.size();  // notations the C library knows (+1, blanks, hex, infinity)
      REQUIRE_MSG(full && (same || (F)w == got), "%s(%s) is %a although that is not a number", fn, show(t).c_str(), (double)got);
    }
  }
}
static bool check(const std::string &t) {
  int d, e;
  Kind k = kind(t, d, e);
  char *b = (char *)malloc(t.size() + !t.size());
  memcpy(b, t.data(), t.size());
  const nanostl::string n(b, b + t.size());
  free(b);
  float f = nanostl::stof(n);
  judge<float>(t, f, strtof(t.c_str(), 0), k, d > 9 || e > 4, "stof");
  double x = nanostl::stod(n);
  judge<double>(t, x, strtod(t.c_str(), 0), k, d > 17 || e > 4, "stod");
  REQUIRE(plain(n) == t);
  return k != NUMBER;
}
static const char ALPHA[] = "01.e-9E+ x5";
enum { NA = sizeof ALPHA - 1 };
// 11^0 + ... + 11^5 = 177156; up to 7: 21435888
SWEEP(short_strings, 0, 21435888ull, 1200000, 21435888ull, "every string of up to seven characters over 01.e-9E+ x5 (thorough: all; quick: all up to five are covered below)") {
  std::string t;
  u64 len = 0, p = 1;
  while (x >= p) x -= p, p *= NA, len++;
  for (u64 k = 0; k < len; k++) t += ALPHA[x % NA], x /= NA;
  return check(t);
}
SWEEP(shortest_strings, 0, 177156, 177156, 177156, "every string of up to five characters over 01.e-9E+ x5 (exhaustive)") {
  std::string t;
  u64 len = 0, p = 1;
  while (x >= p) x -= p, p *= NA, len++;
  for (u64 k = 0; k < len; k++) t += ALPHA[x % NA], x /= NA;
  return check(t);
}
SWEEP(two_bytes, 0, 65536 + 256 + 1, 65793, 65793, "every string of up to two bytes (exhaustive)") {
  std::string t;
  if (x >= 257) t = std::string(1, (char)((x - 257) >> 8)) + std::string(1, (char)(x - 257));
  else if (x >= 1) t = std::string(1, (char)(x - 1));
  return check(t);
}
static std::string valid(Src &s) {
  std::string t = s.chance(1, 4) ? "-" : "";
  for (u64 k = s.below(8); k > 0; k--) t += (char)('0' + s.below(10));
  if (s.flip()) {
    t += ".";
    for (u64 k = s.below(6); k > 0; k--) t += (char)('0' + s.below(10));
  }
  if (s.flip()) {
    t += s.flip() ? "e" : "E";
    if (s.flip()) t += s.flip() ? "-" : "+";
    for (u64 k = s.below(5); k > 0; k--) t += (char)('0' + s.below(10));
  }
  return t;
}
PROPERTY(mutated, 700000, 80000000, "numbers with characters inserted, deleted, replaced, doubled or cut off") {
  std::string t = valid(s);
  u64 n = 1 + s.below(3);
  for (u64 k = 0; k < n; k++) {
    size_t p = (size_t)s.below(t.size() + 1);
    char c = s.flip() ? ALPHA[s.below(NA)] : any_char(s, true);
    switch (s.below(5)) {
      case 0: t.insert(p, 1, c); break;
      case 1: if (p < t.size()) t.erase(p, 1); break;
      case 2: if (p < t.size()) t[p] = c; break;
      case 3: t = t.substr(0, p); break;
      default: t = t + (s.flip() ? t : valid(s));
    }
  }
  s.note("%s\n", show(t).c_str());
  LeakCheck l;
  if (check(t)) s.nontrivial();
  l.done();
}
PROPERTY(bytes, 300000, 40000000, "arbitrary byte strings, also long ones") {
  std::string t = any_string(s, s.chance(1, 10) ? 5000 : 40, true);
  if (s.chance(1, 3)) {
    static const char *w[] = {"inf", "nan", "NaN", "Infinity", "-Infinity", "0x1p3", " 1", "+1", "1 ", "1f", "1\n", "--1", "1.2.3", "1e5e5", "1e--5", "-", ".", "-.", "e5", "-e5", ".e5"};
    t = w[s.below(sizeof w / sizeof *w)] + (s.flip() ? t : "");
  }
  s.note("%s\n", show(t).c_str());
  LeakCheck l;
  if (check(t) && t.size() > 1) s.nontrivial();
  l.done();
}
PROPERTY(digits, 100000, 10000000, "runs of digits, points and exponents of any length") {
  std::string t;
  for (u64 k = s.below(5); k > 0; k--) {
    char c = "0019e.-5E"[s.below(9)];
    t += std::string(1 + s.size(s.chance(1, 20) ? s.chance(1, 10) ? 70000 : 3000 : 25), c);
    if (s.flip()) t += (char)('0' + s.below(10));
  }
  s.note("%s\n", show(t).c_str());
  LeakCheck l;
  check(t);
  l.done();
  if (t.size() > 5) s.nontrivial();
}
