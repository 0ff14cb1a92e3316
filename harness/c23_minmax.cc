// C23: fmin, fmax, min, max, clamp.
#define PBT_MAIN
#include "mathref.h"
#include "nanoalgorithm.h"
using namespace pbt;
template <class T>
static T special(Src &s, bool nan);
template <>
float special<float>(Src &s, bool nan) {
  static const uint32_t sp[] = {0, 0x80000000u, 1, 0x80000001u, 0x3f800000u, 0xbf800000u, 0x7f7fffffu, 0xff7fffffu, 0x7f800000u, 0xff800000u, 0x00800000u, 0x7fc00000u, 0xffc00000u, 0x7f800001u, 0xffffffffu};
  float f = s.flip() ? bits2f(sp[s.below(nan ? 15 : 11)]) : bits2f((uint32_t)s.below(1ull << 32));
  return !nan && is_nan(f) ? 1.0f : f;
}
template <>
double special<double>(Src &s, bool nan) {
  static const uint64_t sp[] = {0, 1ull << 63, 1, 1ull << 63 | 1, 0x3ffull << 52, 0xbffull << 52, 0x7fefffffffffffffull, 0xffefffffffffffffull, 0x7ffull << 52, 0xfffull << 52, 1ull << 52, 0x7ff8ull << 48, 0xfff8ull << 48, (0x7ffull << 52) | 1, ~0ull};
  double f = s.flip() ? bits2d(sp[s.below(nan ? 15 : 11)]) : bits2d(s.bits64());
  return !nan && is_nan(f) ? 1.0 : f;
}
template <class T>
static void nan_rules(Src &s) {
  T x = special<T>(s, true), y = s.below(4) == 0 ? x : special<T>(s, true);
  s.note("%a %a\n", (double)x, (double)y);
  const T lo = nanostl::fmin(x, y), hi = nanostl::fmax(x, y);
  if (is_nan(x) || is_nan(y)) s.label("a NaN");
  if (is_nan(x) && is_nan(y)) {
    REQUIRE(is_nan(lo) && is_nan(hi));
  } else if (is_nan(x)) {
    REQUIRE_MSG(lo == y && hi == y, "fmin gives %a, fmax %a instead of the number", (double)lo, (double)hi);
  } else if (is_nan(y)) {
    REQUIRE_MSG(lo == x && hi == x, "fmin gives %a, fmax %a instead of the number", (double)lo, (double)hi);
  } else {
    REQUIRE_MSG(lo == (x < y ? x : y), "fmin(%a, %a) gives %a", (double)x, (double)y, (double)lo);
    REQUIRE_MSG(hi == (x > y ? x : y), "fmax(%a, %a) gives %a", (double)x, (double)y, (double)hi);
  }
  s.nontrivial();
}
PROPERTY(fminmax_float, 2000000, 100000000, "fmin and fmax of floats: smaller and larger, a NaN loses to a number") { nan_rules<float>(s); }
PROPERTY(fminmax_double, 2000000, 100000000, "fmin and fmax of doubles: smaller and larger, a NaN loses to a number") { nan_rules<double>(s); }

// An ordered type whose equal values can be told apart.
struct K {
  int key, tag;
  bool operator<(const K &o) const { return key < o.key; }
  bool operator>(const K &o) const { return key > o.key; }
};
template <class T>
static void ordered(Src &s, T a, T b, T c) {
  s.note("%.17g %.17g %.17g\n", (double)a, (double)b, (double)c);
  const T &m = nanostl::min(a, b), &M = nanostl::max(a, b);
  REQUIRE_MSG(m == (b < a ? b : a) && (&m == &a || &m == &b), "min gives %.17g", (double)m);
  REQUIRE_MSG(M == (a < b ? b : a) && (&M == &a || &M == &b), "max gives %.17g", (double)M);
  if (!(c < b)) {
    const T r = nanostl::clamp(a, b, c);
    REQUIRE_MSG(r == (a < b ? b : c < a ? c : a), "clamp gives %.17g", (double)r);
    s.label(a < b ? "below" : c < a ? "above" : "inside");
    s.nontrivial();
  }
}
PROPERTY(minmax_float, 1000000, 50000000, "min, max and clamp of floats that are not NaN, infinities included") {
  float a = special<float>(s, false), b = special<float>(s, false), c = special<float>(s, false);
  if (c < b) std::swap(b, c);
  ordered<float>(s, a, b, c);
}
PROPERTY(minmax_double, 1000000, 50000000, "min, max and clamp of doubles that are not NaN") {
  double a = special<double>(s, false), b = special<double>(s, false), c = special<double>(s, false);
  if (c < b) std::swap(b, c);
  ordered<double>(s, a, b, c);
}
PROPERTY(minmax_int, 1000000, 50000000, "min, max and clamp of 32- and 64-bit integers, signed and unsigned") {
  i64 v[3];
  for (int i = 0; i < 3; i++) v[i] = s.edgy(INT64_MIN, INT64_MAX);
  if (s.flip()) v[s.below(3)] = v[0];
  if (v[2] < v[1]) std::swap(v[1], v[2]);
  ordered<long long>(s, v[0], v[1], v[2]);
  ordered<unsigned long long>(s, (u64)v[0], std::min<u64>(v[1], v[2]), std::max<u64>(v[1], v[2]));
  int w[3] = {(int)v[0], (int)v[1], (int)v[2]};
  ordered<int>(s, w[0], std::min(w[1], w[2]), std::max(w[1], w[2]));
  ordered<unsigned char>(s, (unsigned char)w[0], std::min((unsigned char)w[1], (unsigned char)w[2]), std::max((unsigned char)w[1], (unsigned char)w[2]));
}
PROPERTY(minmax_object, 300000, 10000000, "min and max of class objects: one of the two arguments, the first when they are equal") {
  K a = {(int)s.range(-3, 3), 1}, b = {(int)s.range(-3, 3), 2};
  s.note("%d %d\n", a.key, b.key);
  const K *m = &nanostl::min(a, b), *M = &nanostl::max(a, b);
  REQUIRE(m == (b.key < a.key ? &b : &a));
  REQUIRE(M == (a.key < b.key ? &b : &a));
  s.nontrivial();
}
