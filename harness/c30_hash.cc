// C30: hash, less and pair.
#define PBT_MAIN
#include "nano_pre.h"
#include "mathref.h"
#include "partial.h"
#include <utility>
#include <algorithm>
#include <cstring>
#include <string>
#include <vector>
#include "nanotype_traits.h"
#include "nanofunctional.h"
#include "nanoutility.h"
#define NANOSTL_STRING_IMPLEMENTATION
#include "nanostring.h"
#include "nanooptional.h"
#include "nanovariant.h"
using pbt::Src;
using pbt::i64;
using pbt::u64;

// Two values of T: equal values hash equally (each time), different ones differently.
template <class T>
static void two(T a, T b, const char *n) {
  const nanostl::hash<T> h = nanostl::hash<T>();
  const u64 x = h(a), y = h(b);
  REQUIRE_MSG(x == (u64)nanostl::hash<T>()(a), "the hash of a %s depends on more than the value", n);
  if (a == b) REQUIRE_MSG(x == y, "equal values of type %s hash to %llx and %llx", n, x, y);
  else REQUIRE_MSG(x != y, "two different values of type %s hash to %llx", n, x);
}
// A value of w bits made from b by a small change: what a weak mix would overlook.
static u64 relative(Src &s, u64 b, int w) {
  const u64 all = w == 64 ? ~0ull : (1ull << w) - 1;
  u64 r = b;
  switch (s.below(7)) {
    case 0: r = b ^ 1ull << (w - 1); break;
    case 1:
      for (u64 n = 1 + s.below(4); n > 0; n--) r ^= 1ull << s.below((u64)w);
      break;
    case 2: {  // a bit and the one half a word, a byte or a sign away
      const int i = (int)s.below((u64)w), j = (i + (s.flip() ? w / 2 : s.flip() ? 8 : s.flip() ? w - 1 : 31)) % w;
      r ^= 1ull << i;
      r ^= 1ull << j;
      break;
    }
    case 3: {
      const int n = (int)s.below((u64)w);
      r = n ? (b & all) << n | (b & all) >> (w - n) : b;
      break;
    }
    case 4: r = ~b; break;
    case 5: r = b + (u64)s.range(-3, 3) * (1ull << s.below((u64)w)); break;
    default: {  // the high half changed by any value, the low one by the same or its opposite
      const u64 d = s.bits64() & (all >> (w / 2));
      r = b ^ (d << (w / 2)) ^ (s.flip() ? d : 0);
    }
  }
  return r & all;
}
template <class T>
static void ints(Src &s, const char *n) {
  const T a = (T)(s.flip() ? s.bits64() : (u64)s.edgy(INT64_MIN, INT64_MAX));
  T b;
  switch (s.below(6)) {
    case 0: b = a; break;
    case 1: b = (T)s.bits64(); break;
    case 2: b = (T)(0 - a); break;
    default: b = (T)relative(s, (u64)a, (int)sizeof(T) * 8);
  }
  s.note("%s %llx %llx\n", n, (u64)a, (u64)b);
  s.label(a == b ? "equal" : "different");
  s.nontrivial();
  two(a, b, n);
  REQUIRE(nanostl::less<T>()(a, b) == (a < b) && nanostl::less<T>()(b, a) == (b < a) && !nanostl::less<T>()(a, a));
}
PROPERTY(integers, 500000, 20000000, "hash of every integer type: equal exactly for equal values; less is <") {
  switch (s.below(11)) {
    case 0: ints<int>(s, "int"); break;
    case 1: ints<signed char>(s, "signed char"); break;
    case 2: ints<unsigned char>(s, "unsigned char"); break;
    case 3: ints<short>(s, "short"); break;
    case 4: ints<unsigned short>(s, "unsigned short"); break;
    case 5: ints<unsigned>(s, "unsigned"); break;
    case 6: ints<long>(s, "long"); break;
    case 7: ints<unsigned long>(s, "unsigned long"); break;
    case 8: ints<long long>(s, "long long"); break;
    case 9: ints<unsigned long long>(s, "unsigned long long"); break;
    default:
      two<bool>(s.flip(), s.flip(), "bool");
      REQUIRE(nanostl::hash<nullptr_t>()(nullptr) == nanostl::hash<nullptr_t>()(nullptr));
  }
}
PROPERTY(floats, 500000, 20000000, "hash of floats and doubles: equal values (the two zeros too) hash equally, different ones differently; less is <") {
  const uint32_t a = s.chance(1, 6) ? 0 : (uint32_t)s.bits64(), b = s.chance(1, 6) ? a : (uint32_t)(s.chance(1, 5) ? s.bits64() : relative(s, a, 32));
  const u64 c = s.chance(1, 6) ? 0 : s.bits64(), d = s.chance(1, 6) ? c : s.chance(1, 5) ? s.bits64() : relative(s, c, 64);
  s.note("%x %x %llx %llx\n", a, b, c, d);
  const float f = bits2f(a), g = bits2f(b);
  const double p = bits2d(c), q = bits2d(d);
  if (!is_nan(f) && !is_nan(g)) two(f, g, "float");
  if (!is_nan(p) && !is_nan(q)) two(p, q, "double");
  REQUIRE(nanostl::less<float>()(f, g) == (f < g) && nanostl::less<double>()(p, q) == (p < q));
  if (a << 1 == 0 && b << 1 == 0) s.label("both zero");
  s.nontrivial();
}
// No two different floats share a hash: one block of consecutive floats at a time against all its bit changes.
SWEEP(float_pairs, 0, 1ull << 32, 1ull << 24, 1ull << 32, "hash of a float differs from that of the next float and of every single-bit change") {
  const float f = bits2f((uint32_t)x);
  if (is_nan(f)) return false;
  const u64 h = nanostl::hash<float>()(f);
  for (int i = 0; i < 32; i++) {
    const float g = bits2f((uint32_t)x ^ 1u << i);
    if (!is_nan(g) && (nanostl::hash<float>()(g) == h) != (f == g)) REQUIRE_MSG(false, "%a and %a: hashes %s", f, g, f == g ? "differ" : "are the same");
  }
  return true;
}
PROPERTY(optionals, 200000, 5000000, "hash of an optional depends on its value only and is that of the contained value") {
  nanostl::optional<int> a, b;
  nanostl::optional<double> c;
  const int x = (int)s.edgy(INT32_MIN, INT32_MAX);
  const double d = bits2d(s.bits64());
  if (s.chance(3, 4)) a = x;
  if (s.chance(3, 4)) b = s.flip() ? x : (int)s.bits64();
  if (s.chance(3, 4)) c = d;
  s.note("%d %d %d %d\n", (int)bool(a), a ? *a : 0, (int)bool(b), b ? *b : 0);
  const u64 h = nanostl::hash<nanostl::optional<int> >()(a), g = nanostl::hash<nanostl::optional<int> >()(b);
  if (a == b) REQUIRE(h == g);
  if (a) REQUIRE(h == (u64)nanostl::hash<int>()(*a));
  if (a && b && !(a == b)) REQUIRE(h != g);
  if (c && !is_nan(d)) REQUIRE((u64)nanostl::hash<nanostl::optional<double> >()(c) == (u64)nanostl::hash<double>()(d));
  if (!c) REQUIRE((u64)nanostl::hash<nanostl::optional<double> >()(c) == (u64)nanostl::hash<nanostl::optional<double> >()(nanostl::optional<double>()));
  if (a) s.nontrivial();
}
template <int N> struct Tag {
  u64 v;
  Tag(u64 v = 0) : v(v) {}
  bool operator==(const Tag &o) const { return v == o.v; }
};
namespace nanostl {
template <int N> struct hash<Tag<N> > {
  size_t operator()(const Tag<N> &t) const { return (size_t)(t.v ^ N * 0x9e3779b97f4a7c15ull); }
};
}
typedef nonstd::variant<int, double, bool, nonstd::monostate, Tag<4>, Tag<5>, Tag<6>, Tag<7>, Tag<8>, Tag<9>, Tag<10>, Tag<11>, Tag<12>, Tag<13>, Tag<14>, Tag<15> > V16;
static void put(V16 &v, int k, u64 x) {
  switch (k) {
    case 0: v = (int)x; break;
    case 1: v = (double)(long long)x; break;
    case 2: v = (x & 1) != 0; break;
    case 3: v = nonstd::monostate(); break;
    case 4: v = Tag<4>(x); break;
    case 5: v = Tag<5>(x); break;
    case 6: v = Tag<6>(x); break;
    case 7: v = Tag<7>(x); break;
    case 8: v = Tag<8>(x); break;
    case 9: v = Tag<9>(x); break;
    case 10: v = Tag<10>(x); break;
    case 11: v = Tag<11>(x); break;
    case 12: v = Tag<12>(x); break;
    case 13: v = Tag<13>(x); break;
    case 14: v = Tag<14>(x); break;
    case 15: v = Tag<15>(x); break;
  }
}
PROPERTY(variants, 200000, 5000000, "equal variants have equal hashes, whatever they held before") {
  V16 a, b;
  const int n = (int)s.below(4), m = (int)s.below(4);
  for (int i = 0; i < n; i++) put(a, (int)s.below(16), s.bits64());
  for (int i = 0; i < m; i++) put(b, (int)s.below(16), s.bits64());
  const int k = (int)s.below(16), l = s.flip() ? k : (int)s.below(16);
  const u64 x = s.bits64(), y = s.chance(2, 3) ? x : s.bits64();
  put(a, k, x), put(b, l, y);
  s.note("alternative %d of %llx, alternative %d of %llx\n", k, x, l, y);
  const nanostl::hash<V16> h = nanostl::hash<V16>();
  const u64 g = h(a);
  REQUIRE(g == (u64)h(V16(a)) && g == (u64)nanostl::hash<V16>()(a));
  if (a == b) REQUIRE_MSG(g == (u64)h(b), "equal variants hash to %llx and %llx", g, (u64)h(b));
  s.label(a == b ? "equal" : "different");
  if (a == b && k != 3) s.nontrivial();
}
typedef nanostl::pair<int, int> P;
static P mk(Src &s) {
  const int a = s.chance(1, 8) ? (int)s.edgy(INT32_MIN, INT32_MAX) : (int)s.range(-2, 2), b = (int)s.range(-2, 2);
  return P(a, b);
}
PROPERTY(pairs, 500000, 20000000, "pairs keep their members; == compares both and < is lexicographic; make_pair builds them") {
  P a = mk(s), b = mk(s), c = a;
  s.note("(%d,%d) (%d,%d)\n", a.first, a.second, b.first, b.second);
  const bool lt = a.first != b.first ? a.first < b.first : a.second < b.second;
  REQUIRE((a == b) == (a.first == b.first && a.second == b.second) && c == a);
  REQUIRE_MSG((a < b) == lt && nanostl::less<P>()(a, b) == lt, "(%d,%d) < (%d,%d) is %d", a.first, a.second, b.first, b.second, !lt);
  REQUIRE(!(a < c) && !(a < b && b < a) && ((a < b) + (b < a) + (a == b) == 1));
  nanostl::pair<int, int> m = nanostl::make_pair(a.first, b.second);
  REQUIRE(m.first == a.first && m.second == b.second);
  c = b;
  REQUIRE(c == b && c.first == b.first && c.second == b.second);
  nanostl::swap(a, b);
  REQUIRE(a == c);
  if (!(a == b)) s.nontrivial();
  s.label(a.first == b.first ? "first members equal" : "first members differ");
}
PROPERTY(pairs_own, 100000, 2000000, "pairs of owning members (strings, self-checking objects): copies are independent, order is lexicographic, nothing leaks") {
  pbt::LeakCheck lc;
  {
    typedef nanostl::pair<nanostl::string, pbt::Tracked> Q;
    std::vector<std::pair<std::string, i64> > m;
    for (int i = 0; i < 2; i++) {
      std::string t;
      while (s.more(3)) t += (char)('a' + s.below(2));
      m.push_back(std::make_pair(t, s.range(-2, 2)));
    }
    s.note("%s,%lld %s,%lld\n", m[0].first.c_str(), m[0].second, m[1].first.c_str(), m[1].second);
    Q a(nanostl::string(m[0].first.c_str()), pbt::Tracked(m[0].second)), b(nanostl::make_pair(nanostl::string(m[1].first.c_str()), pbt::Tracked(m[1].second)));
    REQUIRE((a < b) == (m[0] < m[1]) && (b < a) == (m[1] < m[0]) && (a == b) == (m[0] == m[1]));
    Q c(a), d;
    d = b;
    REQUIRE(c == a && d == b);
    c.first += "x";
    c.second = pbt::Tracked(7);
    REQUIRE(a.first == nanostl::string(m[0].first.c_str()) && a.second.get() == m[0].second && c.second.get() == 7 && c.first.size() == m[0].first.size() + 1);
    a = b;
    REQUIRE(a == b && a.first.size() == m[1].first.size());
    if (m[0] != m[1]) s.nontrivial();
  }
  lc.done();
}
// less as the order of a sort.
PROPERTY(ordering, 100000, 2000000, "sorting by less<T> gives the same order as the built-in comparison")  {
  std::vector<P> v;
  std::vector<std::pair<int, int> > r;
  while (s.more(12)) {
    v.push_back(mk(s));
    r.push_back(std::make_pair(v.back().first, v.back().second));
  }
  s.note("%zu pairs\n", r.size());
  const nanostl::less<P> before = nanostl::less<P>();
  for (size_t i = 1; i < v.size(); i++)
    for (size_t j = i; j && before(v[j], v[j - 1]); j--) {
      const P t = v[j];
      v[j] = v[j - 1], v[j - 1] = t;
    }
  std::sort(r.begin(), r.end());
  for (size_t i = 0; i < r.size(); i++) REQUIRE(v[i].first == r[i].first && v[i].second == r[i].second);
  if (r.size() > 2) s.nontrivial();
}

template <class A, class B>
static void pair_as_std(const A &a, const B &b, const A &c, const B &d) {
  typedef nanostl::less<nanostl::pair<A, B> > L;
  const nanostl::pair<A, B> p(a, b), q(c, d);
  const std::pair<A, B> x(a, b), y(c, d);
  REQUIRE_MSG((p == q) == (x == y) && (q == p) == (y == x), "== is %d", (int)(p == q));
  REQUIRE_MSG((p < q) == (x < y) && (q < p) == (y < x) && L()(p, q) == (x < y), "< is %d instead of %d", (int)(p < q), (int)(x < y));
}
PROPERTY(partial_orders, 200000, 5000000, "pairs compare by == and < of their members, also where these are not two sides of one order; less is <") {
  const pbt::Tie a = pbt::draw_tie(s), b = pbt::draw_tie(s);
  const double x = pbt::draw_nan(s), y = pbt::draw_nan(s);
  const int i = (int)s.range(0, 1), j = (int)s.range(0, 1);
  s.note("(%d %d) %g %d with (%d %d) %g %d\n", a.k, a.t, x, i, b.k, b.t, y, j);
  pair_as_std(a, i, b, j);
  pair_as_std(i, a, j, b);
  pair_as_std(x, i, y, j);
  pair_as_std(i, x, j, y);
  pair_as_std(x, a, y, b);
  pair_as_std(a, (float)x, b, (float)y);
  pair_as_std(a, b, b, a);
  REQUIRE((nanostl::less<double>()(x, y)) == (x < y) && (nanostl::less<pbt::Tie>()(a, b)) == (a < b));
  if (x != x || (a.k == b.k && a.t != b.t)) s.nontrivial();
}
