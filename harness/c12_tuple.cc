// C12: tuple and pair.  Model: the array of element values.
#define PBT_MAIN
#include "nano_pre.h"
#include "owned.h"
#include "partial.h"
#include <limits.h>
#include <tuple>
#include "nanotuple.h"
#include "nanoallocator.h"
using namespace pbt;
using nanostl::tuple;
using nanostl::pair;

struct Empty {
  bool operator==(const Empty &) const { return true; }
  bool operator<(const Empty &) const { return false; }
};
struct Call {
  int x() const { return 41; }
};
// int, owner, empty class, over-aligned, char, a second empty class, long long
typedef tuple<int, Own, Empty, Wide, char, Call, long long> T7;
struct V {
  i64 v[5];
  bool known1;  // false after the owner was moved away
};
static const int WIDTH = 5;

static void check(const T7 &t, const V &m, const char *what) {
  i64 g0 = tao::get<0>(t), g3 = tao::get<3>(t).get(), g4 = (unsigned char)tao::get<4>(t), g6 = tao::get<6>(t);
  REQUIRE_MSG(g0 == m.v[0] && g3 == m.v[2] && g4 == m.v[3] && g6 == m.v[4], "elements are (%lld, ., %lld, %lld, %lld) instead of (%lld, ., %lld, %lld, %lld) after %s",
              (long long)g0, (long long)g3, (long long)g4, (long long)g6, (long long)m.v[0], (long long)m.v[2], (long long)m.v[3], (long long)m.v[4], what);
  i64 g1 = tao::get<1>(t).get();
  if (m.known1) REQUIRE_MSG(g1 == m.v[1], "element 1 is %lld instead of %lld after %s", (long long)g1, (long long)m.v[1], what);
  REQUIRE(tao::get<5>(t).x() == 41);
  REQUIRE(&tao::get<0>(t) == &tao::get<int>(t) && &tao::get<1>(t) == &tao::get<Own>(t) && &tao::get<3>(t) == &tao::get<Wide>(t) &&
          &tao::get<4>(t) == &tao::get<char>(t) && &tao::get<6>(t) == &tao::get<long long>(t));
  REQUIRE((uintptr_t)&tao::get<3>(t) % alignof(Wide) == 0 && (uintptr_t)&tao::get<6>(t) % alignof(long long) == 0);
}
static T7 build(const V &m) { return T7((int)m.v[0], Own(m.v[1]), Empty(), Wide(m.v[2]), (char)m.v[3], Call(), (long long)m.v[4]); }
static V draw(Src &s) {
  V m;
  m.v[0] = s.edgy(-2147483648ll, 2147483647);
  m.v[1] = s.range(-1000, 1000);
  m.v[2] = s.edgy(-4000000000000000000ll, 4000000000000000000ll);
  m.v[3] = s.range(0, 255);
  m.v[4] = s.edgy(-4000000000000000000ll, 4000000000000000000ll);
  m.known1 = true;
  return m;
}

PROPERTY(histories, 100000, 4000000, "tuple histories: elements are exactly those stored, whatever is constructed, copied, moved, swapped, assigned or unpacked") {
  enum { POOL = 3 };
  OwnCheck leaks;
  size_t op = 0, moves = 0, writes = 0;
  {
    T7 o[POOL];
    V m[POOL];
    for (int k = 0; k < POOL; k++) {
      memset(m[k].v, 0, sizeof m[k].v);
      m[k].known1 = true;
      check(o[k], m[k], "default construction");
    }
    while (s.more(15)) {
      op++;
      int a = (int)s.below(POOL), b = (int)s.below(POOL);
      const char *name = "";
      switch (s.below(12)) {
        case 0: {
          name = "construction from values";
          s.note("o%d = T7(values)\n", a);
          V n = draw(s);
          T7 t(build(n));
          check(t, n, name);
          o[a] = nanostl::move(t);
          m[a] = n;
          break;
        }
        case 1: {
          name = "make_tuple";
          V n = draw(s);
          s.note("o%d = make_tuple(values)\n", a);
          const int i0 = (int)n.v[0];
          Own i1(n.v[1]);
          o[a] = tao::make_tuple(i0, i1, Empty(), Wide(n.v[2]), (char)n.v[3], Call(), (long long)n.v[4]);
          REQUIRE(i1.get() == n.v[1]);
          m[a] = n;
          break;
        }
        case 2: {
          name = "copy assignment";
          s.note("o%d = o%d\n", a, b);
          T7 &r = (o[a] = o[b]);
          REQUIRE(&r == &o[a]);
          m[a] = m[b];
          break;
        }
        case 3: {
          name = "move assignment";
          s.note("o%d = move(o%d)\n", a, b);
          if (a == b) break;
          o[a] = nanostl::move(o[b]);
          m[a] = m[b];
          m[b].known1 = false;
          moves++;
          break;
        }
        case 4: {
          name = "copy construction";
          s.note("T7 t(o%d), changed\n", b);
          T7 t(o[b]);
          check(t, m[b], name);
          tao::get<0>(t)++;
          tao::get<1>(t) = Own(77777);
          check(o[b], m[b], "changing a copy");
          break;
        }
        case 5: {
          name = "swap";
          s.note("swap(o%d, o%d)\n", a, b);
          if (a == b) break;
          if (s.flip()) o[a].swap(o[b]);
          else swap(o[a], o[b]);
          V t = m[a];
          m[a] = m[b];
          m[b] = t;
          moves++;
          break;
        }
        case 6: {
          name = "write";
          V n = draw(s);
          int e = (int)s.below(WIDTH);
          s.note("element %d of o%d = %lld\n", e, a, (long long)n.v[e]);
          bool by = s.flip();
          switch (e) {
            case 0: (by ? tao::get<0>(o[a]) : tao::get<int>(o[a])) = (int)n.v[0]; break;
            case 1: (by ? tao::get<1>(o[a]) : tao::get<Own>(o[a])) = Own(n.v[1]); m[a].known1 = true; break;
            case 2: (by ? tao::get<3>(o[a]) : tao::get<Wide>(o[a])) = Wide(n.v[2]); break;
            case 3: (by ? tao::get<4>(o[a]) : tao::get<char>(o[a])) = (char)n.v[3]; break;
            default: (by ? tao::get<6>(o[a]) : tao::get<long long>(o[a])) = n.v[4];
          }
          m[a].v[e] = n.v[e];
          writes++;
          break;
        }
        case 7: {
          name = "tie";
          s.note("tie(...) = o%d\n", a);
          int x0 = 0;
          Own x1;
          Wide x3;
          char x4 = 0;
          long long x6 = 0;
          Empty e;
          Call c;
          tao::tie(x0, x1, e, x3, x4, c, x6) = o[a];
          REQUIRE(x0 == m[a].v[0] && x3.get() == m[a].v[2] && (unsigned char)x4 == m[a].v[3] && x6 == m[a].v[4]);
          if (m[a].known1) REQUIRE(x1.get() == m[a].v[1]);
          int y0 = 5;
          tao::tie(y0, tao::ignore, tao::ignore, tao::ignore, tao::ignore, tao::ignore, tao::ignore) = o[a];
          REQUIRE(y0 == m[a].v[0]);
          break;
        }
        case 8: {
          name = "assignment through tie";
          V n = draw(s);
          s.note("o%d = tie(values)\n", a);
          int x0 = (int)n.v[0];
          Own x1(n.v[1]);
          Wide x3(n.v[2]);
          char x4 = (char)n.v[3];
          long long x6 = n.v[4];
          Empty e;
          Call c;
          o[a] = tao::tie(x0, x1, e, x3, x4, c, x6);
          REQUIRE(x1.get() == n.v[1]);
          m[a] = n;
          break;
        }
        case 9: {
          name = "tuple_cat";
          s.note("tuple_cat of o%d and o%d\n", a, b);
          auto r = tao::tuple_cat(o[a], tuple<>(), tuple<short, char>(7, 'x'), o[b]);
          static_assert(tao::tuple_size<decltype(r)>::value == 16, "length of tuple_cat");
          REQUIRE(tao::get<0>(r) == m[a].v[0] && tao::get<3>(r).get() == m[a].v[2] && (unsigned char)tao::get<4>(r) == m[a].v[3] && tao::get<6>(r) == m[a].v[4]);
          REQUIRE(tao::get<7>(r) == 7 && tao::get<8>(r) == 'x');
          REQUIRE(tao::get<9>(r) == m[b].v[0] && tao::get<12>(r).get() == m[b].v[2] && (unsigned char)tao::get<13>(r) == m[b].v[3] && tao::get<15>(r) == m[b].v[4]);
          if (m[a].known1) REQUIRE(tao::get<1>(r).get() == m[a].v[1]);
          if (m[b].known1) REQUIRE(tao::get<10>(r).get() == m[b].v[1]);
          break;
        }
        case 10: {
          name = "move construction";
          s.note("T7 t(move(o%d)); o%d = t\n", b, a);
          T7 t(nanostl::move(o[b]));
          check(t, m[b], name);
          V n = m[b];
          m[b].known1 = false;
          o[a] = t;
          m[a] = n;
          moves++;
          break;
        }
        default: {
          name = "moving one element out";
          s.note("move(get<1>(o%d))\n", a);
          if (!m[a].known1) break;
          Own x(tao::get<1>(nanostl::move(o[a])));
          REQUIRE(x.get() == m[a].v[1]);
          m[a].known1 = false;
        }
      }
      for (int k = 0; k < POOL; k++) check(o[k], m[k], name);
      REQUIRE_MSG(Own::live - leaks.o0 == POOL, "%ld owning elements alive instead of %d after %s", Own::live - leaks.o0, (int)POOL, name);
    }
  }
  leaks.done();
  if (op >= 3 && moves && writes) s.nontrivial();
}

// Lexicographic comparison with elements drawn to be close.
struct Small {
  int v[4];
};
static Small small(Src &s) {
  Small r;
  for (int i = 0; i < 4; i++) r.v[i] = (int)s.range(-1, 1);
  return r;
}
static int cmp(const int *a, const int *b, int n) {
  for (int i = 0; i < n; i++)
    if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
  return 0;
}
template <class A, class B>
static void cmp_ops(const A &a, const B &b, int c) {
  REQUIRE_MSG((a == b) == (c == 0) && (a != b) == (c != 0), "== or != is wrong (order is %d)", c);
  REQUIRE_MSG((a < b) == (c < 0) && (a > b) == (c > 0), "< or > is wrong (order is %d)", c);
  REQUIRE_MSG((a <= b) == (c <= 0) && (a >= b) == (c >= 0), "<= or >= is wrong (order is %d)", c);
}
PROPERTY(order, 200000, 6000000, "tuple comparisons are lexicographic, for all six operators and mixed element types") {
  Small x = small(s), y = small(s);
  if (s.chance(1, 3)) {
    y = x;
    if (s.flip()) y.v[s.below(4)] += s.flip() ? 1 : -1;
  }
  s.note("(%d %d %d %d) with (%d %d %d %d)\n", x.v[0], x.v[1], x.v[2], x.v[3], y.v[0], y.v[1], y.v[2], y.v[3]);
  const int *p = x.v, *q = y.v;
  cmp_ops(tuple<int>(p[0]), tuple<int>(q[0]), cmp(p, q, 1));
  cmp_ops(tuple<int, short>(p[0], p[1]), tuple<int, short>(q[0], q[1]), cmp(p, q, 2));
  cmp_ops(tuple<Own, int, Own>(Own(p[0]), p[1], Own(p[2])), tuple<Own, int, Own>(Own(q[0]), q[1], Own(q[2])), cmp(p, q, 3));
  cmp_ops(tuple<int, Empty, double, Own, Wide>(p[0], Empty(), p[1], Own(p[2]), Wide(p[3])),
          tuple<int, Empty, double, Own, Wide>(q[0], Empty(), q[1], Own(q[2]), Wide(q[3])), cmp(p, q, 4));
  cmp_ops(tuple<int, long, double, short>(p[0], p[1], p[2], p[3]), tuple<long, int, float, long long>(q[0], q[1], q[2], q[3]), cmp(p, q, 4));
  cmp_ops(tao::tie(p[0], p[1], p[2], p[3]), tao::tie(q[0], q[1], q[2], q[3]), cmp(p, q, 4));
  cmp_ops(tuple<>(), tuple<>(), 0);
  tuple<tuple<int, int>, int> n(tuple<int, int>(p[0], p[1]), p[2]), m(tuple<int, int>(q[0], q[1]), q[2]);
  cmp_ops(n, m, cmp(p, q, 3));
  if (p[0] == q[0]) s.nontrivial();
}

PROPERTY(references, 100000, 3000000, "tuples of references name the caller's objects; assignment, swap and conversion go through them") {
  OwnCheck leaks;
  {
    int a = (int)s.range(-1000, 1000), c = (int)s.range(-1000, 1000);
    Own b((i64)s.range(-1000, 1000)), d((i64)s.range(-1000, 1000));
    i64 a0 = a, b0 = b.get(), c0 = c, d0 = d.get();
    s.note("%d %lld, %d %lld\n", a, (long long)b.get(), c, (long long)d.get());
    tuple<int &, Own &> x(a, b), y = tao::tie(c, d);
    REQUIRE(&tao::get<0>(x) == &a && &tao::get<1>(x) == &b && &tao::get<0>(y) == &c && &tao::get<1>(y) == &d);
    switch (s.below(5)) {
      case 0:
        x.swap(y);
        REQUIRE(a == c0 && b.get() == d0 && c == a0 && d.get() == b0);
        s.nontrivial();
        break;
      case 1:
        x = y;
        REQUIRE(a == c0 && b.get() == d0 && c == c0 && d.get() == d0);
        break;
      case 2: {
        tuple<short, Own> z(5, Own(9));
        x = z;
        REQUIRE(a == 5 && b.get() == 9 && tao::get<1>(z).get() == 9 && tao::get<0>(z) == 5);
        x = tuple<long, Own>(6, Own(10));
        REQUIRE(a == 6 && b.get() == 10);
        break;
      }
      case 3: {
        tuple<long long, Own> z;
        z = x;
        REQUIRE(tao::get<0>(z) == a0 && tao::get<1>(z).get() == b0 && b.get() == b0);
        tao::get<0>(z)++;
        tao::get<1>(z) = Own(1);
        REQUIRE(a == a0 && b.get() == b0);
        Own three((i64)3);
        auto f = tao::forward_as_tuple(b, nanostl::move(three));
        Own moved(tao::get<1>(nanostl::move(f)));
        REQUIRE(moved.get() == 3 && &tao::get<0>(f) == &b);
        s.nontrivial();
        break;
      }
      default: {
        auto r = tao::tuple_cat(x, tao::make_tuple((char)'q'), y);
        REQUIRE(&tao::get<0>(r) == &a && &tao::get<1>(r) == &b && tao::get<2>(r) == 'q' && &tao::get<3>(r) == &c && &tao::get<4>(r) == &d);
        tao::get<3>(r) = 12;
        REQUIRE(c == 12);
      }
    }
  }
  leaks.done();
}

PROPERTY(pairs, 200000, 6000000, "pair: two elements, lexicographic order, copies and swaps") {
  OwnCheck leaks;
  {
    Small x = small(s), y = small(s);
    s.note("(%d %d) with (%d %d)\n", x.v[0], x.v[1], y.v[0], y.v[1]);
    int c = cmp(x.v, y.v, 2);
    pair<int, Own> a(x.v[0], Own(x.v[1])), b = nanostl::make_pair(y.v[0], Own(y.v[1])), e;
    const pair<int, Own> ca(a);
    REQUIRE(ca.first == x.v[0] && ca.second.get() == x.v[1] && b.first == y.v[0] && b.second.get() == y.v[1]);
    REQUIRE_MSG((a == b) == (c == 0) && (a < b) == (c < 0) && (b < a) == (c > 0), "pair comparison is wrong (order is %d)", c);
    REQUIRE(!(a < ca) && a == ca);
    e = a;
    REQUIRE(e == a);
    nanostl::swap(a, b);
    REQUIRE(a.first == y.v[0] && a.second.get() == y.v[1] && b.first == x.v[0] && b.second.get() == x.v[1]);
    REQUIRE(e == ca && e.first == x.v[0] && e.second.get() == x.v[1]);
    pair<pair<int, int>, int> p(nanostl::make_pair(x.v[0], x.v[1]), x.v[2]), q(nanostl::make_pair(y.v[0], y.v[1]), y.v[2]);
    c = cmp(x.v, y.v, 3);
    REQUIRE((p == q) == (c == 0) && (p < q) == (c < 0));
    if (x.v[0] == y.v[0]) s.nontrivial();
  }
  leaks.done();
}

// Every position of tuples of many lengths: element i is the i-th value stored, and a place of its own.
template <int I>
struct D : Own {
  D() {}
  explicit D(i64 x) : Own(x) {}
};
template <int... Is>
struct Ix {};
template <int N, int... Is>
struct MkIx : MkIx<N - 1, N - 1, Is...> {};
template <int... Is>
struct MkIx<0, Is...> {
  typedef Ix<Is...> type;
};
template <int... Is>
static void positions(Src &s, Ix<Is...>) {
  enum { N = sizeof...(Is) };
  typedef tuple<D<Is>...> TD;                                   // distinct owning types
  typedef tuple<decltype((void)Is, (long long)0)...> TS;        // all the same type
  i64 v[N + 1], w[N + 1];
  for (int i = 0; i < N; i++) v[i] = s.range(-1000, 1000), w[i] = s.range(-1000, 1000);
  TD a((D<Is>(v[Is]))...);
  TS b((long long)v[Is]...);
  const TD &ca = a;
  i64 got[] = {tao::get<Is>(a).get()..., 0}, got2[] = {tao::get<D<Is> >(ca).get()..., 0}, got3[] = {(i64)tao::get<Is>(b)..., 0};
  const char *at[] = {(const char *)&tao::get<Is>(a)..., 0}, *bt[] = {(const char *)&tao::get<Is>(b)..., 0};
  for (int i = 0; i < N; i++) {
    REQUIRE_MSG(got[i] == v[i] && got2[i] == v[i] && got3[i] == v[i], "element %d of %d is %lld, %lld, %lld instead of %lld", i, N, (long long)got[i], (long long)got2[i],
                (long long)got3[i], (long long)v[i]);
    REQUIRE(at[i] >= (const char *)&a && at[i] + sizeof(Own) <= (const char *)(&a + 1));
    for (int j = 0; j < i; j++) {
      REQUIRE_MSG(at[i] >= at[j] + sizeof(Own) || at[j] >= at[i] + sizeof(Own), "elements %d and %d of %d overlap", i, j, N);
      REQUIRE_MSG(bt[i] >= bt[j] + 8 || bt[j] >= bt[i] + 8, "elements %d and %d of %d overlap", i, j, N);
    }
  }
  static_assert(tao::tuple_size<TD>::value == N, "size");
  // writing one element leaves the others
  int k = (int)s.below(N);
  int x[] = {(Is == k ? (void)(tao::get<Is>(a) = D<Is>(w[Is]), tao::get<Is>(b) = w[Is]) : (void)0, 0)...};
  (void)x;
  i64 got4[] = {tao::get<Is>(a).get()..., 0}, got5[] = {(i64)tao::get<Is>(b)..., 0};
  for (int i = 0; i < N; i++) REQUIRE_MSG(got4[i] == (i == k ? w[i] : v[i]) && got5[i] == got4[i], "writing element %d of %d changed element %d", k, N, i);
  // copies, swaps, assignment, concatenation
  TD c(a), d((D<Is>(w[Is]))...);
  c.swap(d);
  i64 got6[] = {tao::get<Is>(c).get()..., 0}, got7[] = {tao::get<Is>(d).get()..., 0};
  for (int i = 0; i < N; i++) REQUIRE_MSG(got6[i] == w[i] && got7[i] == got4[i], "swap of tuples of %d elements went wrong at %d", N, i);
  REQUIRE(d == a && !(d != a) && (c == d) == (memcmp(got6, got7, N * sizeof(i64)) == 0));
  d = c;
  REQUIRE(d == c);
  d = nanostl::move(c);
  i64 got8[] = {tao::get<Is>(d).get()..., 0};
  for (int i = 0; i < N; i++) REQUIRE(got8[i] == w[i]);
  auto e = tao::tuple_cat(d, b, tuple<short>(5));
  i64 got9[] = {tao::get<Is>(e).get()..., (i64)tao::get<N + Is>(e)..., 0};
  for (int i = 0; i < N; i++) REQUIRE_MSG(got9[i] == w[i] && got9[N + i] == got5[i], "tuple_cat of %d and %d elements is wrong at %d", N, N, i);
  REQUIRE(tao::get<2 * N>(e) == 5);
  if (N > 2) s.nontrivial();
}
PROPERTY(every_position, 60000, 1500000, "tuples of 1 to 24 elements, of distinct and of equal types: every element is where it was put") {
  OwnCheck leaks;
  {
    static const int sizes[] = {1, 2, 3, 5, 8, 11, 16, 17, 24};
    int n = sizes[s.below(9)];
    s.note("%d elements\n", n);
    switch (n) {
      case 1: positions(s, MkIx<1>::type()); break;
      case 2: positions(s, MkIx<2>::type()); break;
      case 3: positions(s, MkIx<3>::type()); break;
      case 5: positions(s, MkIx<5>::type()); break;
      case 8: positions(s, MkIx<8>::type()); break;
      case 11: positions(s, MkIx<11>::type()); break;
      case 16: positions(s, MkIx<16>::type()); break;
      case 17: positions(s, MkIx<17>::type()); break;
      default: positions(s, MkIx<24>::type());
    }
  }
  leaks.done();
}

struct Last final {  // empty and final
  bool operator==(const Last &) const { return true; }
};
struct Fin final {
  i64 v;
};
struct NoCopy {
  i64 *v;
  explicit NoCopy(i64 x) : v(new i64(x)) {}
  NoCopy(NoCopy &&o) noexcept : v(o.v) { o.v = 0; }
  NoCopy &operator=(NoCopy &&o) noexcept {
    i64 *n = o.v;
    o.v = 0;
    delete v;
    v = n;
    return *this;
  }
  ~NoCopy() { delete v; }
};
PROPERTY(value_categories, 150000, 4000000, "lvalues are copied and temporaries moved, one by one, by construction, make_tuple, assignment, get and tuple_cat") {
  OwnCheck leaks;
  {
    i64 x = s.range(-1000, 1000), y = s.range(-1000, 1000);
    int how = (int)s.below(9);
    s.note("way %d, %lld %lld\n", how, (long long)x, (long long)y);
    Own a(x), b(y);
    const Own cb(y);
    typedef tuple<Own, int, Own> T;
    switch (how) {
      case 0: {  // one copied, one moved
        T t(a, 1, nanostl::move(b));
        REQUIRE_MSG(a.get() == x && b.v == 0, "construction did not copy the lvalue or move the temporary");
        REQUIRE(tao::get<0>(t).get() == x && tao::get<2>(t).get() == y);
        break;
      }
      case 1: {
        T t = tao::make_tuple(nanostl::move(a), 1, cb);
        REQUIRE_MSG(a.v == 0 && cb.get() == y, "make_tuple did not copy the lvalue or move the temporary");
        REQUIRE(tao::get<0>(t).get() == x && tao::get<2>(t).get() == y);
        static_assert(tao::tuple_size<decltype(tao::make_tuple(a, cb))>::value == 2, "size");
        break;
      }
      case 2: {  // an lvalue, also a modifiable one, is copied from
        T t(a, 2, b), u(t), v(nanostl::move(u));
        REQUIRE(a.get() == x && b.get() == y && tao::get<0>(t).get() == x && tao::get<2>(t).get() == y);
        REQUIRE(tao::get<0>(u).v == 0 && tao::get<0>(v).get() == x && tao::get<2>(v).get() == y && tao::get<1>(v) == 2);
        break;
      }
      case 3: {
        T t(a, 3, b), u;
        u = t;
        REQUIRE(tao::get<0>(t).get() == x && tao::get<0>(u).get() == x && tao::get<2>(u).get() == y);
        T w;
        w = nanostl::move(t);
        REQUIRE(tao::get<0>(t).v == 0 && tao::get<2>(t).v == 0 && tao::get<2>(w).get() == y);
        u = u;
        REQUIRE(tao::get<0>(u).get() == x && tao::get<1>(u) == 3);
        break;
      }
      case 4: {  // converting assignment
        tuple<Own, short, Own> t(a, 4, b);
        T u;
        u = t;
        REQUIRE_MSG(tao::get<0>(t).get() == x && tao::get<2>(t).get() == y, "assigning from a tuple of other types changed it");
        REQUIRE(tao::get<0>(u).get() == x && tao::get<1>(u) == 4 && tao::get<2>(u).get() == y);
        u = nanostl::move(t);
        REQUIRE_MSG(tao::get<0>(t).v == 0 && tao::get<2>(t).v == 0, "a temporary tuple of other types was copied from");
        REQUIRE(tao::get<0>(u).get() == x && tao::get<1>(u) == 4 && tao::get<2>(u).get() == y);
        break;
      }
      case 5: {  // one element taken out
        T t(a, 5, b);
        const T &c = t;
        Own p(tao::get<0>(t)), q(tao::get<2>(c));
        REQUIRE(p.get() == x && q.get() == y && tao::get<0>(t).get() == x && tao::get<2>(t).get() == y);
        Own r(tao::get<2>(nanostl::move(t)));
        REQUIRE(r.get() == y && tao::get<2>(t).v == 0 && tao::get<0>(t).get() == x);
        Own z(tao::get<0>(static_cast<const T &&>(t)));
        REQUIRE(z.get() == x && tao::get<0>(t).get() == x);
        break;
      }
      case 6: {
        tuple<Own> t(a), u(b);
        auto c = tao::tuple_cat(t, nanostl::move(u), tuple<>(), tao::make_tuple(7));
        REQUIRE_MSG(tao::get<0>(t).get() == x && tao::get<0>(u).v == 0, "tuple_cat did not copy the lvalue or move the temporary");
        REQUIRE(tao::get<0>(c).get() == x && tao::get<1>(c).get() == y && tao::get<2>(c) == 7);
        break;
      }
      case 7: {  // move-only, final and const elements
        tuple<NoCopy, Fin, const int, Last, int> t(NoCopy(x), Fin{y}, 8, Last(), 9);
        REQUIRE(*tao::get<0>(t).v == x && tao::get<1>(t).v == y && tao::get<2>(t) == 8 && tao::get<4>(t) == 9);
        tuple<NoCopy, Fin, const int, Last, int> u(nanostl::move(t));
        REQUIRE(!tao::get<0>(t).v && *tao::get<0>(u).v == x && tao::get<1>(u).v == y && tao::get<2>(u) == 8);
        NoCopy n(tao::get<NoCopy>(nanostl::move(u)));
        REQUIRE(*n.v == x && !tao::get<0>(u).v);
        auto m = tao::make_tuple(nanostl::move(n), y);
        auto c = tao::tuple_cat(nanostl::move(m), tuple<NoCopy>(NoCopy(3)));
        REQUIRE(!tao::get<0>(m).v && *tao::get<0>(c).v == x && tao::get<1>(c) == y && *tao::get<2>(c).v == 3);
        break;
      }
      default: {
        nanostl::allocator<int> al;
        T t(nanostl::allocator_arg_t(), al, a, 10, nanostl::move(b));
        REQUIRE(a.get() == x && b.v == 0 && tao::get<0>(t).get() == x && tao::get<1>(t) == 10 && tao::get<2>(t).get() == y);
        auto f = tao::forward_as_tuple(a, cb, Own(y));
        static_assert(std::is_same<decltype(f), tuple<Own &, const Own &, Own &&> >::value, "forward_as_tuple keeps value categories");
        REQUIRE(&tao::get<0>(f) == &a && &tao::get<1>(f) == &cb);
      }
    }
    s.nontrivial();
  }
  leaks.done();
}

// Empty classes at every place, also the same one several times and inside other tuples.
PROPERTY(empties, 100000, 3000000, "tuples with empty classes, equal ones too, keep every other element") {
  OwnCheck leaks;
  {
    i64 x = s.edgy(-1000000, 1000000), y = s.edgy(-1000000, 1000000);
    s.note("%lld %lld\n", (long long)x, (long long)y);
    tuple<Empty, Empty, i64, Empty, Call, i64, Empty> t(Empty(), Empty(), x, Empty(), Call(), y, Empty()), u;
    tuple<tuple<>, tuple<Empty>, tuple<i64, Empty>, Empty, tuple<tuple<i64> > > n(tuple<>(), tuple<Empty>(), tuple<i64, Empty>(x, Empty()), Empty(), tuple<tuple<i64> >(tuple<i64>(y))), m;
    REQUIRE(tao::get<2>(t) == x && tao::get<5>(t) == y && tao::get<4>(t).x() == 41);
    REQUIRE(tao::get<0>(tao::get<2>(n)) == x && tao::get<0>(tao::get<0>(tao::get<4>(n))) == y);
    REQUIRE_MSG(tao::get<2>(u) == 0 && tao::get<5>(u) == 0 && tao::get<0>(tao::get<2>(m)) == 0, "default construction leaves an element uninitialised");
    u = t;
    m = n;
    tao::get<2>(t) = y + 1;
    tao::get<0>(t) = Empty();
    tao::get<6>(t) = Empty();
    tao::get<3>(n) = Empty();
    tao::get<1>(n) = tuple<Empty>();
    REQUIRE(tao::get<2>(u) == x && tao::get<5>(u) == y && tao::get<2>(t) == y + 1 && tao::get<5>(t) == y);
    REQUIRE_MSG(m == n, "assigning an empty element changed its neighbours");
    u.swap(t);
    REQUIRE(tao::get<2>(u) == y + 1 && tao::get<2>(t) == x && tao::get<5>(t) == y);
    tuple<Empty, Call> e, f;
    e = f;
    e.swap(f);
    tuple<Own, Empty> o{Own(x), Empty()}, p(o);
    o.swap(p);
    tuple<Own, Empty> q(nanostl::move(p));
    REQUIRE(tao::get<0>(q).get() == x && tao::get<0>(o).get() == x);
    auto c = tao::tuple_cat(tuple<Empty>(), q, tuple<Empty, Empty>(), tuple<i64>(y));
    REQUIRE(tao::get<1>(c).get() == x && tao::get<5>(c) == y);
    if (x != y) s.nontrivial();
  }
  leaks.done();
}

template <class... Ts>
static void tuple_as_std(const std::tuple<Ts...> &x, const std::tuple<Ts...> &y, const tuple<Ts...> &a, const tuple<Ts...> &b) {
  REQUIRE_MSG((a == b) == (x == y) && (a != b) == (x != y), "== or != is wrong");
  REQUIRE_MSG((a < b) == (x < y) && (a > b) == (y < x), "< or > is wrong");
  REQUIRE_MSG((a <= b) == !(y < x) && (a >= b) == !(x < y), "<= or >= is wrong");
}
PROPERTY(partial_orders, 150000, 4000000, "tuples compare by == and < of their elements, also where these are not two sides of one order") {
  const Tie a = draw_tie(s), b = draw_tie(s), c = s.flip() ? a : draw_tie(s), d = s.flip() ? b : draw_tie(s);
  const double x = draw_nan(s), y = s.flip() ? x : draw_nan(s);
  const int i = (int)s.range(0, 1), j = (int)s.range(0, 1);
  s.note("(%d %d) (%d %d) %g %d with (%d %d) (%d %d) %g %d\n", a.k, a.t, b.k, b.t, x, i, c.k, c.t, d.k, d.t, y, j);
  tuple_as_std(std::tuple<Tie>(a), std::tuple<Tie>(c), tuple<Tie>(a), tuple<Tie>(c));
  tuple_as_std(std::tuple<double>(x), std::tuple<double>(y), tuple<double>(x), tuple<double>(y));
  tuple_as_std(std::tuple<Tie, Tie, int>(a, b, i), std::tuple<Tie, Tie, int>(c, d, j), tuple<Tie, Tie, int>(a, b, i), tuple<Tie, Tie, int>(c, d, j));
  tuple_as_std(std::tuple<int, double, Tie>(i, x, a), std::tuple<int, double, Tie>(j, y, c), tuple<int, double, Tie>(i, x, a), tuple<int, double, Tie>(j, y, c));
  tuple_as_std(std::tuple<Tie, double, Tie, int>(a, x, b, i), std::tuple<Tie, double, Tie, int>(c, y, d, j), tuple<Tie, double, Tie, int>(a, x, b, i), tuple<Tie, double, Tie, int>(c, y, d, j));
  if (x != x || (a.k == c.k && a.t != c.t)) s.nontrivial();
}

#if __cplusplus >= 201402L
struct AnyMix {
  tao::tuple<int, char, long> a, b;
  constexpr AnyMix(int x, char y, long z) : a(x, y, z), b(a) {
    tao::get<1>(b) = 'b';
    tao::get<2>(a) += x;
  }
};
PROPERTY(constants, 20000, 1000000, "what constant evaluation and run time make of the same tuples") {
  constexpr AnyMix c(3, 'x', 4);
  constexpr auto cat = tao::tuple_cat(c.a, tao::make_tuple(2.5, 7u), tao::tuple<>(), tao::make_tuple('z'));
  static_assert(tao::tuple_size<decltype(cat)>::value == 6, "");
  constexpr long v[] = {tao::get<0>(c.a), tao::get<1>(c.a), tao::get<2>(c.a), tao::get<0>(c.b), tao::get<1>(c.b), tao::get<2>(c.b), tao::get<long>(c.a), tao::get<char>(c.b)};
  constexpr bool o[] = {c.a == c.a, c.a < c.b, c.b < c.a, c.a != c.b, c.a <= c.a, c.a > c.b, c.b >= c.a};
  const long e[] = {3, 'x', 7, 3, 'b', 4, 7, 'b'};
  const bool oe[] = {true, false, true, true, true, true, false};
  REQUIRE(!memcmp(v, e, sizeof(v)) && !memcmp(o, oe, sizeof(o)));
  REQUIRE(tao::get<0>(cat) == 3 && tao::get<1>(cat) == 'x' && tao::get<2>(cat) == 7 && tao::get<3>(cat) == 2.5 && tao::get<4>(cat) == 7 && tao::get<5>(cat) == 'z');
  REQUIRE((std::is_same<tao::tuple_element_t<3, std::remove_const_t<decltype(cat)> >, double>::value));
  const int x = (int)s.edgy(INT_MIN / 2, INT_MAX / 2);
  const char y = (char)s.below(128);
  const long z = (long)s.edgy(INT_MIN, INT_MAX);
  s.note("%d %d %ld\n", x, y, z);
  const AnyMix r(x, y, z);
  REQUIRE(tao::get<0>(r.a) == x && tao::get<1>(r.a) == y && tao::get<2>(r.a) == z + x && tao::get<0>(r.b) == x && tao::get<1>(r.b) == 'b' && tao::get<2>(r.b) == z);
  REQUIRE((r.a < c.a) == (std::make_tuple(x, y, z + x) < std::make_tuple(3, 'x', 7L)) && (r.a == c.a) == (x == 3 && y == 'x' && z + x == 7));
  if (x && z) s.nontrivial();
}
#endif
