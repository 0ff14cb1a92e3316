// C11: any.  Model: which type is held, and its value.
#define PBT_MAIN
#include "nano_pre.h"
#include "nanotype_traits.h"
// any.hpp is written against nanostl::type_info; with g++, typeid yields std::type_info.
namespace nanostl {
using std::type_info;
}
#include "owned.h"
#include "nanoinitializer_list.h"
#include "nanoany.h"
using namespace pbt;
using nanostl::any;

enum Kind { EMPTY, INT, CHAR, LLONG, DOUBLE, OWN, OWN2, WIDE, PTR, NEST, NK };
static const char *const kinds[] = {"empty", "int", "signed char", "long long", "double", "Own", "Own2", "Wide", "pointer", "any inside Own3"};
struct Own3 : Own {  // not convertible to or from the others
  Own3(i64 x) : Own(x) {}
};
struct M {
  Kind k;
  bool known;
  i64 v;
};
static int targets[256];  // pointers stored in an any point here

template <class T>
static bool holds(const any &a) {
  const T *p = nonstd::any_cast<T>(&a);
  T *q = nonstd::any_cast<T>(const_cast<any *>(&a));
  REQUIRE((p != 0) == (q != 0) && p == q);
  const T *cp = nonstd::any_cast<const T>(&a);
  REQUIRE(cp == p);
  REQUIRE((a.type() == typeid(T)) == (p != 0));
  if (p) REQUIRE((uintptr_t)p % alignof(T) == 0);
  return p != 0;
}
template <class T>
static void value(any &a, const M &m, Kind k, const char *what, size_t op) {
  bool h = holds<T>(a);
  REQUIRE_MSG(h == (m.k == k), "%s: any_cast to %s is %d, but it holds %s (op %zu)", what, kinds[k], h, kinds[m.k], op);
  if (!h || !m.known) return;
  i64 v = val(*nonstd::any_cast<T>(&a));
  REQUIRE_MSG(v == m.v, "%s: value is %lld instead of %lld (op %zu)", what, (long long)v, (long long)m.v, op);
  const any &c = a;
  REQUIRE(val(nonstd::any_cast<T>(c)) == m.v);
  REQUIRE(val(nonstd::any_cast<T>(a)) == m.v);
}
static i64 val(int *p) { return p - targets; }
static void check(any &a, const M &m, const char *what, size_t op) {
  REQUIRE_MSG(a.has_value() == (m.k != EMPTY), "%s: has_value() is %d (op %zu)", what, (int)a.has_value(), op);
  REQUIRE((a.type() == typeid(void)) == (m.k == EMPTY));
  value<int>(a, m, INT, what, op);
  value<signed char>(a, m, CHAR, what, op);
  value<long long>(a, m, LLONG, what, op);
  value<double>(a, m, DOUBLE, what, op);
  value<Own>(a, m, OWN, what, op);
  value<Own2>(a, m, OWN2, what, op);
  value<Wide>(a, m, WIDE, what, op);
  bool h = holds<int *>(a);
  REQUIRE(h == (m.k == PTR));
  if (h) REQUIRE(val(*nonstd::any_cast<int *>(&a)) == m.v);
  value<Own3>(a, m, NEST, what, op);
  REQUIRE(!holds<unsigned>(a) && !holds<char>(a) && !holds<float>(a));
  REQUIRE(nonstd::any_cast<int>((any *)0) == 0 && nonstd::any_cast<int>((const any *)0) == 0);
}
template <class T>
static void put(any &a, int x, int how) {
  T t(x);
  const T ct(x);
  switch (how) {
    case 0: {  // a modifiable lvalue must be copied, not moved from
      any &r = (a = t);
      REQUIRE(&r == &a);
      REQUIRE_MSG(val(t) == x, "assigning an lvalue changed it");
      break;
    }
    case 1: a = ct; REQUIRE(val(ct) == x); break;
    case 2: a = T(x); break;
    case 3: {
      any b(t);
      REQUIRE_MSG(val(t) == x, "constructing from an lvalue changed it");
      a = b;
      break;
    }
    case 4: a = any(ct); break;
    case 5: a.template emplace<T>(x); break;
    case 6: a = nonstd::make_any<T>(x); break;
    default: {
      any b(nonstd::in_place_type<T>, x);
      a = nanostl::move(b);
      REQUIRE(!b.has_value());
    }
  }
}
static void put_kind(any &a, Kind k, int x, int how) {
  switch (k) {
    case EMPTY: a.reset(); break;
    case INT: put<int>(a, x, how); break;
    case CHAR: put<signed char>(a, x, how); break;
    case LLONG: put<long long>(a, x, how); break;
    case DOUBLE: put<double>(a, x, how); break;
    case OWN: put<Own>(a, x, how); break;
    case OWN2: put<Own2>(a, x, how); break;
    case WIDE: put<Wide>(a, x, how); break;
    case PTR: {
      int *p = &targets[x + 128];
      a = p;
      break;
    }
    default: put<Own3>(a, x, how);
  }
}

PROPERTY(histories, 100000, 4000000, "any holds exactly the type and value last stored; copies are independent; moves leave the source empty") {
  enum { POOL = 3 };
  OwnCheck leaks;
  size_t op = 0, kinds_seen = 0, copies = 0;
  {
    any a[POOL];
    M m[POOL];
    for (int k = 0; k < POOL; k++) m[k].k = EMPTY, m[k].known = true, m[k].v = 0;
    while (s.more(16)) {
      op++;
      int i = (int)s.below(POOL), j = (int)s.below(POOL);
      int x = (int)s.range(-120, 120);
      const char *name = "";
      switch (s.below(11)) {
        case 0:
        case 1:
        case 2:
        case 3: {
          Kind k = (Kind)s.below(NK);
          int how = (int)s.below(8);
          name = "storing";
          s.note("a%d = %s %d (way %d)\n", i, kinds[k], x, how);
          if (m[i].k != k) kinds_seen++;
          put_kind(a[i], k, x, how);
          m[i].k = k, m[i].known = true, m[i].v = k == PTR ? x + 128 : x;
          break;
        }
        case 4:
        case 5: {
          name = "copy assignment";
          s.note("a%d = a%d\n", i, j);
          any &r = (a[i] = a[j]);
          REQUIRE(&r == &a[i]);
          m[i] = m[j];
          copies++;
          break;
        }
        case 6: {
          name = "move assignment";
          s.note("a%d = move(a%d)\n", i, j);
          any &r = (a[i] = nanostl::move(a[j]));
          REQUIRE(&r == &a[i]);
          if (i == j) break;  // keeps its value
          m[i] = m[j];
          m[j].k = EMPTY;
          break;
        }
        case 7: {
          name = "copy construction";
          s.note("any t(a%d), changed\n", j);
          any t(a[j]);
          M mt = m[j];
          check(t, mt, name, op);
          check(a[j], m[j], "being copied", op);
          if (Own *p = nonstd::any_cast<Own>(&t)) *p = Own(x);
          if (int *p = nonstd::any_cast<int>(&t)) *p = x;
          check(a[j], m[j], "changing a copy", op);
          const any c(a[j]);
          any u(c);
          check(u, m[j], "copying a const any", op);
          a[i] = u;
          m[i] = m[j];
          copies++;
          break;
        }
        case 8: {
          name = "move construction";
          s.note("any t(move(a%d)); a%d = move(t)\n", j, i);
          any t(nanostl::move(a[j]));
          M mt = m[j];
          m[j].k = EMPTY;
          check(a[j], m[j], name, op);
          check(t, mt, name, op);
          a[i] = nanostl::move(t);
          m[i] = mt;
          break;
        }
        case 9: {
          name = "swap";
          s.note("swap(a%d, a%d)\n", i, j);
          if (s.flip()) a[i].swap(a[j]);
          else swap(a[i], a[j]);
          M t = m[i];
          m[i] = m[j];
          m[j] = t;
          break;
        }
        default: {
          name = "write through any_cast";
          s.note("value of a%d = %d\n", i, x);
          bool w = true;
          switch (m[i].k) {
            case INT: *nonstd::any_cast<int>(&a[i]) = x; break;
            case OWN: *nonstd::any_cast<Own>(&a[i]) = Own(x); break;
            case WIDE: *nonstd::any_cast<Wide>(&a[i]) = Wide(x); break;
            case DOUBLE: *nonstd::any_cast<double>(&a[i]) = x; break;
            default: w = false;
          }
          if (w) m[i].v = x;
        }
      }
      long owners = 0;
      for (int k = 0; k < POOL; k++) {
        check(a[k], m[k], name, op);
        owners += m[k].k == OWN || m[k].k == OWN2 || m[k].k == NEST;
      }
      REQUIRE_MSG(Own::live - leaks.o0 == owners, "%ld owning values alive instead of %ld after %s (op %zu)", Own::live - leaks.o0, owners, name, op);
    }
  }
  leaks.done();
  if (op >= 3 && kinds_seen > 1 && copies) s.nontrivial();
}

PROPERTY(arguments, 100000, 3000000, "in_place construction, emplace and make_any pass every argument on as it was given") {
  OwnCheck leaks;
  {
    i64 x = s.edgy(-100000, 100000);
    int how = 1 + (int)s.below(4), w = 0, via = (int)s.below(3);
    const int c = 0;
    Arg a(x);
    const Arg &ca = a;
    nanostl::initializer_list<int> none;
    s.note("%s, argument kind %d, value %lld\n", via == 0 ? "in_place" : via == 1 ? "make_any" : "emplace", how, (long long)x);
    any t;
    if (s.flip()) t = Own2(3);
    if (via == 0) {
      switch (how) {
        case 1: { any r(nonstd::in_place_type<Rec>, a, w, c); r.swap(t); break; }
        case 2: { any r(nonstd::in_place_type<Rec>, ca, w, c); r.swap(t); break; }
        case 3: { any r(nonstd::in_place_type<Rec>, nanostl::move(a), w, c); r.swap(t); break; }
        default: { any r(nonstd::in_place_type<Rec>, none, nanostl::move(a), w, c); r.swap(t); }
      }
    } else if (via == 1) {
      switch (how) {
        case 1: t = nonstd::make_any<Rec>(a, w, c); break;
        case 2: t = nonstd::make_any<Rec>(ca, w, c); break;
        case 3: t = nonstd::make_any<Rec>(nanostl::move(a), w, c); break;
        default: t = nonstd::make_any<Rec>(none, nanostl::move(a), w, c);
      }
    } else {
      switch (how) {
        case 1: t.emplace<Rec>(a, w, c); break;
        case 2: t.emplace<Rec>(ca, w, c); break;
        case 3: t.emplace<Rec>(nanostl::move(a), w, c); break;
        default: t.emplace<Rec>(none, nanostl::move(a), w, c);
      }
    }
    REQUIRE(t.has_value() && t.type() == typeid(Rec) && !nonstd::any_cast<Own>(&t));
    Rec *r = nonstd::any_cast<Rec>(&t);
    REQUIRE(r != 0);
    check_rec(*r, x, how, &w, &c, a);
    any u(t);
    REQUIRE(nonstd::any_cast<Rec>(&u) != r && nonstd::any_cast<Rec>(&u)->get() == x && nonstd::any_cast<Rec>(&u)->where == &w);
    if (x) s.nontrivial();
  }
  leaks.done();
}

PROPERTY(value_categories, 100000, 3000000, "values given as lvalues are copied, as temporaries moved; a held value can be replaced by itself") {
  OwnCheck leaks;
  {
    i64 x = s.range(-1000, 1000);
    int how = (int)s.below(11);
    bool full = s.flip(), moved = false;
    s.note("way %d, %lld, %s\n", how, (long long)x, full ? "over a value" : "into an empty any");
    any a;
    if (full) a = Wide(4);
    Own o(x);
    const Own co(x);
    switch (how) {
      case 0: a = o; break;
      case 1: a = co; break;
      case 2: a = nanostl::move(o), moved = true; break;
      case 3: { any t(o); a = t; REQUIRE(nonstd::any_cast<Own>(&t)->get() == x); break; }
      case 4: { any t(nanostl::move(o)); a = t, moved = true; REQUIRE(nonstd::any_cast<Own>(&t)->get() == x); break; }
      case 5: a.emplace<Own>(o); break;
      case 6: a.emplace<Own>(nanostl::move(o)), moved = true; break;
      case 7: a = nonstd::make_any<Own>(o); break;
      case 8: a = nonstd::make_any<Own>(nanostl::move(o)), moved = true; break;
      case 9: {
        a = o;
        const any &c = a;
        a = c;
        REQUIRE(nonstd::any_cast<Own>(&a) && nonstd::any_cast<Own>(&a)->get() == x);
        a = *nonstd::any_cast<Own>(&a);
        break;
      }
      default: {
        any t(co);
        any u(nanostl::move(t));
        REQUIRE(!t.has_value());
        a = nanostl::move(u);
        REQUIRE(!u.has_value());
      }
    }
    const any &c = a;
    REQUIRE(a.has_value() && a.type() == typeid(Own) && nonstd::any_cast<Own>(&a));
    REQUIRE(nonstd::any_cast<Own>(&a)->get() == x && nonstd::any_cast<Own>(&c) == nonstd::any_cast<Own>(&a));
    REQUIRE(co.get() == x && val(nonstd::any_cast<Own>(a)) == x && val(nonstd::any_cast<Own>(c)) == x && val(nonstd::any_cast<const Own>(c)) == x);
    if (moved) REQUIRE_MSG(o.v == 0, "a temporary was copied instead of moved");
    else REQUIRE_MSG(o.get() == x, "an lvalue was changed");
    Own out(nonstd::any_cast<Own>(nanostl::move(a)));
    REQUIRE(out.get() == x && a.has_value() && a.type() == typeid(Own));
    a.reset();
    REQUIRE(!a.has_value() && !nonstd::any_cast<Own>(&a) && a.type() == typeid(void));
    a.reset();
    s.nontrivial();
  }
  leaks.done();
}

// Exactly its type, among many close ones.
template <int N>
struct Blob {
  unsigned char b[N];
  bool operator==(const Blob &o) const { return memcmp(b, o.b, N) == 0; }
};
enum E1 { E1_A, E1_B };
enum E2 { E2_A, E2_B };
struct Nothing {
  bool operator==(const Nothing &) const { return true; }
};
struct Nothing2 {
  bool operator==(const Nothing2 &) const { return true; }
};
static void f1() {}
static void f2() {}
static int ints[2];
static const int cints[2] = {1, 2};
template <class T>
static T pick(int k);
#define PICK(T, a, b) \
  template <>         \
  T pick<T>(int k) {  \
    return k ? b : a; \
  }
PICK(bool, false, true)
PICK(char, 'a', 'b')
PICK(signed char, -1, 1)
PICK(unsigned char, 3, 255)
PICK(short, -3, 300)
PICK(unsigned short, 3, 65535)
PICK(int, 0, -5)
PICK(unsigned, 0, 5)
PICK(long, 0, 1l << 40)
PICK(unsigned long, 0, 7)
PICK(long long, 0, 8)
PICK(unsigned long long, 0, 9)
PICK(float, 0.0f, 1.5f)
PICK(double, 0.0, 2.5)
PICK(long double, 0.0l, 3.5l)
PICK(wchar_t, L'a', L'b')
PICK(char16_t, u'a', u'b')
PICK(char32_t, U'a', U'b')
PICK(int *, ints, ints + 1)
PICK(const int *, cints, ints)
PICK(void *, 0, ints)
PICK(const void *, 0, cints)
PICK(int **, 0, (int **)ints)
typedef void (*VF)();
PICK(VF, f1, f2)
PICK(E1, E1_A, E1_B)
PICK(E2, E2_A, E2_B)
PICK(Nothing, Nothing(), Nothing())
PICK(Nothing2, Nothing2(), Nothing2())
template <int N>
static Blob<N> blob(int k) {
  Blob<N> b;
  for (int i = 0; i < N; i++) b.b[i] = (unsigned char)(i * 7 + k);
  return b;
}
#define BLOB(N) template <> Blob<N> pick<Blob<N> >(int k) { return blob<N>(k); }
BLOB(1) BLOB(2) BLOB(3) BLOB(7) BLOB(8) BLOB(9) BLOB(16) BLOB(24) BLOB(33) BLOB(64) BLOB(257) BLOB(5000)
template <class... T>
struct L {};
typedef L<bool, char, signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long, float, double, long double,
          wchar_t, char16_t, char32_t, int *, const int *, void *, const void *, int **, VF, E1, E2, Nothing, Nothing2, Blob<1>, Blob<2>, Blob<3>, Blob<7>, Blob<8>,
          Blob<9>, Blob<16>, Blob<24>, Blob<33>, Blob<64>, Blob<257>, Blob<5000> >
    Types;
enum { NTYPES = 40 };
template <class T>
static void one(any &a, int at, int &i, int k, bool store) {
  if (store) {
    if (i == at) a = pick<T>(k);
  } else {
    T *p = nonstd::any_cast<T>(&a);
    const any &c = a;
    REQUIRE_MSG((p != 0) == (i == at), "any_cast to type %d is %d, but type %d is held", i, p != 0, at);
    REQUIRE((nonstd::any_cast<T>(&c) != 0) == (i == at) && (nonstd::any_cast<const T>(&c) != 0) == (i == at) && (a.type() == typeid(T)) == (i == at));
    if (p) {
      REQUIRE_MSG(*p == pick<T>(k), "the value of type %d is not the one stored", i);
      REQUIRE(nonstd::any_cast<T>(a) == pick<T>(k) && nonstd::any_cast<T>(c) == pick<T>(k) && (uintptr_t)p % alignof(T) == 0);
    }
  }
  i++;
}
template <class... T>
static void all(L<T...>, any &a, int at, int k, bool store) {
  int i = 0;
  int x[] = {(one<T>(a, at, i, k, store), 0)...};
  (void)x;
  REQUIRE(i == NTYPES);
}
PROPERTY(types, 60000, 1500000, "of forty types (scalars, pointers, enums, empty and large classes) any_cast succeeds for exactly the stored one") {
  LeakCheck leaks;
  {
    any a;
    size_t n = 0;
    while (s.more(5)) {
      int at = (int)s.below(NTYPES), k = (int)s.below(2);
      s.note("type %d, value %d\n", at, k);
      all(Types(), a, at, k, true);
      all(Types(), a, at, k, false);
      any b(a), c;
      c = b;
      a.reset();
      all(Types(), a, -1, k, false);
      all(Types(), c, at, k, false);
      a = nanostl::move(c);
      all(Types(), a, at, k, false);
      all(Types(), b, at, k, false);
      all(Types(), c, -1, k, false);
      n++;
    }
    if (n > 1) s.nontrivial();
  }
  leaks.done();
}
