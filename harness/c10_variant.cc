// C10: variant.  Model: the index of the alternative and its value.
#define PBT_MAIN
#include "nano_pre.h"
#include "owned.h"
#include "partial.h"
#include "nanovariant.h"
#include "nanoinitializer_list.h"
// The library's own (src/nanoexception.cc) is empty; here reaching it is a failure.
void nanostl::terminate() noexcept {
  fprintf(stderr, "SUMMARY: terminate() called\n");
  abort();
}
using namespace pbt;
using nanostl::variant;

template <int I>
struct A : Own {  // sixteen owning types of their own
  A() {}
  A(i64 x) : Own(x) {}
};
namespace pbt {
template <int I>
struct Keeps<A<I> > {
  enum { value = 0 };
};
}  // namespace pbt
// Distinct types with plain data of different sizes.
template <int I>
struct P {
  i64 v;
  char pad[I + 1];
  P() : v(0) { memset(pad, I, sizeof pad); }
  P(i64 x) : v(x) { memset(pad, I, sizeof pad); }
  bool operator==(const P &o) const { return v == o.v; }
  bool operator<(const P &o) const { return v < o.v; }
};
template <int I>
i64 val(const P<I> &p) {
  for (int i = 0; i <= I; i++) REQUIRE(p.pad[i] == I);
  return p.v;
}

struct M {
  size_t idx;
  bool known;
  i64 v;
};

template <class V, size_t K>
struct At {
  typedef typename nonstd::variant_alternative<K, V>::type T;
  static void assign(V &v, i64 x, int how) {
    switch (how) {
      case 0: {
        const T t((int)x);
        V &r = (v = t);
        REQUIRE(&r == &v);
        REQUIRE(val(t) == x);
        break;
      }
      case 1: {
        V &r = (v = T((int)x));
        REQUIRE(&r == &v);
        break;
      }
      case 2: {
        T &r = v.template emplace<T>((int)x);
        REQUIRE(&r == &nanostl::get<T>(v));
        break;
      }
      case 3: {
        T &r = v.template emplace<K>((int)x);
        REQUIRE(&r == &nanostl::get<K>(v));
        break;
      }
      case 4: {
        V t(nonstd::in_place_type<T>, (int)x);
        REQUIRE(t.index() == K);
        v = t;
        break;
      }
      case 5: {
        V t(nonstd::in_place_index<K>, (int)x);
        REQUIRE(t.index() == K);
        v = nanostl::move(t);
        break;
      }
      case 6: {
        const T c((int)x);
        V t(c);
        REQUIRE(t.index() == K);
        v = t;
        break;
      }
      default: {
        V t((T((int)x)));
        REQUIRE(t.index() == K);
        v = nanostl::move(t);
      }
    }
  }
  static void write(V &v, i64 x) {
    if (x & 1) nanostl::get<K>(v) = T((int)x);
    else *nanostl::get_if<T>(&v) = T((int)x);
  }
  // Checks everything that can be asked about alternative K; holds: v holds it.
  static void probe(V &v, const M &m, const char *what, size_t op) {
    const V &c = v;
    bool holds = m.idx == K;
    REQUIRE_MSG(nonstd::holds_alternative<T>(c) == holds, "holds_alternative of %zu is %d, index should be %zu, after %s (op %zu)", K, !holds, m.idx, what, op);
    T *p = nanostl::get_if<T>(&v);
    T *q = nanostl::get_if<K>(&v);
    REQUIRE_MSG((p != 0) == holds && (q != 0) == holds, "get_if of %zu is wrong, index should be %zu, after %s (op %zu)", K, m.idx, what, op);
    REQUIRE((nanostl::get_if<T>(&c) != 0) == holds && (nanostl::get_if<K>(&c) != 0) == holds);
    if (!holds) return;
    REQUIRE(p == q && p == &nanostl::get<T>(v) && p == &nanostl::get<K>(v));
    REQUIRE(p == &nanostl::get<T>(c) && p == &nanostl::get<K>(c));
    REQUIRE((uintptr_t)p % alignof(T) == 0);
    REQUIRE((const char *)p >= (const char *)&v && (const char *)(p + 1) <= (const char *)(&v + 1));
    if (m.known) REQUIRE_MSG(val(*p) == m.v, "alternative %zu is %lld instead of %lld after %s (op %zu)", K, (long long)val(*p), (long long)m.v, what, op);
  }
};
template <class V, size_t N>
struct All {
  static void assign(V &v, size_t k, i64 x, int how) {
    if (k == N - 1) At<V, N - 1>::assign(v, x, how);
    else All<V, N - 1>::assign(v, k, x, how);
  }
  static void write(V &v, size_t k, i64 x) {
    if (k == N - 1) At<V, N - 1>::write(v, x);
    else All<V, N - 1>::write(v, k, x);
  }
  static void probe(V &v, const M &m, const char *what, size_t op) {
    At<V, N - 1>::probe(v, m, what, op);
    All<V, N - 1>::probe(v, m, what, op);
  }
  static bool keeps(size_t k) { return k == N - 1 ? (bool)Keeps<typename At<V, N - 1>::T>::value : All<V, N - 1>::keeps(k); }
};
template <class V>
struct All<V, 0> {
  static void assign(V &, size_t, i64, int) {}
  static void write(V &, size_t, i64) {}
  static void probe(V &, const M &, const char *, size_t) {}
  static bool keeps(size_t) { return true; }
};

// A visitor reports the static types and values it is given.
template <class T>
struct Id;
template <> struct Id<int> { enum { id = 0 }; };
template <> struct Id<Own> { enum { id = 1 }; };
template <> struct Id<Wide> { enum { id = 2 }; };
template <> struct Id<signed char> { enum { id = 3 }; };
struct Seen {
  int n, id[5];
  i64 v[5];
};
struct Visit {
  template <class T>
  static void put(Seen &r, const T &x) { r.id[r.n] = Id<T>::id, r.v[r.n] = val(x), r.n++; }
  template <class T>
  Seen operator()(const T &a) const {
    Seen r = Seen();
    put(r, a);
    return r;
  }
  template <class T, class U>
  Seen operator()(const T &a, const U &b) const {
    Seen r = Seen();
    put(r, a), put(r, b);
    return r;
  }
  template <class T, class U, class W>
  Seen operator()(const T &a, const U &b, const W &c) const {
    Seen r = Seen();
    put(r, a), put(r, b), put(r, c);
    return r;
  }
};
typedef variant<int, Own, Wide, signed char> Mixed;
static i64 narrow(const M &m) { return m.v; }

template <class V, size_t N>
static void history(Src &s, int vmax) {
  enum { POOL = 3 };
  OwnCheck leaks;
  size_t op = 0, switched = 0, moves = 0;
  {
    V v[POOL];
    M m[POOL];
    for (int k = 0; k < POOL; k++) {
      m[k].idx = 0, m[k].known = true, m[k].v = 0;
      REQUIRE_MSG(v[k].index() == 0, "a default constructed variant has index %zu", (size_t)v[k].index());
    }
    // default construction value-initialises the first alternative
    while (s.more(20)) {
      op++;
      int a = (int)s.below(POOL), b = (int)s.below(POOL);
      i64 x = s.range(-vmax, vmax);
      const char *name = "";
      size_t before = m[a].idx;
      switch (s.below(12)) {
        case 0:
        case 1:
        case 2:
        case 3: {
          size_t k = (size_t)s.below(N);
          int how = (int)s.below(8);
          static const char *const names[] = {"assignment of an lvalue", "assignment of a temporary", "emplace by type", "emplace by index",
                                              "construction in place by type", "construction in place by index", "construction from an lvalue",
                                              "construction from a temporary"};
          name = names[how];
          s.note("v%d: %s, alternative %zu, %lld\n", a, name, k, (long long)x);
          All<V, N>::assign(v[a], k, x, how);
          m[a].idx = k, m[a].known = true, m[a].v = x;
          break;
        }
        case 4: {
          name = "copy assignment";
          s.note("v%d = v%d\n", a, b);
          V &r = (v[a] = v[b]);
          REQUIRE(&r == &v[a]);
          m[a] = m[b];
          break;
        }
        case 5: {
          name = "move assignment";
          s.note("v%d = move(v%d)\n", a, b);
          if (a == b) break;
          V &r = (v[a] = nanostl::move(v[b]));
          REQUIRE(&r == &v[a]);
          m[a] = m[b];
          if (!All<V, N>::keeps(m[b].idx)) m[b].known = false;
          moves++;
          break;
        }
        case 6: {
          name = "copy construction";
          s.note("V t(v%d); t changed; v%d = t\n", b, a);
          V t(v[b]);
          M mt = m[b];
          All<V, N>::probe(t, mt, name, op);
          All<V, N>::write(t, mt.idx, x);
          mt.v = x, mt.known = true;
          All<V, N>::probe(v[b], m[b], "changing a copy", op);
          v[a] = t;
          m[a] = mt;
          break;
        }
        case 7: {
          name = "move construction";
          s.note("V t(move(v%d)); v%d = move(t)\n", b, a);
          V t(nanostl::move(v[b]));
          M mt = m[b];
          All<V, N>::probe(t, mt, name, op);
          if (!All<V, N>::keeps(m[b].idx)) m[b].known = false;
          REQUIRE(v[b].index() == m[b].idx);
          v[a] = nanostl::move(t);
          m[a] = mt;
          moves++;
          break;
        }
        case 8: {
          name = "swap";
          s.note("swap(v%d, v%d)\n", a, b);
          if (a == b) break;
          if (s.flip()) v[a].swap(v[b]);
          else swap(v[a], v[b]);
          M t = m[a];
          m[a] = m[b];
          m[b] = t;
          moves++;
          break;
        }
        case 9:
          name = "write";
          s.note("get(v%d) = %lld\n", a, (long long)x);
          All<V, N>::write(v[a], m[a].idx, x);
          m[a].v = x, m[a].known = true;
          break;
        default: {
          name = "comparison";
          if (s.flip()) {  // make them close
            i64 y = m[a].known ? m[a].v + s.range(-1, 1) : 0;
            if (y > vmax || y < -vmax) y = 0;
            All<V, N>::assign(v[b], m[a].idx, y, 1);
            m[b].idx = m[a].idx, m[b].v = y, m[b].known = true;
          }
          if (!m[a].known || !m[b].known) break;
          int r = m[a].idx != m[b].idx ? (m[a].idx < m[b].idx ? -1 : 1) : m[a].v < m[b].v ? -1 : m[a].v > m[b].v;
          const V &p = v[a], &q = v[b];
          REQUIRE_MSG((p == q) == (r == 0) && (p != q) == (r != 0), "== or != is wrong, order is %d", r);
          REQUIRE_MSG((p < q) == (r < 0) && (p > q) == (r > 0), "< or > is wrong, order is %d", r);
          REQUIRE_MSG((p <= q) == (r <= 0) && (p >= q) == (r >= 0), "<= or >= is wrong, order is %d", r);
          if (m[a].idx == m[b].idx) s.label("same alternative compared");
        }
      }
      if (m[a].idx != before) switched++;
      long owners = 0;
      for (int k = 0; k < POOL; k++) {
        REQUIRE_MSG(v[k].index() == m[k].idx, "index is %zu instead of %zu after %s (op %zu)", (size_t)v[k].index(), m[k].idx, name, op);
        REQUIRE(!v[k].valueless_by_exception());
        All<V, N>::probe(v[k], m[k], name, op);
        owners += !All<V, N>::keeps(m[k].idx);
      }
      REQUIRE_MSG(Own::live - leaks.o0 == owners, "%ld owning values alive instead of %ld after %s (op %zu)", Own::live - leaks.o0, owners, name, op);
    }
  }
  leaks.done();
  if (op >= 3 && switched > 1 && moves) s.nontrivial();
}

PROPERTY(mixed, 200000, 2000000, "variant<int, owner, over-aligned, char>: alternative and value follow the model, each value is destroyed once") { history<Mixed, 4>(s, 127); }
typedef variant<A<0>, A<1>, A<2>, A<3>, A<4>, A<5>, A<6>, A<7>, A<8>, A<9>, A<10>, A<11>, A<12>, A<13>, A<14>, A<15> > Full;
PROPERTY(sixteen, 150000, 1000000, "a variant of sixteen owning alternatives") { history<Full, 16>(s, 1000000); }
typedef variant<P<3>, P<0>, P<40>, P<1>, P<7>, P<100>, P<2> > Sizes;
PROPERTY(sizes, 150000, 1000000, "a variant of seven alternatives of different sizes") { history<Sizes, 7>(s, 1000000); }
typedef variant<Own, Own2> Two;
PROPERTY(two, 150000, 1000000, "a variant of two related owning types") { history<Two, 2>(s, 1000000); }

PROPERTY(visits, 200000, 1500000, "visit calls the visitor once with the held alternatives of one, two or three variants, in order") {
  OwnCheck leaks;
  {
    Mixed v[3];
    M m[3];
    for (int k = 0; k < 3; k++) {
      m[k].idx = (size_t)s.below(4);
      m[k].v = s.range(-127, 127);
      All<Mixed, 4>::assign(v[k], m[k].idx, m[k].v, (int)s.below(8));
    }
    s.note("alternatives %zu %zu %zu, values %lld %lld %lld\n", m[0].idx, m[1].idx, m[2].idx, (long long)m[0].v, (long long)m[1].v, (long long)m[2].v);
    int n = 1 + (int)s.below(3);
    Seen r = n == 1 ? nonstd::visit(Visit(), v[0]) : n == 2 ? nonstd::visit(Visit(), v[0], v[1]) : nonstd::visit(Visit(), v[0], v[1], v[2]);
    REQUIRE(r.n == n);
    for (int k = 0; k < n; k++)
      REQUIRE_MSG(r.id[k] == (int)m[k].idx && r.v[k] == narrow(m[k]), "argument %d is alternative %d with %lld instead of %zu with %lld", k, r.id[k],
                  (long long)r.v[k], m[k].idx, (long long)m[k].v);
    for (int k = 0; k < 3; k++) REQUIRE(v[k].index() == m[k].idx);
    if (n > 1 && (m[0].idx != m[1].idx || m[0].v != m[1].v)) s.nontrivial();
  }
  leaks.done();
}

// Visits of four and five variants, with the variants temporaries, const or the same object.
typedef variant<int, Own, signed char> Small;
struct Visit5 : Visit {
  using Visit::operator();
  template <class T, class U, class W, class X>
  Seen operator()(const T &a, const U &b, const W &c, const X &d) const {
    Seen r = Seen();
    put(r, a), put(r, b), put(r, c), put(r, d);
    return r;
  }
  template <class T, class U, class W, class X, class Y>
  Seen operator()(const T &a, const U &b, const W &c, const X &d, const Y &e) const {
    Seen r = Seen();
    put(r, a), put(r, b), put(r, c), put(r, d), put(r, e);
    return r;
  }
};
static const int small_id[3] = {0, 1, 3};
PROPERTY(wide_visits, 150000, 1500000, "visit of four and five variants gives all held alternatives in order") {
  OwnCheck leaks;
  {
    Small v[5];
    M m[5];
    for (int k = 0; k < 5; k++) {
      m[k].idx = (size_t)s.below(3), m[k].v = s.range(-127, 127);
      All<Small, 3>::assign(v[k], m[k].idx, m[k].v, (int)s.below(8));
    }
    int n = 4 + (int)s.below(2), at[5];
    for (int k = 0; k < 5; k++) at[k] = s.chance(3, 4) ? k : (int)s.below(5);
    s.note("%d variants, alternatives", n);
    for (int k = 0; k < n; k++) s.note(" %zu(%lld)", m[at[k]].idx, (long long)m[at[k]].v);
    s.note("\n");
    const Small &a = v[at[0]], &b = v[at[1]], &c = v[at[2]], &d = v[at[3]], &e = v[at[4]];
    Visit5 f;
    Seen r = n == 4 ? nonstd::visit(f, a, b, c, d) : nonstd::visit(f, a, b, c, d, e);
    REQUIRE(r.n == n);
    bool differ = false;
    for (int k = 0; k < n; k++) {
      const M &w = m[at[k]];
      REQUIRE_MSG(r.id[k] == small_id[w.idx] && r.v[k] == w.v, "argument %d is alternative %d with %lld instead of %d with %lld", k, r.id[k], (long long)r.v[k],
                  small_id[w.idx], (long long)w.v);
      differ = differ || w.idx != m[at[0]].idx;
    }
    if (differ) s.nontrivial();
  }
  leaks.done();
}

// A visitor with state is called on the object given, exactly once, and sees the very value held.
struct Counting {
  int *calls;
  const void **where;
  template <class T>
  long operator()(const T &x) const {
    ++*calls;
    *where = &x;
    return (long)val(x) + 1;
  }
};
PROPERTY(visit_once, 150000, 1500000, "visit calls the visitor once, on the value in place, for each of sixteen alternatives") {
  OwnCheck leaks;
  {
    Full v;
    size_t k = (size_t)s.below(16);
    i64 x = s.edgy(-1000000, 1000000);
    All<Full, 16>::assign(v, k, x, (int)s.below(8));
    s.note("alternative %zu, %lld\n", k, (long long)x);
    int calls = 0;
    const void *where = 0;
    Counting f = {&calls, &where};
    const Full &c = v;
    long r = nonstd::visit(f, c);
    REQUIRE_MSG(calls == 1, "%d calls", calls);
    REQUIRE(r == x + 1);
    REQUIRE_MSG((const char *)where >= (const char *)&v && (const char *)where < (const char *)(&v + 1), "the visitor was given a copy");
    calls = 0;
    r = nonstd::visit(f, v);
    REQUIRE(calls == 1 && r == x + 1);
    M m = {k, true, x};
    All<Full, 16>::probe(v, m, "visit", 0);
    if (k) s.nontrivial();
  }
  leaks.done();
}

typedef variant<int, Rec, Own2> VRec;
static VRec in_place_rec(Arg &a, int how, bool type, int &w, const int &c) {
  const Arg &ca = a;
  nanostl::initializer_list<int> none;
  switch (how + 4 * type) {
    case 1: return VRec(nonstd::in_place_index<1>, a, w, c);
    case 2: return VRec(nonstd::in_place_index<1>, ca, w, c);
    case 3: return VRec(nonstd::in_place_index<1>, nanostl::move(a), w, c);
    case 4: return VRec(nonstd::in_place_index<1>, none, nanostl::move(a), w, c);
    case 5: return VRec(nonstd::in_place_type<Rec>, a, w, c);
    case 6: return VRec(nonstd::in_place_type<Rec>, ca, w, c);
    case 7: return VRec(nonstd::in_place_type<Rec>, nanostl::move(a), w, c);
    default: return VRec(nonstd::in_place_type<Rec>, none, nanostl::move(a), w, c);
  }
}
PROPERTY(arguments, 150000, 1500000, "in_place construction and emplace pass every argument on as it was given") {
  OwnCheck leaks;
  {
    i64 x = s.edgy(-100000, 100000);
    int how = 1 + (int)s.below(4), w = 0;
    const int c = 0;
    Arg a(x);
    const Arg &ca = a;
    nanostl::initializer_list<int> none;
    bool type = s.flip(), emplace = s.flip();
    s.note("%s by %s, argument kind %d, value %lld\n", emplace ? "emplace" : "in_place", type ? "type" : "index", how, (long long)x);
    VRec v;
    if (!emplace) {
      VRec t(in_place_rec(a, how, type, w, c));
      v = nanostl::move(t);
    } else {
      switch (s.below(4)) {
        case 0: v = Own2(3); break;
        case 1: {
          Arg b(5);
          v.emplace<1>(b, w, c);
          break;
        }
      }
      Rec *r = 0;
      switch (how + 4 * type) {
        case 1: r = &v.emplace<1>(a, w, c); break;
        case 2: r = &v.emplace<1>(ca, w, c); break;
        case 3: r = &v.emplace<1>(nanostl::move(a), w, c); break;
        case 4: r = &v.emplace<1>(none, nanostl::move(a), w, c); break;
        case 5: r = &v.emplace<Rec>(a, w, c); break;
        case 6: r = &v.emplace<Rec>(ca, w, c); break;
        case 7: r = &v.emplace<Rec>(nanostl::move(a), w, c); break;
        default: r = &v.emplace<Rec>(none, nanostl::move(a), w, c);
      }
      REQUIRE(v.index() == 1 && r == &nanostl::get<1>(v));
    }
    REQUIRE(v.index() == 1 && nonstd::holds_alternative<Rec>(v));
    check_rec(nanostl::get<Rec>(v), x, how, &w, &c, a);
    if (x) s.nontrivial();
  }
  leaks.done();
}

PROPERTY(value_categories, 150000, 1500000, "values given as lvalues are copied, as temporaries moved; get of a temporary hands the value out") {
  OwnCheck leaks;
  {
    i64 x = s.range(-1000, 1000);
    size_t old = (size_t)s.below(4);
    int how = (int)s.below(11);
    s.note("way %d, %lld, over alternative %zu\n", how, (long long)x, old);
    Mixed v;
    All<Mixed, 4>::assign(v, old, 3, 1);
    Own o(x);
    const Own co(x);
    bool moved = false;
    switch (how) {
      case 0: v = o; break;
      case 1: v = co; break;
      case 2: v = nanostl::move(o), moved = true; break;
      case 3: v = Mixed(o); break;
      case 4: v = Mixed(nanostl::move(o)), moved = true; break;
      case 5: v.emplace<Own>(o); break;
      case 6: v.emplace<1>(nanostl::move(o)), moved = true; break;
      case 7: {
        Mixed t(nonstd::in_place_index<1>, o);
        v = t;
        REQUIRE(nanostl::get<1>(t).get() == x);
        break;
      }
      case 8: {
        Mixed t(nonstd::in_place_type<Own>, nanostl::move(o));
        const Mixed ct(t);
        v = ct;
        REQUIRE(nanostl::get<1>(t).get() == x && nanostl::get<Own>(ct).get() == x);
        moved = true;
        break;
      }
      case 9: {  // itself, and its own value
        v = o;
        const Mixed &c = v;
        v = c;
        REQUIRE(v.index() == 1 && nanostl::get<1>(v).get() == x);
        v = nanostl::get<1>(c);
        break;
      }
      default: {
        Mixed t(o);
        Mixed u(t);
        v = nanostl::move(u);
        REQUIRE(t.index() == 1 && nanostl::get<Own>(t).get() == x);
      }
    }
    REQUIRE_MSG(v.index() == 1, "index is %zu", (size_t)v.index());
    REQUIRE(nanostl::get<Own>(v).get() == x && co.get() == x);
    if (moved) REQUIRE_MSG(o.v == 0, "a temporary was copied instead of moved");
    else REQUIRE_MSG(o.get() == x, "an lvalue was changed");
    if (s.flip()) {
      Own g(nanostl::get<1>(nanostl::move(v)));
      REQUIRE(g.get() == x && v.index() == 1);
    } else {
      Own g(nanostl::get<Own>(nanostl::move(v)));
      REQUIRE(g.get() == x && v.index() == 1);
    }
    v = (int)x;
    REQUIRE(v.index() == 0 && nanostl::get<int>(v) == x);
    s.nontrivial();
  }
  leaks.done();
}

PROPERTY(monostates, 60000, 600000, "a variant with monostate first starts empty; monostates are all equal; single-alternative variants") {
  typedef variant<nonstd::monostate, Own, int> V;
  OwnCheck leaks;
  {
    V a, b;
    i64 x = s.range(-100, 100), y = s.range(-100, 100);
    REQUIRE(a.index() == 0 && nonstd::holds_alternative<nonstd::monostate>(a));
    REQUIRE(a == b && !(a != b) && !(a < b) && !(a > b) && a <= b && a >= b);
    int ka = (int)s.below(3), kb = (int)s.below(3);
    s.note("alternatives %d %d, values %lld %lld\n", ka, kb, (long long)x, (long long)y);
    if (ka == 1) a = Own(x);
    if (ka == 2) a = (int)x;
    if (kb == 1) b = Own(y);
    if (kb == 2) b = (int)y;
    i64 va = ka ? x : 0, vb = kb ? y : 0;
    int r = ka != kb ? (ka < kb ? -1 : 1) : va < vb ? -1 : va > vb;
    REQUIRE_MSG((a == b) == (r == 0) && (a != b) == (r != 0), "== or != is wrong, order is %d", r);
    REQUIRE_MSG((a < b) == (r < 0) && (a > b) == (r > 0), "< or > is wrong, order is %d", r);
    REQUIRE_MSG((a <= b) == (r <= 0) && (a >= b) == (r >= 0), "<= or >= is wrong, order is %d", r);
    a.swap(b);
    REQUIRE((int)a.index() == kb && (int)b.index() == ka);
    b = nonstd::monostate();
    REQUIRE(b.index() == 0 && Own::live - leaks.o0 == (kb == 1));
    a = b;
    REQUIRE(a.index() == 0 && a == b && Own::live == leaks.o0);
    nonstd::monostate p, q;
    REQUIRE(p == q && !(p != q) && !(p < q) && !(p > q) && p <= q && p >= q);
    variant<Own> one(Own((i64)x)), two(one);
    REQUIRE(one.index() == 0 && nanostl::get<0>(two).get() == x && one == two);
    two = Own(y);
    REQUIRE((one < two) == (x < y) && nanostl::get<Own>(one).get() == x);
    REQUIRE(nonstd::variant_size<V>::value == 3 && nonstd::variant_size<Full>::value == 16 && nonstd::variant_size<variant<Own> >::value == 1);
#if __cplusplus >= 201402L
    REQUIRE(nonstd::variant_size_v<V> == 3 && nonstd::variant_size_v<Full> == 16 && (std::is_same<nonstd::variant_alternative_t<1, V>, typename nonstd::variant_alternative<1, V>::type>::value));
#endif
    if (ka && kb) s.nontrivial();
  }
  leaks.done();
}

PROPERTY(partial_orders, 100000, 3000000, "variants compare by == and < of their alternatives, also where these are not two sides of one order") {
  typedef variant<Tie, double, int> V;
  const Tie a = draw_tie(s), b = draw_tie(s);
  const double x = draw_nan(s), y = draw_nan(s);
  const int i = (int)s.below(8), k = i < 4 ? 0 : i < 7 ? 1 : 2, j = s.chance(1, 6) ? (int)s.below(3) : k;
  s.note("alternative %d of (%d %d) %g with alternative %d of (%d %d) %g\n", k, a.k, a.t, x, j, b.k, b.t, y);
  const V u = k == 0 ? V(a) : k == 1 ? V(x) : V(5), v = j == 0 ? V(b) : j == 1 ? V(y) : V(5);
  const bool eq = k == j && (k == 0 ? a == b : k == 1 ? x == y : true);
  const bool lt = k != j ? k < j : k == 0 ? a < b : k == 1 ? x < y : false, gt = k != j ? j < k : k == 0 ? b < a : k == 1 ? y < x : false;
  REQUIRE_MSG((u == v) == eq && (u != v) == !eq, "== or != is wrong");
  REQUIRE_MSG((u < v) == lt && (u > v) == gt, "< or > is wrong");
  if (k != 1 || j != 1) REQUIRE_MSG((u <= v) == !gt && (u >= v) == !lt, "<= or >= is wrong");
  if (k == j && (k == 1 ? x != x || y != y : a.k == b.k && a.t != b.t)) s.nontrivial();
}
