// C09: optional.  Model: engaged or not, and the value.
#define PBT_MAIN
#include "nano_pre.h"
#include "owned.h"
#include "partial.h"
#include "nanooptional.h"
#include "nanofunctional.h"
#include "nanoinitializer_list.h"
using namespace pbt;
using nanostl::optional;

struct M {
  bool has, known;
  i64 v;
};

template <class T>
static void check(const optional<T> &o, const M &m, const char *what, size_t op) {
  REQUIRE_MSG(o.has_value() == m.has, "has_value() is %d after %s (op %zu)", (int)o.has_value(), what, op);
  REQUIRE_MSG(bool(o) == m.has, "bool() is %d after %s (op %zu)", (int)bool(o), what, op);
  REQUIRE((o == nonstd::nullopt) == !m.has && (o != nonstd::nullopt) == m.has && (nonstd::nullopt == o) == !m.has && (nonstd::nullopt != o) == m.has);
  if (!m.has) return;
  const T *p = &*o;
  REQUIRE(p == o.operator->() && p == &o.value());
  REQUIRE_MSG((uintptr_t)p % alignof(T) == 0, "the contained value is misaligned");
  REQUIRE((const char *)p >= (const char *)&o && (const char *)(p + 1) <= (const char *)(&o + 1));
  if (m.known) REQUIRE_MSG(val(*o) == m.v, "value is %lld instead of %lld after %s (op %zu)", (long long)val(*o), (long long)m.v, what, op);
}

// The order of optional values: nothing is less than something.
static int rel(const M &a, const M &b) { return a.has != b.has ? (a.has ? 1 : -1) : !a.has ? 0 : a.v < b.v ? -1 : a.v > b.v; }
template <class A, class B>
static void compare(const A &x, const B &y, int r) {
  REQUIRE_MSG((x == y) == (r == 0) && (x != y) == (r != 0), "== or != is wrong, order is %d", r);
  REQUIRE_MSG((x < y) == (r < 0) && (x > y) == (r > 0), "< or > is wrong, order is %d", r);
  REQUIRE_MSG((x <= y) == (r <= 0) && (x >= y) == (r >= 0), "<= or >= is wrong, order is %d", r);
}

template <class T>
static void history(Src &s) {
  typedef optional<T> O;
  enum { POOL = 3 };
  OwnCheck leaks;
  size_t op = 0, engaged = 0, moves = 0;
  {
    O o[POOL];
    M m[POOL];
    for (int k = 0; k < POOL; k++) m[k].has = false, m[k].known = true, m[k].v = 0;
    while (s.more(22)) {
      op++;
      int a = (int)s.below(POOL), b = (int)s.below(POOL);
      i64 x = s.edgy(-1000000, 1000000);
      const char *name = "";
      M val_x = {true, true, x};
      switch (s.below(18)) {
        case 0:
          name = "= nullopt";
          s.note("o%d = nullopt\n", a);
          o[a] = nonstd::nullopt;
          m[a].has = false;
          break;
        case 1:
          name = "reset";
          s.note("o%d.reset()\n", a);
          o[a].reset();
          m[a].has = false;
          break;
        case 2: {
          name = "copy assignment";
          s.note("o%d = o%d\n", a, b);
          O &r = (o[a] = o[b]);
          REQUIRE(&r == &o[a]);
          m[a] = m[b];
          break;
        }
        case 3: {
          name = "move assignment";
          s.note("o%d = move(o%d)\n", a, b);
          if (a == b) break;
          O &r = (o[a] = nanostl::move(o[b]));
          REQUIRE(&r == &o[a]);
          m[a] = m[b];
          if (m[b].has && !Keeps<T>::value) m[b].known = false;
          moves++;
          break;
        }
        case 4: {
          name = "copy construction";
          s.note("O t(o%d); o%d = t\n", b, a);
          O t(o[b]);
          check(t, m[b], name, op);
          check(o[b], m[b], name, op);
          if (m[b].has && m[b].known) {
            set(*t, x);
            check(o[b], m[b], "changing a copy", op);
            set(*t, m[b].v);
          }
          o[a] = t;
          m[a] = m[b];
          break;
        }
        case 5: {
          name = "move construction";
          s.note("O t(move(o%d)); o%d = move(t)\n", b, a);
          O t(nanostl::move(o[b]));
          check(t, m[b], name, op);
          M mt = m[b];
          if (m[b].has && !Keeps<T>::value) m[b].known = false;
          check(o[b], m[b], name, op);
          o[a] = nanostl::move(t);
          m[a] = mt;
          moves++;
          break;
        }
        case 6: {
          name = "assignment of a value";
          s.note("o%d = T(%lld)\n", a, (long long)x);
          const T v((int)x);
          o[a] = v;
          m[a] = val_x;
          REQUIRE(val(v) == x);
          break;
        }
        case 7:
          name = "assignment of a temporary";
          s.note("o%d = T(%lld)\n", a, (long long)x);
          o[a] = T((int)x);
          m[a] = val_x;
          break;
        case 8: {
          name = "emplace";
          s.note("o%d.emplace(%lld)\n", a, (long long)x);
          T &r = o[a].emplace((int)x);
          m[a] = val_x;
          REQUIRE(&r == &*o[a]);
          break;
        }
        case 9: {
          name = "construction in place";
          s.note("o%d = O(in_place, %lld)\n", a, (long long)x);
          O t(nonstd::in_place, (int)x);
          check(t, val_x, name, op);
          o[a] = nanostl::move(t);
          m[a] = val_x;
          break;
        }
        case 10:
        case 11: {
          name = "swap";
          s.note("swap(o%d, o%d)\n", a, b);
          if (a == b) break;
          if (s.flip()) o[a].swap(o[b]);
          else swap(o[a], o[b]);
          M t = m[a];
          m[a] = m[b];
          m[b] = t;
          moves++;
          break;
        }
        case 12: {
          name = "value_or";
          s.note("o%d.value_or(%lld)\n", a, (long long)x);
          if (m[a].has && !m[a].known) break;
          const O &c = o[a];
          i64 want = m[a].has ? m[a].v : x;
          T d((int)x);
          REQUIRE(val(c.value_or(d)) == want);
          REQUIRE(val(c.value_or((int)x)) == want);
          REQUIRE(val(d) == x);
          check(o[a], m[a], name, op);
          T got(O(o[a]).value_or(T((int)x)));
          REQUIRE(val(got) == want);
          break;
        }
        case 13: {
          name = "write";
          if (!m[a].has) break;
          s.note("o%d holds %lld\n", a, (long long)x);
          switch (s.below(3)) {
            case 0: set(*o[a], x); break;
            case 1: set(o[a].value(), x); break;
            default: set(*o[a].operator->(), x);
          }
          m[a] = val_x;
          break;
        }
        case 14: {
          name = "conversion from another optional type";
          optional<int> i;
          if (s.flip()) i = (int)x;
          s.note("o%d = optional<int>(%s %lld)\n", a, i ? "engaged" : "empty", (long long)x);
          switch (s.below(4)) {
            case 0: o[a] = i; break;
            case 1: o[a] = optional<int>(i); break;
            case 2: {
              O t(i);
              o[a] = t;
              break;
            }
            default: {
              O t((optional<int>(i)));
              o[a] = t;
            }
          }
          if (i) m[a] = val_x;
          else m[a].has = false;
          break;
        }
        case 15: {
          name = "make_optional";
          s.note("o%d = make_optional(%lld)\n", a, (long long)x);
          o[a] = nonstd::make_optional(T((int)x));
          m[a] = val_x;
          break;
        }
        default: {
          name = "comparison";
          if (s.flip() && m[a].has && m[a].known && m[a].v < 900000) {  // make them close
            i64 d = s.range(-1, 1);
            s.note("o%d = T(%lld)\n", b, (long long)(m[a].v + d));
            i64 nv = m[a].v + d;
            o[b] = T((int)nv);
            m[b].has = true, m[b].known = true, m[b].v = nv;
          }
          if ((m[a].has && !m[a].known) || (m[b].has && !m[b].known)) break;
          compare(o[a], o[b], rel(m[a], m[b]));
          compare(o[b], o[a], rel(m[b], m[a]));
          T v((int)(s.flip() ? m[b].v : x));
          M mv = {true, true, val(v)};
          compare(o[a], v, rel(m[a], mv));
          compare(v, o[a], rel(mv, m[a]));
          const O &c = o[a];
          REQUIRE(!(c < nonstd::nullopt) && (c >= nonstd::nullopt) && (nonstd::nullopt <= c) && !(nonstd::nullopt > c));
          REQUIRE((nonstd::nullopt < c) == m[a].has && (c > nonstd::nullopt) == m[a].has);
          REQUIRE((c <= nonstd::nullopt) == !m[a].has && (nonstd::nullopt >= c) == !m[a].has);
          if (m[a].has) s.label("engaged compared");
        }
      }
      if (m[a].has) engaged++;
      long alive = 0;
      for (int k = 0; k < POOL; k++) check(o[k], m[k], name, op), alive += m[k].has;
      if (!Keeps<T>::value) REQUIRE_MSG(Own::live - leaks.o0 == alive, "%ld values alive, %ld engaged, after %s (op %zu)", Own::live - leaks.o0, alive, name, op);
    }
  }
  leaks.done();
  if (op >= 3 && engaged > 1 && moves) s.nontrivial();
}

PROPERTY(owning, 200000, 6000000, "optional<T> of an owning type: engagement and value follow the model, each value is destroyed exactly once") { history<Own>(s); }
PROPERTY(integers, 100000, 3000000, "optional<int>") { history<int>(s); }
PROPERTY(wide, 60000, 2000000, "optional of an over-aligned type") { history<Wide>(s); }

// Move-only payloads and explicit conversions.
struct Only {
  i64 *v;
  explicit Only(i64 x) : v(new i64(x)) {}
  Only(Only &&o) noexcept : v(o.v) { o.v = 0; }
  Only &operator=(Only &&o) noexcept {
    i64 *n = o.v;
    o.v = 0;
    delete v;
    v = n;
    return *this;
  }
  ~Only() { delete v; }
};
struct Meters {
  i64 v;
  explicit Meters(const Own &o) : v(o.get()) {}
};
PROPERTY(move_only, 60000, 2000000, "optional of a move-only type; explicit conversions; rvalue access") {
  OwnCheck leaks;
  {
    i64 x = s.range(-1000, 1000), y = s.range(-1000, 1000);
    bool ex = s.flip(), ey = s.flip();
    s.note("%d %lld, %d %lld\n", ex, (long long)x, ey, (long long)y);
    optional<Only> a, b;
    if (ex) a = Only(x);
    if (ey) b.emplace(y);
    REQUIRE(a.has_value() == ex && b.has_value() == ey);
    a.swap(b);
    REQUIRE(a.has_value() == ey && b.has_value() == ex);
    if (ey) REQUIRE(*a->v == y);
    if (ex) REQUIRE(*b->v == x);
    optional<Only> c(nanostl::move(a));
    REQUIRE(c.has_value() == ey);
    if (ey) REQUIRE(*c->v == y);
    c = nanostl::move(b);
    REQUIRE(c.has_value() == ex);
    if (ex) REQUIRE(*c->v == x);
    if (ex) {
      Only t(nanostl::move(*c));
      REQUIRE(*t.v == x);
      c = nanostl::move(t);
      Only u(nanostl::move(c).value());
      REQUIRE(*u.v == x);
      c = nonstd::nullopt;
      REQUIRE(!c);
    }
    Only d(nanostl::move(c).value_or(Only(y)));
    REQUIRE(*d.v == y);
    optional<Own> o;
    if (ex) o = Own(x);
    optional<Meters> e(o), f((optional<Own>(o)));
    REQUIRE(e.has_value() == ex && f.has_value() == ex && o.has_value() == ex);
    if (ex) REQUIRE(e->v == x && f->v == x && o->get() == x);
    optional<int> i;
    if (ex) i = (int)x;
    optional<long long> w(i);
    REQUIRE(w.has_value() == ex);
    if (ex) REQUIRE(*w == x);
    REQUIRE((w == i) && !(w < i) && (w >= i));
    if (ex && ey) s.nontrivial();
  }
  leaks.done();
}

// Contained bytes of neighbours are untouched: optionals in an array, many of them.
PROPERTY(arrays, 20000, 600000, "optionals in an array are independent of each other") {
  OwnCheck leaks;
  {
    enum { N = 12 };
    optional<Own> o[N];
    optional<signed char> c[N];
    bool has[N] = {false}, hc[N] = {false};
    i64 v[N] = {0};
    size_t n = 0;
    while (s.more(30)) {
      int k = (int)s.below(N);
      i64 x = s.range(-100, 100);
      n++;
      if (s.flip()) {
        s.note("o[%d] = c[%d] = %lld\n", k, k, (long long)x);
        o[k] = Own(x);
        c[k] = (signed char)x;
        has[k] = hc[k] = true;
        v[k] = x;
      } else {
        s.note("o[%d], c[%d] reset\n", k, k);
        o[k].reset();
        c[k] = nonstd::nullopt;
        has[k] = hc[k] = false;
      }
      for (int i = 0; i < N; i++) {
        REQUIRE(o[i].has_value() == has[i] && c[i].has_value() == hc[i]);
        if (has[i]) REQUIRE(o[i]->get() == v[i] && *c[i] == v[i]);
      }
    }
    if (n > 3) s.nontrivial();
  }
  leaks.done();
}

// Arguments reach the constructor as they were given: lvalues as lvalues, temporaries as temporaries.
typedef optional<Rec> ORec;
static ORec in_place_rec(Arg &a, int how, int &w, const int &c) {
  const Arg &ca = a;
  nanostl::initializer_list<int> none;
  switch (how) {
    case 1: return ORec(nonstd::in_place, a, w, c);
    case 2: return ORec(nonstd::in_place, ca, w, c);
    case 3: return ORec(nonstd::in_place, nanostl::move(a), w, c);
    default: return ORec(nonstd::in_place, none, nanostl::move(a), w, c);
  }
}
static ORec make_rec(Arg &a, int how, int &w, const int &c) {
  const Arg &ca = a;
  nanostl::initializer_list<int> none;
  switch (how) {
    case 1: return nonstd::make_optional<Rec>(a, w, c);
    case 2: return nonstd::make_optional<Rec>(ca, w, c);
    case 3: return nonstd::make_optional<Rec>(nanostl::move(a), w, c);
    default: return nonstd::make_optional<Rec>(none, nanostl::move(a), w, c);
  }
}
PROPERTY(arguments, 150000, 4000000, "in_place construction, emplace and make_optional pass every argument on as it was given") {
  OwnCheck leaks;
  {
    i64 x = s.edgy(-100000, 100000);
    int how = 1 + (int)s.below(4), w = 0;
    const int c = 0;
    Arg a(x);
    const Arg &ca = a;
    nanostl::initializer_list<int> none;
    bool engaged = s.flip();
    int via = (int)s.below(3);
    s.note("%s, argument kind %d, value %lld\n", via == 0 ? "in_place" : via == 1 ? "make_optional" : engaged ? "emplace over a value" : "emplace", how, (long long)x);
    if (via == 0) {
      ORec o(in_place_rec(a, how, w, c));
      REQUIRE(o.has_value());
      check_rec(*o, x, how, &w, &c, a);
    } else if (via == 1) {
      ORec o(make_rec(a, how, w, c));
      REQUIRE(o.has_value());
      check_rec(*o, x, how, &w, &c, a);
    } else {
      ORec o;
      Arg b(5);
      if (engaged) o.emplace(b, w, c);
      Rec *r = 0;
      switch (how) {
        case 1: r = &o.emplace(a, w, c); break;
        case 2: r = &o.emplace(ca, w, c); break;
        case 3: r = &o.emplace(nanostl::move(a), w, c); break;
        default: r = &o.emplace(none, nanostl::move(a), w, c);
      }
      REQUIRE(o.has_value() && r == &*o);
      check_rec(*o, x, how, &w, &c, a);
    }
    if (x) s.nontrivial();
  }
  leaks.done();
}

PROPERTY(value_categories, 150000, 4000000, "values given as lvalues are copied, as temporaries moved; rvalue access hands the value out") {
  OwnCheck leaks;
  {
    i64 x = s.range(-1000, 1000), y = s.range(-1000, 1000);
    bool engaged = s.flip();
    int how = (int)s.below(14);
    s.note("way %d, %lld, %s %lld\n", how, (long long)x, engaged ? "engaged with" : "empty, not", (long long)y);
    Own v(x);
    const Own cv(x);
    optional<Own> o;
    if (engaged) o = Own(y);
    const i64 gone = Own(x).get() + 1;  // v keeps x unless moved from
    (void)gone;
    bool moved = false;
    switch (how) {
      case 0: o = v; break;
      case 1: o = cv; break;
      case 2: o = nanostl::move(v); moved = true; break;
      case 3: o = optional<Own>(v); break;
      case 4: o = optional<Own>(cv); break;
      case 5: o = optional<Own>(nanostl::move(v)); moved = true; break;
      case 6: o = nonstd::make_optional(v); break;
      case 7: o = nonstd::make_optional(cv); break;
      case 8: o = nonstd::make_optional(nanostl::move(v)); moved = true; break;
      case 9: o.emplace(v); break;
      case 10: o.emplace(nanostl::move(v)); moved = true; break;
      case 11: {  // its own value
        o = v;
        o = *o;
        o = o;
        const optional<Own> &c = o;
        o = c;
        o = c.value();
        break;
      }
      case 12: {
        optional<Own> t(v);
        const optional<Own> ct(t);
        o = t;
        REQUIRE(t->get() == x);
        o = nonstd::nullopt;
        o = ct;
        REQUIRE(ct->get() == x);
        break;
      }
      default: {
        o = nonstd::nullopt;
        optional<Own> t(nanostl::move(v));
        o = nanostl::move(t);
        REQUIRE(t.has_value());
        moved = true;
      }
    }
    REQUIRE(o.has_value() && o->get() == x && (*o).get() == x && o.value().get() == x);
    REQUIRE(cv.get() == x);
    if (!moved) REQUIRE_MSG(v.get() == x, "an lvalue was changed");
    else REQUIRE_MSG(v.v == 0, "a temporary was copied instead of moved");
    // access
    const optional<Own> &c = o;
    REQUIRE(val(c.value_or(Own(y))) == x && val(*c) == x && val(c.value()) == x && c->get() == x);
    int out = (int)s.below(5);
    const Own d(y);
    bool empty = s.chance(1, 4);
    if (empty) o.reset();
    i64 want = empty ? y : x;
    if (out == 0) {
      Own g(nanostl::move(o).value_or(d));
      REQUIRE(g.get() == want);
    } else if (out == 1) {
      Own g(o.value_or(d));
      REQUIRE(g.get() == want);
      if (!empty) REQUIRE(o->get() == x);
    } else if (out == 2) {
      Own e(y), g(o.value_or(nanostl::move(e)));
      REQUIRE(g.get() == want && (empty ? e.v == 0 : e.get() == y));
      if (!empty) REQUIRE(o->get() == x);
    } else if (out == 3 && !empty) {
      Own g(*nanostl::move(o));
      REQUIRE(g.get() == x && o.has_value() && o->v == 0);
    } else if (!empty) {
      Own g(nanostl::move(o).value());
      REQUIRE(g.get() == x && o.has_value() && o->v == 0);
    }
    REQUIRE(d.get() == y && o.has_value() == !empty);
    if (x != y) s.nontrivial();
  }
  leaks.done();
}

// Optionals of values that are themselves empty, false, null or optional.
template <class T>
static void falsy(const T &zero, const T &other) {
  optional<T> e, z(zero), o(other);
  REQUIRE_MSG(!e && z && o, "engagement was taken from the value");
  REQUIRE(z.has_value() && *z == zero && *o == other && !(*z == other));
  REQUIRE(e != z && e < z && z > e && z == zero && zero == z && e != zero && z != other);
  e = zero;
  REQUIRE(e && *e == zero && e == z);
  z = nonstd::nullopt;
  REQUIRE(!z && z != zero);
  z = o;
  REQUIRE(z && *z == other && z == o);
  e.swap(z);
  REQUIRE(*e == other && *z == zero);
  REQUIRE(z.value_or(other) == zero);
  z.reset();
  REQUIRE(z.value_or(other) == other);
  optional<T> c(e), m(nanostl::move(c));
  REQUIRE(c && m && *m == other);
  const optional<const T> k(zero);
  REQUIRE(k && *k == zero);
  optional<const T> n;
  REQUIRE(!n && n.value_or(other) == other);
}
enum Color { RED, GREEN = 1000 };
PROPERTY(falsy_values, 100000, 3000000, "optional<T> of bool, pointers, floats, enums and other optionals: an engaged optional may hold zero") {
  static int target;
  i64 x = s.edgy(1, 1000000);
  int which = (int)s.below(9);
  s.note("type %d, %lld\n", which, (long long)x);
  switch (which) {
    case 0: falsy<bool>(false, true); break;
    case 1: falsy<int *>(0, &target); break;
    case 2: falsy<float>(0.0f, (float)x); break;
    case 3: falsy<double>(0.0, (double)x); break;
    case 4: falsy<char>(0, (char)(1 + x % 100)); break;
    case 5: falsy<unsigned long long>(0, (unsigned long long)x << 40); break;
    case 6: falsy<Color>(RED, GREEN); break;
    case 7: falsy<Own>(Own(0), Own(x)); break;
    default: falsy<short>(0, (short)(1 + x % 30000)); break;
  }
  optional<optional<int> > oo;
  REQUIRE(!oo);
  oo = optional<int>();
  REQUIRE(oo && !*oo);
  oo = optional<int>((int)x);
  REQUIRE(oo && *oo && **oo == (int)x && oo->value() == (int)x);
  *oo = nonstd::nullopt;
  REQUIRE(oo && !*oo);
  oo.reset();
  REQUIRE(!oo);
  if (which) s.nontrivial();
}

// Comparisons are those of the contained values, whatever these mean by == and <.
template <class T>
static void optional_as_values(const optional<T> &x, const optional<T> &y) {
  const bool eq = x && y ? *x == *y : !x && !y, lt = x && y ? *x < *y : !x && y, gt = x && y ? *y < *x : x && !y;
  REQUIRE_MSG((x == y) == eq && (x != y) == !eq, "== or != is wrong");
  REQUIRE_MSG((x < y) == lt && (x > y) == gt, "< or > is wrong");
  if (y) {
    const T &v = *y;
    REQUIRE_MSG((x == v) == eq && (v == x) == eq && (x != v) == !eq && (v != x) == !eq, "== or != with a value is wrong");
    REQUIRE_MSG((x < v) == lt && (v < x) == gt && (x > v) == gt && (v > x) == lt, "< or > with a value is wrong");
  }
}
PROPERTY(partial_orders, 150000, 4000000, "optionals compare by == and < of their values, also where these are not two sides of one order") {
  const Tie a = draw_tie(s), b = draw_tie(s);
  const double x = draw_nan(s), y = draw_nan(s);
  const bool e = !s.chance(1, 8), f = !s.chance(1, 8);
  s.note("(%d %d) %g %s with (%d %d) %g %s\n", a.k, a.t, x, e ? "engaged" : "empty", b.k, b.t, y, f ? "engaged" : "empty");
  optional<Tie> p, q;
  optional<double> u, v;
  if (e) p = a, u = x;
  if (f) q = b, v = y;
  optional_as_values(p, q);
  optional_as_values(u, v);
  const bool lt = e && f ? a < b : f && !e, gt = e && f ? b < a : e && !f;
  REQUIRE_MSG((p <= q) == !gt && (p >= q) == !lt, "<= or >= is wrong");
  if (e && f && (x != x || y != y || (a.k == b.k && a.t != b.t))) s.nontrivial();
}

// A value that starts as something else than zero, so that emplacing nothing shows.
struct Fresh {
  Own o;
  int k;
  Fresh() : o(77), k(-7) {}
  explicit Fresh(int k_) : o(k_), k(k_) {}
  Fresh(int k_, const Own &o_) : o(o_), k(k_) {}
  Fresh(const char *, int k_, int d = 4) : o(d), k(k_) {}
};
PROPERTY(emplace_forms, 100000, 3000000, "emplace and in_place with no, one, two and three arguments make a new value each time, also over a value") {
  OwnCheck leaks;
  {
    optional<Fresh> o;
    optional<int> n;
    optional<const int> c;
    size_t op = 0, over = 0;
    while (s.more(6)) {
      const int x = (int)s.edgy(-100000, 100000), how = (int)s.below(7);
      over += o.has_value();
      op++;
      s.note("form %d with %d over %s\n", how, x, o ? "a value" : "nothing");
      i64 w = 0;
      int k = x;
      switch (how) {
        case 0: o.emplace(), w = 77, k = -7; break;
        case 1: o.emplace(x), w = x; break;
        case 2: o.emplace(x, Own(9)), w = 9; break;
        case 3: o.emplace("", x), w = 4; break;
        case 4: o.emplace("", x, 6), w = 6; break;
        case 5: o = optional<Fresh>(nonstd::in_place), w = 77, k = -7; break;
        default: o.reset(), n.reset();
      }
      REQUIRE(o.has_value() == (how != 6));
      if (o) REQUIRE_MSG(o->o.get() == w && o->k == k, "value is (%lld, %d) instead of (%lld, %d)", (long long)o->o.get(), o->k, (long long)w, k);
      if (how == 6) continue;
      if (how & 1) {
        REQUIRE(n.emplace() == 0 && n && *n == 0);
        REQUIRE(c.emplace() == 0 && *c == 0);
      } else {
        REQUIRE(n.emplace(x) == x && *n == x);
        REQUIRE(c.emplace(x) == x && *c == x);
      }
    }
    if (op > 1 && over) s.nontrivial();
  }
  leaks.done();
}
