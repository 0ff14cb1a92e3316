// C40: expected.  Model: value or error, and its content.
#define PBT_MAIN
#include "nano_pre.h"
#include "owned.h"
#include "partial.h"
#include "expected_pre.h"
#include "nanofunctional.h"
#include "nanoinitializer_list.h"
using namespace pbt;
using nanostl::expected;
using nonstd::make_unexpected;
using nonstd::unexpect;
using nonstd::unexpected_type;
template <class E>
struct Bad {
  typedef nonstd::expected_lite::bad_expected_access<E> type;
};

struct M {
  bool has, known;
  i64 v;  // value or error
};

template <class X>
static void content(const X *p, const M &m, const void *o, size_t n, const char *what, size_t op) {
  REQUIRE_MSG((uintptr_t)p % alignof(X) == 0, "the content is misaligned");
  REQUIRE_MSG((const char *)p >= (const char *)o && (const char *)(p + 1) <= (const char *)o + n, "the content lies outside the object");
  if (m.known) REQUIRE_MSG(val(*p) == m.v, "%s is %lld instead of %lld after %s (op %zu)", m.has ? "value" : "error", (long long)val(*p), (long long)m.v, what, op);
}

// Access to the value throws the error if there is no value.
template <class T, class E>
static void check(const expected<T, E> &o, const M &m, const char *what, size_t op) {
  REQUIRE_MSG(o.has_value() == m.has && bool(o) == m.has, "has_value() is %d and bool() %d after %s (op %zu)", (int)o.has_value(), (int)bool(o), what, op);
  if (m.has) {
    const T *p = &*o;
    REQUIRE(p == o.operator->() && p == &o.value());
    content(p, m, &o, sizeof o, what, op);
  } else {
    content(&o.error(), m, &o, sizeof o, what, op);
    if (m.known && op % 16 == 5) {
      bool thrown = false;
      try {
        (void)o.value();
      } catch (const typename Bad<E>::type &e) {
        thrown = true;
        REQUIRE_MSG(val(e.error()) == m.v, "the exception carries %lld, the error is %lld", (long long)val(e.error()), (long long)m.v);
      }
      REQUIRE_MSG(thrown, "value() of an error does not throw");
    }
  }
}

template <class A, class B>
static void compare(const A &x, const B &y, bool eq) {
  REQUIRE_MSG((x == y) == eq && (x != y) == !eq, "== is %d, != is %d, should be %d and %d", (int)(x == y), (int)(x != y), (int)eq, (int)!eq);
}

template <class T>
struct Counted {
  enum { value = 0 };
};
template <>
struct Counted<Own> {
  enum { value = 1 };
};
template <class T, class E>
static bool keeps(bool has) { return has ? (bool)Keeps<T>::value : (bool)Keeps<E>::value; }

template <class T, class E>
static void history(Src &s) {
  typedef expected<T, E> X;
  enum { POOL = 3 };
  OwnCheck leaks;
  size_t op = 0, errors = 0, values = 0, moves = 0;
  {
    X o[POOL];
    M m[POOL];
    for (int k = 0; k < POOL; k++) {
      m[k].has = true, m[k].known = true, m[k].v = 0;
      check(o[k], m[k], "default construction", 0);
    }
    while (s.more(22)) {
      op++;
      const int a = (int)s.below(POOL), b = (int)s.below(POOL);
      const i64 x = s.edgy(-1000000, 1000000);
      const char *name = "";
      const M V = {true, true, x}, U = {false, true, x};
      switch (s.below(17)) {
        case 0: {
          name = "assignment of a value";
          s.note("x%d = T(%lld)\n", a, (long long)x);
          const T v((int)x);
          X &r = (o[a] = v);
          REQUIRE(&r == &o[a] && val(v) == x);
          m[a] = V;
          break;
        }
        case 1:
          name = "assignment of a temporary";
          s.note("x%d = T(%lld) as a temporary\n", a, (long long)x);
          o[a] = T((int)x);
          m[a] = V;
          break;
        case 2: {
          name = "assignment of an error";
          s.note("x%d = unexpected(%lld)\n", a, (long long)x);
          const E e((int)x);
          if (s.flip()) {
            X &r = (o[a] = make_unexpected(e));
            REQUIRE(&r == &o[a]);
          } else {
            const unexpected_type<E> u(e);
            X &r = (o[a] = u);
            REQUIRE(&r == &o[a] && val(u.value()) == x);
          }
          REQUIRE(val(e) == x);
          m[a] = U;
          break;
        }
        case 3: {
          name = "construction of an error";
          s.note("x%d = X(unexpected(%lld))\n", a, (long long)x);
          unexpected_type<E> u((E((int)x)));
          const unexpected_type<E> c(u);
          X p(u), q(c), r(unexpect, (int)x), t((unexpected_type<E>(u)));
          check(p, U, name, op), check(q, U, name, op), check(r, U, name, op), check(t, U, name, op);
          REQUIRE(val(u.value()) == x && val(c.value()) == x);
          o[a] = nanostl::move(t);
          m[a] = U;
          break;
        }
        case 4: {
          name = "copy assignment";
          s.note("x%d = x%d\n", a, b);
          X &r = (o[a] = o[b]);
          REQUIRE(&r == &o[a]);
          m[a] = m[b];
          break;
        }
        case 5: {
          name = "move assignment";
          s.note("x%d = move(x%d)\n", a, b);
          if (a == b) break;
          X &r = (o[a] = nanostl::move(o[b]));
          REQUIRE(&r == &o[a]);
          m[a] = m[b];
          if (!keeps<T, E>(m[b].has)) m[b].known = false;
          moves++;
          break;
        }
        case 6: {
          name = "copy construction";
          s.note("X t(x%d); x%d = t\n", b, a);
          X t(o[b]);
          check(t, m[b], name, op);
          check(o[b], m[b], name, op);
          if (m[b].known) {
            if (m[b].has) set(*t, x);
            else set(t.error(), x);
            check(o[b], m[b], "changing a copy", op);
            if (m[b].has) set(*t, m[b].v);
            else set(t.error(), m[b].v);
          }
          o[a] = t;
          m[a] = m[b];
          break;
        }
        case 7: {
          name = "move construction";
          s.note("X t(move(x%d)); x%d = move(t)\n", b, a);
          X t(nanostl::move(o[b]));
          check(t, m[b], name, op);
          const M mt = m[b];
          if (!keeps<T, E>(m[b].has)) m[b].known = false;
          check(o[b], m[b], name, op);
          o[a] = nanostl::move(t);
          m[a] = mt;
          moves++;
          break;
        }
        case 8: {
          name = "emplace";
          s.note("x%d.emplace(%lld)\n", a, (long long)x);
          T &r = o[a].emplace((int)x);
          m[a] = V;
          REQUIRE(&r == &*o[a]);
          break;
        }
        case 9: {
          name = "construction in place";
          s.note("x%d = X(in_place, %lld)\n", a, (long long)x);
          X t(nonstd::in_place, (int)x);
          check(t, V, name, op);
          o[a] = nanostl::move(t);
          m[a] = V;
          break;
        }
        case 10:
        case 11: {
          name = "swap";
          s.note("swap(x%d, x%d)\n", a, b);
          if (a == b) break;
          if (s.flip()) o[a].swap(o[b]);
          else swap(o[a], o[b]);
          const M t = m[a];
          m[a] = m[b];
          m[b] = t;
          moves++;
          break;
        }
        case 12: {
          name = "value_or";
          s.note("x%d.value_or(%lld)\n", a, (long long)x);
          if (m[a].has && !m[a].known) break;
          const X &c = o[a];
          const i64 want = m[a].has ? m[a].v : x;
          const T d((int)x);
          REQUIRE(val(c.value_or(d)) == want);
          REQUIRE(val(c.value_or((int)x)) == want);
          REQUIRE(val(d) == x);
          check(o[a], m[a], name, op);
          T got(X(o[a]).value_or(T((int)x)));
          REQUIRE(val(got) == want);
          break;
        }
        case 13: {
          name = "write";
          s.note("x%d holds %lld\n", a, (long long)x);
          if (!m[a].has) set(o[a].error(), x);
          else {
            switch (s.below(3)) {
              case 0: set(*o[a], x); break;
              case 1: set(o[a].value(), x); break;
              default: set(*o[a].operator->(), x);
            }
          }
          m[a].known = true, m[a].v = x;
          break;
        }
        case 14: {
          name = "conversion";
          const bool has = s.flip();
          s.note("x%d = X(expected<int, int>(%s %lld))\n", a, has ? "value" : "error", (long long)x);
          expected<int, int> i((int)x);
          if (!has) i = make_unexpected((int)x);
          const expected<int, int> &c = i;
          if (s.flip()) {
            X t(c);
            o[a] = nanostl::move(t);
          } else {
            o[a] = X(expected<int, int>(i));
          }
          REQUIRE(i.has_value() == has && (has ? *i : i.error()) == (int)x);
          m[a] = has ? V : U;
          break;
        }
        default: {
          name = "comparison";
          if (s.flip() && m[a].known && m[a].v < 900000) {  // make them close
            const i64 nv = m[a].v + s.range(-1, 1);
            const bool has = s.chance(3, 4) ? m[a].has : !m[a].has;
            s.note("x%d = %s %lld\n", b, has ? "value" : "error", (long long)nv);
            const bool same = a == b;
            if (has) o[b] = X(T((int)nv));
            else o[b] = X(unexpect, (int)nv);
            m[b].has = has, m[b].known = true, m[b].v = nv;
            (void)same;
          }
          if (!m[a].known || !m[b].known) break;
          const bool eq = m[a].has == m[b].has && m[a].v == m[b].v;
          compare(o[a], o[b], eq);
          compare(o[b], o[a], eq);
          const T v((int)(s.flip() ? m[b].v : x));
          compare(o[a], v, m[a].has && m[a].v == val(v));
          compare(v, o[a], m[a].has && m[a].v == val(v));
          const unexpected_type<E> u(E((int)(s.flip() ? m[b].v : x)));
          compare(o[a], u, !m[a].has && m[a].v == val(u.value()));
          compare(u, o[a], !m[a].has && m[a].v == val(u.value()));
          if (!m[a].has) {
            REQUIRE(val(o[a].get_unexpected().value()) == m[a].v);
            compare(o[a].get_unexpected(), u, m[a].v == val(u.value()));
          }
          s.label("compared");
        }
      }
      long alive = 0;
      for (int k = 0; k < POOL; k++) {
        check(o[k], m[k], name, op);
        alive += m[k].has ? Counted<T>::value : Counted<E>::value;
        (m[k].has ? values : errors)++;
      }
      REQUIRE_MSG(Own::live - leaks.o0 == alive, "%ld objects alive, %ld contained, after %s (op %zu)", Own::live - leaks.o0, alive, name, op);
    }
  }
  leaks.done();
  if (op >= 3 && errors && values && moves) s.nontrivial();
}
PROPERTY(owning, 150000, 5000000, "expected<T, E> of owning types: which one it is, content and lifetimes follow the model") { history<Own, Own>(s); }
PROPERTY(owning_value, 80000, 3000000, "expected<T, int> of an owning type") { history<Own, int>(s); }
PROPERTY(owning_error, 80000, 3000000, "expected<int, E> with an owning error type") { history<int, Own>(s); }
PROPERTY(integers, 60000, 2000000, "expected<int, int>") { history<int, int>(s); }
PROPERTY(wide, 60000, 2000000, "expected with over-aligned value or error types") {
  if (s.flip()) history<Wide, Own>(s);
  else history<Own, Wide>(s);
}

// No value, only success.
PROPERTY(success_or_error, 80000, 2000000, "expected<void, E>: success or an error, which follows the model") {
  typedef expected<void, Own> X;
  enum { POOL = 3 };
  OwnCheck leaks;
  size_t op = 0, errors = 0, good = 0;
  {
    X o[POOL];
    M m[POOL];
    for (int k = 0; k < POOL; k++) m[k].has = m[k].known = true, m[k].v = 0;
    while (s.more(20)) {
      op++;
      const int a = (int)s.below(POOL), b = (int)s.below(POOL);
      const i64 x = s.edgy(-1000000, 1000000);
      const M V = {true, true, 0}, U = {false, true, x};
      const char *name = "";
      switch (s.below(10)) {
        case 0:
          name = "emplace";
          s.note("x%d.emplace()\n", a);
          o[a].emplace();
          m[a] = V;
          break;
        case 1:
        case 2: {
          name = "an error";
          s.note("x%d = unexpected(%lld)\n", a, (long long)x);
          const Own e(x);
          const unexpected_type<Own> u(e);
          switch (s.below(4)) {
            case 0: o[a] = X(unexpect, (int)x); break;
            case 1: o[a] = make_unexpected(e); break;
            case 2: o[a] = u; break;
            default: o[a] = X(make_unexpected(Own(x)));
          }
          REQUIRE(e.get() == x && u.value().get() == x);
          m[a] = U;
          break;
        }
        case 3: {
          name = "copy assignment";
          s.note("x%d = x%d\n", a, b);
          X &r = (o[a] = o[b]);
          REQUIRE(&r == &o[a]);
          m[a] = m[b];
          break;
        }
        case 4: {
          name = "move assignment";
          s.note("x%d = move(x%d)\n", a, b);
          if (a == b) break;
          o[a] = nanostl::move(o[b]);
          m[a] = m[b];
          if (!m[b].has) m[b].known = false;
          break;
        }
        case 5: {
          name = "copy construction";
          s.note("X t(x%d); x%d = t\n", b, a);
          X t(o[b]);
          REQUIRE(t.has_value() == m[b].has);
          if (!m[b].has && m[b].known) {
            REQUIRE(t.error().get() == m[b].v);
            set(t.error(), x);
            REQUIRE(o[b].error().get() == m[b].v);
            set(t.error(), m[b].v);
          }
          o[a] = t;
          m[a] = m[b];
          break;
        }
        case 6: {
          name = "move construction";
          s.note("X t(move(x%d)); x%d = move(t)\n", b, a);
          X t(nanostl::move(o[b]));
          const M mt = m[b];
          REQUIRE(t.has_value() == mt.has);
          if (!m[b].has) m[b].known = false;
          o[a] = nanostl::move(t);
          m[a] = mt;
          break;
        }
        case 7:
        case 8: {
          name = "swap";
          s.note("swap(x%d, x%d)\n", a, b);
          if (a == b) break;
          o[a].swap(o[b]);
          const M t = m[a];
          m[a] = m[b];
          m[b] = t;
          break;
        }
        default: {
          name = "comparison";
          if (!m[a].known || !m[b].known) break;
          const bool eq = m[a].has == m[b].has && (m[a].has || m[a].v == m[b].v);
          compare(o[a], o[b], eq);
          const unexpected_type<Own> u(Own(s.flip() && !m[a].has ? m[a].v : x));
          const bool equ = !m[a].has && m[a].v == u.value().get();
          compare(o[a], u, equ);
          compare(u, o[a], equ);
        }
      }
      long alive = 0;
      for (int k = 0; k < POOL; k++) {
        REQUIRE_MSG(o[k].has_value() == m[k].has && bool(o[k]) == m[k].has, "has_value() is %d after %s (op %zu)", (int)o[k].has_value(), name, op);
        if (m[k].has) o[k].value(), good++;
        else {
          alive++, errors++;
          if (m[k].known) REQUIRE_MSG(o[k].error().get() == m[k].v, "error is %lld instead of %lld after %s (op %zu)", (long long)o[k].error().get(), (long long)m[k].v, name, op);
          if (op % 16 != 5) continue;
          bool thrown = false;
          try {
            o[k].value();
          } catch (const Bad<Own>::type &e) {
            thrown = true;
            if (m[k].known) REQUIRE(e.error().get() == m[k].v);
          }
          REQUIRE_MSG(thrown, "value() of an error does not throw");
        }
      }
      REQUIRE_MSG(Own::live - leaks.o0 == alive, "%ld errors alive, %ld contained, after %s (op %zu)", Own::live - leaks.o0, alive, name, op);
    }
  }
  leaks.done();
  if (op >= 3 && errors && good) s.nontrivial();
}

// Types that can only be moved, and types that convert only explicitly.
struct Only {
  i64 *v;
  explicit Only(i64 x) noexcept : v(new i64(x)) {}
  Only(Only &&o) noexcept : v(o.v) { o.v = 0; }
  Only &operator=(Only &&o) noexcept {
    i64 *n = o.v;
    o.v = 0;
    delete v;
    v = n;
    return *this;
  }
  ~Only() { delete v; }
};
struct Meters {
  i64 v;
  explicit Meters(const Own &o) : v(o.get()) {}
  explicit Meters(Own &&o) : v(o.get()) { o = Own(-1); }
};
PROPERTY(move_only, 100000, 3000000, "move-only values and errors; explicit conversions; rvalue access") {
  OwnCheck leaks;
  {
    const i64 x = s.range(-1000, 1000), y = s.range(-1000, 1000);
    const bool ex = s.flip(), ey = s.flip();
    s.note("%s %lld, %s %lld\n", ex ? "value" : "error", (long long)x, ey ? "value" : "error", (long long)y);
    typedef expected<Only, Only> X;
    X a(unexpect, x), b(unexpect, y);
    if (ex) a = X(nonstd::in_place, x);
    if (ey) b = X(nonstd::in_place, y);
    REQUIRE(a.has_value() == ex && b.has_value() == ey);
    REQUIRE(*(ex ? a->v : a.error().v) == x && *(ey ? b->v : b.error().v) == y);
    a.swap(b);
    REQUIRE(a.has_value() == ey && b.has_value() == ex);
    REQUIRE(*(ey ? a->v : a.error().v) == y && *(ex ? b->v : b.error().v) == x);
    X c(nanostl::move(a));
    REQUIRE(c.has_value() == ey && a.has_value() == ey);
    REQUIRE(*(ey ? c->v : c.error().v) == y && (ey ? a->v : a.error().v) == 0);
    c = nanostl::move(b);
    REQUIRE(c.has_value() == ex && *(ex ? c->v : c.error().v) == x);
    switch (s.below(3)) {
      case 0:
        if (ex) {
          Only t(nanostl::move(*c));
          REQUIRE(*t.v == x && c.has_value() && c->v == 0);
          Only u(nanostl::move(t));
          c = X(nonstd::in_place, nanostl::move(u));
          expected<Only, int> k(nonstd::in_place, x);
          Only w(nanostl::move(k).value());
          REQUIRE(*w.v == x && k.has_value() && k->v == 0);
          c = X(nonstd::in_place, x);
          Only z(*nanostl::move(c));
          REQUIRE(*z.v == x && c->v == 0);
        } else {
          Only t(nanostl::move(c).error());
          REQUIRE(*t.v == x && !c.has_value() && c.error().v == 0);
          c = make_unexpected(nanostl::move(t));
          REQUIRE(t.v == 0 && *c.error().v == x);
          unexpected_type<Only> u(unexpected_type<Only>(nanostl::move(c.error())));
          REQUIRE(*u.value().v == x);
          c = nanostl::move(u);
          REQUIRE(*c.error().v == x);
        }
        break;
      default: {
        Only d(nanostl::move(c).value_or(Only(y)));
        REQUIRE(*d.v == (ex ? x : y));
      }
    }
    expected<Own, Own> o(unexpect, (int)x);
    if (ex) o = Own(x);
    expected<Meters, Meters> e(o), f((expected<Own, Own>(o)));
    REQUIRE(e.has_value() == ex && f.has_value() == ex && o.has_value() == ex);
    REQUIRE((ex ? e->v : e.error().v) == x && (ex ? f->v : f.error().v) == x && (ex ? o->get() : o.error().get()) == x);
    const unexpected_type<Own> un((Own(x)));
    expected<int, Meters> g(un), h((unexpected_type<Own>(un)));
    REQUIRE(!g && g.error().v == x && !h && h.error().v == x && un.value().get() == x);
    unexpected_type<Meters> um(un), uv((unexpected_type<Own>(un)));
    REQUIRE(um.value().v == x && uv.value().v == x && un.value().get() == x);
    expected<int, short> i((int)x);
    if (!ex) i = make_unexpected((short)x);
    expected<long long, int> w(i);
    const expected<double, double> v(i);
    REQUIRE(w.has_value() == ex && v.has_value() == ex);
    REQUIRE((ex ? *w : w.error()) == x && (ex ? *v : v.error()) == x);
    compare(w, i, true);
    compare(i, v, true);
    if (ex != ey && x != y) s.nontrivial();
  }
  leaks.done();
}

// Conversions keep values and errors of every width.
struct Exact {
  long double v;
  Exact(long double x) : v(x) {}
};
struct ExactX {
  long double v;
  explicit ExactX(long double x) : v(x) {}
};
template <class T, class E, class U, class G>
static void convert(bool has, U u, G g) {
  expected<U, G> o(unexpect, g);
  if (has) o = u;
  const expected<U, G> &c = o;
  expected<T, E> l(o), k(c), r((expected<U, G>(c))), x((expected<U, G>(o)));
  const expected<T, E> *all[] = {&l, &k, &r, &x};
  for (int i = 0; i < 4; i++) {
    REQUIRE_MSG(all[i]->has_value() == has, "a conversion changed what is held");
    if (has) REQUIRE((**all[i]).v == (long double)u);
    else REQUIRE(all[i]->error().v == (long double)g);
  }
  if (!has) {
    const unexpected_type<G> un(g);
    expected<T, E> a(un), b((unexpected_type<G>(g)));
    expected<void, E> v(un), w((unexpected_type<G>(g)));
    unexpected_type<E> p(un), q((unexpected_type<G>(g)));
    REQUIRE(!a && !b && !v && !w);
    REQUIRE(a.error().v == (long double)g && b.error().v == (long double)g && v.error().v == (long double)g && w.error().v == (long double)g);
    REQUIRE(p.value().v == (long double)g && q.value().v == (long double)g);
    b = un;
    v = expected<void, E>(un);
    REQUIRE(b.error().v == (long double)g && v.error().v == (long double)g);
    p = unexpected_type<E>(E(0));
    p = un;
    REQUIRE(p.value().v == (long double)g);
    p = unexpected_type<E>(E(0));
    p = unexpected_type<G>(g);
    REQUIRE(p.value().v == (long double)g);
  }
}
template <class U, class G>
static void convert_all(bool has, U u, G g) {
  convert<Exact, Exact>(has, u, g);
  convert<ExactX, ExactX>(has, u, g);
  convert<ExactX, Exact>(has, u, g);
  convert<Exact, ExactX>(has, u, g);
}
PROPERTY(conversions, 100000, 3000000, "implicit and explicit conversions between expecteds and unexpecteds keep the content exactly") {
  const bool has = s.flip();
  const i64 x = s.edgy(INT64_MIN, INT64_MAX), y = s.edgy(INT64_MIN, INT64_MAX);
  const int kind = (int)s.below(5);
  s.note("kind %d, %s, %lld or %lld\n", kind, has ? "value" : "error", (long long)x, (long long)y);
  switch (kind) {
    case 0: convert_all<long long, long long>(has, x, y); break;
    case 1: convert_all<unsigned long long, unsigned char>(has, (u64)x, (unsigned char)y); break;
    case 2: convert_all<int, unsigned long long>(has, (int)x, (u64)y); break;
    case 3: convert_all<double, float>(has, (double)x, (float)y); break;
    default: convert_all<float, double>(has, (float)x / 3, (double)y / 3);
  }
  if (x != y) s.nontrivial();
}

// The error by itself.
PROPERTY(unexpected_values, 100000, 3000000, "unexpected_type holds what it was given: construction, assignment, conversion, swap, comparison, make_unexpected") {
  OwnCheck leaks;
  {
    typedef unexpected_type<Own> U;
    i64 x = s.range(-1000, 1000), y = s.chance(1, 3) ? x : s.range(-1000, 1000);
    s.note("%lld %lld\n", (long long)x, (long long)y);
    Own v(x);
    const Own cv(y);
    U a(v), b(cv), t((Own(x)));
    REQUIRE(v.get() == x && cv.get() == y && a.value().get() == x && b.value().get() == y && t.value().get() == x);
    compare(a, b, x == y);
    compare(b, a, x == y);
    a.swap(b);
    REQUIRE(a.value().get() == y && b.value().get() == x);
    swap(a, b);
    REQUIRE(a.value().get() == x && b.value().get() == y);
    U c(a), d(nanostl::move(t));
    REQUIRE(c.value().get() == x && a.value().get() == x && d.value().get() == x);
    set(c.value(), y);
    REQUIRE(a.value().get() == x && c.value().get() == y);
    a = c;
    REQUIRE(a.value().get() == y && c.value().get() == y);
    a = nanostl::move(d);
    REQUIRE(a.value().get() == x);
    const U &ca = a;
    REQUIRE(ca.value().get() == x && &ca.value() == &a.value());
    Own out(nanostl::move(a).value());
    REQUIRE(out.get() == x && a.value().v == 0);
    auto l = make_unexpected(v);
    auto r = make_unexpected(nanostl::move(v));
    auto k = make_unexpected(cv);
    REQUIRE((std::is_same<decltype(l), U>::value && std::is_same<decltype(r), U>::value && std::is_same<decltype(k), U>::value));
    REQUIRE(l.value().get() == x && r.value().get() == x && v.v == 0 && k.value().get() == y && cv.get() == y);
    U p(nonstd::in_place, (int)x, 7), q(nonstd::in_place);
    REQUIRE(p.value().get() == x * 1000 + 7 && q.value().get() == 0);
    unexpected_type<short> i((short)x);
    unexpected_type<long long> w(i);
    REQUIRE(w.value() == x);
    compare(w, i, true);
    w = unexpected_type<short>((short)y);
    REQUIRE(w.value() == y);
    compare(w, i, x == y);
    w = i;
    REQUIRE(w.value() == x);
    if (x != y) s.nontrivial();
  }
  leaks.done();
}

// Arguments reach the constructor as they were given.
typedef expected<Rec, int> XV;
typedef expected<int, Rec> XE;
typedef expected<void, Rec> XN;
PROPERTY(arguments, 150000, 4000000, "construction in place of values and errors, and emplace, pass every argument on as it was given") {
  OwnCheck leaks;
  {
    const i64 x = s.edgy(-100000, 100000);
    const int how = 1 + (int)s.below(4), via = (int)s.below(5);
    int w = 0;
    const int c = 0;
    Arg a(x);
    const Arg &ca = a;
    nanostl::initializer_list<int> none;
    s.note("way %d, argument kind %d, value %lld\n", via, how, (long long)x);
#define WAYS(R, T, ...)                                                 \
  {                                                                     \
    R = how == 1 ? T(__VA_ARGS__, a, w, c) : how == 2 ? T(__VA_ARGS__, ca, w, c) : how == 3 ? T(__VA_ARGS__, nanostl::move(a), w, c) : T(__VA_ARGS__, none, nanostl::move(a), w, c); \
  }
    if (via == 0) {
      XV o(how == 1 ? XV(nonstd::in_place, a, w, c) : how == 2 ? XV(nonstd::in_place, ca, w, c) : how == 3 ? XV(nonstd::in_place, nanostl::move(a), w, c) : XV(nonstd::in_place, none, nanostl::move(a), w, c));
      REQUIRE(o.has_value());
      check_rec(*o, x, how, &w, &c, a);
    } else if (via == 1) {
      XE o(how == 1 ? XE(unexpect, a, w, c) : how == 2 ? XE(unexpect, ca, w, c) : how == 3 ? XE(unexpect, nanostl::move(a), w, c) : XE(unexpect, none, nanostl::move(a), w, c));
      REQUIRE(!o.has_value());
      check_rec(o.error(), x, how, &w, &c, a);
    } else if (via == 2) {
      XN o(how == 1 ? XN(unexpect, a, w, c) : how == 2 ? XN(unexpect, ca, w, c) : how == 3 ? XN(unexpect, nanostl::move(a), w, c) : XN(unexpect, none, nanostl::move(a), w, c));
      REQUIRE(!o.has_value());
      check_rec(o.error(), x, how, &w, &c, a);
    } else if (via == 3) {
      typedef unexpected_type<Rec> UR;
      UR o(how == 1 ? UR(nonstd::in_place, a, w, c) : how == 2 ? UR(nonstd::in_place, ca, w, c) : how == 3 ? UR(nonstd::in_place, nanostl::move(a), w, c) : UR(nonstd::in_place, none, nanostl::move(a), w, c));
      check_rec(o.value(), x, how, &w, &c, a);
    } else {
      // emplace asks for constructors that do not throw
      struct Nt : Rec {
        Nt(Arg &x, int &w, const int &c) noexcept : Rec(x, w, c) {}
        Nt(const Arg &x, int &w, const int &c) noexcept : Rec(x, w, c) {}
        Nt(Arg &&x, int &w, const int &c) noexcept : Rec(nanostl::move(x), w, c) {}
      };
      const bool had = s.flip();
      Arg z(5);
      expected<Nt, int> o(unexpect, 3);
      if (had) o.emplace(z, w, c);
      Nt *r;
      const int h = how == 4 ? 3 : how;
      switch (h) {
        case 1: r = &o.emplace(a, w, c); break;
        case 2: r = &o.emplace(ca, w, c); break;
        default: r = &o.emplace(nanostl::move(a), w, c);
      }
      REQUIRE(o.has_value() && r == &*o);
      check_rec(*o, x, h, &w, &c, a);
    }
    if (x) s.nontrivial();
  }
  leaks.done();
}

// Neither copies nor the heap: what is inside the array of expecteds.
PROPERTY(arrays, 20000, 600000, "expecteds in an array are independent of each other") {
  OwnCheck leaks;
  {
    enum { N = 10 };
    expected<Own, int> o[N];
    expected<signed char, Own> c[N];
    i64 v[N], w[N];
    bool ho[N], hc[N];
    for (int i = 0; i < N; i++) v[i] = w[i] = 0, ho[i] = hc[i] = true;
    size_t n = 0;
    while (s.more(30)) {
      const int k = (int)s.below(N);
      const i64 x = s.range(-100, 100);
      n++;
      s.note("%d: %lld\n", k, (long long)x);
      ho[k] = s.flip(), hc[k] = s.flip(), v[k] = w[k] = x;
      if (ho[k]) o[k] = Own(x);
      else o[k] = make_unexpected((int)x);
      if (hc[k]) c[k] = (signed char)x;
      else c[k] = make_unexpected(Own(x));
      for (int i = 0; i < N; i++) {
        REQUIRE(o[i].has_value() == ho[i] && c[i].has_value() == hc[i]);
        REQUIRE((ho[i] ? o[i]->get() : o[i].error()) == v[i] && (hc[i] ? *c[i] : c[i].error().get()) == w[i]);
      }
    }
    if (n > 3) s.nontrivial();
  }
  leaks.done();
}

// Equality is that of the contents, whatever == and != mean there.
PROPERTY(partial_orders, 100000, 3000000, "expecteds compare by == of their values and errors, also where x == x is false") {
  const double x = draw_nan(s), y = draw_nan(s);
  const bool e = !s.chance(1, 4), f = !s.chance(1, 4);
  s.note("%s %g, %s %g\n", e ? "value" : "error", x, f ? "value" : "error", y);
  expected<double, double> p(x), q(y);
  if (!e) p = make_unexpected(x);
  if (!f) q = make_unexpected(y);
  compare(p, q, e == f && x == y);
  compare(q, p, e == f && x == y);
  compare(p, y, e && x == y);
  compare(y, p, e && x == y);
  compare(p, make_unexpected(y), !e && x == y);
  compare(make_unexpected(y), p, !e && x == y);
  if (x != x || y != y) s.nontrivial();
}

struct Base {};
struct Derived : Base {
  int k;
  Derived(int k_ = 0) : k(k_) {}
};
PROPERTY(kinds, 60000, 1500000, "values that are false or zero are values; has_exception; error codes and exceptions thrown by value()") {
  const int x = (int)s.edgy(-100000, 100000);
  s.note("%d\n", x);
  expected<bool, bool> b(false), eb(unexpect, true), z(unexpect, false);
  REQUIRE(b && !*b && !eb && eb.error() && !z && !z.error() && b != z && eb != z);
  expected<int *, long> n((int *)0);
  REQUIRE(n && *n == 0);
  expected<expected<int, int>, int> in((expected<int, int>(unexpect, x)));
  REQUIRE(in && !*in && in->error() == x);
  in = make_unexpected(x);
  REQUIRE(!in && in.error() == x);
  expected<int, Derived> d(x);
  REQUIRE(!d.has_exception<Base>() && !d.has_exception<Derived>());
  d = make_unexpected(Derived(x));
  REQUIRE(d.has_exception<Base>() && d.has_exception<Derived>() && d.error().k == x);
  REQUIRE(!d.has_exception<std::error_code>());
  expected<int, std::error_code> ec(unexpect, 5, std::generic_category());
  bool thrown = false;
  try {
    (void)ec.value();
  } catch (const std::system_error &e) {
    thrown = e.code().value() == 5;
  }
  REQUIRE_MSG(thrown, "the error code was not thrown");
  expected<int, std::exception_ptr> ep(unexpect, std::make_exception_ptr(x));
  thrown = false;
  try {
    (void)ep.value();
  } catch (int k) {
    thrown = k == x;
  }
  REQUIRE_MSG(thrown, "the exception was not thrown");
  const expected<int, int> cv(x), ce(unexpect, x);
  REQUIRE(*cv == x && cv.value() == x && *cv.operator->() == x && ce.error() == x && ce.value_or(x + 1) == x + 1 && cv.value_or(x + 1) == x);
  typedef expected<int, int>::rebind<Own>::type R;
  REQUIRE((std::is_same<R, expected<Own, int> >::value));
  if (x) s.nontrivial();
}

// Hashes of equal expecteds are equal, and that of a value is the value's.
PROPERTY(hashes, 60000, 1500000, "hash of an expected with a value is the hash of the value; equal expecteds have equal hashes") {
  const int x = (int)s.edgy(-1000000, 1000000), y = s.flip() ? x : (int)s.edgy(-1000000, 1000000);
  s.note("%d %d\n", x, y);
  std::hash<expected<int, int> > h;
  const expected<int, int> a(x), b(y), e(unexpect, x), f(unexpect, x);
  REQUIRE(h(a) == nanostl::hash<int>()(x) && h(b) == nanostl::hash<int>()(y) && h(e) == h(f));
  if (a == b) REQUIRE(h(a) == h(b));
  if (x != y) s.nontrivial();
}
