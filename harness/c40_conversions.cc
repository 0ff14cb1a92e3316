// C40: what an expected may be built from, converted from and assigned.
#define PBT_MAIN
#include <new>
#include <expected>
#include "nano_pre.h"
#define nsel_CONFIG_SELECT_EXPECTED nsel_EXPECTED_NONSTD
#include "expected_pre.h"
using namespace pbt;
#include "conversions.h"
struct Error {
  int c;
  Error(int);
};
struct Reason {
  operator Error() const;
};
template <class T>
using S = std::expected<T, Error>;
template <class T>
using N = nanostl::expected<T, Error>;
template <class T>
using S2 = std::expected<T, Reason>;
template <class T>
using N2 = nanostl::expected<T, Reason>;
static_assert(!std::is_same<S<int>, N<int> >::value, "the library's own expected is wanted");
template <class T, class U>
static int pair_() {
  const bool c = std::is_copy_constructible<U>::value && std::is_copy_constructible<T>::value;
  ask_from<S<T>, N<T>, U, U>(c);
  ask_from<S<T>, N<T>, S<U>, N<U> >(c);
  ask_from<S<T>, N<T>, S2<U>, N2<U> >(c);
  ask_from<S2<T>, N2<T>, S<U>, N<U> >(c);
  return 0;
}
template <class T, class... U>
static int row() {
  const bool c = std::is_copy_constructible<T>::value;
  ask_about<S<T>, N<T> >(c);
  ask_from<S<T>, N<T>, std::unexpected<Error>, nonstd::unexpected_type<Error> >(c);
  ask_from<S<T>, N<T>, std::unexpected<Reason>, nonstd::unexpected_type<Reason> >(c);
  ask_from<S<T>, N<T>, std::unexpected<int>, nonstd::unexpected_type<int> >(c);
  ask_from<S2<T>, N2<T>, std::unexpected<Error>, nonstd::unexpected_type<Error> >(c);
  int x[] = {pair_<T, U>()...};
  return (void)x, 0;
}
template <class... U>
static size_t table() {
  int x[] = {row<U, U...>()...};
  return (void)x, g_questions.size();
}
static const size_t g_n = table<CONVERSION_TYPES>();
SWEEP(conversions, 0, g_n, g_n, g_n, "constructions, conversions and assignments accepted, compared with the standard expected, over pairs of fourteen types and two error types (exhaustive)") { return answer(x); }

// what is made from another type's value or error: made as T( value ), not as T{ value }
struct StdLib {
  template <class T, class E>
  using Ex = std::expected<T, E>;
  template <class E>
  using Un = std::unexpected<E>;
};
struct NanoLib {
  template <class T, class E>
  using Ex = nanostl::expected<T, E>;
  template <class E>
  using Un = nonstd::unexpected_type<E>;
};
typedef std::vector<int> V;
template <class X>
static V parts_of(const X &x) {
  V v(1, x.has_value() ? -1 : -2);
  const V &p = x.has_value() ? x.value() : x.error();
  v.insert(v.end(), p.begin(), p.end());
  return v;
}
// the standard unexpected has no conversion from another one: what it would be made from is the error
static V again(const std::unexpected<int> &u, bool) { return V(u.error()); }
static V again(const nonstd::unexpected_type<int> &u, bool rvalue) {
  nonstd::unexpected_type<int> m(u);
  return rvalue ? nonstd::unexpected_type<V>(std::move(m)).value() : nonstd::unexpected_type<V>(u).value();
}
template <class L>
static V made(unsigned how, bool has, int n) {
  typedef typename L::template Ex<int, int> From;
  typedef typename L::template Ex<V, V> To;
  typedef typename L::template Ex<void, V> Void;
  typedef typename L::template Un<int> Un;
  Un u(n);
  const Un &cu = u;
  From f(n);
  if (!has) f = From(u);
  const From &c = f;
  switch (how) {
    case 0: { To t(f); return parts_of(t); }
    case 1: { To t(c); return parts_of(t); }
    case 2: { To t(std::move(f)); return parts_of(t); }
    case 3: { To t(static_cast<const From &&>(f)); return parts_of(t); }
    case 4: { To t(n); return parts_of(t); }
    case 5: { To t(static_cast<const int &>(n)); return parts_of(t); }
    case 6: { To t(std::move(n)); return parts_of(t); }
    case 7: { To t(cu); return parts_of(t); }
    case 8: { To t(std::move(u)); return parts_of(t); }
    case 9: { Void t(cu); return t.has_value() ? V() : t.error(); }
    case 10: { Void t(std::move(u)); return t.has_value() ? V() : t.error(); }
    case 11: return again(u, false);
    default: return again(u, true);
  }
}
SWEEP(made_from_value, 0, 13 * 2 * 40, 13 * 2 * 40, 13 * 2 * 40, "expected objects of types with initializer-list constructors, made from values and errors of other types, compared with the standard one (exhaustive)") {
  const unsigned how = x % 13;
  const bool has = x / 13 % 2;
  const int n = (int)(x / 26);
  const V want = made<StdLib>(how, has, n), got = made<NanoLib>(how, has, n);
  REQUIRE_MSG(want == got, "source %u, value %d, number %d: %zu elements instead of %zu", how, (int)has, n, got.size(), want.size());
  return n > 1;
}

template <class T>
using SI = std::expected<T, int>;
template <class T>
using NI = nanostl::expected<T, int>;
template <class T>
struct IsStd : std::false_type {};
template <class T>
struct IsStd<SI<T> > : std::true_type {};
template <class T, typename std::enable_if<IsStd<T>::value, int>::type = 0>
static T filled_(bool has, int v) { return has ? T(std::in_place, v) : T(std::unexpect, 3); }
template <class T, typename std::enable_if<!IsStd<T>::value, int>::type = 0>
static T filled_(bool has, int v) { return has ? T(nonstd_lite_in_place(typename T::value_type), v) : T(nonstd::unexpect, 3); }
template <class T>
static T filled(bool has, int v) { return filled_<T>(has, v); }
struct Pair {
  int (*want)(int, bool, int), (*got)(int, bool, int);
};
static Pair g_pairs[256];
template <int I>
struct Fill {
  static void go() {
    Fill<I - 1>::go();
    g_pairs[I].want = answer_of<SI, (I >> 3), (I & 7)>;
    g_pairs[I].got = answer_of<NI, (I >> 3), (I & 7)>;
  }
};
template <>
struct Fill<-1> {
  static void go() {}
};
static const bool g_filled = (Fill<255>::go(), true);
SWEEP(from_expected, 0, 256 * 8, 256 * 8, 256 * 8, "expected objects of a type that can be made from an expected, from each kind of expected, compared with the standard one (exhaustive)") {
  const int cat = (int)(x % 4), op = 0;
  const bool has = x / 4 % 2;
  const Pair &p = g_pairs[x / 8];
  const int want = p.want(cat, has, op), got = p.got(cat, has, op);
  REQUIRE_MSG(want == got, "type %d, source category %d, value %d: %d instead of %d", (int)(x / 8), cat, (int)has, got, want);
  return want > 1;
}
