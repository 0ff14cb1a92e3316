// C09: what an optional may be built from, converted from and assigned.
#define PBT_MAIN
#include <new>
#include <optional>
#include "nano_pre.h"
#define optional_CONFIG_SELECT_OPTIONAL optional_OPTIONAL_NONSTD
#include "nanooptional.h"
using namespace pbt;
#include "conversions.h"
template <class T>
using S = std::optional<T>;
template <class T>
using N = nanostl::optional<T>;
static_assert(!std::is_same<S<int>, N<int> >::value, "the library's own optional is wanted");
template <class T, class U>
static int pair_() {
  const bool c = std::is_copy_constructible<U>::value && std::is_copy_constructible<T>::value;
  ask_from<S<T>, N<T>, U, U>(c);
  ask_from<S<T>, N<T>, S<U>, N<U> >(c);
  return 0;
}
template <class T, class... U>
static int row() {
  const bool c = std::is_copy_constructible<T>::value;
  ask_about<S<T>, N<T> >(c);
  ask_from<S<T>, N<T>, std::nullopt_t, nonstd::nullopt_t>(true);
  int x[] = {pair_<T, U>()...};
  return (void)x, 0;
}
template <class... U>
static size_t table() {
  int x[] = {row<U, U...>()...};
  return (void)x, g_questions.size();
}
static const size_t g_n = table<CONVERSION_TYPES>();
SWEEP(conversions, 0, g_n, g_n, g_n, "constructions, conversions and assignments accepted, compared with the standard optional, over pairs of fourteen types (exhaustive)") { return answer(x); }
template <class T>
static T filled(bool has, int v) {
  T t;
  if (has) t.emplace(v);
  return t;
}
struct Pair {
  int (*want)(int, bool, int), (*got)(int, bool, int);
};
static Pair g_pairs[256];
template <int I>
struct Fill {
  static void go() {
    Fill<I - 1>::go();
    g_pairs[I].want = answer_of<S, (I >> 3), (I & 7)>;
    g_pairs[I].got = answer_of<N, (I >> 3), (I & 7)>;
  }
};
template <>
struct Fill<-1> {
  static void go() {}
};
static const bool g_filled = (Fill<255>::go(), true);
SWEEP(from_optional, 0, 256 * 24, 256 * 24, 256 * 24, "optionals of a type that can be made from an optional, from each kind of optional, compared with the standard one (exhaustive)") {
  const int cat = (int)(x % 4), op = (int)(x / 8 % 3);
  const bool has = x / 4 % 2;
  const Pair &p = g_pairs[x / 24];
  const int want = p.want(cat, has, op), got = p.got(cat, has, op);
  REQUIRE_MSG(want == got, "type %d, source category %d, engaged %d, operation %d: %d instead of %d", (int)(x / 24), cat, (int)has, op, got, want);
  return want > 1;
}

// the value made from another optional's value: made as T( value ), not as T{ value }
template <template <class> class O>
static std::vector<int> made(unsigned how, bool has, int n) {
  typedef std::vector<int> V;
  O<int> o;
  if (has) o = n;
  const O<int> &c = o;
  O<V> t;
  if (how & 4) t = V(3, 4);
  O<V> r;
  switch (how & 3) {
    case 0: { O<V> p(o); r = p; break; }
    case 1: { O<V> p(c); r = p; break; }
    case 2: { O<V> p(std::move(o)); r = std::move(p); break; }
    default: { O<V> p(static_cast<const O<int> &&>(o)); r = p; break; }
  }
  V v(1, r.has_value() ? -1 : -2);
  if (r.has_value()) v.insert(v.end(), r->begin(), r->end());
  if (t.has_value()) v.insert(v.end(), t->begin(), t->end());
  return v;
}
SWEEP(made_from_value, 0, 8 * 2 * 40, 8 * 2 * 40, 8 * 2 * 40, "optionals of a type with an initializer-list constructor, made from optionals of integers, compared with the standard one (exhaustive)") {
  const unsigned how = x % 8;
  const bool has = x / 8 % 2;
  const int n = (int)(x / 16);
  const std::vector<int> want = made<S>(how, has, n), got = made<N>(how, has, n);
  REQUIRE_MSG(want == got, "source category %u, engaged %d, value %d: %zu elements instead of %zu", how & 3, (int)has, n, got.size(), want.size());
  return has && n > 1;
}
