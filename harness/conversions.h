// Which constructions, conversions and assignments a wrapper accepts: a table of questions asked of the library's
// template and of the standard one it follows, over types that convert in different ways.
#ifndef CONVERSIONS_H_
#define CONVERSIONS_H_
#include <string>
#include <type_traits>
struct Implicit {
  Implicit(int);
};
struct Explicit {
  explicit Explicit(int);
};
struct Copied {
  Copied(const Copied &);
  Copied &operator=(const Copied &);
};
struct Converts {
  operator int() const;
};
struct Truth {
  explicit operator bool() const;
};
struct Throws {
  Throws(Throws &&);
  Throws(const Throws &);
  Throws &operator=(Throws &&);
  Throws &operator=(const Throws &);
};
struct Parent {};
struct Child : Parent {};
struct Moved {
  Moved(Moved &&) noexcept;
  Moved &operator=(Moved &&) noexcept;
};
struct Question {
  const char *what, *where;
  bool want, got;
};
static std::vector<Question> g_questions;
static void ask(const char *what, const char *where, bool want, bool got) {
  Question q = {what, where, want, got};
  g_questions.push_back(q);
}
// S the standard wrapper, N the library's; U and V the same argument for each.
template <class S, class N, class U, class V>
static void ask_from(bool copies) {
  const char *const w = __PRETTY_FUNCTION__;
  ask("is_constructible, from an rvalue", w, std::is_constructible<S, U>::value, std::is_constructible<N, V>::value);
  ask("is_convertible, from an rvalue", w, std::is_convertible<U, S>::value, std::is_convertible<V, N>::value);
  ask("is_assignable, from an rvalue", w, std::is_assignable<S &, U>::value, std::is_assignable<N &, V>::value);
  ask("is_assignable to a const", w, std::is_assignable<const S &, U>::value, std::is_assignable<const N &, V>::value);
  if (!copies) return;
  ask("is_constructible, from an lvalue", w, std::is_constructible<S, U &>::value, std::is_constructible<N, V &>::value);
  ask("is_constructible, from a const lvalue", w, std::is_constructible<S, const U &>::value, std::is_constructible<N, const V &>::value);
  ask("is_convertible, from a const lvalue", w, std::is_convertible<const U &, S>::value, std::is_convertible<const V &, N>::value);
  ask("is_assignable, from an lvalue", w, std::is_assignable<S &, U &>::value, std::is_assignable<N &, V &>::value);
  ask("is_assignable, from a const lvalue", w, std::is_assignable<S &, const U &>::value, std::is_assignable<N &, const V &>::value);
}
template <class S, class N>
static void ask_about(bool copies) {
  const char *const w = __PRETTY_FUNCTION__;
  ask("is_default_constructible", w, std::is_default_constructible<S>::value, std::is_default_constructible<N>::value);
  ask("is_move_constructible", w, std::is_move_constructible<S>::value, std::is_move_constructible<N>::value);
  ask("is_move_assignable", w, std::is_move_assignable<S>::value, std::is_move_assignable<N>::value);
  ask("is_constructible of bool", w, std::is_constructible<bool, S>::value, std::is_constructible<bool, N>::value);
  ask("is_convertible to bool", w, std::is_convertible<S, bool>::value, std::is_convertible<N, bool>::value);
  if (!copies) return;
  ask("is_copy_constructible", w, std::is_copy_constructible<S>::value, std::is_copy_constructible<N>::value);
  ask("is_copy_assignable", w, std::is_copy_assignable<S>::value, std::is_copy_assignable<N>::value);
}
#define CONVERSION_TYPES int, double, bool, const char *, std::string, Implicit, Explicit, Copied, Converts, Truth, Throws, Parent, Child, Moved
// A wrapper of a value, or an empty one (an expected: of the error 3).
template <class T>
static T filled(bool has, int v = 5);
template <class U>
constexpr int taken() { return (std::is_lvalue_reference<U>::value ? 0 : 2) + std::is_const<typename std::remove_reference<U>::type>::value; }
// A type that can itself be made from the wrapper of another: that constructor is used, also of an empty one.
template <template <class> class O, int K, int E>
struct Wrap {
  int how;
  template <class U, typename std::enable_if<std::is_same<typename std::decay<U>::type, int>::value && (E & 2), int>::type = 0>
  explicit Wrap(U &&) : how(1) {}
  template <class U, typename std::enable_if<std::is_same<typename std::decay<U>::type, int>::value && !(E & 2), int>::type = 0>
  Wrap(U &&) : how(1) {}
  Wrap(const Wrap &w) : how(w.how) {}
  template <class U, typename std::enable_if<std::is_same<U, O<int> &>::value && (K & 1) && (E & 1), int>::type = 0>
  explicit Wrap(U &&) : how(11) {}
  template <class U, typename std::enable_if<std::is_same<U, O<int> &>::value && (K & 1) && !(E & 1), int>::type = 0>
  Wrap(U &&) : how(12) {}
  template <class U, typename std::enable_if<std::is_same<U, const O<int> &>::value && (K & 2) && (E & 1), int>::type = 0>
  explicit Wrap(U &&) : how(21) {}
  template <class U, typename std::enable_if<std::is_same<U, const O<int> &>::value && (K & 2) && !(E & 1), int>::type = 0>
  Wrap(U &&) : how(22) {}
  template <class U, typename std::enable_if<std::is_same<U, O<int> >::value && (K & 4) && (E & 1), int>::type = 0>
  explicit Wrap(U &&) : how(31) {}
  template <class U, typename std::enable_if<std::is_same<U, O<int> >::value && (K & 4) && !(E & 1), int>::type = 0>
  Wrap(U &&) : how(32) {}
  template <class U, typename std::enable_if<std::is_same<U, const O<int> >::value && (K & 8) && (E & 1), int>::type = 0>
  explicit Wrap(U &&) : how(41) {}
  template <class U, typename std::enable_if<std::is_same<U, const O<int> >::value && (K & 8) && !(E & 1), int>::type = 0>
  Wrap(U &&) : how(42) {}
  Wrap &operator=(const Wrap &w) { return how = w.how, *this; }
  Wrap &operator=(int) { return how = 1, *this; }
  template <class U, typename std::enable_if<std::is_same<typename std::decay<U>::type, O<int> >::value && (K & 16) && (!(E & 4) || taken<U>() == (K & 3)), int>::type = 0>
  Wrap &operator=(U &&) { return how = 200, *this; }
};
static int state(bool has, int how) { return has ? how : -1; }
template <class T, class O, class From>
static typename std::enable_if<std::is_constructible<T, From>::value, int>::type built(From f) {
  T t(static_cast<From>(f));
  return state(t.has_value(), t ? t->how : 0);
}
template <class T, class O, class From>
static typename std::enable_if<!std::is_constructible<T, From>::value, int>::type built(From) { return -2; }
template <class T, class O, class From>
static typename std::enable_if<std::is_assignable<T &, From>::value, int>::type assigned(From f, bool has) {
  T t(filled<T>(has));
  t = static_cast<From>(f);
  return state(t.has_value(), t ? t->how : 0);
}
template <class T, class O, class From>
static typename std::enable_if<!std::is_assignable<T &, From>::value, int>::type assigned(From, bool) { return -2; }
template <template <class> class O, int K, int E>
static int answer_of(int cat, bool has, int op) {
  O<int> o(filled<O<int> >(has, 7));
  typedef O<Wrap<O, K, E> > T;
#define FROM(...) (op == 0 ? built<T, O<int>, __VA_ARGS__>(static_cast<__VA_ARGS__>(o)) : assigned<T, O<int>, __VA_ARGS__>(static_cast<__VA_ARGS__>(o), op == 2))
  switch (cat) {
    case 0: return FROM(O<int> &);
    case 1: return FROM(const O<int> &);
    case 2: return FROM(O<int> &&);
    default: return FROM(const O<int> &&);
  }
#undef FROM
}
static bool answer(unsigned long long x) {
  const Question &q = g_questions[(size_t)x];
  REQUIRE_MSG(q.want == q.got, "%s is %d instead of %d: %s", q.what, (int)q.got, (int)q.want, q.where);
  return q.want;
}
#endif
