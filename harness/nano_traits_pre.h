// What the generated trait programs need.
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <typeinfo>
using std::nullptr_t;
#include "nanotype_traits.h"
#include "nanoutility.h"
template <class T> using P = T *;
template <class T> using C = const T;
template <class T> using V = volatile T;
template <class T> using R = T &;
template <class T> using RR = T &&;
template <class T> using A3 = T[3];
template <class T> using AU = T[];
template <class T, class A> using F = T(A);
template <class T> using F0 = T();
template <class T, class A, class B> using F2 = T(A, B);
template <class T> using FV = T(...);
template <class T> using FC = T() const;
struct Owner {};
template <class T> using M = T Owner::*;
template <class T> struct ID { typedef T type; };
struct none {};
template <class> struct void_of { typedef void type; };
template <class T, class = void> struct type_of { typedef none type; };
template <class T> struct type_of<T, typename void_of<typename T::type>::type> { typedef typename T::type type; };
