// C29: max_element, fill, distance, iterator_traits, swap, on raw storage, library containers and plain iterators.
#define PBT_MAIN
#include "nano_pre.h"
#include <algorithm>
#include <cmath>
#include <list>
#include <sys/mman.h>
#include <type_traits>
#include <vector>
#include "nanoexecution.h"
#include "nanoalgorithm.h"
#include "nanoiterator.h"
#include "nanotype_traits.h"
#include "nanovector.h"
#include "nanovalarray.h"
using namespace pbt;

// Ordered by key only; the tag tells equal elements apart.
struct K {
  int key, tag;
  bool operator<(const K &o) const { return key < o.key; }
  bool operator==(const K &o) const { return key == o.key && tag == o.tag; }
};
// A forward iterator over a buffer that refuses to be used outside [b, e].
template <class T>
struct Fwd {
  T *p, *b, *e;
  typedef long long difference_type;
  typedef T value_type;
  typedef T *pointer;
  typedef T &reference;
  typedef nanostl::forward_iterator_tag iterator_category;
  Fwd(T *p_, T *b_, T *e_) : p(p_), b(b_), e(e_) {}
  T &operator*() const {
    if (p < b || p >= e) {
      fprintf(stderr, "SUMMARY: an iterator outside the range is dereferenced\n");
      abort();
    }
    return *p;
  }
  Fwd &operator++() {
    if (p >= e) {
      fprintf(stderr, "SUMMARY: an iterator is advanced past the end\n");
      abort();
    }
    ++p;
    return *this;
  }
  Fwd operator++(int) {
    Fwd o = *this;
    ++*this;
    return o;
  }
  bool operator==(const Fwd &o) const { return p == o.p; }
  bool operator!=(const Fwd &o) const { return p != o.p; }
  Fwd &operator=(const Fwd &o) {
    p = o.p, b = o.b, e = o.e;
    return *this;
  }
};
static std::vector<K> keys(Src &s) {
  std::vector<K> v;
  const size_t n = s.size(200);
  const int spread = (int)s.range(1, 12) * (s.chance(1, 4) ? 1000 : 1);
  for (size_t i = 0; i < n; i++) {
    K k = {(int)s.range(-spread, spread), (int)i};
    v.push_back(k);
  }
  for (size_t i = 0; i < v.size(); i++) s.note("%d ", v[i].key);
  return v;
}
PROPERTY(largest, 200000, 10000000, "max_element finds the first largest element of any range (sub-ranges too), dereferencing nothing outside it") {
  std::vector<K> v = keys(s);
  const size_t n = v.size(), b = (size_t)s.below(n + 1), e = b + (size_t)s.below(n - b + 1);
  s.note("range %zu..%zu\n", b, e);
  K *buf = (K *)malloc(n * sizeof(K) + 1);
  for (size_t i = 0; i < n; i++) buf[i] = v[i];
  size_t x = b;
  for (size_t i = b; i < e; i++)
    if (v[i].key > v[x].key) x = i;
  if (b == e) x = e;
  const size_t g = (size_t)(nanostl::max_element(buf + b, buf + e) - buf);
  const size_t h = (size_t)(nanostl::max_element((const K *)buf + b, (const K *)buf + e) - buf);
  const size_t f = (size_t)(nanostl::max_element(Fwd<K>(buf + b, buf + b, buf + e), Fwd<K>(buf + e, buf + b, buf + e)).p - buf);
  for (size_t i = 0; i < n; i++) REQUIRE(buf[i] == v[i]);
  free(buf);
  REQUIRE_MSG(g == x, "max_element of elements %zu to %zu is at %zu instead of %zu", b, e, g, x);
  REQUIRE_MSG(h == x && f == x, "max_element of elements %zu to %zu is at %zu (const) or %zu (forward iterator) instead of %zu", b, e, h, f, x);
  nanostl::vector<int> w;
  for (size_t i = b; i < e; i++) w.push_back(v[i].key);
  REQUIRE((size_t)(nanostl::max_element(w.begin(), w.end()) - w.begin()) == x - b);
  std::list<int> l;
  for (size_t i = b; i < e; i++) l.push_back(v[i].key);
  REQUIRE(std::distance(l.begin(), nanostl::max_element(l.begin(), l.end())) == (long)(x - b));
  if (e - b >= 2) s.nontrivial();
  for (size_t i = b; i < e; i++)
    if (i != x && v[i].key == v[x].key) {
      s.label("several largest");
      break;
    }
  s.label(b == e ? "empty" : x == b ? "first" : x + 1 == e ? "last" : "inside");
}
PROPERTY(largest_of_many, 400, 10000, "max_element of up to a hundred thousand elements, most of them equal") {
  const size_t n = ((size_t)1 << s.range(9, 17)) + (size_t)s.range(-2, 2);
  const int base = (int)s.edgy(-2147483647, 2147483646);
  std::vector<int> v(n, base);
  for (u64 k = s.below(5); k > 0; k--) v[(size_t)s.below(n)] = s.flip() ? base + 1 : (int)s.edgy(INT32_MIN, INT32_MAX);
  s.note("%zu elements, mostly %d\n", n, base);
  const size_t x = (size_t)(std::max_element(v.begin(), v.end()) - v.begin()), g = (size_t)(nanostl::max_element(v.data(), v.data() + n) - v.data());
  REQUIRE_MSG(g == x, "max_element of %zu elements is at %zu instead of %zu", n, g, x);
  s.nontrivial();
}
template <class T>
static T val(i64 x) {
  return (T)x;
}
template <class T>
static void fill_case(Src &s, const char *name) {
  const size_t n = s.chance(1, 500) ? ((size_t)1 << s.range(9, 17)) + (size_t)s.range(-2, 2) : s.size(300), b = (size_t)s.below(n + 1), e = b + (size_t)s.below(n - b + 1);
  const T c = val<T>(s.edgy(INT64_MIN, INT64_MAX));
  s.note("%s fill %zu..%zu of %zu\n", name, b, e, n);
#ifdef NANOSTL_PSTL
  const unsigned how = (unsigned)s.below(7);
#else
  const unsigned how = (unsigned)s.below(5);
#endif
  T *buf = (T *)malloc(n * sizeof(T) + 1);
  std::vector<T> ref(n);
  for (size_t i = 0; i < n; i++) ref[i] = buf[i] = val<T>((i64)(i * 7 + 1));
  std::fill(ref.begin() + (long)b, ref.begin() + (long)e, c);
  if (how == 0) nanostl::fill(buf + b, buf + e, c);
  else if (how == 1) nanostl::fill(Fwd<T>(buf + b, buf + b, buf + e), Fwd<T>(buf + e, buf + b, buf + e), c);
  else if (how == 2) {
    nanostl::vector<T> w;
    for (size_t i = 0; i < n; i++) w.push_back(buf[i]);
    nanostl::fill(w.begin() + (long)b, w.begin() + (long)e, c);
    for (size_t i = 0; i < n; i++) buf[i] = w[i];
  } else if (how == 3) {
    nanostl::valarray<T> w(n);
    for (size_t i = 0; i < n; i++) w[i] = buf[i];
    nanostl::fill(w.begin() + (long)b, w.begin() + (long)e, c);
    for (size_t i = 0; i < n; i++) buf[i] = w[i];
#ifdef NANOSTL_PSTL
  } else if (how == 5) {
    nanostl::fill(nanostl::execution::par, Fwd<T>(buf + b, buf + b, buf + e), Fwd<T>(buf + e, buf + b, buf + e), c);
  } else if (how == 6) {
    nanostl::fill(nanostl::execution::par_unseq, buf + b, buf + e, c);
#endif
  } else {
    std::list<T> l(buf, buf + n);
    typename std::list<T>::iterator x = l.begin(), y;
    std::advance(x, (long)b);
    y = x;
    std::advance(y, (long)(e - b));
    nanostl::fill(x, y, c);
    std::copy(l.begin(), l.end(), buf);
  }
  for (size_t i = 0; i < n; i++)
    REQUIRE_MSG(buf[i] == ref[i], "after fill %zu..%zu of %zu, element %zu is wrong (%s)", b, e, n, i, i < b || i >= e ? "outside the range" : "not filled");
  free(buf);
  if (e - b >= 2) s.nontrivial();
}
PROPERTY(filling, 200000, 10000000, "fill sets every element of the range to the value and touches nothing else") {
  switch (s.below(5)) {
    case 0: fill_case<char>(s, "char"); break;
    case 1: fill_case<int>(s, "int"); break;
    case 2: fill_case<double>(s, "double"); break;
    case 3: fill_case<unsigned long long>(s, "u64"); break;
    default: fill_case<short>(s, "short");
  }
}
PROPERTY(fill_owning, 50000, 1000000, "fill assigns elements that own memory; nothing leaks") {
  LeakCheck lc;
  {
    nanostl::vector<Tracked> w;
    std::vector<i64> m;
    for (size_t i = 0, n = s.size(40); i < n; i++) m.push_back(s.range(-99, 99)), w.push_back(Tracked(m.back()));
    const size_t n = m.size(), b = (size_t)s.below(n + 1), e = b + (size_t)s.below(n - b + 1);
    const i64 c = s.range(-99, 99);
    s.note("fill %zu..%zu of %zu with %lld\n", b, e, n, c);
    nanostl::fill(w.begin() + (long)b, w.begin() + (long)e, Tracked(c));
    std::fill(m.begin() + (long)b, m.begin() + (long)e, c);
    for (size_t i = 0; i < n; i++) REQUIRE_MSG(w[i].get() == m[i], "element %zu", i);
    if (e - b >= 2) s.nontrivial();
  }
  lc.done();
}
// Compares by key only, like a record; fill must store the whole of it.
struct Rec {
  short key, rest;
  bool operator==(const Rec &o) const { return key == o.key; }
  bool operator!=(const Rec &o) const { return key != o.key; }
  bool operator<(const Rec &o) const { return key < o.key; }
};
PROPERTY(fill_representation, 100000, 4000000, "fill stores the value itself, also over elements that compare equal to it, converting it when its type differs, and when it is one of the elements") {
  const size_t n = s.size(60), b = (size_t)s.below(n + 1), e = b + (size_t)s.below(n - b + 1);
  const bool fwd = s.flip();
  size_t equal = 0;
  switch (s.below(4)) {
    case 0: {
      static const float pal[] = {0.0f, -0.0f, 1.0f, NAN, -NAN, INFINITY, 1e-45f};
      float *buf = (float *)malloc(n * sizeof(float) + 1);
      std::vector<float> ref(n);
      for (size_t i = 0; i < n; i++) ref[i] = buf[i] = pal[s.below(7)];
      const float c = pal[s.below(7)];
      for (size_t i = b; i < e; i++) {
        if (memcmp(&ref[i], &c, 4) && ref[i] == c) equal++;
        ref[i] = c;
      }
      s.note("fill %zu..%zu of %zu floats with %g\n", b, e, n, c);
      if (fwd) nanostl::fill(Fwd<float>(buf + b, buf + b, buf + e), Fwd<float>(buf + e, buf + b, buf + e), c);
      else nanostl::fill(buf + b, buf + e, c);
      for (size_t i = 0; i < n; i++) REQUIRE_MSG(!memcmp(&buf[i], &ref[i], 4), "element %zu is %a instead of %a", i, buf[i], ref[i]);
      free(buf);
      break;
    }
    case 1: {
      Rec *buf = (Rec *)malloc(n * sizeof(Rec) + 1), c;
      std::vector<Rec> ref(n);
      c.key = (short)s.below(4), c.rest = -1;
      for (size_t i = 0; i < n; i++) buf[i].key = (short)s.below(4), buf[i].rest = (short)i, ref[i] = buf[i];
      for (size_t i = b; i < e; i++) equal += ref[i].key == c.key, ref[i] = c;
      s.note("fill %zu..%zu of %zu records with key %d\n", b, e, n, c.key);
      if (fwd) nanostl::fill(Fwd<Rec>(buf + b, buf + b, buf + e), Fwd<Rec>(buf + e, buf + b, buf + e), c);
      else nanostl::fill(buf + b, buf + e, c);
      for (size_t i = 0; i < n; i++) REQUIRE_MSG(buf[i].key == ref[i].key && buf[i].rest == ref[i].rest, "element %zu is not the value", i);
      free(buf);
      break;
    }
    case 2: {  // the value has another type
      short *buf = (short *)malloc(n * sizeof(short) + 1);
      std::vector<short> ref(n);
      const i64 c = s.range(-32768, 32767);
      for (size_t i = 0; i < n; i++) ref[i] = buf[i] = (short)s.below(3);
      for (size_t i = b; i < e; i++) ref[i] = (short)c;
      s.note("fill %zu..%zu of %zu shorts with %lld\n", b, e, n, (long long)c);
      if (fwd) nanostl::fill(buf + b, buf + e, (double)c);
      else nanostl::fill(buf + b, buf + e, c);
      for (size_t i = 0; i < n; i++) REQUIRE_MSG(buf[i] == ref[i], "element %zu is %d", i, buf[i]);
      free(buf);
      break;
    }
    default: {  // the value is an element of the range
      int *buf = (int *)malloc(n * sizeof(int) + 1);
      std::vector<int> ref(n);
      for (size_t i = 0; i < n; i++) ref[i] = buf[i] = (int)s.below(1000);
      if (b != e) {
        const size_t k = b + (size_t)s.below(e - b);
        const int c = ref[k];
        std::fill(ref.begin() + (long)b, ref.begin() + (long)e, c);
        s.note("fill %zu..%zu of %zu with element %zu\n", b, e, n, k);
        nanostl::fill(buf + b, buf + e, buf[k]);
      }
      for (size_t i = 0; i < n; i++) REQUIRE_MSG(buf[i] == ref[i], "element %zu is %d instead of %d", i, buf[i], ref[i]);
      free(buf);
    }
  }
  if (e - b >= 2) s.nontrivial();
  if (equal) s.label("over equal elements");
}
// A random access iterator that is a position in a sequence far too long to store.
struct Pos {
  i64 p;
  typedef long long difference_type;
  typedef int value_type;
  typedef int *pointer;
  typedef int &reference;
  typedef nanostl::random_access_iterator_tag iterator_category;
  difference_type operator-(const Pos &o) const { return p - o.p; }
  Pos &operator++() {
    ++p;
    return *this;
  }
  bool operator==(const Pos &o) const { return p == o.p; }
  bool operator!=(const Pos &o) const { return p != o.p; }
};
PROPERTY(far_apart, 100000, 2000000, "distance is exact for positions any distance apart") {
  static char *big;
  const i64 span = 1ll << 36;
  if (!big) {
    big = (char *)mmap(0, (size_t)span, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (big == (char *)MAP_FAILED) big = 0;
  }
  const i64 x = s.edgy(0, span / 8 - 1), y = s.edgy(0, span / 8 - 1);
  s.note("%lld..%lld\n", (long long)x, (long long)y);
  if (big) {
    REQUIRE_MSG(nanostl::distance(big + x, big + y) == y - x, "distance(p + %lld, p + %lld) is %lld", (long long)x, (long long)y, (long long)nanostl::distance(big + x, big + y));
    REQUIRE(nanostl::distance((double *)big + x, (double *)big + y) == y - x);
    REQUIRE(nanostl::distance((const short *)big + x, (const short *)big + y) == y - x);
  } else
    s.label("no address space");
  const i64 u = s.edgy(-(1ll << 61), 1ll << 61), v = s.edgy(-(1ll << 61), 1ll << 61);
  const Pos a = {u}, b = {v};
  REQUIRE_MSG(nanostl::distance(a, b) == v - u, "distance(%lld, %lld)", (long long)u, (long long)v);
  if (y - x > 0x7fffffff || x - y > 0x7fffffff) s.nontrivial();
}
template <class It, class T, class P, class R, class C>
static bool traits() {
  typedef nanostl::iterator_traits<It> X;
  return std::is_same<typename X::value_type, T>::value && std::is_same<typename X::pointer, P>::value && std::is_same<typename X::reference, R>::value &&
         std::is_same<typename X::iterator_category, C>::value && std::is_integral<typename X::difference_type>::value && std::is_signed<typename X::difference_type>::value && sizeof(typename X::difference_type) == sizeof(void *);
}
PROPERTY(distances, 100000, 2000000, "distance is last - first for pointers and container iterators, negative too; iterator_traits names the types") {
  const size_t n = s.size(500), b = (size_t)s.below(n + 1), e = (size_t)s.below(n + 1);
  s.note("%zu..%zu of %zu\n", b, e, n);
  nanostl::vector<double> v;
  v.resize(n);
  const nanostl::vector<double> &c = v;
  const i64 d = (i64)e - (i64)b;
  REQUIRE(nanostl::distance(v.begin() + (long)b, v.begin() + (long)e) == d);
  REQUIRE(nanostl::distance(v.begin(), v.end()) == (i64)n);
  std::vector<K> k(n + 1);
  std::vector<char> ch(n + 1);
  REQUIRE(nanostl::distance(&k[0] + b, &k[0] + e) == d && nanostl::distance((const K *)&k[0] + b, (const K *)&k[0] + e) == d && nanostl::distance(&ch[0] + b, &ch[0] + e) == d);
  REQUIRE((traits<int *, int, int *, int &, nanostl::random_access_iterator_tag>()));
  REQUIRE((traits<const K *, K, const K *, const K &, nanostl::random_access_iterator_tag>()));
  REQUIRE((traits<Fwd<K>, K, K *, K &, nanostl::forward_iterator_tag>()));
  REQUIRE((std::is_base_of<nanostl::input_iterator_tag, nanostl::forward_iterator_tag>::value && std::is_base_of<nanostl::forward_iterator_tag, nanostl::bidirectional_iterator_tag>::value &&
           std::is_base_of<nanostl::bidirectional_iterator_tag, nanostl::random_access_iterator_tag>::value && !std::is_base_of<nanostl::output_iterator_tag, nanostl::random_access_iterator_tag>::value));
  (void)c;
  if (b != e) s.nontrivial();
}
struct Own {  // owns a value; moves only
  i64 *p;
  Own() : p(0) {}
  Own(Own &&o) noexcept : p(o.p) { o.p = 0; }
  Own &operator=(Own &&o) noexcept {
    i64 *const q = o.p;
    o.p = 0;
    delete p;
    p = q;
    return *this;
  }
  ~Own() { delete p; }
};
template <size_t N>
static void arrays(Src &s) {
  LeakCheck lc;
  {
    i64 v[2][N];
    for (size_t k = 0; k < 2 * N; k++) v[k / N][k % N] = s.edgy(INT64_MIN, INT64_MAX), s.note("%lld ", v[k / N][k % N]);
    struct {
      i64 before, a[N], between, b[N], after;
      int m[N][2], between2, n[N][2], after2;
    } p;
    p.before = p.between = p.after = 77;
    p.between2 = p.after2 = 78;
    Tracked t[N], u[N];
    Own x[N], y[N];
    for (size_t k = 0; k < N; k++) {
      p.a[k] = v[0][k], p.b[k] = v[1][k];
      t[k] = Tracked(v[0][k]), u[k] = Tracked(v[1][k]);
      x[k].p = new i64(v[0][k]), y[k].p = new i64(v[1][k]);
      for (int c = 0; c < 2; c++) p.m[k][c] = (int)((unsigned)(int)v[0][k] + (unsigned)c), p.n[k][c] = (int)((unsigned)(int)v[1][k] - (unsigned)c);
    }
    const bool self = s.chance(1, 4);
    if (self) {
      nanostl::swap(p.a, p.a), nanostl::swap(t, t), nanostl::swap(p.m, p.m);
      nanostl::swap(x, x);
    } else {
      nanostl::swap(p.a, p.b), nanostl::swap(t, u), nanostl::swap(p.m, p.n);
      nanostl::swap(x, y);
    }
    for (size_t k = 0; k < N; k++) {
      const i64 e = v[!self][k], f = v[self][k];
      REQUIRE(p.a[k] == e && p.b[k] == f && t[k].get() == e && u[k].get() == f);
      REQUIRE(x[k].p && y[k].p && *x[k].p == e && *y[k].p == f);
      const int o = self ? 1 : -1;
      REQUIRE(p.m[k][0] == (int)e && p.m[k][1] == (int)((unsigned)(int)e + (unsigned)o) && p.n[k][0] == (int)f && p.n[k][1] == (int)((unsigned)(int)f - (unsigned)o));
    }
    REQUIRE(p.before == 77 && p.between == 77 && p.after == 77 && p.between2 == 78 && p.after2 == 78);
    bool differ = false;
    for (size_t k = 0; k < N; k++) differ |= v[0][k] != v[1][k];
    if (!self && differ) s.nontrivial();
  }
  lc.done();
}
PROPERTY(swap_arrays, 60000, 2000000, "swap exchanges two arrays element by element and nothing beyond them") {
  switch (s.below(5)) {
    case 0: return arrays<1>(s);
    case 1: return arrays<2>(s);
    case 2: return arrays<3>(s);
    case 3: return arrays<8>(s);
    default: return arrays<33>(s);
  }
}
PROPERTY(swaps, 100000, 2000000, "swap exchanges two values (also of owning types, and a value with itself)") {
  LeakCheck lc;
  {
    const i64 a = s.edgy(INT64_MIN, INT64_MAX), b = s.edgy(INT64_MIN, INT64_MAX);
    s.note("%lld %lld\n", a, b);
    i64 x = a, y = b;
    nanostl::swap(x, y);
    REQUIRE(x == b && y == a);
    nanostl::swap(x, x);
    REQUIRE(x == b);
    Tracked t(a), u(b);
    nanostl::swap(t, u);
    REQUIRE(t.get() == b && u.get() == a);
    nanostl::swap(t, t);
    REQUIRE(t.get() == b);
    nanostl::vector<Tracked> v, w;
    v.push_back(t), w.push_back(u), w.push_back(t);
    nanostl::swap(v, w);
    REQUIRE(v.size() == 2 && w.size() == 1 && v[0].get() == a && v[1].get() == b && w[0].get() == b);
    i64 *p = &x, *q = &y;
    nanostl::swap(p, q);
    REQUIRE(p == &y && q == &x);
    if (a != b) s.nontrivial();
  }
  lc.done();
}
