// C03: valarray is a sequence (model: std::vector), owns its elements, and maps sin over them.
#define PBT_MAIN
#include "nano_pre.h"
#include "seqmodel.h"
#include "nanovalarray.h"
using pbt::i64;

PROPERTY(valarray_of_int, 50000, 1200000, "valarray<int> agrees with the reference sequence after every operation") {
  seq_history<nanostl::valarray<int>, int, false>(s, 40);
}
PROPERTY(valarray_of_tracked, 10000, 700000, "valarray of a heap-owning element type agrees, and leaks nothing") {
  seq_history<nanostl::valarray<pbt::Tracked>, pbt::Tracked, false>(s, 30);
}
PROPERTY(sized_construction, 30000, 400000, "valarray(n) has n value-initialised elements and its own storage") {
  pbt::LeakCheck leaks;
  {
    // dirty the heap first, so that uninitialised storage shows
    size_t n = (size_t)s.size(600);
    {
      nanostl::valarray<int> d(n + 1);
      for (size_t i = 0; i < n; i++) d[i] = -1;
    }
    nanostl::valarray<int> v((nanostl::size_type)n);
    s.note("valarray<int>(%zu)\n", n);
    REQUIRE(v.size() == n && v.empty() == (n == 0));
    for (size_t i = 0; i < n; i++) REQUIRE_MSG(v[i] == 0, "element %zu is %d", i, v[i]);
    nanostl::valarray<int> w(v);
    for (size_t i = 0; i < n; i++) w[i] = (int)i + 1;
    for (size_t i = 0; i < n; i++) REQUIRE_MSG(v[i] == 0, "element %zu changed through a copy", i);
    nanostl::valarray<int> const &c = w;
    for (size_t i = 0; i < n; i++) REQUIRE(c[i] == (int)i + 1 && c.begin()[i] == (int)i + 1);
    if (n > 1) s.nontrivial();
  }
  leaks.done();
}
template <class F>
static void sin_case(pbt::Src &s) {
  pbt::LeakCheck leaks;
  {
    size_t n = s.chance(1, 400) ? ((size_t)1 << s.range(10, 17)) + (size_t)s.range(-2, 2) : (size_t)s.size(200);
    nanostl::valarray<F> v((nanostl::size_type)n);
    std::vector<F> m(n);
    for (size_t i = 0; i < n; i++) {
      F x = n > 1000 ? (F)((double)(i * 7919 % 1000003) * 1e-5 - 5) : (F)(s.range(-628000, 628000) * 1e-5);
      if (n <= 1000 && s.chance(1, 10)) x = (F)s.range(-3, 3);
      v[i] = x;
      m[i] = x;
      if (i < 300) s.note("%g ", (double)x);
    }
    nanostl::valarray<F> r = nanostl::sin(v);
    REQUIRE_MSG(r.size() == n, "result has %llu elements for %zu", (unsigned long long)r.size(), n);
    for (size_t i = 0; i < n; i++) {
      REQUIRE_MSG(v[i] == m[i], "the argument was changed at %zu", i);
      F e = nanostl::sin(m[i]);
      REQUIRE_MSG(r[i] == e, "element %zu is %.17g, the sine of that element is %.17g", i, (double)r[i], (double)e);
      REQUIRE_MSG(fabs((double)r[i] - ::sin((double)m[i])) < 1e-6, "element %zu is %.17g, sin(%.17g) is %.17g", i, (double)r[i], (double)m[i], ::sin((double)m[i]));
    }
    if (n) REQUIRE(&r[0] != &v[0]);
    if (n > 2) s.nontrivial();
  }
  leaks.done();
}
PROPERTY(sin_float, 20000, 300000, "sin(valarray<float>) is the elementwise sine, of the same length") { sin_case<float>(s); }
PROPERTY(large, 300, 8000, "large valarrays (up to a million elements) agree with the reference sequence") {
  if (s.flip()) seq_large<nanostl::valarray<int>, int, false>(s, 8, 20);
  else seq_large<nanostl::valarray<double>, double, false>(s, 8, 18);
}
