// C19: what to_string prints, stof and stod read back exactly.
#define PBT_MAIN
#include "numtext.h"
using namespace pbt;
#ifdef __SANITIZE_ADDRESS__
#define Q 200000
#define T 20000000
#define TD 20000000
#else
#define Q 3000000
#define T (1ull << 32)
#define TD 1000000000ull
#endif
static bool floats_(float f) {
  if (f != f || f - f != 0) return false;
  const nanostl::string t = nanostl::to_string(f);
  float g = nanostl::stof(t);
  REQUIRE_MSG(fbits(f) == fbits(g), "stof(to_string(%a)) = stof(\"%s\") is %a", f, t.c_str(), g);
  return f != 0;
}
static bool doubles_(double f) {
  if (f != f || f - f != 0) return false;
  const nanostl::string t = nanostl::to_string(f);
  double g = nanostl::stod(t);
  REQUIRE_MSG(dbits(f) == dbits(g), "stod(to_string(%a)) = stod(\"%s\") is %a", f, t.c_str(), g);
  return f != 0;
}
SWEEP(floats, 0, 1ull << 32, Q, T, "stof(to_string(f)) is f, bit for bit, for finite floats (thorough: all of them)") { return floats_(bits2f((uint32_t)x)); }
SWEEP(doubles, 0, ~0ull, Q, TD, "stod(to_string(d)) is d, bit for bit, for finite doubles over the whole bit range") { return doubles_(bits2d(x)); }
PROPERTY(structured, 500000, 40000000, "structured doubles and floats round trip; a float also survives through to_string(double)") {
  double d = any_double(s);
  float f = any_float(s);
  s.note("%a %a\n", d, f);
  LeakCheck l;
  {
    if (doubles_(d)) s.nontrivial();
    floats_(f);
    if (f - f == 0) REQUIRE(nanostl::stod(nanostl::to_string((double)f)) == (double)f);
    const nanostl::string n = nanostl::to_string(d);
    nanostl::string copy(n);
    copy += "0";
    REQUIRE(d != d || d - d != 0 || dbits(nanostl::stod(n)) == dbits(d));
  }
  l.done();
}
PROPERTY(integers, 400000, 40000000, "integers printed by to_string are read back exactly when representable, rounded correctly otherwise") {
  i64 v = s.edgy(-99999999999999999ll, 99999999999999999ll);
  s.note("%lld\n", (long long)v);
  LeakCheck l;
  {
    double g = nanostl::stod(nanostl::to_string((nanostl::int64_t)v));
    REQUIRE_MSG(dbits(g) == dbits((double)v), "stod(to_string(%lld)) is %a", (long long)v, g);
    if (v >= 0) REQUIRE(dbits(nanostl::stod(nanostl::to_string((nanostl::uint64_t)v))) == dbits((double)v));
    int w = (int)(v % 1000000000);
    float h = nanostl::stof(nanostl::to_string(w));
    REQUIRE_MSG(fbits(h) == fbits((float)w), "stof(to_string(%d)) is %a", w, h);
    if (w >= 0) REQUIRE(fbits(nanostl::stof(nanostl::to_string((unsigned)w))) == fbits((float)w));
    if (v > 9 || v < -9) s.nontrivial();
  }
  l.done();
}
