// C05: string comparison.  Oracle: lexicographic order of unsigned bytes, shorter prefix first.
#define PBT_MAIN
#include "nano_pre.h"
#include "strgen.h"
#define NANOSTL_STRING_IMPLEMENTATION
#include "nanostring.h"
using pbt::Src;
using pbt::show;
typedef nanostl::string S;

static int sgn(long long x) { return x < 0 ? -1 : x > 0; }
static int ref(const std::string &a, const std::string &b) {
  for (size_t i = 0; i < a.size() && i < b.size(); i++) {
    unsigned char x = (unsigned char)a[i], y = (unsigned char)b[i];
    if (x != y) return x < y ? -1 : 1;
  }
  return a.size() == b.size() ? 0 : a.size() < b.size() ? -1 : 1;
}
static S make(const std::string &x) { return S(x.data(), (S::size_type)x.size()); }

// A string related to x: equal, a prefix, an extension, or differing in one byte.
static std::string related(Src &s, const std::string &x, bool nul) {
  std::string y = x;
  switch (s.below(6)) {
    case 0: break;
    case 1: y = x.substr(0, (size_t)s.below(x.size() + 1)); break;
    case 2: y += pbt::any_string(s, 6, nul); break;
    case 3:
    case 4:
      if (!y.empty()) y[(size_t)s.below(y.size())] = pbt::any_char(s, nul);
      if (s.flip()) y += pbt::any_string(s, 4, nul);
      break;
    default: y = pbt::any_string(s, 20, nul);
  }
  return y;
}

static void check_pair(const S &a, const S &b, const std::string &x, const std::string &y) {
  int r = ref(x, y);
  int c = a.compare(b);
  REQUIRE_MSG(sgn(c) == r, "%s .compare %s is %d, reference %d", show(x).c_str(), show(y).c_str(), c, r);
  REQUIRE_MSG((a == b) == (r == 0), "%s == %s is %d", show(x).c_str(), show(y).c_str(), (int)(a == b));
  REQUIRE_MSG((a != b) == (r != 0), "%s != %s is %d", show(x).c_str(), show(y).c_str(), (int)(a != b));
  REQUIRE_MSG((a < b) == (r < 0), "%s < %s is %d", show(x).c_str(), show(y).c_str(), (int)(a < b));
  REQUIRE_MSG((a > b) == (r > 0), "%s > %s is %d", show(x).c_str(), show(y).c_str(), (int)(a > b));
}

PROPERTY(strings, 400000, 12000000, "string/string comparison is the lexicographic order of unsigned bytes, embedded NULs included") {
  std::string x = pbt::any_string(s, 24, true), y = related(s, x, true), z = related(s, y, true);
  s.note("%s, %s, %s\n", show(x).c_str(), show(y).c_str(), show(z).c_str());
  S a = make(x), b = make(y), c = make(z);
  check_pair(a, b, x, y);
  check_pair(b, a, y, x);
  check_pair(a, a, x, x);
  check_pair(b, c, y, z);
  check_pair(a, c, x, z);
  int r = ref(x, y);
  s.label(r == 0 ? "equal" : "different");
  bool high = false, nul = false;
  for (size_t i = 0; i < x.size(); i++) high |= (signed char)x[i] < 0, nul |= x[i] == 0;
  if (high) s.label("byte >= 0x80");
  if (nul) s.label("embedded NUL");
  if (!x.empty() && !y.empty() && x[0] == y[0]) s.nontrivial();
}

PROPERTY(c_strings, 300000, 9000000, "string/C string comparison agrees with string/string comparison") {
  // the string may hold NULs, the C string ends at its first one
  std::string x = pbt::any_string(s, 24, s.chance(1, 3)), y = related(s, x, s.chance(1, 4));
  y = y.c_str();
  if (x.find('\0') != std::string::npos) s.label("embedded NUL");
  s.note("%s, C string %s\n", show(x).c_str(), show(y).c_str());
  S a = make(x);
  char *p = new char[y.size() + 1];
  memcpy(p, y.c_str(), y.size() + 1);
  int r = ref(x, y);
  int c = a.compare(p);
  bool eq = a == p, ne = a != p, lt = a < p, gt = a > p;
  delete[] p;
  REQUIRE_MSG(sgn(c) == r, "%s .compare %s is %d, reference %d", show(x).c_str(), show(y).c_str(), c, r);
  REQUIRE_MSG(eq == (r == 0) && ne == (r != 0) && lt == (r < 0) && gt == (r > 0), "%s against %s: == %d, != %d, < %d, > %d", show(x).c_str(),
              show(y).c_str(), eq, ne, lt, gt);
  if (!x.empty() && !y.empty() && x[0] == y[0]) s.nontrivial();
}

// The order does not depend on how a string came to have its content.
PROPERTY(built_differently, 60000, 1500000, "equal contents compare equal however they were built") {
  std::string x = pbt::any_string(s, 40, true);
  size_t i = (size_t)s.below(x.size() + 1);
  S a = make(x), b = make(x.substr(0, i)), c;
  b += make(x.substr(i));
  for (size_t k = 0; k < x.size(); k++) c += make(x.substr(k, 1));
  S d = make(x + "zz");
  d.erase(&d[0] + x.size());
  d.erase(&d[0] + x.size());
  S e = make(pbt::any_string(s, 80, true));
  e = a;
  const S *all[] = {&a, &b, &c, &d, &e};
  for (int p = 0; p < 5; p++)
    for (int q = 0; q < 5; q++) check_pair(*all[p], *all[q], x, x);
  std::string y = related(s, x, true);
  S f = make(y);
  for (int p = 0; p < 5; p++) check_pair(*all[p], f, x, y), check_pair(f, *all[p], y, x);
  s.note("%s built in five ways\n", show(x).c_str());
  if (x.size() > 2) s.nontrivial();
}

// Long strings: the same up to a place anywhere, and lengths far apart.
PROPERTY(long_strings, 6000, 200000, "comparison of strings of up to 130000 characters that differ late, or in length only") {
  const std::string x = pbt::long_string(s, 3, 16, true);
  std::string y = x;
  if (s.flip() && !y.empty()) {
    const size_t i = s.flip() ? (size_t)s.below(y.size()) : y.size() - 1;
    y[i] = (char)(y[i] + s.range(-128, 127));
  }
  switch (s.below(4)) {
    case 0: y += pbt::long_string(s, 2, 16, true); break;
    case 1: y.resize((size_t)s.below(y.size() + 1)); break;
    case 2: y.resize(y.size() - (y.size() ? 1 : 0)); break;
    default: break;
  }
  s.note("%zu and %zu characters\n", x.size(), y.size());
  const S a = make(x), b = make(y);
  check_pair(a, b, x, y);
  check_pair(b, a, y, x);
  const std::string z = y.c_str();
  const int r = ref(x, z), c = a.compare(z.c_str());
  REQUIRE_MSG(sgn(c) == r && (a == z.c_str()) == (r == 0) && (a < z.c_str()) == (r < 0) && (a > z.c_str()) == (r > 0) && (a != z.c_str()) == (r != 0), "a string of %zu against a C string of %zu characters", x.size(), z.size());
  if (x.size() > 255) s.nontrivial();
}
