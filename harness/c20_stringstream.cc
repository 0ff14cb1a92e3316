// C20: stringstream is an accumulating string.
#define PBT_MAIN
#include "numtext.h"
#include "nanosstream.h"
using namespace pbt;
using nanostl::stringstream;

static void check(stringstream &t, const std::string &m, const char *what, size_t op) {
  const nanostl::string &s = t.str();
  REQUIRE_MSG(s.size() == m.size() && memcmp(s.c_str(), m.c_str(), m.size() + 1) == 0, "content is %s instead of %s after %s (op %zu)", show(plain(s)).c_str(), show(m).c_str(), what, op);
  REQUIRE(&t.str() == &s);
}
PROPERTY(histories, 100000, 4000000, "stringstream histories: content is the concatenation of what was inserted since the last clear") {
  enum { POOL = 2 };
  LeakCheck l;
  size_t op = 0, grown = 0, reset = 0;
  {
    stringstream o[POOL];
    std::string m[POOL];
    for (int k = 0; k < POOL; k++) check(o[k], m[k], "construction", 0);
    while (s.more(25)) {
      op++;
      int a = (int)s.below(POOL), b = 1 - a;
      const char *name = "";
      switch (s.below(s.chance(1, 60) ? 10 : 9)) {
        case 0:
        case 1: {
          name = "insertion";
          std::string t = any_string(s, 60, true);
          const nanostl::string n(t.data(), t.data() + t.size());
          s.note("o%d << %s\n", a, show(t).c_str());
          stringstream &r = (o[a] << n);
          REQUIRE(&r == &o[a] && plain(n) == t);
          m[a] += t;
          grown += !t.empty();
          break;
        }
        case 2: {
          name = "chained insertion";
          std::string t = any_string(s, 20, false), u = any_string(s, 20, false);
          s.note("o%d << %s << %s << literal\n", a, show(t).c_str(), show(u).c_str());
          o[a] << nanostl::string(t.c_str()) << u.c_str() << ", ";
          m[a] += t + u + ", ";
          grown++;
          break;
        }
        case 3: {
          name = "insertion of its own content";
          if (m[a].size() > 100000) break;
          s.note("o%d << o%d.str()\n", a, a);
          o[a] << o[a].str();
          m[a] += m[a];
          break;
        }
        case 4: {
          name = "insertion of the other's content";
          if (m[a].size() + m[b].size() > 100000) break;
          s.note("o%d << o%d.str()\n", a, b);
          o[a] << o[b].str();
          m[a] += m[b];
          break;
        }
        case 5: {
          name = "insertion of a number";
          i64 v = s.edgy(-2147483648ll, 2147483647);
          s.note("o%d << to_string(%lld)\n", a, (long long)v);
          o[a] << nanostl::to_string((int)v);
          m[a] += fmt("%lld", (long long)v);
          break;
        }
        case 6:
          name = "clear";
          s.note("o%d.clear()\n", a);
          o[a].clear();
          reset += !m[a].empty();
          m[a].clear();
          break;
        case 7:
          name = "move assignment";
          s.note("o%d = move(o%d)\n", a, b);
          o[a] = nanostl::move(o[b]);
          m[a] = m[b];
          m[b].clear();
          break;
        case 9: {
          name = "insertion of a long string";
          if (m[a].size() > 200000) break;
          const std::string t = long_string(s, 8, 16, true);
          s.note("o%d << %zu characters\n", a, t.size());
          o[a] << nanostl::string(t.data(), t.data() + t.size());
          m[a] += t;
          break;
        }
        default: {
          name = "change through str()";
          s.note("change a copy of o%d.str(); then o%d.str() itself\n", a, a);
          nanostl::string c(o[a].str());
          c += "changed";
          check(o[a], m[a], "changing a copy of str()", op);
          std::string t = any_string(s, 8, false);
          if (m[a].size() > 100000) break;
          o[a].str() += t.c_str();
          m[a] += t;
        }
      }
      for (int k = 0; k < POOL; k++) check(o[k], m[k], name, op);
    }
  }
  l.done();
  if (op >= 3 && grown > 1 && reset) s.nontrivial();
}
