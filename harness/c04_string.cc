// C04: string content.  Model: std::string, over histories on a pool of three strings.
#define PBT_MAIN
#include "nano_pre.h"
#include "strgen.h"
#define NANOSTL_STRING_IMPLEMENTATION
#include "nanostring.h"
using pbt::Src;
using pbt::show;
typedef nanostl::string S;

static void same(const S &a, const std::string &m, const char *what, size_t op) {
  REQUIRE_MSG(a.size() == m.size(), "size() is %llu, reference %zu %s, after op %zu %s", (unsigned long long)a.size(), m.size(), show(m).c_str(), op, what);
  REQUIRE_MSG(a.length() == m.size(), "length() is %llu, reference %zu, after op %zu %s", (unsigned long long)a.length(), m.size(), op, what);
  REQUIRE_MSG(a.empty() == m.empty(), "empty() is %d for size %zu, after op %zu %s", (int)a.empty(), m.size(), op, what);
  const char *c = a.c_str();
  for (size_t i = 0; i < m.size(); i++) {
    REQUIRE_MSG(c[i] == m[i], "c_str()[%zu] is %d, reference %s, after op %zu %s", i, (int)c[i], show(m).c_str(), op, what);
    REQUIRE_MSG(a[i] == m[i] && a.at(i) == m[i], "[%zu] is %d, reference %s, after op %zu %s", i, (int)a[i], show(m).c_str(), op, what);
  }
  REQUIRE_MSG(c[m.size()] == '\0', "c_str() is not NUL terminated (%d at %zu), after op %zu %s", (int)c[m.size()], m.size(), op, what);
}

PROPERTY(histories, 120000, 1500000, "string agrees with the reference string after every operation") {
  pbt::LeakCheck leaks;
  bool appended = false, removed = false, copied = false;
  {
    enum { POOL = 3 };
    S v[POOL];
    std::string m[POOL];
    size_t op = 0;
    for (size_t k = 0; k < POOL; k++) same(v[k], m[k], "default construction", 0);
    while (s.more(25)) {
      op++;
      const char *name = "";
      size_t a = (size_t)s.below(POOL), b = (size_t)s.below(POOL);
      size_t before = m[a].size();
      switch (s.below(15)) {
        case 0: {
          name = "construction from a C string";
          pbt::Pause *pp = 0;
          (void)pp;
          std::string x = pbt::any_string(s, 150, false);
          s.note("v%zu = string(%s)\n", a, show(x).c_str());
          S t(x.c_str());
          same(t, x, name, op);
          v[a] = t;
          m[a] = x;
          break;
        }
        case 1: {
          name = "construction from a range";
          std::string x = pbt::any_string(s, 150, true);
          s.note("v%zu = string(first, last) of %s\n", a, show(x).c_str());
          // exactly sized storage, so that a read past the end is seen
          char *p = new char[x.size() ? x.size() : 1];
          memcpy(p, x.data(), x.size());
          {
            S t((const char *)p, (const char *)p + x.size());
            delete[] p;
            same(t, x, name, op);
            v[a] = t;
          }
          m[a] = x;
          break;
        }
        case 2: {
          name = "construction from pointer and count";
          std::string x = pbt::any_string(s, 150, true);
          s.note("v%zu = string(p, %zu) of %s\n", a, x.size(), show(x).c_str());
          char *p = new char[x.size() ? x.size() : 1];
          memcpy(p, x.data(), x.size());
          {
            S t((const char *)p, (S::size_type)x.size());
            delete[] p;
            same(t, x, name, op);
            v[a] = t;
          }
          m[a] = x;
          break;
        }
        case 3: {
          name = "copy construction";
          s.note("string t(v%zu), changed; v%zu = t\n", b, a);
          S t(v[b]);
          std::string tm(m[b]);
          same(t, tm, name, op);
          if (!tm.empty()) {
            t[0] = 'Q';
            tm[0] = 'Q';
            copied = true;
          }
          t += "tail";
          tm += "tail";
          same(v[b], m[b], "changing a copy", op);
          v[a] = t;
          m[a] = tm;
          break;
        }
        case 4: {
          name = "assignment";
          s.note("v%zu = v%zu\n", a, b);
          S &r = (v[a] = v[b]);
          REQUIRE(&r == &v[a]);
          if (a != b) m[a] = m[b], copied = copied || !m[b].empty();
          break;
        }
        case 5: {
          name = "assignment from a C string";
          std::string x = pbt::any_string(s, 40, false);
          s.note("v%zu = %s\n", a, show(x).c_str());
          v[a] = x.c_str();
          m[a] = x;
          break;
        }
        case 6:
        case 7: {
          name = "+=";
          if (m[a].size() + m[b].size() > 5000) break;
          s.note("v%zu += v%zu  // sizes %zu, %zu\n", a, b, m[a].size(), m[b].size());
          S &r = (v[a] += v[b]);
          REQUIRE(&r == &v[a]);
          m[a] += std::string(m[b]);
          if (a == b) s.label("appended to itself");
          break;
        }
        case 8: {
          name = "+= C string";
          std::string x = pbt::any_string(s, 40, false);
          s.note("v%zu += %s\n", a, show(x).c_str());
          v[a] += x.c_str();
          m[a] += x;
          break;
        }
        case 9: {
          name = "+";
          if (m[a].size() + m[b].size() > 5000) break;
          s.note("v2 = v%zu + v%zu\n", a, b);
          S t = v[a] + v[b];
          same(t, m[a] + m[b], name, op);
          same(v[a], m[a], "being the left operand of +", op);
          same(v[b], m[b], "being the right operand of +", op);
          std::string tm = m[a] + m[b];
          v[2] = t;
          m[2] = tm;
          break;
        }
        case 10: {
          name = "+ C string";
          std::string x = pbt::any_string(s, 20, false);
          s.note("v%zu = v%zu + %s + v%zu\n", a, a, show(x).c_str(), b);
          if (m[a].size() + m[b].size() > 5000) break;
          v[a] = v[a] + x.c_str() + v[b];
          m[a] = m[a] + x + m[b];
          break;
        }
        case 11: {
          name = "erase";
          if (m[a].empty()) break;
          size_t i = s.chance(1, 4) ? m[a].size() - 1 : (size_t)s.below(m[a].size());
          s.note("v%zu.erase(%zu)  // size %zu\n", a, i, before);
          S::iterator r = v[a].erase(&v[a][0] + i);
          m[a].erase(m[a].begin() + (long)i);
          REQUIRE_MSG(r == v[a].c_str() + i, "erase of character %zu returned the position of %lld (op %zu)", i, (long long)(r - v[a].c_str()), op);
          break;
        }
        case 12:
          name = "clear";
          s.note("v%zu.clear()\n", a);
          v[a].clear();
          m[a].clear();
          break;
        case 13: {
          name = "write";
          if (m[a].empty()) break;
          size_t i = (size_t)s.below(m[a].size());
          char c = pbt::any_char(s, true);
          s.note("v%zu[%zu] = %d\n", a, i, (int)c);
          if (s.flip()) v[a][i] = c;
          else v[a].at(i) = c;
          m[a][i] = c;
          break;
        }
        default: {
          name = "many appends";
          size_t n = (size_t)s.size(70);
          char c[2] = {pbt::any_char(s, false), 0};
          s.note("%zu times v%zu += %d\n", n, a, (int)c[0]);
          for (size_t i = 0; i < n && m[a].size() < 6000; i++) v[a] += c, m[a] += c;
        }
      }
      if (m[a].size() > before) appended = true;
      if (m[a].size() < before) removed = true;
      for (size_t k = 0; k < POOL; k++) same(v[k], m[k], name, op);
    }
    if (op >= 3 && appended && (removed || copied)) s.nontrivial();
  }
  leaks.done();
}

PROPERTY(null_pointer, 2000, 20000, "constructing from a null C string gives the empty string; empty strings behave") {
  pbt::LeakCheck leaks;
  {
    S a((const char *)0), b(""), c;
    std::string x = pbt::any_string(s, 60, true);
    same(a, "", "construction from a null pointer", 0);
    same(b, "", "construction from an empty C string", 0);
    S t(x.data(), (S::size_type)x.size());
    S d(t.c_str(), t.c_str());
    same(d, "", "construction from an empty range", 0);
    S e(t.c_str(), (S::size_type)0);
    same(e, "", "construction from a zero count", 0);
    a += t;
    same(a, x, "appending to an empty string", 1);
    t += c;
    same(t, x, "appending an empty string", 1);
    b += c;
    same(b, "", "appending empty to empty", 1);
    // part of another string
    if (x.size() > 1) {
      size_t i = (size_t)s.below(x.size()), j = i + (size_t)s.below(x.size() - i + 1);
      s.note("part [%zu, %zu) of %s\n", i, j, show(x).c_str());
      S p(t.c_str() + i, t.c_str() + j), q(t.c_str() + i, (S::size_type)(j - i));
      same(p, x.substr(i, j - i), "construction from part of a string", 2);
      same(q, x.substr(i, j - i), "construction from part of a string", 2);
      s.nontrivial();
    }
  }
  leaks.done();
}

static void same_bulk(const S &a, const std::string &m, const char *what, size_t op) {
  REQUIRE_MSG(a.size() == m.size() && a.length() == m.size() && a.empty() == m.empty(), "size() is %llu, reference %zu, after op %zu %s", (unsigned long long)a.size(), m.size(), op, what);
  const char *c = a.c_str();
  for (size_t i = 0; i < m.size(); i++)
    if (c[i] != m[i]) REQUIRE_MSG(false, "c_str()[%zu] is %d, reference %d of %zu, after op %zu %s", i, (int)c[i], (int)m[i], m.size(), op, what);
  REQUIRE_MSG(c[m.size()] == '\0', "c_str() is not NUL terminated, after op %zu %s", op, what);
}
PROPERTY(large, 400, 10000, "long strings (up to a quarter of a million characters) agree with the reference string") {
  pbt::LeakCheck leaks;
  {
    std::string x = pbt::long_string(s, 7, 17, true);
    const bool c_string = s.flip();
    if (c_string) x = x.c_str();
    s.note("%s\n", show(x).c_str());
    char *p = (char *)malloc(x.size() + c_string + (x.empty() && !c_string));
    memcpy(p, x.c_str(), x.size() + c_string);
    S a = c_string ? S(p) : s.flip() ? S(p, (S::size_type)x.size()) : S((const char *)p, (const char *)p + x.size());
    std::string m = x;
    same_bulk(a, m, "construction", 0);
    for (size_t op = 1; s.more(5) && m.size() < 600000; op++) {
      const char *name = "";
      switch (s.below(6)) {
        case 0: name = "+= itself", a += a, m += std::string(m); break;
        case 1: {
          name = "+= a string";
          const std::string y = pbt::long_string(s, 2, 16, true);
          a += S(y.data(), (S::size_type)y.size());
          m += y;
          break;
        }
        case 2: {
          name = "+= a C string";
          const std::string y = pbt::long_string(s, 2, 16, false);
          a += y.c_str();
          m += y;
          break;
        }
        case 3: {
          name = "erase";
          if (m.empty()) break;
          const size_t i = s.flip() ? (size_t)s.below(m.size()) : m.size() - 1;
          const S::iterator r = a.erase(&a[0] + i);
          m.erase(m.begin() + (long)i);
          REQUIRE(r == a.c_str() + i);
          break;
        }
        case 4: {
          name = "a copy";
          S t(a), u;
          u = t;
          if (!m.empty()) t[0] = (char)(m[0] + 1);
          same_bulk(a, m, "a change of a copy", op);
          a = u + "!";
          m += "!";
          break;
        }
        default: {
          name = "a write";
          if (m.empty()) break;
          const size_t i = (size_t)s.below(m.size());
          a[i] = 'w', m[i] = 'w';
        }
      }
      s.note("%s, then %zu characters\n", name, m.size());
      same_bulk(a, m, name, op);
    }
    free(p);
    s.nontrivial();
    s.label(m.size() > 65535 ? "more than 65535 characters" : "fewer");
  }
  leaks.done();
}
