// C07: map copies are independent, references stay valid, nothing leaks, operations are logarithmic.
#define PBT_MAIN
#include <map>
#include "nano_pre.h"
#include "strgen.h"
#define NANOSTL_STRING_IMPLEMENTATION
#include "nanomap.h"
#include "nanostring.h"
using pbt::i64;
using pbt::Src;
using pbt::Tracked;
typedef nanostl::map<Tracked, Tracked> Map;
typedef std::map<i64, i64> Ref;

static void same(Map &m, const Ref &r, const char *what, size_t op) {
  Map::iterator it = m.begin();
  for (Ref::const_iterator e = r.begin(); e != r.end(); ++e, ++it) {
    REQUIRE_MSG(it != m.end(), "key %lld and what follows is missing, after op %zu %s", (long long)e->first, op, what);
    REQUIRE_MSG(it->first.get() == e->first && it->second.get() == e->second, "element (%lld,%lld), reference (%lld,%lld), after op %zu %s", (long long)it->first.get(),
                (long long)it->second.get(), (long long)e->first, (long long)e->second, op, what);
  }
  REQUIRE_MSG(it == m.end(), "more keys than the reference, after op %zu %s", op, what);
}

PROPERTY(copies, 10000, 800000, "copies of a map are deep: changing one never changes another; assignment replaces; nothing leaks") {
  pbt::LeakCheck leaks;
  size_t deep = 0;
  {
    enum { POOL = 3 };
    Map m[POOL];
    Ref r[POOL];
    size_t op = 0;
    i64 fresh = 1;
    while (s.more(25)) {
      op++;
      size_t a = (size_t)s.below(POOL), b = (size_t)s.below(POOL);
      i64 k = s.range(-10, 10);
      const char *name = "";
      switch (s.below(7)) {
        case 0:
        case 1: {
          name = "insert";
          i64 x = fresh++;
          s.note("m%zu.insert(%lld, %lld)\n", a, (long long)k, (long long)x);
          m[a].insert(Map::value_type(Tracked(k), Tracked(x)));
          r[a].insert(std::make_pair(k, x));
          break;
        }
        case 2:
          name = "[]=";
          s.note("m%zu[%lld] = %lld\n", a, (long long)k, (long long)fresh);
          m[a][Tracked(k)] = Tracked(fresh);
          r[a][k] = fresh++;
          break;
        case 3: {
          name = "assignment";
          s.note("m%zu = m%zu\n", a, b);
          Map &t = (m[a] = m[b]);
          REQUIRE(&t == &m[a]);
          if (a != b) r[a] = r[b], deep += r[a].size() > 1;
          break;
        }
        case 4: {
          name = "copy construction";
          s.note("map t(m%zu), changed; m%zu = t\n", b, a);
          Map t(m[b]);
          Ref tr(r[b]);
          same(t, tr, name, op);
          t[Tracked(k)] = Tracked(fresh);
          tr[k] = fresh++;
          same(m[b], r[b], "changing a copy", op);
          if (s.flip()) m[a] = t, r[a] = tr;
          deep += tr.size() > 1;
          break;
        }
        case 5: {
          name = "write through an iterator";
          if (r[a].empty()) break;
          size_t i = (size_t)s.below(r[a].size());
          Map::iterator it = m[a].begin();
          Ref::iterator e = r[a].begin();
          for (size_t j = 0; j < i; j++) ++it, ++e;
          s.note("m%zu element %zu = %lld\n", a, i, (long long)fresh);
          it->second = Tracked(fresh);
          e->second = fresh++;
          break;
        }
        default: {
          name = "insertions";
          size_t n = (size_t)s.size(24);
          s.note("%zu insertions into m%zu\n", n, a);
          for (size_t i = 0; i < n; i++) {
            i64 q = s.range(-40, 40);
            m[a].insert(Map::value_type(Tracked(q), Tracked(fresh)));
            r[a].insert(std::make_pair(q, fresh++));
          }
        }
      }
      for (size_t j = 0; j < POOL; j++) same(m[j], r[j], name, op);
    }
  }
  if (deep) s.nontrivial();
  leaks.done();
}

PROPERTY(references, 20000, 500000, "references and iterators to elements stay valid and in place while other keys are inserted") {
  pbt::LeakCheck leaks;
  size_t kept = 0;
  {
    Map m;
    std::map<i64, std::pair<const Tracked *, Tracked *> > refs;
    std::map<i64, Map::iterator> its;
    Ref r;
    i64 fresh = 1;
    size_t n = 2 + (size_t)s.size(120);
    unsigned pattern = (unsigned)s.below(3);
    s.note("%zu insertions, pattern %u:", n, pattern);
    for (size_t i = 0; i < n; i++) {
      i64 k = pattern == 0 ? s.range(-30, 30) : pattern == 1 ? (i64)i : -(i64)i;
      s.note(" %lld", (long long)k);
      Map::pair_iterator_bool p = m.insert(Map::value_type(Tracked(k), Tracked(fresh)));
      if (r.insert(std::make_pair(k, fresh)).second) {
        refs[k] = std::make_pair(&p.first->first, &p.first->second);
        its[k] = p.first;
      }
      fresh++;
      if (s.chance(1, 3)) {  // write through an old reference
        Ref::iterator e = r.lower_bound(s.range(-30, 30));
        if (e == r.end()) e = r.begin();
        *refs[e->first].second = Tracked(fresh);
        e->second = fresh++;
        kept++;
      }
    }
    same(m, r, "the insertions", n);
    for (Ref::iterator e = r.begin(); e != r.end(); ++e) {
      REQUIRE_MSG(refs[e->first].first->get() == e->first && refs[e->first].second->get() == e->second, "the reference to key %lld went stale", (long long)e->first);
      Map::iterator it = m.find(Tracked(e->first));
      REQUIRE_MSG(&it->second == refs[e->first].second, "key %lld moved", (long long)e->first);
      REQUIRE_MSG(its[e->first] == it && its[e->first]->second.get() == e->second, "the iterator to key %lld went stale", (long long)e->first);
      Map::iterator nx = its[e->first];
      ++nx;
      Ref::iterator f = e;
      ++f;
      REQUIRE_MSG(f == r.end() ? nx == m.end() : nx->first.get() == f->first, "an old iterator at %lld steps to the wrong key", (long long)e->first);
    }
  }
  if (kept) s.nontrivial();
  leaks.done();
}

struct CKey {
  static unsigned long long cmp;
  int v;
  CKey() : v(0) {}
  explicit CKey(int x) : v(x) {}
  bool operator==(const CKey &o) const { return cmp++, v == o.v; }
  bool operator!=(const CKey &o) const { return cmp++, v != o.v; }
  bool operator<(const CKey &o) const { return cmp++, v < o.v; }
  bool operator>(const CKey &o) const { return cmp++, v > o.v; }
  bool operator<=(const CKey &o) const { return cmp++, v <= o.v; }
  bool operator>=(const CKey &o) const { return cmp++, v >= o.v; }
};
unsigned long long CKey::cmp = 0;

PROPERTY(cost, 60, 800, "insertion, lookup, upper_bound and stepping need O(log n) key comparisons on average, for every insertion order") {
  size_t n = 4000 + (size_t)s.below(30000);
  unsigned pattern = (unsigned)s.below(6);
  unsigned a = (unsigned)s.bits64() | 1;
  static const char *names[] = {"ascending", "descending", "multiplicative", "organ pipe", "zigzag", "blocks"};
  s.note("%zu keys, %s\n", n, names[pattern]);
  s.label(names[pattern]);
  nanostl::map<CKey, int> m;
  unsigned lg = 0;
  while ((1ull << lg) < n) lg++;
  // a balanced tree with up to three comparisons per level, with a factor of about four to spare
  unsigned long long per = 12ull * lg + 40;
  std::vector<int> keys;
  CKey::cmp = 0;
  for (size_t i = 0; i < n; i++) {
    int k;
    switch (pattern) {
      case 0: k = (int)i; break;
      case 1: k = -(int)i; break;
      case 2: k = (int)((unsigned)i * a); break;
      case 3: k = i < n / 2 ? (int)i * 2 : (int)(n - i) * 2 + 1; break;
      case 4: k = i & 1 ? (int)i : -(int)i; break;
      default: k = (int)((i % 64) * 100000 + i / 64); break;
    }
    keys.push_back(k);
    m.insert(nanostl::map<CKey, int>::value_type(CKey(k), (int)i));
  }
  REQUIRE_MSG(CKey::cmp <= per * n, "%llu comparisons per insertion into %zu keys (%s)", CKey::cmp / n, n, names[pattern]);
  CKey::cmp = 0;
  for (size_t i = 0; i < n; i++) m.find(CKey(keys[i]));
  REQUIRE_MSG(CKey::cmp <= per * n, "%llu comparisons per find in %zu keys (%s)", CKey::cmp / n, n, names[pattern]);
  CKey::cmp = 0;
  for (size_t i = 0; i < n; i++) m.upper_bound(CKey(keys[i]));
  REQUIRE_MSG(CKey::cmp <= per * n, "%llu comparisons per upper_bound in %zu keys (%s)", CKey::cmp / n, n, names[pattern]);
  CKey::cmp = 0;
  size_t steps = 0;
  for (nanostl::map<CKey, int>::iterator it = m.begin(); it != m.end(); ++it) steps++;
  REQUIRE_MSG(CKey::cmp <= per * n, "%llu comparisons per step through %zu keys (%s)", CKey::cmp / n, n, names[pattern]);
  // a copy is as good as the original
  nanostl::map<CKey, int> c(m);
  CKey::cmp = 0;
  for (size_t i = 0; i < n; i++) REQUIRE(c.find(CKey(keys[i])) != c.end());
  REQUIRE_MSG(CKey::cmp <= per * n, "%llu comparisons per find in a copy of %zu keys (%s)", CKey::cmp / n, n, names[pattern]);
  s.nontrivial();
}

PROPERTY(owning_values, 20000, 400000, "maps from strings to vectors of strings keep their contents apart and leak nothing") {
  pbt::LeakCheck leaks;
  {
    typedef nanostl::map<nanostl::string, nanostl::vector<nanostl::string> > M;
    M m;
    std::map<std::string, std::vector<std::string> > r;
    size_t n = (size_t)s.size(60), again = 0;
    for (size_t i = 0; i < n; i++) {
      std::string k = pbt::any_string(s, 3, false), v = pbt::any_string(s, 30, false);
      again += r.count(k);
      s.note("[%s].push_back(%s)\n", pbt::show(k).c_str(), pbt::show(v).c_str());
      m[nanostl::string(k.c_str())].push_back(nanostl::string(v.c_str()));
      r[k].push_back(v);
    }
    M c(m);
    for (int pass = 0; pass < 2; pass++) {
      M::iterator it = c.begin();
      for (std::map<std::string, std::vector<std::string> >::iterator e = r.begin(); e != r.end(); ++e, ++it) {
        REQUIRE(it != c.end());
        REQUIRE_MSG(std::string(it->first.c_str()) == e->first && it->second.size() == e->second.size(), "key %s", pbt::show(e->first).c_str());
        for (size_t i = 0; i < e->second.size(); i++) REQUIRE(std::string(it->second[i].c_str()) == e->second[i]);
      }
      REQUIRE(it == c.end());
      for (M::iterator q = m.begin(); q != m.end(); ++q) q->second.clear();  // does not reach the copy
    }
    if (n > 3 && again) s.nontrivial();
  }
  leaks.done();
}
