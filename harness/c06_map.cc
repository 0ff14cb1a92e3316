// C06: map content, lookup and iteration order.  Model: std::map.
#define PBT_MAIN
#include <map>
#include "nano_pre.h"
#include "strgen.h"
#define NANOSTL_STRING_IMPLEMENTATION
#include "nanomap.h"
#include "nanostring.h"
using pbt::i64;
using pbt::Src;

template <class K>
struct Key;
template <>
struct Key<int> {
  typedef int M;
  static int gen(Src &s, unsigned spread) {
    if (spread == 0) return (int)s.range(-6, 6);
    if (spread == 1) return (int)s.range(0, 300);
    return (int)s.edgy(-2147483647 - 1, 2147483647);
  }
  static int make(int m) { return m; }
  static bool is(int k, int m) { return k == m; }
  static std::string str(int m) { return pbt::fmt("%d", m); }
};
template <>
struct Key<unsigned long long> {
  typedef unsigned long long M;
  static M gen(Src &s, unsigned spread) {
    if (spread == 0) return s.below(12);
    if (spread == 1) return (1ull << s.below(64)) + s.below(3) - 1;
    return s.bits64();
  }
  static M make(M m) { return m; }
  static bool is(M k, M m) { return k == m; }
  static std::string str(M m) { return pbt::fmt("%llu", m); }
};
template <>
struct Key<nanostl::string> {
  typedef std::string M;
  static M gen(Src &s, unsigned spread) {
    std::string r;
    size_t n = spread == 0 ? (size_t)s.below(3) : (size_t)s.size(30);
    for (size_t i = 0; i < n; i++) r += spread < 2 ? (char)('a' + s.below(3)) : pbt::any_char(s, true);
    return r;
  }
  static nanostl::string make(const M &m) { return nanostl::string(m.data(), (nanostl::string::size_type)m.size()); }
  static bool is(const nanostl::string &k, const M &m) { return k.size() == m.size() && memcmp(k.c_str(), m.data(), m.size()) == 0; }
  static std::string str(const M &m) { return pbt::show(m); }
};
// std::string compares chars as unsigned bytes, which is the order C05 states.

template <class K, class V, class R>
static void same_map(const nanostl::map<K, V> &cm, nanostl::map<K, V> &m, const R &r, const char *what, size_t op) {
  typedef Key<K> G;
  REQUIRE_MSG(cm.empty() == r.empty(), "empty() is %d with %zu keys, after op %zu %s", (int)cm.empty(), r.size(), op, what);
  typename nanostl::map<K, V>::iterator it = m.begin();
  size_t n = 0;
  for (typename R::const_iterator e = r.begin(); e != r.end(); ++e, ++it, ++n) {
    REQUIRE_MSG(it != m.end() && !it.isEnd(), "iteration ends after %zu of %zu keys, after op %zu %s", n, r.size(), op, what);
    REQUIRE_MSG(G::is(it->first, e->first), "key number %zu of the iteration is not %s, after op %zu %s", n, G::str(e->first).c_str(), op, what);
    REQUIRE_MSG((*it).second == e->second, "value of key %s is %lld, reference %lld, after op %zu %s", G::str(e->first).c_str(), (long long)(*it).second, (long long)e->second, op, what);
  }
  REQUIRE_MSG(it == m.end() && it.isEnd(), "iteration goes on after %zu keys, after op %zu %s", n, op, what);
}

template <class K>
static void history(Src &s, unsigned mean) {
  typedef Key<K> G;
  typedef typename G::M KM;
  typedef int V;
  typedef nanostl::map<K, V> Map;
  typedef std::map<KM, V> Ref;
  pbt::LeakCheck leaks;
  size_t hits = 0, most = 0;
  {
    Map m;
    Ref r;
    const Map &c = m;
    unsigned spread = (unsigned)s.below(3);
    V fresh = 1;
    size_t op = 0;
    same_map(c, m, r, "construction", 0);
    while (s.more(mean)) {
      op++;
      const char *name = "";
      KM k = G::gen(s, spread);
      if (!r.empty() && s.chance(1, 4)) {  // a present key
        typename Ref::iterator e = r.lower_bound(k);
        if (e == r.end()) e = r.begin();
        k = e->first;
      }
      bool present = r.count(k) != 0;
      hits += present;
      std::string ks = G::str(k);
      switch (s.below(8)) {
        case 0:
        case 1: {
          name = "insert";
          V x = fresh++;
          s.note("insert(%s, %d)\n", ks.c_str(), x);
          typename Map::pair_iterator_bool p = m.insert(typename Map::value_type(G::make(k), x));
          std::pair<typename Ref::iterator, bool> q = r.insert(std::make_pair(k, x));
          REQUIRE_MSG(p.second == q.second, "insert of %s reports %d, reference %d (op %zu)", ks.c_str(), (int)p.second, (int)q.second, op);
          REQUIRE_MSG(G::is(p.first->first, k) && p.first->second == q.first->second, "insert of %s returns the position of another element (op %zu)", ks.c_str(), op);
          break;
        }
        case 2: {
          name = "[] = ";
          V x = fresh++;
          s.note("[%s] = %d\n", ks.c_str(), x);
          m[G::make(k)] = x;
          r[k] = x;
          break;
        }
        case 3: {
          name = "[] read";
          s.note("[%s] read\n", ks.c_str());
          V got = m[G::make(k)], want = r[k];
          REQUIRE_MSG(got == want, "[%s] is %d, reference %d (op %zu)", ks.c_str(), got, want, op);
          break;
        }
        case 4: {
          name = "find";
          s.note("find(%s)\n", ks.c_str());
          typename Map::iterator it = c.find(G::make(k));
          REQUIRE_MSG((it != c.end()) == present && (it == m.end()) == !present && it.isEnd() == !present, "find(%s) finds it: %d, reference %d (op %zu)", ks.c_str(), (int)(it != m.end()), (int)present, op);
          if (present) {
            REQUIRE_MSG(G::is(it->first, k) && it->second == r[k], "find(%s) gives another element (op %zu)", ks.c_str(), op);
            if (s.flip()) it->second = fresh, r[k] = fresh, fresh++;
          }
          break;
        }
        case 5: {
          name = "upper_bound";
          s.note("upper_bound(%s)\n", ks.c_str());
          typename Map::iterator it = c.upper_bound(G::make(k));
          typename Ref::iterator e = r.upper_bound(k);
          REQUIRE_MSG((it == m.end()) == (e == r.end()), "upper_bound(%s) is end: %d, reference %d (op %zu)", ks.c_str(), (int)(it == m.end()), (int)(e == r.end()), op);
          if (e != r.end()) REQUIRE_MSG(G::is(it->first, e->first) && it->second == e->second, "upper_bound(%s) is not %s (op %zu)", ks.c_str(), G::str(e->first).c_str(), op);
          break;
        }
        case 6: {
          name = "iteration from find";
          s.note("iterate from %s\n", ks.c_str());
          typename Map::iterator it = m.find(G::make(k));
          typename Ref::iterator e = r.find(k);
          size_t n = 0;
          while (e != r.end() && n++ < 30) {
            REQUIRE_MSG(it != m.end() && G::is(it->first, e->first) && it->second == e->second, "iterating from %s misses %s (op %zu)", ks.c_str(), G::str(e->first).c_str(), op);
            ++e;
            ++it;
          }
          if (e == r.end()) REQUIRE_MSG(it == m.end(), "iterating from %s does not end (op %zu)", ks.c_str(), op);
          break;
        }
        default: {
          name = "run of insertions";
          if (spread == 2 && s.flip()) break;
          size_t n = (size_t)s.size(40);
          s.note("%zu insertions\n", n);
          for (size_t i = 0; i < n; i++) {
            KM q = G::gen(s, spread);
            V x = fresh++;
            m.insert(typename Map::value_type(G::make(q), x));
            r.insert(std::make_pair(q, x));
          }
        }
      }
      if (r.size() < 40 || s.chance(1, 4)) same_map(c, m, r, name, op);
    }
    same_map(c, m, r, "the whole history", op);
    for (typename Ref::iterator e = r.begin(); e != r.end(); ++e) {
      typename Map::iterator it = c.find(G::make(e->first));
      REQUIRE_MSG(it != m.end() && it->second == e->second, "key %s is lost", G::str(e->first).c_str());
    }
    most = r.size();
  }
  if (most >= 3 && hits) s.nontrivial();
  s.label(most < 3 ? "keys 0-2" : most < 30 ? "keys 3-29" : most < 200 ? "keys 30-199" : "keys 200+");
  leaks.done();
}

PROPERTY(int_keys, 60000, 1500000, "map<int,int> agrees with std::map after every operation") { history<int>(s, 40); }
PROPERTY(uint64_keys, 20000, 500000, "map<unsigned long long,int> agrees with std::map") { history<unsigned long long>(s, 40); }
PROPERTY(string_keys, 5000, 500000, "map<string,int> agrees with std::map<std::string,int>") { history<nanostl::string>(s, 30); }

// Large maps, every key, in adversarial insertion orders.
PROPERTY(large, 120, 3000, "thousands of keys in any insertion order: all found, iterated in ascending order, none invented") {
  pbt::LeakCheck leaks;
  {
    size_t n = 500 + (size_t)s.below(8000);
    unsigned pattern = (unsigned)s.below(6);
    unsigned a = (unsigned)s.bits64() | 1;
    static const char *names[] = {"ascending", "descending", "multiplicative", "organ pipe", "zigzag", "random"};
    s.note("%zu keys, %s\n", n, names[pattern]);
    s.label(names[pattern]);
    pbt::Rng g(a);
    nanostl::map<int, int> m;
    std::map<int, int> r;
    for (size_t i = 0; i < n; i++) {
      int k;
      switch (pattern) {
        case 0: k = (int)i * 3; break;
        case 1: k = -(int)i * 3; break;
        case 2: k = (int)((unsigned)i * a); break;
        case 3: k = i < n / 2 ? (int)i * 2 : (int)(n - i) * 2 + 1; break;
        case 4: k = i & 1 ? (int)i : -(int)i; break;
        default: k = (int)(g.next() % (2 * n)); break;
      }
      m.insert(nanostl::map<int, int>::value_type(k, (int)i));
      r.insert(std::make_pair(k, (int)i));
    }
    same_map(m, m, r, "the insertions", n);
    for (std::map<int, int>::iterator e = r.begin(); e != r.end(); ++e) {
      nanostl::map<int, int>::iterator it = m.find(e->first), u = m.upper_bound(e->first);
      REQUIRE_MSG(it != m.end() && it->second == e->second, "key %d is lost", e->first);
      std::map<int, int>::iterator f = e;
      ++f;
      REQUIRE_MSG((u == m.end()) == (f == r.end()) && (f == r.end() || u->first == f->first), "upper_bound(%d)", e->first);
      if (e->first < 2147483647 && !r.count(e->first + 1)) REQUIRE_MSG(m.find(e->first + 1) == m.end(), "key %d is found but was never inserted", e->first + 1);
    }
    s.nontrivial();
  }
  leaks.done();
}
// As large as a map gets in practice.
PROPERTY(huge, 6, 60, "a hundred thousand keys and more: all found, iterated in ascending order, copied whole") {
  pbt::LeakCheck leaks;
  {
    const size_t n = 66000 + (size_t)s.below(70000);
    const unsigned pattern = (unsigned)s.below(4), a = (unsigned)s.bits64() | 1;
    s.note("%zu keys, pattern %u\n", n, pattern);
    nanostl::map<int, int> m;
    for (size_t i = 0; i < n; i++) m[pattern == 0 ? (int)i : pattern == 1 ? -(int)i : pattern == 2 ? (int)((unsigned)i * a) : (int)(i & 1 ? i : 2 * n - i)] = (int)i;
    std::map<int, int> r;
    for (size_t i = 0; i < n; i++) r[pattern == 0 ? (int)i : pattern == 1 ? -(int)i : pattern == 2 ? (int)((unsigned)i * a) : (int)(i & 1 ? i : 2 * n - i)] = (int)i;
    same_map(m, m, r, "the insertions", n);
    nanostl::map<int, int> c(m);
    for (std::map<int, int>::iterator e = r.begin(); e != r.end(); ++e) {
      const nanostl::map<int, int>::iterator it = m.find(e->first);
      REQUIRE_MSG(it != m.end() && it->second == e->second, "key %d is lost", e->first);
      it->second++;
    }
    same_map(c, c, r, "copying", n);
    s.nontrivial();
  }
  leaks.done();
}
