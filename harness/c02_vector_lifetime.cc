// C02: vector owns its elements: lifetimes, storage, independence of copies, cost of growing.
#define PBT_MAIN
#include <map>
#include "nano_pre.h"
#include "seqmodel.h"
#include "nanovector.h"
using pbt::i64;
using pbt::Tracked;

// An allocator that records what it handed out.
struct AllocState {
  std::map<void *, unsigned long long> live;
  unsigned long long allocs, frees;
  std::string bad;
};
static AllocState g_as;
template <class T>
struct CheckedAllocator {
  typedef T value_type;
  typedef T *pointer;
  typedef const T *const_pointer;
  typedef T &reference;
  typedef const T &const_reference;
  T *allocate(unsigned long long n, const void * = 0) {
    if (n == 0) return 0;
    T *p = new T[(size_t)n];
    pbt::Pause pp;
    g_as.live[p] = n;
    g_as.allocs++;
    return p;
  }
  void deallocate(T *p, unsigned long long n) {
    if (!p) return;
    {
      pbt::Pause pp;
      std::map<void *, unsigned long long>::iterator it = g_as.live.find(p);
      if (it == g_as.live.end()) {
        if (g_as.bad.empty()) g_as.bad = "deallocate() of storage the allocator did not hand out (or twice)";
        return;
      }
      if (it->second != n && g_as.bad.empty())
        g_as.bad = pbt::fmt("storage for %llu elements given back as %llu", it->second, n);
      g_as.live.erase(it);
      g_as.frees++;
    }
    delete[] p;
  }
};

PROPERTY(owning_elements, 15000, 1200000, "vector of a heap-owning element type: contents agree, no element is used dead, all are released") {
  seq_history<nanostl::vector<Tracked>, Tracked, true>(s, 40);
}

PROPERTY(custom_allocator, 8000, 700000, "every block of a custom allocator is given back once, with its own size") {
  g_as.live.clear();
  g_as.bad.clear();
  g_as.allocs = g_as.frees = 0;
  seq_history<nanostl::vector<Tracked, CheckedAllocator<Tracked> >, Tracked, true>(s, 30);
  REQUIRE_MSG(g_as.bad.empty(), "%s", g_as.bad.c_str());
  REQUIRE_MSG(g_as.live.empty(), "%zu blocks never given back", g_as.live.size());
}

template <class In, class M>
static void same_nested(const In &v, const M &m, size_t op) {
  REQUIRE_MSG(v.size() == m.size(), "outer size %llu, reference %zu after op %zu", (unsigned long long)v.size(), m.size(), op);
  for (size_t i = 0; i < m.size(); i++) {
    REQUIRE_MSG(v[i].size() == m[i].size(), "inner %zu has size %llu, reference %zu after op %zu", i, (unsigned long long)v[i].size(), m[i].size(), op);
    for (size_t j = 0; j < m[i].size(); j++)
      REQUIRE_MSG(v[i][j].get() == m[i][j], "inner %zu element %zu is %lld, reference %lld after op %zu", i, j, (long long)v[i][j].get(), (long long)m[i][j], op);
  }
}

PROPERTY(nested, 30000, 700000, "vectors of vectors are deep: copies never share, and nothing leaks") {
  typedef nanostl::vector<Tracked> In;
  typedef nanostl::vector<In> Out;
  typedef std::vector<std::vector<i64> > M;
  pbt::LeakCheck leaks;
  {
    Out v[2];
    M m[2];
    i64 fresh = 1;
    size_t op = 0, deep = 0;
    while (s.more(25)) {
      op++;
      size_t a = (size_t)s.below(2), b = 1 - a;
      switch (s.below(9)) {
        case 0: {
          size_t n = (size_t)s.size(20);
          s.note("v%zu.push_back(inner of %zu)\n", a, n);
          In in;
          std::vector<i64> im;
          for (size_t i = 0; i < n; i++) in.push_back(Tracked(fresh)), im.push_back(fresh++);
          v[a].push_back(in);
          m[a].push_back(im);
          // the pushed copy is independent of `in`
          if (n) in[0] = Tracked(-1);
          break;
        }
        case 1: {
          if (m[a].empty()) break;
          size_t i = (size_t)s.below(m[a].size());
          s.note("v%zu.push_back(v%zu[%zu])\n", a, a, i);
          v[a].push_back(v[a][i]);
          m[a].push_back(std::vector<i64>(m[a][i]));
          break;
        }
        case 2: {
          if (m[a].empty()) break;
          size_t i = (size_t)s.below(m[a].size());
          size_t k = 1 + (size_t)s.size(40);
          s.note("%zu times v%zu[%zu].push_back(%lld..)\n", k, a, i, (long long)fresh);
          for (size_t j = 0; j < k; j++) v[a][i].push_back(Tracked(fresh)), m[a][i].push_back(fresh++);
          break;
        }
        case 3: {
          if (m[a].empty()) break;
          size_t i = (size_t)s.below(m[a].size());
          if (m[a][i].empty()) break;
          size_t j = (size_t)s.below(m[a][i].size());
          s.note("v%zu[%zu][%zu] = %lld\n", a, i, j, (long long)fresh);
          v[a][i][j] = Tracked(fresh);
          m[a][i][j] = fresh++;
          break;
        }
        case 4:
          s.note("v%zu = v%zu\n", a, b);
          v[a] = v[b];
          m[a] = m[b];
          deep += m[a].size();
          break;
        case 5: {
          s.note("v%zu.resize\n", a);
          size_t n = (size_t)s.size(30);
          v[a].resize(n);
          m[a].resize(n);
          break;
        }
        case 6: {
          if (m[a].empty()) break;
          size_t i = (size_t)s.below(m[a].size());
          s.note("v%zu.erase(%zu)\n", a, i);
          v[a].erase(v[a].begin() + i);
          m[a].erase(m[a].begin() + (long)i);
          break;
        }
        case 7: {
          s.note("copy of v%zu, changed\n", a);
          Out t(v[a]);
          if (!m[a].empty() && !m[a][0].empty()) t[0][0] = Tracked(-7), deep++;
          t.resize(t.size() + 3);
          break;
        }
        default:
          s.note("v%zu.swap(v%zu)\n", a, b);
          v[a].swap(v[b]);
          m[a].swap(m[b]);
      }
      same_nested(v[0], m[0], op);
      same_nested(v[1], m[1], op);
    }
    if (deep && op > 3) s.nontrivial();
  }
  leaks.done();
}

// Appending is amortised constant: few reallocations, few element copies.
PROPERTY(growth, 400, 8000, "appending n elements reallocates O(log n) times and copies O(n) elements") {
  g_as.live.clear();
  g_as.bad.clear();
  g_as.allocs = g_as.frees = 0;
  {
    nanostl::vector<Tracked, CheckedAllocator<Tracked> > v;
    size_t start = (size_t)s.size(300);
    if (s.flip()) {
      v.resize(start);
      s.note("resize(%zu); ", start);
    } else {
      start = 0;
    }
    size_t n = 200 + (size_t)s.below(3000);
    bool by_resize = s.chance(1, 4);
    s.note("%zu appends by %s\n", n, by_resize ? "resize(size()+1)" : "push_back");
    unsigned long long a0 = g_as.allocs, c0 = Tracked::copies;
    {
      Tracked x(3);
      for (size_t i = 0; i < n; i++) {
        if (by_resize) v.resize(v.size() + 1);
        else v.push_back(x);
      }
    }
    unsigned long long a = g_as.allocs - a0, c = Tracked::copies - c0;
    unsigned lg = 0;
    while ((1ull << lg) < n + start) lg++;
    // any growth factor of 1.25 or more stays below these bounds
    REQUIRE_MSG(a <= 4 * lg + 8, "%llu reallocations for %zu appends", a, n);
    REQUIRE_MSG(c <= 24 * (unsigned long long)(n + start) + 64, "%llu element copies for %zu appends", c, n);
    s.nontrivial();
  }
  REQUIRE_MSG(g_as.live.empty() && g_as.bad.empty(), "allocator: %s", g_as.bad.c_str());
}
