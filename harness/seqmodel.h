// Histories of sequence-container operations, checked against std::vector after every step.
#ifndef SEQMODEL_H_
#define SEQMODEL_H_
#include <list>
#include <vector>
#include "nano_pre.h"

// Element types are made from, and compared through, a 64 bit number.
template <class T>
struct Elem {
  static T make(pbt::i64 x) { return static_cast<T>(x); }
  static pbt::i64 val(const T &t) { return static_cast<pbt::i64>(t); }
};
template <>
struct Elem<pbt::Tracked> {
  static pbt::Tracked make(pbt::i64 x) { return pbt::Tracked(x); }
  static pbt::i64 val(const pbt::Tracked &t) { return t.get(); }
};

// vector has push_back/pop_back/at; valarray does not.
template <class V, bool HasPush>
struct Grow;
template <class V>
struct Grow<V, true> {
  typedef typename V::value_type T;
  static void push(V &v, const T &x) { v.push_back(x); }
  static void pop(V &v) { v.pop_back(); }
  static T &at(V &v, unsigned long long i) { return v.at(i); }
  static const T &cat(const V &v, unsigned long long i) { return v.at(i); }
};
template <class V>
struct Grow<V, false> {
  typedef typename V::value_type T;
  static void push(V &v, const T &x) {
    T c(x);
    unsigned long long n = v.size();
    v.resize(n + 1);
    v[n] = c;
  }
  static void pop(V &v) { v.resize(v.size() - 1); }
  static T &at(V &v, unsigned long long i) { return v[i]; }
  static const T &cat(const V &v, unsigned long long i) { return v[i]; }
};

template <class V>
void seq_same(const V &v, const std::vector<pbt::i64> &m, const char *after, size_t op) {
  typedef typename V::value_type T;
  REQUIRE_MSG(v.size() == m.size(), "size() is %llu, reference %zu, after op %zu %s", (unsigned long long)v.size(), m.size(), op, after);
  REQUIRE_MSG(v.empty() == m.empty(), "empty() is %d with size %zu, after op %zu %s", v.empty(), m.size(), op, after);
  REQUIRE_MSG(v.capacity() >= v.size(), "capacity() %llu < size() %llu after op %zu %s", (unsigned long long)v.capacity(),
              (unsigned long long)v.size(), op, after);
  REQUIRE_MSG((unsigned long long)(v.end() - v.begin()) == m.size(), "end()-begin() is %lld, reference %zu, after op %zu %s",
              (long long)(v.end() - v.begin()), m.size(), op, after);
  const T *p = v.begin();
  for (size_t i = 0; i < m.size(); i++) {
    pbt::i64 w = Elem<T>::val(Elem<T>::make(m[i]));
    REQUIRE_MSG(Elem<T>::val(v[i]) == w, "element %zu of %zu is %lld, reference %lld, after op %zu %s", i, m.size(),
                (long long)Elem<T>::val(v[i]), (long long)w, op, after);
    REQUIRE_MSG(&p[i] == &v[i], "begin()[%zu] is not the element operator[] gives, after op %zu %s", i, op, after);
  }
}

// An iterator that allows one pass only: an element is gone once it has been stepped over.
template <class T>
struct OnePass {
  struct State {
    const std::vector<T> *v;
    size_t i;
  };
  State *st;
  size_t i;
  typedef T value_type;
  const T &operator*() const {
    REQUIRE_MSG(st->i == i && i < st->v->size(), "an input iterator at %zu is read at %zu", st->i, i);
    return (*st->v)[i];
  }
  OnePass &operator++() {
    REQUIRE_MSG(st->i == i, "an input iterator is advanced twice from %zu", i);
    st->i++, i++;
    return *this;
  }
  OnePass operator++(int) {
    OnePass t = *this;
    ++*this;
    return t;
  }
  bool operator!=(const OnePass &o) const { return i != o.i; }
  bool operator==(const OnePass &o) const { return i == o.i; }
};

template <class V, class T, bool HasPush>
void seq_history(pbt::Src &s, unsigned mean_ops) {
  using pbt::i64;
  typedef Grow<V, HasPush> G;
  pbt::LeakCheck leaks;
  bool grew = false, shrank = false, copied = false;
  {
    enum { POOL = 3 };
    V v[POOL];
    std::vector<i64> m[POOL];
    size_t op = 0;
    i64 fresh = 1;
    while (s.more(mean_ops)) {
      op++;
      size_t a = (size_t)s.below(POOL), b = a;
      const char *name = "";
      static const unsigned w[] = {10, 5, 7, 6, 4, 2, 4, 4, 3, 6, 4, 3, 4, 2, 2};
      size_t before = m[a].size();
      size_t cap = (size_t)v[a].capacity();
      const T *data0 = v[a].begin();
      switch (s.weighted(w, sizeof w / sizeof *w)) {
        case 0: {
          name = "push_back";
          i64 x = fresh++;
          s.note("v%zu.push_back(%lld)\n", a, (long long)x);
          G::push(v[a], Elem<T>::make(x));
          m[a].push_back(x);
          if (HasPush && before < cap) REQUIRE_MSG(v[a].begin() == data0, "push_back within capacity moved the elements (op %zu)", op);
          break;
        }
        case 1: {
          name = "push_back of an own element";
          if (m[a].empty()) break;
          size_t i = (size_t)s.below(m[a].size());
          if (s.flip()) i = m[a].size() - 1;
          s.note("v%zu.push_back(v%zu[%zu])  // size %zu capacity %zu\n", a, a, i, before, cap);
          if (m[a].size() == cap) s.label("own element pushed on a full container");
          G::push(v[a], v[a][i]);
          m[a].push_back(i64(m[a][i]));
          break;
        }
        case 2: {
          name = "pop_back";
          if (m[a].empty()) break;
          s.note("v%zu.pop_back()\n", a);
          G::pop(v[a]);
          m[a].pop_back();
          break;
        }
        case 3: {
          name = "resize";
          size_t n;
          switch (s.below(6)) {
            case 0: n = (size_t)s.size(400); break;
            case 1: n = cap + (size_t)s.range(0, 2); break;
            case 2: n = 2 * cap + (size_t)s.range(0, 2); n = n > 0 ? n - 1 : 0; break;
            case 3: n = before + (size_t)s.below(5); break;
            case 4: n = before - (size_t)s.below(std::min<size_t>(before, 4) + 1); break;
            default: n = 0;
          }
          if (n > 6000) n = 6000;
          s.note("v%zu.resize(%zu)  // size %zu capacity %zu\n", a, n, before, cap);
          v[a].resize(n);
          m[a].resize(n, 0);
          if (n == 0 && before) s.label("resize(0) of a non-empty container");
          if (n > before && before + 0 < cap && n <= cap) s.label("resize within capacity");
          break;
        }
        case 4: {
          name = "erase";
          if (m[a].empty()) break;
          size_t i = (size_t)s.below(m[a].size());
          if (s.chance(1, 5)) i = m[a].size() - 1;
          s.note("v%zu.erase(begin()+%zu)  // size %zu\n", a, i, before);
          typename V::iterator r = v[a].erase(v[a].begin() + i);
          m[a].erase(m[a].begin() + (long)i);
          REQUIRE_MSG(r == v[a].begin() + i, "erase(begin()+%zu) returned begin()+%lld (op %zu)", i, (long long)(r - v[a].begin()), op);
          break;
        }
        case 5:
          name = "clear";
          s.note("v%zu.clear()\n", a);
          v[a].clear();
          m[a].clear();
          break;
        case 6: {
          name = "assign from an array";
          size_t n = (size_t)s.size(HasPush ? 300 : 300);
          std::vector<T> src;
          src.reserve(n + 1);
          for (size_t i = 0; i < n; i++) src.push_back(Elem<T>::make(fresh + (i64)i));
          m[a].clear();
          for (size_t i = 0; i < n; i++) m[a].push_back(fresh + (i64)i);
          fresh += (i64)n;
          s.note("v%zu.assign(array of %zu)\n", a, n);
          switch (s.below(4)) {
            case 0: {
              const std::list<T> l(src.begin(), src.end());
              v[a].assign(l.begin(), l.end());
              break;
            }
            case 1: {
              typename OnePass<T>::State st = {&src, 0};
              const OnePass<T> f = {&st, 0}, e = {&st, n};
              v[a].assign(f, e);
              break;
            }
            default: {
              const T *p = src.data();
              v[a].assign(p, p + n);
            }
          }
          break;
        }
        case 7: {
          name = "copy assignment";
          b = (size_t)s.below(POOL);
          s.note("v%zu = v%zu  // sizes %zu, %zu\n", a, b, m[a].size(), m[b].size());
          V &r = (v[a] = v[b]);
          REQUIRE_MSG(&r == &v[a], "assignment did not return its target (op %zu)", op);
          m[a] = m[b];
          if (a != b && !m[b].empty()) copied = true;
          if (a == b) s.label("self assignment");
          break;
        }
        case 8: {
          name = "copy construction";
          b = (size_t)s.below(POOL);
          s.note("V t(v%zu); v%zu.swap(t)\n", b, a);
          V t(v[b]);
          std::vector<i64> tm(m[b]);
          seq_same(t, tm, "copy construction", op);
          v[a].swap(t);
          m[a].swap(tm);
          seq_same(t, tm, "swap with a temporary", op);
          copied = copied || !m[a].empty();
          break;
        }
        case 9: {
          name = "write";
          if (m[a].empty()) break;
          size_t i = (size_t)s.below(m[a].size());
          i64 x = fresh++;
          int how = (int)s.below(4);
          s.note("v%zu element %zu = %lld  // way %d\n", a, i, (long long)x, how);
          if (how == 0) v[a][i] = Elem<T>::make(x);
          else if (how == 1) G::at(v[a], i) = Elem<T>::make(x);
          else if (how == 2) *(v[a].begin() + i) = Elem<T>::make(x);
          else v[a].data()[i] = Elem<T>::make(x);
          m[a][i] = x;
          break;
        }
        case 10: {
          name = "swap";
          b = (size_t)s.below(POOL);
          s.note("v%zu.swap(v%zu)\n", a, b);
          v[a].swap(v[b]);
          if (a != b) m[a].swap(m[b]);
          break;
        }
        case 11: {
          name = "assign from another container";
          b = (size_t)s.below(POOL);
          if (a == b || m[b].empty()) break;
          size_t i = (size_t)s.below(m[b].size() + 1), n = (size_t)s.below(m[b].size() - i + 1);
          s.note("v%zu.assign(v%zu.begin()+%zu, +%zu)\n", a, b, i, n);
          v[a].assign(v[b].begin() + i, v[b].begin() + i + n);
          m[a].assign(m[b].begin() + (long)i, m[b].begin() + (long)(i + n));
          break;
        }
        case 12: {
          name = "reads";
          const V &c = v[a];
          for (size_t i = 0; i < m[a].size(); i++) {
            REQUIRE_MSG(&G::cat(c, i) == &c[i] && &G::at(v[a], i) == &v[a][i] && &v[a].data()[i] == &c[i],
                        "at/[]/data disagree at %zu (op %zu)", i, op);
          }
          break;
        }
        case 13: {
          name = "many push_backs";
          size_t n = s.chance(1, 12) ? 1 + (size_t)s.below(5000) : 1 + (size_t)s.size(260);
          s.note("%zu times v%zu.push_back(%lld...)\n", n, a, (long long)fresh);
          for (size_t i = 0; i < n; i++) {
            G::push(v[a], Elem<T>::make(fresh));
            m[a].push_back(fresh++);
          }
          break;
        }
        default: {
          name = "many pops or erases at the front";
          size_t n = (size_t)s.below(std::min<size_t>(before, 40) + 1);
          bool front = s.flip();
          s.note("%zu times v%zu %s\n", n, a, front ? "erase(begin())" : "pop_back()");
          for (size_t i = 0; i < n; i++) {
            if (front) v[a].erase(v[a].begin()), m[a].erase(m[a].begin());
            else G::pop(v[a]), m[a].pop_back();
          }
        }
      }
      if (m[a].size() > cap) grew = true;
      if (m[a].size() < before) shrank = true;
      seq_same(v[a], m[a], name, op);
      if (b != a) seq_same(v[b], m[b], name, op);
    }
    for (size_t k = 0; k < POOL; k++) seq_same(v[k], m[k], "the whole history", op);
    if (op >= 3 && grew && (shrank || copied)) s.nontrivial();
    s.label(op == 0 ? "ops 0" : op < 10 ? "ops 1-9" : op < 50 ? "ops 10-49" : "ops 50+");
  }
  if (grew) s.label("grew beyond capacity");
  if (shrank) s.label("shrank");
  if (copied) s.label("copied a non-empty container");
  leaks.done();
}

// A few operations on one large container: sizes around powers of two up to a million elements.
template <class V, class T, bool HasPush>
void seq_large(pbt::Src &s, int lowest, int highest) {
  using pbt::i64;
  typedef Grow<V, HasPush> G;
  const size_t n = ((size_t)1 << s.range(lowest, highest)) + (size_t)s.range(-3, 3);
  const i64 salt = (i64)s.below(1000);
  pbt::LeakCheck leaks;
  {
    V v;
    std::vector<i64> m;
    if (s.flip()) {
      s.note("resize(%zu)\n", n);
      v.resize(n);
      m.resize(n, 0);
      seq_same(v, m, "resize", 0);
      for (size_t i = 0; i < n; i++) m[i] = (i64)(i * 7919) + salt, v[i] = Elem<T>::make(m[i]);
    } else {
      s.note("%zu elements added\n", n);
      for (size_t i = 0; i < n; i++) m.push_back((i64)(i * 7919) + salt), G::push(v, Elem<T>::make(m.back()));
    }
    seq_same(v, m, "filling", 1);
    for (size_t op = 2; s.more(4); op++) {
      const char *name = "";
      switch (s.below(7)) {
        case 0: {
          name = "a few elements added";
          const size_t k = 1 + (size_t)s.below(8);
          for (size_t i = 0; i < k; i++) m.push_back((i64)i - salt), G::push(v, Elem<T>::make(m.back()));
          break;
        }
        case 1: {
          name = "erase";
          if (m.empty()) break;
          const size_t i = s.flip() ? (size_t)s.below(m.size()) : m.size() - 1 - (size_t)s.below(std::min<size_t>(m.size(), 4));
          const typename V::iterator r = v.erase(v.begin() + i);
          m.erase(m.begin() + (long)i);
          REQUIRE(r == v.begin() + i);
          break;
        }
        case 2: {
          name = "copy";
          V t(v);
          seq_same(t, m, "copy construction", op);
          if (!m.empty()) t[0] = Elem<T>::make(-1);
          seq_same(v, m, "a change of the copy", op);
          V u;
          u = v;
          v.swap(u);
          break;
        }
        case 3: {
          name = "resize";
          const size_t k = s.chance(1, 3) ? (size_t)s.below(2 * n + 1) : ((size_t)1 << s.range(lowest, highest)) + (size_t)s.range(-2, 2);
          v.resize(k);
          m.resize(k, 0);
          break;
        }
        case 4: {
          name = "assign a part of itself, through a copy";
          const V t(v);
          const size_t i = (size_t)s.below(m.size() + 1), k = i + (size_t)s.below(m.size() - i + 1);
          v.assign(t.begin() + i, t.begin() + k);
          m = std::vector<i64>(m.begin() + (long)i, m.begin() + (long)k);
          break;
        }
        case 5: {
          name = "an own element added";
          if (m.empty()) break;
          const size_t i = (size_t)s.below(m.size());
          G::push(v, v[i]);
          m.push_back(i64(m[i]));
          break;
        }
        default:
          name = "removal at the end";
          if (m.empty()) break;
          G::pop(v);
          m.pop_back();
      }
      s.note("%s, then %zu elements\n", name, m.size());
      seq_same(v, m, name, op);
    }
    s.nontrivial();
    s.label(m.size() > 65535 ? "more than 65535 elements" : "fewer");
  }
  leaks.done();
}
#endif
