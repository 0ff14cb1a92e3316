// C36: atomic operations behave as if they happened one at a time.
#define PBT_MAIN
#include "simthread.h"
#include NANO_THREADS_H

using pbt::Src;

enum Kind { LOAD, STORE, INC, DEC, ADD, SUB, SWAP, CAS, KINDS };
static const char *const kind_name[] = {"load", "store", "inc", "dec", "add", "sub", "swap", "compare_and_swap"};

struct Op {
  Kind k;
  long a, b, r;
  int cell, thread;
  pbt::u64 inv, res;
};

// What the operation returns and leaves, by the documentation; int arithmetic wraps.
template <bool PTR>
static long apply(const Op &o, long &v) {
  const long old = v;
  switch (o.k) {
    case LOAD: break;
    case STORE: v = o.a; break;
    case INC: v = (int)((unsigned)v + 1u); break;
    case DEC: v = (int)((unsigned)v - 1u); break;
    case ADD: v = (int)((unsigned)v + (unsigned)o.a); break;
    case SUB: v = (int)((unsigned)v - (unsigned)o.a); break;
    case SWAP: v = o.a; break;
    case CAS:
      if (v == o.a) v = o.b;
      break;
    default: break;
  }
  return o.k == STORE ? 0 : old;
}

struct Cells {
  thread_atomic_int_t i[2];
  long guard;
};
struct PCells {
  thread_atomic_ptr_t p[2];
  long guard;
};

static long call(Cells &c, const Op &o) {
  thread_atomic_int_t *x = &c.i[o.cell];
  switch (o.k) {
    case LOAD: return thread_atomic_int_load(x);
    case STORE: thread_atomic_int_store(x, (int)o.a); return 0;
    case INC: return thread_atomic_int_inc(x);
    case DEC: return thread_atomic_int_dec(x);
    case ADD: return thread_atomic_int_add(x, (int)o.a);
    case SUB: return thread_atomic_int_sub(x, (int)o.a);
    case SWAP: return thread_atomic_int_swap(x, (int)o.a);
    default: return thread_atomic_int_compare_and_swap(x, (int)o.a, (int)o.b);
  }
}
static long call(PCells &c, const Op &o) {
  thread_atomic_ptr_t *x = &c.p[o.cell];
  switch (o.k) {
    case LOAD: return (long)thread_atomic_ptr_load(x);
    case STORE: thread_atomic_ptr_store(x, (void *)o.a); return 0;
    case SWAP: return (long)thread_atomic_ptr_swap(x, (void *)o.a);
    default: return (long)thread_atomic_ptr_compare_and_swap(x, (void *)o.a, (void *)o.b);
  }
}

static long value(Src &s, bool ptr) {
  if (!ptr) {
    static const int pool[] = {0, 1, 2, -1, -2, 2147483647, -2147483647 - 1, 2147483646, 65536, 100};
    return s.below(8) ? pool[s.below(10)] : (int)s.bits64();
  }
  static const long pool[] = {0, 8, 16, (long)0xdeadbeefcafe0000, (long)0x100000000, -8, 0x7fffffff, (long)0x8000000000000000};
  return s.below(8) ? pool[s.below(8)] : (long)s.bits64();
}

static Op any_op(Src &s, bool ptr) {
  static const Kind pk[] = {LOAD, STORE, SWAP, CAS};
  Op o;
  o.k = ptr ? pk[s.below(4)] : (Kind)s.below(KINDS);
  o.cell = (int)s.below(8) == 7;
  o.a = value(s, ptr);
  o.b = value(s, ptr);
  o.r = 0;
  o.inv = o.res = 0;
  o.thread = 0;
  return o;
}
static void show(Src &s, const Op &o, bool result) {
  s.note("[%d] %s cell %d", o.thread, kind_name[o.k], o.cell);
  if (o.k != LOAD && o.k != INC && o.k != DEC) s.note(" %ld", o.a);
  if (o.k == CAS) s.note(" -> %ld", o.b);
  if (result && o.k != STORE) s.note(" = %ld", o.r);
  if (result) s.note(" (%llu..%llu)", (unsigned long long)o.inv, (unsigned long long)o.res);
  s.note("\n");
}

template <class C, bool PTR>
static void alone(Src &s) {
  // every operation of a single thread
  C c;
  memset((void *)&c, 0xa5, sizeof c);
  long v[2];
  std::string bad;
  for (int i = 0; i < 2; i++) {
    Op o = any_op(s, PTR);
    o.k = STORE;
    o.cell = i;
    call(c, o);
    v[i] = o.a;
    s.note("cell %d holds %ld\n", i, o.a);
  }
  int n = 0;
  while (s.more(14) && n < 60) {
    Op o = any_op(s, PTR);
    if (s.below(3) == 2) o.a = v[o.cell];  // lets compare_and_swap succeed
    o.r = call(c, o);
    const long want = apply<PTR>(o, v[o.cell]);
    show(s, o, true);
    REQUIRE_MSG(o.r == want, "%s returned %ld, not %ld", kind_name[o.k], o.r, want);
    for (int i = 0; i < 2; i++) {
      Op l = o;
      l.k = LOAD;
      l.cell = i;
      const long now = call(c, l);
      REQUIRE_MSG(now == v[i], "after %s cell %d holds %ld, not %ld", kind_name[o.k], i, now, v[i]);
    }
    n++;
  }
  REQUIRE_MSG(c.guard == (long)0xa5a5a5a5a5a5a5a5, "memory beyond the cells changed");
  if (n >= 3) s.nontrivial();
}
PROPERTY(int_alone, 1000000, 20000000, "atomic int: every operation of one thread returns and leaves what the documentation says, over the whole range") { alone<Cells, false>(s); }
PROPERTY(ptr_alone, 800000, 20000000, "atomic pointer: every operation of one thread returns and leaves what the documentation says") { alone<PCells, true>(s); }

// Is there an order of the operations, respecting real time, in which each returns what it returned?
template <bool PTR>
struct Linear {
  const std::vector<Op> &h;
  const long *final;
  std::set<std::pair<unsigned, std::pair<long, long> > > seen;
  Linear(const std::vector<Op> &hist, const long *f) : h(hist), final(f) {}
  bool go(unsigned done, long a, long b) {
    if (done == (1u << h.size()) - 1) return a == final[0] && b == final[1];
    if (!seen.insert(std::make_pair(done, std::make_pair(a, b))).second) return false;
    pbt::u64 first = ~0ull;
    for (size_t i = 0; i < h.size(); i++)
      if (!(done >> i & 1) && h[i].res < first) first = h[i].res;
    for (size_t i = 0; i < h.size(); i++) {
      if (done >> i & 1 || h[i].inv > first) continue;
      long v[2] = {a, b};
      if (apply<PTR>(h[i], v[h[i].cell]) == h[i].r && go(done | 1u << i, v[0], v[1])) return true;
    }
    return false;
  }
};

template <class C, bool PTR>
static void together(Src &s) {
  C c;
  memset((void *)&c, 0xa5, sizeof c);
  const int T = 2 + (int)s.below(3), per = T == 2 ? 5 : T == 3 ? 4 : 3;
  std::vector<std::vector<Op> > prog(T);
  long start[2], final[2];
  for (int i = 0; i < 2; i++) start[i] = value(s, PTR);
  size_t total = 0;
  for (int t = 0; t < T; t++) {
    const int n = 1 + (int)s.below(per);
    for (int k = 0; k < n; k++) {
      prog[t].push_back(any_op(s, PTR));
      prog[t].back().thread = t + 1;
      if (s.below(3) == 2) prog[t].back().a = start[0];
      total++;
    }
  }
  std::vector<Op> hist;
  sim::run(s, [&]() {
    for (int i = 0; i < 2; i++) {
      Op o;
      o.k = STORE, o.cell = i, o.a = start[i];
      call(c, o);
    }
    std::vector<sim::Thread *> th;
    for (int t = 0; t < T; t++)
      th.push_back(sim::start([&, t]() {
        for (size_t k = 0; k < prog[t].size(); k++) {
          Op o = prog[t][k];
          o.inv = sim::event();
          o.r = call(c, o);
          o.res = sim::event();
          hist.push_back(o);
        }
      }));
    for (int t = 0; t < T; t++) sim::wait_for(th[t]);
    for (int i = 0; i < 2; i++) {
      Op o;
      o.k = LOAD, o.cell = i;
      final[i] = call(c, o);
    }
  });
  if (s.verbose) {
    s.note("cells start as %ld, %ld and end as %ld, %ld\n", start[0], start[1], final[0], final[1]);
    for (size_t i = 0; i < hist.size(); i++) show(s, hist[i], true);
  }
  REQUIRE(hist.size() == total);
  Linear<PTR> l(hist, final);
  REQUIRE_MSG(l.go(0, start[0], start[1]), "no order of these operations explains what they returned and left behind");
  bool overlap = false;
  for (size_t i = 0; i < hist.size(); i++)
    for (size_t j = 0; j < i; j++) overlap |= hist[i].inv < hist[j].res && hist[j].inv < hist[i].res;
  if (overlap) s.nontrivial();
  s.label(overlap ? "operations overlap" : "operations follow one another");
}
PROPERTY(int_together, 400000, 6000000, "atomic int: under every schedule the operations of several threads are explained by some sequential order") { together<Cells, false>(s); }
PROPERTY(ptr_together, 300000, 4000000, "atomic pointer: under every schedule the operations of several threads are explained by some sequential order") { together<PCells, true>(s); }

// What was written before a change of the atomic is visible to whoever has seen the change.
template <class C, bool PTR>
static void publish(Src &s) {
  C c;
  memset((void *)&c, 0xa5, sizeof c);
  const int T = 2 + (int)s.below(3);
  enum { PER = 4 };
  long payload[8][PER];
  struct Step {
    int how;
    bool write;
  };
  std::vector<std::vector<Step> > prog(T);
  for (int t = 0; t < T; t++) {
    const int n = 1 + (int)s.below(PER);
    for (int k = 0; k < n; k++) {
      Step st = {(int)s.below(PTR ? 3 : 4), s.flip()};
      prog[t].push_back(st);
    }
  }
  bool crossed = false;
  sim::run(s, [&]() {
    Op z;
    z.cell = 0;
    z.k = STORE, z.a = 0;
    call(c, z);
    std::vector<sim::Thread *> th;
    for (int t = 0; t < T; t++)
      th.push_back(sim::start([&, t]() {
        for (size_t k = 0; k < prog[t].size(); k++) {
          const Step st = prog[t][k];
          Op o;
          o.cell = 0;
          long seen;
          if (st.write) {
            sim::wrote(&payload[t][k], sizeof(long));
            o.a = (t + 1) * 1000 + (long)k * 10;
            switch (st.how) {
              case 0: o.k = STORE; call(c, o); seen = 0; break;
              case 1: o.k = SWAP; seen = call(c, o); break;
              default: {
                // compare_and_swap until it succeeds
                o.k = LOAD;
                long cur = call(c, o);
                const long mine = o.a;
                for (;;) {
                  o.k = CAS, o.a = cur, o.b = mine;
                  const long was = call(c, o);
                  if (was == cur) break;
                  cur = was;
                }
                seen = cur;
              }
            }
          } else {
            switch (st.how) {
              case 0: o.k = LOAD; break;
              case 1: o.k = CAS, o.a = -1, o.b = -2; break;
              case 2: o.k = PTR ? LOAD : ADD, o.a = 0; break;
              default: o.k = SUB, o.a = 0; break;
            }
            seen = call(c, o);
          }
          if (seen) {
            const long w = seen / 1000 - 1, q = seen % 1000 / 10;
            REQUIRE_MSG(w >= 0 && w < T && q < PER && seen % 10 == 0, "the atomic holds %ld, which nobody stored", seen);
            crossed |= w != t;
            sim::reads(&payload[w][q], sizeof(long));
          }
        }
      }));
    for (int t = 0; t < T; t++) sim::wait_for(th[t]);
  });
  if (crossed) s.nontrivial();
  s.label(crossed ? "a thread sees another's value" : "no value crosses");
}
PROPERTY(int_publishes, 250000, 3000000, "atomic int: what a thread wrote before a change is visible to a thread that has seen the change") { publish<Cells, false>(s); }
PROPERTY(ptr_publishes, 250000, 3000000, "atomic pointer: what a thread wrote before a change is visible to a thread that has seen the change") { publish<PCells, true>(s); }

// Counting: every increment is counted once.
PROPERTY(counting, 80000, 800000, "increments, decrements and sums of several threads are each counted exactly once") {
  Cells c;
  memset((void *)&c, 0xa5, sizeof c);
  const int T = 2 + (int)s.below(5);
  const int N = 1 + (int)s.below(8);
  const int start = (int)value(s, false);
  std::vector<int> got;
  unsigned sum = (unsigned)start;
  std::vector<std::vector<int> > step(T);
  const bool ones = s.flip();
  for (int t = 0; t < T; t++)
    for (int k = 0; k < N; k++) {
      step[t].push_back(ones ? 1 : (int)value(s, false));
      sum += (unsigned)step[t].back();
    }
  int end = 0;
  sim::run(s, [&]() {
    thread_atomic_int_store(&c.i[0], start);
    std::vector<sim::Thread *> th;
    for (int t = 0; t < T; t++)
      th.push_back(sim::start([&, t]() {
        for (int k = 0; k < N; k++) {
          const int d = step[t][k];
          const unsigned how = (unsigned)(t + k) % 3;
          const int r = d == 1 && how ? thread_atomic_int_inc(&c.i[0]) : d == -1 && how ? thread_atomic_int_dec(&c.i[0]) : how == 2 ? thread_atomic_int_sub(&c.i[0], (int)(0u - (unsigned)d)) : thread_atomic_int_add(&c.i[0], d);
          got.push_back(r);
        }
      }));
    for (int t = 0; t < T; t++) sim::wait_for(th[t]);
    end = thread_atomic_int_load(&c.i[0]);
  });
  s.note("%d threads of %d steps from %d\n", T, N, start);
  REQUIRE_MSG(end == (int)sum, "the total is %d, not %d", end, (int)sum);
  if (ones) {
    // the values returned are start, start + 1, ... in some order
    std::vector<unsigned> off;
    for (size_t i = 0; i < got.size(); i++) off.push_back((unsigned)got[i] - (unsigned)start);
    std::sort(off.begin(), off.end());
    for (size_t i = 0; i < off.size(); i++) REQUIRE_MSG(off[i] == i, "the value %d was returned twice, or not at all", (int)((unsigned)start + (unsigned)i));
  }
  s.nontrivial();
}
