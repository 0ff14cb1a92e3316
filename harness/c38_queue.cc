// C38: the queue between one producer and one consumer is a bounded first-in first-out buffer.
#define PBT_MAIN
#include "simthread.h"
#include NANO_THREADS_H

#include <deque>

using pbt::Src;
enum { INF = THREAD_QUEUE_WAIT_INFINITE };
static void *tag(long k) { return (void *)(k * 16 + 8); }
static long untag(void *p) { return p ? (long)p / 16 : -1; }

static int any_timeout(Src &s) {
  static const int t[] = {0, 0, 0, 1, 2, 10, 250, 999, 1000, 1001, 3700};
  const pbt::u64 k = s.below(16);
  return k < 11 ? t[k] : k < 14 ? INF : (int)s.below(5000);
}

// The slots lie between guards; a queue of `size` slots that starts with `count` elements 1, 2, ...
struct Slots {
  std::vector<void *> v;
  int size;
  Slots(int n, int count) : v(n + 4, (void *)0xa5a5), size(n) {
    for (int i = 0; i < count && i < n; i++) v[2 + i] = tag(i + 1);
  }
  void **p() { return &v[2]; }
  void check() {
    for (int i = 0; i < 2; i++) REQUIRE_MSG(v[i] == (void *)0xa5a5 && v[2 + size + i] == (void *)0xa5a5, "memory outside the slots changed");
  }
};

PROPERTY(alone, 500000, 8000000, "both ends in one thread: every operation returns and leaves what a bounded FIFO would, and a timeout takes its time") {
  const int size = 1 + (int)s.below(s.below(6) ? 5 : 40), count = (int)s.below((unsigned)size + 1) + (s.below(8) == 7 ? (int)s.below(3) : 0);
  const bool again = s.below(4) == 3;  // the same object used for a queue before
  thread_queue_t q;
  memset((void *)&q, 0xa5, sizeof q);
  Slots slots(size, count);
  std::deque<long> model;
  for (int i = 0; i < count && i < size; i++) model.push_back(i + 1);
  s.note("queue of %d slots, initialised with %d\n", size, count);
  long next = 100;
  int wraps = 0, full = 0, empty = 0;
  sim::run(s, [&]() {
    sim::the()->free_clock = false;
    sim::the()->limit = 400000;
    if (again) {
      void *other[3];
      thread_queue_init(&q, 3, other, 0);
      const int n = (int)s.below(4);
      for (int i = 0; i < n; i++) REQUIRE(thread_queue_produce(&q, tag(7), 0) != 0);
      if (n && s.flip()) REQUIRE(thread_queue_consume(&q, 0) == tag(7));
      thread_queue_term(&q);
    }
    thread_queue_init(&q, size, slots.p(), count);
    int n = 0;
    while (s.more(size * 3 + 12) && n < 300) {
      n++;
      const unsigned what = (unsigned)s.below(8);
      const pbt::u64 t0 = sim::the()->now;
      int ms = any_timeout(s);
      const bool bias = (n / (size + 3)) & 1;  // fills and empties in turns
      const bool produce = bias ? what < 5 : what < 2;
      if (what == 7) {
        const int c = thread_queue_count(&q);
        s.note("count = %d\n", c);
        REQUIRE_MSG(c == (int)model.size(), "the queue counts %d elements, not %d", c, (int)model.size());
        continue;
      }
      bool can;
      if (produce) {
        can = (int)model.size() < size;
        if (!can && ms == INF) ms = 5;
        const long v = next++;
        const int r = thread_queue_produce(&q, tag(v), ms);
        s.note("produce %ld, %d ms = %d\n", v, ms, r);
        REQUIRE_MSG((r != 0) == can, "producing returned %d with %d of %d slots taken", r, (int)model.size(), size);
        if (can) model.push_back(v);
        else full++;
        wraps += can;
      } else {
        can = !model.empty();
        if (!can && ms == INF) ms = 5;
        void *p = thread_queue_consume(&q, ms);
        s.note("consume, %d ms = %ld\n", ms, untag(p));
        if (can) {
          REQUIRE_MSG(p == tag(model.front()), "consumed %ld, not %ld", untag(p), model.front());
          model.pop_front();
        } else {
          REQUIRE_MSG(!p, "consumed %ld from an empty queue", untag(p));
          empty++;
        }
      }
      const pbt::u64 took = sim::the()->now - t0;
      if (can || ms == 0) {
        REQUIRE_MSG(took < 1000000, "an operation that need not wait took %llu us", (unsigned long long)took / 1000);
      } else {
        REQUIRE_MSG(took + 1000 >= (pbt::u64)ms * 1000000, "an operation with a timeout of %d ms gave up after %llu us", ms, (unsigned long long)took / 1000);
        REQUIRE_MSG(took <= (pbt::u64)ms * 1000000 + 20000000, "an operation with a timeout of %d ms gave up only after %llu us", ms, (unsigned long long)took / 1000);
      }
      const int c = thread_queue_count(&q);
      REQUIRE_MSG(c == (int)model.size(), "the queue counts %d elements, not %d", c, (int)model.size());
      slots.check();
    }
    while (!model.empty()) {
      void *p = thread_queue_consume(&q, INF);
      REQUIRE_MSG(p == tag(model.front()), "consumed %ld, not %ld", untag(p), model.front());
      model.pop_front();
    }
    REQUIRE(!thread_queue_consume(&q, 0));
    thread_queue_term(&q);
  });
  slots.check();
  if (wraps > size && (full || empty)) s.nontrivial();
  s.label(full && empty ? "ran full and empty" : full ? "ran full" : empty ? "ran empty" : "neither full nor empty");
}

struct Ev {
  char op;  // p, c, n
  int timeout;
  long arg, r;
  pbt::u64 inv, res, t0, t1;
};
static void show(Src &s, const Ev &e) {
  if (e.op == 'p') s.note("produce %ld, %d ms = %ld", e.arg, e.timeout, e.r);
  else if (e.op == 'c') s.note("consume, %d ms = %ld", e.timeout, e.r);
  else s.note("count = %ld", e.r);
  s.note(" (%llu..%llu, %llu..%llu us)\n", (unsigned long long)e.inv, (unsigned long long)e.res, (unsigned long long)e.t0 / 1000, (unsigned long long)e.t1 / 1000);
}

// Is there an order of the operations of the three threads, respecting real time, that a bounded FIFO explains?
struct Linear {
  const std::vector<Ev> *h[3];
  int size, start;
  std::vector<long> in;  // what the queue holds over its life, in order
  std::set<std::pair<size_t, std::pair<size_t, size_t> > > seen;
  bool go(size_t i, size_t j, size_t k, int made, int taken) {
    if (i == h[0]->size() && j == h[1]->size() && k == h[2]->size()) return true;
    if (!seen.insert(std::make_pair(i, std::make_pair(j, k))).second) return false;
    const size_t at[3] = {i, j, k};
    pbt::u64 first = ~0ull;
    for (int t = 0; t < 3; t++)
      if (at[t] < h[t]->size() && (*h[t])[at[t]].res < first) first = (*h[t])[at[t]].res;
    const int held = start + made - taken;
    if (i < h[0]->size() && (*h[0])[i].inv <= first) {
      const Ev &e = (*h[0])[i];
      if ((e.r != 0) == (held < size) && go(i + 1, j, k, made + (e.r != 0), taken)) return true;
    }
    if (j < h[1]->size() && (*h[1])[j].inv <= first) {
      const Ev &e = (*h[1])[j];
      if (held > 0 ? e.r == in[taken] : e.r == -1)
        if (go(i, j + 1, k, made, taken + (e.r != -1))) return true;
    }
    if (k < h[2]->size() && (*h[2])[k].inv <= first) {
      const Ev &e = (*h[2])[k];
      if (e.r == held && go(i, j, k + 1, made, taken)) return true;
    }
    return false;
  }
};

PROPERTY(two_ends, 700000, 8000000, "under every schedule of a producer, a consumer and an observer: exactly-once delivery in order, no overrun, no lost wake-up, no early timeout, payloads ordered by the queue") {
  const int size = 1 + (int)s.below(4), start = (int)s.below((unsigned)size + 1);
  thread_queue_t q;
  memset((void *)&q, 0xa5, sizeof q);
  Slots slots(size, start);
  enum { CAP = 400 };
  std::vector<long> payload(CAP, 0);
  struct Step {
    int timeout, pause;
  };
  std::vector<Step> prog[2];
  const int observations = s.below(3) == 2 ? 1 + (int)s.below(4) : 0;
  for (int t = 0; t < 2; t++) {
    const int n = 1 + (int)s.below(7);
    const bool hurry = s.flip();
    for (int k = 0; k < n; k++) {
      Step st = {any_timeout(s), hurry || s.below(3) ? 0 : (int)s.below(1500)};
      prog[t].push_back(st);
    }
  }
  std::vector<Ev> hist[3];
  bool done[2] = {false, false};
  long next = start + 1;
  bool waited = false;
  sim::run(s, [&]() {
    thread_queue_init(&q, size, slots.p(), start);
    for (int i = 0; i <= start; i++) sim::wrote(&payload[i], sizeof(long));
    auto produce = [&](int ms) {
      REQUIRE(next < CAP - 1);
      Ev e = {'p', ms, next, 0, sim::event(), 0, sim::the()->now, 0};
      sim::wrote(&payload[next], sizeof(long));
      payload[next] = next * 3;
      e.r = thread_queue_produce(&q, tag(next), ms) != 0;
      e.t1 = sim::the()->now;
      e.res = sim::event();
      hist[0].push_back(e);
      if (e.r) next++;
    };
    auto consume = [&](int ms) {
      Ev e = {'c', ms, 0, 0, sim::event(), 0, sim::the()->now, 0};
      void *p = thread_queue_consume(&q, ms);
      e.r = untag(p);
      e.t1 = sim::the()->now;
      e.res = sim::event();
      hist[1].push_back(e);
      REQUIRE_MSG(e.r == -1 || (e.r > 0 && e.r < CAP && p == tag(e.r)), "consumed something that was never produced");
      if (e.r > start) {
        sim::reads(&payload[e.r], sizeof(long));
        REQUIRE_MSG(payload[e.r] == e.r * 3, "the consumer does not see what the producer wrote before");
      }
      return e.r;
    };
    sim::Thread *a = sim::start([&]() {
      for (size_t k = 0; k < prog[0].size(); k++) {
        if (prog[0][k].pause) sim::sleep_until(sim::the()->now + (pbt::u64)prog[0][k].pause * 1000000);
        produce(prog[0][k].timeout);
      }
      while (!done[1]) produce(700);
      done[0] = true;
    });
    sim::Thread *b = sim::start([&]() {
      for (size_t k = 0; k < prog[1].size(); k++) {
        if (prog[1][k].pause) sim::sleep_until(sim::the()->now + (pbt::u64)prog[1][k].pause * 1000000);
        consume(prog[1][k].timeout);
      }
      done[1] = true;
      for (;;) {
        const bool last = done[0];
        if (consume(last ? 0 : 700) == -1 && last) break;
      }
    });
    sim::Thread *o = 0;
    if (observations)
      o = sim::start([&]() {
        for (int k = 0; k < observations; k++) {
          Ev e = {'n', 0, 0, 0, sim::event(), 0, sim::the()->now, 0};
          e.r = thread_queue_count(&q);
          e.t1 = sim::the()->now;
          e.res = sim::event();
          hist[2].push_back(e);
          if (k & 1) thread_yield();
        }
      });
    sim::wait_for(a);
    sim::wait_for(b);
    if (o) sim::wait_for(o);
    REQUIRE(thread_queue_count(&q) == 0);
    thread_queue_term(&q);
  });
  slots.check();
  s.note("queue of %d slots, initialised with %d\n", size, start);
  std::vector<long> in, out;
  for (int i = 0; i < start; i++) in.push_back(i + 1);
  bool timeouts = false, overlap = false;
  for (int t = 0; t < 3; t++)
    for (size_t i = 0; i < hist[t].size(); i++) {
      const Ev &e = hist[t][i];
      if (s.verbose) show(s, e);
      if (t == 2) continue;
      if (t == 0 && e.r) in.push_back(e.arg);
      if (t == 1 && e.r != -1) out.push_back(e.r);
      const bool failed = t == 0 ? !e.r : e.r == -1;
      if (failed) {
        timeouts |= e.timeout != 0;
        REQUIRE_MSG(e.timeout != INF, "an operation without a time limit gave up");
        REQUIRE_MSG(e.t1 - e.t0 + 1000 >= (pbt::u64)e.timeout * 1000000, "an operation with a timeout of %d ms gave up after %llu us", e.timeout, (unsigned long long)(e.t1 - e.t0) / 1000);
      } else {
        waited |= e.t1 - e.t0 > 500000;
      }
      if (t == 1)
        for (size_t j = 0; j < hist[0].size(); j++) overlap |= hist[0][j].inv < e.res && e.inv < hist[0][j].res;
    }
  REQUIRE_MSG(in == out, "%d elements were put in and %d came out, or not in the same order", (int)in.size(), (int)out.size());
  Linear l;
  for (int t = 0; t < 3; t++) l.h[t] = &hist[t];
  l.size = size, l.start = start, l.in = in;
  REQUIRE_MSG(l.go(0, 0, 0, 0, 0), "no order of the operations explains what they returned");
  if (overlap) s.nontrivial();
  if (timeouts) s.label("a timeout passes");
  if (waited) s.label("an operation waits and succeeds");
  if (overlap) s.label("operations overlap");
}

// A side that waits goes on as soon as it can, not when its time is over.
PROPERTY(wakes, 200000, 3000000, "an operation that waits goes on once the other side makes it possible, long before its time is over") {
  const int size = 1 + (int)s.below(4);
  const bool full = s.flip();
  const int pause = 1 + (int)s.below(3000), rounds = 1 + (int)s.below(4);
  const int ms = s.below(4) ? 1000000 + (int)s.below(1000) : INF;
  
  thread_queue_t q;
  Slots slots(size, full ? size : 0);
  pbt::u64 worst = 0;
  sim::run(s, [&]() {
    sim::the()->free_clock = false;
    thread_queue_init(&q, size, slots.p(), full ? size : 0);
    long next = full ? size + 1 : 1, expect = 1;
    pbt::u64 opened = 0;
    sim::Thread *t = sim::start([&]() {
      // the side that never has to wait
      for (int k = 0; k < rounds; k++) {
        sim::sleep_until(sim::the()->now + (pbt::u64)pause * 1000000);
        opened = sim::the()->now;
        if (full) {
          void *p = thread_queue_consume(&q, 0);
          REQUIRE_MSG(p == tag(expect), "consumed %ld, not %ld", untag(p), expect);
          expect++;
        } else {
          REQUIRE(thread_queue_produce(&q, tag(next++), 0) != 0);
        }
        sim::sleep_until(sim::the()->now + 2000000);
      }
    });
    for (int k = 0; k < rounds; k++) {
      const pbt::u64 t0 = sim::the()->now;
      if (full) {
        REQUIRE_MSG(thread_queue_produce(&q, tag(next++), ms) != 0, "producing timed out although there was space");
      } else {
        void *p = thread_queue_consume(&q, ms);
        REQUIRE_MSG(p == tag(expect), "consumed %ld, not %ld", untag(p), expect);
        expect++;
      }
      const pbt::u64 from = opened > t0 ? opened : t0;
      if (sim::the()->now - from > worst) worst = sim::the()->now - from;
    }
    sim::wait_for(t);
    thread_queue_term(&q);
  });
  s.note("%s queue of %d slots, waited %d times with %d ms, at worst %llu us after it was possible\n", full ? "full" : "empty", size, rounds, ms, (unsigned long long)worst / 1000);
  REQUIRE_MSG(worst < 20000000, "a waiting operation went on only %llu us after it was possible", (unsigned long long)worst / 1000);
  s.nontrivial();
}

// Two queues between a chain of threads; everything arrives.
PROPERTY(pipeline, 80000, 800000, "threads in a row, joined by queues of different sizes, hand on every element once and in order") {
  const int stages = 2 + (int)s.below(3), n = 1 + (int)s.below(12);
  thread_queue_t q[4];
  std::vector<Slots> slots;
  std::vector<int> size;
  for (int i = 0; i + 1 < stages; i++) {
    size.push_back(1 + (int)s.below(3));
    slots.push_back(Slots(size.back(), 0));
  }
  std::vector<long> payload(n + 2, 0), got;
  std::vector<int> ms;
  for (int i = 0; i < 16; i++) ms.push_back(any_timeout(s));
  sim::run(s, [&]() {
    sim::the()->limit = 200000;
    for (int i = 0; i + 1 < stages; i++) thread_queue_init(&q[i], size[i], slots[i].p(), 0);
    std::vector<sim::Thread *> th;
    for (int t = 0; t < stages; t++)
      th.push_back(sim::start([&, t]() {
        for (int k = 1; k <= n; k++) {
          void *p = tag(k);
          if (t == 0) {
            sim::wrote(&payload[k], sizeof(long));
            payload[k] = 0;
          } else {
            for (int tries = 0;; tries++) {
              p = thread_queue_consume(&q[t - 1], tries < 3 ? ms[(t + k) % 16] : INF);
              if (p) break;
            }
            REQUIRE_MSG(p == tag(k), "stage %d received %ld, not %d", t, untag(p), k);
          }
          sim::reads(&payload[k], sizeof(long));
          sim::wrote(&payload[k], sizeof(long));
          payload[k] += 1;
          if (t == stages - 1) got.push_back(payload[k]);
          else
            for (int tries = 0; !thread_queue_produce(&q[t], p, tries < 3 ? ms[(2 * t + k) % 16] : INF); tries++) {
            }
        }
      }));
    for (int t = 0; t < stages; t++) sim::wait_for(th[t]);
    for (int i = 0; i + 1 < stages; i++) thread_queue_term(&q[i]);
  });
  REQUIRE((int)got.size() == n);
  for (int k = 0; k < n; k++) REQUIRE_MSG(got[k] == stages, "an element passed %ld of %d stages", got[k], stages);
  s.nontrivial();
}
