// C38 with real threads, and over as many elements as an int can count.
#include <pthread.h>
#include <sys/time.h>
#define PBT_MAIN
#include "pbt.h"
#include NANO_THREADS_H

using pbt::Src;
static bool real = pbt::once() = true;
static void *tag(unsigned long k) { return (void *)(k * 16 + 8); }

struct Watch {  // a lost wake-up would otherwise never end
  Watch() {
    struct itimerval it = {{0, 0}, {200, 0}};
    setitimer(ITIMER_REAL, &it, 0);
  }
  ~Watch() {
    struct itimerval it = {{0, 0}, {0, 0}};
    setitimer(ITIMER_REAL, &it, 0);
  }
};

// If the whole queue is, bit by bit, what it was one round earlier, then so are all later rounds; if not, they are run.
PROPERTY(endless, 5, 10, "however many elements pass through it, the queue stays a FIFO: its state recurs, or 2^32 elements are passed through it") {
  static const int sizes[] = {3, 1, 9, 5, 7, 6, 10, 12, 100, 31};
  const int size = sizes[s.below(10)];
  std::vector<void *> v(size, (void *)0);
  static thread_queue_t q;
  memset((void *)&q, 0, sizeof q);
  thread_queue_init(&q, size, &v[0], 0);
  std::vector<std::string> states;
  const int hold = size > 1 ? size / 2 : 0;
  for (int i = 0; i < hold; i++) REQUIRE(thread_queue_produce(&q, tag(5), 0));
  bool recurs = false;
  pbt::u64 n = 0;
  for (int r = 0; r < 64 && !recurs; r++) {
    std::string st((const char *)&q, sizeof q);
    for (size_t i = 0; i < states.size(); i++) recurs |= states[i] == st;
    states.push_back(st);
    for (int i = 0; i < size; i++, n++) {
      REQUIRE(thread_queue_produce(&q, tag(5), 0));
      REQUIRE(thread_queue_consume(&q, 0) == tag(5));
    }
  }
  s.note("%d slots; the state %s\n", size, recurs ? "recurs" : "does not recur");
  s.label(recurs ? "the state recurs" : "2^32 elements");
  s.nontrivial();
  static bool done = false;
  if (!recurs && !done && size > 1) {
    done = true;
    const pbt::u64 all = (1ull << 32) + 1000;
    unsigned long in = 0, out = 0;
    // what is in the queue now
    while (thread_queue_consume(&q, 0)) {
    }
    for (; out < (unsigned long)hold; out++) thread_queue_produce(&q, tag(out), 0);
    in = out, out = 0;
    for (; n < all; n++) {
      REQUIRE_MSG(thread_queue_produce(&q, tag(in & 0xffffff), 0), "the queue has no space after %llu elements", (unsigned long long)n);
      in++;
      void *p = thread_queue_consume(&q, 0);
      REQUIRE_MSG(p == tag(out & 0xffffff), "the wrong element after %llu elements", (unsigned long long)n);
      out++;
      if ((n & 0xfffff) == 0) pbt::alive();
    }
  }
  thread_queue_term(&q);
}

struct Both {
  thread_queue_t q;
  unsigned long n;
  std::vector<int> ms;
  std::vector<unsigned long> payload;
  std::string bad;
  unsigned long timeouts;
};
static void *producer(void *p) {
  Both *b = (Both *)p;
  for (unsigned long k = 0; k < b->n; k++) {
    b->payload[k] = k ^ 0x5555;
    const int ms = b->ms[k % b->ms.size()];
    while (!thread_queue_produce(&b->q, tag(k), ms))
      if (ms == 0) sched_yield();
  }
  return 0;
}
PROPERTY(parallel, 400, 2000, "real threads: every element arrives once, in order, with what the producer wrote before") {
  Watch watch;
  static const int sizes[] = {1, 2, 3, 7, 64, 1000};
  static const int times[] = {-1, 0, 1, 50, -1, 100000};
  Both *b = new Both();
  const int size = sizes[s.below(6)];
  std::vector<void *> v(size, (void *)0);
  b->n = 1 + s.below(size == 1 ? 3000 : 30000);
  b->payload.resize(b->n);
  const int kinds = 1 + (int)s.below(4);
  std::vector<int> mine;
  for (int i = 0; i < kinds; i++) {
    b->ms.push_back(times[s.below(6)]);
    mine.push_back(times[s.below(6)]);
  }
  thread_queue_init(&b->q, size, &v[0], 0);
  pthread_t t;
  REQUIRE(pthread_create(&t, 0, producer, b) == 0);
  std::string bad;
  for (unsigned long k = 0; k < b->n; k++) {
    const int ms = mine[k % mine.size()];
    void *p;
    while (!(p = thread_queue_consume(&b->q, ms)))
      if (ms == 0) sched_yield();
    const int c = thread_queue_count(&b->q);
    if (bad.empty() && p != tag(k)) bad = pbt::fmt("element %lu arrived as %lu", k, (unsigned long)p / 16);
    if (bad.empty() && b->payload[k] != (k ^ 0x5555)) bad = pbt::fmt("what was written before element %lu was produced is missing", k);
    if (bad.empty() && (c < 0 || c > size)) bad = pbt::fmt("the queue of %d slots counts %d elements", size, c);
    if (!bad.empty()) break;
  }
  s.note("%lu elements through %d slots\n", b->n, size);
  REQUIRE_MSG(bad.empty(), "%s", bad.c_str());  // the other thread is left where it is
  pthread_join(t, 0);
  REQUIRE_MSG(!thread_queue_consume(&b->q, 0) && thread_queue_count(&b->q) == 0, "the queue is not empty in the end");
  thread_queue_term(&b->q);
  delete b;
  s.nontrivial();
}
