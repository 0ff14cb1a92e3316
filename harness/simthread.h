// A deterministic scheduler for code that uses POSIX threads.
//
// The code under test is compiled with the compiler's thread instrumentation (-fsanitize=thread) but linked against this
// file instead of the sanitizer's runtime, and its calls to pthread_*, clocks and sleeps are redirected to sim_* (objcopy
// --redefine-sym).  Threads are coroutines of one process: before every memory access, atomic operation and library call
// the generated case decides who runs next, so an interleaving is a list of choices like any other input, and it replays
// and shrinks.  The same run checks, with vector clocks, that conflicting plain accesses are ordered (no data race), and
// it notices deadlock, misuse of mutexes, condition variables and thread handles.  Time is simulated.
#ifndef SIMTHREAD_H_
#define SIMTHREAD_H_
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <sys/time.h>
#include <time.h>
#include <ucontext.h>

#include <functional>
#include <map>
#include <unordered_map>

#include "pbt.h"

namespace sim {

typedef pbt::u64 u64;
enum { MAXT = 10, STACK = 128 << 10 };
enum State { RUN, WANT, COND, SLEEP, JOIN, SEM, ONCE, IDLE, DONE };

struct VC {
  unsigned c[MAXT];
  VC() { memset(c, 0, sizeof c); }
  void join(const VC &o) {
    for (int i = 0; i < MAXT; i++)
      if (o.c[i] > c[i]) c[i] = o.c[i];
  }
};

struct Thread {
  int id;
  ucontext_t ctx;
  std::function<void()> body;
  State st;
  const void *obj;    // mutex wanted, condition waited for
  const void *mutex;  // to be taken again after the condition
  Thread *target;     // joined
  bool timed, timed_out, interrupted;
  u64 deadline;  // on the monotonic scale
  VC vc, released, seen;  // own time; what the last release fence covers; what relaxed loads have seen
  std::map<u64, std::pair<u64, void *> > tls;  // key -> generation, value
  void *ret;
  bool joined, detached, by_library, scheduled;  // scheduled: its priority was set
  char name[16];
  size_t stacksize;
};

struct Mutex {
  int owner, depth;
  bool destroyed, recursive;
  VC vc;
  Mutex() : owner(-1), depth(0), destroyed(false), recursive(false) {}
};
struct Cond {
  bool destroyed, monotonic;
  Cond() : destroyed(false), monotonic(false) {}
};
struct Shadow {
  unsigned w[MAXT], r[MAXT], a[MAXT];  // last plain write, plain read, atomic write of each thread
  Shadow() { memset(this, 0, sizeof *this); }
};
struct Key {
  u64 gen;
  bool used;
  void (*destroy)(void *);
};
struct Sem {
  u64 value;
  bool destroyed;
  VC vc;
  Sem() : value(0), destroyed(true) {}
};

struct Sim {
  pbt::Src *src;
  std::vector<Thread *> threads;
  Thread *cur;
  ucontext_t main;
  std::string failure;
  u64 steps, limit;
  u64 now, epoch;  // monotonic clock, and the wall clock at its start
  u64 lag;         // time() runs on a coarse clock that lags behind
  unsigned rarity;
  u64 patience;  // how often a thread that polls does so before time passes
  bool spurious, interrupts, free_clock, no_threads, no_memory;  // the last two: creating threads, allocating fails
  std::unordered_map<u64, Shadow> shadow;
  std::unordered_map<u64, VC> atomics;
  std::map<const void *, Mutex> mutexes;
  std::map<const void *, Cond> conds;
  std::vector<Key> keys;
  std::map<const void *, Sem> sems;
  std::map<const void *, int> onces;  // 1: running, 2: done
  std::map<void *, size_t> blocks;
  std::map<u64, size_t> freed;
  bool overflow;
  u64 event;       // for histories: counts calls and returns
  u64 switches;
};
inline Sim *&the() {
  static Sim *s = 0;
  return s;
}
inline std::vector<char *> &stacks() {
  static std::vector<char *> v;
  return v;
}

// Gives up on the case: the failure is thrown from the harness's own context.
inline void fail(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline void fail(const char *f, ...) {
  Sim &s = *the();
  char b[1000];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  if (s.failure.empty()) s.failure = b;
  setcontext(&s.main);
  abort();
}

inline bool mutex_free(const void *m) { return the()->mutexes[m].owner < 0; }
inline bool ready(const Thread *t) {
  Sim &s = *the();
  switch (t->st) {
    case RUN: return true;
    case WANT: return mutex_free(t->obj) || (t->timed && t->deadline <= s.now);
    case SEM: return s.sems[t->obj].value > 0 || (t->timed && t->deadline <= s.now);
    case ONCE: return s.onces[t->obj] == 2;
    case COND: return t->timed && t->deadline <= s.now;
    case SLEEP: return t->deadline <= s.now;
    case JOIN: return t->target->st == DONE;
    default: return false;
  }
}
// Waits for a point in time, among other things.
inline bool timed(const Thread *t) { return t->st == SLEEP || (t->timed && (t->st == COND || t->st == SEM || t->st == WANT)); }
inline const char *describe(const Thread *t) {
  switch (t->st) {
    case RUN: return "running";
    case WANT: return "waiting for a mutex";
    case COND: return "waiting for a condition";
    case SLEEP: return "sleeping";
    case JOIN: return "joining";
    case SEM: return "waiting for a semaphore";
    case ONCE: return "waiting for an initialisation";
    case IDLE: return "waiting for quiescence";
    default: return "finished";
  }
}

inline void run_next(Thread *t) {
  Sim &s = *the();
  Thread *old = s.cur;
  s.cur = t;
  s.switches++;
  if (old == t) return;
  if (old->st == DONE) setcontext(&t->ctx);
  else swapcontext(&old->ctx, &t->ctx);
}

// Chooses who runs; the current thread may be blocked or finished.
inline void schedule(bool voluntary) {
  Sim &s = *the();
  for (;;) {
    Thread *r[MAXT];
    unsigned n = 0;
    for (size_t i = 0; i < s.threads.size(); i++)
      if (s.threads[i] != s.cur && ready(s.threads[i])) r[n++] = s.threads[i];
    const bool self = ready(s.cur);
    if (self) {
      if (voluntary && (n == 0 || s.free_clock) && s.src->below(s.patience) == s.patience - 1) {
        // whoever yields may be polling for something that takes time
        u64 d = ~0ull;
        for (size_t i = 0; i < s.threads.size(); i++)
          if (timed(s.threads[i]) && s.threads[i]->deadline < d) d = s.threads[i]->deadline;
        if (d != ~0ull && s.now < d) {
          s.now = d;
          continue;
        }
      }
      if (n == 0) return;
      const unsigned range = voluntary ? n + 1 : n + s.rarity;
      const u64 v = s.src->below(range);
      if (v < range - n) return;
      return run_next(r[v - (range - n)]);
    }
    if (n) return run_next(r[n > 1 ? s.src->below(n) : 0]);
    // nobody can run: let time pass
    u64 d = ~0ull;
    for (size_t i = 0; i < s.threads.size(); i++) {
      const Thread *t = s.threads[i];
      if (timed(t) && t->deadline < d) d = t->deadline;
    }
    if (d != ~0ull) {
      if (s.now < d) s.now = d;
      continue;
    }
    for (size_t i = 0; i < s.threads.size(); i++)
      if (s.threads[i]->st == IDLE) {
        s.threads[i]->st = RUN;
        return run_next(s.threads[i]);
      }
    bool done = true;
    for (size_t i = 0; i < s.threads.size(); i++) done &= s.threads[i]->st == DONE;
    if (done) {
      setcontext(&s.main);
      abort();
    }
    std::string w;
    for (size_t i = 0; i < s.threads.size(); i++) w += pbt::fmt("%sthread %d is %s", i ? ", " : "", s.threads[i]->id, describe(s.threads[i]));
    fail("deadlock: %s", w.c_str());
  }
}

inline void point(bool voluntary = false) {
  Sim *p = the();
  if (!p || !p->cur) return;
  Sim &s = *p;
  if (++s.steps > s.limit) fail("the threads do not come to an end after %llu steps", (unsigned long long)s.steps);
  s.now += 15;
  bool timer = false, waits = false;
  for (size_t i = 0; i < s.threads.size(); i++) {
    const Thread *t = s.threads[i];
    if (t->st == COND) waits = true;
    if (timed(t)) timer = true;
  }
  if (timer && s.free_clock) {
    const u64 v = s.src->below(48);
    if (v == 47) s.now += 1 + s.src->below(3000000);
    if (v == 46) s.now += 1 + s.src->below(400000000);
  }
  if (waits && s.spurious && s.src->below(40) == 39) {
    for (size_t i = 0; i < s.threads.size(); i++)
      if (s.threads[i]->st == COND && s.src->flip()) {
        s.threads[i]->st = WANT;
        s.threads[i]->timed = false;
        s.threads[i]->obj = s.threads[i]->mutex;
      }
  }
  schedule(voluntary);
}

// ---- ordering of memory accesses

inline void tick(Thread *t) { t->vc.c[t->id]++; }
inline void hb_release(VC &v) {
  Thread *t = the()->cur;
  v.join(t->vc);
  tick(t);
}
inline void hb_acquire(const VC &v) { the()->cur->vc.join(v); }

inline void touch(const void *p, size_t n, bool write, bool atomic) {
  Sim *q = the();
  if (!q || !q->cur) return;
  Sim &s = *q;
  Thread *t = s.cur;
  const u64 a = (u64)p;
  if (!s.freed.empty()) {
    std::map<u64, size_t>::iterator f = s.freed.upper_bound(a);
    if (f != s.freed.begin() && a < (--f)->first + f->second) fail("thread %d uses memory after it was freed", t->id);
  }
  const size_t step = n >= 4 ? 4 : 1;
  for (u64 x = a; x < a + n; x += step) {
    Shadow &h = s.shadow[step == 4 ? x >> 2 : x | 1ull << 63];
    for (int i = 0; i < MAXT; i++) {
      if (i == t->id) continue;
      const unsigned seen = t->vc.c[i];
      const bool w = h.w[i] > seen, r = h.r[i] > seen, at = h.a[i] > seen;
      if (w || (r && write) || (at && !atomic))
        fail("data race: thread %d %s memory that thread %d %s, and nothing orders the two", t->id, write ? "writes" : "reads", i, w ? "wrote" : r ? "read" : "changed atomically");
    }
    if (atomic) {
      if (write) h.a[t->id] = t->vc.c[t->id];
    } else if (write) {
      h.w[t->id] = t->vc.c[t->id];
    } else {
      h.r[t->id] = t->vc.c[t->id];
    }
  }
}
// For the harness's own data, which the library is meant to order.
inline void wrote(const void *p, size_t n) { touch(p, n, true, false); }
inline void reads(const void *p, size_t n) { touch(p, n, false, false); }

inline bool acq(int o) { o &= 0xff; return o == 1 || o == 2 || o >= 4; }
inline bool rel(int o) { o &= 0xff; return o >= 3; }

// ---- threads of a case

inline void entry() {
  Sim &s = *the();
  Thread *t = s.cur;
  try {
    t->body();
  } catch (const pbt::Fail &f) {
    fail("%s", f.msg.c_str());
  } catch (const pbt::Overflow &) {
    s.overflow = true;
    setcontext(&s.main);
  }
  tick(t);
  t->st = DONE;
  schedule(false);
  abort();
}

inline Thread *start(const std::function<void()> &body) {
  Sim &s = *the();
  if (s.threads.size() >= MAXT) fail("more than %d threads", (int)MAXT);
  Thread *t = new Thread();
  t->id = (int)s.threads.size();
  t->body = body;
  t->st = RUN;
  t->timed = t->timed_out = t->joined = t->detached = t->by_library = t->interrupted = t->scheduled = false;
  t->ret = 0;
  t->name[0] = 0;
  t->stacksize = 0;
  while (stacks().size() <= (size_t)t->id) {
    char *m = (char *)mmap(0, STACK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) abort();
    mprotect(m, 4096, PROT_NONE);
    stacks().push_back(m + 4096);
  }
  if (s.cur) {
    t->vc = s.cur->vc;
    tick(s.cur);
  }
  t->vc.c[t->id] = 1;
  s.threads.push_back(t);
  getcontext(&t->ctx);
  t->ctx.uc_stack.ss_sp = stacks()[t->id];
  t->ctx.uc_stack.ss_size = STACK;
  t->ctx.uc_link = 0;
  makecontext(&t->ctx, entry, 0);
  return t;
}

inline void wait_for(Thread *t) {
  Sim &s = *the();
  if (t->st != DONE) {
    s.cur->st = JOIN;
    s.cur->target = t;
    schedule(false);
    s.cur->st = RUN;
  }
  hb_acquire(t->vc);
}
inline u64 event() { return ++the()->event; }
inline size_t live_blocks() { return the()->blocks.size(); }
// Returns once no other thread can go on without this one.
inline void quiesce() {
  Sim &s = *the();
  s.cur->st = IDLE;
  schedule(false);
}

// Runs a case; `body` is thread 0.
inline void run(pbt::Src &src, const std::function<void()> &body) {
  Sim s;
  s.src = &src;
  s.cur = 0;
  s.steps = 0;
  s.overflow = false;
  static const u64 pat[] = {4, 4, 4, 4, 16, 64, 300, 2500};
  s.patience = pat[src.below(8)];
  s.limit = s.patience > 16 ? 30000 + 400 * s.patience : 30000;
  s.now = 1000000000ull;
  s.switches = 0;
  s.event = 0;
  s.free_clock = true;
  s.no_threads = s.no_memory = false;
  const unsigned rar[] = {2, 5, 16, 60};
  s.rarity = rar[src.below(4)];
  // near the start, the middle and the end of a second
  static const u64 phase[] = {0, 500000000ull, 999999999ull, 999000000ull, 1000000ull, 999999000ull};
  s.epoch = 1700000000ull * 1000000000ull + (src.flip() ? src.below(1000000000) : phase[src.below(6)]);
  s.lag = src.below(3) ? 0 : src.below(4000001);
  s.spurious = src.below(4) == 3;
  s.interrupts = src.below(3) == 2;
  the() = &s;
  struct itimerval it = {{0, 0}, {90, 0}};
  setitimer(ITIMER_REAL, &it, 0);  // a call that really blocks would otherwise never end
  volatile bool started = false;
  getcontext(&s.main);
  if (!started) {
    started = true;
    Thread *t = start(body);
    s.cur = t;
    setcontext(&t->ctx);
  }
  the() = 0;
  struct itimerval off = {{0, 0}, {0, 0}};
  setitimer(ITIMER_REAL, &off, 0);
  for (size_t i = 0; i < s.threads.size(); i++) delete s.threads[i];
  for (std::map<u64, size_t>::iterator i = s.freed.begin(); i != s.freed.end(); ++i) free((void *)i->first);
  if (s.overflow) throw pbt::Overflow();
  if (!s.failure.empty()) throw pbt::Fail{s.failure};
}

inline Thread *from(pthread_t h) {
  Sim &s = *the();
  for (size_t i = 0; i < s.threads.size(); i++)
    if ((pthread_t)s.threads[i] == h) return s.threads[i];
  fail("a thread handle that belongs to no thread is used");
  return 0;
}
inline u64 wall() { return the()->epoch + the()->now; }
inline Mutex &mtx(const void *m) {
  Mutex &x = the()->mutexes[m];
  if (x.destroyed) fail("a destroyed mutex is used");
  return x;
}
inline Cond &cnd(const void *c) {
  Cond &x = the()->conds[c];
  if (x.destroyed) fail("a destroyed condition variable is used");
  return x;
}
inline void set_deadline(Thread *t, const struct timespec *ts, bool monotonic) {
  Sim &s = *the();
  t->timed = ts != 0;
  if (!ts) return;
  const __int128 at = (__int128)ts->tv_sec * 1000000000 + ts->tv_nsec - (monotonic ? 0 : (__int128)s.epoch);
  t->deadline = at < 0 ? 0 : at > (__int128)~0ull >> 1 ? ~0ull >> 1 : (u64)at;
}
inline int lock(const void *m, const struct timespec *ts = 0, bool monotonic = false) {
  Sim &s = *the();
  Mutex &x = mtx(m);
  if (x.owner == s.cur->id) {
    if (!x.recursive) fail("a thread locks a mutex that it already holds");
    x.depth++;
    return 0;
  }
  while (!mutex_free(m)) {
    if (ts && (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000L)) return EINVAL;
    s.cur->st = WANT;
    s.cur->obj = m;
    set_deadline(s.cur, ts, monotonic);
    schedule(false);
    s.cur->st = RUN;
    s.cur->timed = false;
    if (ts && !mutex_free(m)) return ETIMEDOUT;
  }
  mtx(m);
  x.owner = s.cur->id;
  x.depth = 1;
  hb_acquire(x.vc);
  return 0;
}
inline Sem &sem(const void *p) {
  Sem &x = the()->sems[p];
  if (x.destroyed) fail("a semaphore is used that does not exist");
  return x;
}
inline int sem_wait(const void *p, bool wait, const struct timespec *ts, bool monotonic) {
  Sim &s = *the();
  sem(p);
  while (sem(p).value == 0) {
    if (!wait) return EAGAIN;
    if (ts && (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000L)) return EINVAL;
    if (s.interrupts && s.src->below(8) == 7) return EINTR;
    s.cur->st = SEM;
    s.cur->obj = p;
    set_deadline(s.cur, ts, monotonic);
    schedule(false);
    s.cur->st = RUN;
    s.cur->timed = false;
    if (ts && sem(p).value == 0) return ETIMEDOUT;
  }
  sem(p).value--;
  hb_acquire(sem(p).vc);
  return 0;
}
inline int unlock(const void *m) {
  Sim &s = *the();
  Mutex &x = mtx(m);
  if (x.owner != s.cur->id) fail("a thread unlocks a mutex that it does not hold");
  if (--x.depth == 0) {
    hb_release(x.vc);
    x.owner = -1;
  }
  return 0;
}
inline int cond_wait(const void *c, const void *m, const struct timespec *ts, bool monotonic) {
  Sim &s = *the();
  cnd(c);
  Mutex &x = mtx(m);
  if (x.owner != s.cur->id) fail("a condition is waited for without its mutex");
  if (ts && (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000L)) return EINVAL;
  Thread *t = s.cur;
  const int depth = x.depth;
  hb_release(x.vc);
  x.owner = -1;
  x.depth = 0;
  t->st = COND;
  t->obj = c;
  t->mutex = m;
  t->timed_out = false;
  set_deadline(t, ts, monotonic);
  schedule(false);
  if (t->st == COND) t->timed_out = true;  // made ready by the clock alone
  t->timed = false;
  t->st = RUN;
  t->obj = 0;
  lock(m);
  mtx(m).depth = depth;
  cnd(c);
  return t->timed_out ? ETIMEDOUT : 0;
}
inline void cond_wake(const void *c, bool all) {
  Sim &s = *the();
  cnd(c);
  Thread *w[MAXT];
  unsigned n = 0;
  for (size_t i = 0; i < s.threads.size(); i++)
    if (s.threads[i]->st == COND && s.threads[i]->obj == c) w[n++] = s.threads[i];
  if (!n) return;
  const unsigned k = all || n == 1 ? 0 : (unsigned)s.src->below(n);
  for (unsigned i = 0; i < n; i++)
    if (all || i == k) {
      w[i]->st = WANT;
      w[i]->timed = false;
      w[i]->obj = w[i]->mutex;
    }
}
inline int sleep_until(u64 deadline) {
  Sim &s = *the();
  Thread *t = s.cur;
  t->st = SLEEP;
  t->deadline = deadline;
  schedule(false);
  t->st = RUN;
  return 0;
}
// Destructors of thread-local values, as at the end of a thread.
inline void drop_tls() {
  Sim &s = *the();
  Thread *t = s.cur;
  for (int round = 0; round < 4; round++) {
    bool any = false;
    for (size_t k = 0; k < s.keys.size(); k++) {
      if (!s.keys[k].used || !s.keys[k].destroy || !t->tls.count(k) || t->tls[k].first != s.keys[k].gen || !t->tls[k].second) continue;
      void *p = t->tls[k].second;
      t->tls[k].second = 0;
      s.keys[k].destroy(p);
      any = true;
    }
    if (!any) break;
  }
}
inline void finish(void *ret) {
  Sim &s = *the();
  drop_tls();
  s.cur->ret = ret;
  tick(s.cur);
  s.cur->st = DONE;
  schedule(false);
  abort();
}

}  // namespace sim

// ---- what the instrumented code calls

extern "C" {
void simt_init() {}
void simt_func_entry(void *) {}
void simt_func_exit() {}
void simt_vptr_update(void **, void *) {}
void simt_vptr_read(void **) {}
#define SIM_RW(n)                                                                        \
  void simt_read##n(void *p) { sim::point(); sim::touch(p, n, false, false); }        \
  void simt_write##n(void *p) { sim::point(); sim::touch(p, n, true, false); }        \
  void simt_unaligned_read##n(void *p) { sim::point(); sim::touch(p, n, false, false); } \
  void simt_unaligned_write##n(void *p) { sim::point(); sim::touch(p, n, true, false); } \
  void simt_volatile_read##n(void *p) { sim::point(); sim::touch(p, n, false, false); } \
  void simt_volatile_write##n(void *p) { sim::point(); sim::touch(p, n, true, false); }
SIM_RW(1) SIM_RW(2) SIM_RW(4) SIM_RW(8) SIM_RW(16)
void simt_read_range(void *p, unsigned long n) { sim::point(); sim::touch(p, n, false, false); }
void simt_write_range(void *p, unsigned long n) { sim::point(); sim::touch(p, n, true, false); }

#define SIM_RMW(bits, T, name, expr)                                    \
  T simt_atomic##bits##_##name(volatile T *p, T v, int o) {           \
    sim::point();                                                       \
    T old = *p;                                                         \
    *p = (T)(expr);                                                     \
    sim::rmw((const void *)p, sizeof(T), o);                            \
    return old;                                                         \
  }
#define SIM_ATOMIC(bits, T)                                                                       \
  T simt_atomic##bits##_load(const volatile T *p, int o) {                                      \
    sim::point();                                                                                 \
    sim::loads((const void *)p, sizeof(T), o);                                                    \
    return *p;                                                                                    \
  }                                                                                               \
  void simt_atomic##bits##_store(volatile T *p, T v, int o) {                                   \
    sim::point();                                                                                 \
    sim::stores((const void *)p, sizeof(T), o);                                                   \
    *p = v;                                                                                       \
  }                                                                                               \
  SIM_RMW(bits, T, exchange, v)                                                                   \
  SIM_RMW(bits, T, fetch_add, old + v)                                                            \
  SIM_RMW(bits, T, fetch_sub, old - v)                                                            \
  SIM_RMW(bits, T, fetch_and, old &v)                                                             \
  SIM_RMW(bits, T, fetch_or, old | v)                                                             \
  SIM_RMW(bits, T, fetch_xor, old ^ v)                                                            \
  SIM_RMW(bits, T, fetch_nand, ~(old & v))                                                        \
  int simt_atomic##bits##_compare_exchange_strong(volatile T *p, T *e, T v, int o, int fo) {    \
    sim::point();                                                                                 \
    if (*p == *e) {                                                                               \
      *p = v;                                                                                     \
      sim::rmw((const void *)p, sizeof(T), o);                                                    \
      return 1;                                                                                   \
    }                                                                                             \
    sim::loads((const void *)p, sizeof(T), fo);                                                   \
    *e = *p;                                                                                      \
    return 0;                                                                                     \
  }                                                                                               \
  int simt_atomic##bits##_compare_exchange_weak(volatile T *p, T *e, T v, int o, int fo) {      \
    sim::point();                                                                                 \
    if (sim::the() && sim::the()->cur && sim::the()->src->below(8) == 7) {                        \
      sim::loads((const void *)p, sizeof(T), fo);                                                 \
      *e = *p;                                                                                    \
      return 0;                                                                                   \
    }                                                                                             \
    return simt_atomic##bits##_compare_exchange_strong(p, e, v, o, fo);                         \
  }                                                                                               \
  T simt_atomic##bits##_compare_exchange_val(volatile T *p, T e, T v, int o, int fo) {          \
    simt_atomic##bits##_compare_exchange_strong(p, &e, v, o, fo);                               \
    return e;                                                                                     \
  }
}  // extern "C"
namespace sim {
inline void reads_from(const VC &v, int o) {
  Thread *t = the()->cur;
  if (acq(o)) t->vc.join(v);
  t->seen.join(v);
}
inline void writes_to(VC &v, int o) {
  Thread *t = the()->cur;
  v.join(t->released);
  if (rel(o)) hb_release(v);
}
inline void rmw(const void *p, size_t n, int o) {
  if (!the() || !the()->cur) return;
  touch(p, n, true, true);
  VC &v = the()->atomics[(u64)p];
  reads_from(v, o);
  writes_to(v, o);
}
inline void loads(const void *p, size_t n, int o) {
  if (!the() || !the()->cur) return;
  touch(p, n, false, true);
  reads_from(the()->atomics[(u64)p], o);
}
inline void stores(const void *p, size_t n, int o) {
  if (!the() || !the()->cur) return;
  touch(p, n, true, true);
  VC &v = the()->atomics[(u64)p];
  v = VC();
  writes_to(v, o);
}
inline void fence(int o) {
  Sim &s = *the();
  if (acq(o)) s.cur->vc.join(s.cur->seen);
  if (rel(o)) {
    s.cur->released = s.cur->vc;
    tick(s.cur);
  }
}
}  // namespace sim
extern "C" {
SIM_ATOMIC(8, unsigned char)
SIM_ATOMIC(16, unsigned short)
SIM_ATOMIC(32, unsigned int)
SIM_ATOMIC(64, unsigned long)
void simt_atomic_thread_fence(int o) {
  sim::point();
  if (sim::the() && sim::the()->cur) sim::fence(o);
}
void simt_atomic_signal_fence(int) {}

// ---- redirected library calls

int sim_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
  sim::point();
  sim::Mutex x;
  int kind = 0;
  if (a && pthread_mutexattr_gettype(a, &kind) == 0) x.recursive = kind == PTHREAD_MUTEX_RECURSIVE;
  sim::the()->mutexes[m] = x;
  memset((void *)m, 0x5a, sizeof *m);
  return 0;
}
int sim_pthread_mutex_destroy(pthread_mutex_t *m) {
  sim::point();
  if (sim::mtx(m).owner >= 0) sim::fail("a locked mutex is destroyed");
  sim::mtx(m).destroyed = true;
  return 0;
}
int sim_pthread_mutex_lock(pthread_mutex_t *m) {
  sim::point();
  sim::lock(m);
  return 0;
}
int sim_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) {
  sim::point();
  return sim::lock(m, ts);
}
int sim_pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t k, const struct timespec *ts) {
  sim::point();
  return sim::lock(m, ts, k == CLOCK_MONOTONIC);
}
int sim_pthread_spin_init(pthread_spinlock_t *m, int) {
  sim::point();
  sim::the()->mutexes[(const void *)m] = sim::Mutex();
  return 0;
}
int sim_pthread_spin_destroy(pthread_spinlock_t *m) {
  sim::point();
  sim::mtx((const void *)m).destroyed = true;
  return 0;
}
int sim_pthread_spin_lock(pthread_spinlock_t *m) {
  sim::point();
  return sim::lock((const void *)m);
}
int sim_pthread_spin_trylock(pthread_spinlock_t *m) {
  sim::point();
  if (sim::mtx((const void *)m).owner >= 0) return EBUSY;
  return sim::lock((const void *)m);
}
int sim_pthread_spin_unlock(pthread_spinlock_t *m) {
  sim::point();
  return sim::unlock((const void *)m);
}
int sim_pthread_once(pthread_once_t *o, void (*f)()) {
  sim::point();
  sim::Sim &s = *sim::the();
  if (s.onces[o] == 0) {
    s.onces[o] = 1;
    f();
    s.onces[o] = 2;
  }
  while (s.onces[o] != 2) {
    s.cur->st = sim::ONCE;
    s.cur->obj = o;
    sim::schedule(false);
    s.cur->st = sim::RUN;
  }
  return 0;
}
int sim_sem_init(void *p, int, unsigned v) {
  sim::point();
  sim::Sem x;
  x.destroyed = false;
  x.value = v;
  sim::the()->sems[p] = x;
  return 0;
}
int sim_sem_destroy(void *p) {
  sim::point();
  sim::sem(p).destroyed = true;
  return 0;
}
int sim_sem_post(void *p) {
  sim::point();
  sim::hb_release(sim::sem(p).vc);
  sim::sem(p).value++;
  return 0;
}
static int sim_errno(int e) {
  if (e) errno = e;
  return e ? -1 : 0;
}
int sim_sem_wait(void *p) {
  sim::point();
  return sim_errno(sim::sem_wait(p, true, 0, false));
}
int sim_sem_trywait(void *p) {
  sim::point();
  return sim_errno(sim::sem_wait(p, false, 0, false));
}
int sim_sem_timedwait(void *p, const struct timespec *ts) {
  sim::point();
  return sim_errno(sim::sem_wait(p, true, ts, false));
}
int sim_sem_clockwait(void *p, clockid_t k, const struct timespec *ts) {
  sim::point();
  return sim_errno(sim::sem_wait(p, true, ts, k == CLOCK_MONOTONIC));
}
int sim_sem_getvalue(void *p, int *v) {
  sim::point();
  *v = (int)sim::sem(p).value;
  return 0;
}
int sim_pthread_mutex_trylock(pthread_mutex_t *m) {
  sim::point();
  sim::Mutex &x = sim::mtx(m);
  if (x.owner >= 0 && !(x.recursive && x.owner == sim::the()->cur->id)) return EBUSY;
  sim::lock(m);
  return 0;
}
int sim_pthread_mutex_unlock(pthread_mutex_t *m) {
  sim::point();
  sim::unlock(m);
  sim::point();
  return 0;
}
int sim_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) {
  sim::point();
  sim::Cond x;
  clockid_t k;
  if (a && pthread_condattr_getclock(a, &k) == 0) x.monotonic = k == CLOCK_MONOTONIC;
  sim::the()->conds[c] = x;
  memset((void *)c, 0x5a, sizeof *c);
  return 0;
}
int sim_pthread_cond_destroy(pthread_cond_t *c) {
  sim::point();
  sim::Cond &x = sim::cnd(c);
  for (size_t i = 0; i < sim::the()->threads.size(); i++)
    if (sim::the()->threads[i]->st == sim::COND && sim::the()->threads[i]->obj == c) sim::fail("a condition variable is destroyed while a thread waits for it");
  x.destroyed = true;
  return 0;
}
int sim_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  sim::point();
  return sim::cond_wait(c, m, 0, false);
}
int sim_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
  sim::point();
  return sim::cond_wait(c, m, ts, sim::cnd(c).monotonic);
}
int sim_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts) {
  sim::point();
  return sim::cond_wait(c, m, ts, k == CLOCK_MONOTONIC);
}
int sim_pthread_cond_signal(pthread_cond_t *c) {
  sim::point();
  sim::cond_wake(c, false);
  return 0;
}
int sim_pthread_cond_broadcast(pthread_cond_t *c) {
  sim::point();
  sim::cond_wake(c, true);
  return 0;
}
int sim_pthread_create(pthread_t *h, const pthread_attr_t *a, void *(*f)(void *), void *arg) {
  sim::point();
  sim::Sim &s = *sim::the();
  if (s.no_threads) return EAGAIN;
  // the handle is known to the creator only after the new thread may already run
  sim::Thread *t = sim::start([f, arg]() {
    sim::Sim &q = *sim::the();
    sim::Thread *me = q.cur;
    // what the instrumented code returns in the low half of a register is all that counts
    me->ret = f(arg);
    sim::drop_tls();
  });
  (void)s;
  t->by_library = true;
  if (a) {
    int d = 0;
    pthread_attr_getdetachstate(a, &d);
    t->detached = d == PTHREAD_CREATE_DETACHED;
    pthread_attr_getstacksize(a, &t->stacksize);
  }
  *h = (pthread_t)t;
  sim::point();
  return 0;
}
int sim_pthread_join(pthread_t h, void **ret) {
  sim::point();
  sim::Thread *t = sim::from(h);
  if (t->joined) sim::fail("a thread that has already been joined is joined again (its handle may by then belong to another thread)");
  if (t->detached) sim::fail("a detached thread is joined");
  if (t == sim::the()->cur) return EDEADLK;
  sim::wait_for(t);
  t->joined = true;
  if (ret) *ret = t->ret;
  return 0;
}
int sim_pthread_detach(pthread_t h) {
  sim::point();
  sim::Thread *t = sim::from(h);
  if (t->joined || t->detached) sim::fail("a thread that has already been joined is detached");
  t->detached = true;
  return 0;
}
void sim_pthread_exit(void *ret) { sim::finish(ret); }
pthread_t sim_pthread_self() { return (pthread_t)sim::the()->cur; }
int sim_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int sim_pthread_setname_np(pthread_t h, const char *n) {
  sim::point();
  sim::Thread *t = sim::from(h);
  if (t->joined) sim::fail("a thread that has already been joined is named");
  if (strlen(n) > 15) return ERANGE;
  strcpy(t->name, n);
  return 0;
}
int sim_pthread_setschedparam(pthread_t h, int, const struct sched_param *) {
  sim::point();
  sim::from(h)->scheduled = true;
  return 0;
}
int sim_pthread_setschedprio(pthread_t h, int) { return sim_pthread_setschedparam(h, 0, 0); }
int sim_pthread_key_create(pthread_key_t *k, void (*destroy)(void *)) {
  sim::point();
  std::vector<sim::Key> &v = sim::the()->keys;
  size_t i = 0;
  while (i < v.size() && v[i].used) i++;
  if (i >= 1024) return EAGAIN;
  if (i == v.size()) v.push_back(sim::Key{0, false, 0});
  v[i].used = true;
  v[i].destroy = destroy;
  v[i].gen++;
  *k = (pthread_key_t)i;
  return 0;
}
int sim_pthread_key_delete(pthread_key_t k) {
  sim::point();
  std::vector<sim::Key> &v = sim::the()->keys;
  if (k >= v.size() || !v[k].used) return EINVAL;
  v[k].used = false;
  return 0;
}
int sim_pthread_setspecific(pthread_key_t k, const void *p) {
  sim::point();
  std::vector<sim::Key> &v = sim::the()->keys;
  if (k >= v.size() || !v[k].used) return EINVAL;
  sim::the()->cur->tls[k] = std::make_pair(v[k].gen, const_cast<void *>(p));
  return 0;
}
void *sim_pthread_getspecific(pthread_key_t k) {
  sim::point();
  std::vector<sim::Key> &v = sim::the()->keys;
  if (k >= v.size() || !v[k].used) return 0;
  std::map<sim::u64, std::pair<sim::u64, void *> > &m = sim::the()->cur->tls;
  return m.count(k) && m[k].first == v[k].gen ? m[k].second : 0;
}
int sim_sched_yield() {
  sim::point(true);
  return 0;
}
int sim_gettimeofday(struct timeval *tv, void *) {
  sim::point();
  const sim::u64 w = sim::wall();
  tv->tv_sec = (time_t)(w / 1000000000);
  tv->tv_usec = (suseconds_t)(w % 1000000000 / 1000);
  return 0;
}
time_t sim_time(time_t *p) {
  sim::point();
  const time_t t = (time_t)((sim::wall() - sim::the()->lag) / 1000000000);
  if (p) *p = t;
  return t;
}
int sim_clock_gettime(clockid_t k, struct timespec *ts) {
  sim::point();
  const bool mono = k == CLOCK_MONOTONIC || k == CLOCK_MONOTONIC_RAW || k == CLOCK_BOOTTIME || k == CLOCK_MONOTONIC_COARSE;
  sim::u64 w = mono ? sim::the()->now : sim::wall();
  if (k == CLOCK_REALTIME_COARSE || k == CLOCK_MONOTONIC_COARSE) w -= sim::the()->lag;
  ts->tv_sec = (time_t)(w / 1000000000);
  ts->tv_nsec = (long)(w % 1000000000);
  return 0;
}
int sim_clock_nanosleep(clockid_t k, int flags, const struct timespec *req, struct timespec *rem) {
  sim::point();
  sim::Sim &s = *sim::the();
  if (req->tv_nsec < 0 || req->tv_nsec >= 1000000000L || req->tv_sec < 0) return EINVAL;
  const bool mono = k == CLOCK_MONOTONIC;
  __int128 d = (__int128)req->tv_sec * 1000000000 + req->tv_nsec;
  if (flags & TIMER_ABSTIME) d -= mono ? (__int128)s.now : (__int128)s.epoch + s.now;
  if (d <= 0) return 0;
  if (d > (__int128)1 << 62) d = (__int128)1 << 62;
  if (s.interrupts && s.src->below(3) == 2) {
    // a signal arrives on the way
    const sim::u64 part = s.src->below((sim::u64)d);
    sim::sleep_until(s.now + part);
    if (rem && !(flags & TIMER_ABSTIME)) {
      const sim::u64 left = (sim::u64)d - part;
      rem->tv_sec = (time_t)(left / 1000000000);
      rem->tv_nsec = (long)(left % 1000000000);
    }
    return EINTR;
  }
  sim::sleep_until(s.now + (sim::u64)d);
  return 0;
}
int sim_nanosleep(const struct timespec *req, struct timespec *rem) {
  const int r = sim_clock_nanosleep(CLOCK_MONOTONIC, 0, req, rem);
  if (r) errno = r;
  return r ? -1 : 0;
}
int sim_usleep(useconds_t u) {
  struct timespec ts = {(time_t)(u / 1000000), (long)(u % 1000000 * 1000)};
  return sim_nanosleep(&ts, 0);
}
void *sim_malloc(size_t n) {
  if (!sim::the()) return malloc(n);
  sim::point();
  if (sim::the()->no_memory) return 0;
  void *p = malloc(n);
  memset(p, 0xbe, n);
  sim::the()->blocks[p] = n;
  return p;
}
void *sim_calloc(size_t a, size_t b) {
  void *p = sim_malloc(a * b);
  if (p) memset(p, 0, a * b);
  return p;
}
void sim_free(void *p) {
  if (!p) return;
  if (!sim::the()) return free(p);
  sim::point();
  if (!sim::the()->blocks.count(p)) sim::fail("a block that is not allocated is freed");
  const size_t n = sim::the()->blocks[p];
  sim::touch(p, n, true, false);  // nobody may still be using it
  memset(p, 0xdd, n);
  sim::the()->blocks.erase(p);
  sim::the()->freed[(sim::u64)p] = n;  // given back at the end of the case
}
void *sim_operator_new(size_t n) { return sim_malloc(n); }
void sim_operator_delete(void *p) { sim_free(p); }
void sim_operator_delete_sized(void *p, size_t) { sim_free(p); }
}
#endif  // SIMTHREAD_H_
