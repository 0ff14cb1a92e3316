// C39 with real threads: handles, codes, stack sizes, storage and timers as the system provides them; nanostl::thread.
#include <pthread.h>
#include <sys/time.h>
#include <unistd.h>
#define PBT_MAIN
#include "pbt.h"
#include NANO_THREADS_H
using std::nullptr_t;
#include NANO_THREAD_CLASS_H

using pbt::Src;
static bool real = pbt::once() = true;

struct Watch {
  Watch() { set(200); }
  ~Watch() { set(0); }
  static void set(int s) {
    struct itimerval it = {{0, 0}, {s, 0}};
    setitimer(ITIMER_REAL, &it, 0);
  }
};

struct Job {
  int id, code, stack;
  bool exits, deep;
  thread_atomic_int_t *go;  // waits for it, for two seconds at most
  bool impatient;
  thread_tls_t tls;
  void *initial, *found;
  thread_id_t own, again;
  size_t stacksize;
  int ran;
  char name[32];
  unsigned char touched;
};
static unsigned char use_stack(size_t n) {
  volatile unsigned char a[4096];
  a[0] = (unsigned char)n;
  a[4095] = 1;
  if (n > 4096 + 512) return (unsigned char)(use_stack(n - 4096 - 512) + a[0]);
  return a[4095];
}
static int job(void *p) {
  Job *j = (Job *)p;
  j->ran++;
  j->own = thread_current_thread_id();
  j->initial = thread_tls_get(j->tls);
  thread_tls_set(j->tls, (void *)(unsigned long)(j->id * 8 + 8));
  pthread_attr_t a;
  if (pthread_getattr_np(pthread_self(), &a) == 0) {
    pthread_attr_getstacksize(&a, &j->stacksize);
    pthread_attr_destroy(&a);
  }
  if (j->stack > 0) j->touched = use_stack((size_t)j->stack / 4 * 3);
  if (j->go) {
    struct timespec t0, t;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    while (!thread_atomic_int_load(j->go)) {
      usleep(200);
      clock_gettime(CLOCK_MONOTONIC, &t);
      if (t.tv_sec - t0.tv_sec >= 5) {
        j->impatient = true;
        break;
      }
    }
  }
  thread_yield();
  pthread_getname_np(pthread_self(), j->name, sizeof j->name);
  j->found = thread_tls_get(j->tls);
  j->again = thread_current_thread_id();
  if (j->exits) thread_exit(j->code);
  return j->code;
}

PROPERTY(threads, 1500, 20000, "real threads run once, are told apart, keep their own storage, have the stack and the name they were given and return their code; a handle that was joined no longer concerns any other thread") {
  Watch watch;
  const int n = 1 + (int)s.below(12);
  std::vector<Job> j(n);
  std::vector<thread_ptr_t> h(n, (thread_ptr_t)0);
  std::vector<std::string> name(n);
  thread_atomic_int_t go;
  thread_atomic_int_store(&go, 0);
  thread_tls_t tls = thread_tls_create();
  REQUIRE(tls);
  thread_tls_set(tls, (void *)4);
  const int joined_first = (int)s.below(n + 1);  // these end before the others start, so that the system may use their handles again
  const bool destroy_late = s.flip();
  for (int i = 0; i < n; i++) {
    memset((void *)&j[i], 0, sizeof j[i]);
    j[i].id = i;
    j[i].code = s.flip() ? (int)s.bits64() : (int)s.below(3) - 1;
    static const int stacks[] = {0, 0, 65536, 262144, 1 << 20, 16 << 20, 50001};
    j[i].stack = stacks[s.below(7)];
    j[i].exits = s.flip();
    j[i].tls = tls;
    j[i].go = i < joined_first ? 0 : &go;
    const int len = 1 + (int)s.below(15);
    for (int k = 0; k < len; k++) name[i] += (char)('a' + (i + k) % 26);
  }
  s.note("%d threads, %d of them joined before the rest starts\n", n, joined_first);
  for (int i = 0; i < n; i++) {
    if (i == joined_first)
      for (int k = 0; k < joined_first; k++) {
        const int r = thread_join(h[k]);
        REQUIRE_MSG(r == j[k].code, "thread %d returned %d, not %d", k, r, j[k].code);
        if (!destroy_late) thread_destroy(h[k]), h[k] = 0;
      }
    h[i] = thread_create(job, &j[i], name[i].c_str(), j[i].stack);
    REQUIRE_MSG(h[i] != 0, "a thread could not be created");
  }
  for (int k = 0; k < joined_first; k++)
    if (h[k] && joined_first < n) {
      thread_destroy(h[k]), h[k] = 0;  // must not wait for a thread that has got the same system handle
    }
  thread_atomic_int_store(&go, 1);
  std::map<thread_id_t, int> ids;
  for (int i = 0; i < n; i++) {
    if (h[i]) {
      const int r = thread_join(h[i]);
      REQUIRE_MSG(r == j[i].code, "thread %d returned %d, not %d", i, r, j[i].code);
      thread_destroy(h[i]);
    }
    REQUIRE_MSG(!j[i].impatient, "destroying a thread that was joined before waits for another thread");
    REQUIRE_MSG(j[i].ran == 1, "the function of thread %d ran %d times", i, j[i].ran);
    REQUIRE_MSG(!j[i].initial, "the storage of a new thread is not NULL");
    REQUIRE_MSG(j[i].found == (void *)(unsigned long)(i * 8 + 8), "thread %d finds the value of another in its storage", i);
    REQUIRE(j[i].own == j[i].again);
    if (j[i].stack) REQUIRE_MSG(j[i].stacksize + 4096 >= (size_t)j[i].stack, "asked for a stack of %d bytes, the thread has %lu", j[i].stack, (unsigned long)j[i].stacksize);
    if (j[i].go) {
      REQUIRE_MSG(ids[j[i].own]++ == 0, "two threads have the same id");
      REQUIRE_MSG(name[i] == j[i].name, "a thread that was named '%s' is called '%s'", name[i].c_str(), j[i].name);
    }
    REQUIRE_MSG(j[i].own != thread_current_thread_id(), "two threads have the same id");
  }
  REQUIRE_MSG(thread_tls_get(tls) == (void *)4, "the first thread finds the value of another in its storage");
  thread_tls_destroy(tls);
  if (n > 2) s.nontrivial();
}

static volatile int alarms;
static void on_alarm(int) { alarms++; }
PROPERTY(waits, 400, 3000, "a real timer waits at least as long as it was told, also while signals arrive") {
  const pbt::u64 ns = s.below(20000000);
  const bool noisy = s.flip();
  struct sigaction sa, old;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_alarm;
  sigaction(SIGALRM, &sa, &old);
  alarms = 0;
  const int us = 300 + (int)s.below(3000);
  struct itimerval it = {{0, us}, {0, us}}, off = {{0, 0}, {0, 0}};
  thread_timer_t timer;
  struct timespec a, b;
  thread_timer_init(&timer);
  if (noisy) setitimer(ITIMER_REAL, &it, 0);
  clock_gettime(CLOCK_MONOTONIC, &a);
  thread_timer_wait(&timer, ns);
  clock_gettime(CLOCK_MONOTONIC, &b);
  setitimer(ITIMER_REAL, &off, 0);
  sigaction(SIGALRM, &old, 0);
  thread_timer_term(&timer);
  const long long took = (b.tv_sec - a.tv_sec) * 1000000000ll + b.tv_nsec - a.tv_nsec;
  REQUIRE_MSG(took >= (long long)ns, "a wait of %llu ns ended after %lld", (unsigned long long)ns, took);
  if (noisy && alarms > 1) s.nontrivial();
}

PROPERTY(idle, 64, 1000, "a nanostl::thread without a thread is not joinable, can be joined and destroyed; hardware_concurrency is the number of processors") {
  nanostl::thread *t = new nanostl::thread();
  REQUIRE(!t->joinable());
  REQUIRE(t->native_handle() == 0);
  if (s.flip()) t->join();
  REQUIRE(!t->joinable());
  delete t;
  const long n = sysconf(_SC_NPROCESSORS_ONLN);
  REQUIRE_MSG(nanostl::thread::hardware_concurrency() == (unsigned)n, "hardware_concurrency is %u, there are %ld processors", nanostl::thread::hardware_concurrency(), n);
  s.nontrivial();
}
