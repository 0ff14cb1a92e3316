// C37: a mutex excludes; a signal is a flag whose every raise lets one wait proceed; timeouts are exact, up to the
// microsecond of the clock they are taken from.
#define PBT_MAIN
#include "simthread.h"
#include NANO_THREADS_H

using pbt::Src;

PROPERTY(exclusion, 250000, 4000000, "at most one thread is between lock and unlock of a mutex, it sees what the one before it wrote, and everyone gets the lock") {
  const int T = 2 + (int)s.below(4), M = 1 + (int)s.below(3);
  thread_mutex_t m[3];
  long data[3] = {0, 0, 0}, count[3] = {0, 0, 0}, want[3] = {0, 0, 0};
  int inside[3] = {0, 0, 0};
  bool contended = false;
  pbt::u64 hold[4] = {0, 0, 0, 0};  // the lock may be held for long
  if (s.below(4) == 3)
    for (int i = 0; i < 4; i++) hold[i] = s.flip() ? 0 : 1ull << s.below(44);
  std::vector<std::vector<unsigned> > prog(T);  // sets of mutexes, taken in increasing order
  for (int t = 0; t < T; t++) {
    const int n = 1 + (int)s.below(4);
    for (int k = 0; k < n; k++) {
      prog[t].push_back(1 + (unsigned)s.below((1u << M) - 1));
      for (int i = 0; i < M; i++) want[i] += prog[t].back() >> i & 1;
    }
  }
  sim::run(s, [&]() {
    for (int i = 0; i < M; i++) thread_mutex_init(&m[i]);
    std::vector<sim::Thread *> th;
    for (int t = 0; t < T; t++)
      th.push_back(sim::start([&, t]() {
        for (size_t k = 0; k < prog[t].size(); k++) {
          const unsigned set = prog[t][k];
          for (int i = 0; i < M; i++) {
            if (!(set >> i & 1)) continue;
            contended |= inside[i] != 0;
            thread_mutex_lock(&m[i]);
            REQUIRE_MSG(inside[i]++ == 0, "two threads hold mutex %d", i);
            sim::reads(&data[i], sizeof data[i]);
          }
          sim::point();
          if (k & 1) thread_yield();
          if (hold[(t + k) % 4]) sim::sleep_until(sim::the()->now + hold[(t + k) % 4]);
          for (int i = 0; i < M; i++)
            if (set >> i & 1) {
              const long c = count[i];
              sim::wrote(&data[i], sizeof data[i]);
              sim::point();
              count[i] = c + 1;
            }
          for (int i = M; i-- > 0;)
            if (set >> i & 1) {
              REQUIRE_MSG(--inside[i] == 0, "two threads hold mutex %d", i);
              thread_mutex_unlock(&m[i]);
            }
        }
      }));
    for (int t = 0; t < T; t++) sim::wait_for(th[t]);
    for (int i = 0; i < M; i++) {
      REQUIRE_MSG(count[i] == want[i], "mutex %d was held %ld times, not %ld", i, count[i], want[i]);
      thread_mutex_term(&m[i]);
    }
  });
  s.note("%d threads, %d mutexes\n", T, M);
  if (contended) s.nontrivial();
  s.label(contended ? "a thread waits for the lock" : "never contended");
}

// The lock is released for whoever comes next, even if that one ends the mutex's life at once.
PROPERTY(mutex_ends, 100000, 1500000, "a mutex may be terminated by a thread that has locked and unlocked it after all others") {
  thread_mutex_t m;
  const int T = 2 + (int)s.below(3);
  int left = T;
  sim::run(s, [&]() {
    thread_mutex_init(&m);
    for (int t = 0; t < T; t++)
      sim::start([&]() {
        thread_mutex_lock(&m);
        const bool last = --left == 0;
        thread_mutex_unlock(&m);
        if (last) thread_mutex_term(&m);
      });
  });
  REQUIRE(left == 0);
  s.nontrivial();
}

struct Ev {
  bool wait;
  int timeout, r, thread;
  pbt::u64 inv, res, t0, t1;
};
struct Flag {
  const std::vector<Ev> &h;
  std::set<std::pair<unsigned, int> > seen;
  explicit Flag(const std::vector<Ev> &hist) : h(hist) {}
  bool go(unsigned done, int flag) {
    if (done == (1u << h.size()) - 1) return true;
    if (!seen.insert(std::make_pair(done, flag)).second) return false;
    pbt::u64 first = ~0ull;
    for (size_t i = 0; i < h.size(); i++)
      if (!(done >> i & 1) && h[i].res < first) first = h[i].res;
    for (size_t i = 0; i < h.size(); i++) {
      if (done >> i & 1 || h[i].inv > first) continue;
      if (!h[i].wait) {
        if (go(done | 1u << i, 1)) return true;
      } else if ((h[i].r != 0) == (flag == 1)) {
        if (go(done | 1u << i, 0)) return true;
      }
    }
    return false;
  }
};

static int any_timeout(Src &s) {
  static const int t[] = {0, 1, 2, 10, 250, 999, 1000, 1001, 3700};
  const pbt::u64 k = s.below(14);
  return k < 9 ? t[k] : k < 12 ? THREAD_SIGNAL_WAIT_INFINITE : (int)s.below(5000);
}
static void show(Src &s, const Ev &e) {
  if (e.wait) s.note("[%d] wait %d ms = %d, from %llu to %llu us (%llu..%llu)\n", e.thread, e.timeout, e.r, (unsigned long long)e.t0 / 1000, (unsigned long long)e.t1 / 1000, (unsigned long long)e.inv, (unsigned long long)e.res);
  else s.note("[%d] raise (%llu..%llu)\n", e.thread, (unsigned long long)e.inv, (unsigned long long)e.res);
}

PROPERTY(flag, 500000, 6000000, "raises and waits of several threads behave like a flag: a wait succeeds exactly if it takes down a raised flag, no raise is lost, no timeout is early") {
  const int T = 2 + (int)s.below(3);
  thread_signal_t sig;
  struct Step {
    bool wait;
    int timeout, pause;
  };
  std::vector<std::vector<Step> > prog(T);
  for (int t = 0; t < T; t++) {
    const int role = (int)s.below(3);
    const int n = 1 + (int)s.below(T == 2 ? 4 : 3);
    for (int k = 0; k < n; k++) {
      Step st = {role == 0 ? false : role == 1 ? true : s.flip(), any_timeout(s), s.below(3) ? 0 : (int)s.below(1500)};
      prog[t].push_back(st);
    }
  }
  std::vector<Ev> hist;
  bool blocked = false, timeouts = false;
  int ended = 0;
  sim::run(s, [&]() {
    thread_signal_init(&sig);
    std::vector<sim::Thread *> th;
    for (int t = 0; t < T; t++)
      th.push_back(sim::start([&, t]() {
        for (size_t k = 0; k < prog[t].size(); k++) {
          const Step st = prog[t][k];
          if (st.pause) sim::sleep_until(sim::the()->now + (pbt::u64)st.pause * 1000000);
          Ev e = {st.wait, st.timeout, 0, t + 1, sim::event(), 0, sim::the()->now, 0};
          if (st.wait) e.r = thread_signal_wait(&sig, st.timeout);
          else thread_signal_raise(&sig);
          e.res = sim::event();
          e.t1 = sim::the()->now;
          hist.push_back(e);
        }
        ended++;
      }));
    // whoever still waits for ever is released, one raise at a time
    for (int k = 0; k < 20; k++) {
      sim::quiesce();
      if (ended == T) break;
      blocked = true;
      Ev e = {false, 0, 0, 0, sim::event(), 0, sim::the()->now, 0};
      thread_signal_raise(&sig);
      e.res = sim::event();
      e.t1 = sim::the()->now;
      hist.push_back(e);
    }
    for (int t = 0; t < T; t++) sim::wait_for(th[t]);
    thread_signal_term(&sig);
  });
  for (size_t i = 0; i < hist.size(); i++) {
    const Ev &e = hist[i];
    if (s.verbose) show(s, e);
    if (!e.wait) continue;
    timeouts |= e.r == 0;
    REQUIRE_MSG(e.r != 0 || e.timeout != THREAD_SIGNAL_WAIT_INFINITE, "a wait without a time limit timed out");
    REQUIRE_MSG(e.r != 0 || e.t1 - e.t0 + 1000 >= (pbt::u64)e.timeout * 1000000, "a wait of %d ms timed out after %llu us", e.timeout, (unsigned long long)(e.t1 - e.t0) / 1000);
  }
  if (hist.size() <= 20) {
    Flag f(hist);
    REQUIRE_MSG(f.go(0, 0), "no order of the raises and waits explains which of the waits succeeded");
  }
  if (blocked || timeouts) s.nontrivial();
  if (blocked) s.label("a thread is still waiting at the end");
  if (timeouts) s.label("a wait times out");
}

PROPERTY(deadline, 600000, 10000000, "a wait that nobody ends times out when its time has passed, neither before nor much later") {
  thread_signal_t sig;
  const int ms = s.below(3) == 2 ? (int)s.below(2000000) : any_timeout(s);
  const bool stale = s.flip();
  pbt::u64 t0 = 0, t1 = 0;
  int r = -1, first = -1;
  if (ms < 0) return;
  sim::run(s, [&]() {
    sim::the()->free_clock = false;
    thread_signal_init(&sig);
    if (stale) {
      thread_signal_raise(&sig);
      first = thread_signal_wait(&sig, ms);
    }
    t0 = sim::the()->now;
    r = thread_signal_wait(&sig, ms);
    t1 = sim::the()->now;
    thread_signal_term(&sig);
  });
  s.note("wait %d ms = %d after %llu us%s\n", ms, r, (unsigned long long)(t1 - t0) / 1000, stale ? ", an earlier raise having been waited for" : "");
  REQUIRE_MSG(!stale || first != 0, "a wait for a raised signal timed out");
  REQUIRE_MSG(r == 0, "a wait succeeded although nobody raised the signal");
  REQUIRE_MSG(t1 - t0 + 1000 >= (pbt::u64)ms * 1000000, "a wait of %d ms timed out after %llu us", ms, (unsigned long long)(t1 - t0) / 1000);
  REQUIRE_MSG(t1 - t0 <= (pbt::u64)ms * 1000000 + 20000000, "a wait of %d ms timed out only after %llu us", ms, (unsigned long long)(t1 - t0) / 1000);
  if (ms > 0) s.nontrivial();
}

PROPERTY(one_shot, 200000, 3000000, "a thread that has waited for a raise may end the signal's life and use what the raiser wrote") {
  thread_signal_t sig;
  long payload = 0;
  bool in_time = false;
  const int ms = any_timeout(s);
  sim::run(s, [&]() {
    thread_signal_init(&sig);
    sim::Thread *t = sim::start([&]() {
      sim::wrote(&payload, sizeof payload);
      payload = 42;
      thread_signal_raise(&sig);
    });
    in_time = thread_signal_wait(&sig, ms) != 0;
    if (!in_time) thread_signal_wait(&sig, THREAD_SIGNAL_WAIT_INFINITE);
    thread_signal_term(&sig);
    sim::reads(&payload, sizeof payload);
    REQUIRE_MSG(payload == 42, "the wait was over before the signal was raised");
    sim::wait_for(t);
  });
  s.nontrivial();
  s.label(in_time ? "raised in time" : "first wait timed out");
}

PROPERTY(ping_pong, 150000, 2000000, "threads that take turns with signals never miss one and never overtake each other") {
  const int T = 2 + (int)s.below(3), rounds = 1 + (int)s.below(5);
  thread_signal_t sig[4];
  int turn = 0;
  long total = 0;
  std::vector<int> ms;
  for (int t = 0; t < T; t++) ms.push_back(any_timeout(s));
  sim::run(s, [&]() {
    for (int t = 0; t < T; t++) thread_signal_init(&sig[t]);
    std::vector<sim::Thread *> th;
    for (int t = 0; t < T; t++)
      th.push_back(sim::start([&, t]() {
        for (int k = 0; k < rounds; k++) {
          for (int tries = 0; !thread_signal_wait(&sig[t], tries < 3 ? ms[t] : THREAD_SIGNAL_WAIT_INFINITE); tries++) {
          }
          REQUIRE_MSG(turn == t, "thread %d proceeds in the turn of thread %d", t, turn);
          sim::wrote(&total, sizeof total);
          total++;
          turn = (t + 1) % T;
          thread_signal_raise(&sig[turn]);
        }
      }));
    thread_signal_raise(&sig[0]);
    for (int t = 0; t < T; t++) sim::wait_for(th[t]);
    for (int t = 0; t < T; t++) thread_signal_term(&sig[t]);
  });
  REQUIRE(total == (long)T * rounds);
  s.nontrivial();
}
