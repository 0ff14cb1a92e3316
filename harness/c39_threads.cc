// C39: threads, thread-local storage and timers, under the scheduler of simthread.h.
#define PBT_MAIN
#include "simthread.h"
#include NANO_THREADS_H

using pbt::Src;

enum { MAXW = 7 };
struct Plan {
  int parent, code, stack, pauses;
  bool exits, named, joined;
  int destroy_after;  // what the parent does in between: 0 nothing, 1 yields, 2 waits
  std::vector<int> children;
};
struct World;
struct Arg {
  World *w;
  int id;
};
struct World {
  std::vector<Plan> plan;
  Arg arg[MAXW];
  int ran[MAXW];
  bool over[MAXW];
  long in[MAXW], out[MAXW];
  char name[MAXW][32];
  std::map<thread_id_t, int> alive;
  int together;
  void check_id(int who) {
    const thread_id_t id = thread_current_thread_id();
    REQUIRE_MSG(alive.count(id) && alive[id] == who, "the id of thread %d changes, or is that of another", who);
  }
  void family(int who);
  void leave(int who) {
    sim::wrote(&out[who], sizeof(long));
    out[who] = who * 7 + 1;
    alive.erase(thread_current_thread_id());
    over[who] = true;
  }
};

static void deep(World *w, int who, int levels) {
  char pad[64];
  memset(pad, who, sizeof pad);
  if (levels) return deep(w, who, levels - 1);
  w->leave(who);
  thread_exit(w->plan[who].code);
}
static int proc(void *p) {
  Arg *a = (Arg *)p;
  World *w = a->w;
  const int who = a->id;
  w->ran[who]++;
  REQUIRE_MSG(w->ran[who] == 1, "a thread function runs twice");
  sim::reads(&w->in[who], sizeof(long));
  REQUIRE_MSG(w->in[who] == who * 3 + 5, "a thread does not see what its creator wrote before");
  const thread_id_t id = thread_current_thread_id();
  REQUIRE_MSG(!w->alive.count(id), "two threads have the same id");
  w->alive[id] = who;
  if ((int)w->alive.size() > w->together) w->together = (int)w->alive.size();
  for (int k = 0; k < w->plan[who].pauses; k++) {
    thread_yield();
    w->check_id(who);
  }
  w->family(who);
  w->check_id(who);
  if (w->plan[who].exits) deep(w, who, who);
  w->leave(who);
  return w->plan[who].code;
}
void World::family(int who) {
  std::vector<thread_ptr_t> h;
  const std::vector<int> c = plan[who].children;
  for (size_t i = 0; i < c.size(); i++) {
    const int k = c[i];
    sim::wrote(&in[k], sizeof(long));
    in[k] = k * 3 + 5;
    thread_ptr_t t = thread_create(proc, &arg[k], plan[k].named ? name[k] : 0, plan[k].stack);
    REQUIRE_MSG(t != 0, "a thread could not be created");
    for (size_t j = 0; j < h.size(); j++) REQUIRE_MSG(h[j] != t, "two threads that both exist have one handle");
    h.push_back(t);
  }
  for (size_t i = 0; i < c.size(); i++) {
    const int k = c[i];
    if (plan[k].joined) {
      const int r = thread_join(h[i]);
      REQUIRE_MSG(over[k], "joining returned before the thread was over");
      REQUIRE_MSG(r == plan[k].code, "joining returned %d, not %d", r, plan[k].code);
      sim::reads(&out[k], sizeof(long));
    }
    if (plan[k].destroy_after == 1) thread_yield();
    if (plan[k].destroy_after == 2) sim::sleep_until(sim::the()->now + 3000000);
    if (plan[k].destroy_after < 3) {
      thread_destroy(h[i]);
      REQUIRE_MSG(over[k], "a thread was destroyed while it was running");
      sim::reads(&out[k], sizeof(long));
    }
  }
  for (size_t i = 0; i < c.size(); i++)
    if (plan[c[i]].destroy_after == 3) thread_destroy(h[i]);
}
static bool sim_priorities_untouched(sim::Thread *self) {
  for (size_t i = 0; i < sim::the()->threads.size(); i++)
    if (sim::the()->threads[i] != self && sim::the()->threads[i]->scheduled) return false;
  return true;
}

static int any_code(Src &s) {
  static const int c[] = {0, 1, -1, 42, 255, 256, 2147483647, -2147483647 - 1, 65536};
  return s.below(3) ? c[s.below(9)] : (int)s.bits64();
}

PROPERTY(life, 500000, 6000000, "every thread runs its function once with its argument; joining waits for it and returns its code; destroying releases everything, whether it was joined or not") {
  World w;
  const int n = 1 + (int)s.below(MAXW - 1);
  w.together = 0;
  w.plan.resize(n + 1);
  for (int i = 0; i <= n; i++) {
    Plan &p = w.plan[i];
    p.parent = i ? (int)s.below(s.flip() ? i : 1) : -1;
    p.code = any_code(s);
    static const int stacks[] = {THREAD_STACK_SIZE_DEFAULT, 1, 16384, 65536, 1 << 20, 8 << 20, 12345, 100001};
    p.stack = stacks[s.below(8)];
    p.pauses = (int)s.below(4);
    p.exits = s.below(3) == 2;
    p.named = s.below(4) != 0;
    p.joined = s.below(4) != 0;
    p.destroy_after = (int)s.below(4);
    w.arg[i].w = &w;
    w.arg[i].id = i;
    w.ran[i] = 0;
    w.over[i] = false;
    w.in[i] = w.out[i] = 0;
    const int len = (int)s.below(16);
    for (int k = 0; k < len; k++) w.name[i][k] = (char)('a' + (i + k) % 26);
    w.name[i][len] = 0;
    if (i) w.plan[p.parent].children.push_back(i);
  }
  s.note("%d threads:", n);
  for (int i = 1; i <= n; i++) s.note(" %d of %d%s%s", i, w.plan[i].parent, w.plan[i].exits ? " exits" : "", w.plan[i].joined ? " joined" : "");
  s.note("\n");
  int unjoined = 0;
  std::vector<std::pair<std::string, size_t> > seen;
  sim::run(s, [&]() {
    w.alive[thread_current_thread_id()] = 0;
    w.family(0);
    w.check_id(0);
    for (size_t i = 0; i < sim::the()->threads.size(); i++) {
      sim::Thread *t = sim::the()->threads[i];
      if (!t->by_library) continue;
      unjoined += !t->joined && !t->detached;
      seen.push_back(std::make_pair(std::string(t->name), t->stacksize));
    }
    REQUIRE_MSG(sim::live_blocks() == 0, "%d blocks of memory are never released", (int)sim::live_blocks());
  });
  for (int i = 1; i <= n; i++) REQUIRE_MSG(w.ran[i] == 1 && w.over[i], "thread %d did not run", i);
  REQUIRE_MSG(unjoined == 0, "%d threads that have been destroyed are never released", unjoined);
  REQUIRE_MSG((int)seen.size() == n, "%d threads ran, not %d", (int)seen.size(), n);
  // each thread has its name and its stack size (threads are created in an order that depends on the schedule)
  for (int i = 1; i <= n; i++) {
    const Plan &p = w.plan[i];
    bool found = false;
    for (size_t k = 0; k < seen.size() && !found; k++)
      if (p.named ? seen[k].first == w.name[i] : seen[k].first.empty())
        if (p.stack <= 0 || (seen[k].second >= (size_t)p.stack && seen[k].second <= (size_t)p.stack + (64 << 10))) {
          seen.erase(seen.begin() + (long)k);
          found = true;
        }
    if (!p.named || !w.name[i][0]) continue;  // the nameless ones cannot be told apart
    REQUIRE_MSG(found, "no thread has the name '%s' and a stack of %d bytes", p.named ? w.name[i] : "", p.stack);
  }
  if (w.together > 2) s.nontrivial();
  s.label(w.together > 4 ? "five threads or more at once" : w.together > 2 ? "three or four threads at once" : "two threads at once at most");
}

static int quick_proc(void *p) {
  ++*(int *)p;
  return 3;
}
PROPERTY(no_threads, 60000, 800000, "when the system has no more threads, thread_create returns NULL, keeps nothing, and works again later") {
  std::vector<int> ran;
  const int n = 1 + (int)s.below(8);
  bool refused = false;
  sim::run(s, [&]() {
    for (int k = 0; k < n; k++) {
      const bool no = s.flip();
      int count = 0;
      sim::the()->no_threads = no;
      thread_ptr_t t = thread_create(quick_proc, &count, s.flip() ? "name" : 0, s.flip() ? 100000 : 0);
      sim::the()->no_threads = false;
      REQUIRE_MSG((t == 0) == no, no ? "a thread that could not be created has a handle" : "a thread could not be created");
      if (t) {
        REQUIRE(thread_join(t) == 3);
        REQUIRE(count == 1);
        thread_destroy(t);
      }
      refused |= no;
      REQUIRE_MSG(sim::live_blocks() == 0, "%d blocks of memory are never released", (int)sim::live_blocks());
    }
  });
  if (refused) s.nontrivial();
}

struct Urgent {
  bool asked;
  thread_atomic_int_t go;
};
static int urgent(void *p) {
  Urgent *u = (Urgent *)p;
  if (u->asked) {
    thread_set_high_priority();
    if (!sim_priorities_untouched(sim::the()->cur)) sim::fail("the priority of another thread was changed");
  }
  thread_atomic_int_inc(&u->go);
  return 0;
}
PROPERTY(priority, 10000, 200000, "thread_set_high_priority concerns the calling thread alone") {
  const int n = 1 + (int)s.below(5);
  std::vector<Urgent> u(n);
  sim::run(s, [&]() {
    std::vector<thread_ptr_t> h;
    for (int i = 0; i < n; i++) {
      u[i].asked = s.flip();
      thread_atomic_int_store(&u[i].go, 0);
    }
    // one at a time, so that whoever has changed something is known
    for (int i = 0; i < n; i++) {
      thread_ptr_t t = thread_create(urgent, &u[i], "urgent", THREAD_STACK_SIZE_DEFAULT);
      REQUIRE(t);
      while (!thread_atomic_int_load(&u[i].go)) thread_yield();
      thread_join(t);
      thread_destroy(t);
      for (size_t k = 0; k < sim::the()->threads.size(); k++) sim::the()->threads[k]->scheduled = false;
    }
  });
  s.nontrivial();
}

// ---- thread-local storage

struct TlsWorld {
  std::vector<thread_tls_t> key;  // 0: not created
  std::vector<int> incarnation;
  std::map<std::pair<int, std::pair<int, int> >, void *> model;  // thread, slot, incarnation
  Src *s;
  int sets, gets_other, recreated;
  thread_mutex_t m;
};
struct TlsArg {
  TlsWorld *w;
  int id, n;
};
static void tls_steps(TlsWorld *w, int who, int n) {
  for (int k = 0; k < n; k++) {
    thread_mutex_lock(&w->m);
    const int slot = (int)w->s->below(w->key.size());
    const unsigned what = (unsigned)w->s->below(10);
    thread_tls_t &key = w->key[slot];
    void *&v = w->model[std::make_pair(who, std::make_pair(slot, w->incarnation[slot]))];
    if (!key) {
      key = thread_tls_create();
      w->s->note("[%d] create %d\n", who, slot);
      REQUIRE_MSG(key != 0, "a storage index could not be created");
      for (size_t i = 0; i < w->key.size(); i++) REQUIRE_MSG((int)i == slot || w->key[i] != key, "two storage indices that both exist are the same");
      REQUIRE_MSG(!thread_tls_get(key), "a new storage index is not NULL");
    } else if (what < 4) {
      v = w->s->below(5) ? (void *)(w->s->bits64()) : (void *)0;
      thread_tls_set(key, v);
      w->sets++;
      w->s->note("[%d] set %d\n", who, slot);
    } else if (what == 9 && w->s->below(3) == 2) {
      thread_tls_destroy(key);
      key = 0;
      w->incarnation[slot]++;
      w->recreated++;
      w->s->note("[%d] destroy %d\n", who, slot);
    } else {
      void *p = thread_tls_get(key);
      w->s->note("[%d] get %d\n", who, slot);
      REQUIRE_MSG(p == v, "thread %d finds %p in its storage, not %p", who, p, v);
      for (std::map<std::pair<int, std::pair<int, int> >, void *>::iterator i = w->model.begin(); i != w->model.end(); ++i)
        if (i->first.first != who && i->first.second == std::make_pair(slot, w->incarnation[slot]) && i->second != v) w->gets_other = 1;
    }
    thread_mutex_unlock(&w->m);
  }
}
static int tls_proc(void *p) {
  TlsArg *a = (TlsArg *)p;
  tls_steps(a->w, a->id, a->n);
  return 0;
}
PROPERTY(tls, 300000, 3000000, "each thread has a value of its own for every storage index, NULL until it sets one; indices that exist are all different") {
  TlsWorld w;
  w.s = &s;
  w.sets = w.gets_other = w.recreated = 0;
  const int slots = 1 + (int)s.below(5), T = 1 + (int)s.below(5);
  w.key.assign(slots, (thread_tls_t)0);
  w.incarnation.assign(slots, 0);
  std::vector<TlsArg> a(T);
  sim::run(s, [&]() {
    thread_mutex_init(&w.m);
    std::vector<thread_ptr_t> h;
    for (int t = 0; t < T; t++) {
      a[t].w = &w;
      a[t].id = t + 1;
      a[t].n = (int)s.below(14);
      h.push_back(thread_create(tls_proc, &a[t], "tls", 0));
      REQUIRE(h.back());
    }
    tls_steps(&w, 0, (int)s.below(14));
    for (int t = 0; t < T; t++) {
      thread_join(h[t]);
      thread_destroy(h[t]);
    }
    for (int i = 0; i < slots; i++)
      if (w.key[i]) {
        void *p = thread_tls_get(w.key[i]), *v = w.model[std::make_pair(0, std::make_pair(i, w.incarnation[i]))];
        REQUIRE_MSG(p == v, "the first thread finds %p in its storage, not %p", p, v);
        thread_tls_destroy(w.key[i]);
      }
    thread_mutex_term(&w.m);
  });
  if (w.sets && w.gets_other) s.nontrivial();
  if (w.recreated) s.label("an index is created again");
}
PROPERTY(tls_many, 800, 20000, "storage indices can be created until the system has no more, then NULL is returned; all are independent") {
  std::vector<thread_tls_t> k;
  const int rounds = 1 + (int)s.below(3);
  sim::run(s, [&]() {
    sim::the()->limit = 1000000;
    for (int r = 0; r < rounds; r++) {
      for (;;) {
        thread_tls_t t = thread_tls_create();
        if (!t) break;
        REQUIRE_MSG(k.size() < 1024, "more indices than the system has");
        k.push_back(t);
      }
      REQUIRE_MSG(k.size() == 1024, "only %d of the system's 1024 storage indices could be created", (int)k.size());
      for (size_t i = 0; i < k.size(); i++) thread_tls_set(k[i], (void *)(i * 8 + 8));
      for (size_t i = 0; i < k.size(); i++) REQUIRE_MSG(thread_tls_get(k[i]) == (void *)(i * 8 + 8), "a storage index holds the value of another");
      std::vector<thread_tls_t> keep;
      for (size_t i = 0; i < k.size(); i++) {
        if (s.below(4) == 3) keep.push_back(k[i]);
        else thread_tls_destroy(k[i]);
      }
      k = keep;
      if (r + 1 == rounds)
        for (size_t i = 0; i < k.size(); i++) thread_tls_destroy(k[i]);
    }
    REQUIRE(thread_tls_create() != 0);
  });
  s.nontrivial();
}

// ---- timer

PROPERTY(timer, 400000, 8000000, "a timer waits for the time it was given, neither less nor noticeably more, however often signals interrupt it") {
  static const pbt::u64 pool[] = {0, 1, 999, 1000000, 999999999ull, 1000000000ull, 1000000001ull, 1999999999ull, 2147483647ull, 2147483648ull, 4294967295ull, 4294967296ull, 4294967297ull, 3600ull * 1000000000ull, 1ull << 53, (1ull << 53) + 1};
  const int T = 1 + (int)s.below(4);
  std::vector<std::vector<pbt::u64> > ns(T);
  for (int t = 0; t < T; t++) {
    const int n = 1 + (int)s.below(3);
    for (int k = 0; k < n; k++) ns[t].push_back(s.flip() ? pool[s.below(16)] : s.bits64() >> (8 + s.below(52)));
  }
  bool interrupted = false;
  sim::run(s, [&]() {
    sim::the()->free_clock = false;
    interrupted = sim::the()->interrupts;
    std::vector<sim::Thread *> th;
    for (int t = 0; t < T; t++)
      th.push_back(sim::start([&, t]() {
        thread_timer_t timer;
        thread_timer_init(&timer);
        for (size_t k = 0; k < ns[t].size(); k++) {
          const pbt::u64 t0 = sim::the()->now;
          thread_timer_wait(&timer, ns[t][k]);
          const pbt::u64 took = sim::the()->now - t0;
          REQUIRE_MSG(took >= ns[t][k], "a wait of %llu ns ended after %llu", (unsigned long long)ns[t][k], (unsigned long long)took);
          REQUIRE_MSG(took <= ns[t][k] + 1000000, "a wait of %llu ns ended only after %llu", (unsigned long long)ns[t][k], (unsigned long long)took);
        }
        thread_timer_term(&timer);
      }));
    for (int t = 0; t < T; t++) sim::wait_for(th[t]);
  });
  for (int t = 0; t < T; t++)
    for (size_t k = 0; k < ns[t].size(); k++) s.note("[%d] wait %llu ns\n", t, (unsigned long long)ns[t][k]);
  if (interrupted) s.nontrivial();
  s.label(interrupted ? "signals arrive" : "no signals");
}
