// C08: unique_ptr.  Model: which slot owns which object, under which deleter.  A registry in static
// storage knows which objects are alive and which deleter call ended each of them.
#define PBT_MAIN
#include "nano_pre.h"
#include <type_traits>
#include "nanoutility.h"
#include "nanomemory.h"
using pbt::Src;

enum { MAXOBJ = 3000, MAXLOG = 64 };
static char g_state[MAXOBJ];  // 0 never made, 1 alive, 2 destroyed
static int g_next, g_nlog;
static struct { int tag, id; } g_log[MAXLOG];

struct Base {
  int id;
  Base() : id(g_next < MAXOBJ ? g_next++ : MAXOBJ - 1) { g_state[id] = 1; }
  virtual ~Base() {
    if (g_state[id] != 1) {
      fprintf(stderr, "SUMMARY: object destroyed twice\n");
      abort();
    }
    g_state[id] = 2;
  }
  int get() const { return id; }
};
struct Derived : Base {
  double more;
  Derived() : more(id + 0.5) {}
};
struct Pad {
  char pad[24];
  virtual ~Pad() {}
};
struct Behind : Pad, Base {};  // the base is not at the start of the object
struct Far : virtual Base, Pad {};
static void log_del(int tag, int id) {
  if (g_nlog < MAXLOG) g_log[g_nlog].tag = tag, g_log[g_nlog].id = id;
  g_nlog++;
}

// Deleters.
struct TagDel {
  int tag;
  TagDel() : tag(0) {}
  explicit TagDel(int t) : tag(t) {}
  void operator()(Base *p) const { log_del(tag, p->id), delete p; }
};
template <class Derived>
struct DerDel {  // converts to TagDel
  int tag;
  DerDel() : tag(0) {}
  explicit DerDel(int t) : tag(t) {}
  void operator()(Derived *p) const { log_del(tag, p->id), delete p; }
  operator TagDel() const { return TagDel(tag); }
};
struct ArrDel {
  int tag;
  ArrDel() : tag(0) {}
  explicit ArrDel(int t) : tag(t) {}
  void operator()(Base *p) const { log_del(tag, 0), delete[] p; }
};
struct MoveDel {  // move-only deleter
  nanostl::unique_ptr<int> tag;
  MoveDel() {}
  explicit MoveDel(int t) : tag(new int(t)) {}
  MoveDel(MoveDel &&o) : tag(nanostl::move(o.tag)) {}
  MoveDel &operator=(MoveDel &&o) {
    tag = nanostl::move(o.tag);
    return *this;
  }
  int value() const { return tag ? *tag : -1; }
  void operator()(Base *p) const { log_del(value(), p->id), delete p; }
};
static void fn1(Base *p) { log_del(1, p->id), delete p; }
static void fn2(Base *p) { log_del(2, p->id), delete p; }
static void fn3(Base *p) { log_del(3, p->id), delete p; }
typedef void (*Fn)(Base *);
static Fn fns[] = {0, fn1, fn2, fn3};

// Kinds of unique_ptr under test.  logs: the deleter reports to the log.
struct Single {
  typedef nanostl::unique_ptr<Base> U;
  enum { array = 0, logs = 0 };
  static U make(Base *p, int) { return U(p); }
  static int tag(const U &) { return 0; }
  static int fix(int) { return 0; }
  static int moved(int t) { return t; }
};
struct Tagged {
  typedef nanostl::unique_ptr<Base, TagDel> U;
  enum { array = 0, logs = 1 };
  static U make(Base *p, int t) { return U(p, TagDel(t)); }
  static int tag(const U &u) { return u.get_deleter().tag; }
  static int fix(int t) { return t; }
  static int moved(int t) { return t; }
};
struct MoveTagged {
  typedef nanostl::unique_ptr<Base, MoveDel> U;
  enum { array = 0, logs = 1 };
  static U make(Base *p, int t) { return U(p, MoveDel(t)); }
  static int tag(const U &u) { return u.get_deleter().value(); }
  static int fix(int t) { return t; }
  static int moved(int) { return -1; }
};
struct FnPtr {
  typedef nanostl::unique_ptr<Base, Fn> U;
  enum { array = 0, logs = 1 };
  static U make(Base *p, int t) { return U(p, fns[t]); }
  static int tag(const U &u) {
    for (int i = 1; i < 4; i++)
      if (u.get_deleter() == fns[i]) return i;
    return -5;
  }
  static int fix(int t) { return t; }
  static int moved(int t) { return t; }
};
struct Array {
  typedef nanostl::unique_ptr<Base[]> U;
  enum { array = 1, logs = 0 };
  static U make(Base *p, int) { return U(p); }
  static int tag(const U &) { return 0; }
  static int fix(int) { return 0; }
  static int moved(int t) { return t; }
};
struct TagArray {
  typedef nanostl::unique_ptr<Base[], ArrDel> U;
  enum { array = 1, logs = 1 };
  static U make(Base *p, int t) { return U(p, ArrDel(t)); }
  static int tag(const U &u) { return u.get_deleter().tag; }
  static int fix(int t) { return t; }
  static int moved(int t) { return t; }
};

template <class U>
static void elems(const U &u, Base *p, int n, pbt::i64, int (*)[1]) {  // single
  (void)n;
  REQUIRE(&*u == p && u.operator->() == p && u->get() == p->id);
}
template <class U>
static void elems(const U &u, Base *p, int n, pbt::i64, int (*)[2]) {  // array
  for (int i = 0; i < n; i++) REQUIRE(&u[(size_t)i] == p + i && u[(size_t)i].get() == p[i].id);
}

struct Owned {
  Base *p;
  int n, tag;
};

template <class K>
static void history(Src &s) {
  typedef typename K::U U;
  enum { POOL = 4 };
  memset(g_state, 0, sizeof g_state);
  g_next = 0;
  g_nlog = 0;
  pbt::LeakCheck leaks;
  size_t op = 0, moved = 0, deleted = 0;
  {
    alignas(U) unsigned char raw[POOL][sizeof(U)];
    U *u[POOL];
    Owned m[POOL];
    for (int k = 0; k < POOL; k++) {
      int t = K::fix(1 + (int)s.below(3));
      u[k] = new (raw[k]) U(K::make(0, t));
      m[k].p = 0, m[k].n = 0, m[k].tag = t;
    }
    while (s.more(22) && g_next < MAXOBJ - 40) {
      op++;
      int a = (int)s.below(POOL), b = (int)s.below(POOL), n = 1;
      const char *name = "";
      Owned gone[4];  // what this operation must delete, in order
      int ngone = 0;
      Base *fresh = 0;
      g_nlog = 0;
      switch (s.below(11)) {
        case 0:
        case 1: {
          name = "reset to a new object";
          n = K::array ? (int)s.below(6) : 1;
          fresh = K::array ? new Base[(size_t)n] : (Base *)(s.flip() ? new Derived : new Base);
          s.note("u%d.reset(new %d objects)\n", a, n);
          if (m[a].p) gone[ngone++] = m[a];
          u[a]->reset(fresh);
          m[a].p = fresh, m[a].n = n;
          break;
        }
        case 2:
          name = "reset to null";
          s.note("u%d.reset()\n", a);
          if (m[a].p) gone[ngone++] = m[a];
          if (s.flip()) u[a]->reset();
          else *u[a] = nullptr;
          m[a].p = 0;
          break;
        case 3:
        case 4: {
          name = "move assignment";
          s.note("u%d = move(u%d)\n", a, b);
          if (a == b) {
            if (K::moved(5) != 5) break;  // the deleter's own self-move decides
            U &r = (*u[a] = nanostl::move(*u[b]));
            REQUIRE(&r == u[a]);
            break;
          }
          if (m[a].p) gone[ngone++] = m[a];
          U &r = (*u[a] = nanostl::move(*u[b]));
          REQUIRE(&r == u[a]);
          if (m[b].p) moved++;
          m[a] = m[b];
          m[b].p = 0;
          m[b].tag = K::moved(m[b].tag);
          break;
        }
        case 5: {
          name = "move construction";
          s.note("U t(move(u%d)); destroy u%d; u%d = move(t)\n", a, a, a);
          int t = m[a].tag;
          U x(nanostl::move(*u[a]));
          REQUIRE(!*u[a] && u[a]->get() == 0);
          REQUIRE(x.get() == m[a].p);
          REQUIRE(K::tag(x) == t);
          u[a]->~U();
          REQUIRE_MSG(g_nlog == 0, "destroying a moved-from unique_ptr called the deleter");
          u[a] = new (raw[a]) U(nanostl::move(x));
          if (m[a].p) moved++;
          break;
        }
        case 6: {
          name = "swap";
          s.note("swap(u%d, u%d)\n", a, b);
          if (a == b && K::moved(5) != 5) break;
          if (s.flip()) u[a]->swap(*u[b]);
          else swap(*u[a], *u[b]);
          Owned t = m[a];
          m[a] = m[b];
          m[b] = t;
          if (a != b && (m[a].p || m[b].p)) moved++;
          break;
        }
        case 7: {
          name = "release";
          s.note("u%d.release()\n", a);
          Base *p = u[a]->release();
          REQUIRE(p == m[a].p);
          REQUIRE(u[a]->get() == 0 && !*u[a]);
          REQUIRE_MSG(g_nlog == 0, "release called the deleter");
          if (p) {
            for (int i = 0; i < m[a].n; i++) REQUIRE_MSG(g_state[p[i].id] == 1, "release destroyed the object");
            if (K::array) delete[] p;
            else delete p;
          }
          m[a].p = 0;
          break;
        }
        case 8: {
          name = "destruction";
          int t = K::fix(1 + (int)s.below(3));
          s.note("destroy u%d; new one with deleter %d\n", a, t);
          if (m[a].p) gone[ngone++] = m[a];
          u[a]->~U();
          n = K::array ? (int)s.below(6) : 1;
          Base *p = s.flip() ? 0 : K::array ? new Base[(size_t)n] : new Base;
          u[a] = new (raw[a]) U(K::make(p, t));
          m[a].p = p, m[a].n = n, m[a].tag = t;
          break;
        }
        case 9: {
          name = "temporary replaced";
          int t = K::fix(1 + (int)s.below(3));
          s.note("u%d = U(new object, deleter %d)\n", a, t);
          n = K::array ? 3 : 1;
          Base *p = K::array ? new Base[3] : new Base;
          if (m[a].p) gone[ngone++] = m[a];
          *u[a] = K::make(p, t);
          m[a].p = p, m[a].n = n, m[a].tag = t;
          break;
        }
        default: {
          name = "comparison";
          const U &x = *u[a], &y = *u[b];
          uintptr_t p = (uintptr_t)m[a].p, q = (uintptr_t)m[b].p;
          REQUIRE((x == y) == (p == q) && (x != y) == (p != q));
          REQUIRE((x < y) == (p < q) && (x > y) == (p > q) && (x <= y) == (p <= q) && (x >= y) == (p >= q));
          REQUIRE((x < nullptr) == false && (nullptr > x) == false && (x >= nullptr) == true && (nullptr <= x) == true);
          REQUIRE((nullptr < x) == !!p && (x > nullptr) == !!p && (x <= nullptr) == !p && (nullptr >= x) == !p);
          REQUIRE((x == nullptr) == !p && (nullptr == x) == !p && (x != nullptr) == !!p && (nullptr != x) == !!p);
        }
      }
      for (int i = 0; i < ngone; i++) deleted++;
      if (K::logs) {
        REQUIRE_MSG(g_nlog == ngone, "%s made %d deleter calls instead of %d (op %zu)", name, g_nlog, ngone, op);
        for (int i = 0; i < ngone; i++)
          REQUIRE_MSG(g_log[i].tag == gone[i].tag, "%s used deleter %d instead of %d (op %zu)", name, g_log[i].tag, gone[i].tag, op);
      }
      int alive = 0, owned = 0;
      for (int i = 0; i < g_next; i++) alive += g_state[i] == 1;
      for (int k = 0; k < POOL; k++) {
        REQUIRE_MSG(u[k]->get() == m[k].p, "slot %d holds the wrong object after %s (op %zu)", k, name, op);
        REQUIRE(!!*u[k] == (m[k].p != 0));
        REQUIRE_MSG(K::tag(*u[k]) == m[k].tag, "slot %d has deleter %d instead of %d after %s (op %zu)", k, K::tag(*u[k]), m[k].tag, name, op);
        if (!m[k].p) continue;
        for (int i = 0; i < m[k].n; i++) REQUIRE_MSG(g_state[m[k].p[i].id] == 1, "an owned object is gone after %s (op %zu)", name, op);
        owned += m[k].n;
        elems(*u[k], m[k].p, m[k].n, 0, (int(*)[1 + K::array]) 0);
      }
      REQUIRE_MSG(alive == owned, "%d objects alive, %d owned, after %s (op %zu)", alive, owned, name, op);
    }
    for (int k = 0; k < POOL; k++) u[k]->~U();
    int alive = 0;
    for (int i = 0; i < g_next; i++) alive += g_state[i] == 1;
    REQUIRE_MSG(alive == 0, "%d objects alive after their owners were destroyed", alive);
  }
  leaks.done();
  if (op >= 3 && moved && deleted) s.nontrivial();
}

PROPERTY(single, 300000, 7000000, "unique_ptr<T>: every object is owned by the slot the model says and deleted exactly once") { history<Single>(s); }
PROPERTY(tagged, 300000, 7000000, "unique_ptr with a stateful deleter: the deleter travels with the object and is used exactly once") { history<Tagged>(s); }
PROPERTY(move_only_deleter, 300000, 7000000, "unique_ptr with a move-only deleter") { history<MoveTagged>(s); }
PROPERTY(function_deleter, 200000, 7000000, "unique_ptr with a function pointer deleter") { history<FnPtr>(s); }
PROPERTY(array, 300000, 7000000, "unique_ptr<T[]>: all elements are destroyed exactly once") { history<Array>(s); }
PROPERTY(tagged_array, 200000, 7000000, "unique_ptr<T[]> with a stateful deleter") { history<TagArray>(s); }

// Conversions from derived to base, reference deleters, and re-entrant destruction.
template <class Derived>
static void converting(Src &s) {
  memset(g_state, 0, sizeof g_state);
  g_next = 0;
  pbt::LeakCheck leaks;
  bool nt = false;
  {
    nanostl::unique_ptr<Base, TagDel> b(s.flip() ? new Base : 0, TagDel(7));
    nanostl::unique_ptr<Derived, DerDel<Derived> > d(s.chance(3, 4) ? new Derived : 0, DerDel<Derived>(8));
    nanostl::unique_ptr<Base> pb(s.flip() ? new Base : 0);
    nanostl::unique_ptr<Derived> pd(s.chance(3, 4) ? new Derived : 0);
    Base *b0 = b.get(), *d0 = d.get();
    int b_id = b0 ? b0->id : -1, pb_id = pb ? pb->id : -1;
    Derived *pd0 = pd.get();
    uintptr_t x = (uintptr_t)static_cast<Base *>(d.get()), y = (uintptr_t)b.get();
    REQUIRE((b == d) == (x == y) && (b != d) == (x != y) && (b < d) == (y < x) && (d < b) == (x < y));
    g_nlog = 0;
    if (s.flip()) {
      s.note("base = move(derived)  // held %d, %d\n", b0 != 0, d0 != 0);
      b = nanostl::move(d);
      REQUIRE(g_nlog == (b0 ? 1 : 0));
      if (b0) REQUIRE_MSG(g_log[0].tag == 7, "the old object was deleted by deleter %d instead of its own", g_log[0].tag);
      if (b0) REQUIRE(g_state[b_id] == 2);
    } else {
      s.note("base(move(derived))  // held %d\n", d0 != 0);
      nanostl::unique_ptr<Base, TagDel> c(nanostl::move(d));
      REQUIRE(c.get() == d0 && c.get_deleter().tag == 8 && g_nlog == 0);
      if (c) REQUIRE(g_state[c->id] == 1);
      b = nanostl::move(c);
      REQUIRE(!c);
      REQUIRE(g_nlog == (b0 ? 1 : 0));
    }
    REQUIRE(b.get() == d0 && b.get_deleter().tag == 8 && d.get() == 0);
    if (b) REQUIRE(g_state[b->id] == 1);
    g_nlog = 0;
    b.reset();
    REQUIRE(g_nlog == (d0 ? 1 : 0));
    if (d0) REQUIRE(g_log[0].tag == 8);
    if (s.flip()) {
      pb = nanostl::move(pd);
      if (pb_id >= 0) REQUIRE(g_state[pb_id] == 2);
    } else {
      nanostl::unique_ptr<Base> c(nanostl::move(pd));
      swap(c, pb);
      REQUIRE((c ? c->id : -1) == pb_id);
    }
    REQUIRE(pb.get() == pd0 && !pd);
    // const element type
    nanostl::unique_ptr<const Base> cb(nanostl::move(pb));
    REQUIRE(cb.get() == pd0 && !pb);
    if (cb) REQUIRE(cb->get() == pd0->id && g_state[pd0->id] == 1);
    nt = b0 && d0;
  }
  for (int i = 0; i < g_next; i++) REQUIRE_MSG(g_state[i] == 2, "object %d is still alive", i);
  leaks.done();
  if (nt) s.nontrivial();
}
PROPERTY(converting, 300000, 7000000, "converting moves from unique_ptr<Derived> to unique_ptr<Base> transfer object and deleter") {
  switch (s.below(3)) {
    case 0: return converting<Derived>(s);
    case 1: return converting<Behind>(s);
    default: return converting<Far>(s);
  }
}

PROPERTY(reference_deleter, 200000, 7000000, "a reference deleter is the caller's object, shared by moves") {
  memset(g_state, 0, sizeof g_state);
  g_next = 0;
  pbt::LeakCheck leaks;
  bool two = false;
  {
    TagDel d(1 + (int)s.below(3));
    typedef nanostl::unique_ptr<Base, TagDel &> U;
    U u(s.chance(3, 4) ? new Base : 0, d);
    REQUIRE(&u.get_deleter() == &d);
    U v(nanostl::move(u));
    REQUIRE(&v.get_deleter() == &d && &u.get_deleter() == &d && !u);
    int id = v ? v->id : -1;
    d.tag = 4;
    g_nlog = 0;
    if (s.flip()) {
      U w(new Base, d);
      int w_id = w->id;
      w = nanostl::move(v);
      REQUIRE(g_nlog == 1 && g_log[0].tag == 4 && g_log[0].id == w_id);
      REQUIRE(!v && (w ? w->id : -1) == id);
      v = nanostl::move(w);
      g_nlog = 0;
      two = id >= 0;
      s.note("moved through a third pointer\n");
    }
    d.tag = 5;
    v.reset();
    REQUIRE(g_nlog == (id >= 0 ? 1 : 0));
    if (id >= 0) REQUIRE(g_log[0].tag == 5 && g_log[0].id == id && g_state[id] == 2);
  }
  for (int i = 0; i < g_next; i++) REQUIRE_MSG(g_state[i] == 2, "object %d is still alive", i);
  leaks.done();
  if (two) s.nontrivial();
}

// A list of nodes each owning the next; nodes may look at or reset their owner while destroyed.
struct Node {
  int id;
  nanostl::unique_ptr<Node> next;
  nanostl::unique_ptr<Node> *owner;  // inspected by the destructor
  Node *expect;
  int mode;
  Node(int i) : id(i), owner(0), expect(0), mode(0) { g_state[id] = 1; }
  ~Node() {
    if (g_state[id] != 1) {
      fprintf(stderr, "SUMMARY: node destroyed twice\n");
      abort();
    }
    g_state[id] = 2;
    if (owner && owner->get() != expect) g_nlog++;
    if (owner && mode == 1) owner->reset();
  }
};
PROPERTY(reentrant, 200000, 7000000, "reset stores the new pointer before the old object is destroyed; owned chains are destroyed once each") {
  memset(g_state, 0, sizeof g_state);
  g_next = 0;
  g_nlog = 0;
  pbt::LeakCheck leaks;
  int n = 1 + (int)s.size(60);
  {
    nanostl::unique_ptr<Node> head;
    for (int i = 0; i < n; i++) {  // push to the front
      nanostl::unique_ptr<Node> x(new Node(i));
      x->next = nanostl::move(head);
      head = nanostl::move(x);
      REQUIRE(!x && head->id == i && (i == 0 || head->next->id == i - 1));
    }
    // pop some: the classic "head = move(head->next)"
    int k = (int)s.below((pbt::u64)n);
    s.note("%d nodes, %d popped\n", n, k);
    for (int i = 0; i < k; i++) {
      head = nanostl::move(head->next);
      REQUIRE_MSG(g_state[n - 1 - i] == 2, "a popped node is still alive");
      REQUIRE(head && head->id == n - 2 - i && g_state[head->id] == 1);
    }
    if (s.flip()) {  // the destructor sees the new value
      nanostl::unique_ptr<Node> h(new Node(n));
      Node *fresh = s.flip() ? new Node(n + 1) : 0;
      h->owner = &h;
      h->expect = fresh;
      h->mode = (int)s.below(2);
      int mode = h->mode;
      s.note("owner inspected while its old object is destroyed, mode %d\n", mode);
      h.reset(fresh);
      REQUIRE_MSG(g_nlog == 0, "during reset the owner did not yet hold the new pointer");
      REQUIRE(h.get() == (mode == 1 ? 0 : fresh));
      REQUIRE(g_state[n] == 2);
      if (fresh) REQUIRE(g_state[n + 1] == (mode == 1 ? 2 : 1));
    }
  }
  for (int i = 0; i < n; i++) REQUIRE_MSG(g_state[i] == 2, "node %d is still alive", i);
  leaks.done();
  if (n > 3) s.nontrivial();
}

// Every way to make a unique_ptr, for single objects and arrays, with lvalue and rvalue deleters.
struct FinalDel final {  // empty, but no base class
  void operator()(Base *p) const { log_del(9, p->id), delete p; }
};
struct FinalArrDel final {
  void operator()(Base *p) { log_del(9, 0), delete[] p; }
};
struct CountDel {  // tells copies from moves
  int tag, copies, moves;
  explicit CountDel(int t) : tag(t), copies(0), moves(0) {}
  CountDel(const CountDel &o) : tag(o.tag), copies(o.copies + 1), moves(o.moves) {}
  CountDel(CountDel &&o) : tag(o.tag), copies(o.copies), moves(o.moves + 1) { o.tag = -1; }
  CountDel &operator=(const CountDel &o) { return tag = o.tag, *this; }
  CountDel &operator=(CountDel &&o) { return tag = o.tag, *this; }
  void operator()(Base *p) { log_del(tag, p->id), delete p; }
};
struct CountArrDel : CountDel {
  explicit CountArrDel(int t) : CountDel(t) {}
  void operator()(Base *p) { log_del(tag, 0), delete[] p; }
};
template <class U, class D>
static void built(Src &s, Base *p, int n, D d) {
  typedef typename U::pointer P;
  int ids[8];
  for (int i = 0; i < n; i++) ids[i] = p[i].id;
  int tag = d.tag, how = (int)s.below(5);
  g_nlog = 0;
  s.note("%d object(s), construction %d, deleter %d\n", p ? n : 0, how, tag);
  {
    const D &cd = d;
    U u = how == 0 ? U(P(p), d) : how == 1 ? U(P(p), cd) : how == 2 ? U(P(p), nanostl::move(d)) : how == 3 ? U(nullptr, d) : U(nullptr, D(tag));
    if (how < 2 || how == 3) REQUIRE_MSG(d.tag == tag, "an lvalue deleter was moved from");
    if (how == 2) REQUIRE_MSG(d.tag == -1, "an rvalue deleter was not moved from");
    REQUIRE(u.get_deleter().tag == tag);
    REQUIRE(u.get() == (how < 3 ? p : (Base *)0));
    if (how >= 3) u.reset(p);
    REQUIRE(u.get() == p && !!u == !!p);
    u.get_deleter().tag = tag + 1;  // the stored deleter is the one that is used
    REQUIRE(g_nlog == 0);
  }
  REQUIRE_MSG(g_nlog == (p ? 1 : 0), "%d deleter calls", g_nlog);
  if (p) REQUIRE(g_log[0].tag == tag + 1);
  if (p)
    for (int i = 0; i < n; i++) REQUIRE(g_state[ids[i]] == 2);
}
template <class U>
static void tagless(Src &s, Base *p, int n, bool array) {
  typedef typename U::pointer P;
  int id = p ? p->id : -1;
  g_nlog = 0;
  s.note("%d object(s) under an empty final deleter\n", n);
  {
    U e, z(nullptr), u((P(p)));
    REQUIRE(!e && !z && e == nullptr && z.get() == 0 && u.get() == p);
    e = nanostl::move(u);
    REQUIRE(!u && e.get() == p);
    z.swap(e);
    REQUIRE(!e && z.get() == p && g_nlog == 0);
    if (s.flip()) z = nullptr;
  }
  REQUIRE(g_nlog == (p ? 1 : 0));
  if (p) REQUIRE(g_log[0].tag == 9 && g_state[id] == 2);
  (void)array;
}
PROPERTY(constructors, 200000, 7000000, "each constructor takes the pointer and copies or moves the deleter; final and counting deleters, single and array") {
  memset(g_state, 0, sizeof g_state);
  g_next = 0;
  pbt::LeakCheck leaks;
  {
    int n = (int)s.below(7), tag = 1 + (int)s.below(100);
    bool null = s.chance(1, 5);
    switch (s.below(6)) {
      case 0: built<nanostl::unique_ptr<Base, CountDel> >(s, null ? 0 : new Base, null ? 0 : 1, CountDel(tag)); break;
      case 1: built<nanostl::unique_ptr<Base[], CountArrDel> >(s, null ? 0 : new Base[(size_t)n], null ? 0 : n, CountArrDel(tag)); break;
      case 2: tagless<nanostl::unique_ptr<Base, FinalDel> >(s, null ? 0 : new Base, 1, false); break;
      case 3: tagless<nanostl::unique_ptr<Base[], FinalArrDel> >(s, null ? 0 : new Base[(size_t)n + 1], 1, true); break;
      case 4: {  // a closure as deleter: no default constructor, no assignment
        int calls = 0, seen = -1;
        auto del = [&calls, &seen](Base *p) { calls++, seen = p->id, delete p; };
        Base *p = null ? 0 : new Base, *q = new Base;
        int id = p ? p->id : -1, qid = q->id;
        s.note("closure deleter\n");
        {
          nanostl::unique_ptr<Base, decltype(del)> u(p, del);
          REQUIRE(u.get() == p && calls == 0);
          nanostl::unique_ptr<Base, decltype(del)> v(nanostl::move(u));
          REQUIRE(!u && v.get() == p && calls == 0);
          v.reset(q);
          REQUIRE(calls == (p ? 1 : 0) && seen == id && v.get() == q);
          if (s.flip()) {
            REQUIRE(v.release() == q);
            delete q;
            calls++, seen = qid;
          }
        }
        REQUIRE(calls == (p ? 2 : 1) && seen == qid);
        break;
      }
      default: {  // array conversions add const; default_delete converts along
        Base *p = null ? 0 : new Base[(size_t)n + 1];
        int id = p ? p->id : -1;
        s.note("Base[] to const Base[], %d objects\n", p ? n + 1 : 0);
        nanostl::unique_ptr<Base[]> u(p);
        nanostl::unique_ptr<const Base[]> c(nanostl::move(u));
        REQUIRE(!u && c.get() == p);
        nanostl::unique_ptr<Base[]> w(new Base[2]);
        int wid = w[1].id;
        const Base *wp = w.get();
        c = nanostl::move(w);
        REQUIRE(!w && c.get() == wp && c[1].id == wid && g_state[wid] == 1);
        if (p) REQUIRE(g_state[id] == 2 && g_state[id + n] == 2);
        c.reset(nullptr);
        REQUIRE(g_state[wid] == 2 && !c);
        c.reset();
      }
    }
    if (!null) s.nontrivial();
  }
  for (int i = 0; i < g_next; i++) REQUIRE_MSG(g_state[i] == 2, "object %d is still alive", i);
  leaks.done();
}

// A deleter may bring a pointer type of its own, such as a handle whose null value is not zero.
static int g_open[64];
struct Handle {
  int h;
  Handle() : h(-1) {}
  Handle(decltype(nullptr)) : h(-1) {}
  explicit Handle(int x) : h(x) {}
  explicit operator bool() const { return h >= 0; }
  friend bool operator==(Handle a, Handle b) { return a.h == b.h; }
  friend bool operator!=(Handle a, Handle b) { return a.h != b.h; }
};
struct Close {
  typedef Handle pointer;
  int *calls;
  explicit Close(int *c) : calls(c) {}
  void operator()(Handle h) const {
    REQUIRE_MSG(h.h >= 0 && h.h < 64 && g_open[h.h] == 1, "handle %d closed but not open", h.h);
    g_open[h.h] = 0;
    ++*calls;
  }
};
PROPERTY(handles, 200000, 7000000, "a deleter's own pointer type: handles are closed exactly once, the null handle never") {
  memset(g_open, 0, sizeof g_open);
  int calls = 0, opened = 0;
  bool moved = false;
  {
    typedef nanostl::unique_ptr<int, Close> U;
    U u[3] = {U(Handle(), Close(&calls)), U(nullptr, Close(&calls)), U(Handle(-1), Close(&calls))};
    int m[3] = {-1, -1, -1};
    int want = 0;
    while (s.more(10)) {
      int a = (int)s.below(3), b = (int)s.below(3);
      int f = 0;  // a free handle, zero among them
      while (g_open[f]) f++;
      switch (s.below(6)) {
        case 0:
        case 1:
          s.note("u%d.reset(handle %d)\n", a, f);
          g_open[f] = 1, opened++;
          want += m[a] >= 0;
          u[a].reset(Handle(f));
          m[a] = f;
          break;
        case 2:
          s.note("u%d = move(u%d)\n", a, b);
          if (a == b) break;
          want += m[a] >= 0;
          u[a] = nanostl::move(u[b]);
          moved = moved || m[b] >= 0;
          m[a] = m[b], m[b] = -1;
          break;
        case 3: {
          s.note("swap(u%d, u%d)\n", a, b);
          u[a].swap(u[b]);
          int t = m[a];
          m[a] = m[b], m[b] = t;
          break;
        }
        case 4: {
          s.note("u%d.release()\n", a);
          Handle h = u[a].release();
          REQUIRE(h.h == m[a]);
          if (h) g_open[h.h] = 0;
          m[a] = -1;
          break;
        }
        default:
          s.note("u%d = nullptr\n", a);
          want += m[a] >= 0;
          u[a] = nullptr;
          m[a] = -1;
      }
      REQUIRE_MSG(calls == want, "%d handles closed instead of %d", calls, want);
      for (int k = 0; k < 3; k++) REQUIRE_MSG(u[k].get().h == m[k] && bool(u[k]) == (m[k] >= 0) && (u[k] == nullptr) == (m[k] < 0), "u%d holds handle %d instead of %d", k, u[k].get().h, m[k]);
    }
  }
  for (int i = 0; i < 64; i++) REQUIRE_MSG(!g_open[i], "handle %d is still open", i);
  if (opened > 1 && moved) s.nontrivial();
}
PROPERTY(two_deleters, 100000, 3000000, "assignment and swap of pointers with reference deleters assign and exchange the deleters referred to") {
  memset(g_state, 0, sizeof g_state);
  g_next = 0;
  {
    TagDel d(1 + (int)s.below(9)), e(11 + (int)s.below(9));
    int dt = d.tag, et = e.tag;
    typedef nanostl::unique_ptr<Base, TagDel &> U;
    U u(s.chance(3, 4) ? new Base : 0, d), v(s.chance(3, 4) ? new Base : 0, e);
    Base *p = u.get(), *q = v.get();
    int pid = p ? p->id : -1;
    g_nlog = 0;
    bool sw = s.flip();
    s.note("%s\n", sw ? "swap" : "move assignment");
    if (sw) {
      if (s.flip()) u.swap(v);
      else swap(u, v);
      REQUIRE(u.get() == q && v.get() == p && g_nlog == 0);
      REQUIRE_MSG(d.tag == et && e.tag == dt, "the deleters were not exchanged");
    } else {
      u = nanostl::move(v);
      REQUIRE(u.get() == q && !v);
      REQUIRE(g_nlog == (p ? 1 : 0));
      if (p) REQUIRE_MSG(g_log[0].tag == dt && g_log[0].id == pid, "the old object was deleted by deleter %d", g_log[0].tag);
      REQUIRE_MSG(d.tag == et && e.tag == et, "the deleter was not assigned");
    }
    REQUIRE(&u.get_deleter() == &d && &v.get_deleter() == &e);
    if (p && q) s.nontrivial();
  }
  for (int i = 0; i < g_next; i++) REQUIRE_MSG(g_state[i] == 2, "object %d is still alive", i);
}
// Arrays whose deleters have a state: it goes along where an array of objects becomes one of const objects.
struct ConstArrDel {
  int tag;
  ConstArrDel() : tag(0) {}
  explicit ConstArrDel(int t) : tag(t) {}
  ConstArrDel(const ArrDel &d) : tag(d.tag + 1000) {}
  void operator()(const Base *p) const { log_del(tag, 0), delete[] p; }
};
static void fnarr1(Base *p) { log_del(1, 0), delete[] p; }
static void fnarr2(Base *p) { log_del(2, 0), delete[] p; }
PROPERTY(array_deleters, 200000, 6000000, "conversion, assignment and swap of arrays with stateful, reference and function deleters") {
  memset(g_state, 0, sizeof g_state);
  g_next = 0;
  {
    const int t1 = 1 + (int)s.below(9), t2 = 11 + (int)s.below(9);
    const int n1 = 1 + (int)s.below(4), n2 = 1 + (int)s.below(4);
    Base *const p = s.chance(4, 5) ? new Base[(size_t)n1] : 0, *const q = s.chance(4, 5) ? new Base[(size_t)n2] : 0;
    const int pid = p ? p->id : -1, qid = q ? q->id : -1;
    g_nlog = 0;
    const int kind = (int)s.below(5);
    s.note("kind %d, %d and %d objects\n", kind, p ? n1 : 0, q ? n2 : 0);
    if (kind < 2) {
      nanostl::unique_ptr<Base[], ArrDel> u(p, ArrDel(t1));
      if (kind == 0) {
        nanostl::unique_ptr<const Base[], ConstArrDel> c(nanostl::move(u));
        REQUIRE(c.get() == p && !u && g_nlog == 0);
        REQUIRE_MSG(c.get_deleter().tag == t1 + 1000, "the deleter is %d instead of the converted one", c.get_deleter().tag);
        if (p) REQUIRE(c[(size_t)n1 - 1].id == pid + n1 - 1);
        c.reset();
        REQUIRE(g_nlog == (p ? 1 : 0) && (!p || g_log[0].tag == t1 + 1000));
        delete[] q;
      } else {
        nanostl::unique_ptr<const Base[], ConstArrDel> c(q, ConstArrDel(t2));
        c = nanostl::move(u);
        REQUIRE(c.get() == p && !u);
        REQUIRE_MSG(g_nlog == (q ? 1 : 0) && (!q || g_log[0].tag == t2), "the old array was not deleted, once, by its own deleter");
        if (q) REQUIRE(g_state[qid] == 2 && g_state[qid + n2 - 1] == 2);
        if (p) REQUIRE(g_state[pid] == 1 && g_state[pid + n1 - 1] == 1);
        REQUIRE_MSG(c.get_deleter().tag == t1 + 1000, "the deleter is %d instead of the converted one", c.get_deleter().tag);
      }
    } else if (kind < 4) {
      ArrDel d(t1), e(t2);
      typedef nanostl::unique_ptr<Base[], ArrDel &> U;
      U u(p, d), v(q, e);
      if (kind == 2) {
        u = nanostl::move(v);
        REQUIRE(u.get() == q && !v && g_nlog == (p ? 1 : 0) && d.tag == t2 && e.tag == t2);
        if (p) REQUIRE(g_log[0].tag == t1);
      } else {
        u.swap(v);
        REQUIRE(u.get() == q && v.get() == p && g_nlog == 0 && d.tag == t2 && e.tag == t1);
      }
      REQUIRE(&u.get_deleter() == &d && &v.get_deleter() == &e);
      U w(nanostl::move(u));
      REQUIRE(w.get() == q && !u && &w.get_deleter() == &d);
    } else {
      typedef nanostl::unique_ptr<Base[], void (*)(Base *)> U;
      U u(p, fnarr1), v(q, fnarr2);
      u.swap(v);
      REQUIRE(u.get() == q && v.get() == p && u.get_deleter() == fnarr2 && v.get_deleter() == fnarr1);
      u = nanostl::move(v);
      REQUIRE(u.get() == p && !v && u.get_deleter() == fnarr1 && g_nlog == (q ? 1 : 0));
      if (q) REQUIRE(g_log[0].tag == 2);
      u = nullptr;
      REQUIRE(!u && g_nlog == (q ? 1 : 0) + (p ? 1 : 0));
    }
    if (p && q) s.nontrivial();
  }
  for (int i = 0; i < g_next; i++) REQUIRE_MSG(g_state[i] == 2, "object %d is still alive", i);
}
struct AnyDel {
  template <class T>
  void operator()(T *p) const { delete[] p; }
};
// What may be built from, assigned from and compared with what.
SWEEP(conversions, 0, 1, 1, 1, "which unique_ptrs convert to which") {
  typedef nanostl::unique_ptr<Base> B;
  typedef nanostl::unique_ptr<Derived> D;
  typedef nanostl::unique_ptr<Base[]> A;
  typedef nanostl::unique_ptr<const Base[]> CA;
  typedef nanostl::unique_ptr<Derived[]> DA;
#define YES(...) REQUIRE_MSG((__VA_ARGS__::value), "%s is false", #__VA_ARGS__)
#define NO(...) REQUIRE_MSG(!(__VA_ARGS__::value), "%s is true", #__VA_ARGS__)
  YES(std::is_convertible<D &&, B>);
  YES(std::is_assignable<B &, D &&>);
  NO(std::is_constructible<D, B &&>);
  NO(std::is_assignable<D &, B &&>);
  NO(std::is_copy_constructible<B>);
  NO(std::is_copy_assignable<B>);
  NO(std::is_copy_constructible<A>);
  NO(std::is_copy_assignable<A>);
  YES(std::is_convertible<A &&, CA>);
  YES(std::is_assignable<CA &, A &&>);
  NO(std::is_constructible<A, CA &&>);
  NO(std::is_assignable<A &, CA &&>);
  NO(std::is_constructible<A, DA &&>);
  NO(std::is_assignable<A &, DA &&>);
  NO(std::is_constructible<nanostl::unique_ptr<Base[], AnyDel>, nanostl::unique_ptr<Derived[], AnyDel> &&>);
  NO(std::is_assignable<nanostl::unique_ptr<Base[], AnyDel> &, nanostl::unique_ptr<Derived[], AnyDel> &&>);
  YES(std::is_assignable<nanostl::unique_ptr<const Base[], AnyDel> &, nanostl::unique_ptr<Base[], AnyDel> &&>);
  NO(std::is_constructible<nanostl::default_delete<Base[]>, nanostl::default_delete<Derived[]> >);
  YES(std::is_convertible<nanostl::default_delete<Base[]>, nanostl::default_delete<const Base[]> >);
  YES(std::is_convertible<nanostl::default_delete<Derived>, nanostl::default_delete<Base> >);
  NO(std::is_constructible<nanostl::default_delete<Derived>, nanostl::default_delete<Base> >);
  NO(std::is_constructible<B, A &&>);
  NO(std::is_assignable<B &, A &&>);
  NO(std::is_constructible<A, B &&>);
  NO(std::is_constructible<A, Derived *>);
  YES(std::is_constructible<A, Base *>);
  YES(std::is_constructible<CA, Base *>);
  NO(std::is_convertible<Base *, B>);
  NO(std::is_convertible<Base *, A>);
  YES(std::is_constructible<B, Base *>);
  YES(std::is_constructible<B, Derived *>);
  NO(std::is_constructible<D, Base *>);
  YES(std::is_convertible<decltype(nullptr), B>);
  YES(std::is_convertible<decltype(nullptr), A>);
  NO(std::is_default_constructible<nanostl::unique_ptr<Base, Fn> >);
  NO(std::is_default_constructible<nanostl::unique_ptr<Base[], ArrDel &> >);
  NO(std::is_constructible<nanostl::unique_ptr<Base, const TagDel &>, Base *, TagDel>);  // not bound to a temporary
  NO(std::is_constructible<nanostl::unique_ptr<Base[], const ArrDel &>, Base *, ArrDel>);
  YES(std::is_constructible<nanostl::unique_ptr<Base, const TagDel &>, Base *, TagDel &>);
  NO(std::is_constructible<nanostl::unique_ptr<Base, TagDel &>, Base *, const TagDel &>);
  YES(std::is_constructible<nanostl::unique_ptr<Base, TagDel>, nanostl::unique_ptr<Derived, DerDel<Derived> > &&>);
  NO(std::is_constructible<nanostl::unique_ptr<Base, TagDel>, B &&>);       // the deleters are unrelated
  NO(std::is_constructible<nanostl::unique_ptr<Base, TagDel &>, nanostl::unique_ptr<Base, TagDel> &&>);
  NO(std::is_constructible<nanostl::unique_ptr<Base[], ArrDel &>, nanostl::unique_ptr<Base[], ArrDel> &&>);
  YES(std::is_constructible<nanostl::unique_ptr<Base[], ArrDel>, nanostl::unique_ptr<Base[], ArrDel &> &&>);
  NO(std::is_convertible<B, bool>);
  YES(std::is_constructible<bool, B>);
  NO(std::is_assignable<decltype(*nanostl::unique_ptr<const Base>()), Base>);
#undef YES
#undef NO
  return true;
}
