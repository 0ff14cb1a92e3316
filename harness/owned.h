// Payload types for the wrapper checks (optional, variant, any, expected, tuple).
#ifndef OWNED_H_
#define OWNED_H_
#include "nano_pre.h"
#include "nanoutility.h"
namespace pbt {

// Owns a heap block, copies deeply, moves by stealing.  A moved-from value is alive, its content
// is "moved" and only destruction and assignment are expected of it.
struct Own {
  static long live;
  unsigned magic;
  i64 *v;
  Own() : magic(0x0B5E55u), v(new i64(0)) { live++; }
  Own(i64 x) noexcept : magic(0x0B5E55u), v(new i64(x)) { live++; }
  Own(int x, int y) noexcept : magic(0x0B5E55u), v(new i64((i64)x * 1000 + y)) { live++; }
  Own(const Own &o) : magic(0x0B5E55u), v(0) {
    o.check("copy of");
    if (o.v) v = new i64(*o.v);
    live++;
  }
  Own(Own &&o) noexcept : magic(0x0B5E55u), v(0) {
    o.check("move from");
    v = o.v;
    o.v = 0;
    live++;
  }
  Own &operator=(const Own &o) {
    check("assignment to");
    o.check("assignment from");
    i64 *n = o.v ? new i64(*o.v) : 0;
    delete v;
    v = n;
    return *this;
  }
  Own &operator=(Own &&o) noexcept {
    check("assignment to");
    o.check("assignment from");
    i64 *n = o.v;
    o.v = 0;
    delete v;
    v = n;
    return *this;
  }
  ~Own() {
    check("destruction of");
    magic = 0xDEAD;
    delete v;
    live--;
  }
  void check(const char *what) const {
    if (magic != 0x0B5E55u) {
      fprintf(stderr, "SUMMARY: %s a value that is not alive\n", what);
      abort();
    }
  }
  i64 get() const {
    check("read of");
    return v ? *v : -0x4D4F564544ll;
  }
  bool operator==(const Own &o) const { return get() == o.get(); }
  bool operator!=(const Own &o) const { return get() != o.get(); }
  bool operator<(const Own &o) const { return get() < o.get(); }
  bool operator>(const Own &o) const { return get() > o.get(); }
  bool operator<=(const Own &o) const { return get() <= o.get(); }
  bool operator>=(const Own &o) const { return get() >= o.get(); }
};
long Own::live = 0;

// A second owning type, so that mixing types up is seen.
struct Own2 : Own {
  Own2() {}
  explicit Own2(i64 x) noexcept : Own(x) {}
};

// Over-aligned and large.
struct alignas(32) Wide {
  i64 v, pad[5];
  Wide() noexcept : v(0) {}
  Wide(i64 x) noexcept : v(x) {}
  Wide(int x, int y) noexcept : v((i64)x * 1000 + y) {}
  i64 get() const { return v; }
  bool operator==(const Wide &o) const { return v == o.v; }
  bool operator!=(const Wide &o) const { return v != o.v; }
  bool operator<(const Wide &o) const { return v < o.v; }
  bool operator>(const Wide &o) const { return v > o.v; }
  bool operator<=(const Wide &o) const { return v <= o.v; }
  bool operator>=(const Wide &o) const { return v >= o.v; }
};

inline i64 val(int x) { return x; }
inline i64 val(signed char x) { return x; }
inline i64 val(double x) { return (i64)x; }
inline i64 val(long long x) { return x; }
inline i64 val(const Own &x) { return x.get(); }
inline i64 val(const Wide &x) { return x.get(); }
inline void set(int &x, i64 v) { x = (int)v; }
inline void set(Own &x, i64 v) { x = Own(v); }
inline void set(Wide &x, i64 v) { x = Wide(v); }
// What a moved-from value reads as: known for types whose move is a copy, unknown for owners.
template <class T>
struct Keeps {
  enum { value = 1 };
};
template <>
struct Keeps<Own> {
  enum { value = 0 };
};
template <>
struct Keeps<Own2> {
  enum { value = 0 };
};

// Records how it was constructed: which overload its first argument chose, what the arguments were,
// and how often it was copied and moved since.
struct Arg {
  i64 v;
  explicit Arg(i64 x) : v(x) {}
  Arg(const Arg &o) : v(o.v) {}
  Arg(Arg &&o) : v(o.v) { o.v = -777; }
};
struct Rec : Own {
  int kind;  // 1 lvalue, 2 const lvalue, 3 rvalue, 4 initializer list
  int *where;
  const int *cwhere;
  Rec(Arg &x, int &w, const int &c) : Own(Arg(x).v), kind(1), where(&w), cwhere(&c) {}
  Rec(const Arg &x, int &w, const int &c) : Own(Arg(x).v), kind(2), where(&w), cwhere(&c) {}
  Rec(Arg &&x, int &w, const int &c) : Own(Arg(static_cast<Arg &&>(x)).v), kind(3), where(&w), cwhere(&c) {}
  template <class L>
  Rec(L il, Arg &&x, int &w, const int &c) : Own(Arg(static_cast<Arg &&>(x)).v + (i64)il.size()), kind(4), where(&w), cwhere(&c) {}
};
// What a wrapper holds after it was given arguments of category how.
inline void check_rec(const Rec &r, i64 x, int how, int *w, const int *c, const Arg &a) {
  static const char *const cat[] = {"", "an lvalue", "a const lvalue", "an rvalue", "an rvalue"};
  REQUIRE_MSG(r.kind == how, "constructed as from %s instead of %s", cat[r.kind], cat[how]);
  REQUIRE_MSG(r.get() == x, "constructed with %lld instead of %lld", (long long)r.get(), (long long)x);
  REQUIRE_MSG(r.where == w && r.cwhere == c, "a reference argument was not passed on");
  REQUIRE_MSG(a.v == (how < 3 ? x : -777), how < 3 ? "an lvalue argument was moved from" : "an rvalue argument was not moved from");
}

struct OwnCheck : LeakCheck {
  long o0;
  OwnCheck() : o0(Own::live) {}
  void done() {
    REQUIRE_MSG(Own::live == o0, "%ld values more than before are still alive", Own::live - o0);
    LeakCheck::done();
  }
};
}  // namespace pbt
#endif
