// What every harness needs before the nanostl headers: the system headers (which must win over
// /repo/include/errno.h and /repo/include/typeinfo), and the compiler's own nullptr_t, as in the
// repository's test build (-DNANOSTL__NULLPTR -include stddef.h).
#ifndef NANO_PRE_H_
#define NANO_PRE_H_
#include <assert.h>
#include <cstddef>
#include <cstdint>
#include <typeinfo>
#include "pbt.h"
using std::nullptr_t;
#ifndef NANOSTL__NULLPTR
#define NANOSTL__NULLPTR
#endif

// Heap blocks alive (any malloc/new), counted by sanitizer hooks.
#if defined(__SANITIZE_ADDRESS__)
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
namespace pbt {
static volatile long g_blocks = 0, g_made = 0;
inline void on_malloc(const volatile void *p, size_t) {
  if (p && !pause_count()) g_blocks = g_blocks + 1, g_made = g_made + 1;
}
inline void on_free(const volatile void *p) {
  if (p && !pause_count()) g_blocks = g_blocks - 1;
}
struct HookInit {
  HookInit() { __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); }
};
static HookInit hook_init;
inline long live_blocks() { return g_blocks; }
inline long made_blocks() { return g_made; }  // ever
}  // namespace pbt
#else
namespace pbt {
inline long live_blocks() { return 0; }
inline long made_blocks() { return 0; }
}
#endif

namespace pbt {
// An element type that owns heap memory and knows whether it is alive.
struct Tracked {
  static long live;
  static unsigned long long copies;  // copy constructions and assignments
  unsigned magic;
  i64 *v;
  Tracked() : magic(0xA11CE5u), v(new i64(0)) { live++; }
  explicit Tracked(i64 x) : magic(0xA11CE5u), v(new i64(x)) { live++; }
  Tracked(const Tracked &o) : magic(0xA11CE5u), v(new i64(o.get())) { live++, copies++; }
  Tracked &operator=(const Tracked &o) {
    check("assignment to");
    i64 x = o.get();
    copies++;
    *v = x;
    return *this;
  }
  ~Tracked() {
    check("destruction of");
    magic = 0xDEAD;
    delete v;
    v = 0;
    live--;
  }
  i64 get() const {
    check("read of");
    return *v;
  }
  void check(const char *what) const {
    if (magic != 0xA11CE5u) {
      fprintf(stderr, "SUMMARY: %s an element that is not alive\n", what);
      abort();
    }
  }
  bool operator==(const Tracked &o) const { return get() == o.get(); }
  bool operator<(const Tracked &o) const { return get() < o.get(); }
  bool operator>(const Tracked &o) const { return get() > o.get(); }
};
long Tracked::live = 0;
unsigned long long Tracked::copies = 0;

// The heap is exactly as before when the scope's body is over; call done() at the end of it.
struct LeakCheck {
  long b0, t0;
  LeakCheck() : b0(live_blocks()), t0(Tracked::live) {}
  void done() {
    REQUIRE_MSG(Tracked::live == t0, "%ld elements more than before are still alive", Tracked::live - t0);
    REQUIRE_MSG(live_blocks() == b0, "%ld heap blocks leaked", live_blocks() - b0);
  }
};
}  // namespace pbt
#endif
