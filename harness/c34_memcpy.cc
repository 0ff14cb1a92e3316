// C34: nanostl::memcpy.
#define PBT_MAIN
#include "nano_pre.h"
#include <vector>
#include "nanocstring.h"
using pbt::Src;
using pbt::u64;
static void copy(size_t n, size_t a, size_t b, size_t after, u64 seed, bool exact) {
  // exact: the blocks end where the copied bytes end, so that the sanitizer sees one byte more
  const size_t sn = a + n + (exact ? 0 : after), dn = b + n + (exact ? 0 : after);
  unsigned char *src = (unsigned char *)malloc(sn), *dst = (unsigned char *)malloc(dn);
  std::vector<unsigned char> s0(sn), d0(dn);
  pbt::Rng r(seed);
  for (size_t i = 0; i < sn; i++) s0[i] = src[i] = (unsigned char)r.next();
  for (size_t i = 0; i < dn; i++) d0[i] = dst[i] = (unsigned char)r.next();
  REQUIRE_MSG(nanostl::memcpy(dst + b, src + a, n) == (void *)(dst + b), "memcpy does not return its destination");
  for (size_t i = 0; i < sn; i++) REQUIRE_MSG(src[i] == s0[i], "%zu bytes from offset %zu to %zu: source byte %zu changed", n, a, b, i);
  for (size_t i = 0; i < dn; i++) {
    const unsigned char e = i < b || i >= b + n ? d0[i] : s0[i - b + a];
    REQUIRE_MSG(dst[i] == e, "%zu bytes from offset %zu to %zu: destination byte %zu is wrong (%s)", n, a, b, i, i < b ? "before the copy" : i >= b + n ? "after the copy" : "not copied");
  }
  free(src);
  free(dst);
}
PROPERTY(copies, 300000, 5000000, "random sizes (0 to 400, some to 100000), alignments and contents") {
  size_t n = s.size(400);
  if (s.chance(1, 2000)) n = (size_t)s.below(100000);
  const size_t a = (size_t)s.below(17), b = (size_t)s.below(17), after = (size_t)s.below(17);
  const u64 seed = s.bits64();
  const bool exact = s.flip();
  s.note("%zu bytes from offset %zu to offset %zu, %zu after\n", n, a, b, after);
  copy(n, a, b, after, seed, exact);
  if (n > 1) s.nontrivial();
}
SWEEP(grid, 0, 131 * 17 * 17, 131 * 17 * 17, 131 * 17 * 17, "every size to 130 with every alignment of source and destination to 16 (exhaustive)") {
  copy((size_t)(x % 131), (size_t)(x / 131 % 17), (size_t)(x / 131 / 17), 8, x, x & 1);
  return x % 131 > 1;
}
SWEEP(large, 0, 40, 12, 40, "sizes around powers of two up to 16 MB (thorough: 64 MB)") {
  const int k = (int)(x * 12 / 40) + 12;
  copy(((size_t)1 << k) + (size_t)(x % 3) - 1, (size_t)(x % 5), (size_t)(x % 7), 16, x, false);
  return true;
}
// A structured object copied as bytes is the same object.
PROPERTY(objects, 100000, 2000000, "objects, arrays of them and single members keep their value when copied as bytes") {
  struct O {
    char c;
    double d;
    short s;
    u64 q;
  } a[5], b[5];
  ::memset(a, 0, sizeof a);
  ::memset(b, 0, sizeof b);
  for (int i = 0; i < 5; i++) a[i].c = (char)s.below(256), a[i].d = (double)s.range(-1000, 1000) / 7, a[i].s = (short)s.below(65536), a[i].q = s.bits64();
  const size_t f = (size_t)s.below(5), n = (size_t)s.below(6 - f);
  s.note("%zu objects from %zu\n", n, f);
  REQUIRE(nanostl::memcpy(b, a + f, n * sizeof(O)) == (void *)b);
  for (size_t i = 0; i < 5; i++) {
    if (i < n) REQUIRE(b[i].c == a[f + i].c && b[i].d == a[f + i].d && b[i].s == a[f + i].s && b[i].q == a[f + i].q);
    else REQUIRE(b[i].c == 0 && b[i].d == 0 && b[i].s == 0 && b[i].q == 0);
  }
  if (n) s.nontrivial();
}
#ifndef __SANITIZE_ADDRESS__
#include <sys/mman.h>
#include <unistd.h>
// More than 4 GB in 64 MB of memory: the same pages mapped again and again.
static const size_t kChunk = 32u << 20;
static unsigned char *repeat(size_t chunks, int first, int last) {
  unsigned char *p = (unsigned char *)mmap(0, kChunk * chunks, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) return 0;
  for (size_t i = 0; i < chunks; i++)
    if (mmap(p + i * kChunk, kChunk, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, i + 1 == chunks ? last : first, 0) == MAP_FAILED) return 0;
  return p;
}
static unsigned char *pages(int *fd) {
  *fd = memfd_create("c34", 0);
  if (*fd < 0 || ftruncate(*fd, (off_t)kChunk)) return 0;
  void *p = mmap(0, kChunk, PROT_READ | PROT_WRITE, MAP_SHARED, *fd, 0);
  return p == MAP_FAILED ? 0 : (unsigned char *)p;
}
SWEEP(huge, 0, 2, 2, 2, "sizes beyond 2 GB and beyond 4 GB are copied to the last byte and no further") {
  const size_t extra = 1000003 * (x + 1), n = (x ? 4ull << 30 : 2ull << 30) + extra, chunks = n / kChunk + 1;
  int fs, fl, fd, fe;
  unsigned char *s0 = pages(&fs), *s1 = pages(&fl), *d0 = pages(&fd), *d1 = pages(&fe);
  unsigned char *src = s0 && s1 ? repeat(chunks, fs, fl) : 0, *dst = d0 && d1 ? repeat(chunks, fd, fe) : 0;
  if (!src || !dst) return false;  // not enough memory for the mappings: nothing is checked
  for (size_t i = 0; i < kChunk; i++) s0[i] = (unsigned char)(pbt::mix(i) | 1), s1[i] = (unsigned char)(pbt::mix(i + kChunk) | 1), d0[i] = d1[i] = 0;
  REQUIRE(nanostl::memcpy(dst, src, n) == (void *)dst);
  const size_t rest = n % kChunk;
  for (size_t i = 0; i < kChunk; i++) {
    REQUIRE_MSG(d0[i] == s0[i], "copying %zu bytes, byte %zu of a full block is wrong", n, i);
    REQUIRE_MSG(d1[i] == (i < rest ? s1[i] : 0), "copying %zu bytes, byte %zu is %s", n, n - rest + i, i < rest ? "not copied" : "written although it is past the end");
  }
  munmap(src, kChunk * chunks), munmap(dst, kChunk * chunks);
  munmap(s0, kChunk), munmap(s1, kChunk), munmap(d0, kChunk), munmap(d1, kChunk);
  close(fs), close(fl), close(fd), close(fe);
  return true;
}
#endif
