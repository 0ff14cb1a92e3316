// C31: siphash is SipHash-2-4 with 64- and 128-bit output, for every message, length and key.
#define PBT_MAIN
#include "nano_pre.h"
#include <cstring>
#include <string>
#include <vector>
#include "__hashfunc.h"
#include NANO_HASH_CC
using pbt::Src;
using pbt::u64;
// Independent implementation, from the paper.
struct Sip {
  u64 v[4];
  static u64 rot(u64 x, int b) { return (x << b) | (x >> (64 - b)); }
  void round() {
    v[0] += v[1], v[2] += v[3];
    v[1] = rot(v[1], 13) ^ v[0], v[3] = rot(v[3], 16) ^ v[2];
    v[0] = rot(v[0], 32);
    v[2] += v[1], v[0] += v[3];
    v[1] = rot(v[1], 17) ^ v[2], v[3] = rot(v[3], 21) ^ v[0];
    v[2] = rot(v[2], 32);
  }
  void word(u64 m) {
    v[3] ^= m;
    round(), round();
    v[0] ^= m;
  }
  static void run(const unsigned char *p, size_t n, const unsigned char *key, unsigned char *out, bool wide) {
    u64 k[2] = {0, 0};
    for (int i = 0; i < 16; i++) k[i / 8] |= (u64)key[i] << (i % 8 * 8);
    static const char init[] = "somepseudorandomlygeneratedbytes";
    Sip s;
    for (int w = 0; w < 4; w++) {
      s.v[w] = 0;
      for (int i = 0; i < 8; i++) s.v[w] = s.v[w] << 8 | (unsigned char)init[w * 8 + i];
      s.v[w] ^= k[w & 1];
    }
    if (wide) s.v[1] ^= 0xee;
    // pad with zeros to 8k + 7 bytes, then the length
    std::vector<unsigned char> m(p, p + n);
    while (m.size() % 8 != 7) m.push_back(0);
    m.push_back((unsigned char)n);
    for (size_t i = 0; i < m.size(); i += 8) {
      u64 x = 0;
      for (int j = 7; j >= 0; j--) x = x << 8 | m[i + j];
      s.word(x);
    }
    s.v[2] ^= wide ? 0xee : 0xff;
    for (int i = 0; i < 4; i++) s.round();
    u64 h = s.v[0] ^ s.v[1] ^ s.v[2] ^ s.v[3];
    for (int i = 0; i < 8; i++) out[i] = (unsigned char)(h >> (8 * i));
    if (!wide) return;
    s.v[1] ^= 0xdd;
    for (int i = 0; i < 4; i++) s.round();
    h = s.v[0] ^ s.v[1] ^ s.v[2] ^ s.v[3];
    for (int i = 0; i < 8; i++) out[8 + i] = (unsigned char)(h >> (8 * i));
  }
};
static std::string hex(const unsigned char *p, size_t n) {
  std::string r;
  for (size_t i = 0; i < n; i++) {
    char b[4];
    snprintf(b, sizeof b, "%02x", p[i]);
    r += b;
  }
  return r;
}
// Message, key and output in blocks of exactly their size, at any alignment.
static void check(const unsigned char *msg, size_t n, const unsigned char *key, size_t off) {
  unsigned char *m = (unsigned char *)malloc(n + off), *k = (unsigned char *)malloc(16 + off);
  memcpy(m + off, msg, n);
  memcpy(k + off, key, 16);
  for (int wide = 0; wide < 2; wide++) {
    const size_t o = wide ? 16 : 8;
    unsigned char *g = (unsigned char *)malloc(o + off), e[16];
    memset(g, 0x5a, o + off);
    REQUIRE(nanostl::siphash(m + off, n, k + off, g + off, o) == 0);
    Sip::run(msg, n, key, e, wide);
    REQUIRE_MSG(!memcmp(g + off, e, o), "siphash of %zu bytes, key %s, %zu bytes out: %s instead of %s", n, hex(key, 16).c_str(), o, hex(g + off, o).c_str(), hex(e, o).c_str());
    for (size_t i = 0; i < off; i++) REQUIRE(g[i] == 0x5a);
    free(g);
  }
  REQUIRE_MSG(!memcmp(m + off, msg, n) && !memcmp(k + off, key, 16), "the message or the key was changed");
  free(m);
  free(k);
}
PROPERTY(hashes, 300000, 10000000, "random messages (0 to 300 bytes, or up to 70000), keys and alignments, both output widths, against an independent implementation") {
  size_t n = s.size(300);
  if (s.chance(1, 2000)) n = (size_t)s.below(70000);
  std::vector<unsigned char> m(n + 1), k(16);
  const unsigned mode = (unsigned)s.below(4);
  const u64 seed = s.bits64();
  pbt::Rng r(seed);
  for (size_t i = 0; i < n; i++) m[i] = mode == 0 ? 0 : mode == 1 ? 255 : (unsigned char)r.next();
  for (int i = 0; i < 16; i++) k[i] = (unsigned char)(s.flip() ? s.below(256) : i);
  const size_t off = (size_t)s.below(9);
  s.note("%zu bytes, content %u of seed %llx, key %s, offset %zu\n", n, mode, seed, hex(&k[0], 16).c_str(), off);
  check(&m[0], n, &k[0], off);
  if (n % 8) s.label("partial last word");
  if (n) s.nontrivial();
}
SWEEP(lengths, 0, 1024, 1024, 1024, "every length from 0 to 1023, and the vectors published with SipHash") {
  unsigned char m[1024], k[16], o[16];
  for (int i = 0; i < 1024; i++) m[i] = (unsigned char)i;
  for (int i = 0; i < 16; i++) k[i] = (unsigned char)i;
  check(m, (size_t)x, k, (size_t)(x % 3));
  Sip::run(m, 15, k, o, false);
  REQUIRE_MSG(hex(o, 8) == "e545be4961ca29a1", "the reference itself: %s", hex(o, 8).c_str());
  Sip::run(m, 0, k, o, false);
  REQUIRE(hex(o, 8) == "310e0edd47db6f72");
  Sip::run(m, 0, k, o, true);
  REQUIRE_MSG(hex(o, 16) == "a3817f04ba25a8e66df67214c7550293", "the reference itself: %s", hex(o, 16).c_str());
  return x > 0;
}
