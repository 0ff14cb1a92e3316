// Integers M for which M * 5^p5 * 2^p2 is as close to a whole number as any in a range: where a conversion between
// decimal and binary that is only a little too inexact goes wrong.
#ifndef HARDCASES_H_
#define HARDCASES_H_
#include "pbt.h"
namespace pbt {
typedef unsigned __int128 u128;
struct Big {  // little endian words
  std::vector<uint32_t> w;
  explicit Big(uint32_t v) : w(1, v) {}
  void times(uint32_t k) {
    u64 c = 0;
    for (size_t i = 0; i < w.size(); i++) {
      c += (u64)w[i] * k;
      w[i] = (uint32_t)c;
      c >>= 32;
    }
    if (c) w.push_back((uint32_t)c);
  }
  bool bit(int i) const { return i >= 0 && (size_t)i / 32 < w.size() && (w[(size_t)i / 32] >> (i % 32) & 1); }
  bool less(const Big &o) const {  // same number of words
    for (size_t i = w.size(); i-- > 0;)
      if (w[i] != o.w[i]) return w[i] < o.w[i];
    return false;
  }
  // this = 2 * this, less m if that is no more than it; whether it was
  bool twice_mod(const Big &m) {
    uint32_t c = 0;
    for (size_t i = 0; i < w.size(); i++) {
      const uint32_t n = w[i] >> 31;
      w[i] = w[i] << 1 | c;
      c = n;
    }
    if (!c && less(m)) return false;
    u64 b = 0;
    for (size_t i = 0; i < w.size(); i++) {
      const u64 d = (u64)w[i] - m.w[i] - b;
      w[i] = (uint32_t)d;
      b = d >> 63;
    }
    return true;
  }
};
// The fraction of 5^p5 * 2^p2, in units of 2^-126.
inline u128 fraction(int p5, int p2) {
  u128 r = 0;
  if (p5 >= 0) {
    if (p2 >= 0) return 0;
    Big b(1);
    for (int i = 0; i < p5; i++) b.times(5);
    for (int i = 0; i < 126; i++) r = r << 1 | (b.bit(-p2 - 1 - i) ? 1 : 0);
    return r;
  }
  Big m(1), rem(1);
  for (int i = 0; i < -p5; i++) m.times(5);
  m.w.push_back(0);
  rem.w.resize(m.w.size(), 0);
  for (int i = 0; i < p2; i++) rem.twice_mod(m);
  for (int i = 0; i < 126; i++) r = r << 1 | (i >= -p2 || p2 >= 0 ? (rem.twice_mod(m) ? 1 : 0) : 0);
  return r;
}
// Members of [lo, hi] whose product with that number is close to a whole one, from its continued fraction.
inline void close_multiples(int p5, int p2, u64 lo, u64 hi, std::vector<u64> &out) {
  u128 r0 = (u128)1 << 126, r1 = fraction(p5, p2);
  u64 q0 = 0, q1 = 1;
  std::vector<u64> q;
  while (r1 && q1 <= hi) {
    q.push_back(q1);
    const u128 a = r0 / r1;
    if (a > hi) break;
    const u64 q2 = q1 > hi / (u64)a ? hi + 1 : (u64)a * q1 + q0;
    const u128 r2 = r0 - a * r1;
    q0 = q1, q1 = q2, r0 = r1, r1 = r2;
  }
  for (size_t n = q.size(), k = 0; n-- > 0 && k < 4; k++) {
    const u64 a = q[n], b = n ? q[n - 1] : 0;
    for (int y = -6; y <= 6; y++) {
      const __int128 base = (__int128)b * y;
      __int128 x0 = ((__int128)lo - base) / (__int128)a, x1 = ((__int128)hi - base) / (__int128)a;
      for (int d = -1; d < 4; d++) {
        const __int128 v[2] = {(x0 + d) * a + base, (x1 - d) * a + base};
        for (int j = 0; j < 2; j++)
          if (v[j] >= (__int128)lo && v[j] <= (__int128)hi) out.push_back((u64)v[j]);
      }
      if (!b) break;
    }
  }
}
}  // namespace pbt
#endif
