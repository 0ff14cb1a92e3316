// Numbers as text: oracles independent of the code under test.
//  * shortest digits: libstdc++'s std::to_chars, and glibc's exact printf/strtof/strtod
//  * parsing: glibc's strtof/strtod (correctly rounded)
#ifndef NUMTEXT_H_
#define NUMTEXT_H_
#include "strgen.h"
#include "nano_pre.h"
#define NANOSTL_STRING_IMPLEMENTATION
#include "nanostring.h"
namespace pbt {
struct TcRes {
  char *ptr;
  int ec;
};
// std::to_chars(char*, char*, float/double, chars_format) of libstdc++, callable from C++11.
TcRes tc_f(char *, char *, float, int) __asm__("_ZSt8to_charsPcS_fSt12chars_format");
TcRes tc_d(char *, char *, double, int) __asm__("_ZSt8to_charsPcS_dSt12chars_format");

inline uint32_t fbits(float f) {
  uint32_t b;
  memcpy(&b, &f, 4);
  return b;
}
inline u64 dbits(double d) {
  u64 b;
  memcpy(&b, &d, 8);
  return b;
}
inline float bits2f(uint32_t b) {
  float f;
  memcpy(&f, &b, 4);
  return f;
}
inline double bits2d(u64 b) {
  double d;
  memcpy(&d, &b, 8);
  return d;
}
// "d.dddde-05" -> "d.ddddE-5"
inline int to_ryu_form(const char *in, const char *end, char *out) {
  char *o = out;
  const char *p = in;
  while (p < end && *p != 'e') *o++ = *p++;
  if (p < end) {
    p++;
    *o++ = 'E';
    if (*p == '-') *o++ = '-';
    p++;
    while (p + 1 < end && *p == '0') p++;
    while (p < end) *o++ = *p++;
  }
  *o = 0;
  return (int)(o - out);
}
inline int expect_f(float f, char *out) {
  uint32_t b = fbits(f), m = b & 0x7fffffff;
  if (m > 0x7f800000) return strcpy(out, "NaN"), 3;
  if (m == 0x7f800000) return strcpy(out, b >> 31 ? "-Infinity" : "Infinity"), b >> 31 ? 9 : 8;
  char t[64];
  TcRes r = tc_f(t, t + 64, f, 1);
  return to_ryu_form(t, r.ptr, out);
}
inline int expect_d(double f, char *out) {
  u64 b = dbits(f), m = b & ~(1ull << 63);
  if (m > 0x7ff0000000000000ull) return strcpy(out, "NaN"), 3;
  if (m == 0x7ff0000000000000ull) return strcpy(out, b >> 63 ? "-Infinity" : "Infinity"), b >> 63 ? 9 : 8;
  char t[64];
  TcRes r = tc_d(t, t + 64, f, 1);
  return to_ryu_form(t, r.ptr, out);
}
// The n-digit decimal nearest to x, in the same form (exact arithmetic inside glibc).
inline int nearest(double x, int n, char *out) {
  char t[64];
  int k = snprintf(t, sizeof t, "%.*e", n - 1, x);
  return to_ryu_form(t, t + k, out);
}
inline int digits_of(const char *s) {
  int n = 0;
  for (; *s && *s != 'E'; s++) n += *s >= '0' && *s <= '9';
  return n;
}
// Structured doubles.
inline double any_double(Src &s) {
  u64 b;
  switch (s.below(10)) {
    case 0: b = s.bits64(); break;
    case 1: {  // a power of two, or next to it
      b = s.below(2047) << 52;
      b += (u64)s.range(-2, 2);
      break;
    }
    case 2: {  // few significant bits
      b = (s.below(2047) << 52) | ((s.below(1 << 10)) << 42);
      break;
    }
    case 3: {  // a power of ten, or next to it
      char t[32];
      snprintf(t, sizeof t, "1e%d", (int)s.range(-323, 308));
      b = dbits(strtod(t, 0)) + (u64)s.range(-2, 2);
      break;
    }
    case 4: {  // short decimals
      char t[48];
      snprintf(t, sizeof t, "%llue%d", (unsigned long long)s.below(s.flip() ? 1000 : 100000000), (int)s.range(-330, 300));
      b = dbits(strtod(t, 0));
      break;
    }
    case 5: b = dbits((double)s.below(1ull << (1 + s.below(60)))); break;  // integers
    case 6: b = dbits((double)((1ull << 53) + (u64)s.range(-2000, 2000))); break;
    case 7: b = s.below(1ull << (1 + s.below(53))); break;  // subnormals
    case 8: b = 0x7fefffffffffffffull - s.below(1ull << (1 + s.below(40))); break;
    default: {  // an integer with trailing decimal zeros
      u64 v = s.below(1000000);
      for (u64 k = s.below(13); k > 0; k--) v *= 10;
      b = dbits((double)v);
    }
  }
  if (s.chance(1, 3)) b ^= 1ull << 63;
  if (s.chance(1, 60)) b = (s.flip() ? 1ull << 63 : 0) | (s.chance(1, 3) ? 0 : 0x7ff0000000000000ull);
  return bits2d(b);
}
inline float any_float(Src &s) {
  uint32_t b;
  switch (s.below(6)) {
    case 0: b = (uint32_t)s.bits64(); break;
    case 1: b = (uint32_t)(s.below(255) << 23) + (uint32_t)s.range(-2, 2); break;
    case 2: {
      char t[32];
      snprintf(t, sizeof t, "1e%d", (int)s.range(-45, 38));
      b = fbits(strtof(t, 0)) + (uint32_t)s.range(-2, 2);
      break;
    }
    case 3: {
      char t[48];
      snprintf(t, sizeof t, "%ue%d", (unsigned)s.below(s.flip() ? 1000 : 1000000), (int)s.range(-50, 33));
      b = fbits(strtof(t, 0));
      break;
    }
    case 4: b = fbits((float)s.below(1u << (1 + s.below(31)))); break;
    default: b = (uint32_t)s.below(1u << (1 + s.below(24)));
  }
  if (s.chance(1, 3)) b ^= 0x80000000u;
  return bits2f(b);
}
inline std::string plain(const nanostl::string &s) { return std::string(s.c_str(), (size_t)s.size()); }
}  // namespace pbt
#endif
