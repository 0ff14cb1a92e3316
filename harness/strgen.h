// Random byte strings.
#ifndef STRGEN_H_
#define STRGEN_H_
#include <string>
#include "pbt.h"
namespace pbt {
inline std::string show(const std::string &s) {
  std::string r = "\"";
  for (size_t i = 0; i < s.size() && i < 120; i++) {
    unsigned char c = (unsigned char)s[i];
    if (c >= 32 && c < 127 && c != '"' && c != '\\') r += (char)c;
    else r += fmt("\\x%02x", c);
  }
  r += "\"";
  if (s.size() > 120) r += fmt("...(%zu)", s.size());
  return r;
}
inline char any_char(Src &s, bool nul) {
  unsigned char c;
  switch (s.below(6)) {
    case 0: case 1: c = (unsigned char)('a' + s.below(3)); break;
    case 2: c = (unsigned char)(32 + s.below(95)); break;
    case 3: c = (unsigned char)(128 + s.below(128)); break;
    case 4: {
      static const unsigned char e[] = {1, 127, 128, 255, 10, 0};
      c = e[s.below(6)];
      break;
    }
    default: c = (unsigned char)s.below(256);
  }
  if (!nul && c == 0) c = 'a';
  return (char)c;
}
inline std::string any_string(Src &s, size_t max, bool nul) {
  size_t n = s.size(max);
  std::string r;
  if (n > 100 && s.flip()) {  // long and cheap to choose
    std::string u;
    size_t k = 1 + (size_t)s.below(7);
    for (size_t i = 0; i < k; i++) u += any_char(s, nul);
    while (r.size() < n) r += u;
    r.resize(n);
    return r;
  }
  for (size_t i = 0; i < n; i++) r += any_char(s, nul);
  return r;
}
// A long string that is cheap to choose: length around a power of two, few decisions.
inline std::string long_string(Src &s, int lowest, int highest, bool nul) {
  const size_t n = ((size_t)1 << s.range(lowest, highest)) + (size_t)s.range(-2, 2);
  std::string u, r;
  for (size_t k = 1 + (size_t)s.below(9); k > 0; k--) u += any_char(s, nul);
  r.reserve(n);
  while (r.size() < n) r += u;
  r.resize(n);
  for (size_t k = (size_t)s.below(4); k > 0; k--) r[(size_t)s.below(n)] = any_char(s, nul);
  return r;
}
}  // namespace pbt
#endif
