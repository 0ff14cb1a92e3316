// Values whose == and < are not two sides of one order: equality is finer than equivalence (Tie),
// or some values are neither equal to nor less than anything (Nan).  Lexicographic comparison with
// == and with < is nevertheless defined.
#ifndef PARTIAL_H_
#define PARTIAL_H_
#include "nano_pre.h"
namespace pbt {
struct Tie {
  int k, t;
  Tie(int k_ = 0, int t_ = 0) : k(k_), t(t_) {}
  friend bool operator==(const Tie &a, const Tie &b) { return a.k == b.k && a.t == b.t; }
  friend bool operator!=(const Tie &a, const Tie &b) { return !(a == b); }
  friend bool operator<(const Tie &a, const Tie &b) { return a.k < b.k; }
  friend bool operator>(const Tie &a, const Tie &b) { return b < a; }
  friend bool operator<=(const Tie &a, const Tie &b) { return !(b < a); }
  friend bool operator>=(const Tie &a, const Tie &b) { return !(a < b); }
};
inline Tie draw_tie(Src &s) { return Tie((int)s.range(-1, 1), (int)s.range(0, 1)); }
inline double draw_nan(Src &s) {
  static volatile double z = 0;
  double v[] = {0.0, -0.0, 1.0, -1.0, z / z, -(z / z), 1 / (z + 0.0), -1 / (z + 0.0)};
  return v[s.below(8)];
}
}  // namespace pbt
#endif
