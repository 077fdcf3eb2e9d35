// Uniformity monitors.
#ifndef VP_STATS_H
#define VP_STATS_H
#include <cmath>

#include "vp.h"

namespace vp {
// Standard-normal score of a chi-square statistic against the uniform
// distribution (Wilson-Hilferty).  Scores above 7 do not happen by chance.
inline double ChiZ(const std::vector<long>& h) {
  double n = 0, x = 0, df = (double)h.size() - 1;
  for (long k : h) n += (double)k;
  double e = n / (double)h.size();
  for (long k : h) x += ((double)k - e) * ((double)k - e) / e;
  double t = std::cbrt(x / df), m = 1 - 2 / (9 * df), s = std::sqrt(2 / (9 * df));
  return (t - m) / s;
}
// Counts how often each bit of a stream of values is set.
struct BitStat {
  std::vector<long> ones;
  long n = 0;
  explicit BitStat(unsigned bits = 0) : ones(bits, 0) {}
  void Add(u128 v) {
    n++;
    for (std::size_t j = 0; j < ones.size(); j++) ones[j] += (long)(v >> j & 1);
  }
  // largest deviation in standard deviations
  double Worst(unsigned* at = nullptr) const {
    double w = 0;
    for (std::size_t j = 0; j < ones.size(); j++) {
      double z = std::fabs((double)ones[j] - (double)n / 2) / (0.5 * std::sqrt((double)n));
      if (z > w) {
        w = z;
        if (at) *at = (unsigned)j;
      }
    }
    return w;
  }
};
}  // namespace vp
#endif
