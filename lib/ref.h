// Independent reference arithmetic: prime fields by plain integer arithmetic,
// a tiny test field usable with the library's templates, dense linear algebra.
#ifndef VP_REF_H
#define VP_REF_H
#include "vp.h"

namespace vp {

inline u128 P61() { return ((u128)1 << 61) - 1; }
inline u128 P127() { return ((u128)1 << 127) - 1; }

// arithmetic modulo any p < 2^127 on canonical values
struct ModP {
  u128 p;
  u128 Add(u128 a, u128 b) const {
    u128 s = a + b;
    return s >= p ? s - p : s;
  }
  u128 Sub(u128 a, u128 b) const { return a >= b ? a - b : a + (p - b); }
  u128 Neg(u128 a) const { return a ? p - a : 0; }
  u128 Mul(u128 a, u128 b) const {
    if (p <= ((u128)1 << 62)) return (a % p) * (b % p) % p;
    u128 r = 0;
    while (b) {
      if (b & 1) r = Add(r, a);
      a = Add(a, a);
      b >>= 1;
    }
    return r;
  }
  u128 Pow(u128 a, u128 e) const {
    u128 r = 1 % p;
    while (e) {
      if (e & 1) r = Mul(r, a);
      a = Mul(a, a);
      e >>= 1;
    }
    return r;
  }
  u128 Inv(u128 a) const { return Pow(a, p - 2); }
  u128 FromInt(long v) const {
    if (v >= 0) return (u128)v % p;
    u128 m = (u128)(-(v + 1)) + 1;
    return Neg(m % p);
  }
};

// little-endian integer of n bytes
inline u128 LE(const unsigned char* b, std::size_t n) {
  u128 v = 0;
  for (std::size_t i = n; i-- > 0;) v = (v << 8) | b[i];
  return v;
}
inline void PutLE(unsigned char* b, std::size_t n, u128 v) {
  for (std::size_t i = 0; i < n; i++) {
    b[i] = (unsigned char)v;
    v >>= 8;
  }
}

// Any library ring element to and from integers through its serialisation.
template <typename T>
u128 ToInt(const T& e) {
  unsigned char b[16] = {0};
  e.Write(b);
  return LE(b, T::ByteSize());
}
template <typename T>
T FromU(u128 v) {
  unsigned char b[16] = {0};
  PutLE(b, T::ByteSize(), v);
  return T::Read(b);
}

// rank and hull computations over F_{2^61-1} with 64-bit words
struct F61 {
  static constexpr u64 P = (1ULL << 61) - 1;
  static u64 Mul(u64 a, u64 b) {
    u128 z = (u128)a * b;
    u64 r = (u64)(z & P) + (u64)(z >> 61);
    return r >= P ? r - P : r;
  }
  static u64 Add(u64 a, u64 b) {
    u64 r = a + b;
    return r >= P ? r - P : r;
  }
  static u64 Sub(u64 a, u64 b) { return a >= b ? a - b : a + P - b; }
  static u64 Pow(u64 a, u64 e) {
    u64 r = 1;
    while (e) {
      if (e & 1) r = Mul(r, a);
      a = Mul(a, a);
      e >>= 1;
    }
    return r;
  }
  static u64 Inv(u64 a) { return Pow(a, P - 2); }
};

// A row space over F_{2^61-1}, kept in reduced echelon form row by row.
class RowSpace {
 public:
  explicit RowSpace(std::size_t dim) : d(dim) {}
  // Reduces v by the space; returns true if v was not in it (and adds it if
  // `add`).
  bool Insert(std::vector<u64> v, bool add = true) {
    Reduce(v);
    std::size_t c = 0;
    while (c < d && !v[c]) c++;
    if (c == d) return false;
    if (add) {
      u64 iv = F61::Inv(v[c]);
      for (std::size_t j = c; j < d; j++) v[j] = F61::Mul(v[j], iv);
      rows.push_back(std::move(v));
      piv.push_back(c);
    }
    return true;
  }
  bool Contains(const std::vector<u64>& v) { return !Insert(v, false); }
  void Reduce(std::vector<u64>& v) const {
    for (std::size_t i = 0; i < rows.size(); i++) {
      u64 f = v[piv[i]];
      if (!f) continue;
      f = F61::P - f;
      const u64* r = rows[i].data();
      for (std::size_t j = piv[i]; j < d; j++) v[j] = F61::Add(v[j], F61::Mul(f, r[j]));
    }
  }
  std::size_t Rank() const { return rows.size(); }
  const std::vector<std::size_t>& Pivots() const { return piv; }

 private:
  std::size_t d;
  std::vector<std::vector<u64>> rows;
  std::vector<std::size_t> piv;
};

// value at x of the polynomial through (xs, ys), by ModP
inline u128 Lagrange(const ModP& F, const std::vector<u128>& xs, const std::vector<u128>& ys, u128 x) {
  u128 r = 0;
  for (std::size_t i = 0; i < xs.size(); i++) {
    u128 num = 1, den = 1;
    for (std::size_t j = 0; j < xs.size(); j++)
      if (j != i) {
        num = F.Mul(num, F.Sub(x, xs[j]));
        den = F.Mul(den, F.Sub(xs[i], xs[j]));
      }
    r = F.Add(r, F.Mul(ys[i], F.Mul(num, F.Inv(den))));
  }
  return r;
}

// coefficients of the interpolating polynomial (Newton), low to high
inline std::vector<u128> Interpolate(const ModP& F, const std::vector<u128>& xs, const std::vector<u128>& ys) {
  std::size_t n = xs.size();
  std::vector<u128> c = ys;
  for (std::size_t j = 1; j < n; j++)
    for (std::size_t i = n; i-- > j;)
      c[i] = F.Mul(F.Sub(c[i], c[i - 1]), F.Inv(F.Sub(xs[i], xs[i - j])));
  std::vector<u128> r(n, 0);
  for (std::size_t i = n; i-- > 0;) {
    // r = r * (x - xs[i]) + c[i]
    for (std::size_t k = n; k-- > 0;) {
      u128 lo = k ? r[k - 1] : 0;
      r[k] = F.Sub(lo, F.Mul(r[k], xs[i]));
    }
    r[0] = F.Add(r[0], c[i]);
  }
  return r;
}
inline int DegreeOf(const std::vector<u128>& c) {
  int d = (int)c.size() - 1;
  while (d > 0 && !c[d]) d--;
  return d;
}

// Interesting values modulo p (p about 2^bits)
inline u128 EdgeValue(Rng& r, u128 p, unsigned bits) {
  switch (r.Below(9)) {
    case 0: return r.Below(4) % p;
    case 1: return p - 1 - (u128)r.Below(4) % p;
    case 2: {
      u128 v = ((u128)1 << r.Below(bits));
      v += (u128)r.Range(0, 2);
      return (v - 1) % p;
    }
    case 3: return (p / 2 + (u128)r.Range(0, 3)) % p;
    case 4: {  // runs of ones
      unsigned a = r.Below(bits), b = r.Below(bits);
      u128 v = (((u128)1 << (a + 1)) - 1) ^ (((u128)1 << (b + 1)) - 1);
      return v % p;
    }
    case 5: return r.Below(1u << 16) % p;
    case 6: return (p - 1) / (1 + r.Below(1000));
    default: return r.Next128() % p;
  }
}

}  // namespace vp
#endif
