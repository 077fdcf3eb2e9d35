// Tiny prime fields (P < 256, one byte per element) to instantiate the
// library's field templates with: with few elements every edge case is hit
// often (singular matrices, coinciding points, cancelling leading terms).
#ifndef VP_SMALLFF_H
#define VP_SMALLFF_H
#include <cstdint>
#include <stdexcept>
#include <string>

#include "scl/math/ff.h"

namespace vp {
template <unsigned P>
struct SmallField {
  using ValueType = unsigned char;
  constexpr static const char* kName = "Small";
  constexpr static const std::size_t kByteSize = 1;
  constexpr static const std::size_t kBitSize = 8;
  static ValueType FromInt(int v) {
    long m = v % (long)P;
    return (ValueType)(m < 0 ? m + (long)P : m);
  }
  static void Add(ValueType& t, const ValueType& v) { t = (ValueType)((t + v) % P); }
  static void Subtract(ValueType& t, const ValueType& v) { t = (ValueType)((t + P - v) % P); }
  static void Multiply(ValueType& t, const ValueType& v) { t = (ValueType)((unsigned)t * v % P); }
  static void Negate(ValueType& t) { t = (ValueType)((P - t) % P); }
  static void Invert(ValueType& t) {
    if (!t) throw std::logic_error("0 not invertible modulo prime");
    unsigned r = 1, b = t, e = P - 2;
    while (e) {
      if (e & 1) r = r * b % P;
      b = b * b % P;
      e >>= 1;
    }
    t = (ValueType)r;
  }
  static bool Equal(const ValueType& a, const ValueType& b) { return a == b; }
  static void ToBytes(unsigned char* d, const ValueType& s) { *d = s; }
  static void FromBytes(ValueType& d, const unsigned char* s) { d = (ValueType)(*s % P); }
  static void FromString(ValueType& d, const std::string&, enum scl::NumberBase) { d = 0; }
  static std::string ToString(const ValueType& v) { return std::to_string((int)v); }
};
// the same with eight bytes per element, so that random elements are uniform
template <unsigned P>
struct WideField : SmallField<P> {
  using ValueType = unsigned char;
  constexpr static const std::size_t kByteSize = 8;
  static void ToBytes(unsigned char* d, const ValueType& s) {
    for (int i = 0; i < 8; i++) d[i] = i ? 0 : s;
  }
  static void FromBytes(ValueType& d, const unsigned char* s) {
    unsigned long v = 0;
    for (int i = 8; i-- > 0;) v = v << 8 | s[i];
    d = (ValueType)(v % P);
  }
};
template <unsigned P>
using WideFF = scl::details::FF<8, WideField<P>>;
template <unsigned P>
using SmallFF = scl::details::FF<8, SmallField<P>>;
}  // namespace vp
#endif
