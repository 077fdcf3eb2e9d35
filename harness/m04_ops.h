// The operations of M04 on Z2k<K>, instantiated in four translation units.
#ifndef M04_OPS_H
#define M04_OPS_H
#include <memory>
#include <sstream>

#include "ref.h"
#include "scl/math/z2k.h"
#include "scl/prg.h"
using namespace vp;

// Everything is done through one small function per k; operands are given as
// integers possibly with bits above k, which must never matter.
enum Op { ADD, SUB, RSUB, MUL, NEG, INV, DIV, ADDI, SUBI, MULI, DIVI, NEGATED, ALIAS_ADD, ALIAS_SUB, ALIAS_MUL, ALIAS_DIV, CHAIN, NOPS };
static const char* kOps[] = {"add", "sub", "rsub", "mul", "neg", "inv", "div", "add-in-place", "sub-in-place", "mul-in-place", "div-in-place",
                             "negated", "add-aliased", "sub-aliased", "mul-aliased", "div-aliased", "chain"};

struct Fns {
  std::size_t bytes, bits, sbits;
  u128 (*op)(int, u128, u128);
  int (*eq)(u128, u128);
  unsigned (*lsb)(u128);
  std::string (*str)(u128);
  u128 (*parse)(const std::string&, int);
  void (*read_write)(const unsigned char*, unsigned char*);
  u128 (*random)(scl::PRG&);
  std::string (*inv_zero)(u128, int);
};

template <std::size_t K>
static u128 Out(const scl::Z2k<K>& e) {
  std::unique_ptr<unsigned char[]> b(new unsigned char[scl::Z2k<K>::ByteSize()]);
  e.Write(b.get());
  return LE(b.get(), scl::Z2k<K>::ByteSize());
}
template <std::size_t K>
static Fns Make() {
  using Z = scl::Z2k<K>;
  using V = typename Z::ValueType;
  Fns f;
  f.bytes = Z::ByteSize();
  f.bits = Z::BitSize();
  f.sbits = Z::SpecifiedBitSize();
  f.op = [](int op, u128 a, u128 b) -> u128 {
    Z x((V)a), y((V)b);
    switch (op) {
      case ADD: return Out<K>(x + y);
      case SUB: return Out<K>(x - y);
      case RSUB: return Out<K>(y - x);
      case MUL: return Out<K>(x * y);
      case NEG: return Out<K>(-x);
      case INV: return Out<K>(y.Inverse());
      case DIV: return Out<K>(x / y);
      case ADDI: return Out<K>(x += y);
      case SUBI: return Out<K>(x -= y);
      case MULI: return Out<K>(x *= y);
      case DIVI: return Out<K>(x /= y);
      case NEGATED: return Out<K>(x.Negated());
      case ALIAS_ADD: return Out<K>(x += x);
      case ALIAS_SUB: return Out<K>(x -= x);
      case ALIAS_MUL: return Out<K>(x *= x);
      case ALIAS_DIV: return Out<K>(y /= y);
      default:
        for (int i = 0; i < 4; i++) {
          x = x * x + y;
          x -= y * x;
          x.Negate();
        }
        return Out<K>(x);
    }
  };
  f.eq = [](u128 a, u128 b) {
    Z x((V)a), y((V)b);
    return (int)(x == y) | (int)(x != y) << 1 | (int)x.Equal(y) << 2;
  };
  f.lsb = [](u128 a) { return Z((V)a).Lsb(); };
  f.str = [](u128 a) {
    std::ostringstream o;
    o << Z((V)a);
    return o.str() == Z((V)a).ToString() ? o.str() : "stream and ToString differ";
  };
  f.parse = [](const std::string& s, int b) { return Out<K>(b < 0 ? Z::FromString(s) : Z::FromString(s, (scl::NumberBase)b)); };
  f.read_write = [](const unsigned char* s, unsigned char* d) { Z::Read(s).Write(d); };
  f.random = [](scl::PRG& p) { return Out<K>(Z::Random(p)); };
  f.inv_zero = [](u128 a, int w) {
    return Thrown([&] {
      Z x((V)a), o((V)5);
      if (w == 0) (void)x.Inverse();
      if (w == 1) x.Invert();
      if (w == 2) (void)(o / x);
      if (w == 3) o /= x;
    });
  };
  return f;
}
template <std::size_t LO, std::size_t... I>
static std::vector<Fns> Some(std::index_sequence<I...>) {
  return {Make<LO + I>()...};
}
std::vector<Fns> M04Part0();
std::vector<Fns> M04Part1();
std::vector<Fns> M04Part2();
std::vector<Fns> M04Part3();
#endif
