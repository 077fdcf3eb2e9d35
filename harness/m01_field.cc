// M01: exact field arithmetic for both primes against integer arithmetic.
#include "ref.h"
#include "scl/math/ff.h"
using namespace vp;

template <typename FF>
struct Run {
  ModP F;
  unsigned bits;
  Ctx& c = Ctx::I();
  u128 V(const FF& e) { return ToInt(e); }
  void Eq(const FF& got, u128 want, const char* op, u128 a, u128 b) {
    u128 g = V(got);
    c.Check(g == want, Str("arith:", bits, ":", op),
            Str(op, "(", Dec(a), ", ", Dec(b), ") = ", Dec(g), ", expected ", Dec(want), " mod 2^", bits, "-1"));
    c.Count("checks.canonical");
    if (g >= F.p) c.Fail(Str("canonical:", bits, ":", op), Str("non-canonical result ", Dec(g)));
  }
  void Pair(u128 a, u128 b, bool inv) {
    c.Begin(Str("FF", bits, " a=", Dec(a), " b=", Dec(b), inv ? " +inverse" : ""));
    const FF x = FromU<FF>(a), y = FromU<FF>(b);
    Eq(x, a, "read", a, b);
    Eq(x + y, F.Add(a, b), "add", a, b);
    Eq(x - y, F.Sub(a, b), "sub", a, b);
    Eq(y - x, F.Sub(b, a), "sub", b, a);
    Eq(x * y, F.Mul(a, b), "mul", a, b);
    Eq(y * x, F.Mul(a, b), "mul", b, a);
    Eq(-x, F.Neg(a), "neg", a, a);
    {
      FF t = x;
      Eq(t.Negated(), F.Neg(a), "negated", a, a);
      Eq(t, a, "negated-keeps-operand", a, a);
      t.Negate();
      Eq(t, F.Neg(a), "negate", a, a);
    }
    // in place, returning a reference, operands untouched
    {
      FF t = x;
      FF& r = (t += y);
      Eq(t, F.Add(a, b), "add-in-place", a, b);
      c.Check(&r == &t, Str("ref:", bits), "in-place operation does not return itself");
      t = x;
      t -= y;
      Eq(t, F.Sub(a, b), "sub-in-place", a, b);
      t = x;
      t *= y;
      Eq(t, F.Mul(a, b), "mul-in-place", a, b);
      Eq(y, b, "operand", a, b);
      Eq(x, a, "operand", a, b);
    }
    // aliased
    {
      FF t = x;
      t += t;
      Eq(t, F.Add(a, a), "add-aliased", a, a);
      t = x;
      t -= t;
      Eq(t, 0, "sub-aliased", a, a);
      t = x;
      t *= t;
      Eq(t, F.Mul(a, a), "mul-aliased", a, a);
    }
    // long chains stay exact
    {
      FF t = x;
      u128 m = a;
      for (int i = 0; i < 6; i++) {
        t = t * t + y;
        m = F.Add(F.Mul(m, m), b);
        t -= x;
        m = F.Sub(m, a);
      }
      Eq(t, m, "chain", a, b);
    }
    bool eq = a == b;
    c.Check((x == y) == eq && (x != y) == !eq && x.Equal(y) == eq, Str("equal:", bits), "equality is wrong");
    c.Check((x + y) - y == x && (x - y) + y == x, Str("equal:", bits, ":cancel"), "x+y-y != x");
    if (inv) {
      if (b) {
        u128 ib = F.Inv(b);
        Eq(y.Inverse(), ib, "inverse", b, b);
        Eq(y, b, "inverse-keeps-operand", b, b);
        FF t = y;
        t.Invert();
        Eq(t, ib, "invert", b, b);
        Eq(x / y, F.Mul(a, ib), "div", a, b);
        t = x;
        t /= y;
        Eq(t, F.Mul(a, ib), "div-in-place", a, b);
        t = y;
        t /= t;
        Eq(t, 1, "div-aliased", b, b);
        c.Count("inverses");
      }
    }
    c.End(a > 1 || b > 1);
  }
  void Zero() {
    c.Begin(Str("FF", bits, " inversion of zero"));
    FF z, o = FromU<FF>(5);
    c.Check(Thrown([&] { z.Invert(); }) != "", Str("zero:", bits, ":invert"), "inverting zero is not refused");
    FF z2 = o - o;
    c.Check(Thrown([&] { (void)z2.Inverse(); }) != "", Str("zero:", bits, ":inverse"), "inverse of zero is not refused");
    c.Check(Thrown([&] { (void)(o / z2); }) != "", Str("zero:", bits, ":div"), "dividing by zero is not refused");
    c.Check(Thrown([&] { o /= FF(0); }) != "", Str("zero:", bits, ":div"), "dividing by zero is not refused");
    Eq(FF(), 0, "default", 0, 0);
    c.End();
  }
  void Ints(Rng& r, long n) {
    std::vector<long> e = {0, 1, -1, 2, -2, 2147483647, -2147483647L - 1, -2147483647, 65535, -65536};
    for (long i = 0; i < n; i++) {
      long v = i < (long)e.size() ? e[i] : (long)(int)r.Next() >> r.Below(31);
      c.Begin(Str("FF", bits, " from int ", v));
      Eq(FF((int)v), F.FromInt(v), "from-int", (u128)v, 0);
      Eq(FF((int)v) + FF((int)7), F.FromInt(v + 7), "from-int-add", (u128)v, 0);
      c.End();
    }
  }
  void Go(u64 salt) {
    Rng r = c.MakeRng(salt);
    Zero();
    Ints(r, c.N(4000, 40000));
    long n = c.N(100000, 6000000);
    for (long i = 0; i < n; i++) {
      u128 a = EdgeValue(r, F.p, bits), b = EdgeValue(r, F.p, bits);
      if (r.Chance(1, 8)) b = F.Neg(a);        // sums that hit p exactly
      else if (r.Chance(1, 8)) b = F.Neg(F.Add(a, r.Range(0, 2)));
      else if (r.Chance(1, 16)) b = a;
      bool inv = i % 12 == 0;
      if (i % 24 == 5 && a) b = F.Mul(F.Inv(a), EdgeValue(r, F.p, bits));  // products that hit edges
      Pair(a, b, inv);
    }
  }
};

int main(int argc, char** argv) {
  Ctx::I().Init(argc, argv);
  Run<scl::FF<61>>{ModP{P61()}, 61}.Go(61);
  Run<scl::FF<127>>{ModP{P127()}, 127}.Go(127);
  return Ctx::I().Finish();
}
