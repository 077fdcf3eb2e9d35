// S03: packed sharing.
#include "ref.h"
#include "scl/ss/packed.h"
#include "smallff.h"
using namespace vp;
namespace sd = scl::details;
using Co = std::vector<u128>;

template <typename T>
struct Run {
  const char* name;
  ModP F;
  unsigned bits;
  Ctx& c = Ctx::I();
  Rng r{0};
  std::string K(const char* k) { return Str(k, ":", name); }
  u128 El() { return r.Chance(1, 5) ? 0 : EdgeValue(r, F.p, bits); }
  scl::Vec<T> V(const Co& v) {
    std::vector<T> s;
    for (auto x : v) s.push_back(FromU<T>(x));
    return scl::Vec<T>(s);
  }
  Co C(const scl::Vec<T>& v) {
    Co o;
    for (std::size_t i = 0; i < v.Size(); i++) o.push_back(ToInt(v[i]));
    return o;
  }
  static std::string S(const Co& v) {
    std::string s = "[";
    for (auto x : v) s += Dec(x) + " ";
    return s + "]";
  }
  Co Pts(std::size_t n) {
    Co x;
    for (std::size_t i = 0; i < n; i++) x.push_back(i + 1);
    return x;
  }
  u128 Ev(const Co& f, u128 x) {
    u128 y = 0;
    for (std::size_t i = f.size(); i-- > 0;) y = F.Add(F.Mul(y, x), f[i]);
    return y;
  }
  scl::PRG Prg() {
    unsigned char s[16];
    for (auto& b : s) b = (unsigned char)r.Next();
    return scl::PRG(s);
  }
  // degree at most d through shares at 1..n (n > d), given secrets at -i
  void Consistent(const Co& sh, std::size_t d, const Co& sec, const char* what) {
    Co f = Interpolate(F, Pts(sh.size()), sh);
    c.Check(DegreeOf(f) <= (int)d, K("degree"), Str(what, ": shares lie on a polynomial of degree ", DegreeOf(f), " > ", d));
    for (std::size_t i = 0; i < sec.size(); i++) {
      u128 v = Ev(f, F.Neg(i));
      c.Check(v == sec[i], K("position"), Str(what, ": value at -", i, " is ", Dec(v), ", expected ", Dec(sec[i])));
    }
  }
  void Reconstruct(const Co& sh, std::size_t d, const Co& sec, const char* what) {
    std::size_t m = d + 1 + r.Below(sh.size() - d);
    scl::Vec<T> s = V(Co(sh.begin(), sh.begin() + (long)m));
    c.Check(C(sd::SecretsFromSharesAndLength(s, sec.size())) == sec, K("secrets"), Str(what, ": ", m, " shares do not return the secrets"));
    Co pts;
    for (std::size_t i = 0; i < sec.size(); i++) pts.push_back(F.Neg(i));
    c.Check(C(sd::SecretsFromPointsAndShares(V(pts), s)) == sec, K("secrets-points"), Str(what, ": secrets by points are wrong"));
    if (!sec.empty()) {
      std::size_t i = r.Below(sec.size());
      c.Check(ToInt(sd::SecretFromPointAndShares(FromU<T>(pts[i]), s)) == sec[i], K("secret-point"), Str(what, ": secret at one point is wrong"));
      c.Check(ToInt(sd::SecretFromShares(s)) == sec[0], K("secret-zero"), Str(what, ": secret at 0 is wrong"));
    }
    c.Check(C(sd::EvPolyFromShares(s).Evaluate(V(pts))) == sec, K("poly-from-shares"), Str(what, ": the polynomial from shares is wrong"));
  }
  // more random points than a hundred
  void Long() {
    std::size_t k = 1 + r.Below(8), d = k + 100 + r.Below(60), n = d + 1 + r.Below(3);
    Co a;
    for (std::size_t i = 0; i < k; i++) a.push_back(El());
    scl::PRG prg = Prg();
    c.Begin(Str(name, " long k=", k, " d=", d, " n=", n, " a=", S(a), " r=", r.s));
    const auto p = sd::EvPolyFromSecretsAndDegree(V(a), d, prg);
    c.Check(p.Degree() == d, K("poly-degree"), "the polynomial has another degree than asked for");
    Co sa = C(sd::SharesFromEvPoly(p, n));
    c.Check(sa.size() == n, K("count"), "wrong number of shares");
    Consistent(sa, d, a, "long sharing");
    c.Check(C(sd::SecretsFromSharesAndLength(V(sa), k)) == a, K("secrets"), "shares do not return the secrets");
    c.Count("degrees_above_100");
    c.End();
  }
  void Case(bool big = false) {
    std::size_t k = 1 + r.Below(6), d = k - 1 + r.Below(6), n = 2 * d + 1 + r.Below(5);
    if (big) {  // shares and positions must stay apart
      k = 1 + r.Below(r.Chance(1, 2) ? 10 : 50), d = k - 1 + r.Below(30), n = 2 * d + 1 + r.Below(F.p < 300 ? 10 : 120);
    }
    Co a, b;
    for (std::size_t i = 0; i < k; i++) a.push_back(El()), b.push_back(El());
    if (r.Chance(1, 8)) a.assign(k, El());
    scl::PRG prg = Prg();
    c.Begin(Str(name, " k=", k, " d=", d, " n=", n, " a=", S(a), " b=", S(b), " r=", r.s));
    const scl::Vec<T> av = V(a), bv = V(b);
    const auto p = sd::EvPolyFromSecretsAndDegree(av, d, prg), q = sd::EvPolyFromSecretsAndDegree(bv, d, prg);
    c.Check(p.Degree() == d && q.Degree() == d, K("poly-degree"), "the polynomial has another degree than asked for");
    Co sa = C(sd::SharesFromEvPoly(p, n)), sb = C(sd::SharesFromEvPoly(q, n));
    c.Check(sa.size() == n, K("count"), "wrong number of shares");
    Consistent(sa, d, a, "first sharing");
    Consistent(sb, d, b, "second sharing");
    Reconstruct(sa, d, a, "first sharing");
    // sums and products
    Co ss, sp, es, ep;
    for (std::size_t i = 0; i < n; i++) ss.push_back(F.Add(sa[i], sb[i])), sp.push_back(F.Mul(sa[i], sb[i]));
    for (std::size_t i = 0; i < k; i++) es.push_back(F.Add(a[i], b[i])), ep.push_back(F.Mul(a[i], b[i]));
    Co ls = C(V(sa).Add(V(sb))), lp = C(V(sa).MultiplyEntryWise(V(sb)));
    c.Check(ls == ss && lp == sp, K("vec"), "share arithmetic is wrong");
    Reconstruct(ls, d, es, "sum");
    Reconstruct(lp, 2 * d, ep, "product");
    Consistent(C(sd::SharesFromEvPoly(p.Add(q), n)), d, es, "sum of polynomials");
    // one secret at any position outside 1..n
    u128 at = r.Chance(1, 3) ? F.Neg(r.Below(k)) : EdgeValue(r, F.p, bits);
    if (at == 0 || at > n) {
      std::size_t d1 = r.Below(7), n1 = d1 + 1 + r.Below(4);
      if (at > n1 && F.p > n1 + 1) {
        const auto o = sd::EvPolyFromSecretAndPointAndDegree(av[0], FromU<T>(at), d1, prg);
        Co so = C(sd::SharesFromEvPoly(o, n1));
        Co f = Interpolate(F, Pts(n1), so);
        c.Check(DegreeOf(f) <= (int)d1, K("single-degree"), "a single-secret sharing has too high a degree");
        c.Check(Ev(f, at) == a[0], K("single-position"), Str("the value at ", Dec(at), " is not the secret"));
        c.Check(ToInt(sd::SecretFromPointAndShares(FromU<T>(at), V(so))) == a[0], K("single-secret"), "the secret at the chosen point does not come back");
      }
      const auto z = sd::EvPolyFromSecretAndDegree(av[0], d1, prg);
      Co sz = C(sd::SharesFromEvPoly(z, n1));
      Co f = Interpolate(F, Pts(n1), sz);
      c.Check(DegreeOf(f) <= (int)d1 && f[0] == a[0], K("single-zero"), "the sharing of a single secret at 0 is wrong");
      c.Check(ToInt(sd::SecretFromShares(V(sz))) == a[0], K("single-zero-secret"), "the secret at 0 does not come back");
    }
    // secrets at chosen points
    {
      Co xs;
      std::size_t m = k + r.Below(4);
      while (xs.size() < m) {
        u128 x = r.Chance(1, 3) ? F.Neg(r.Below(10)) : EdgeValue(r, F.p, bits);
        bool dup = false;
        for (auto o : xs) dup = dup || o == x;
        if (!dup) xs.push_back(x);
      }
      const auto o = sd::EvPolyFromSecretsAndPoints(av, V(xs), prg);
      bool ok = o.Degree() == m - 1;
      for (std::size_t i = 0; ok && i < k; i++) ok = ToInt(o.Evaluate(FromU<T>(xs[i]))) == a[i];
      c.Check(ok, K("points"), "the polynomial does not take the secrets at the chosen points");
      Co so = C(sd::SharesFromEvPoly(o, m + 3));
      Co f = Interpolate(F, Pts(m + 3), so);
      ok = DegreeOf(f) <= (int)m - 1;
      for (std::size_t i = 0; ok && i < k; i++) ok = Ev(f, xs[i]) == a[i];
      c.Check(ok, K("points-shares"), "shares of a polynomial with chosen points are wrong");
      c.Check(Thrown([&] { (void)sd::EvPolyFromSecretsAndPoints(V(Co(m + 1, 1)), V(xs), prg); }) != "", K("too-many-points"),
              "more secrets than points are not refused");
    }
    for (std::size_t dd = 0; dd + 1 < k; dd++) {
      c.Check(Thrown([&] { (void)sd::EvPolyFromSecretsAndDegree(av, dd, prg); }) != "", K("too-many"), Str(k, " secrets in a polynomial of degree ", dd, " are not refused"));
      c.Count("refusals");
    }
    c.End();
  }
  void Go(u64 salt, double w) {
    r = c.MakeRng(salt);
    long n = c.N(16000 * w, 600000 * w);
    for (long i = 0; i < n; i++) Case();
    for (long i = 0, m = c.N(160 * w, 6000 * w); i < m; i++) Case(true);
    if (bits == 61 && c.scale > 0.01)
      for (long i = c.N(1, 30); i-- > 0;) Long();
  }
};

int main(int argc, char** argv) {
  Ctx::I().Init(argc, argv);
  Run<SmallFF<251>>{"GF251", ModP{251}, 8}.Go(1, 1);
  Run<scl::FF<61>>{"FF61", ModP{P61()}, 61}.Go(2, 0.5);
  Run<scl::FF<127>>{"FF127", ModP{P127()}, 127}.Go(3, 0.03);
  return Ctx::I().Finish();
}
