// S02: Shamir reconstruction, plain, detecting and correcting.
#include "ref.h"
#include "scl/ss/shamir.h"
#include "smallff.h"
using namespace vp;
using Co = std::vector<u128>;

template <typename T>
struct Run {
  const char* name;
  ModP F;
  unsigned bits;
  Ctx& c = Ctx::I();
  Rng r{0};
  std::string K(const char* k) { return Str(k, ":", name); }

  u128 El() { return r.Chance(1, 5) ? 0 : EdgeValue(r, F.p, bits); }
  scl::Vec<T> V(const Co& v) {
    std::vector<T> s;
    for (auto x : v) s.push_back(FromU<T>(x));
    return scl::Vec<T>(s);
  }
  static std::string S(const Co& v) {
    std::string s = "[";
    for (auto x : v) s += Dec(x) + " ";
    return s + "]";
  }
  u128 Ev(const Co& f, u128 x) {
    u128 y = 0;
    for (std::size_t i = f.size(); i-- > 0;) y = F.Add(F.Mul(y, x), f[i]);
    return y;
  }
  Co Points(std::size_t n, bool zero) {
    Co xs;
    while (xs.size() < n) {
      u128 x = F.p < 300 ? (u128)r.Below((u64)F.p) : EdgeValue(r, F.p, bits);
      if (!x && !zero) continue;
      bool dup = false;
      for (auto o : xs) dup = dup || o == x;
      if (!dup) xs.push_back(x);
    }
    return xs;
  }

  // sharing with the library, reconstructing from any t+1 shares
  void Share(bool big = false) {
    std::size_t t = 1 + r.Below(6), n = t + 1 + r.Below(8);
    if (big) {
      t = 7 + r.Below(70), n = t + 1 + r.Below(F.p < 300 ? 160 : 230);
      if (F.p < 300 && n > 245) n = 245;
    }
    u128 x = El();
    unsigned char sd[16];
    for (auto& b : sd) b = (unsigned char)r.Next();
    scl::PRG prg(sd);
    c.Begin(Str(name, " share secret ", Dec(x), " t=", t, " n=", n, " seed ", Hex(sd, 16), " r=", r.s));
    const auto sh = scl::CreateShamirShares(FromU<T>(x), n, t, prg);
    auto al = scl::CanonicalAlphas<T>(n);
    c.Check(sh.Size() == n && al.Size() == n, K("count"), "wrong number of shares or points");
    Co ys, as;
    for (std::size_t i = 0; i < n; i++) ys.push_back(ToInt(sh[i])), as.push_back(ToInt(al[i]));
    bool canon = true;
    for (std::size_t i = 0; i < n; i++) canon = canon && as[i] == (i + 1) % F.p;
    c.Check(canon, K("alphas"), "the canonical points are not 1..n");
    Co f = Interpolate(F, as, ys);
    c.Check(DegreeOf(f) <= (int)t, K("degree"), Str("the shares lie on a polynomial of degree ", DegreeOf(f), " > t"));
    c.Check(f[0] == x, K("secret"), "the sharing polynomial's constant term is not the secret");
    c.Check(ToInt(scl::ReconstructShamirPassive(sh, t)) == x, K("passive"), "reconstruction does not return the secret");
    {  // the same at points of the caller's choice
      Co xs = Points(n, r.Chance(1, 3)), zs;
      auto poly = scl::details::CreateShamirSharePolynomial(FromU<T>(x), t, prg);
      const auto pz = scl::CreateShamirShares(poly, V(xs));
      for (std::size_t i = 0; i < pz.Size(); i++) zs.push_back(ToInt(pz[i]));
      if (c.Check(zs.size() == n, K("count"), "wrong number of shares")) {
        std::size_t m = t + 1 + r.Below(n - t), lo = r.Below(n - m + 1);
        Co bx(xs.begin() + (long)lo, xs.begin() + (long)(lo + m)), by(zs.begin() + (long)lo, zs.begin() + (long)(lo + m));
        c.Check(ToInt(scl::ReconstructShamirPassive(V(by), V(bx), T(0), t)) == x, K("passive-points"), Str("shares at points ", S(bx), " do not return the secret"));
        Co g = Interpolate(F, xs, zs);
        c.Check(DegreeOf(g) <= (int)t && g[0] == x, K("points-poly"), Str("the shares at ", S(xs), " lie on another polynomial"));
        std::size_t j = r.Below(n);
        c.Check(ToInt(scl::ReconstructShamirPassive(V(by), V(bx), FromU<T>(xs[j]), t)) == zs[j], K("passive-share"), "another party's share is not what reconstruction at its point returns");
      }
    }
    // any t+1 (or more) shares in any order, at any position
    std::vector<std::size_t> id(n);
    for (std::size_t i = 0; i < n; i++) id[i] = i;
    for (std::size_t i = n; i-- > 1;) std::swap(id[i], id[r.Below(i + 1)]);
    std::size_t m = t + 1 + r.Below(n - t);
    Co sy, sx;
    for (std::size_t i = 0; i < m; i++) sy.push_back(ys[id[i]]), sx.push_back(as[id[i]]);
    u128 pos = r.Chance(1, 2) ? 0 : El();
    u128 want = Ev(f, pos);
    c.Check(ToInt(scl::ReconstructShamirPassive(V(sy), V(sx), FromU<T>(pos), t)) == want, K("passive-any"),
            Str("reconstruction at ", Dec(pos), " from shares ", S(sx), " is wrong"));
    if (n >= 2 * t + 1) {
      u128 g = 0;
      std::string e = Thrown([&] { g = ToInt(scl::ReconstructShamir(sh, t)); });
      c.Check(e.empty() && g == x, K("detect-honest"), Str("reconstruction with detection from correct shares fails: ", e));
    }
    if (n >= 3 * t + 1) {
      u128 g = 0;
      std::string e = Thrown([&] { g = ToInt(scl::ReconstructShamirRobust(sh, t)); });
      c.Check(e.empty() && g == x, K("robust-honest"), Str("robust reconstruction from correct shares fails: ", e));
    }
    auto few = [&](const std::function<void()>& fn, const char* what) {
      c.Check(Thrown(fn) != "", K(what), Str(what, " is not refused"));
      c.Count("refusals");
    };
    auto first = [&](const Co& v, std::size_t k) { return V(Co(v.begin(), v.begin() + (long)k)); };
    few([&] { (void)scl::ReconstructShamirPassive(first(ys, t), t); }, "too-few-passive");
    few([&] { (void)scl::ReconstructShamirPassive(V(ys), first(as, t), T(0), t); }, "too-few-points-passive");
    std::size_t k = n < 2 * t ? n : 2 * t, k3 = n < 3 * t ? n : 3 * t;
    few([&] { (void)scl::ReconstructShamir(first(ys, k), t); }, "too-few-detect");
    few([&] { (void)scl::ReconstructShamir(V(ys), first(as, k), T(0), t); }, "too-few-points-detect");
    few([&] { (void)scl::ReconstructShamirRobust(first(ys, k3), t); }, "too-few-robust");
    few([&] { (void)scl::ReconstructShamirRobust(V(ys), first(as, k3), t); }, "too-few-points-robust");
    c.End();
  }
  // any polynomial of degree at most t, any points, planted errors
  void Errors(bool big = false, std::size_t huge = 0) {
    std::size_t t = 1 + r.Below(F.p < 20 ? 1 : 5);
    bool robust = r.Chance(1, 2);
    if (big) t = 6 + r.Below(robust ? 24 : 60);
    if (huge) t = huge, robust = false;
    std::size_t need = robust ? 3 * t + 1 : 2 * t + 1, maxn = (std::size_t)(F.p < 300 ? F.p - 1 : 2000);
    std::size_t n = need + (r.Chance(1, 2) ? 0 : r.Below(4));
    if (n > maxn) n = maxn;
    if (n < need) return;
    bool canonical = r.Chance(1, 3);
    Co xs;
    if (canonical)
      for (std::size_t i = 0; i < n; i++) xs.push_back(i + 1);
    else
      xs = Points(n, r.Chance(1, 3));
    Co f(1 + r.Below(t + 1));
    for (auto& a : f) a = El();
    if (r.Chance(1, 10)) f.assign(1, 0);
    Co ys;
    for (auto x : xs) ys.push_back(Ev(f, x));
    std::size_t ne = r.Chance(1, 4) ? t : r.Below(t + 1);
    std::vector<bool> bad(n, false);
    int style = (int)r.Below(4);
    Co g = f;  // colluding errors: shares of another polynomial of degree at most t
    g.resize(t + 1, 0);
    for (auto& a : g) a = F.Add(a, El());
    u128 off = El();
    for (std::size_t k = 0; k < ne; k++) {
      std::size_t i = r.Chance(1, 5) ? n - 1 - k : r.Below(n);
      if (bad[i]) continue;
      u128 v = style == 0 ? EdgeValue(r, F.p, bits) : style == 1 ? F.Add(ys[i], 1) : style == 2 ? Ev(g, xs[i]) : F.Add(ys[i], off);
      if (r.Chance(1, 8)) v = 0;
      if (v != ys[i]) bad[i] = true;
      ys[i] = v;
    }
    std::size_t errs = 0, errs_in = 0;
    for (std::size_t i = 0; i < n; i++) errs += bad[i], errs_in += bad[i] && i < 3 * t + 1;
    c.Begin(Str(name, robust ? " robust" : " detecting", " t=", t, " n=", n, " errors=", errs, " f=", S(f), " x=", S(xs), " y=", S(ys)));
    u128 pos = r.Chance(1, 2) ? 0 : El();
    if (!robust) {
      u128 got = 0;
      bool zero = pos == 0 && canonical && r.Chance(1, 2);
      std::string e = Thrown([&] {
        got = zero ? ToInt(scl::ReconstructShamir(V(ys), t)) : ToInt(scl::ReconstructShamir(V(ys), V(xs), FromU<T>(pos), t));
      });
      if (errs) {
        c.Check(e != "", K("undetected"), Str(errs, " wrong shares are not detected"));
        c.Count("detected");
      } else {
        c.Check(e == "" && got == Ev(f, pos), K("detect-value"), Str("value ", Dec(got), " expected ", Dec(Ev(f, pos)), " ", e));
      }
    } else {
      std::string e = Thrown([&] {
        auto pe = scl::ReconstructShamirRobust(V(ys), V(xs), t);
        Co nf = f;
        while (nf.size() > 1 && !nf.back()) nf.pop_back();
        bool ok = pe[0].Degree() == nf.size() - 1;
        for (std::size_t i = 0; ok && i < nf.size(); i++) ok = ToInt(pe[0][i]) == nf[i];
        c.Check(ok, K("robust-poly"), Str("returns ", pe[0].ToString(), " instead of the shared polynomial"));
        bool loc = !pe[1].IsZero();
        for (std::size_t i = 0; loc && i < 3 * t + 1; i++) loc = (ToInt(pe[1].Evaluate(V(xs)[i])) == 0) == bad[i];
        c.Check(loc, K("robust-locator"), Str("the locator ", pe[1].ToString(), " does not have the wrong positions as roots"));
        c.Check(pe[1].Degree() == errs_in, K("robust-locator-degree"), Str("the locator has degree ", pe[1].Degree(), ", there are ", errs_in, " wrong shares"));
        if (canonical) c.Check(ToInt(scl::ReconstructShamirRobust(V(ys), t)) == Ev(f, 0), K("robust-secret"), "the corrected secret is wrong");
      });
      c.Check(e == "", K("robust-failed"), Str(errs, " wrong shares are not corrected: ", e));
      c.Count("corrected", errs_in);
      c.Count("robust");
    }
    c.End();
  }
  // more shares than needed, all consistent or one wrong beyond the first 2t+1
  void Go(u64 salt, double w) {
    r = c.MakeRng(salt);
    long n = c.N(14000 * w, 600000 * w);
    {
      c.Begin(Str(name, " threshold 0"));
      unsigned char seed[16] = {1};
      scl::PRG prg(seed);
      c.Check(Thrown([&] { (void)scl::details::CreateShamirSharePolynomial(FromU<T>(El()), 0, prg); }) != "", K("zero-threshold"), "a threshold of zero is not refused");
      c.End();
    }
    for (long i = 0; i < n; i++) {
      if (F.p > 20) Share();
      Errors();
      Errors();
    }
    if (F.p > 200 && c.scale > 0.01)
      for (long i = 0, m = c.N(80 * w, 4000 * w); i < m; i++) {
        Share(true);
        Errors(true);
        Errors(true);
      }
  }
};

int main(int argc, char** argv) {
  Ctx::I().Init(argc, argv);
  Run<SmallFF<7>>{"GF7", ModP{7}, 3}.Go(1, 1.5);
  Run<SmallFF<11>>{"GF11", ModP{11}, 4}.Go(2, 1.5);
  Run<SmallFF<251>>{"GF251", ModP{251}, 8}.Go(3, 1);
  Run<scl::FF<61>> f61{"FF61", ModP{P61()}, 61};
  f61.Go(4, 0.6);
  auto& c = Ctx::I();
  if (c.scale >= 1) {  // more parties than fit a byte
    c.case_timeout = 600;
    f61.r = c.MakeRng(6);
    f61.Errors(true, 257 + f61.r.Below(30));
    c.case_timeout = 120;
  }
  Run<scl::FF<127>>{"FF127", ModP{P127()}, 127}.Go(5, 0.04);
  return Ctx::I().Finish();
}
