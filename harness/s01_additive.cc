// S01: additive sharing.
#include "ref.h"
#include "scl/math/z2k.h"
#include "scl/ss/additive.h"
#include "smallff.h"
#include "stats.h"
using namespace vp;

struct Alg {
  u128 p = 0;
  unsigned k = 0;
  u128 M(u128 x) const { return k == 128 ? x : x & (((u128)1 << k) - 1); }
  u128 Add(u128 a, u128 b) const { return p ? ModP{p}.Add(a, b) : M(a + b); }
};

template <typename T>
struct Run {
  const char* name;
  Alg A;
  unsigned bits;
  bool large;
  Ctx& c = Ctx::I();
  Rng r{0};

  scl::PRG Prg() {
    unsigned char s[16];
    for (auto& b : s) b = (unsigned char)r.Next();
    return scl::PRG(s);
  }
  u128 El() { return A.p ? EdgeValue(r, A.p, bits) : A.M(r.Chance(1, 3) ? r.Below(3) - 1 : r.Next128()); }

  void Correct(long cnt) {
    for (long i = 0; i < cnt; i++) {
      std::size_t n = r.Chance(1, 10) ? 1 + r.Below(100) : 1 + r.Below(10);
      if (i < 4) n = 250 + r.Below(800);
      if (i == 4) n = 65530 + r.Below(400);
      u128 x = El();
      scl::PRG prg = Prg();
      int pre = (int)r.Below(4);
      c.Begin(Str(name, " secret ", Dec(x), " n=", n, " pre=", pre, " r=", r.s));
      for (int j = 0; j < pre; j++) (void)T::Random(prg);
      const T s = FromU<T>(x);
      auto a = scl::CreateAdditiveShares(s, n, prg), b = scl::CreateAdditiveShares(s, n, prg);
      c.Check(a.Size() == n && b.Size() == n, Str("count:", name), "wrong number of shares");
      u128 t = 0, u = 0;
      for (std::size_t j = 0; j < a.Size(); j++) t = A.Add(t, ToInt(a[j])), u = A.Add(u, ToInt(b[j]));
      c.Check(t == x && u == x, Str("sum:", name), Str("the shares sum to ", Dec(t), " and ", Dec(u), ", not to the secret"));
      c.Check(ToInt(scl::ReconstructAdditive(a)) == x && scl::ReconstructAdditive(b) == s, Str("reconstruct:", name), "reconstruction does not return the secret");
      if (n > 1 && large) {
        long same = 0;
        for (std::size_t j = 0; j < n; j++) same += a[j] == b[j];
        c.Check(!same, Str("fresh:", name), "sharing again repeats a share");
        bool sec = false;
        for (std::size_t j = 0; j < n; j++) sec = sec || ToInt(a[j]) == x;
        c.Check(!sec, Str("hidden:", name), "a share equals the secret");
      }
      // linear: sums of shares share the sum
      u128 y = El();
      auto d = a.Add(scl::CreateAdditiveShares(FromU<T>(y), n, prg));
      c.Check(ToInt(scl::ReconstructAdditive(d)) == A.Add(x, y), Str("linear:", name), "the sum of two sharings does not share the sum");
      c.Check(Thrown([&] { (void)scl::CreateAdditiveShares(s, 0, prg); }) != "", Str("zero-parties:", name), "sharing among zero parties is not refused");
      c.End(n > 1);
    }
  }
  // n-1 shares of two consecutive sharings: no affine relation, uniform bits
  void Hidden(long cnt) {
    for (long i = 0; i < cnt; i++) {
      std::size_t n = 2 + r.Below(6), miss = r.Below(n), miss2 = r.Below(n);
      u128 x = El();
      scl::PRG prg = Prg();
      std::size_t dim = 2 * (n - 1) + 1;
      c.Begin(Str(name, " independence of n-1 shares: secret ", Dec(x), " n=", n, " left out ", miss, ",", miss2, " r=", r.s));
      RowSpace sp(dim);
      BitStat bs(bits);
      for (std::size_t k = 0; k < dim + 40; k++) {
        auto a = scl::CreateAdditiveShares(FromU<T>(x), n, prg), b = scl::CreateAdditiveShares(FromU<T>(x), n, prg);
        std::vector<u64> v = {1};
        for (std::size_t j = 0; j < n; j++)
          if (j != miss) v.push_back((u64)(ToInt(a[j]) % F61::P)), bs.Add(ToInt(a[j]));
        for (std::size_t j = 0; j < n; j++)
          if (j != miss2) v.push_back((u64)(ToInt(b[j]) % F61::P)), bs.Add(ToInt(b[j]));
        sp.Insert(v);
      }
      c.Check(sp.Rank() == dim, Str("relation:", name), Str("n-1 shares of two sharings satisfy an affine relation: rank ", sp.Rank(), " of ", dim));
      unsigned at = 0;
      double w = bs.Worst(&at);
      c.Check(w < 8.5, Str("bias:", name), Str("bit ", at, " of the shares is biased (", w, " standard deviations)"));
      c.Count("sharings", 2 * (dim + 40));
      c.End();
    }
  }
  // exact joint distribution over a small ring
  void Uniform(unsigned q, std::size_t n, long samples) {
    for (std::size_t miss = 0; miss < n; miss++)
      for (unsigned x = 0; x < q; x += (x == 0 || q < 5 ? 1 : q - 2)) {
        scl::PRG prg = Prg();
        c.Begin(Str(name, " distribution of n-1 shares: secret ", x, " n=", n, " left out ", miss, " samples ", samples, " r=", r.s));
        std::size_t cells = 1;
        for (std::size_t j = 1; j < n; j++) cells *= q;
        std::vector<long> h(cells, 0), pairs(q * q, 0);
        u128 prev = 0;
        for (long k = 0; k < samples; k++) {
          auto a = scl::CreateAdditiveShares(FromU<T>(x), n, prg);
          std::size_t id = 0;
          u128 lastv = 0;
          for (std::size_t j = 0; j < n; j++)
            if (j != miss) lastv = ToInt(a[j]), id = id * q + (std::size_t)lastv;
          h[id]++;
          pairs[(std::size_t)(prev * q + lastv)]++;
          prev = lastv;
        }
        double z = ChiZ(h), z2 = ChiZ(pairs);
        c.Check(z < 7, Str("distribution:", name), Str("n-1 shares are not uniform (score ", z, ")"));
        c.Check(z2 < 7, Str("serial:", name), Str("shares of successive sharings are not independent (score ", z2, ")"));
        c.Count("sharings", samples);
        c.End();
      }
  }
};

int main(int argc, char** argv) {
  Ctx& c = Ctx::I();
  c.Init(argc, argv);
  auto go = [&](auto run, u64 salt, double w) {
    run.r = c.MakeRng(salt);
    run.Correct(c.N(20000 * w, 800000 * w));
    if (run.large) run.Hidden(c.N(400 * w, 8000 * w));
  };
  go(Run<scl::FF<61>>{"FF61", Alg{P61()}, 61, true}, 1, 1);
  go(Run<scl::FF<127>>{"FF127", Alg{P127()}, 127, true}, 2, 0.5);
  go(Run<scl::Z2k<64>>{"Z2k64", Alg{0, 64}, 64, true}, 3, 0.5);
  go(Run<scl::Z2k<128>>{"Z2k128", Alg{0, 128}, 128, true}, 4, 0.3);
  go(Run<scl::Z2k<57>>{"Z2k57", Alg{0, 57}, 57, true}, 5, 0.3);
  go(Run<WideFF<7>>{"GF7", Alg{7, 3}, 3, false}, 6, 0.3);
  go(Run<scl::Z2k<3>>{"Z2k3", Alg{0, 3}, 3, false}, 7, 0.3);
  go(Run<scl::Z2k<1>>{"Z2k1", Alg{0, 1}, 1, false}, 8, 0.3);
  long s = c.thorough ? 400000 : 12000;
  for (std::size_t n = 2; n <= 4; n++) {
    Run<WideFF<7>> a{"GF7", Alg{7, 3}, 3, false};
    a.r = c.MakeRng(100 + n);
    a.Uniform(7, n, s);
    Run<scl::Z2k<3>> b{"Z2k3", Alg{0, 3}, 3, false};
    b.r = c.MakeRng(200 + n);
    b.Uniform(8, n, s);
    Run<scl::Z2k<1>> d{"Z2k1", Alg{0, 1}, 1, false};
    d.r = c.MakeRng(300 + n);
    d.Uniform(2, n, s);
  }
  return c.Finish();
}
