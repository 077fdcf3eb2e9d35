// S04: shares below the threshold are uniform and independent of the secret.
#include "ref.h"
#include "scl/ss/packed.h"
#include "scl/ss/shamir.h"
#include "smallff.h"
#include "stats.h"
using namespace vp;
namespace sd = scl::details;

template <typename T>
static scl::Vec<T> Shares(int kind, const scl::Vec<T>& sec, std::size_t n, std::size_t d, std::size_t at, scl::PRG& prg) {
  switch (kind) {
    case 0: return scl::CreateShamirShares(T(sec[0]), n, d, prg);
    case 1: return sd::SharesFromEvPoly(sd::EvPolyFromSecretsAndDegree(sec, d, prg), n);
    case 2: return sd::SharesFromEvPoly(sd::EvPolyFromSecretAndDegree(T(sec[0]), d, prg), n);
    case 3: return sd::SharesFromEvPoly(sd::EvPolyFromSecretAndPointAndDegree(T(sec[0]), T(-(int)at), d, prg), n);
    default: {
      // secrets at -i, other points above n
      scl::Vec<T> xs;
      for (std::size_t i = 0; i <= d; i++) xs.Emplace(i < sec.Size() ? T(-(int)i) : T((int)(n + i)));
      return sd::SharesFromEvPoly(sd::EvPolyFromSecretsAndPoints(sec, xs, prg), n);
    }
  }
}
static const char* kKind[] = {"shamir", "packed", "single", "single-at", "points"};

static std::vector<std::size_t> Subset(Rng& r, std::size_t n, std::size_t m) {
  std::vector<std::size_t> id(n);
  for (std::size_t i = 0; i < n; i++) id[i] = i;
  for (std::size_t i = 0; i < m; i++) std::swap(id[i], id[i + r.Below(n - i)]);
  id.resize(m);
  return id;
}

static scl::PRG Prg(Rng& r) {
  unsigned char s[16];
  for (auto& b : s) b = (unsigned char)r.Next();
  return scl::PRG(s);
}

// Large field: the largest allowed set of shares of two successive sharings
// satisfies no affine relation, its entries have unbiased bits, and no
// coefficient of the polynomials is constant or repeated.
template <typename T>
static void Ranks(const char* name, const ModP& F, unsigned bits, Rng r, long cnt) {
  Ctx& c = Ctx::I();
  for (long it = 0; it < cnt; it++) {
    int kind = (int)r.Below(5);
    bool packed = kind == 1 || kind == 4;
    std::size_t k = packed ? 1 + r.Below(5) : 1;
    std::size_t d = k - 1 + 1 + r.Below(6), n = d + 1 + r.Below(5), at = r.Below(4);
    std::size_t m = packed ? d + 1 - k : d;
    scl::Vec<T> sec, sec2;
    std::string desc;
    for (std::size_t i = 0; i < k; i++) {
      u128 a = EdgeValue(r, F.p, bits), b = r.Chance(1, 2) ? a : EdgeValue(r, F.p, bits);
      sec.Emplace(FromU<T>(a)), sec2.Emplace(FromU<T>(b));
      desc += Dec(a) + " ";
    }
    auto id = Subset(r, n, m), id2 = r.Chance(1, 2) ? id : Subset(r, n, m);
    c.Begin(Str(name, " ", kKind[kind], " k=", k, " d=", d, " n=", n, " secrets ", desc, " r=", r.s));
    scl::PRG prg = Prg(r);
    std::size_t dim = 2 * m + 1, samples = dim + 24;
    RowSpace sp(dim);
    BitStat bs(bits);
    std::unordered_set<u64> seen;
    long rep = 0;
    std::vector<u128> pts;
    for (std::size_t i = 0; i < n; i++) pts.push_back(i + 1);
    std::vector<std::unordered_set<u64>> coef(d + 1);
    for (std::size_t s = 0; s < samples; s++) {
      auto x = Shares<T>(kind, sec, n, d, at, prg), y = Shares<T>(kind, sec2, n, d, at, prg);
      std::vector<u64> v = {1};
      for (auto i : id) {
        v.push_back((u64)(ToInt(x[i]) % F61::P)), bs.Add(ToInt(x[i]));
        rep += !seen.insert((u64)ToInt(x[i]) * 2654435761u + i).second;
      }
      for (auto i : id2) {
        v.push_back((u64)(ToInt(y[i]) % F61::P)), bs.Add(ToInt(y[i]));
        rep += !seen.insert((u64)ToInt(y[i]) * 2654435761u + i).second;
      }
      sp.Insert(v);
      if (s < 4) {
        std::vector<u128> ys;
        for (std::size_t i = 0; i < n; i++) ys.push_back(ToInt(x[i]));
        auto f = Interpolate(F, pts, ys);
        for (std::size_t i = 1; i <= d; i++) {
          if (packed && k > 1 && i < k) continue;  // may depend on the others, still not constant
          c.Check(coef[i].insert((u64)f[i] ^ (u64)(f[i] >> 64)).second, Str("coefficient:", kKind[kind], ":", name), Str("coefficient ", i, " repeats across sharings"));
        }
        c.Check(f[d] != 0, Str("top-coefficient:", kKind[kind], ":", name), "the leading coefficient is zero");
      }
    }
    c.Check(sp.Rank() == dim, Str("relation:", kKind[kind], ":", name),
            Str(m, " shares of two successive sharings satisfy an affine relation: rank ", sp.Rank(), " of ", dim));
    unsigned b = 0;
    double w = m ? bs.Worst(&b) : 0;
    c.Check(w < 8.5, Str("bias:", kKind[kind], ":", name), Str("bit ", b, " of the shares is biased (", w, " standard deviations)"));
    c.Check(!rep, Str("repeat:", kKind[kind], ":", name), Str(rep, " shares repeat"));
    c.Count("sharings", 2 * samples);
    c.End(m > 0);
  }
}

// Small field: joint distribution of the largest allowed set of shares, for
// several secrets, and of successive sharings.
template <unsigned P>
static void Exact(Rng r, long cnt, long samples) {
  Ctx& c = Ctx::I();
  using T = WideFF<P>;
  for (long it = 0; it < cnt; it++) {
    int kind = (int)r.Below(5);
    bool packed = kind == 1 || kind == 4;
    std::size_t k = packed ? 1 + r.Below(3) : 1;
    std::size_t m = 1 + r.Below(2);
    std::size_t d = packed ? m + k - 1 : m, at = r.Below(2);
    // the points 1..n, 0..-(k-1) (and n+1.. for "points") are distinct modulo P
    std::size_t n = d + 1 + r.Below(2);
    if ((kind == 4 ? n + d + k : n + k + 1) > P || d + 2 > P) continue;
    scl::Vec<T> sec;
    std::string desc;
    for (std::size_t i = 0; i < k; i++) {
      int v = (int)r.Below(P);
      sec.Emplace(T(v));
      desc += Str(v, " ");
    }
    auto id = Subset(r, n, m);
    c.Begin(Str("GF", P, " ", kKind[kind], " k=", k, " d=", d, " n=", n, " secrets ", desc, " share ", id[0], " samples ", samples, " r=", r.s));
    scl::PRG prg = Prg(r);
    std::size_t cells = m == 1 ? P : P * P;
    std::vector<long> h(cells, 0), ser(P * P, 0);
    u128 prev = 0;
    for (long s = 0; s < samples; s++) {
      auto x = Shares<T>(kind, sec, n, d, at, prg);
      std::size_t cell = 0;
      for (auto i : id) cell = cell * P + (std::size_t)ToInt(x[i]);
      h[cell]++;
      ser[(std::size_t)(prev * P + ToInt(x[id[0]]))]++;
      prev = ToInt(x[id[0]]);
    }
    double z = ChiZ(h), z2 = ChiZ(ser);
    c.Check(z < 7, Str("distribution:", kKind[kind], ":GF", P), Str(m, " shares are not uniform (score ", z, ")"));
    c.Check(z2 < 7, Str("serial:", kKind[kind], ":GF", P), Str("successive sharings are not independent (score ", z2, ")"));
    c.Count("sharings", samples);
    c.End();
  }
}

int main(int argc, char** argv) {
  Ctx& c = Ctx::I();
  c.Init(argc, argv);
  Ranks<scl::FF<61>>("FF61", ModP{P61()}, 61, c.MakeRng(1), c.N(3000, 100000));
  Ranks<scl::FF<127>>("FF127", ModP{P127()}, 127, c.MakeRng(2), c.N(64, 1600));
  long s = c.thorough ? 60000 : 6000;
  Exact<7>(c.MakeRng(3), c.N(160, 2400), s);
  Exact<11>(c.MakeRng(4), c.N(160, 2400), s);
  Exact<13>(c.MakeRng(5), c.N(160, 2400), s);
  return c.Finish();
}
