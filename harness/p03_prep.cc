// P03: preprocessing yields consistent, fresh correlated randomness.
#include "proto.h"
#include "ref.h"
using namespace vp;
extern "C" long long vp_prg_nonce() { return NonceNow(); }
static Ctx& c = Ctx::I();

// The polynomial of degree < n through the n parties' shares, as a table of
// the linear maps from shares to its values and highest coefficients.
struct Codec {
  std::size_t n, k;
  std::vector<u64v> at;    // at[j][i]: weight of share i in the value at -j
  std::vector<u64v> coef;  // coef[d][i]: weight of share i in coefficient d
  Codec(std::size_t n_, std::size_t k_) : n(n_), k(k_) {
    ModP F;
    F.p = kP;
    std::vector<u128> xs;
    for (std::size_t i = 0; i < n; i++) xs.push_back(i + 1);
    coef.assign(n, u64v(n));
    at.assign(k, u64v(n));
    for (std::size_t i = 0; i < n; i++) {
      std::vector<u128> e(n, 0);
      e[i] = 1;
      auto f = Interpolate(F, xs, e);
      f.resize(n, 0);
      for (std::size_t d = 0; d < n; d++) coef[d][i] = (u64)f[d];
      for (std::size_t j = 0; j < k; j++) {
        u64 v = 0, p = 1;
        for (std::size_t d = 0; d < n; d++) v = AddP(v, MulP(coef[d][i], p)), p = MulP(p, NegP(j));
        at[j][i] = v;
      }
    }
  }
  static u64 Dot(const u64v& w, const u64v& s) {
    u64 v = 0;
    for (std::size_t i = 0; i < s.size(); i++) v = AddP(v, MulP(w[i], s[i]));
    return v;
  }
  u64 At(const u64v& s, std::size_t j) const { return Dot(at[j], s); }
  int Degree(const u64v& s) const {
    for (std::size_t d = n; d-- > 0;)
      if (Dot(coef[d], s)) return (int)d;
    return -1;
  }
};

struct Prep {
  std::vector<u64v> ind;  // per node (inputs and operations): shares
  std::vector<u64v> out;  // per output
  struct Batch {
    u64v a, b, c, o1, o2, o3;
  };
  std::vector<Batch> mult;
  std::vector<u64v> io;
  u64v in_mask, out_mask;  // as known by the owners
};

static u64v& Add(std::vector<u64v>& v, std::size_t i) {
  if (v.size() <= i) v.resize(i + 1);
  return v[i];
}

// Runs the preprocessing and collects everybody's correlations.
static Prep Run(const Spec& s, const Params& p, Rng* order) {
  auto mesh = std::make_shared<Mesh>(p.n);
  std::vector<std::unique_ptr<MainParty>> ps;
  for (std::size_t i = 0; i < p.n; i++) ps.push_back(std::make_unique<MainParty>(s, MeshNetwork(mesh, i), i));
  for (auto& x : ps) x->Correlate(p.t);
  Lockstep(ps, MainPrep(), order);
  Lockstep(ps, MainFd(), order);
  c.Check(mesh->Left().empty(), "leftover", mesh->Left());
  Prep r;
  for (std::size_t i = 0; i < p.n; i++) {
    auto& b = ps[i]->b;
    tp::Correlator cor = b.circuit.GetCorrelator();
    for (std::size_t g = 0; g < b.gates.size(); g++) Add(r.ind, g).push_back(U(cor.mMapIndShrs.at(b.gates[g])));
    for (std::size_t g = 0; g < b.outs.size(); g++) Add(r.out, g).push_back(U(cor.mMapIndShrs.at(b.outs[g])));
    // batches are told apart by the first gate they hold
    std::map<tp::Gate*, std::size_t> place;
    for (std::size_t g = 0; g < b.mults.size(); g++) place[b.mults[g].get()] = g;
    std::map<long, tp::MultBatchFIPrep> mb;
    for (auto& kv : cor.mMapMultBatch) {
      auto g = kv.first->GetMultGate(0);
      long at = g->IsPadding() ? -1 : (long)place.at(g.get());
      c.Check(mb.emplace(at, kv.second).second, "batch-twice", "two multiplication batches begin with the same gate");
    }
    std::size_t m = 0;
    for (auto& kv : mb) {
      if (r.mult.size() <= m) r.mult.resize(m + 1);
      auto& x = r.mult[m++];
      x.a.push_back(U(kv.second.mShrA)), x.b.push_back(U(kv.second.mShrB)), x.c.push_back(U(kv.second.mShrC));
      x.o1.push_back(U(kv.second.mShrO1)), x.o2.push_back(U(kv.second.mShrO2)), x.o3.push_back(U(kv.second.mShrO3));
    }
    std::map<tp::Gate*, long> inp, outp;
    for (std::size_t g = 0; g < s.in_owner.size(); g++) inp[b.gates[g].get()] = (long)g;
    for (std::size_t g = 0; g < b.outs.size(); g++) outp[b.outs[g].get()] = (long)g;
    std::map<std::pair<long, long>, u64> iob;
    for (auto& kv : cor.mMapInputBatch) {
      auto g = kv.first->GetInputGate(0);
      long o = (long)kv.first->GetOwner();
      c.Check(iob.emplace(std::make_pair(o, g->IsPadding() ? -1 : inp.at(g.get())), U(kv.second.mShrO)).second, "batch-twice", "two input batches begin with the same gate");
    }
    for (auto& kv : cor.mMapOutputBatch) {
      auto g = kv.first->GetOutputGate(0);
      long o = 1000000 + (long)kv.first->GetOwner();
      c.Check(iob.emplace(std::make_pair(o, g->IsPadding() ? -1 : outp.at(g.get())), U(kv.second.mShrO)).second, "batch-twice", "two output batches begin with the same gate");
    }
    m = 0;
    for (auto& kv : iob) Add(r.io, m++).push_back(kv.second);
  }
  for (std::size_t g = 0; g < s.in_owner.size(); g++) r.in_mask.push_back(U(ps[s.in_owner[g]]->b.gates[g]->GetDummyLambda()));
  for (std::size_t g = 0; g < s.outs.size(); g++) r.out_mask.push_back(U(ps[s.outs[g].first]->b.outs[g]->GetDummyLambda()));
  return r;
}

static bool Consistent(const Spec& s, const Params& p, const Codec& cd, const Prep& r) {
  u64 before = c.nviol;
  std::size_t n = p.n, k = p.k;
  auto want_batches = [&]() {
    std::size_t b = 0;
    for (auto m : s.MultsPerLayer()) b += s.Batches(m);
    return b;
  };
  c.Check(r.mult.size() == want_batches(), "batches", Str(r.mult.size(), " multiplication batches have preprocessing instead of ", want_batches()));
  std::size_t io = 0;
  for (std::size_t i = 0; i < n; i++) io += s.Batches(s.InputsOf(i)) + s.Batches(s.OutputsOf(i));
  c.Check(r.io.size() == io, "batches", Str(r.io.size(), " input and output batches have preprocessing instead of ", io));
  std::size_t ni = s.in_owner.size(), node = ni;
  auto mask = [&](const u64v& sh, const std::string& what) {
    int d = cd.Degree(sh);
    c.Check(d <= (int)(n - k), "mask-degree", Str(what, ": the shares of its mask have degree ", d, " > ", n - k));
    u64 v = cd.At(sh, 0);
    for (std::size_t j = 1; j < k; j++) c.Check(cd.At(sh, j) == v, "mask-positions", Str(what, ": its mask differs between positions 0 and ", j));
    return v;
  };
  for (std::size_t g = 0; g < ni; g++) {
    u64 v = mask(r.ind[g], Str("input ", g));
    c.Check(r.in_mask[g] == v, "input-owner", Str("the owner of input ", g, " knows another mask"));
  }
  for (auto& o : s.ops) {
    if (o.kind == kNewLayer) continue;
    u64 v = mask(r.ind[node], Str("node ", node));
    if (o.kind == kAdd)
      c.Check(v == AddP(cd.At(r.ind[o.a], 0), cd.At(r.ind[o.b], 0)), "add-mask", Str("the mask of addition ", node, " is not the sum of its operands' masks"));
    node++;
  }
  for (std::size_t g = 0; g < s.outs.size(); g++) {
    u64 v = mask(r.out[g], Str("output ", g));
    c.Check(v == cd.At(r.ind[s.outs[g].second], 0), "output-mask", Str("the mask of output ", g, " is not that of its wire"));
    c.Check(v == r.out_mask[g], "output-owner", Str("the owner of output ", g, " knows another mask"));
  }
  auto zero = [&](const u64v& sh, const char* what) {
    for (std::size_t j = 0; j < k; j++) c.Check(cd.At(sh, j) == 0, Str("zero:", what), Str("a sharing of zero (", what, ") does not vanish at position ", j));
  };
  for (auto& b : r.mult) {
    int d = std::max(cd.Degree(b.a), std::max(cd.Degree(b.b), cd.Degree(b.c)));
    c.Check(d <= (int)(p.t + k - 1), "factor-degree", Str("packed factors have degree ", d, " > ", p.t + k - 1));
    for (std::size_t j = 0; j < k; j++) c.Check(cd.At(b.c, j) == MulP(cd.At(b.a, j), cd.At(b.b, j)), "product", Str("c is not a*b at position ", j));
    zero(b.o1, "first"), zero(b.o2, "second"), zero(b.o3, "third");
  }
  for (auto& o : r.io) zero(o, "in/out");
  c.Count("wires", r.ind.size());
  c.Count("batches", r.mult.size() + r.io.size());
  return c.nviol == before;
}

static Spec MakeSpec(Rng& r, const Params& p, int size) {
  // at most one layer without multiplications: its batch cannot be told from
  // that of another one
  while (true) {
    Spec s = RandomSpec(r, p.n, p.k, size);
    int empty = 0;
    for (auto m : s.MultsPerLayer()) empty += m == 0;
    if (empty <= 1) return s;
  }
}

static void One(Rng& r, std::size_t maxn, int size) {
  Params p = RandomParams(r, maxn);
  Spec s = MakeSpec(r, p, size);
  bool shipped = r.Chance(1, 5);
  u64 seed = r.Next();
  c.Begin(Str("consistency n=", p.n, " t=", p.t, shipped ? " shipped randomness" : "", " seed ", seed, " ", s.Print()));
  Rng q(seed);
  g_nonce.clear();
  if (!shipped) FreshNonces(q, p.n);
  Codec cd(p.n, p.k);
  auto err = Thrown([&]() { Consistent(s, p, cd, Run(s, p, &q)); });
  c.Check(err.empty(), "error", Str("preprocessing stopped with ", err));
  c.End(s.Mults() > 0);
}

// All masks, factors and sharings of zero together with the shares of t
// parties: no affine relation holds over runs with fresh randomness, also when
// the randomness of those t parties stays the same.
static void Fresh(Rng& r, std::size_t maxn) {
  Params p;
  do p = RandomParams(r, maxn);
  while (p.t == 0);
  Spec s;
  std::size_t dim = 0, n = p.n, k = p.k, t = p.t;
  do {
    s = MakeSpec(r, p, 1);
    std::size_t b = 0, io = 0;
    for (auto m : s.MultsPerLayer()) b += s.Batches(m);
    for (std::size_t i = 0; i < n; i++) io += s.Batches(s.InputsOf(i)) + s.Batches(s.OutputsOf(i));
    dim = 1 + (s.in_owner.size() + s.Mults()) * (1 + t) + 2 * b * (k + t) + (3 * b + io) * (n - k);
  } while (dim > 420);
  std::vector<std::size_t> id(n);
  for (std::size_t i = 0; i < n; i++) id[i] = i;
  for (std::size_t i = 0; i < n; i++) std::swap(id[i], id[i + r.Below(n - i)]);
  id.resize(t);
  bool fixed = r.Chance(2, 3);
  u64 seed = r.Next();
  std::string who;
  for (auto i : id) who += Str(" ", i);
  c.Begin(Str("freshness n=", n, " t=", t, " parties", who, fixed ? " with fixed randomness" : "", " dimension ", dim, " seed ", seed, " ", s.Print()));
  Rng q(seed);
  Codec cd(n, k);
  RowSpace sp(dim);
  std::vector<long long> fix;
  for (std::size_t i = 0; i < n; i++) fix.push_back((long long)q.Next());
  std::map<std::string, RowSpace*> parts;
  RowSpace si(1 + (s.in_owner.size() + s.Mults()) * (1 + t));
  auto err = Thrown([&]() {
    std::size_t samples = dim + 6;
    for (std::size_t x = 0; x < samples; x++) {
      FreshNonces(q, n);
      if (fixed)
        for (auto i : id) g_nonce[i] = fix[i];
      Prep pr = Run(s, p, nullptr);
      if (x == 0) Consistent(s, p, cd, pr);
      u64v v = {1};
      std::size_t node = s.in_owner.size();
      auto wire = [&](std::size_t g) {
        v.push_back(cd.At(pr.ind[g], 0));
        for (auto i : id) v.push_back(pr.ind[g][i]);
      };
      for (std::size_t g = 0; g < node; g++) wire(g);
      for (auto& o : s.ops) {
        if (o.kind == kMult) wire(node);
        if (o.kind != kNewLayer) node++;
      }
      si.Insert(v);
      auto zero = [&](const u64v& o) {
        // the t parties' shares and enough others
        std::vector<bool> in(n, false);
        std::size_t m = 0;
        for (auto i : id)
          if (m < n - k) v.push_back(o[i]), in[i] = true, m++;
        for (std::size_t i = 0; i < n && m < n - k; i++)
          if (!in[i]) v.push_back(o[i]), m++;
      };
      for (auto& b : pr.mult) {
        for (auto f : {&b.a, &b.b}) {
          for (std::size_t j = 0; j < k; j++) v.push_back(cd.At(*f, j));
          for (auto i : id) v.push_back((*f)[i]);
        }
        zero(b.o1), zero(b.o2), zero(b.o3);
      }
      for (auto& o : pr.io) zero(o);
      if (v.size() != dim) throw std::runtime_error(Str("vp: ", v.size(), " values instead of ", dim));
      sp.Insert(v);
      c.Count("preprocessings");
    }
    c.Check(sp.Rank() == dim, fixed ? "freshness-fixed" : "freshness",
            Str("the correlated randomness satisfies ", dim - sp.Rank(), " affine relations (rank ", sp.Rank(), " of ", dim, " over ", samples, " runs; masks alone ", si.Rank(), ")"));
  });
  c.Check(err.empty(), "error", Str("preprocessing stopped with ", err));
  c.Max("max_dimension", dim);
  c.Count(fixed ? "coalition-fixed" : "all-fresh");
  c.End();
}

int main(int argc, char** argv) {
  c.Init(argc, argv);
  Rng r = c.MakeRng(103);
  if (c.mode == "fresh") {
    for (long i = 0, m = c.N(64, 2400); i < m; i++) Fresh(r, r.Chance(1, 3) ? 9 : 5);
  } else {
    for (long i = 0, m = c.N(800, 30000); i < m; i++) One(r, 5 + r.Below(9), 3);
    for (long i = 0, m = c.N(24, 600); i < m; i++) One(r, 24, 12);
  }
  return c.Finish();
}
