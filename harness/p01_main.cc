// P01: secure evaluation gives every output owner exactly the circuit's value.
#include "proto.h"
using namespace vp;
extern "C" long long vp_prg_nonce() { return NonceNow(); }

static Ctx& c = Ctx::I();

static void One(Rng& r, std::size_t maxn, int size, std::size_t big = 0, int kind = 0, std::size_t crowd = 0) {
  Params p = crowd ? CrowdParams(r, crowd) : RandomParams(r, maxn);
  Spec s;
  bool synth = !big && r.Chance(1, 8);
  if (big) {
    s = BigSpec(r, p.n, p.k, big, kind);
  } else if (synth) {
    // the synthetic circuits the programs use
    s.n = p.n, s.k = p.k;
    std::size_t ni = 2 * (1 + r.Below(3)), width = ni * (1 + r.Below(3)), depth = 1 + r.Below(4), no = r.Below(width + 3);
    for (std::size_t i = 0; i < ni; i++) s.in_owner.push_back((int)(r.Chance(1, 2) ? 0 : r.Below(p.n)));
    std::sort(s.in_owner.begin(), s.in_owner.end());
    int prev = 0;
    std::size_t pn = ni;
    int id = (int)ni;
    for (std::size_t d = 0; d < depth; d++) {
      if (d) s.ops.push_back({kNewLayer});
      std::vector<int> made;
      for (std::size_t i = 0; i < width / 2; i++) {
        int x = prev + (int)((d ? 3 * (2 * i / 2) + 1 : 2 * i) % (d ? 1000000 : pn)), y = d ? x + 1 : prev + (int)((2 * i + 1) % pn);
        s.ops.push_back({kAdd, x, y});
        int a = id++;
        s.ops.push_back({kMult, x, a});
        s.ops.push_back({kMult, y, a});
        id += 2;
      }
      prev = id - (int)(3 * (width / 2));
    }
    for (std::size_t i = 0; i < no; i++) s.outs.push_back({(int)r.Below(p.n), prev + 1 + 3 * (int)((i % width) / 2) + (int)(i % 2)});
  } else
    s = RandomSpec(r, p.n, p.k, size);
  u64v in = RandomInputs(r, s);
  bool shipped = r.Chance(1, 6), order = r.Chance(1, 2), whole = p.n <= 12 && !big && r.Chance(1, 6);
  u64 seed = r.Next();
  c.Begin(Str("n=", p.n, " t=", p.t, shipped ? " shipped randomness" : "", order ? " any order" : "", whole ? " whole" : "", " seed ", seed, " ", s.Print(), " inputs", PrintVec(in)));
  Rng q(seed);
  g_nonce.clear();
  if (!shipped) FreshNonces(q, p.n);
  auto mesh = std::make_shared<Mesh>(p.n);
  std::vector<std::unique_ptr<MainParty>> ps;
  auto err = Thrown([&]() {
    for (std::size_t i = 0; i < p.n; i++) ps.push_back(std::make_unique<MainParty>(s, MeshNetwork(mesh, i), i));
    for (auto& x : ps) x->Correlate(p.t);
    Rng* o = order ? &q : nullptr;
    Lockstep(ps, MainPrep(), o);
    Lockstep(ps, MainFd(), o);
    auto parts = s.InputsPerParty(in);
    for (std::size_t i = 0; i < p.n; i++) ps[i]->SetInputs(parts[i]);
    if (whole) {
      auto e = OnlineTogether(*mesh, ps, s.Depth(), q.Next());
      if (!e.empty()) throw std::runtime_error(e);
      c.Count("whole_online_phases");
    } else
      Lockstep(ps, MainOnline(s.Depth()), o);
  });
  c.Check(err.empty(), "error", Str("the protocol stopped with ", err));
  if (err.empty()) {
    auto want = s.OutputsPerParty(in);
    for (std::size_t i = 0; i < p.n; i++) {
      auto got = ps[i]->Outputs(s);
      c.Check(got == want[i], "output", Str("party ", i, " obtains", PrintVec(got), " instead of", PrintVec(want[i])));
      c.Count("outputs", got.size());
    }
    c.Check(mesh->Left().empty(), "leftover", mesh->Left());
  }
  c.Count("multiplications", s.Mults());
  c.Count("runs");
  c.Max("max_parties", p.n);
  c.Max("max_multiplications", s.Mults());
  c.Max("max_depth", s.Depth());
  c.End(s.Mults() > 0 && !s.outs.empty());
}

int main(int argc, char** argv) {
  c.Init(argc, argv);
  Rng r = c.MakeRng(101);
  for (long i = 0, m = c.N(1500, 40000); i < m; i++) One(r, 5 + r.Below(8), 3);
  for (long i = 0, m = c.N(60, 1500); i < m; i++) One(r, 16 + r.Below(10), 6);
  for (long i = 0, m = c.N(8, 200); i < m; i++) One(r, 33, 20);
  // many gates of one kind, many layers
  for (long i = 0, m = c.N(32, 400); i < m; i++) One(r, 5 + r.Below(4), 0, r.Chance(1, 2) ? 250 + r.Below(20) : 257 + r.Below(700), (int)r.Below(4));
  if (c.scale >= 1 && c.shard < (c.thorough ? 4 : 3)) {
    c.case_timeout = 600;
    One(r, 5, 0, 65537 + r.Below(300), (c.shard + 2) % 4);
  }
  // many parties
  if (c.scale >= 1 && (c.thorough || c.shard >= 5)) {
    c.case_timeout = 600;
    double t0 = Ctx::Now();
    bool top = !c.thorough && c.shard == 7;
    One(r, 0, top ? 1 : 3, 0, 0, c.thorough ? 50 + r.Below(60) : top ? 65 + r.Below(5) : 45 + r.Below(25));
    c.Max("max_crowd_ms", (u64)(1000 * (Ctx::Now() - t0)));
  }
  return c.Finish();
}
