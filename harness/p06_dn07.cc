// P06: the baseline protocol gives every output owner exactly the circuit's value.
#include "proto.h"
using namespace vp;
extern "C" long long vp_prg_nonce() { return NonceNow(); }
static Ctx& c = Ctx::I();

static void One(Rng& r, std::size_t maxn, int size, std::size_t big = 0, int kind = 0, std::size_t crowd = 0, std::size_t low = 0) {
  std::size_t n = crowd ? crowd : 1 + r.Below(maxn), t = r.Below((n + 1) / 2), k = 1 + r.Below(4);
  if (r.Chance(1, 3)) t = (n - 1) / 2;
  if (low) t = 1 + r.Below(low);
  Spec s = big ? BigSpec(r, n, k, big, kind) : RandomSpec(r, n, k, size);
  while (low && s.in_owner.size() > 12) s = RandomSpec(r, n, k, size);
  u64v in = RandomInputs(r, s);
  bool dummy = (crowd > 256 && !low) || (!low && r.Chance(1, 4)), shipped = r.Chance(1, 6), order = r.Chance(1, 2), split = r.Chance(1, 2);
  u64 lambda = r.Chance(1, 4) ? 0 : RandValue(r), seed = r.Next();
  c.Begin(Str("n=", n, " t=", t, dummy ? Str(" simulated with ", lambda) : shipped ? std::string(" shipped randomness") : "", order ? " any order" : "", " seed ", seed, " ", s.Print(), " inputs",
              PrintVec(in)));
  Rng q(seed);
  g_nonce.clear();
  if (!shipped) FreshNonces(q, n);
  auto mesh = std::make_shared<Mesh>(n);
  std::vector<std::unique_ptr<DnParty>> ps;
  auto err = Thrown([&]() {
    for (std::size_t i = 0; i < n; i++) ps.push_back(std::make_unique<DnParty>(s, MeshNetwork(mesh, i), i, t));
    Rng* o = order ? &q : nullptr;
    if (dummy)
      for (auto& x : ps) lambda || q.Chance(1, 2) ? x->P().DummyPrep(E(lambda)) : x->P().DummyPrep();
    else
      Lockstep(ps, DnPrep(), o);
    c.Check(mesh->Left().empty(), "leftover-prep", mesh->Left());
    Lockstep(ps, DnFd(), o);
    auto parts = s.InputsPerParty(in);
    for (std::size_t i = 0; i < n; i++) ps[i]->SetInputs(parts[i]);
    Lockstep(ps, DnOnline(s.Depth(), split), o);
  });
  c.Check(err.empty(), "error", Str("the protocol stopped with ", err));
  if (err.empty()) {
    auto want = s.OutputsPerParty(in);
    for (std::size_t i = 0; i < n; i++) {
      auto got = ps[i]->Outputs(s);
      c.Check(got == want[i], dummy ? "simulated" : "output", Str("party ", i, " obtains", PrintVec(got), " instead of", PrintVec(want[i])));
      c.Count("outputs", got.size());
    }
    c.Check(mesh->Left().empty(), "leftover", mesh->Left());
  }
  c.Count("multiplications", s.Mults());
  c.Count(dummy ? "simulated" : "real");
  c.Max("max_parties", n);
  c.End(s.Mults() > 0 && !s.outs.empty());
}

int main(int argc, char** argv) {
  c.Init(argc, argv);
  Rng r = c.MakeRng(106);
  for (long i = 0, m = c.N(2500, 60000); i < m; i++) One(r, 9, 3);
  for (long i = 0, m = c.N(100, 2500); i < m; i++) One(r, 25, 12);
  // many gates of one kind, many layers
  for (long i = 0, m = c.N(40, 500); i < m; i++) One(r, 5, 3, r.Chance(1, 2) ? 250 + r.Below(20) : 257 + r.Below(700), (int)r.Below(4));
  if (c.scale >= 1 && c.shard < (c.thorough ? 4 : 3)) {
    c.case_timeout = 600;
    One(r, 5, 3, 65537 + r.Below(300), (c.shard + 2) % 4);
  }
  for (long i = 0, m = c.N(24, 200); i < m; i++) One(r, 0, 3, 0, 0, 257 + r.Below(30));
  // many parties
  if (c.scale >= 1 && (c.thorough || c.shard >= 5)) {
    c.case_timeout = 600;
    One(r, 0, 3, 0, 0, c.thorough ? 50 + r.Below(60) : 45 + r.Below(25));
  }
  // more, of which few may collude
  if (c.scale >= 1 && (c.thorough || c.shard == 3 || c.shard == 4)) {
    c.case_timeout = 600;
    double t0 = Ctx::Now();
    One(r, 0, 1, 0, 0, c.shard % 2 ? 101 + r.Below(40) : 257 + r.Below(15), 4);
    c.Max("max_crowd_ms", (u64)(1000 * (Ctx::Now() - t0)));
  }
  return c.Finish();
}
