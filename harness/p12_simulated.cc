// P12: simulated preprocessing leads to correct results for every mask value.
#include "proto.h"
using namespace vp;
extern "C" long long vp_prg_nonce() { return NonceNow(); }
static Ctx& c = Ctx::I();

static const char* kMode[] = {"constant", "zero", "set-populate-prep", "per-gate-masks", "correlator", "correlator-zero", "correlator-parts"};

static void One(Rng& r, std::size_t maxk, int size, std::size_t big = 0, int kind = 0, std::size_t crowd = 0) {
  std::size_t k = 1 + r.Below(maxk), n = crowd ? crowd : 2 * k - 1 + r.Below(6);
  Spec s = big ? BigSpec(r, n, k, big, kind) : RandomSpec(r, n, k, size);
  u64v in = RandomInputs(r, s);
  int mode = (int)r.Below(7);
  bool whole = n <= 12 && !big && r.Chance(1, 10);
  u64 lambda = RandValue(r), seed = r.Next();
  c.Begin(Str(kMode[mode], " n=", n, " mask ", lambda, whole ? " whole" : "", " seed ", seed, " ", s.Print(), " inputs", PrintVec(in)));
  Rng q(seed);
  FreshNonces(q, n);
  u64v masks;
  for (std::size_t i = 0; i < s.in_owner.size() + s.ops.size(); i++) masks.push_back(RandValue(q));
  auto mesh = std::make_shared<Mesh>(n);
  std::vector<std::unique_ptr<MainParty>> ps;
  auto err = Thrown([&]() {
    for (std::size_t i = 0; i < n; i++) ps.push_back(std::make_unique<MainParty>(s, MeshNetwork(mesh, i), i));
    for (auto& x : ps) {
      auto& C = x->P();
      AsParty as(x->id);
      switch (mode) {
        case 0: C._DummyPrep(E(lambda)); break;
        case 1: C._DummyPrep(); break;
        case 2:
          C.SetDummyLambdas(E(lambda));
          C.PopulateDummyLambdas();
          C.PrepFromDummyLambdas();
          break;
        case 3: {
          C.SetDummyLambdas(E(lambda));
          for (std::size_t i = 0; i < s.in_owner.size(); i++) C.GetInputGate(i)->SetLambda(E(masks[i]));
          std::size_t m = s.in_owner.size();
          for (auto& g : x->b.mults) g->SetDummyLambda(E(masks[m++]));
          C.PopulateDummyLambdas();
          C.PrepFromDummyLambdas();
          break;
        }
        case 4:
        case 5:
        case 6:
          C.GenCorrelator();
          if (mode == 4) C.PopulateDummyCorrelator(E(lambda));
          if (mode == 5) C.PopulateDummyCorrelator();
          if (mode == 6) C.GenIndShrsDummy(E(lambda)), C.GenMultBatchDummy(), C.GenIOBatchDummy();
      }
    }
    if (mode >= 4) Lockstep(ps, MainFd(), &q);
    c.Check(mesh->Left().empty(), "leftover-prep", mesh->Left());
    auto parts = s.InputsPerParty(in);
    for (std::size_t i = 0; i < n; i++) ps[i]->SetInputs(parts[i]);
    if (whole) {
      auto e = OnlineTogether(*mesh, ps, s.Depth(), q.Next());
      if (!e.empty()) throw std::runtime_error(e);
      c.Count("whole_online_phases");
    } else
      Lockstep(ps, MainOnline(s.Depth()), &q);
  });
  c.Check(err.empty(), Str("error:", kMode[mode]), Str("the protocol stopped with ", err));
  if (err.empty()) {
    auto want = s.OutputsPerParty(in);
    for (std::size_t i = 0; i < n; i++) {
      auto got = ps[i]->Outputs(s);
      c.Check(got == want[i], Str("output:", kMode[mode]), Str("party ", i, " obtains", PrintVec(got), " instead of", PrintVec(want[i])));
      c.Count("outputs", got.size());
    }
    c.Check(mesh->Left().empty(), "leftover", mesh->Left());
  }
  c.Count(kMode[mode]);
  c.Count("multiplications", s.Mults());
  c.End(s.Mults() > 0 && !s.outs.empty());
}

int main(int argc, char** argv) {
  c.Init(argc, argv);
  Rng r = c.MakeRng(112);
  for (long i = 0, m = c.N(4000, 100000); i < m; i++) One(r, 5, 3);
  for (long i = 0, m = c.N(100, 2500); i < m; i++) One(r, 12, 20);
  // more parties than fit a byte
  for (long i = 0, m = c.N(24, 200); i < m; i++) One(r, 4, 3, 0, 0, 257 + r.Below(30));
  // many gates of one kind, many layers
  for (long i = 0, m = c.N(40, 500); i < m; i++) One(r, 2, 3, r.Chance(1, 2) ? 250 + r.Below(20) : 257 + r.Below(700), (int)r.Below(4));
  if (c.scale >= 1 && c.shard < (c.thorough ? 4 : 3)) {
    c.case_timeout = 600;
    One(r, 2, 3, 65537 + r.Below(300), (c.shard + 3) % 4);
  }
  return c.Finish();
}
