// P05: online traffic per link and phase is a function of the circuit alone.
#include "proto.h"
using namespace vp;
extern "C" long long vp_prg_nonce() { return NonceNow(); }
static Ctx& c = Ctx::I();

static void One(Rng& r, std::size_t maxn, int size, std::size_t big = 0, int kind = 0) {
  bool dummy = r.Chance(2, 3);
  Params p = RandomParams(r, maxn);
  if (dummy) {  // any n large enough for the packing
    p.k = 1 + r.Below(6);
    p.n = 2 * p.k - 1 + r.Below(8);
  }
  Spec s = big ? BigSpec(r, p.n, p.k, big, kind) : RandomSpec(r, p.n, p.k, size);
  u64 seed = r.Next();
  int runs = 1 + (int)r.Below(2);
  bool whole = p.n <= 12 && !big && r.Chance(1, 8);
  c.Begin(Str("n=", p.n, dummy ? " simulated preprocessing" : Str(" t=", p.t), " runs ", runs, whole ? " whole" : "", " seed ", seed, " ", s.Print()));
  Rng q(seed);
  const u64 B = FF::ByteSize();
  auto layers = s.MultsPerLayer();
  for (int run = 0; run < runs; run++) {
    FreshNonces(q, p.n);
    u64v in = RandomInputs(q, s);
    auto mesh = std::make_shared<Mesh>(p.n);
    std::vector<std::unique_ptr<MainParty>> ps;
    auto err = Thrown([&]() {
      for (std::size_t i = 0; i < p.n; i++) ps.push_back(std::make_unique<MainParty>(s, MeshNetwork(mesh, i), i));
      if (dummy) {
        FF l = E(RandValue(q));
        for (auto& x : ps) x->P()._DummyPrep(l);
      } else {
        for (auto& x : ps) x->Correlate(p.t);
        Lockstep(ps, MainPrep());
        Lockstep(ps, MainFd());
      }
      c.Check(mesh->Left().empty(), "leftover-prep", mesh->Left());
      auto parts = s.InputsPerParty(in);
      for (std::size_t i = 0; i < p.n; i++) ps[i]->SetInputs(parts[i]);
      auto base = mesh->Sent();
      auto phase = [&](const std::string& name, const std::vector<u64>& want) {
        auto now = mesh->Sent();
        for (std::size_t i = 0; i < p.n; i++)
          for (std::size_t j = 0; j < p.n; j++) {
            u64 d = now[i * p.n + j] - base[i * p.n + j], w = want[i * p.n + j];
            c.Check(d == w, Str("bytes-", name[0] == 'l' ? "mult" : name), Str(name, ": ", d, " bytes from ", i, " to ", j, " instead of ", w));
          }
        c.Check(mesh->Left().empty(), "leftover", Str(name, ": ", mesh->Left()));
        base = now;
        c.Count("phases");
      };
      auto steps = MainOnline(s.Depth());
      std::size_t at = 0;
      auto run_steps = [&](std::size_t k) {
        Lockstep(ps, std::vector<MStep>(steps.begin() + at, steps.begin() + at + k), &q);
        at += k;
      };
      std::vector<u64> w(p.n * p.n, 0);
      if (whole) {
        for (int o : s.in_owner) w[o * p.n] += B;
        for (auto m : layers)
          for (std::size_t i = 0; i < p.n; i++) w[i] += 2 * B * s.Batches(m), w[i * p.n] += B * s.Batches(m);
        for (auto& o : s.outs) w[o.first] += B;
        auto e = OnlineTogether(*mesh, ps, s.Depth(), q.Next());
        if (!e.empty()) throw std::runtime_error(e);
        phase("whole", w);
        c.Count("whole_online_phases");
        return;
      }
      for (int o : s.in_owner) w[o * p.n] += B;
      run_steps(2);
      phase("input", w);
      for (std::size_t l = 0; l < layers.size(); l++) {
        w.assign(p.n * p.n, 0);
        u64 b = s.Batches(layers[l]);
        for (std::size_t i = 0; i < p.n; i++) w[i] += 2 * B * b, w[i * p.n] += B * b;
        run_steps(4);
        phase(Str("layer-", l), w);
        c.Count("batches", b);
      }
      w.assign(p.n * p.n, 0);
      for (auto& o : s.outs) w[o.first] += B;
      run_steps(2);
      phase("output", w);
    });
    c.Check(err.empty(), "error", Str("the protocol stopped with ", err));
    c.Count("runs");
  }
  c.End(s.Mults() > 0);
}

int main(int argc, char** argv) {
  c.Init(argc, argv);
  Rng r = c.MakeRng(105);
  for (long i = 0, m = c.N(2500, 60000); i < m; i++) One(r, 10, 3);
  for (long i = 0, m = c.N(60, 1500); i < m; i++) One(r, 20, 30);
  // many gates of one kind, many layers
  for (long i = 0, m = c.N(40, 500); i < m; i++) One(r, 6, 3, r.Chance(1, 2) ? 250 + r.Below(20) : 257 + r.Below(700), (int)r.Below(4));
  if (c.scale >= 1 && c.shard < (c.thorough ? 4 : 3)) {
    c.case_timeout = 600;
    One(r, 6, 3, 65537 + r.Below(300), (c.shard + 0) % 4);
  }
  return c.Finish();
}
