// P04: a coalition of up to t parties learns nothing beyond its outputs.
#include "privacy.h"
using namespace vp;
extern "C" long long vp_prg_nonce() { return NonceNow(); }
static Ctx& c = Ctx::I();

// Where function-independent preprocessing only mixes what the parties sent,
// the quadratic test looks at the mixed values (fewer coordinates).
static u64v Mix(const Scenario& q, const u64v& v) {
  std::size_t n = q.n;
  if (v.size() % n) return v;
  u64v w;
  for (std::size_t b = 0; b < v.size(); b += n)
    for (std::size_t e = 0; e <= q.t; e++) {
      u64 s = 0;
      for (std::size_t i = 0; i < n; i++) s = AddP(s, MulP(PowP(i, e), v[b + i]));
      w.push_back(s);
    }
  return w;
}

static u64v View(const Scenario& q, const u64v& in, bool mix) {
  auto mesh = std::make_shared<Mesh>(q.n);
  mesh->record = true;
  std::vector<std::unique_ptr<MainParty>> ps;
  for (std::size_t i = 0; i < q.n; i++) ps.push_back(std::make_unique<MainParty>(q.s, MeshNetwork(mesh, i), i));
  for (auto& x : ps) x->Correlate(q.t);
  auto prep = MainPrep();
  u64v v;
  Lockstep(ps, std::vector<MStep>(prep.begin(), prep.begin() + 2));
  v = Join(q, *mesh);
  if (mix) v = Mix(q, v);
  Lockstep(ps, std::vector<MStep>(prep.begin() + 2, prep.end()));
  Lockstep(ps, MainFd());
  auto parts = q.s.InputsPerParty(in);
  for (std::size_t i = 0; i < q.n; i++) ps[i]->SetInputs(parts[i]);
  Lockstep(ps, MainOnline(q.s.Depth()));
  auto rest = Join(q, *mesh);
  v.insert(v.end(), rest.begin(), rest.end());
  return v;
}

static void One(Rng& r, bool quad, std::size_t maxn) {
  Params p{4, 1, 2};
  if (!quad) do p = RandomParams(r, maxn);
    while (p.t == 0);
  Scenario q;
  std::size_t est;
  do {
    q = MakeScenario(r, p.n, p.t, p.k, quad);
    std::size_t b = 0, io = 0;
    for (auto m : q.s.MultsPerLayer()) b += q.s.Batches(m);
    for (std::size_t i = 0; i < p.n; i++) io += q.s.Batches(q.s.InputsOf(i)) + q.s.Batches(q.s.OutputsOf(i));
    est = q.coalition.size() * p.n * (q.s.in_owner.size() + q.s.Mults() + 4 * p.k * b + 3 * b + io) / (p.t + 1);
  } while (!quad && est > 600);
  u64 seed = r.Next();
  c.Begin(Str(quad ? "quadratic " : "affine ", q.Print(), " seed ", seed));
  Rng s(seed);
  u64 runs = 0;
  std::size_t rank = 0;
  std::string why;
  auto err = Thrown([&]() {
    auto v = [&](const Scenario& a, const u64v& in) { return View(a, in, quad); };
    why = quad ? QuadraticHulls(q, s, v, &runs, &rank, 58) : AffineHulls(q, s, v, &runs, &rank);
  });
  c.Check(err.empty(), "error", Str("the protocol stopped with ", err));
  bool p1 = std::find(q.coalition.begin(), q.coalition.end(), 0u) != q.coalition.end();
  c.Check(why.empty(), Str(quad ? "quadratic" : "affine", p1 ? ":with-first-party" : ":without-first-party"), why);
  c.Count("runs", runs);
  c.Count(p1 ? "with-first-party" : "without-first-party");
  c.Count("coalition-outputs", q.coalition_outs);
  c.Count("how-" + q.how);
  c.Max("max_rank", rank);
  c.End();
}

int main(int argc, char** argv) {
  c.Init(argc, argv);
  bool quad = c.mode == "quadratic";
  Rng r = c.MakeRng(quad ? 1004 : 104);
  if (quad)
    for (long i = 0, m = c.N(16, 400); i < m; i++) One(r, true, 4);
  else
    for (long i = 0, m = c.N(128, 6000); i < m; i++) One(r, false, r.Chance(1, 4) ? 9 : 6);
  return c.Finish();
}
