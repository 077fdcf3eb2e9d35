// P07: the baseline protocol hides inputs from any coalition of up to t parties.
#include "privacy.h"
using namespace vp;
extern "C" long long vp_prg_nonce() { return NonceNow(); }
static Ctx& c = Ctx::I();

static u64v View(const Scenario& q, const u64v& in) {
  auto mesh = std::make_shared<Mesh>(q.n);
  mesh->record = true;
  std::vector<std::unique_ptr<DnParty>> ps;
  for (std::size_t i = 0; i < q.n; i++) ps.push_back(std::make_unique<DnParty>(q.s, MeshNetwork(mesh, i), i, q.t));
  Lockstep(ps, DnPrep());
  auto v = Join(q, *mesh);
  Lockstep(ps, DnFd());
  auto parts = q.s.InputsPerParty(in);
  for (std::size_t i = 0; i < q.n; i++) ps[i]->SetInputs(parts[i]);
  Lockstep(ps, DnOnline(q.s.Depth(), false));
  auto rest = Join(q, *mesh);
  v.insert(v.end(), rest.begin(), rest.end());
  return v;
}

static void One(Rng& r, bool quad) {
  std::size_t n = quad ? 3 : 3 + r.Below(6), t = quad ? 1 : 1 + r.Below((n - 1) / 2);
  Scenario q = MakeScenario(r, n, t, 1 + r.Below(3), quad);
  u64 seed = r.Next();
  c.Begin(Str(quad ? "quadratic " : "affine ", q.Print(), " seed ", seed));
  Rng s(seed);
  u64 runs = 0;
  std::size_t rank = 0;
  std::string why;
  auto err = Thrown([&]() { why = quad ? QuadraticHulls(q, s, View, &runs, &rank, 40) : AffineHulls(q, s, View, &runs, &rank); });
  c.Check(err.empty(), "error", Str("the protocol stopped with ", err));
  bool p1 = std::find(q.coalition.begin(), q.coalition.end(), 0u) != q.coalition.end();
  c.Check(why.empty(), Str(quad ? "quadratic" : "affine", p1 ? ":with-first-party" : ":without-first-party"), why);
  c.Count("runs", runs);
  c.Count(p1 ? "with-first-party" : "without-first-party");
  c.Count("coalition-outputs", q.coalition_outs);
  c.Count("how-" + q.how);
  c.Max("max_rank", rank);
  c.End();
}

int main(int argc, char** argv) {
  c.Init(argc, argv);
  bool quad = c.mode == "quadratic";
  Rng r = c.MakeRng(quad ? 1007 : 107);
  for (long i = 0, m = quad ? c.N(160, 6000) : c.N(400, 12000); i < m; i++) One(r, quad);
  return c.Finish();
}
