// P10: invalid parameters and out-of-order use are refused.
#include "proto.h"
using namespace vp;
extern "C" long long vp_prg_nonce() { return NonceNow(); }
static Ctx& c = Ctx::I();

#define REFUSED(key, what, ...) c.Check(!Thrown([&]() { __VA_ARGS__; }).empty(), key, Str(what, " was not refused"))
#define ALLOWED(key, what, ...)                                                   \
  do {                                                                            \
    auto e_ = Thrown([&]() { __VA_ARGS__; });                                     \
    c.Check(e_.empty(), key, Str(what, " failed with ", e_));                     \
  } while (0)

static Spec Tiny(std::size_t n, std::size_t k) {
  Spec s;
  s.n = n, s.k = k;
  s.in_owner = {0, (int)(n - 1)};
  s.ops = {{kMult, 0, 1}};
  s.outs = {{0, 2}};
  return s;
}

static void Thresholds(std::size_t maxn) {
  for (std::size_t n = 1; n <= maxn; n++) {
    auto mesh = std::make_shared<Mesh>(n);
    for (std::size_t k = 1; k <= n / 2 + 3; k++) {
      for (std::size_t t = 0; t <= n + 2; t++) {
        if ((n * 31 + k * 7 + t) % c.nshards != c.shard) continue;
        c.Begin(Str("threshold n=", n, " k=", k, " t=", t));
        bool ok = n == t + 2 * (k - 1) + 1 && 2 * t < n;
        Spec s = Tiny(n, k);
        auto err = Thrown([&]() {
          MainParty p(s, MeshNetwork(mesh, 0), 0);
          p.b.circuit.GenCorrelator();
          auto e = Thrown([&]() { p.b.circuit.SetThreshold(t); });
          c.Check(e.empty() == ok, ok ? "threshold:refused" : "threshold:accepted", Str("threshold ", t, " with n=", n, " k=", k, ok ? " is refused: " + e : std::string(" is accepted")));
        });
        c.Check(err.empty(), "setup", err);
        c.Count(ok ? "valid" : "invalid");
        if (k == 1) {
          auto e = Thrown([&]() { tp::DN07 d(n, t); });
          bool dok = 2 * t < n;
          c.Check(e.empty() == dok, dok ? "dn07:refused" : "dn07:accepted", Str("baseline threshold ", t, " with n=", n, dok ? " is refused: " + e : std::string(" is accepted")));
          c.Count("baseline");
        }
        c.End(!ok);
      }
    }
  }
}

static void Order(Rng& r) {
  Params p = RandomParams(r, 9);
  Spec s = RandomSpec(r, p.n, p.k, 3);
  c.Begin(Str("order n=", p.n, " t=", p.t, " ", s.Print(), " r=", r.s));
  auto mesh = std::make_shared<Mesh>(p.n);
  std::size_t me = r.Below(p.n);
  auto net = MeshNetwork(mesh, me);
  {
    // not closed yet
    tp::Circuit C(p.n, p.k);
    REFUSED("unclosed", "setting a network on an empty, unclosed circuit", C.SetNetwork(net, me));
    auto a = C.Input(0);
    REFUSED("unclosed", "setting a network on an unclosed circuit", C.SetNetwork(net, me));
    C.CloseInputs();
    REFUSED("unclosed", "setting a network before the outputs are closed", C.SetNetwork(net, me));
    auto m = C.Mult(a, a);
    C.LastLayer();
    C.Output(0, m);
    REFUSED("unclosed", "setting a network before the outputs are closed", C.SetNetwork(net, me));
    REFUSED("no-network", "generating correlations before a network is set", C.GenCorrelator());
    C.CloseOutputs();
    REFUSED("no-network", "generating correlations before a network is set", C.GenCorrelator());
    ALLOWED("network", "setting a network", C.SetNetwork(net, me));
    ALLOWED("correlator", "generating correlations", C.GenCorrelator());
  }
  // wrong number of inputs
  MainParty mp(s, net, me);
  std::size_t have = s.InputsOf(me), wrong = r.Below(have + 4);
  if (wrong == have) wrong++;
  REFUSED("inputs", "a wrong number of inputs", mp.P().SetInputs(std::vector<FF>(wrong, FF(1))));
  ALLOWED("inputs-ok", "the right number of inputs", mp.P().SetInputs(std::vector<FF>(have, FF(1))));
  auto dm = std::make_shared<Mesh>(p.n);
  DnParty dp(s, MeshNetwork(dm, me), me, p.t);
  REFUSED("dn-inputs", "a wrong number of inputs in the baseline", dp.P().SetInputs(std::vector<FF>(wrong, FF(1))));
  ALLOWED("dn-inputs-ok", "the right number of inputs in the baseline", dp.P().SetInputs(std::vector<FF>(have, FF(1))));
  c.Count("orders");
  c.End();
}

// Values read before they exist, directly or through additions and outputs;
// afterwards the right values are there.
static void Reads(Rng& r) {
  std::size_t owner = r.Below(4), depth = 1 + r.Below(5);
  c.Begin(Str("reads owner ", owner, " additions ", depth, " r=", r.s));
  auto a = std::make_shared<tp::InputGate>(owner), b = std::make_shared<tp::InputGate>(owner);
  auto m = std::make_shared<tp::MultGate>(a, b);
  std::vector<std::shared_ptr<tp::Gate>> src = {a, b, m};
  std::shared_ptr<tp::Gate> x = src[r.Below(3)], top = x;
  std::map<tp::Gate*, u64> coef;
  coef[x.get()] = 1;
  std::vector<std::shared_ptr<tp::Gate>> all = {x};
  for (std::size_t i = 0; i < depth; i++) {
    auto y = src[r.Below(3)];
    top = r.Chance(1, 2) ? std::make_shared<tp::AddGate>(top, y) : std::make_shared<tp::AddGate>(y, top);
    coef[y.get()]++;
    all.push_back(top);
  }
  auto o = std::make_shared<tp::OutputGate>(owner, top);
  all.push_back(o);
  int kind = (int)r.Below(4);
  static const char* names[] = {"mu", "mask", "mask-share", "dn07-share"};
  auto get = [&](tp::Gate& g) {
    switch (kind) {
      case 0: return U(g.GetMu());
      case 1: return U(g.GetDummyLambda());
      case 2: return U(g.GetIndvShrLambda());
      default: return U(g.GetDn07Share());
    }
  };
  auto set = [&](tp::Gate& g, u64 v) {
    auto in = dynamic_cast<tp::InputGate*>(&g);
    auto mu = dynamic_cast<tp::MultGate*>(&g);
    switch (kind) {
      case 0: g._SetDummyMu(E(v)); break;
      case 1: in ? in->SetLambda(E(v)) : mu->SetDummyLambda(E(v)); break;
      case 2: in ? in->SetIndvShrLambda(E(v)) : mu->SetIndvShrLambda(E(v)); break;
      default: g.SetDn07Share(E(v));
    }
  };
  for (auto& g : src) REFUSED(Str("read:", names[kind]), Str("reading an input's or product's ", names[kind], " before it exists"), get(*g));
  auto probe = [&](const char* when) {
    for (int i = 0; i < 3; i++) REFUSED(Str("read:", names[kind]), Str("reading a ", names[kind], " that depends on a missing one (", when, ")"), get(*all[all.size() - 1 - r.Below(1 + (std::size_t)(i > 0))]));
  };
  probe("nothing set");
  // set all needed but one
  std::vector<tp::Gate*> need;
  for (auto& kv : coef) need.push_back(kv.first);
  std::size_t missing = r.Below(need.size());
  std::map<tp::Gate*, u64> val;
  for (auto g : need) val[g] = RandValue(r);
  for (std::size_t i = 0; i < need.size(); i++)
    if (i != missing) set(*need[i], val[need[i]]);
  REFUSED(Str("read:", names[kind]), Str("reading a ", names[kind], " of an output with one part missing"), get(*o));
  set(*need[missing], val[need[missing]]);
  u64 want = 0;
  for (auto& kv : coef) want = AddP(want, MulP(kv.second % kP, val[kv.first]));
  auto e = Thrown([&]() {
    u64 g = get(*o);
    c.Check(g == want, Str("value:", names[kind]), Str("after refused reads the ", names[kind], " is ", g, " instead of ", want));
  });
  c.Check(e.empty(), Str("value:", names[kind]), Str("reading failed with ", e));
  c.Count(names[kind]);
  c.End();
}

// Batches: too many gates, other owners, preparing an incomplete batch.
static void Batches(Rng& r) {
  std::size_t k = 1 + r.Below(6), owner = r.Below(5), fill = r.Below(k + 1);
  c.Begin(Str("batch of ", k, " with ", fill, " gates of owner ", owner, " r=", r.s));
  tp::MultBatch mb(k);
  tp::InputBatch ib(owner, k);
  tp::OutputBatch ob(owner, k);
  std::size_t other = owner + 1 + r.Below(3);
  FF l = E(RandValue(r));
  auto mesh = std::make_shared<Mesh>(8);
  for (std::size_t i = 0; i < fill; i++) {
    if (r.Chance(1, 2)) {
      REFUSED("owner:input", "an input gate of another owner in a batch", ib.Append(std::make_shared<tp::InputGate>(other)));
      REFUSED("owner:output", "an output gate of another owner in a batch", ob.Append(std::make_shared<tp::OutputGate>(other)));
    }
    ALLOWED("append", "filling a batch", mb.Append(std::make_shared<tp::MultGate>()); ib.Append(std::make_shared<tp::InputGate>(owner)); ob.Append(std::make_shared<tp::OutputGate>(owner)));
  }
  bool full = fill == k;
  if (full) {
    REFUSED("overfull:mult", "one multiplication too many in a batch", mb.Append(std::make_shared<tp::MultGate>()));
    REFUSED("overfull:input", "one input too many in a batch", ib.Append(std::make_shared<tp::InputGate>(owner)));
    REFUSED("overfull:output", "one output too many in a batch", ob.Append(std::make_shared<tp::OutputGate>(owner)));
    ib.SetNetwork(MeshNetwork(mesh, 0), 0), ob.SetNetwork(MeshNetwork(mesh, 0), 0);
    ALLOWED("prep", "preparing a complete batch", mb._DummyPrep(l, l, l); ib._DummyPrep(l); ob._DummyPrep(l); mb._DummyPrep(); ib._DummyPrep(); ob._DummyPrep());
  } else {
    REFUSED("incomplete:mult", "preparing an incomplete multiplication batch", mb._DummyPrep(l, l, l));
    REFUSED("incomplete:mult", "preparing an incomplete multiplication batch", mb._DummyPrep());
    REFUSED("incomplete:input", "preparing an incomplete input batch", ib._DummyPrep(l));
    REFUSED("incomplete:input", "preparing an incomplete input batch", ib._DummyPrep());
    REFUSED("incomplete:output", "preparing an incomplete output batch", ob._DummyPrep(l));
    REFUSED("incomplete:output", "preparing an incomplete output batch", ob._DummyPrep());
  }
  c.Check(mb.HasRoom() == !full && ib.HasRoom() == !full && ob.HasRoom() == !full, "room", "a batch is wrong about having room");
  c.Count("batches");
  c.End();
}

int main(int argc, char** argv) {
  c.Init(argc, argv);
  Rng r = c.MakeRng(110);
  Thresholds(c.thorough ? 24 : 14);
  for (long i = 0, m = c.N(1500, 40000); i < m; i++) Order(r);
  for (long i = 0, m = c.N(20000, 500000); i < m; i++) Reads(r);
  for (long i = 0, m = c.N(10000, 200000); i < m; i++) Batches(r);
  return c.Finish();
}
