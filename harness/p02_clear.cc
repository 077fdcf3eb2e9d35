// P02: evaluation in the clear computes the circuit's function.
#include "proto.h"
using namespace vp;
static Ctx& c = Ctx::I();

static u64v Us(const std::vector<FF>& v) {
  u64v o;
  for (auto& f : v) o.push_back(U(f));
  return o;
}

static void One(Rng& r, std::size_t maxn, int size, int chain, std::size_t big = 0, int kind = 0) {
  std::size_t n = 1 + r.Below(maxn), k = 1 + r.Below(5);
  Spec s = big ? BigSpec(r, n, k, big, kind) : RandomSpec(r, n, k, size);
  if (chain) {
    // one long chain of additions and a chain of multiplications through layers
    int last = (int)(s.in_owner.size() + s.ops.size() - (s.Depth() - 1)) - 1, id = last;
    for (int i = 0; i < chain; i++) {
      s.ops.push_back({kAdd, id, (int)r.Below(last + 1)});
      id = ++last;
    }
    for (int i = 0; i < chain / 20; i++) {
      s.ops.push_back({kNewLayer});
      s.ops.push_back({kMult, id, (int)r.Below(last + 1)});
      id = ++last;
    }
    s.outs.push_back({(int)r.Below(n), id});
  }
  int evals = 1 + (int)r.Below(3);
  u64 seed = r.Next();
  c.Begin(Str("n=", n, " evaluations ", evals, " seed ", seed, " ", s.Print()));
  Rng q(seed);
  Built b(s);
  // before any inputs
  for (auto& o : b.outs) c.Check(!Thrown([&]() { o->GetClear(); }).empty(), "unset", "an output could be read before inputs were given");
  if (!s.outs.empty()) {
    c.Check(!Thrown([&]() { b.circuit.GetClearOutputsFlat(); }).empty(), "unset", "outputs could be read before inputs were given");
    c.Check(!Thrown([&]() { b.circuit.GetClearOutputs(); }).empty(), "unset", "outputs could be read before inputs were given");
  }
  for (int e = 0; e < evals; e++) {
    u64v in = RandomInputs(q, s);
    if (q.Chance(1, 3)) {
      auto p = s.InputsPerParty(in);
      if (q.Chance(1, 2) || p.empty())
        q.Chance(1, 2) ? p.push_back({}) : p.pop_back();
      else {
        auto& v = p[q.Below(p.size())];
        if (v.empty() || q.Chance(1, 2))
          v.push_back(E(1));
        else
          v.pop_back();
      }
      c.Check(!Thrown([&]() { b.circuit.SetClearInputs(p); }).empty(), "count", "a wrong number of parties or inputs was accepted");
      c.Count("refusals");
    }
    bool flat = q.Chance(1, 2);
    auto err = Thrown([&]() {
      if (flat)
        b.circuit.SetClearInputsFlat(s.InputsFlat(in));
      else
        b.circuit.SetClearInputs(s.InputsPerParty(in));
      u64v v = s.Eval(in), want = s.Outputs(in);
      auto per = s.OutputsPerParty(in);
      int order = (int)q.Below(3);
      auto flatout = [&]() {
        auto got = Us(b.circuit.GetClearOutputsFlat());
        c.Check(got == want, e ? "again" : "flat", Str("evaluation ", e, ": outputs", PrintVec(got), " instead of", PrintVec(want)));
      };
      auto party = [&]() {
        auto got = b.circuit.GetClearOutputs();
        c.Check(got.size() == n, "parties", Str("outputs for ", got.size(), " parties instead of ", n));
        for (std::size_t i = 0; i < n && i < got.size(); i++)
          c.Check(Us(got[i]) == per[i], e ? "again" : "per-party", Str("evaluation ", e, ": party ", i, " gets", PrintVec(Us(got[i])), " instead of", PrintVec(per[i])));
      };
      if (order == 0) flatout(), party();
      if (order == 1) party(), flatout();
      if (order == 2) party();
      for (std::size_t i = 0; i < b.gates.size(); i++)
        if (q.Chance(1, 3))
          c.Check(U(b.gates[i]->GetClear()) == v[i], e ? "again" : "gate", Str("evaluation ", e, ": node ", i, " has value ", U(b.gates[i]->GetClear()), " instead of ", v[i]));
      c.Count("outputs", want.size());
    });
    c.Check(err.empty(), "error", Str("evaluation stopped with ", err));
    c.Count(flat ? "flat" : "per-party");
  }
  c.Max("max_nodes", s.in_owner.size() + s.ops.size());
  c.End(!s.outs.empty() && !s.ops.empty());
}

int main(int argc, char** argv) {
  c.Init(argc, argv);
  Rng r = c.MakeRng(102);
  for (long i = 0, m = c.N(12000, 300000); i < m; i++) One(r, 8, 3, 0);
  for (long i = 0, m = c.N(400, 10000); i < m; i++) One(r, 40, 40, 0);
  for (long i = 0, m = c.N(160, 2000); i < m; i++) One(r, 400, r.Below(100), 0);
  for (long i = 0, m = c.N(80, 1000); i < m; i++) One(r, 4, 3, 1 + r.Below(1500));
  // many gates of one kind, many layers
  for (long i = 0, m = c.N(64, 800); i < m; i++) One(r, 5, 0, 0, r.Chance(1, 2) ? 250 + r.Below(20) : 257 + r.Below(700), (int)r.Below(4));
  if (c.scale >= 1 && c.shard < (c.thorough ? 4 : 3)) {
    c.case_timeout = 600;
    One(r, 5, 0, 0, 65537 + r.Below(300), (c.shard + 1) % 4);
  }
  return c.Finish();
}
