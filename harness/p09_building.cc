// P09: circuit construction, batching, metrics and synthetic circuits.
#include "proto.h"
using namespace vp;
static Ctx& c = Ctx::I();

static void Metrics(Rng& r, std::size_t maxn, int size, std::size_t big = 0, int kind = 0) {
  std::size_t n = 1 + r.Below(maxn), k = 1 + r.Below(7);
  Spec s = big ? BigSpec(r, n, k, big, kind) : RandomSpec(r, n, k, size);
  c.Begin(Str("built n=", n, " ", s.Print()));
  Built b(s);
  auto& C = b.circuit;
  auto m = s.MultsPerLayer();
  std::size_t width = 0, nb = 0, ib = 0, ob = 0;
  for (auto x : m) width = std::max(width, x), nb += s.Batches(x);
  for (std::size_t i = 0; i < n; i++) ib += s.Batches(s.InputsOf(i)), ob += s.Batches(s.OutputsOf(i));
  auto eq = [&](const char* what, std::size_t got, std::size_t want) { c.Check(got == want, Str("metric:", what), Str(what, " is ", got, " instead of ", want)); };
  eq("inputs", C.GetNInputs(), s.in_owner.size());
  eq("outputs", C.GetNOutputs(), s.outs.size());
  eq("size", C.GetSize(), s.Mults());
  eq("depth", C.GetDepth(), s.Depth());
  eq("width", C.GetWidth(), width);
  eq("mult-batches", C.GetNMultBatches(), nb);
  eq("input-batches", C.GetNInputBatches(), ib);
  eq("output-batches", C.GetNOutputBatches(), ob);
  // the gates are those added, in order
  std::vector<std::size_t> seen(n, 0);
  for (std::size_t i = 0; i < s.in_owner.size(); i++) {
    int o = s.in_owner[i];
    c.Check(C.GetInputGate(i) == b.gates[i] && C.GetInputGate(o, seen[o]) == b.gates[i] && C.GetInputGate(i)->GetOwner() == (std::size_t)o, "input-gate", Str("input ", i, " is another gate"));
    seen[o]++;
  }
  std::fill(seen.begin(), seen.end(), 0);
  for (std::size_t i = 0; i < s.outs.size(); i++) {
    int o = s.outs[i].first;
    c.Check(C.GetOutputGate(i) == b.outs[i] && C.GetOutputGate(o, seen[o]) == b.outs[i] && C.GetOutputGate(i)->GetOwner() == (std::size_t)o && C.GetOutputGate(i)->GetLeft() == b.gates[s.outs[i].second],
            "output-gate", Str("output ", i, " is another gate"));
    seen[o]++;
  }
  std::size_t layer = 0, idx = 0, node = s.in_owner.size(), mults = 0;
  for (auto& o : s.ops) {
    if (o.kind == kNewLayer) {
      layer++, idx = 0;
      continue;
    }
    if (o.kind == kMult) {
      c.Check(C.GetMultGate(layer, idx) == b.mults[mults], "mult-gate", Str("multiplication ", idx, " of layer ", layer, " is another gate"));
      idx++, mults++;
    }
    c.Check(b.gates[node]->GetLeft() == b.gates[o.a] && b.gates[node]->GetRight() == b.gates[o.b], "parents", Str("node ", node, " has other operands"));
    c.Check(!b.gates[node]->IsPadding(), "padding", "a gate of the circuit counts as padding");
    node++;
  }
  c.Count("circuits");
  c.End(s.Mults() > 0);
}

// Layers of batches by themselves: full batches in order, the last one padded.
template <typename Layer, typename Gate, typename Make, typename Get>
static void Layers(Rng& r, const char* name, Layer layer, std::size_t k, std::size_t m, const Make& make, const Get& get) {
  std::vector<std::shared_ptr<Gate>> g;
  for (std::size_t i = 0; i < m; i++) {
    g.push_back(make());
    layer.Append(g.back());
  }
  layer.Close();
  std::size_t want = m ? (m + k - 1) / k : 1;
  if (!c.Check(layer.GetSize() == want, Str("batches:", name), Str(m, " gates in batches of ", k, " occupy ", layer.GetSize(), " batches instead of ", want))) return;
  for (std::size_t i = 0; i < want; i++) {
    auto batch = get(layer, i);
    c.Check(!batch.HasRoom(), Str("room:", name), Str("batch ", i, " of ", want, " has room after closing"));
    for (std::size_t j = 0; j < k; j++) {
      std::shared_ptr<tp::Gate> x = batch.Gate(j);
      std::size_t at = i * k + j;
      if (at < m)
        c.Check(x == g[at], Str("order:", name), Str("gate ", at, " is not in its place"));
      else
        c.Check(x->IsPadding(), Str("padding:", name), Str("place ", at, " after ", m, " gates is not padding"));
    }
  }
  c.Count("layers");
}
struct MB {
  std::shared_ptr<tp::MultBatch> b;
  bool HasRoom() { return b->HasRoom(); }
  std::shared_ptr<tp::Gate> Gate(std::size_t j) { return b->GetMultGate(j); }
};
struct IB {
  std::shared_ptr<tp::InputBatch> b;
  bool HasRoom() { return b->HasRoom(); }
  std::shared_ptr<tp::Gate> Gate(std::size_t j) { return b->GetInputGate(j); }
};
struct OB {
  std::shared_ptr<tp::OutputBatch> b;
  bool HasRoom() { return b->HasRoom(); }
  std::shared_ptr<tp::Gate> Gate(std::size_t j) { return b->GetOutputGate(j); }
};
static void Batching(Rng& r, std::size_t big = 0) {
  std::size_t k = 1 + r.Below(9), m = r.Chance(1, 2) ? k * r.Below(5) + r.Below(2) : r.Below(40), owner = r.Below(20);
  if (big) k = 1 + r.Below(r.Chance(1, 2) ? 300 : 9), m = r.Below(big);
  c.Begin(Str("batches of ", k, " gates ", m, " owner ", owner));
  Layers<tp::MultLayer, tp::MultGate>(r, "mult", tp::MultLayer(k), k, m, [&]() { return std::make_shared<tp::MultGate>(); },
                                      [](tp::MultLayer& l, std::size_t i) { return MB{l.GetMultBatch(i)}; });
  Layers<tp::InputLayer, tp::InputGate>(r, "input", tp::InputLayer(owner, k), k, m, [&]() { return std::make_shared<tp::InputGate>(owner); },
                                        [](tp::InputLayer& l, std::size_t i) { return IB{l.GetInputBatch(i)}; });
  Layers<tp::OutputLayer, tp::OutputGate>(r, "output", tp::OutputLayer(owner, k), k, m, [&]() { return std::make_shared<tp::OutputGate>(owner); },
                                          [](tp::OutputLayer& l, std::size_t i) { return OB{l.GetOutputBatch(i)}; });
  c.End(m > 0);
}

static void Synthetic(Rng& r, std::size_t big = 0) {
  tp::CircuitConfig f;
  std::size_t n = 1 + r.Below(!big && r.Chance(1, 100) ? 400 : 8);
  f.n_parties = n;
  f.batch_size = 1 + r.Below(6);
  f.inp_gates.assign(n, 0), f.out_gates.assign(n, 0);
  std::size_t ni = 2 * (1 + r.Below(6));
  bool many = big && r.Chance(1, 3);
  if (many) ni = 2 * (1 + r.Below(big));
  for (std::size_t i = 0; i < ni; i++) f.inp_gates[r.Below(n)]++;
  f.width = ni * (1 + r.Below(4));
  f.depth = 1 + r.Below(5);
  if (many) {
    f.width = ni * (1 + r.Below(2)), f.depth = 1 + r.Below(2);
  } else if (big && r.Chance(1, 2)) f.depth = big / (1 + r.Below(3));
  else if (big) f.width = ni * (1 + big / ni);
  std::size_t no = r.Below(2 * f.width + 2);
  for (std::size_t i = 0; i < no; i++) f.out_gates[r.Below(n)]++;
  int flaw = r.Chance(1, 3) ? 1 + (int)r.Below(7) : 0;
  switch (flaw) {
    case 1: r.Chance(1, 2) ? f.inp_gates.push_back(0) : f.inp_gates.pop_back(); break;
    case 2: r.Chance(1, 2) ? f.out_gates.push_back(0) : f.out_gates.pop_back(); break;
    case 3: f.inp_gates[r.Below(n)]++; f.width = (ni + 1) * (1 + r.Below(3)); break;  // odd, but divides
    case 4: f.width += 1 + r.Below(ni - 1); break;
    case 5: f.width = 0; break;
    case 6: f.depth = 0; break;
    case 7: f.inp_gates.assign(n, 0); break;
  }
  // dropping a party with inputs may also make the rest invalid: still refused
  std::string d;
  for (auto x : f.inp_gates) d += Str(" ", x);
  d += " out";
  for (auto x : f.out_gates) d += Str(" ", x);
  c.Begin(Str("synthetic n=", n, " k=", f.batch_size, " width=", f.width, " depth=", f.depth, flaw ? Str(" flaw ", flaw) : std::string(), " in", d, " r=", r.s));
  if (flaw) {
    c.Check(!Thrown([&]() { tp::Circuit::FromConfig(f); }).empty(), Str("accepted:", flaw), "a configuration that does not fit was accepted");
    c.Count("refused");
    c.End();
    return;
  }
  auto err = Thrown([&]() {
    auto C = tp::Circuit::FromConfig(f);
    auto eq = [&](const char* what, std::size_t got, std::size_t want) { c.Check(got == want, Str("synthetic:", what), Str(what, " is ", got, " instead of ", want)); };
    eq("inputs", C.GetNInputs(), ni);
    eq("outputs", C.GetNOutputs(), no);
    eq("size", C.GetSize(), f.width * f.depth);
    eq("depth", C.GetDepth(), f.depth);
    eq("width", C.GetWidth(), f.width);
    std::size_t k = f.batch_size, lb = (f.width + k - 1) / k, ib = 0, ob = 0;
    for (auto x : f.inp_gates) ib += x ? (x + k - 1) / k : 1;
    for (auto x : f.out_gates) ob += x ? (x + k - 1) / k : 1;
    eq("mult-batches", C.GetNMultBatches(), lb * f.depth);
    eq("input-batches", C.GetNInputBatches(), ib);
    eq("output-batches", C.GetNOutputBatches(), ob);
    for (std::size_t i = 0; i < n; i++) {
      for (std::size_t j = 0; j < f.inp_gates[i]; j++) c.Check(C.GetInputGate(i, j)->GetOwner() == i, "synthetic:owner", "an input belongs to another party");
      for (std::size_t j = 0; j < f.out_gates[i]; j++) c.Check(C.GetOutputGate(i, j)->GetOwner() == i, "synthetic:owner", "an output belongs to another party");
    }
    u64v in;
    std::vector<std::vector<FF>> per(n);
    for (std::size_t i = 0; i < n; i++)
      for (std::size_t j = 0; j < f.inp_gates[i]; j++) {
        in.push_back(r.Next() % kP);
        per[i].push_back(E(in.back()));
      }
    C.SetClearInputs(per);
    u64v v = in;
    for (std::size_t dd = 0; dd < f.depth; dd++) {
      u64v w;
      for (std::size_t i = 0; i < f.width / 2; i++) {
        u64 x = v[(2 * i) % v.size()], y = v[(2 * i + 1) % v.size()], a = AddP(x, y);
        w.push_back(MulP(x, a));
        w.push_back(MulP(y, a));
      }
      v = w;
      for (std::size_t j = 0; j < f.width; j++) c.Check(U(C.GetMultGate(dd, j)->GetClear()) == v[j], "synthetic:value", Str("multiplication ", j, " of layer ", dd, " has another value"));
    }
    auto got = C.GetClearOutputsFlat();
    auto gp = C.GetClearOutputs();
    std::size_t ctr = 0;
    eq("outputs-read", got.size(), no);
    for (std::size_t i = 0; i < n; i++) {
      eq("outputs-of-party", gp[i].size(), f.out_gates[i]);
      for (std::size_t j = 0; j < f.out_gates[i]; j++, ctr++) {
        c.Check(U(got[ctr]) == v[ctr % f.width], "synthetic:output", Str("output ", ctr, " has another value"));
        c.Check(U(gp[i][j]) == v[ctr % f.width], "synthetic:output", Str("output ", j, " of party ", i, " has another value"));
      }
    }
  });
  c.Check(err.empty(), "synthetic:error", Str("a valid configuration failed with ", err));
  c.Count("synthetic");
  c.End();
}

int main(int argc, char** argv) {
  c.Init(argc, argv);
  Rng r = c.MakeRng(109);
  for (long i = 0, m = c.N(6000, 200000); i < m; i++) Metrics(r, 10, 3);
  for (long i = 0, m = c.N(200, 5000); i < m; i++) Metrics(r, 40, 60);
  for (long i = 0, m = c.N(160, 2000); i < m; i++) Metrics(r, 400, 100);
  for (long i = 0, m = c.N(6000, 100000); i < m; i++) Batching(r);
  for (long i = 0, m = c.N(6000, 200000); i < m; i++) Synthetic(r);
  for (long i = 0, m = c.N(160, 1600); i < m; i++) {
    std::size_t big = r.Chance(1, 2) ? 250 + r.Below(20) : 257 + r.Below(700);
    Metrics(r, 5, 0, big, (int)r.Below(4));
    Batching(r, big);
    Synthetic(r, big);
  }
  if (c.scale >= 1) {
    c.case_timeout = 600;
    if (c.shard < 4) Metrics(r, 5, 0, 65537 + r.Below(300), c.shard % 4);
    else if (c.shard == 4) Batching(r, 140000);
    else if (c.shard < 7) Synthetic(r, 65537 + r.Below(300));
  }
  return c.Finish();
}
