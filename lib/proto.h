// Support for the protocol harnesses: random layered circuits with a reference
// evaluation, links between parties that record, count and delay messages, and
// the step sequences of both protocols.
#ifndef VP_PROTO_H
#define VP_PROTO_H
#include <condition_variable>
#include <deque>
#include <memory>
#include <set>

#include "scl/net/network.h"
#include "tp/circuits.h"
#include "tp/dn07.h"
#include "vp.h"

namespace vp {
using tp::FF;
using u64v = std::vector<u64>;
constexpr u64 kP = (1ULL << 61) - 1;

inline u64 MulP(u64 a, u64 b) { return (u64)((u128)a * b % kP); }
inline u64 AddP(u64 a, u64 b) { return (u64)(((u128)a + b) % kP); }
inline u64 SubP(u64 a, u64 b) { return (u64)(((u128)a + kP - b) % kP); }
inline u64 PowP(u64 a, u64 e) {
  u64 r = 1;
  for (; e; e >>= 1, a = MulP(a, a))
    if (e & 1) r = MulP(r, a);
  return r;
}
inline u64 InvP(u64 a) { return PowP(a, kP - 2); }
// the field element -i
inline u64 NegP(u64 i) { return i % kP ? kP - i % kP : 0; }

inline u64 U(const FF& f) {
  unsigned char b[8];
  f.Write(b);
  u64 v = 0;
  for (int i = 0; i < 8; i++) v |= (u64)b[i] << (8 * i);
  return v;
}
inline FF E(u64 v) {
  unsigned char b[8];
  for (int i = 0; i < 8; i++) b[i] = (unsigned char)(v >> (8 * i));
  return FF::Read(b);
}
// value at x of the polynomial of degree < xs.size() through the points
inline u64 LagrangeP(const u64v& xs, const u64v& ys, u64 x) {
  u64 s = 0;
  for (std::size_t i = 0; i < xs.size(); i++) {
    u64 num = ys[i], den = 1;
    for (std::size_t j = 0; j < xs.size(); j++)
      if (j != i) num = MulP(num, SubP(x, xs[j])), den = MulP(den, SubP(xs[i], xs[j]));
    s = AddP(s, MulP(num, InvP(den)));
  }
  return s;
}
inline u64 RandValue(Rng& r) {
  switch (r.Below(6)) {
    case 0: return r.Below(3);
    case 1: return kP - 1 - r.Below(3);
    case 2: return 1ULL << r.Below(61);
    default: return r.Next() % kP;
  }
}

// ---------------------------------------------------------------- randomness
// The party whose code is running in this thread, and every party's nonce for
// the generator (see vp_nonce.h).
inline thread_local int g_party = 0;
inline std::vector<long long> g_nonce;
constexpr long long kShippedNonce = 0x0123456789ABCDEF;
struct AsParty {
  int old = g_party;
  explicit AsParty(std::size_t p) { g_party = (int)p; }
  ~AsParty() { g_party = old; }
};
inline long long NonceNow() { return (std::size_t)g_party < g_nonce.size() ? g_nonce[g_party] : kShippedNonce; }

// ------------------------------------------------------------------ circuits
enum OpKind { kAdd, kMult, kNewLayer };
struct Op {
  OpKind kind;
  int a = 0, b = 0;
};
struct Spec {
  std::size_t n = 0, k = 1;
  std::vector<int> in_owner;  // nodes 0..in_owner.size()-1
  std::vector<Op> ops;        // additions and multiplications are the next nodes
  std::vector<std::pair<int, int>> outs;  // owner, node

  std::string Print(std::size_t max = 600) const {
    std::string s = Str("k=", k, " in");
    for (int o : in_owner) s += Str(" ", o);
    s += " ops";
    int id = (int)in_owner.size();
    for (auto& o : ops) {
      if (o.kind == kNewLayer)
        s += " |";
      else
        s += Str(" ", id++, "=", o.a, o.kind == kAdd ? "+" : "*", o.b);
      if (s.size() > max) {
        s += " ...";
        break;
      }
    }
    s += " out";
    for (auto& o : outs) s += Str(" ", o.first, ":", o.second);
    return s.substr(0, max + 300);
  }
  std::size_t Depth() const {
    std::size_t d = 1;
    for (auto& o : ops) d += o.kind == kNewLayer;
    return d;
  }
  std::vector<std::size_t> MultsPerLayer() const {
    std::vector<std::size_t> m(1, 0);
    for (auto& o : ops)
      if (o.kind == kNewLayer)
        m.push_back(0);
      else if (o.kind == kMult)
        m.back()++;
    return m;
  }
  std::size_t Mults() const {
    std::size_t s = 0;
    for (auto& o : ops) s += o.kind == kMult;
    return s;
  }
  std::size_t InputsOf(std::size_t p) const {
    std::size_t s = 0;
    for (int o : in_owner) s += (std::size_t)o == p;
    return s;
  }
  std::size_t OutputsOf(std::size_t p) const {
    std::size_t s = 0;
    for (auto& o : outs) s += (std::size_t)o.first == p;
    return s;
  }
  // batches that `count` gates occupy
  std::size_t Batches(std::size_t count) const { return count ? (count + k - 1) / k : 1; }
  // `in[i]`: value of input node i
  u64v Eval(const u64v& in) const {
    u64v v = in;
    for (auto& o : ops)
      if (o.kind == kAdd)
        v.push_back(AddP(v[o.a], v[o.b]));
      else if (o.kind == kMult)
        v.push_back(MulP(v[o.a], v[o.b]));
    return v;
  }
  u64v Outputs(const u64v& in) const {
    u64v v = Eval(in), o;
    for (auto& x : outs) o.push_back(v[x.second]);
    return o;
  }
  std::vector<u64v> OutputsPerParty(const u64v& in) const {
    u64v v = Eval(in);
    std::vector<u64v> o(n);
    for (auto& x : outs) o[x.first].push_back(v[x.second]);
    return o;
  }
  std::vector<std::vector<FF>> InputsPerParty(const u64v& in) const {
    std::vector<std::vector<FF>> o(n);
    for (std::size_t i = 0; i < in.size(); i++) o[in_owner[i]].push_back(E(in[i]));
    return o;
  }
  std::vector<FF> InputsFlat(const u64v& in) const {
    std::vector<FF> f;
    for (auto& v : InputsPerParty(in)) f.insert(f.end(), v.begin(), v.end());
    return f;
  }
};

// `size` steers how large the circuit gets (about that many multiplications
// per layer at most 3k+size).
inline Spec RandomSpec(Rng& r, std::size_t n, std::size_t k, int size = 3) {
  Spec s;
  s.n = n, s.k = k;
  std::size_t ni;
  switch (r.Below(6)) {
    case 0: ni = 1; break;
    case 1: ni = n; break;
    case 2: ni = k * (1 + r.Below(2)) + r.Below(2); break;
    default: ni = 1 + r.Below(2 * k + size);
  }
  int ostyle = r.Below(4), one = (int)r.Below(n), two = (int)r.Below(n);
  auto owner = [&](std::size_t i) {
    switch (ostyle) {
      case 0: return one;
      case 1: return r.Chance(1, 2) ? one : two;
      case 2: return (int)(i % n);
      default: return (int)r.Below(n);
    }
  };
  for (std::size_t i = 0; i < ni; i++) s.in_owner.push_back(owner(i));
  std::vector<int> depth(ni, 0);  // layer in which a node's value is known
  int cur = 0;                    // index of the open layer; mults need depth <= cur
  int pick_style = r.Below(4);
  auto pick = [&](int maxdepth) {
    for (int tries = 0; tries < 60; tries++) {
      int m = (int)depth.size();
      int i = pick_style == 0 ? m - 1 - (int)r.Below(std::min(m, 4)) : pick_style == 1 ? (int)r.Below(std::min(m, 3)) : (int)r.Below(m);
      if (tries > 30) i = (int)r.Below(m);
      if (depth[i] <= maxdepth) return i;
    }
    return 0;
  };
  auto add = [&](int maxdepth) {
    int a = pick(maxdepth), b = r.Chance(1, 5) ? a : pick(maxdepth);
    s.ops.push_back({kAdd, a, b});
    depth.push_back(std::max(depth[a], depth[b]));
  };
  int layers = r.Chance(1, 5) ? 1 : 1 + (int)r.Below(4);
  for (int l = 0; l < layers; l++) {
    if (l) s.ops.push_back({kNewLayer}), cur++;
    std::size_t m;
    switch (r.Below(7)) {
      case 0: m = r.Below(2); break;
      case 1: m = k; break;
      case 2: m = k + 1; break;
      case 3: m = 2 * k; break;
      default: m = r.Below(3 * k + size);
    }
    std::size_t made = 0;
    while (made < m) {
      if (r.Chance(1, 4)) {
        int chain = r.Chance(1, 20) ? 60 : 1 + (int)r.Below(4);
        // also additions of values of this layer, used in the next one
        for (int c = 0; c < chain; c++) add(r.Chance(1, 3) ? cur + 1 : cur);
        continue;
      }
      int a = pick(cur), b = r.Chance(1, 5) ? a : pick(cur);
      s.ops.push_back({kMult, a, b});
      depth.push_back(cur + 1);
      made++;
    }
    if (r.Chance(1, 2)) add(cur + 1);
  }
  std::size_t no = r.Chance(1, 8) ? 0 : 1 + r.Below(2 * k + size);
  ostyle = r.Below(4), one = (int)r.Below(n), two = (int)r.Below(n);
  int nodes = (int)depth.size(), fixed = (int)r.Below(nodes);
  for (std::size_t i = 0; i < no; i++) {
    int v = r.Chance(1, 6) ? fixed : r.Chance(1, 2) ? nodes - 1 - (int)r.Below(std::min(nodes, 6)) : (int)r.Below(nodes);
    s.outs.push_back({owner(i), v});
  }
  return s;
}
// Circuits with many gates of one kind (`m` of them): inputs, outputs,
// multiplications of one layer, or layers.
inline Spec BigSpec(Rng& r, std::size_t n, std::size_t k, std::size_t m, int kind) {
  Spec s;
  s.n = n, s.k = k;
  std::size_t ni = kind == 0 ? m : 1 + r.Below(2 * k + 3), no = kind == 1 ? m : 1 + r.Below(2 * k + 3), w = kind == 2 ? m : 1 + r.Below(3), d = kind == 3 ? m : 1 + r.Below(2);
  int style = (int)r.Below(3), one = (int)r.Below(n);
  auto owner = [&](std::size_t i) { return style == 0 ? one : style == 1 ? (int)(i % n) : (int)r.Below(n); };
  for (std::size_t i = 0; i < ni; i++) s.in_owner.push_back(owner(i));
  std::size_t known = ni, nodes = ni;  // nodes usable as operands, all nodes
  for (std::size_t l = 0; l < d; l++) {
    if (l) s.ops.push_back({kNewLayer});
    for (std::size_t i = 0; i < w; i++) {
      int a = r.Chance(1, 2) ? (int)(known - 1 - r.Below(std::min<std::size_t>(known, 4))) : (int)r.Below(known), b = (int)r.Below(known);
      s.ops.push_back({kMult, a, b});
      nodes++;
    }
    if (r.Chance(1, 3)) s.ops.push_back({kAdd, (int)r.Below(nodes), (int)nodes - 1}), nodes++;
    known = nodes;
  }
  style = (int)r.Below(3), one = (int)r.Below(n);
  for (std::size_t i = 0; i < no; i++) s.outs.push_back({owner(i), r.Chance(1, 2) ? (int)(nodes - 1 - r.Below(std::min<std::size_t>(nodes, 300))) : (int)r.Below(nodes)});
  return s;
}
inline u64v RandomInputs(Rng& r, const Spec& s) {
  u64v in;
  bool zero = r.Chance(1, 12);
  for (std::size_t i = 0; i < s.in_owner.size(); i++) in.push_back(zero ? 0 : RandValue(r));
  return in;
}

struct Built {
  tp::Circuit circuit;
  std::vector<std::shared_ptr<tp::Gate>> gates;  // by node
  std::vector<std::shared_ptr<tp::OutputGate>> outs;
  std::vector<std::shared_ptr<tp::MultGate>> mults;  // by creation
  explicit Built(const Spec& s) : circuit(s.n, s.k) {
    for (int o : s.in_owner) gates.push_back(circuit.Input(o));
    circuit.CloseInputs();
    for (auto& o : s.ops) {
      if (o.kind == kNewLayer)
        circuit.NewLayer();
      else if (o.kind == kAdd)
        gates.push_back(circuit.Add(gates[o.a], gates[o.b]));
      else {
        auto m = circuit.Mult(gates[o.a], gates[o.b]);
        gates.push_back(m);
        mults.push_back(m);
      }
    }
    circuit.LastLayer();
    for (auto& o : s.outs) outs.push_back(circuit.Output(o.first, gates[o.second]));
    circuit.CloseOutputs();
  }
};

// --------------------------------------------------------------------- links
// All links between n parties.  Message boundaries do not matter, bytes do.
struct Mesh {
  struct Link {
    std::deque<unsigned char> q;
    u64 sent = 0, received = 0;
    u64 hash = 1469598103934665603ULL;  // of everything sent
  };
  std::size_t n;
  std::vector<std::vector<Link>> link;  // [from][to]
  // everything each party received, in order, per party (for views)
  bool record = false;
  std::vector<u64v> view;
  // threads
  bool blocking = false;
  std::mutex mu;
  std::condition_variable cv;
  std::atomic<bool> stop{false};
  struct Want {
    std::size_t from = 0, bytes = 0;
  };
  std::vector<Want> want;  // of the parties in a blocking receive
  // how many wait for bytes that have not been sent
  std::size_t Stuck() {
    std::size_t s = 0;
    for (std::size_t i = 0; i < n; i++) s += want[i].bytes && link[want[i].from][i].q.size() < want[i].bytes;
    return s;
  }
  std::function<void(std::size_t from, std::size_t to, bool send)> hook;

  explicit Mesh(std::size_t n_) : n(n_), link(n_, std::vector<Link>(n_)), view(n_), want(n_) {}

  void Send(std::size_t i, std::size_t j, const unsigned char* p, std::size_t m) {
    if (hook) hook(i, j, true);
    std::lock_guard<std::mutex> l(mu);
    auto& k = link[i][j];
    k.q.insert(k.q.end(), p, p + m);
    k.sent += m;
    for (std::size_t x = 0; x < m; x++) k.hash = (k.hash ^ p[x]) * 1099511628211ULL;
    if (blocking) cv.notify_all();
  }
  void Recv(std::size_t i, std::size_t j, unsigned char* p, std::size_t m) {
    if (hook) hook(j, i, false);
    std::unique_lock<std::mutex> l(mu);
    auto& k = link[j][i];
    if (blocking) {
      want[i] = {j, m};
      cv.wait(l, [&]() { return k.q.size() >= m || stop; });
      want[i] = {};
    }
    if (k.q.size() < m) throw std::runtime_error(Str("vp: party ", i, " receives ", m, " bytes from ", j, " but only ", k.q.size(), " were sent"));
    std::copy(k.q.begin(), k.q.begin() + m, p);
    k.q.erase(k.q.begin(), k.q.begin() + m);
    k.received += m;
    if (record)
      for (std::size_t x = 0; x + 8 <= m; x += 8) {
        u64 v = 0;
        for (int b = 0; b < 8; b++) v |= (u64)p[x + b] << (8 * b);
        view[i].push_back(v);
      }
  }
  // "" or the first link with bytes left over
  std::string Left() {
    for (std::size_t i = 0; i < n; i++)
      for (std::size_t j = 0; j < n; j++)
        if (!link[i][j].q.empty()) return Str(link[i][j].q.size(), " bytes from ", i, " to ", j, " were never received");
    return "";
  }
  std::vector<u64> Sent() {
    std::vector<u64> s;
    for (auto& a : link)
      for (auto& b : a) s.push_back(b.sent);
    return s;
  }
};
class MeshEnd final : public scl::Channel {
 public:
  MeshEnd(std::shared_ptr<Mesh> m, std::size_t me, std::size_t peer) : mM(m), mMe(me), mPeer(peer) {}
  void Close() override {}
  void Send(const unsigned char* s, std::size_t n) override { mM->Send(mMe, mPeer, s, n); }
  void Recv(unsigned char* d, std::size_t n) override { mM->Recv(mMe, mPeer, d, n); }

 private:
  std::shared_ptr<Mesh> mM;
  std::size_t mMe, mPeer;
};
inline std::shared_ptr<scl::Network> MeshNetwork(std::shared_ptr<Mesh> m, std::size_t me) {
  std::vector<std::shared_ptr<scl::Channel>> ch;
  for (std::size_t j = 0; j < m->n; j++) ch.push_back(std::make_shared<MeshEnd>(m, me, j));
  return std::make_shared<scl::Network>(ch);
}

// --------------------------------------------------------------------- steps
template <typename P>
struct StepOf {
  std::string name;
  std::function<void(P&)> run;
};

using MStep = StepOf<tp::Circuit>;
using DStep = StepOf<tp::DN07>;

inline std::vector<MStep> MainPrep() {
  using C = tp::Circuit;
  return {{"fi-send", [](C& c) { c.FIPrepSend(); }},
          {"fi-recv", [](C& c) { c.FIPrepRecv(); }},
          {"prod-send", [](C& c) { c.GenProdPartiesSendP1(); }},
          {"prod-p1", [](C& c) { c.GenProdP1ReceivesAndSends(); }},
          {"prod-recv", [](C& c) { c.GenProdPartiesReceive(); }}};
}
inline std::vector<MStep> MainFd() {
  using C = tp::Circuit;
  return {{"map", [](C& c) { c.MapCorrToCircuit(); }},
          {"mult-send", [](C& c) { c.PrepMultPartiesSendP1(); }},
          {"mult-p1", [](C& c) { c.PrepMultP1ReceivesAndSends(); }},
          {"mult-recv", [](C& c) { c.PrepMultPartiesReceive(); }},
          {"io-send", [](C& c) { c.PrepIOPartiesSendOwner(); }},
          {"io-recv", [](C& c) { c.PrepIOOwnerReceives(); }}};
}
inline std::vector<MStep> MainOnline(std::size_t depth) {
  using C = tp::Circuit;
  std::vector<MStep> s = {{"input-send", [](C& c) { c.InputOwnerSendsP1(); }}, {"input-p1", [](C& c) { c.InputP1Receives(); }}};
  for (std::size_t l = 0; l < depth; l++) {
    s.push_back({Str("p1-sends-", l), [l](C& c) { c.MultP1Sends(l); }});
    s.push_back({Str("parties-receive-", l), [l](C& c) { c.MultPartiesReceive(l); }});
    s.push_back({Str("parties-send-", l), [l](C& c) { c.MultPartiesSend(l); }});
    s.push_back({Str("p1-receives-", l), [l](C& c) { c.MultP1Receives(l); }});
  }
  s.push_back({"output-p1", [](C& c) { c.OutputP1SendsMu(); }});
  s.push_back({"output-recv", [](C& c) { c.OutputOwnerReceivesMu(); }});
  return s;
}
inline std::vector<DStep> DnPrep() {
  using D = tp::DN07;
  return {{"prep-send", [](D& d) { d.PrepPartiesSend(); }}, {"prep-recv", [](D& d) { d.PrepPartiesReceive(); }}};
}
inline std::vector<DStep> DnFd() {
  using D = tp::DN07;
  return {{"map", [](D& d) { d.FDMapPrepToGates(); }},
          {"fd-send", [](D& d) { d.FDMultPartiesSendP1(); }},
          {"fd-p1", [](D& d) { d.FDMultP1Receives(); }}};
}
inline std::vector<DStep> DnOnline(std::size_t depth, bool split) {
  using D = tp::DN07;
  std::vector<DStep> s = {{"input-send", [](D& d) { d.InputPartiesSendOwners(); }},
                          {"input-owner", [](D& d) { d.InputOwnersReceiveAndSendParties(); }},
                          {"input-recv", [](D& d) { d.InputPartiesReceive(); }}};
  for (std::size_t l = 0; l < depth; l++) {
    s.push_back({Str("mult-send-", l), [l](D& d) { d.MultPartiesSendP1(l); }});
    if (split) {
      s.push_back({Str("mult-p1-recv-", l), [l](D& d) { d.MultP1Receives(l); }});
      s.push_back({Str("mult-p1-send-", l), [l](D& d) { d.MultP1SendsParties(l); }});
    } else
      s.push_back({Str("mult-p1-", l), [l](D& d) { d.MultP1ReceivesAndSendsParties(l); }});
    s.push_back({Str("mult-recv-", l), [l](D& d) { d.MultPartiesReceive(l); }});
  }
  s.push_back({"output-send", [](D& d) { d.OutputPartiesSendOwners(); }});
  s.push_back({"output-recv", [](D& d) { d.OutputOwnersReceive(); }});
  return s;
}
template <typename S>
void Append(std::vector<S>& a, const std::vector<S>& b) {
  a.insert(a.end(), b.begin(), b.end());
}

// ------------------------------------------------------------------- parties
struct MainParty {
  Built b;
  std::shared_ptr<scl::Network> net;
  std::size_t id;
  MainParty(const Spec& s, std::shared_ptr<scl::Network> nw, std::size_t i) : b(s), net(nw), id(i) {
    AsParty as(i);
    b.circuit.SetNetwork(net, id);
  }
  void Correlate(std::size_t t) {
    AsParty as(id);
    b.circuit.GenCorrelator();
    b.circuit.SetThreshold(t);
  }
  tp::Circuit& P() { return b.circuit; }
  void SetInputs(const std::vector<FF>& in) { b.circuit.SetInputs(in); }
  u64v Outputs(const Spec&) {
    u64v o;
    for (auto& f : b.circuit.GetOutputs()) o.push_back(U(f));
    return o;
  }
};
struct DnParty {
  Built b;
  std::shared_ptr<scl::Network> net;
  std::size_t id;
  tp::DN07 dn;
  DnParty(const Spec& s, std::shared_ptr<scl::Network> nw, std::size_t i, std::size_t t) : b(s), net(nw), id(i), dn(s.n, t) {
    AsParty as(i);
    b.circuit.SetNetwork(net, id);
    dn.SetCircuit(b.circuit);
  }
  tp::DN07& P() { return dn; }
  void SetInputs(const std::vector<FF>& in) { dn.SetInputs(in); }
  u64v Outputs(const Spec& s) {
    u64v o;
    for (std::size_t i = 0; i < s.OutputsOf(id); i++) o.push_back(U(dn.GetOutput(id, i)));
    return o;
  }
};
// Every party runs a step before the next step starts, parties in the order
// given (or by id).
template <typename Party, typename S>
void Lockstep(std::vector<std::unique_ptr<Party>>& ps, const std::vector<S>& steps, Rng* order = nullptr,
              const std::function<void(const std::string&)>& after = nullptr) {
  std::vector<std::size_t> o(ps.size());
  for (std::size_t i = 0; i < o.size(); i++) o[i] = i;
  for (auto& s : steps) {
    if (order)
      for (std::size_t i = o.size(); i-- > 1;) std::swap(o[i], o[order->Below(i + 1)]);
    for (auto i : o) {
      AsParty as(i);
      s.run(ps[i]->P());
    }
    if (after) after(s.name);
  }
}
// Every party runs fn in a thread of its own; receives wait.  Returns the first
// party's error.
template <typename Party, typename Fn>
std::string Together(Mesh& mesh, std::vector<std::unique_ptr<Party>>& ps, const Fn& fn) {
  mesh.blocking = true;
  std::vector<std::string> errs(ps.size());
  std::vector<std::thread> ts;
  std::atomic<std::size_t> running{ps.size()};
  for (std::size_t i = 0; i < ps.size(); i++)
    ts.emplace_back([&, i]() {
      AsParty as(i);
      errs[i] = Thrown([&]() { fn(ps[i]->P(), i); });
      running--;
      std::lock_guard<std::mutex> l(mesh.mu);
      if (!errs[i].empty()) mesh.stop = true;
      mesh.cv.notify_all();
    });
  while (running && !mesh.stop) {
    std::this_thread::sleep_for(std::chrono::microseconds(200));
    std::lock_guard<std::mutex> l(mesh.mu);
    if (running && mesh.Stuck() == running) {  // a deadlock
      mesh.stop = true;
      mesh.cv.notify_all();
    }
  }
  for (auto& t : ts) t.join();
  mesh.blocking = false;
  mesh.stop = false;
  for (auto& e : errs)
    if (!e.empty()) return e;
  return "";
}
// The whole online phase by one call per party, or one per layer.
template <typename Party>
std::string OnlineTogether(Mesh& mesh, std::vector<std::unique_ptr<Party>>& ps, std::size_t depth, u64 how) {
  return Together(mesh, ps, [&](tp::Circuit& c, std::size_t i) {
    if ((how >> (i % 8)) & 1) return c.RunProtocol();
    c.RunInput();
    for (std::size_t l = 0; l < depth; l++) c.RunMult(l);
    c.RunOutput();
  });
}
inline void FreshNonces(Rng& r, std::size_t n) {
  g_nonce.clear();
  for (std::size_t i = 0; i < n; i++) g_nonce.push_back((long long)r.Next());
}
struct Params {
  std::size_t n, t, k;
};
// n = t + 2(k-1) + 1 and t < n/2
inline Params RandomParams(Rng& r, std::size_t maxn) {
  while (true) {
    std::size_t k = 1 + r.Below(maxn / 2 + 1), t = r.Below(maxn / 2 + 1), n = t + 2 * (k - 1) + 1;
    if (n > maxn || 2 * t >= n) continue;
    if (t == 0 && !r.Chance(1, 4)) continue;
    return {n, t, k};
  }
}
// exactly n parties
inline Params CrowdParams(Rng& r, std::size_t n) {
  std::size_t t = r.Below((n + 1) / 2);
  if ((n - 1 - t) % 2) t = t ? t - 1 : 1;
  return {n, t, (n - 1 - t) / 2 + 1};
}
inline std::string PrintVec(const u64v& v) {
  std::string s;
  for (auto x : v) s += Str(" ", x);
  return s;
}
}  // namespace vp
#endif
