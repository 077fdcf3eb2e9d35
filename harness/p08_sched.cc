// P08: results and traffic do not depend on how the parties are scheduled.
// mode "": the deterministic scheduler; mode "free": free-running threads over
// in-memory and TCP networks with random delays.
#include "net.h"
#include "baton.h"
using namespace vp;
extern "C" long long vp_prg_nonce() { return NonceNow(); }
static Ctx& c = Ctx::I();

// A party's program: groups of steps one after the other; the steps of a group
// run at the same time (in the order given when run in lock step).
template <typename P>
using Program = std::vector<std::vector<StepOf<P>>>;

template <typename P>
static void Seq(Program<P>& g, const std::vector<StepOf<P>>& s) {
  for (auto& x : s) g.push_back({x});
}

enum Style { kTests, kPrograms, kProgramsPlain, kSplit, kStyles };
static const char* kStyleName[] = {"tests", "programs", "programs-without-threads", "kind-by-kind"};

static Program<tp::Circuit> MainProgram(int style, std::size_t depth, bool run_protocol) {
  using C = tp::Circuit;
  Program<C> g;
  auto prep = MainPrep(), fd = MainFd();
  if (style == kPrograms) {
    g.push_back({prep[0], prep[1]});
    g.push_back({prep[2], prep[3], prep[4]});
  } else if (style == kSplit) {
    Seq<C>(g, {{"fi-send", [](C& x) { x.GenIndShrsPartiesSend(); }},
               {"fi-recv", [](C& x) { x.GenIndShrsPartiesReceive(); }},
               {"fi-send", [](C& x) { x.GenUnpackedShrPartiesSend(); }},
               {"fi-recv", [](C& x) { x.GenUnpackedShrPartiesReceive(); }},
               {"fi-send", [](C& x) { x.GenZeroPartiesSend(); }},
               {"fi-recv", [](C& x) { x.GenZeroPartiesReceive(); }},
               {"fi-send", [](C& x) { x.GenZeroForProdPartiesSend(); }},
               {"fi-recv", [](C& x) { x.GenZeroForProdPartiesReceive(); }},
               prep[2], prep[3], prep[4]});
  } else
    Seq(g, prep);
  if (style == kPrograms || style == kProgramsPlain)
    Seq<C>(g, {fd[0], fd[1], fd[2], fd[4], fd[3], fd[5]});
  else
    Seq(g, fd);
  g.push_back({{"inputs", nullptr}});
  if (run_protocol)
    g.push_back({{"online", [](C& x) { x.RunProtocol(); }}});
  else
    Seq(g, MainOnline(depth));
  return g;
}
static Program<tp::DN07> DnProgram(int style, std::size_t depth) {
  Program<tp::DN07> g;
  auto prep = DnPrep();
  if (style == kPrograms)
    g.push_back({prep[0], prep[1]});
  else
    Seq(g, prep);
  Seq(g, DnFd());
  g.push_back({{"inputs", nullptr}});
  if (style == kPrograms) {
    auto o = DnOnline(depth, true);
    Seq<tp::DN07>(g, {o[0], o[1], o[2]});
    for (std::size_t l = 0; l < depth; l++) {
      g.push_back({o[3 + 4 * l], o[4 + 4 * l]});
      g.push_back({o[5 + 4 * l], o[6 + 4 * l]});
    }
    Seq<tp::DN07>(g, {o[3 + 4 * depth], o[4 + 4 * depth]});
  } else
    Seq(g, DnOnline(depth, style == kSplit));
  return g;
}

template <typename Party, typename P>
static void RunStep(Party& party, const StepOf<P>& s, const std::vector<FF>& in) {
  Ledger::step = s.name;
  if (s.run)
    s.run(party.P());
  else
    party.SetInputs(in);
}

static std::unique_ptr<MainParty> Make(const Spec& s, std::shared_ptr<scl::Network> nw, std::size_t i, std::size_t t, MainParty*) {
  auto p = std::make_unique<MainParty>(s, nw, i);
  p->Correlate(t);
  return p;
}
static std::unique_ptr<DnParty> Make(const Spec& s, std::shared_ptr<scl::Network> nw, std::size_t i, std::size_t t, DnParty*) {
  return std::make_unique<DnParty>(s, nw, i, t);
}

template <typename Party, typename P>
static void Scheduled(Rng& r, const char* what, const Params& p, const Spec& s, const u64v& in, const Program<P>& prog, const std::string& style,
                      bool concurrent_steps) {
  u64 nseed = r.Next();
  auto want = s.OutputsPerParty(in);
  auto parts = s.InputsPerParty(in);
  auto nonces = [&]() {
    Rng q(nseed);
    FreshNonces(q, p.n);
  };
  c.Begin(Str(what, " lock step n=", p.n, " t=", p.t, " ", style, " nonces ", nseed, " ", s.Print(), " inputs", PrintVec(in)));
  // lock step: the reference for traffic
  nonces();
  auto mesh0 = std::make_shared<Mesh>(p.n);
  Ledger led0;
  std::vector<std::unique_ptr<Party>> ps;
  auto err = Thrown([&]() {
    for (std::size_t i = 0; i < p.n; i++) ps.push_back(Make(s, SchedNetwork(nullptr, mesh0, &led0, i), i, p.t, (Party*)nullptr));
    for (auto& group : prog)
      for (auto& step : group) {
        if (step.name == "online") continue;
        for (std::size_t i = 0; i < p.n; i++) {
          AsParty as(i);
          RunStep(*ps[i], step, parts[i]);
        }
      }
  });
  bool whole_online = prog.back()[0].name == "online";
  if (!c.Check(err.empty(), "lock-step-error", Str("in lock step the protocol stopped with ", err))) return;
  if (!whole_online)
    for (std::size_t i = 0; i < p.n; i++) {
      auto got = ps[i]->Outputs(s);
      c.Check(got == want[i], "lock-step-output", Str("party ", i, " obtains", PrintVec(got), " instead of", PrintVec(want[i])));
    }
  c.EndSig(0, false);
  int scheds = 6;
  for (int k = 0; k < scheds; k++) {
    int policy = (int)r.Below(kPolicies);
    std::size_t fav = r.Chance(1, 3) ? 0 : r.Below(p.n);
    u64 sseed = r.Next();
    c.Begin(Str(what, " n=", p.n, " t=", p.t, " ", style, " ", PolicyName(policy), " ", fav, " schedule ", sseed, " nonces ", nseed, " ", s.Print(), " inputs", PrintVec(in)));
    nonces();
    auto mesh = std::make_shared<Mesh>(p.n);
    Ledger led;
    Sched sched(sseed, policy, fav);
    std::vector<std::unique_ptr<Party>> qs;
    for (std::size_t i = 0; i < p.n; i++) qs.push_back(Make(s, SchedNetwork(&sched, mesh, &led, i), i, p.t, (Party*)nullptr));
    for (std::size_t i = 0; i < p.n; i++)
      sched.Add(i, [&, i]() {
        Party& party = *qs[i];
        for (auto& group : prog) {
          std::vector<std::size_t> sub;
          for (std::size_t g = 1; g < group.size(); g++) sub.push_back(sched.Add(i, [&, i, g, grp = &group]() { RunStep(*qs[i], (*grp)[g], parts[i]); }));
          RunStep(party, group[0], parts[i]);
          if (!sub.empty()) sched.Join(sub);
        }
      });
    sched.Run();
    if (!c.Check(sched.deadlock.empty(), "deadlock", Str("nobody can continue: ", sched.deadlock)) ||
        !c.Check(sched.error.empty(), "error", Str("the protocol stopped with ", sched.error)))
      continue;
    for (std::size_t i = 0; i < p.n; i++) {
      auto got = qs[i]->Outputs(s);
      c.Check(got == want[i], "output", Str("party ", i, " obtains", PrintVec(got), " instead of", PrintVec(want[i])));
    }
    c.Check(mesh->Left().empty(), "leftover", mesh->Left());
    if (!whole_online) {
      c.Check(Ledger::Diff(led0.moved, led.moved).empty(), "ledger", Ledger::Diff(led0.moved, led.moved));
      if (!concurrent_steps)
        for (std::size_t a = 0; a < p.n; a++)
          for (std::size_t b = 0; b < p.n; b++)
            c.Check(mesh0->link[a][b].hash == mesh->link[a][b].hash, "traffic", Str("party ", a, " sends other bytes to ", b, " than in lock step"));
    }
    c.Count("switches", sched.switches);
    c.Count("waits", sched.blocked);
    c.Count(Str("policy-", PolicyName(policy)));
    c.Count(Str(what, "-", style));
    c.EndSig(sched.signature ^ Mix(nseed), s.Mults() > 0);
  }
}

static void One(Rng& r, std::size_t maxn, int size) {
  bool dn = r.Chance(2, 5);
  Params p{0, 0, 0};
  do {
    if (dn) {
      p.n = 2 + r.Below(maxn - 1), p.t = r.Below((p.n + 1) / 2), p.k = 1 + r.Below(4);
    } else
      p = RandomParams(r, maxn);
  } while (p.n < 2);
  Spec s = RandomSpec(r, p.n, p.k, size);
  if (s.ops.size() > 90) return;
  u64v in = RandomInputs(r, s);
  int style = (int)r.Below(kStyles);
  // The programs' parallel halves need t > 0: otherwise the first party's own
  // share and product share travel over the same link to itself.
  if (!dn && p.t == 0 && style == kPrograms) style = kProgramsPlain;
  if (dn)
    Scheduled<DnParty, tp::DN07>(r, "baseline", p, s, in, DnProgram(style, s.Depth()), kStyleName[style], style == kPrograms);
  else {
    bool whole = r.Chance(1, 6);
    Scheduled<MainParty, tp::Circuit>(r, "main", p, s, in, MainProgram(style, s.Depth(), whole), kStyleName[style], style == kPrograms);
  }
}

// ------------------------------------------------------------------ free
// Wraps a channel of a real network and delays operations at random.
class Delayed final : public scl::Channel {
 public:
  Delayed(std::shared_ptr<scl::Channel> c, std::shared_ptr<scl::Network> keep, u64 seed, int rate) : mC(c), mKeep(keep), mS(seed), mRate(rate) {}
  void Close() override { mC->Close(); }
  void Send(const unsigned char* p, std::size_t n) override {
    Pause();
    mC->Send(p, n);
  }
  void Recv(unsigned char* p, std::size_t n) override {
    Pause();
    mC->Recv(p, n);
  }

 private:
  void Pause() {
    if (!mRate) return;
    u64 v = Mix(mS + mCount++);
    if (v % mRate == 0) std::this_thread::sleep_for(std::chrono::microseconds((v >> 32) % 400));
  }
  std::shared_ptr<scl::Channel> mC;
  std::shared_ptr<scl::Network> mKeep;
  u64 mS;
  int mRate;
  std::atomic<u64> mCount{0};
};

struct NoDelete {
  void operator()(scl::Channel*) const {}
};

template <typename Party, typename P>
static void Free(Rng& r, const char* what, const Params& p, const Spec& s, const u64v& in, const Program<P>& prog, const std::string& style) {
  int kind = (int)r.Below(3);  // in memory, TCP, TCP with sending threads
  static const char* kinds[] = {"memory", "tcp", "tcp-threads"};
  bool mixed = r.Chance(1, 3);
  int delays = (int)r.Below(3) * 15;
  u64 seed = r.Next();
  c.Begin(Str(what, " free over ", kinds[kind], mixed ? " mixed" : "", " delays ", delays, " n=", p.n, " t=", p.t, " ", style, " seed ", seed, " ", s.Print(), " inputs", PrintVec(in)));
  Rng q(seed);
  FreshNonces(q, p.n);
  auto want = s.OutputsPerParty(in);
  auto parts = s.InputsPerParty(in);
  std::vector<std::string> errs(p.n);
  std::vector<u64v> got(p.n);
  std::vector<scl::Network> mem;
  int base = 0;
  if (kind == 0)
    mem = scl::Network::CreateFullInMemory(p.n);
  else
    base = ClaimPorts(r, (int)p.n);
  std::vector<u64> start(p.n), dseed(p.n);
  for (auto& x : start) x = q.Chance(1, 2) ? 0 : q.Below(8000);
  for (auto& x : dseed) x = q.Next();
  std::vector<int> threaded(p.n);
  for (auto& x : threaded) x = mixed ? (int)q.Below(2) : kind == 2;
  std::vector<std::thread> ts;
  std::atomic<std::size_t> ended{0};
  for (std::size_t i = 0; i < p.n; i++)
    ts.emplace_back([&, i]() {
      g_party = (int)i;
      std::shared_ptr<scl::Network> net;
      errs[i] = Thrown([&]() {
        std::this_thread::sleep_for(std::chrono::microseconds(start[i]));
        if (kind == 0)
          net = std::make_shared<scl::Network>(mem[i]);
        else {
          auto cfg = scl::NetworkConfig::Localhost((unsigned)i, p.n, base);
          net = std::make_shared<scl::Network>(threaded[i] ? scl::Network::CreateThreadedSenders(cfg) : scl::Network::Create(cfg));
        }
        std::vector<std::shared_ptr<scl::Channel>> ch;
        for (std::size_t j = 0; j < p.n; j++)
          ch.push_back(std::make_shared<Delayed>(std::shared_ptr<scl::Channel>(net->Party((unsigned)j), NoDelete()), net, dseed[i] + j * 7919, delays));
        auto party = Make(s, std::make_shared<scl::Network>(ch), i, p.t, (Party*)nullptr);
        for (auto& group : prog) {
          std::vector<std::thread> sub;
          std::vector<std::string> suberr(group.size());
          for (std::size_t g = 1; g < group.size(); g++)
            sub.emplace_back([&, g]() {
              g_party = (int)i;
              suberr[g] = Thrown([&]() { RunStep(*party, group[g], parts[i]); });
            });
          suberr[0] = Thrown([&]() { RunStep(*party, group[0], parts[i]); });
          for (auto& t : sub) t.join();
          for (auto& e : suberr)
            if (!e.empty()) throw std::runtime_error(e);
        }
        got[i] = party->Outputs(s);
        // a marker on every link must be the next thing there
        for (std::size_t j = 0; j < p.n; j++) {
          u64 m = Mix(seed + i * 1000 + j);
          net->Party((unsigned)j)->Send((const unsigned char*)&m, 8);
        }
        for (std::size_t j = 0; j < p.n; j++) {
          u64 m = 0;
          net->Party((unsigned)j)->Recv((unsigned char*)&m, 8);
          if (m != Mix(seed + j * 1000 + i)) throw std::runtime_error(Str("vp: something is left on the link from ", j));
        }
        ended++;
      });
      if (!errs[i].empty()) {
        // the others would wait for ever
        c.Fail(errs[i].find("vp: something") != std::string::npos ? "free-leftover" : "free-error", Str("party ", i, ": ", errs[i]));
        std::_Exit(c.Finish(false) ? 1 : 1);
      }
      while (ended < p.n) std::this_thread::sleep_for(std::chrono::microseconds(200));
      Thrown([&]() { net->Close(); });
    });
  for (auto& t : ts) t.join();
  for (std::size_t i = 0; i < p.n; i++) c.Check(got[i] == want[i], "free-output", Str("party ", i, " obtains", PrintVec(got[i]), " instead of", PrintVec(want[i])));
  c.Count(Str("free-", kinds[kind]));
  c.End(s.Mults() > 0);
}

static void OneFree(Rng& r) {
  bool dn = r.Chance(2, 5);
  Params p{0, 0, 0};
  do {
    if (dn)
      p.n = 2 + r.Below(6), p.t = r.Below((p.n + 1) / 2), p.k = 1 + r.Below(4);
    else
      p = RandomParams(r, 7);
  } while (p.n < 2);
  Spec s = RandomSpec(r, p.n, p.k, 3);
  if (s.ops.size() > 90) return;
  u64v in = RandomInputs(r, s);
  int style = (int)r.Below(kStyles);
  if (!dn && p.t == 0 && style == kPrograms) style = kProgramsPlain;
  if (dn)
    Free<DnParty, tp::DN07>(r, "baseline", p, s, in, DnProgram(style, s.Depth()), kStyleName[style]);
  else
    Free<MainParty, tp::Circuit>(r, "main", p, s, in, MainProgram(style, s.Depth(), r.Chance(1, 4)), kStyleName[style]);
}

int main(int argc, char** argv) {
  c.Init(argc, argv);
  bool fr = c.mode == "free";
  Rng r = c.MakeRng(fr ? 1008 : 108);
  if (fr)
    for (long i = 0, m = c.N(400, 8000); i < m; i++) OneFree(r);
  else {
    for (long i = 0, m = c.N(260, 6000); i < m; i++) One(r, 6, 2);
    for (long i = 0, m = c.N(16, 400); i < m; i++) One(r, 13, 3);
  }
  return c.Finish();
}
