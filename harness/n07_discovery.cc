// N07: discovery with clients arriving in any order, from one or from several
// loopback addresses, at servers with any own id.
#include "net.h"
#include "scl/net/discovery/client.h"
#include "scl/net/discovery/server.h"
using namespace vp;

static Ctx& c = Ctx::I();

static std::string CfgStr(const scl::NetworkConfig& g) {
  std::string s = Str("own ", g.Id(), ":");
  for (auto& p : g.Parties()) s += Str(" {", p.id, ",", p.hostname, ",", p.port, "}");
  return s;
}

static void Run(Rng& r, int n, int style) {
  // style 0: real clients from 127.0.0.1 concurrently in any order
  //       1: from several addresses, connecting in the order of their ids
  //       2: from several addresses in any order
  int dport = ClaimPorts(r, 1);
  unsigned me = r.Below(n);
  scl::Party self{me, r.Chance(1, 4) ? std::string(1 + r.Below(255), 'h') : Str("10.0.", r.Below(256), ".", r.Below(256)), 1 + (int)r.Below(65535)};
  struct Cl {
    unsigned id;
    int port;
    std::string addr, err;
    scl::NetworkConfig cfg;
    int fd = -1, delay = 0;
  };
  std::vector<Cl> cl;
  for (unsigned i = 0; i < (unsigned)n; i++)
    if (i != me) cl.push_back({i, 1 + (int)r.Below(65535), style ? Str("127.0.", r.Below(3), ".", 1 + r.Below(250)) : "127.0.0.1", "", {}, -1, 0});
  if (style != 1)
    for (int i = cl.size(); i-- > 1;) std::swap(cl[i], cl[r.Below(i + 1)]);
  std::string d;
  for (auto& x : cl) d += Str(" ", x.id, "@", x.addr, ":", x.port);
  c.Begin(Str("n=", n, " server ", me, style == 0 ? " clients at once:" : " clients in order of arrival:", d.substr(0, 1500), " seed ", r.s));
  scl::NetworkConfig scfg;
  std::string serr;
  std::thread st([&]() { serr = Thrown([&]() { scfg = scl::DiscoveryServer(dport, n).Run(self); }); });
  std::vector<std::thread> ts;
  std::atomic<int> turn{0};
  u64 seed = r.Next();
  if (style == 0) {
    // wait for the server, so that the clients need not poll for it
    bool early = r.Chance(1, 8);
    if (!early && !cl.empty()) {
      // one connection takes part as a client itself
      cl[0].fd = RawConnect(dport);
    }
    for (std::size_t i = 0; i < cl.size(); i++)
      ts.emplace_back([&, i]() {
        Rng q(seed + i);
        auto& x = cl[i];
        std::this_thread::sleep_for(std::chrono::microseconds(q.Below(3000)));
        x.err = Thrown([&]() {
          if (x.fd >= 0) {
            std::shared_ptr<scl::Channel> ch = std::make_shared<scl::TcpChannel>(x.fd);
            scl::DiscoveryClient::SendIdAndPort step(x.id, x.port);
            x.cfg = scl::Evaluate(step, ch);
          } else
            x.cfg = scl::DiscoveryClient("127.0.0.1", dport).Run(x.id, x.port);
        });
      });
  } else {
    for (auto& x : cl) {
      x.fd = RawConnect(dport, x.addr.c_str());
      if (x.fd < 0) EnvFail("connect");
    }
    for (std::size_t i = 0; i < cl.size(); i++)
      ts.emplace_back([&, i]() {
        Rng q(seed + i);
        auto& x = cl[i];
        if (q.Chance(1, 2)) std::this_thread::sleep_for(std::chrono::microseconds(q.Below(2000)));
        x.err = Thrown([&]() {
          std::shared_ptr<scl::Channel> ch = std::make_shared<scl::TcpChannel>(x.fd);
          scl::DiscoveryClient::SendIdAndPort step(x.id, x.port);
          x.cfg = scl::Evaluate(step, ch);
        });
      });
  }
  st.join();
  for (auto& t : ts) t.join();
  c.Check(serr.empty(), "server", "the server failed: " + serr);
  for (auto& x : cl) c.Check(x.err.empty(), "client", Str("client ", x.id, " failed: ", x.err));
  bool ok = serr.empty();
  for (auto& x : cl) ok &= x.err.empty();
  if (!ok) return c.End();
  // what everybody must have got
  std::vector<scl::Party> exp(n), idx(n);
  exp[me] = self;
  std::vector<std::string> by_arrival;  // addresses by accepted connection
  for (auto& x : cl) {
    exp[x.id] = {x.id, x.addr, x.port};
    by_arrival.push_back(x.addr);
  }
  std::size_t k = 0;
  for (int i = 0; i < n; i++) {
    idx[i] = exp[i];
    if ((unsigned)i != me) idx[i].hostname = by_arrival[k++];
  }
  auto same = [&](const scl::NetworkConfig& g, const std::vector<scl::Party>& e, bool hosts) {
    if (g.NetworkSize() != (std::size_t)n) return false;
    auto ps = g.Parties();
    for (int i = 0; i < n; i++)
      if (ps[i].id != e[i].id || ps[i].port != e[i].port || (hosts && ps[i].hostname != e[i].hostname)) return false;
    return true;
  };
  auto one = [&](const scl::NetworkConfig& g, unsigned id, const char* who) {
    c.Check(g.Id() == id, Str("own-id:", who), Str("own id ", g.Id(), " instead of ", id));
    if (!c.Check(same(g, exp, false), Str("ids-ports:", who), "ids or ports are not those announced: " + CfgStr(g))) return;
    if (same(g, exp, true)) {
      c.Count("correct_configs");
      return;
    }
    // The recorded finding is exactly: party i gets the address of the i-th
    // connection.  Anything else is another violation.
    bool known = same(g, idx, true);
    if (known) c.Count("configs_with_addresses_by_arrival");
    c.Check(false, known ? std::string("hostname-by-id-index") : Str("hostname:", who), "host names are not those of the connections: " + CfgStr(g));
  };
  one(scfg, me, "server");
  for (auto& x : cl) one(x.cfg, x.id, "client");
  // all the same
  for (auto& x : cl) {
    auto a = x.cfg.Parties(), b = scfg.Parties();
    bool eq = a.size() == b.size();
    for (std::size_t i = 0; i < a.size() && eq; i++) eq = a[i].id == b[i].id && a[i].hostname == b[i].hostname && a[i].port == b[i].port;
    c.Check(eq, "different", "client and server obtained different configurations");
  }
  c.Max("max_parties", n);
  c.End(n > 1);
}

static void Limits() {
  c.Begin("limit on the number of parties");
  for (std::size_t n : {256ul, 257ul, 1000ul, 1ul << 32, ~0ul}) {
    c.Check(!Thrown([&]() { scl::DiscoveryServer s(1, n); }).empty(), "limit", Str("a server for ", n, " parties was accepted"));
    c.Check(!Thrown([&]() { scl::DiscoveryServer s(n); }).empty(), "limit", Str("a server for ", n, " parties was accepted"));
  }
  for (std::size_t n : {2ul, 254ul, 255ul}) c.Check(Thrown([&]() { scl::DiscoveryServer s(1, n); }).empty(), "limit:low", Str("a server for ", n, " parties was refused"));
  c.End();
}

int main(int argc, char** argv) {
  c.Init(argc, argv);
  Rng r = c.MakeRng(0x107);
  Limits();
  for (long i = c.N(2400, 60000); i-- > 0;) {
    int n = 2 + r.Below(r.Chance(1, 10) ? 30 : 7);
    Run(r, n, r.Below(3));
  }
  if (c.shard < 3 || c.thorough) Run(r, 255, c.shard % 3);
  return c.Finish();
}
