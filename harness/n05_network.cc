// N05: networks over TCP (parties started in any order), in memory, and mocks;
// peers that announce impossible ids.
#include <poll.h>

#include <future>

#include "net.h"
#include "scl/net/network.h"
using namespace vp;

static Ctx& c = Ctx::I();

static u64 LinkSeed(u64 seed, int i, int j, int round) { return Mix(seed ^ Mix((u64)i * 1000003 + (u64)j * 7919 + round)); }

// One party's traffic: sends on all links, then receives on all links.
static std::string Traffic(scl::Network& net, int i, int n, u64 seed, u64 pseed) {
  Rng q(pseed);
  for (int round = 0; round < 3; round++) {
    std::vector<int> o(n);
    for (int j = 0; j < n; j++) o[j] = j;
    for (int j = n; j-- > 1;) std::swap(o[j], o[q.Below(j + 1)]);
    for (int j : o) {
      u64 s = LinkSeed(seed, i, j, round);
      auto b = StreamBytes(s, 0, 1 + s % 700);
      net.Party(j)->Send(b.data(), b.size());
    }
    for (int j = n; j-- > 1;) std::swap(o[j], o[q.Below(j + 1)]);
    for (int j : o) {
      u64 s = LinkSeed(seed, j, i, round);
      std::vector<unsigned char> b(1 + s % 700);
      net.Party(j)->Recv(b.data(), b.size());
      if (StreamDiff(s, 0, b.data(), b.size()) >= 0)
        return Str("party ", i, " received on its link to ", j, " what was not sent there (round ", round, ")");
    }
  }
  return "";
}

static void Tcp(Rng& r, bool late = false, int many = 0) {
  int n = many ? many : 1 + late + r.Below(r.Chance(1, 6) ? 12 : 6);
  int base = ClaimPorts(r, n);
  std::vector<int> port(n);
  for (int i = 0; i < n; i++) port[i] = base + i;
  bool listed = r.Chance(1, 2), local = !listed && r.Chance(1, 2);
  std::vector<scl::Party> ps;
  if (!local)
    for (int i = n; i-- > 1;) std::swap(port[i], port[r.Below(i + 1)]);
  for (int i = 0; i < n; i++) ps.push_back({(unsigned)i, "127.0.0.1", port[i]});
  u64 seed = r.Next();
  std::vector<int> kind(n), delay(n);
  int style = r.Below(4);
  std::string d;
  for (int i = 0; i < n; i++) {
    kind[i] = style == 0 ? 0 : style == 1 ? 1 : (int)r.Below(2);
    // servers mostly first (fast), sometimes in any order
    int m = r.Below(3);
    delay[i] = style == 3 ? (n - 1 - i) * 8 : m == 0 ? 0 : (int)r.Below(40);
  }
  if (late) delay[r.Below(n)] = 3500 + (int)r.Below(c.thorough && r.Chance(1, 4) ? 60000 : 9000);
  for (int i = 0; i < n; i++) d += Str(" ", i, kind[i] ? "t" : "p", "+", delay[i], "ms");
  c.Begin(Str("tcp n=", n, local ? " localhost" : listed ? " shuffled" : " ordered", d, " seed ", seed));
  std::vector<std::string> errs(n);
  std::vector<std::thread> ts;
  std::atomic<int> ready{0};
  std::vector<u64> sh(n);
  for (auto& x : sh) x = r.Next();
  std::vector<std::unique_ptr<scl::Network>> nets(n);
  for (int i = 0; i < n; i++)
    ts.emplace_back([&, i]() {
      std::this_thread::sleep_for(std::chrono::milliseconds(delay[i]));
      errs[i] = Thrown([&]() {
        auto list = ps;
        Rng q(sh[i]);
        if (listed)
          for (int k = n; k-- > 1;) std::swap(list[k], list[q.Below(k + 1)]);
        auto cfg = local ? scl::NetworkConfig::Localhost(i, n, base) : scl::NetworkConfig(i, list);
        nets[i] = std::make_unique<scl::Network>(kind[i] ? scl::Network::CreateThreadedSenders(cfg) : scl::Network::Create(cfg));
        if (nets[i]->Size() != (std::size_t)n) throw std::runtime_error(Str("network of size ", nets[i]->Size()));
        auto e = Traffic(*nets[i], i, n, seed, sh[i] + 1);
        if (!e.empty()) throw std::runtime_error(e);
        // wait for the others, then close in any order
        ready++;
        while (ready < n) std::this_thread::yield();
        if (q.Chance(1, 2)) nets[i]->Close();
        nets[i].reset();
      });
      if (!errs[i].empty()) {
        ready += 1000;
        nets[i].reset();
      }
    });
  for (auto& t : ts) t.join();
  std::string e;
  for (auto& x : errs)
    if (!x.empty() && e.empty()) e = x;
  c.Check(e.empty(), "tcp", e);
  c.Count("tcp_links", (u64)n * (n + 1) / 2);
  c.Count("tcp_networks");
  if (late) c.Count("tcp_networks_with_a_party_starting_seconds_late");
  c.End(n > 1);
}

static void Memory(Rng& r, int many = 0) {
  int n = many ? many : 1 + r.Below(12);
  u64 seed = r.Next();
  c.Begin(Str("memory n=", n, " seed ", seed));
  auto nets = scl::Network::CreateFullInMemory(n);
  c.Check(nets.size() == (std::size_t)n, "memory:size", "wrong number of networks");
  std::vector<std::thread> ts;
  std::vector<std::string> errs(n);
  for (int i = 0; i < n; i++) {
    c.Check(nets[i].Size() == (std::size_t)n, "memory:size", "wrong network size");
    auto body = [&, i]() { errs[i] = Thrown([&]() {
        auto e = Traffic(nets[i], i, n, seed, seed + i);
        if (!e.empty()) throw std::runtime_error(e);
      }); };
    ts.emplace_back(body);
  }
  for (auto& t : ts) t.join();
  for (auto& e : errs) c.Check(e.empty(), "memory", e);
  c.Count("memory_networks");
  c.End(n > 1);
}

static void Mock(Rng& r, int many = 0) {
  int n = many ? many : 1 + r.Below(12), id = r.Below(n);
  u64 seed = r.Next();
  c.Begin(Str("mock n=", n, " id=", id, " seed ", seed));
  auto [net, rem] = scl::Network::CreateMock(id, n);
  c.Check(net.Size() == (std::size_t)n && rem.size() == (std::size_t)n, "mock:size", "wrong size");
  for (int j = 0; j < n; j++) {
    auto b = StreamBytes(LinkSeed(seed, id, j, 0), 0, 50), d = StreamBytes(LinkSeed(seed, j, id, 0), 0, 60);
    net.Party(j)->Send(b.data(), 50);
    if (j != id) rem[j]->Send(d.data(), 60);
  }
  for (int j = n; j-- > 0;) {
    std::vector<unsigned char> b(60);
    if (j == id) {
      net.Party(j)->Recv(b.data(), 50);
      c.Check(StreamDiff(LinkSeed(seed, id, j, 0), 0, b.data(), 50) < 0, "mock:self", "the channel to itself is not a loop-back");
      continue;
    }
    rem[j]->Recv(b.data(), 50);
    c.Check(StreamDiff(LinkSeed(seed, id, j, 0), 0, b.data(), 50) < 0, "mock", Str("remote end ", j, " got what was not sent to it"));
    net.Party(j)->Recv(b.data(), 60);
    c.Check(StreamDiff(LinkSeed(seed, j, id, 0), 0, b.data(), 60) < 0, "mock", Str("received from ", j, " what its remote end did not send"));
  }
  c.Count("mocks");
  c.End(n > 1);
}

// Party `me` accepts n-1-me raw connections, one of which may be wrong.
static void Peers(Rng& r) {
  int n = 2 + r.Below(5);
  int base = ClaimPorts(r, 1);
  bool threaded = r.Chance(1, 2);
  std::vector<unsigned> ids;
  for (int i = 1; i < n; i++) ids.push_back(i);
  for (int i = n - 1; i-- > 1;) std::swap(ids[i], ids[r.Below(i + 1)]);
  int bad = r.Chance(1, 4) ? -1 : (int)r.Below(n - 1);
  int how = r.Below(5), cut = 4;
  if (bad >= 0) {
    if (how == 0) ids[bad] = 0;
    if (how == 1) ids[bad] = n + r.Below(3);
    if (how == 2) {
      static const unsigned big[] = {0xffffffffu, 0x80000000u, 0x7fffffffu, 1u << 16, 0xfffffffeu};
      ids[bad] = r.Chance(1, 2) ? big[r.Below(5)] : (unsigned)(r.Next() | 0x100);
    }
    if (how == 3) {
      if (bad == 0) bad = n - 2;
      if (bad == 0)
        ids[bad] = 0;  // only one peer: nothing to duplicate
      else
        ids[bad] = ids[r.Below(bad)];
    }
    if (how == 4) cut = r.Below(4);
  }
  std::string d;
  for (auto x : ids) d += Str(" ", x);
  c.Begin(Str(threaded ? "threaded" : "plain", " party 0 of ", n, ", announced:", d, bad < 0 ? "" : Str(", bad at ", bad, " way ", how), " cut ", cut, " seed ", r.s));
  scl::NetworkConfig cfg(0, [&]() {
    std::vector<scl::Party> p;
    for (int i = 0; i < n; i++) p.push_back({(unsigned)i, "127.0.0.1", base + (i ? 0 : 0)});
    return p;
  }());
  std::unique_ptr<scl::Network> net;
  std::string err;
  std::thread t([&]() {
    err = Thrown([&]() { net = std::make_unique<scl::Network>(threaded ? scl::Network::CreateThreadedSenders(cfg) : scl::Network::Create(cfg)); });
  });
  std::vector<int> fds;
  int last = bad < 0 ? n - 2 : bad;
  for (int i = 0; i <= last; i++) {
    int fd = RawConnect(base);
    if (fd < 0) EnvFail("raw connect");
    RawSend(fd, &ids[i], i == bad ? cut : 4);
    if (i == bad && cut < 4) ::shutdown(fd, SHUT_WR);
    fds.push_back(fd);
  }
  t.join();
  if (bad >= 0) {
    c.Check(!err.empty(), Str("accepted:", how), "a wrong announcement was not refused");
    c.Count("refused");
  } else {
    c.Check(err.empty(), "refused", "correct announcements were refused: " + err);
    if (err.empty())
      for (int i = 0; i < n - 1; i++) {
        unsigned char x = 10 + i, y = 0;
        RawSend(fds[i], &x, 1);
        net->Party(ids[i])->Recv(&y, 1);
        c.Check(x == y, "mixed", "a connection was given to another id than announced");
        x += 100;
        net->Party(ids[i])->Send(&x, 1);
        y = 0;
        RawRecv(fds[i], &y, 1);
        c.Check(x == y, "mixed", "a message went to another peer");
      }
  }
  net.reset();
  for (int fd : fds) ::close(fd);
  c.End();
}

// One party of hundreds; all others are plain sockets.
static void Crowd(Rng& r) {
  int n = 250 + (int)r.Below(70), id = r.Chance(1, 2) ? n - 1 - (int)r.Below(20) : (int)r.Below(n);
  int base = ClaimPorts(r, 2);
  bool threaded = r.Chance(1, 2);
  c.Begin(Str(threaded ? "threaded" : "plain", " party ", id, " of ", n, " seed ", r.s));
  std::vector<scl::Party> ps;
  for (int i = 0; i < n; i++) ps.push_back({(unsigned)i, Str("127.1.", i / 200, ".", i % 200 + 1), i == id ? base : base + 1});
  std::vector<int> fds(n, -1), up;
  for (int i = id + 1; i < n; i++) up.push_back(i);
  for (std::size_t i = up.size(); i-- > 1;) std::swap(up[i], up[r.Below(i + 1)]);
  int ls = RawListen(base + 1, n);
  std::unique_ptr<scl::Network> net;
  std::string err, bad;
  std::atomic<bool> done{false};
  std::thread t([&]() {
    err = Thrown([&]() {
      scl::NetworkConfig cfg(id, ps);
      net = std::make_unique<scl::Network>(threaded ? scl::Network::CreateThreadedSenders(cfg) : scl::Network::Create(cfg));
    });
    done = true;
  });
  std::thread hi([&]() {
    for (int j : up) {
      int fd = -1;
      while (fd < 0 && !done) fd = RawConnect(base, nullptr, 0.5);
      if (fd < 0) break;
      unsigned x = (unsigned)j;
      RawSend(fd, &x, 4);
      fds[j] = fd;
    }
  });
  for (int j = 0; j < id; j++) {
    pollfd pf{ls, POLLIN, 0};
    int w = 0;
    while ((w = ::poll(&pf, 1, 50)) == 0 && !done) {
    }
    if (!w) w = ::poll(&pf, 1, 1000);
    if (!w) break;
    int fd = ::accept(ls, nullptr, nullptr);
    sockaddr_in to{};
    socklen_t len = sizeof to;
    ::getsockname(fd, (sockaddr*)&to, &len);
    unsigned ip = ::ntohl(to.sin_addr.s_addr), peer = ((ip >> 8) & 255) * 200 + (ip & 255) - 1, x = 0;
    if (peer >= (unsigned)id || fds[peer] >= 0) {
      bad = Str("a connection too many was made to party ", peer);
      ::close(fd);
      continue;
    }
    fds[peer] = fd;
    if (!RawRecv(fd, &x, 4) || x != (unsigned)id) bad = Str("the connection to ", peer, " announces id ", x);
  }
  hi.join();
  t.join();
  c.Check(err.empty() && bad.empty(), "crowd", err + bad);
  if (err.empty() && bad.empty() && c.Check(net->Size() == (std::size_t)n, "crowd:size", "wrong network size")) {
    for (int j = 0; j < n; j++) {
      if (j != id && fds[j] < 0) {
        c.Check(false, "crowd", Str("no connection was made to party ", j));
        break;
      }
      u64 x = LinkSeed(7, id, j, 0), y = LinkSeed(7, j, id, 0), z = 0;
      if (j == id) y = x;
      net->Party(j)->Send(x);
      if (j != id) RawSend(fds[j], &y, 8), RawRecv(fds[j], &z, 8);
      c.Check(j == id || z == x, "crowd:mixed", Str("party ", j, " received another party's message"));
      z = 0;
      net->Party(j)->Recv(z);
      c.Check(z == y, "crowd:mixed", Str("the link to party ", j, " delivers another party's message"));
    }
  }
  net.reset();
  for (int fd : fds)
    if (fd >= 0) ::close(fd);
  ::close(ls);
  c.Count("tcp_networks_of_hundreds");
  c.End();
}

int main(int argc, char** argv) {
  c.Init(argc, argv);
  Rng r = c.MakeRng(0x105);
  for (long i = c.N(320, 8000); i-- > 0;) Tcp(r);
  if (c.scale >= 1) {
    double t = c.case_timeout;
    c.case_timeout = c.thorough ? 150 : 60;
    for (long i = c.N(16, 200); i-- > 0;) Tcp(r, true);
    for (long i = c.N(8, 80); i-- > 0;) {
      Tcp(r, false, c.shard == 0 ? 33 + r.Below(4) : 17 + r.Below(7));
      Memory(r, 17 + r.Below(50));
      Mock(r, 250 + r.Below(60));
      Crowd(r);
    }
    c.case_timeout = t;
  }
  for (long i = c.N(800, 20000); i-- > 0;) Memory(r);
  for (long i = c.N(3000, 60000); i-- > 0;) Mock(r);
  for (long i = c.N(640, 16000); i-- > 0;) Peers(r);
  return c.Finish();
}
