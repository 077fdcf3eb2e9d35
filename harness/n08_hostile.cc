// N08: hostile bytes to discovery clients and servers, network set-up and
// typed receives; the outcome is compared with an independent parser.
#include <new>

#include "net.h"
#include "ref.h"
#include "scl/math/z2k.h"
#include "scl/net/discovery/client.h"
#include "scl/net/discovery/server.h"
#include "scl/net/network.h"
#include "smallff.h"
using namespace vp;

static thread_local std::size_t g_biggest = 0, g_total = 0;
void* operator new(std::size_t n) {
  if (n > g_biggest) g_biggest = n;
  g_total += n;
  void* p = std::malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }

static Ctx& c = Ctx::I();
using Bytes = std::vector<unsigned char>;
template <typename T>
void Put(Bytes& b, T v) {
  auto* p = (const unsigned char*)&v;
  b.insert(b.end(), p, p + sizeof v);
}
template <typename T>
bool Get(const Bytes& b, std::size_t& at, T& v) {
  if (b.size() - at < sizeof v) return false;
  std::memcpy(&v, b.data() + at, sizeof v);
  at += sizeof v;
  return true;
}

static u64 Odd(Rng& r, u64 limit) {
  switch (r.Below(8)) {
    case 0: return limit + 1;
    case 1: return limit;
    case 2: return limit + 1 + r.Below(10);
    case 3: return ~0ULL - r.Below(3);
    case 4: return 1ULL << r.Below(64);
    case 5: return r.Below(2 * limit + 2);
    case 6: return 0;
    default: return r.Next();
  }
}

struct Parsed {
  bool ok = false;
  unsigned own = 0;
  std::vector<scl::Party> ps;
};
static Parsed Expect(const Bytes& b, unsigned own) {
  Parsed p;
  p.own = own;
  std::size_t at = 0, n;
  if (!Get(b, at, n) || n > 255) return p;
  p.ps.resize(n);
  std::vector<bool> seen(n);
  for (std::size_t i = 0; i < n; i++) {
    unsigned id;
    int port;
    std::size_t len;
    if (!Get(b, at, id) || id >= n || seen[id]) return p;
    seen[id] = true;
    if (!Get(b, at, port) || !Get(b, at, len) || len > 255 || b.size() - at < len) return p;
    p.ps[id] = {id, std::string(b.begin() + at, b.begin() + at + len), port};
    at += len;
  }
  p.ok = own < n;
  return p;
}
static std::string Match(const scl::NetworkConfig& g, const Parsed& p) {
  if (!p.ok) return "an invalid configuration was accepted";
  auto q = g.Parties();
  if (g.Id() != p.own || q.size() != p.ps.size()) return "own id or size differs";
  for (std::size_t i = 0; i < q.size(); i++)
    if (q[i].id != p.ps[i].id || q[i].port != p.ps[i].port || q[i].hostname != p.ps[i].hostname) return Str("entry ", i, " differs from what was received");
  return "";
}

// a configuration as a server sends it, mostly with something wrong
static Bytes ServerBytes(Rng& r, std::string& what) {
  Bytes b;
  if (r.Chance(1, 12)) {
    what = "random bytes";
    b.resize(r.Below(200));
    for (auto& x : b) x = r.Chance(1, 2) ? 0 : (unsigned char)r.Next();
    return b;
  }
  std::size_t n = r.Chance(1, 12) ? 200 + r.Below(58) : r.Below(9), n_sent = n;
  int flaw = r.Below(8);
  std::vector<unsigned> ids(n);
  for (std::size_t i = 0; i < n; i++) ids[i] = i;
  if (r.Chance(1, 2))
    for (std::size_t i = n; i-- > 1;) std::swap(ids[i], ids[r.Below(i + 1)]);
  std::size_t at = n ? r.Below(n) : 0;
  what = Str("n=", n);
  if (flaw == 1) {
    n_sent = r.Chance(1, 2) ? Odd(r, 255) : n + 1;
    what += Str(" announced as ", n_sent);
  }
  if (flaw == 2 && n) {
    ids[at] = (unsigned)Odd(r, n - 1);
    what += Str(" entry ", at, " with id ", ids[at]);
  }
  if (flaw == 3 && n > 1) {
    ids[at] = ids[(at + 1 + r.Below(n - 1)) % n];
    what += Str(" entry ", at, " duplicate");
  }
  Put(b, n_sent);
  for (std::size_t i = 0; i < n; i++) {
    Put(b, ids[i]);
    Put(b, (int)r.Next());
    std::size_t len = r.Chance(1, 6) ? 250 + r.Below(8) : r.Chance(1, 5) ? 0 : r.Below(20), sent = len;
    if (len > 255) what += Str(" host name of ", len);
    if (flaw == 4 && i == at) {
      sent = Odd(r, 255);
      what += Str(" entry ", i, " host name announced as ", sent);
    }
    Put(b, sent);
    for (std::size_t k = 0; k < len; k++) b.push_back((unsigned char)(r.Chance(1, 8) ? r.Next() : 'a' + k % 26));
  }
  if (flaw == 5 && !b.empty()) {
    b.resize(r.Below(b.size()));
    what += Str(" cut at ", b.size());
  }
  if (flaw == 6)
    for (int k = 1 + r.Below(4); k-- > 0 && !b.empty();) {
      b[r.Below(b.size())] ^= (unsigned char)(1u << r.Below(8));
      what += " bit flips";
    }
  if (flaw == 7) {
    for (int k = r.Below(20); k-- > 0;) b.push_back((unsigned char)r.Next());
    what += " trailing bytes";
  }
  return b;
}

static void Client(Rng& r) {
  std::string what;
  auto b = ServerBytes(r, what);
  unsigned own = r.Chance(1, 8) ? (unsigned)Odd(r, 8) : r.Below(9);
  auto exp = Expect(b, own);
  c.Begin(Str("client ", own, " receives ", what, ": ", Hex(b.data(), b.size() < 300 ? b.size() : 300)));
  auto bc = std::make_shared<BytesChannel>(b);
  std::shared_ptr<scl::Channel> ch = bc;
  std::string e, t;
  g_biggest = g_total = 0;
  t = Thrown([&]() {
    scl::DiscoveryClient::SendIdAndPort step(own, 1234);
    auto g = scl::Evaluate(step, ch);
    e = Match(g, exp);
  });
  c.Check(t != "exception of unknown type", "client:exception", "not an ordinary exception");
  c.Check(g_biggest < 200000, "client:alloc", Str("allocated ", g_biggest, " bytes at once"));
  c.Check(bc->biggest <= 4096, "client:read", Str("read ", bc->biggest, " bytes at once"));
  if (t.empty()) {
    c.Check(e.empty(), "client:accepted", e);
    c.Count("client_valid");
  } else {
    c.Check(!exp.ok, "client:refused", "a valid configuration was refused: " + t);
    c.Count("client_refused");
  }
  c.End();
}

static void Server(Rng& r) {
  int n = 1 + r.Below(7);
  unsigned me = r.Below(n);
  std::vector<std::string> hosts;
  for (int i = 0; i < n; i++) hosts.push_back(Str("10.0.0.", r.Below(256)));
  std::vector<unsigned> ids;
  for (int i = 0; i < n; i++)
    if (i != (int)me) ids.push_back(i);
  for (int i = ids.size(); i-- > 1;) std::swap(ids[i], ids[r.Below(i + 1)]);
  int flaw = r.Below(5);
  bool ok = true;
  std::string what = Str("server ", me, " of ", n, " receives");
  std::size_t bad = ids.empty() ? 0 : r.Below(ids.size()), cut = 8;
  if (!ids.empty()) {
    if (flaw == 1) ids[bad] = n + r.Below(3);
    if (flaw == 2) ids[bad] = (unsigned)Odd(r, n - 1);
    if (flaw == 3) ids[bad] = r.Chance(1, 2) ? me : ids[r.Below(ids.size())];
    if (flaw == 4) cut = r.Below(8);
  }
  std::vector<std::shared_ptr<scl::Channel>> chs(n);
  std::vector<std::shared_ptr<BytesChannel>> bcs(n);
  std::vector<int> ports;
  std::vector<bool> seen(n);
  seen[me] = true;
  std::size_t k = 0;
  for (int i = 0; i < n; i++) {
    if (i == (int)me) continue;
    Bytes b;
    Put(b, ids[k]);
    ports.push_back((int)r.Next());
    Put(b, ports.back());
    if (k == bad && cut < 8) b.resize(cut), ok = false;
    if (ids[k] >= (unsigned)n || seen[ids[k]])
      ok = false;
    else
      seen[ids[k]] = true;
    if (!(k == bad && cut < 8) && r.Chance(1, 6)) Put(b, r.Next());
    what += Str(" ", ids[k]);
    chs[i] = bcs[i] = std::make_shared<BytesChannel>(b);
    k++;
  }
  c.Begin(what + (cut < 8 ? Str(" cut at ", cut) : "") + Str(" seed ", r.s));
  scl::Party self{me, "server", 4321};
  std::string e;
  g_biggest = 0;
  auto t = Thrown([&]() {
    scl::DiscoveryServer::Ctx ctx{self, scl::Network{chs}};
    scl::DiscoveryServer::CollectIdsAndPorts step(hosts);
    auto g = scl::Evaluate(step, ctx);
    if (!ok) return;
    auto ps = g.Parties();
    std::size_t k = 0;
    if (g.Id() != me || ps.size() != (std::size_t)n) e = "own id or size differs";
    for (int i = 0; i < n && e.empty(); i++) {
      if (i == (int)me) continue;
      if (ps[ids[k]].id != ids[k] || ps[ids[k]].port != ports[k]) e = Str("party ", ids[k], " differs from what it announced");
      k++;
    }
    if (e.empty() && (ps[me].id != me || ps[me].hostname != "server" || ps[me].port != 4321)) e = "the server's own entry differs";
    // everybody is told the same
    for (int i = 0; i < n && e.empty(); i++) {
      if (i == (int)me) continue;
      auto p = Expect(bcs[i]->out, 0);
      if (!p.ok || p.ps.size() != (std::size_t)n) e = "what a client was sent is not a configuration";
      for (int j = 0; j < n && e.empty(); j++)
        if (p.ps[j].id != ps[j].id || p.ps[j].port != ps[j].port || p.ps[j].hostname != ps[j].hostname) e = "a client was sent another configuration";
    }
  });
  c.Check(g_biggest < 100000, "server:alloc", Str("allocated ", g_biggest, " bytes at once"));
  c.Check(t != "exception of unknown type", "server:exception", "not an ordinary exception");
  c.Check(!t.empty() == !ok, t.empty() ? "server:accepted" : "server:refused", t.empty() ? "invalid ids were accepted" : "valid ids were refused: " + t);
  c.Check(e.empty(), "server:config", e);
  c.Count(ok ? "server_valid" : "server_refused");
  c.End();
}

// typed receives of arbitrary bytes
template <typename T>
void TypedOf(Rng& r, const char* name) {
  bool mat = r.Chance(1, 2);
  Bytes b;
  u64 rows = r.Chance(1, 2) ? r.Below(20) : Odd(r, 1u << 25), cols = r.Chance(1, 2) ? r.Below(20) : Odd(r, r.Chance(1, 2) ? 1u << 25 : 3000);
  // sizes the receiver would have to serve are kept small here
  std::uint32_t a = (std::uint32_t)rows, d = mat ? (std::uint32_t)cols : 1;
  const u64 L = 1u << 25;
  if ((u128)a * d <= L && (u128)a * d > 100000) a %= 300, d %= 300;
  Put(b, a);
  if (mat) Put(b, d);
  u64 need = (u64)a * d;
  bool fits = need <= L;
  std::size_t body = fits ? need * T::ByteSize() : r.Below(100);
  int cutm = r.Below(4);
  if (cutm == 0 && body) body = r.Below(body);
  if (cutm == 1) body += r.Below(30);
  for (std::size_t i = 0; i < body; i++) b.push_back(r.Chance(1, 3) ? 0xff : (unsigned char)r.Next());
  if (r.Chance(1, 20)) b.resize(r.Below(9));
  c.Begin(Str(mat ? "Mat<" : "Vec<", name, "> announced ", a, mat ? Str(" x ", d) : "", " with ", b.size(), " bytes in all, seed ", r.s));
  std::size_t hdr = mat ? 8 : 4;
  bool ok = b.size() >= hdr && fits && b.size() - hdr >= need * T::ByteSize();
  BytesChannel ch(b);
  scl::Vec<T> v;
  scl::Mat<T> m;
  g_biggest = 0;
  auto t = Thrown([&]() { mat ? ch.Recv(m) : ch.Recv(v); });
  c.Check(t != "exception of unknown type", "typed:exception", "not an ordinary exception");
  c.Check(g_biggest <= (fits ? need * (T::ByteSize() + sizeof(T) * 2) : 0) + 5000, "typed:alloc", Str("allocated ", g_biggest, " bytes"));
  if (t.empty()) {
    c.Check(ok, "typed:accepted", "a malformed message was accepted");
    if (ok) {
      bool sz = mat ? m.Rows() == a && m.Cols() == d : v.Size() == a;
      c.Check(sz, "typed:size", "the size differs from the one announced");
      for (u64 i = 0; sz && i < need; i++) {
        T e = T::Read(b.data() + hdr + i * T::ByteSize());
        bool same = mat ? m(i / d, i % d) == e : v[i] == e;
        if (!c.Check(same, "typed:value", Str("entry ", i, " differs"))) break;
      }
      c.Check(ch.pos == hdr + need * T::ByteSize(), "typed:consumed", "consumed another number of bytes");
    }
    c.Count("typed_valid");
  } else {
    c.Check(!ok, "typed:refused", "a valid message was refused: " + t);
    c.Count("typed_refused");
  }
  c.End();
}

// the same over real connections: truncation is a closed connection
static void LiveClient(Rng& r) {
  std::string what;
  auto b = ServerBytes(r, what);
  unsigned own = r.Below(4);
  auto exp = Expect(b, own);
  int fd[2];
  TcpPair(fd);
  c.Begin(Str("live client ", own, " receives ", what));
  std::thread t([&]() {
    unsigned char hello[8];
    RawRecv(fd[1], hello, 8);
    std::size_t half = r.Below(b.size() + 1);
    RawSend(fd[1], b.data(), half);
    if (r.Chance(1, 2)) std::this_thread::sleep_for(std::chrono::microseconds(300));
    RawSend(fd[1], b.data() + half, b.size() - half);
    ::shutdown(fd[1], SHUT_WR);
  });
  std::string e;
  auto th = Thrown([&]() {
    std::shared_ptr<scl::Channel> ch = std::make_shared<scl::TcpChannel>(fd[0]);
    scl::DiscoveryClient::SendIdAndPort step(own, 77);
    e = Match(scl::Evaluate(step, ch), exp);
  });
  t.join();
  ::close(fd[1]);
  c.Check(th.empty() == exp.ok, th.empty() ? "live-client:accepted" : "live-client:refused", th);
  c.Check(e.empty(), "live-client:config", e);
  c.End();
}
static void LiveServer(Rng& r) {
  int n = 2 + r.Below(4);
  unsigned me = r.Below(n);
  int port = ClaimPorts(r, 1);
  std::vector<unsigned> ids;
  for (int i = 0; i < n; i++)
    if (i != (int)me) ids.push_back(i);
  for (int i = ids.size(); i-- > 1;) std::swap(ids[i], ids[r.Below(i + 1)]);
  std::size_t bad = r.Below(ids.size()), cut = 8;
  int flaw = r.Below(4);
  if (flaw == 1) ids[bad] = n + r.Below(100000);
  if (flaw == 2) ids[bad] = me;
  if (flaw == 3) cut = r.Below(8);
  c.Begin(Str("live server ", me, " of ", n, " flaw ", flaw, " at ", bad, " cut ", cut, " seed ", r.s));
  std::string serr;
  std::size_t got = 0;
  std::thread st([&]() { serr = Thrown([&]() { got = scl::DiscoveryServer(port, n).Run({me, "h", 5}).NetworkSize(); }); });
  std::vector<int> fds;
  for (std::size_t i = 0; i < ids.size(); i++) {
    int fd = RawConnect(port);
    if (fd < 0) EnvFail("connect");
    fds.push_back(fd);
  }
  for (std::size_t i = 0; i < ids.size(); i++) {
    Bytes b;
    Put(b, ids[i]);
    Put(b, (int)(1000 + i));
    if (i == bad && cut < 8) {
      b.resize(cut);
      RawSend(fds[i], b.data(), b.size());
      if (r.Chance(1, 2)) {
        Reset(fds[i]);
        fds[i] = -1;
      } else
        ::shutdown(fds[i], SHUT_WR);
    } else
      RawSend(fds[i], b.data(), b.size());
  }
  st.join();
  c.Check(serr.empty() == (flaw == 0), flaw ? "live-server:accepted" : "live-server:refused", serr);
  if (!flaw) c.Check(got == (std::size_t)n, "live-server:size", "wrong size");
  for (int fd : fds)
    if (fd >= 0) ::close(fd);
  c.End();
}
static void LiveNetwork(Rng& r) {
  // more than N05: random bytes instead of an id, connections that vanish
  int n = 2 + r.Below(3), port = ClaimPorts(r, 1);
  bool threaded = r.Chance(1, 2);
  Bytes b(r.Below(5));
  for (auto& x : b) x = r.Chance(1, 3) ? 0 : (unsigned char)r.Next();
  unsigned id = 0;
  bool ok = n == 2 && b.size() == 4;
  if (b.size() == 4) std::memcpy(&id, b.data(), 4);
  ok = ok && id == 1;
  if (b.size() == 4 && id >= 1 && id < (unsigned)n && n > 2) b[3] |= 0x80;
  c.Begin(Str("live network of ", n, threaded ? " threaded" : "", " receives ", Hex(b.data(), b.size()), " seed ", r.s));
  std::vector<scl::Party> ps;
  for (int i = 0; i < n; i++) ps.push_back({(unsigned)i, "127.0.0.1", port});
  std::string err;
  std::thread t([&]() {
    err = Thrown([&]() {
      auto cfg = scl::NetworkConfig(0, ps);
      auto net = threaded ? scl::Network::CreateThreadedSenders(cfg) : scl::Network::Create(cfg);
    });
  });
  int fd = RawConnect(port);
  RawSend(fd, b.data(), b.size());
  if (r.Chance(1, 3))
    Reset(fd), fd = -1;
  else
    ::shutdown(fd, SHUT_WR);
  t.join();
  if (fd >= 0) ::close(fd);
  if (fd >= 0 || !ok) c.Check(err.empty() == ok, ok ? "live-network:refused" : "live-network:accepted", err);
  c.End();
}

int main(int argc, char** argv) {
  c.Init(argc, argv);
  Rng r = c.MakeRng(0x108);
  for (long i = c.N(80000, 2500000); i-- > 0;) {
    Client(r);
    if (i % 2) Server(r);
    switch (r.Below(5)) {
      case 0: TypedOf<SmallFF<7>>(r, "GF7"); break;
      case 1: TypedOf<scl::FF<61>>(r, "FF61"); break;
      case 2: TypedOf<scl::FF<127>>(r, "FF127"); break;
      case 3: TypedOf<scl::Z2k<17>>(r, "Z2k<17>"); break;
      default: TypedOf<scl::Z2k<128>>(r, "Z2k<128>"); break;
    }
  }
  for (long i = c.N(800, 20000); i-- > 0;) {
    LiveClient(r);
    LiveServer(r);
    LiveNetwork(r);
  }
  return c.Finish();
}
