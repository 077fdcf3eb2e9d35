// N02: TCP channels over real sockets, with kernel calls that transfer little,
// are interrupted or fail, and peers that close or reset at any point.
#include "faults.h"
#include "net.h"
#include "scl/net/tcp_channel.h"
using namespace vp;

static Ctx& c = Ctx::I();
static Faults& F = Faults::I();

static void MakePair(Rng& r, int fd[2], bool small = true) {
  bool tcp = r.Chance(1, 2);
  if (tcp)
    TcpPair(fd);
  else
    UnixPair(fd);
  if (small && r.Chance(1, 2)) {  // small kernel buffers split transfers
    // (TCP slows to a crawl with buffers below the loopback segment size)
    int sz = tcp ? 100000 : 2048 << r.Below(4);
    for (int i = 0; i < 2; i++) {
      ::setsockopt(fd[i], SOL_SOCKET, SO_SNDBUF, &sz, sizeof sz);
      ::setsockopt(fd[i], SOL_SOCKET, SO_RCVBUF, &sz, sizeof sz);
    }
  }
}
static std::string SetFaults(Rng& r) {
  F.Reset(r.Next());
  F.partial = r.Chance(1, 4) ? 0 : r.Below(100);
  F.intr = r.Chance(1, 2) ? 0 : r.Below(40);
  F.delay = r.Chance(1, 2) ? 0 : r.Below(20);
  F.on = true;
  return Str("partial ", F.partial.load(), "% interrupted ", F.intr.load(), "% delayed ", F.delay.load(), "%");
}

// both directions at once, in four threads
static void Streams(Rng& r, bool huge = false) {
  int fd[2];
  MakePair(r, fd);
  bool big = huge || r.Chance(1, 6);
  u64 total[2] = {1 + r.Below(big ? 3000000 : 40000), 1 + r.Below(big ? 3000000 : 40000)};
  if (huge) total[0] = ((u64)1 << 24) + 1000 + r.Below(8000000);
  if (huge || r.Chance(1, 5)) total[1] = 0;
  auto d = SetFaults(r);
  if (big && F.partial > 50) F.partial = 50;
  u64 seed = r.Next();
  c.Begin(Str("streams of ", total[0], " and ", total[1], " bytes, ", d, " seed ", seed));
  std::size_t mx = big ? 400000 : 5000;
  if (huge) F.partial = std::min(F.partial.load(), 5u), F.delay = 0;
  {
    scl::TcpChannel ch[2] = {fd[0], fd[1]};
    std::vector<std::thread> ts;
    std::atomic<long> bad{-1};
    std::mutex m;
    std::string threw;
    for (int d = 0; d < 2; d++) {
      u64 ds = seed + d * 0x100000000ULL;
      auto guard = [&](const char* w, const std::function<void()>& f) {
        auto t = Thrown(f);
        if (!t.empty()) {
          std::lock_guard<std::mutex> l(m);
          threw = std::string(w) + " " + t;
          for (int k = 0; k < 2; k++) ::shutdown(fd[k], SHUT_RDWR);
        }
      };
      ts.emplace_back([&, d, ds, guard]() {
        guard("send", [&]() {
          Rng q(Mix(ds) ^ 1);
          for (u64 at = 0; at < total[d];) {
            std::size_t n = huge && q.Chance(1, 2) ? total[d] : MsgSize(q, mx);
            if (n > total[d] - at) n = total[d] - at;
            auto m = StreamBytes(ds, at, n);
            ch[d].Send(m.data(), n);
            at += n;
          }
        });
      });
      ts.emplace_back([&, d, ds, guard]() {
        guard("receive", [&]() {
          Rng q(Mix(ds) ^ 2);
          for (u64 at = 0; at < total[d];) {
            std::size_t n = huge && q.Chance(1, 2) ? total[d] : MsgSize(q, mx);
            if (n > total[d] - at) n = total[d] - at;
            std::vector<unsigned char> m(n + 1, 0x77);
            ch[1 - d].Recv(m.data(), n);
            if ((StreamDiff(ds, at, m.data(), n) >= 0 || m[n] != 0x77) && bad < 0) bad = (long)at;
            at += n;
          }
        });
      });
    }
    for (auto& t : ts) t.join();
    F.on = false;
    c.Check(threw.empty(), "error", "a transfer on an intact connection failed: " + threw);
    c.Check(bad < 0, "bytes", Str("bytes received around position ", bad.load(), " are not those sent"));
    for (int d = 0; d < 2 && threw.empty() && bad < 0; d++) {
      unsigned char mark = 0x5e, got = 0;
      ch[d].Send(&mark, 1);
      ch[1 - d].Recv(&got, 1);
      c.Check(got == mark, "extra", "more bytes were received than sent");
    }
    c.Check(ch[0].Alive() && ch[1].Alive(), "alive", "an open channel says it is not alive");
  }
  c.Count("bytes", total[0] + total[1]);
  c.End();
}

// the peer sends m bytes and goes away in some manner; receives get exactly
// these and then an error
static void PeerGone(Rng& r) {
  int fd[2];
  bool tcp = r.Chance(1, 2);
  if (tcp)
    TcpPair(fd);
  else
    UnixPair(fd);
  u64 m = r.Chance(1, 5) ? 0 : r.Below(3000), seed = r.Next();
  int how = r.Below(3);
  auto d = SetFaults(r);
  c.Begin(Str("peer ", how == 0 ? "closes" : how == 1 ? "shuts down" : "resets", " after ", m, " bytes, ", d, " seed ", seed));
  {
    scl::TcpChannel ch(fd[0]);
    bool concurrent = r.Chance(1, 2);
    auto peer = [&]() {
      auto b = StreamBytes(seed, 0, m);
      RawSend(fd[1], b.data(), m);
      if (concurrent) std::this_thread::sleep_for(std::chrono::microseconds(r.Below(500)));
      if (how == 0) ::close(fd[1]);
      if (how == 1) ::shutdown(fd[1], SHUT_WR);
      if (how == 2) Reset(fd[1]);
    };
    std::thread t;
    Rng q(r.Next());
    if (concurrent)
      t = std::thread(peer);
    else
      peer();
    u64 at = 0;
    bool erred = false;
    while (!erred) {
      std::size_t n = 1 + MsgSize(q, 2000);
      std::vector<unsigned char> buf(n, 0xEE);
      std::string e = Thrown([&]() { ch.Recv(buf.data(), n); });
      if (e.empty()) {
        if (!c.Check(at + n <= m, "made-up", Str("a receive of ", n, " bytes returned at ", at, " of ", m, " bytes before the peer was gone")))
          break;
        if (!c.Check(StreamDiff(seed, at, buf.data(), n) < 0, "bytes:gone", "received other bytes than those sent")) break;
        at += n;
      } else {
        erred = true;
        // an orderly end loses nothing
        c.Check(how == 2 || at + n > m, "lost", Str("error although ", m - at, " bytes were there: ", e));
      }
    }
    if (erred) {
      unsigned char b = 0;
      c.Check(!Thrown([&]() { ch.Recv(&b, 1); }).empty() || (at < m), "made-up:again", "a receive after the end of the data returned");
      c.Count("errors_reported");
    }
    if (t.joinable()) t.join();
    if (how == 1) ::close(fd[1]);
    F.on = false;
    // sending to it: an error at the latest when the buffers are full
    if (how != 1 || r.Chance(1, 2)) {
      std::vector<unsigned char> junk(1 + r.Below(20000));
      bool threw = false;
      for (int i = 0; i < 4000 && !threw; i++) {
        threw = !Thrown([&]() { ch.Send(junk.data(), junk.size()); }).empty();
        if (!threw && i > 3) std::this_thread::sleep_for(std::chrono::microseconds(100));
        if (!threw && (u64)i * junk.size() > 64u << 20) break;
      }
      c.Check(threw, "send-no-error", "sending to a peer that is gone never raised an error");
      c.Count("send_errors_reported");
    }
    c.Check(ch.Alive(), "alive", "an unclosed channel says it is not alive");
    ch.Close();
    c.Check(!ch.Alive(), "alive:closed", "a closed channel says it is alive");
  }
  c.End();
}

// the kernel reports an error at the k-th call
static void KernelError(Rng& r) {
  int fd[2];
  MakePair(r, fd, false);
  static const int errs[] = {ECONNRESET, ETIMEDOUT, EPIPE, EIO, ENOTCONN, EHOSTUNREACH, ENOBUFS};
  bool write = r.Chance(1, 2);
  auto d = SetFaults(r);
  F.on = false;
  F.err = errs[r.Below(7)];
  if (F.partial > 50) F.partial = 50;
  int k = r.Below(6);
  u64 seed = r.Next();
  c.Begin(Str(write ? "write" : "read", " fails with errno ", F.err.load(), " at call ", k, ", ", d, " seed ", seed));
  {
    scl::TcpChannel ch(fd[0]);
    u64 total = 200 + r.Below(1500);
    if (!write) {
      auto b = StreamBytes(seed, 0, total);
      RawSend(fd[1], b.data(), total);
      F.fail_read = k;
    } else
      F.fail_write = k;
    F.on = true;
    bool threw = false;
    u64 at = 0, failed0 = F.n_failed;
    while (at < total && !threw) {
      std::size_t n = 1 + r.Below(total - at < 400 ? total - at : 400);
      std::vector<unsigned char> buf = write ? StreamBytes(seed, at, n) : std::vector<unsigned char>(n);
      threw = !Thrown([&]() { write ? ch.Send(buf.data(), n) : ch.Recv(buf.data(), n); }).empty();
      if (threw) break;
      c.Check(F.n_failed == failed0, "ignored", "an error of the kernel was not reported");
      if (!write) c.Check(StreamDiff(seed, at, buf.data(), n) < 0, "bytes:error", "received other bytes than those sent");
      at += n;
      if (F.n_failed != failed0) break;
    }
    F.on = false;
    if (write) {  // what the peer sees is a prefix of what was sent
      ::shutdown(fd[0], SHUT_WR);
      std::vector<unsigned char> got(total + 1);
      std::size_t have = 0;
      while (have <= total) {
        long g = ::recv(fd[1], got.data() + have, total + 1 - have, 0);
        if (g <= 0) break;
        have += g;
      }
      c.Check(have <= total && StreamDiff(seed, 0, got.data(), have) < 0, "bytes:write-error", "the peer received other bytes than those sent");
      c.Check(have >= at, "lost:write-error", "bytes of completed sends were lost");
    }
    if (threw) c.Count("kernel_errors_reported");
  }
  ::close(fd[1]);
  c.End();
}

// a closed channel stays closed and never touches a descriptor it no longer owns
static void CloseTwice(Rng& r) {
  int fd[2], other[2];
  MakePair(r, fd, false);
  F.Reset(r.Next());
  c.Begin(Str("close repeatedly, seed ", r.s));
  {
    scl::TcpChannel ch(fd[0]);
    u64 m = r.Below(2000), seed = r.Next();
    auto b = StreamBytes(seed, 0, m);
    std::string e = Thrown([&]() { ch.Send(b.data(), m); });
    c.Check(e.empty(), "error:close", "send failed: " + e);
    e = Thrown([&]() { ch.Close(); });
    c.Check(e.empty(), "close", "closing failed: " + e);
    UnixPair(other);  // takes the lowest free descriptors
    for (int i = 1 + r.Below(3); i-- > 0;) {
      e = Thrown([&]() { ch.Close(); });
      c.Check(e.empty(), "close:again", "closing again failed: " + e);
    }
    // data sent before closing arrives, then the end
    std::vector<unsigned char> got(m + 1);
    std::size_t have = 0;
    while (have <= m) {
      long g = ::recv(fd[1], got.data() + have, m + 1 - have, 0);
      if (g <= 0) break;
      have += g;
    }
    c.Check(have == m && StreamDiff(seed, 0, got.data(), m) < 0, "bytes:close", "data sent before closing did not arrive");
  }
  // the destructor ran as well
  char x = 1, y = 0;
  c.Check(::send(other[0], &x, 1, MSG_NOSIGNAL) == 1 && ::recv(other[1], &y, 1, 0) == 1, "foreign", "closing again closed a descriptor of somebody else");
  ::close(other[0]);
  ::close(other[1]);
  ::close(fd[1]);
  c.End();
}

int main(int argc, char** argv) {
  c.Init(argc, argv);
  Rng r = c.MakeRng(0x102);
  for (long i = c.N(2500, 60000); i-- > 0;) Streams(r);
  if (c.scale >= 1)
    for (long i = c.N(8, 64); i-- > 0;) Streams(r, true);
  for (long i = c.N(6000, 120000); i-- > 0;) PeerGone(r);
  for (long i = c.N(5000, 120000); i-- > 0;) KernelError(r);
  for (long i = c.N(1000, 16000); i-- > 0;) CloseTwice(r);
  c.Count("kernel_calls", F.n_calls);
  c.Count("partial_transfers", F.n_partial);
  c.Count("interrupted_calls", F.n_intr);
  c.Count("failed_calls", F.n_failed);
  return c.Finish();
}
