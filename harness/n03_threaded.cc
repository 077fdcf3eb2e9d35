// N03: channels with a background sender: order, completeness at close and
// destruction, sends that do not wait, concurrent receives.
#include <memory>

#include "faults.h"
#include "net.h"
#include "scl/net/threaded_sender.h"
using namespace vp;

static Ctx& c = Ctx::I();
static Faults& F = Faults::I();

static bool MakePair(Rng& r, int fd[2]) {
  bool tcp = r.Chance(1, 2);
  if (tcp)
    TcpPair(fd);
  else
    UnixPair(fd);
  if (r.Chance(1, 2)) {
    int sz = tcp ? 100000 : 2048 << r.Below(4);
    for (int i = 0; i < 2; i++) {
      ::setsockopt(fd[i], SOL_SOCKET, SO_SNDBUF, &sz, sizeof sz);
      ::setsockopt(fd[i], SOL_SOCKET, SO_RCVBUF, &sz, sizeof sz);
    }
  }
  return tcp;
}
static std::string SetFaults(Rng& r) {
  F.Reset(r.Next());
  F.partial = r.Chance(1, 3) ? 0 : r.Below(90);
  F.intr = r.Chance(1, 2) ? 0 : r.Below(30);
  F.delay = r.Chance(1, 2) ? 0 : r.Below(30);
  F.on = true;
  return Str("partial ", F.partial.load(), "% interrupted ", F.intr.load(), "% delayed ", F.delay.load(), "%");
}

// Everything is sent before the peer reads a byte; then the channel is closed
// or destroyed at once while the peer starts reading some time later.
static void SendAndLeave(Rng& r) {
  int fd[2];
  MakePair(r, fd);
  bool big = r.Chance(1, 8);
  u64 total = r.Chance(1, 12) ? r.Below(3) : 1 + r.Below(big ? 4000000 : 60000), seed = r.Next(), back = r.Chance(1, 3) ? r.Below(3000) : 0;
  bool destroy = r.Chance(1, 2), repeat = r.Chance(1, 2);
  int when = r.Below(3);
  auto d = SetFaults(r);
  if (big && F.partial > 40) F.partial = 40;
  c.Begin(Str("send ", total, " bytes, then ", destroy ? "destroy" : "close", repeat ? " repeatedly" : "", ", peer starts ",
              when == 0 ? "late" : when == 1 ? "while closing" : "at once", ", ", d, " seed ", seed));
  std::size_t mx = big ? 400000 : 5000;
  std::atomic<int> stage{0};
  std::vector<unsigned char> got;
  bool ended = false;
  u64 pseed = Mix(seed);
  long pause = r.Below(3000);
  std::thread peer([&]() {
    if (back) {
      auto b = StreamBytes(pseed, 0, back);
      RawSend(fd[1], b.data(), back);
    }
    while (stage < (when == 2 ? 0 : 1)) std::this_thread::yield();
    if (when == 0) std::this_thread::sleep_for(std::chrono::microseconds(pause));
    Rng q(pseed);
    while (true) {
      std::vector<unsigned char> b(1 + MsgSize(q, mx));
      long k = ::recv(fd[1], b.data(), b.size(), 0);
      if (k < 0 && errno == EINTR) continue;
      if (k <= 0) {
        ended = k == 0;
        break;
      }
      got.insert(got.end(), b.begin(), b.begin() + k);
      if (got.size() > total + 100) break;
      if (q.Chance(1, 10)) std::this_thread::yield();
    }
  });
  std::string err;
  {
    auto ch = std::make_unique<scl::ThreadedSenderChannel>(fd[0]);
    std::thread rcv;
    std::string rerr;
    long rbad = -1;
    if (back)
      rcv = std::thread([&]() {
        Rng q(pseed ^ 5);
        rerr = Thrown([&]() {
          for (u64 at = 0; at < back;) {
            std::size_t n = MsgSize(q, 1000);
            if (n > back - at) n = back - at;
            std::vector<unsigned char> m(n);
            ch->Recv(m.data(), n);
            if (StreamDiff(pseed, at, m.data(), n) >= 0) rbad = (long)at;
            at += n;
          }
        });
      });
    Rng q(seed);
    err = Thrown([&]() {
      for (u64 at = 0; at < total;) {
        std::size_t n = MsgSize(q, mx);
        if (n > total - at) n = total - at;
        auto m = StreamBytes(seed, at, n);
        ch->Send(m.data(), n);
        for (auto& b : m) b = 0;  // the channel owns a copy
        at += n;
        if (!n) c.Count("empty_sends");
        if (q.Chance(1, 40)) std::this_thread::yield();
      }
      if (q.Chance(1, 3)) ch->Send((const unsigned char*)"", 0);
    });
    c.Count("bytes_queued", total);
    if (rcv.joinable()) rcv.join();
    c.Check(rerr.empty() && rbad < 0, "receive", Str("receiving on the sending channel: ", rerr, " first bad position ", rbad));
    stage = 1;
    if (!destroy) {
      err += Thrown([&]() { ch->Close(); });
      if (repeat) err += Thrown([&]() {
        ch->Close();
        ch->Close();
      });
    }
    err += Thrown([&]() { ch.reset(); });
  }
  peer.join();
  F.on = false;
  c.Check(err.empty(), "error", "sending or closing failed: " + err);
  c.Check(got.size() >= total, "lost", Str("only ", got.size(), " of ", total, " bytes arrived after the channel was ", destroy ? "destroyed" : "closed"));
  c.Check(got.size() <= total, "extra", Str("more than the ", total, " bytes sent arrived"));
  c.Check(got.size() > total || StreamDiff(seed, 0, got.data(), got.size()) < 0, "bytes", "other bytes than those sent arrived");
  c.Check(ended || got.size() != total, "no-end", "the connection was not closed in order");
  ::close(fd[1]);
  c.End();
}

// many senders' worth of traffic in both directions between two such channels
static void Duplex(Rng& r) {
  int fd[2];
  MakePair(r, fd);
  u64 seed = r.Next(), total = 1 + r.Below(30000);
  auto d = SetFaults(r);
  c.Begin(Str("two channels exchange ", total, " bytes each, ", d, " seed ", seed));
  std::atomic<long> bad{-1};
  std::mutex m;
  std::string threw;
  {
    scl::ThreadedSenderChannel ch[2] = {fd[0], fd[1]};
    std::vector<std::thread> ts;
    for (int e = 0; e < 2; e++)
      ts.emplace_back([&, e]() {
        // each end sends everything first: this must not deadlock
        auto t = Thrown([&]() {
          Rng q(seed + e);
          u64 my = seed ^ (e ? 0x5555555500000000ULL : 0), its = seed ^ (e ? 0 : 0x5555555500000000ULL);
          u64 s = 0, g = 0;
          bool first = q.Chance(1, 2);
          while (s < total || g < total) {
            if (s < total && (first || q.Chance(1, 2))) {
              std::size_t n = MsgSize(q, 4000);
              if (n > total - s) n = total - s;
              auto b = StreamBytes(my, s, n);
              ch[e].Send(b.data(), n);
              s += n;
            } else if (g < total && s >= g) {
              std::size_t n = MsgSize(q, 4000);
              if (n > total - g) n = total - g;
              if (s < total && n > s - g) n = s - g;  // stay behind what the other may wait for
              std::vector<unsigned char> b(n);
              ch[e].Recv(b.data(), n);
              if (StreamDiff(its, g, b.data(), n) >= 0) bad = (long)g;
              g += n;
              if (!n && s < total) {
                unsigned char one = StreamByte(my, s++);
                ch[e].Send(&one, 1);
              }
            }
          }
        });
        std::lock_guard<std::mutex> l(m);
        threw += t;
      });
    for (auto& t : ts) t.join();
    F.on = r.Chance(1, 2);
  }
  F.on = false;
  c.Check(threw.empty(), "error:duplex", threw);
  c.Check(bad < 0, "bytes:duplex", Str("bytes received around position ", bad.load(), " are not those sent"));
  c.End();
}

// A send hands over at once, even if nobody ever reads.
static void NoWait(Rng& r) {
  int fd[2];
  MakePair(r, fd);
  F.Reset(r.Next());
  u64 total = 1000000 + r.Below(4000000), seed = r.Next();
  c.Begin(Str("queue ", total, " bytes with nobody reading, seed ", seed));
  auto ch = std::make_unique<scl::ThreadedSenderChannel>(fd[0]);
  auto b = StreamBytes(seed, 0, total);
  Rng q(seed);
  for (u64 at = 0; at < total;) {
    std::size_t n = 1 + MsgSize(q, 300000);
    if (n > total - at) n = total - at;
    ch->Send(b.data() + at, n);
    at += n;
  }
  // Not one byte has been read.  (A send that waits never gets here.)
  std::vector<unsigned char> got(total + 1);
  std::size_t have = 0;
  bool pre = r.Chance(1, 2);
  std::thread t([&]() { have = 0; while (have <= total) { long k = ::recv(fd[1], got.data() + have, total + 1 - have, 0); if (k <= 0) break; have += k; } });
  if (pre) std::this_thread::sleep_for(std::chrono::microseconds(r.Below(2000)));
  ch.reset();
  t.join();
  c.Check(have == total, "lost:nowait", Str(have, " of ", total, " bytes arrived"));
  c.Check(StreamDiff(seed, 0, got.data(), have < total ? have : total) < 0, "bytes:nowait", "other bytes than those sent arrived");
  ::close(fd[1]);
  c.End();
}

// The peer is gone while data is queued: closing still ends, without a crash.
static void PeerGone(Rng& r) {
  int fd[2];
  MakePair(r, fd);
  F.Reset(r.Next());
  u64 total = r.Below(300000), m = r.Below(2000), seed = r.Next();
  bool rst = r.Chance(1, 2);
  c.Begin(Str("peer ", rst ? "resets" : "closes", " while ", total, " bytes are queued, seed ", seed));
  {
    scl::ThreadedSenderChannel ch(fd[0]);
    auto b = StreamBytes(seed, 0, m);
    RawSend(fd[1], b.data(), m);
    std::thread t([&]() { rst ? Reset(fd[1]) : (void)::close(fd[1]); });
    auto s = StreamBytes(seed, 0, total);
    Thrown([&]() {
      for (u64 at = 0; at < total; at += 5000) ch.Send(s.data() + at, total - at < 5000 ? total - at : 5000);
    });
    t.join();
    std::vector<unsigned char> got(m + 1);
    std::string e = Thrown([&]() { ch.Recv(got.data(), m + 1); });
    c.Check(!e.empty(), "made-up", "a receive returned more than the peer sent");
    Thrown([&]() { ch.Close(); });
  }
  c.End();
}

int main(int argc, char** argv) {
  c.Init(argc, argv);
  Rng r = c.MakeRng(0x103);
  for (long i = c.N(2400, 80000); i-- > 0;) SendAndLeave(r);
  for (long i = c.N(1800, 60000); i-- > 0;) Duplex(r);
  for (long i = c.N(80,2000); i-- > 0;) NoWait(r);
  for (long i = c.N(800, 20000); i-- > 0;) PeerGone(r);
  c.Count("kernel_calls", F.n_calls);
  c.Count("partial_transfers", F.n_partial);
  return c.Finish();
}
