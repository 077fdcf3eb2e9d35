// N01: in-memory channels against a reference byte queue, single-threaded and
// with the ends in different threads.
#include "net.h"
#include "scl/net/mem_channel.h"
using namespace vp;

static Ctx& c = Ctx::I();

static void Sequential(Rng& r) {
  bool self = r.Chance(1, 4);
  c.Begin(Str(self ? "self" : "pair", " sequential seed ", r.s));
  std::shared_ptr<scl::InMemoryChannel> ch[2];
  if (self)
    ch[0] = ch[1] = scl::InMemoryChannel::CreateSelfConnecting();
  else {
    auto p = scl::InMemoryChannel::CreatePaired();
    ch[0] = p[0];
    ch[1] = p[1];
  }
  std::deque<unsigned char> q[2];  // q[e]: waiting for end e
  int nops = r.Chance(1, 100) ? 600 : 1 + r.Below(60);
  bool large = r.Chance(1, 200);
  for (int o = 0; o < nops; o++) {
    int e = r.Below(2);
    auto& mine = q[self ? 0 : e];
    auto& other = q[self ? 0 : 1 - e];
    int k = r.Below(20);
    if (k < 9) {
      std::size_t n = large && r.Chance(1, 4) ? 65000 + r.Below(r.Chance(1, 4) ? 300000 : 1200) : MsgSize(r, 3000);
      std::vector<unsigned char> m(n);
      for (auto& b : m) b = (unsigned char)r.Next();
      ch[e]->Send(m.data(), n);
      other.insert(other.end(), m.begin(), m.end());
      // the channel must have taken a copy
      for (auto& b : m) b ^= 0xff;
      c.Count("sends");
      if (!n) c.Count("empty_sends");
    } else if (k < 18) {
      std::size_t n = r.Chance(1, 3) ? mine.size() : r.Below(mine.size() + 1);
      if (r.Chance(1, 3)) n = n < 5 ? n : r.Below(5);
      std::vector<unsigned char> m(n + 16, 0xA5);
      ch[e]->Recv(m.data() + 8, n);
      bool ok = true;
      for (std::size_t i = 0; i < n; i++) ok &= m[8 + i] == mine[i];
      for (int i = 0; i < 8; i++) ok &= m[i] == 0xA5 && m[8 + n + i] == 0xA5;
      c.Check(ok, "bytes", Str("receive of ", n, " of ", mine.size(), " waiting bytes gave others than those sent"));
      if (!ok) return c.End();
      mine.erase(mine.begin(), mine.begin() + n);
      c.Count("recvs");
      if (!n) c.Count("empty_recvs");
    } else if (k == 18) {
      ch[e]->Flush();
      mine.clear();
      c.Count("flushes");
    } else if (r.Chance(1, 3)) {
      ch[e]->Close();
    }
  }
  // everything left must still come out
  for (int e = 0; e < (self ? 1 : 2); e++) {
    std::vector<unsigned char> m(q[e].size());
    ch[e]->Recv(m.data(), m.size());
    c.Check(std::equal(m.begin(), m.end(), q[e].begin()), "bytes", "left-over bytes differ");
    // nothing more than that
    unsigned char mark = (unsigned char)r.Next(), got;
    ch[self ? 0 : 1 - e]->Send(&mark, 1);
    ch[e]->Recv(&got, 1);
    c.Check(got == mark, "extra", "more bytes were received than sent");
  }
  c.End();
}

static void Pause(Rng& r) {
  switch (r.Below(12)) {
    case 0: std::this_thread::yield(); break;
    case 1:
      if (r.Chance(1, 10)) std::this_thread::sleep_for(std::chrono::microseconds(r.Below(300)));
      break;
    case 2:
      for (u64 i = r.Below(2000); i; i--) asm volatile("");
      break;
  }
}

static void Concurrent(Rng& r) {
  bool self = r.Chance(1, 5);
  bool large = r.Chance(1, 150);
  u64 total = large ? 1000000 + r.Below(3000000) : 1 + r.Below(r.Chance(1, 4) ? 60000 : 4000);
  const std::size_t mx = large ? 400000 : 2000;
  u64 seed = r.Next();
  c.Begin(Str(self ? "self" : "pair", " threads ", total, " bytes seed ", seed));
  std::shared_ptr<scl::InMemoryChannel> ch[2];
  if (self)
    ch[0] = ch[1] = scl::InMemoryChannel::CreateSelfConnecting();
  else {
    auto p = scl::InMemoryChannel::CreatePaired();
    ch[0] = p[0];
    ch[1] = p[1];
  }
  std::vector<std::thread> ts;
  std::atomic<long> bad{-1};
  std::atomic<u64> blocked{0}, switches{0};
  int dirs = self ? 1 : 2;
  std::atomic<u64> sent[2] = {{0}, {0}};
  for (int d = 0; d < dirs; d++) {
    u64 ds = seed + d * 0x100000000ULL;
    ts.emplace_back([&, d, ds]() {
      Rng q(Mix(ds) ^ 1);
      u64 at = 0;
      while (at < total) {
        std::size_t n = MsgSize(q, mx);
        if (n > total - at) n = total - at;
        auto m = StreamBytes(ds, at, n);
        ch[d]->Send(m.data(), n);
        at += n;
        sent[d] = at;
        Pause(q);
      }
    });
    ts.emplace_back([&, d, ds]() {
      Rng q(Mix(ds) ^ 2);
      u64 at = 0;
      std::vector<unsigned char> m;
      while (at < total) {
        std::size_t n = MsgSize(q, mx);
        if (n > total - at) n = total - at;
        m.assign(n, 0);
        if (sent[d] < at + n) blocked++;
        ch[1 - d]->Recv(m.data(), n);
        if (StreamDiff(ds, at, m.data(), n) >= 0) {
          if (bad < 0) bad = (long)at;
        }
        at += n;
        switches++;
        Pause(q);
      }
    });
  }
  for (auto& t : ts) t.join();
  c.Check(bad < 0, "bytes:threads", Str("bytes received around position ", bad.load(), " are not those sent"));
  for (int d = 0; d < dirs; d++) {
    unsigned char mark = 0x5e, got = 0;
    ch[d]->Send(&mark, 1);
    ch[1 - d]->Recv(&got, 1);
    c.Check(got == mark, "extra:threads", "more bytes were received than sent");
  }
  c.Count("threaded_recvs", switches);
  c.Count("recvs_begun_before_their_bytes", blocked);
  c.End();
}

// a receive returns only when all its bytes are there, and then does
static void Blocking(Rng& r) {
  auto p = scl::InMemoryChannel::CreatePaired();
  std::size_t pre = r.Below(4), n = pre + 1 + r.Below(50);
  c.Begin(Str("blocking receive of ", n, " with ", pre, " left over, seed ", r.s));
  u64 seed = r.Next();
  auto all = StreamBytes(seed, 0, n + pre + 1);
  std::vector<unsigned char> got(n + pre + 1);
  std::size_t given = 0;
  if (pre) {  // leave some bytes in the receiver's own buffer
    p[0]->Send(all.data(), pre + 1);
    p[1]->Recv(got.data(), 1);
    given = pre + 1;
  }
  std::atomic<bool> done{false};
  std::size_t base = pre ? 1 : 0;
  std::thread t([&]() {
    p[1]->Recv(got.data() + base, n);
    done = true;
  });
  while (given < base + n - 1) {
    std::size_t k = 1 + r.Below(base + n - 1 - given);
    p[0]->Send(all.data() + given, k);
    given += k;
    if (r.Chance(1, 4)) p[0]->Send(all.data(), 0);
  }
  std::this_thread::sleep_for(std::chrono::milliseconds(1 + r.Below(3)));
  bool early = done;
  p[0]->Send(all.data() + given, 1);
  t.join();
  c.Check(!early, "early", "a receive returned before all of its bytes were sent");
  c.Check(std::equal(got.begin(), got.begin() + base + n, all.begin()), "bytes:blocking", "received other bytes than those sent");
  c.End();
}

// The queue underneath, with several producers and consumers.
static void Queue(Rng& r) {
  std::size_t np = 1 + r.Below(4), nc = 1 + r.Below(4), bound = r.Chance(1, 5) ? 200 : 4;
  std::vector<std::size_t> give(np), take(nc, 0);
  std::size_t total = 0;
  for (auto& g : give) total += g = r.Below(bound);
  for (std::size_t i = 0; i < total; i++) take[r.Below(nc)]++;
  std::size_t at_start = r.Chance(1, 2) ? 0 : r.Below(give[0] + 1);  // pushed before any consumer runs
  bool peek = nc == 1 && r.Chance(1, 2);
  c.Begin(Str("queue of ", total, " items, ", np, " producers, ", nc, " consumers", peek ? " that peek" : "", ", ", at_start, " there at first, case ", r.s));
  scl::details::SharedDeque<std::vector<std::size_t>> q;
  for (std::size_t i = 0; i < at_start; i++) q.PushBack({0, i});
  c.Check(q.Size() == at_start, "queue:size", "the size is wrong");
  std::atomic<std::size_t> taken{0};
  std::atomic<bool> peeked{false}, changed{false};
  std::vector<std::vector<std::vector<std::size_t>>> got(nc);
  std::vector<std::thread> ts;
  std::vector<u64> seeds;
  for (std::size_t i = 0; i < np + nc; i++) seeds.push_back(r.Next());
  auto pause = [](Rng& x) {
    auto k = x.Below(12);
    if (k == 0) std::this_thread::yield();
    if (k == 1) std::this_thread::sleep_for(std::chrono::microseconds(x.Below(300)));
  };
  for (std::size_t k = 0; k < nc; k++)
    ts.emplace_back([&, k]() {
      Rng x(seeds[k]);
      for (std::size_t i = 0; i < take[k]; i++) {
        pause(x);
        if (peek) {
          auto v = q.Peek();
          if (x.Chance(1, 2) && q.Peek() != v) peeked.store(true, std::memory_order_relaxed);
          q.PopFront();
          got[k].push_back(v);
        } else
          got[k].push_back(q.Pop());
        taken.fetch_add(1, std::memory_order_relaxed);
      }
    });
  for (std::size_t k = 0; k < np; k++)
    ts.emplace_back([&, k]() {
      Rng x(seeds[nc + k]);
      if (x.Chance(1, 2)) std::this_thread::sleep_for(std::chrono::microseconds(x.Below(400)));
      for (std::size_t i = k ? 0 : at_start; i < give[k]; i++) {
        pause(x);
        std::vector<std::size_t> item = {k, i};
        if (x.Chance(1, 2)) {
          q.PushBack(item);
          if (item.size() != 2 || item[0] != k || item[1] != i) changed.store(true, std::memory_order_relaxed);
        } else
          q.PushBack(std::move(item));
      }
    });
  // items that are there while everybody waits were lost
  std::size_t seen = 0, extra = 0;
  double since = Ctx::Now();
  while (taken < total) {
    std::this_thread::sleep_for(std::chrono::microseconds(200));
    if (taken != seen) seen = taken, since = Ctx::Now();
    if (Ctx::Now() - since > 10 && !extra) {
      c.Check(false, "queue:lost", Str("nothing is taken for ten seconds: ", seen, " of ", total, " items taken, ", q.Size(), " are in the queue"));
      for (extra = 0; extra < total + nc; extra++) q.PushBack({99, extra});
    }
  }
  for (auto& t : ts) t.join();
  c.Check(!peeked, "queue:peek", "the first item changed without being taken");
  c.Check(!changed, "queue:item", "pushing changed the caller's item");
  if (!extra) {
    c.Check(q.Size() == 0, "queue:left", "items are left when all have been taken");
    std::vector<std::vector<int>> times(np);
    for (std::size_t k = 0; k < np; k++) times[k].resize(give[k]);
    for (auto& g : got) {
      std::vector<std::size_t> next(np, 0);
      for (auto& v : g) {
        if (!c.Check(v.size() == 2 && v[0] < np && v[1] < give[v[0]], "queue:item", "an item was taken that was never pushed")) continue;
        times[v[0]][v[1]]++;
        c.Check(v[1] >= next[v[0]], "queue:order", "a consumer gets a producer's items out of order");
        next[v[0]] = v[1] + 1;
      }
    }
    for (auto& t : times)
      for (auto n : t) c.Check(n == 1, "queue:once", Str("an item was taken ", n, " times"));
  }
  c.Count("queue-items", total);
  c.End(total > 0);
}

int main(int argc, char** argv) {
  c.Init(argc, argv);
  Rng r = c.MakeRng(0x101);
  for (long i = c.N(30000, 400000); i-- > 0;) Sequential(r);
  for (long i = c.N(5000, 60000); i-- > 0;) Concurrent(r);
  for (long i = c.N(1000, 16000); i-- > 0;) Blocking(r);
  for (long i = c.N(4000, 80000); i-- > 0;) Queue(r);
  return c.Finish();
}
