// R02: independent objects of the library used in several threads at once, and
// the two ends of one channel (and one shared queue) used concurrently.  The
// deciding monitor is ThreadSanitizer; results are also compared with the same
// work done by one thread.
#include "net.h"
#include "proto.h"
#include "scl/hash.h"
#include "scl/math.h"
#include "scl/math/la.h"
#include "scl/net/config.h"
#include "scl/net/mem_channel.h"
#include "scl/net/shared_deque.h"
#include "scl/p/simple.h"
#include "scl/secret_sharing.h"
#include "scl/ss/packed.h"
using namespace vp;

static Ctx& c = Ctx::I();

struct Sum {
  u64 h = 1469598103934665603ULL;
  void Bytes(const unsigned char* p, std::size_t n) {
    for (std::size_t i = 0; i < n; i++) h = (h ^ p[i]) * 1099511628211ULL;
  }
  void Text(const std::string& s) { Bytes((const unsigned char*)s.data(), s.size()); }
  template <typename T>
  void El(const T& x) {
    unsigned char b[32];
    x.Write(b);
    Bytes(b, T::ByteSize());
  }
  template <typename T>
  void V(const scl::Vec<T>& v) {
    for (auto& x : v) El(x);
  }
};

static scl::PRG Prg(Rng& r) {
  unsigned char sd[16];
  for (auto& b : sd) b = (unsigned char)r.Next();
  return scl::PRG(sd);
}

template <typename T>
static void Fields(Rng& r, Sum& s, bool field) {
  auto prg = Prg(r);
  T a = T::Random(prg), b = T::Random(prg);
  s.El(a + b), s.El(a - b), s.El(a * b), s.El(-a);
  s.Text(a.ToString());
  s.El(T::FromString("123456789"));
  unsigned char buf[32];
  a.Write(buf);
  s.El(T::Read(buf));
  std::size_t n = 1 + r.Below(12);
  auto v = scl::Vec<T>::Random(n, prg), w = scl::Vec<T>::Random(n, prg);
  s.V(v.Add(w)), s.V(v.Subtract(w)), s.V(v.MultiplyEntryWise(w)), s.El(v.Dot(w)), s.El(v.Sum()), s.Text(v.ToString());
  auto m = scl::Mat<T>::Random(2 + r.Below(4), n, prg);
  s.Text(m.Multiply(m.Transpose()).ToString()), s.Text(m.ToString()), s.Text(m.Transpose().ToString());
  auto sh = scl::CreateAdditiveShares(a, n, prg);
  s.V(sh), s.El(scl::ReconstructAdditive(sh));
}

template <typename T>
static void Sharing(Rng& r, Sum& s) {
  auto prg = Prg(r);
  T a = T::Random(prg);
  s.El(a.Inverse());
  std::size_t t = 1 + r.Below(3), n = 3 * t + 1;
  auto sh = scl::CreateShamirShares(a, n, t, prg);
  s.V(sh), s.El(scl::ReconstructShamirPassive(sh, t)), s.El(scl::ReconstructShamir(sh, t));
  auto bad = sh;
  bad[r.Below(n)] += T(1);
  s.El(scl::ReconstructShamirRobust(bad, t));
  std::size_t k = 1 + r.Below(3);
  auto poly = scl::details::EvPolyFromSecretsAndDegree(scl::Vec<T>::Random(k, prg), k + t, prg);
  auto ps = scl::details::SharesFromEvPoly(poly, k + t + 1);
  s.V(ps), s.V(scl::details::SecretsFromSharesAndLength(ps, k));
  auto p = scl::details::Polynomial<T>::Create(scl::Vec<T>::Random(4, prg)), q = scl::details::Polynomial<T>::Create(scl::Vec<T>::Random(3, prg));
  s.Text(p.Multiply(q).ToString()), s.Text(p.Divide(q)[0].ToString()), s.El(p.Evaluate(a));
  auto m = scl::Mat<T>::Random(4, 4, prg);
  scl::Vec<T> x;
  scl::details::SolveLinearSystem(x, m, scl::Vec<T>::Random(4, prg));
  s.V(x);
}

static void Piece(Rng& r, Sum& s) {
  switch (r.Below(9)) {
    case 0: {
      scl::Hash256 h;
      scl::Hash512 g;
      std::vector<unsigned char> m(r.Below(500));
      for (auto& b : m) b = (unsigned char)r.Next();
      auto d = h.Update(m).Update(m).Finalize();
      s.Bytes(d.data(), d.size());
      auto e = g.Update(m).Finalize();
      s.Bytes(e.data(), e.size());
      break;
    }
    case 1: {
      auto prg = Prg(r);
      auto b = prg.Next(r.Below(300));
      s.Bytes(b.data(), b.size());
      scl::PRG zero;
      b = zero.Next(33);
      s.Bytes(b.data(), b.size());
      break;
    }
    case 2: Fields<scl::FF<61>>(r, s, true); break;
    case 3: Fields<scl::FF<127>>(r, s, true); break;
    case 4: Fields<scl::Z2k<57>>(r, s, false); break;
    case 5: Sharing<scl::FF<61>>(r, s); break;
    case 6: Sharing<scl::FF<127>>(r, s); break;
    case 7: {
      auto ch = scl::InMemoryChannel::CreatePaired();
      auto prg = Prg(r);
      auto v = scl::Vec<scl::FF<61>>::Random(1 + r.Below(20), prg);
      scl::Channel &a = *ch[0], &b = *ch[1];
      scl::Vec<scl::FF<61>> w;
      a.Send(v), b.Recv(w);
      s.V(w);
      s.Text(scl::NetworkConfig::Localhost(0, 3).ToString());
      break;
    }
    default: {
      std::size_t n = 3 + r.Below(4), k = 1 + r.Below(3);
      tp::Circuit t(n, k);
      std::vector<std::shared_ptr<tp::Gate>> g;
      std::vector<FF> in;
      for (int i = 0; i < 4; i++) g.push_back(t.Input(r.Below(2))), in.push_back(E(RandValue(r)));
      t.CloseInputs();
      for (int l = 0; l < 3; l++) {
        for (int i = 0; i < 3; i++) {
          auto a = g[r.Below(4 + 3 * l)], b = g[r.Below(4 + 3 * l)];
          if (r.Chance(1, 3))
            g.push_back(t.Add(a, b));
          else
            g.push_back(t.Mult(a, b));
        }
        if (l < 2) t.NewLayer();
      }
      t.LastLayer();
      for (int i = 0; i < 3; i++) t.Output(r.Below(n), g[g.size() - 1 - i]);
      t.CloseOutputs();
      t.SetClearInputsFlat(in);
      for (auto& x : t.GetClearOutputsFlat()) s.El(x);
    }
  }
}

static u64 Work(u64 seed, int pieces) {
  Rng r(seed);
  Sum s;
  for (int i = 0; i < pieces; i++) Piece(r, s);
  return s.h;
}

static void Independent(Rng& r) {
  int threads = 2 + (int)r.Below(5), pieces = 1 + (int)r.Below(12);
  u64 seed = r.Next();
  bool same = r.Chance(1, 3);  // all threads do the same thing at the same time
  c.Begin(Str("independent objects in ", threads, " threads, ", pieces, " pieces, ", same ? "same" : "different", " seed ", seed));
  std::vector<u64> got(threads), want(threads);
  std::atomic<int> ready{0};
  std::vector<std::thread> ts;
  for (int i = 0; i < threads; i++)
    ts.emplace_back([&, i]() {
      ready++;
      while (ready < threads) std::this_thread::yield();
      got[i] = Work(same ? seed : seed + i, pieces);
    });
  for (auto& t : ts) t.join();
  for (int i = 0; i < threads; i++) {
    want[i] = Work(same ? seed : seed + i, pieces);
    c.Check(got[i] == want[i], "result", "a thread got other results than the same work done alone");
  }
  c.Count("pieces_in_threads", threads * pieces);
  c.End();
}

static void Ends(Rng& r) {
  u64 seed = r.Next();
  c.Begin(Str("flushing while the other end sends, seed ", seed));
  auto ch = scl::InMemoryChannel::CreatePaired();
  int n = 1 + (int)r.Below(300);
  std::thread t([&] {
    Rng q(seed);
    unsigned char b[64] = {1};
    for (int i = 0; i < n; i++) {
      ch[0]->Send(b, q.Below(64));
      if (q.Chance(1, 20)) std::this_thread::sleep_for(std::chrono::microseconds(q.Below(100)));
    }
  });
  for (int i = 0; i < n; i++) {
    ch[1]->Flush();
    if (r.Chance(1, 20)) std::this_thread::sleep_for(std::chrono::microseconds(r.Below(100)));
  }
  t.join();
  ch[1]->Flush();
  unsigned char a = 7, b = 0;
  ch[0]->Send(&a, 1), ch[1]->Recv(&b, 1);
  c.Check(b == 7, "flush", "bytes sent before a flush were received after it");
  c.Count("flushes", n);
  c.End();
}

static void Queue(Rng& r) {
  int prod = 1 + (int)r.Below(3), cons = 1 + (int)r.Below(3), per = cons * (1 + (int)r.Below(100));
  u64 seed = r.Next();
  bool peek = cons == 1 && r.Chance(1, 2);
  c.Begin(Str("queue with ", prod, " producers, ", cons, " consumers, ", per, " items each, seed ", seed));
  scl::details::SharedDeque<std::vector<int>> q;
  std::vector<std::thread> ts;
  std::vector<std::vector<std::vector<int>>> got(cons);
  std::atomic<bool> done{false};
  std::atomic<std::size_t> largest{0};
  for (int p = 0; p < prod; p++)
    ts.emplace_back([&, p] {
      Rng x(seed + p);
      for (int i = 0; i < per; i++) {
        std::vector<int> v{p, i};
        if (x.Chance(1, 2))
          q.PushBack(v);
        else
          q.PushBack(std::move(v));
        if (x.Chance(1, 20)) std::this_thread::yield();
      }
    });
  for (int k = 0; k < cons; k++)
    ts.emplace_back([&, k] {
      Rng x(seed + 100 + k);
      for (int i = 0; i < prod * per / cons; i++) {
        if (peek && x.Chance(1, 2)) {
          got[k].push_back(q.Peek());
          q.PopFront();
        } else {
          got[k].push_back(q.Pop());
        }
      }
    });
  std::thread watch([&] {
    while (!done) {
      auto s = q.Size();
      if (s > largest) largest = s;
      std::this_thread::yield();
    }
  });
  for (auto& t : ts) t.join();
  done = true;
  watch.join();
  std::set<std::vector<int>> all;
  bool order = true;
  for (auto& g : got) {
    std::map<int, int> last;
    for (auto& v : g) {
      all.insert(v);
      if (last.count(v[0]) && last[v[0]] >= v[1]) order = false;
      last[v[0]] = v[1];
    }
  }
  c.Check(all.size() == (std::size_t)prod * per && q.Size() == 0, "queue", "items were lost or delivered twice");
  c.Check(order, "queue-order", "a consumer got items of a producer out of order");
  c.Check(largest <= (std::size_t)prod * per, "queue-size", "the size was more than everything put in");
  c.Count("queue_items", prod * per);
  c.End();
}

int main(int argc, char** argv) {
  c.Init(argc, argv);
  Rng r = c.MakeRng(3602);
  long n = c.N(6000, 60000);
  for (long i = 0; i < n; i++) {
    switch (r.Below(4)) {
      case 0: Ends(r); break;
      case 1: Queue(r); break;
      default: Independent(r);
    }
  }
  return c.Finish();
}
