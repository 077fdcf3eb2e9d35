// N04: sequences of typed messages over every kind of channel; announced sizes.
#include <new>

#include "net.h"
#include "ref.h"
#include "scl/math/z2k.h"
#include "scl/net/mem_channel.h"
#include "scl/net/tcp_channel.h"
#include "scl/net/threaded_sender.h"
#include "smallff.h"
using namespace vp;

// largest allocation made while watching
static thread_local std::size_t g_biggest = 0;
void* operator new(std::size_t n) {
  if (n > g_biggest) g_biggest = n;
  void* p = std::malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }

static Ctx& c = Ctx::I();

struct Pod {  // without padding: valgrind follows its bytes
  unsigned char a, e[7];
  double b;
  short d[3], f;
  bool operator==(const Pod& o) const { return a == o.a && b == o.b && !std::memcmp(d, o.d, sizeof d); }
};
using A3 = std::array<std::uint16_t, 3>;

struct Msg {
  std::string what;
  std::function<void(scl::Channel&)> send;
  std::function<std::string(scl::Channel&)> recv;  // "" or what is wrong
};

template <typename T>
T RandEl(Rng& r) {
  std::vector<unsigned char> b(T::ByteSize());
  for (auto& x : b) x = r.Chance(1, 5) ? 0 : r.Chance(1, 6) ? 0xff : (unsigned char)r.Next();
  return T::Read(b.data());
}
template <typename T>
bool Same(const T& a, const T& b) {
  std::vector<unsigned char> x(T::ByteSize()), y(T::ByteSize());
  a.Write(x.data());
  b.Write(y.data());
  return x == y;
}
static std::size_t Count(Rng& r) {
  if (r.Chance(1, 300)) return 65530 + r.Below(r.Chance(1, 4) ? 200000 : 12);
  switch (r.Below(5)) {
    case 0: return 0;
    case 1: return 1;
    case 2: return 1 + r.Below(8);
    case 3: return (1u << r.Below(9)) - 1 + r.Below(3);
    default: return r.Below(300);
  }
}

template <typename T>
Msg Plain(const char* n, T v) {
  return {n, [v](scl::Channel& ch) { ch.Send(v); },
          [v](scl::Channel& ch) -> std::string {
            T w;
            std::memset((void*)&w, 0x5a, sizeof w);
            ch.Recv(w);
            return w == v ? "" : "value differs";
          }};
}
template <typename T>
Msg Stl(const char* n, std::vector<T> v) {
  return {Str(n, "[", v.size(), "]"), [v](scl::Channel& ch) { ch.Send(v); },
          [v](scl::Channel& ch) -> std::string {
            std::vector<T> w(v.size());
            ch.Recv(w);
            return w == v ? "" : "values differ";
          }};
}
template <typename T>
Msg VecMsg(const char* n, Rng& r, std::size_t max = 300) {
  std::size_t k = Count(r);
  if (k > max) k = max;
  std::vector<T> v;
  for (std::size_t i = 0; i < k; i++) v.push_back(RandEl<T>(r));
  std::size_t junk = r.Below(4);
  return {Str("Vec<", n, ">(", k, ")"), [v](scl::Channel& ch) { ch.Send(scl::Vec<T>(v)); },
          [v, junk](scl::Channel& ch) -> std::string {
            scl::Vec<T> w(junk);
            ch.Recv(w);
            if (w.Size() != v.size()) return Str("size ", w.Size(), " instead of ", v.size());
            for (std::size_t i = 0; i < v.size(); i++)
              if (!Same<T>(w[i], v[i])) return Str("entry ", i, " differs");
            return "";
          }};
}
template <typename T>
Msg MatMsg(const char* n, Rng& r) {
  std::size_t a = 1 + r.Below(12), b = 1 + r.Below(12);
  if (r.Chance(1, 6)) a = 1 + r.Below(200);
  if (r.Chance(1, 6)) b = 1 + r.Below(200);
  if (r.Chance(1, 200)) a = 250 + r.Below(12), b = 250 + r.Below(12);
  if (r.Chance(1, 8)) a = b = 0;  // what Mat() is
  scl::Mat<T> m;
  if (a) {
    m = scl::Mat<T>(a, b);
    for (std::size_t i = 0; i < a; i++)
      for (std::size_t j = 0; j < b; j++) m(i, j) = RandEl<T>(r);
  }
  std::size_t j1 = r.Below(4), j2 = 1 + r.Below(4);
  return {Str("Mat<", n, ">(", a, "x", b, ")"), [m](scl::Channel& ch) { ch.Send(m); },
          [m, j1, j2, a, b](scl::Channel& ch) -> std::string {
            scl::Mat<T> w;
            if (j1) w = scl::Mat<T>(j1, j2);
            ch.Recv(w);
            if (w.Rows() != a || w.Cols() != b) return Str("shape ", w.Rows(), "x", w.Cols());
            auto& mm = const_cast<scl::Mat<T>&>(m);
            for (std::size_t i = 0; i < a; i++)
              for (std::size_t j = 0; j < b; j++)
                if (!Same<T>(w(i, j), mm(i, j))) return Str("entry ", i, ",", j, " differs");
            return "";
          }};
}

using F61_ = scl::FF<61>;
using F127_ = scl::FF<127>;
using G7 = SmallFF<7>;
using Z1 = scl::Z2k<1>;
using Z17 = scl::Z2k<17>;
using Z64 = scl::Z2k<64>;
using Z128 = scl::Z2k<128>;

static Msg RandMsg(Rng& r) {
  switch (r.Below(24)) {
    case 0: return Plain<unsigned char>("byte", (unsigned char)r.Next());
    case 1: return Plain<std::uint32_t>("u32", (std::uint32_t)r.Next());
    case 2: return Plain<u64>("u64", r.Next());
    case 3: return Plain<double>("double", (double)(long)r.Next());
    case 4: {
      Pod p{};
      p.a = (unsigned char)r.Next();
      p.b = 1.0 / (1 + r.Below(1000));
      for (auto& x : p.d) x = (short)r.Next();
      return Plain<Pod>("struct", p);
    }
    case 5: return Plain<A3>("array", A3{(std::uint16_t)r.Next(), (std::uint16_t)r.Next(), (std::uint16_t)r.Next()});
    case 6: return Plain<bool>("bool", r.Chance(1, 2));
    case 7: {
      std::vector<unsigned char> v(Count(r) * (r.Chance(1, 9) ? 50 : 1));
      for (auto& x : v) x = (unsigned char)r.Next();
      return Stl<unsigned char>("bytes", v);
    }
    case 8: {
      std::vector<u64> v(Count(r));
      for (auto& x : v) x = r.Next();
      return Stl<u64>("u64s", v);
    }
    case 9: {
      std::vector<Pod> v(Count(r));
      for (auto& x : v) {
        std::memset((void*)&x, 0, sizeof x);
        x.a = (unsigned char)r.Next();
        x.d[1] = (short)r.Next();
      }
      return Stl<Pod>("structs", v);
    }
    case 10: return Plain<F61_>("FF61", RandEl<F61_>(r));
    case 11: {
      std::vector<F127_> v;
      for (std::size_t i = Count(r); i-- > 0;) v.push_back(RandEl<F127_>(r));
      return Stl<F127_>("FF127s", v);
    }
    case 12: return VecMsg<F61_>("FF61", r);
    case 13: return VecMsg<F127_>("FF127", r);
    case 14: return VecMsg<G7>("GF7", r);
    case 15: return VecMsg<Z1>("Z2k<1>", r);
    case 16: return VecMsg<Z17>("Z2k<17>", r);
    case 17: return VecMsg<Z128>("Z2k<128>", r);
    case 18: return VecMsg<Z64>("Z2k<64>", r);
    case 19: return MatMsg<F61_>("FF61", r);
    case 20: return MatMsg<F127_>("FF127", r);
    case 21: return MatMsg<G7>("GF7", r);
    case 22: return MatMsg<Z17>("Z2k<17>", r);
    default: return MatMsg<Z128>("Z2k<128>", r);
  }
}

static void Sequence(Rng& r) {
  int kind = r.Below(5);
  static const char* kinds[] = {"bytes", "memory", "memory-threads", "tcp", "threaded"};
  std::vector<Msg> ms;
  int n = 1 + r.Below(20);
  for (int i = 0; i < n; i++) ms.push_back(RandMsg(r));
  std::string desc = Str(kinds[kind], ":");
  for (auto& m : ms) desc += " " + m.what;
  c.Begin(Str(desc, " seed ", r.s));
  std::shared_ptr<scl::Channel> a, b;
  auto bc = std::make_shared<BytesChannel>();
  if (kind == 0) a = b = bc;
  if (kind == 1 || kind == 2) {
    auto p = scl::InMemoryChannel::CreatePaired();
    a = p[0];
    b = p[1];
  }
  if (kind > 2) {
    int fd[2];
    if (r.Chance(1, 2))
      TcpPair(fd);
    else
      UnixPair(fd);
    if (kind == 3) {
      a = std::make_shared<scl::TcpChannel>(fd[0]);
      b = std::make_shared<scl::TcpChannel>(fd[1]);
    } else {
      a = std::make_shared<scl::ThreadedSenderChannel>(fd[0]);
      b = std::make_shared<scl::ThreadedSenderChannel>(fd[1]);
    }
  }
  std::string err, bad;
  std::vector<std::size_t> ends;
  const u64 mark = 0x0123456789abcdefULL;
  auto sender = [&]() {
    err = Thrown([&]() {
      for (auto& m : ms) {
        m.send(*a);
        ends.push_back(bc->out.size());
      }
      a->Send(mark);
    });
  };
  auto receiver = [&]() {
    bad = Thrown([&]() {
      for (std::size_t i = 0; i < ms.size(); i++) {
        auto e = ms[i].recv(*b);
        if (!e.empty()) throw std::runtime_error(ms[i].what + ": " + e);
        if (kind == 0 && bc->pos != ends[i])
          throw std::runtime_error(ms[i].what + Str(" was sent as ", ends[i] - (i ? ends[i - 1] : 0), " bytes but took ", bc->pos - (i ? ends[i - 1] : 0)));
      }
      u64 got = 0;
      b->Recv(got);
      if (got != mark) throw std::runtime_error("out of step after the last message");
    });
  };
  if (kind < 2) {
    sender();
    bc->in = bc->out;
    if (err.empty()) receiver();
  } else {
    std::thread t(sender);
    receiver();
    if (!bad.empty()) {
      b->Close();
      b.reset();
    }
    t.join();
  }
  c.Check(err.empty() || !bad.empty(), Str("send:", kinds[kind]), "sending failed: " + err);
  c.Check(bad.empty(), Str("message:", kinds[kind]), bad);
  c.Count("messages", ms.size());
  c.End();
}

// announced sizes
static void Limit(Rng& r) {
  const u64 L = 1u << 25;
  static const u64 edges[] = {L + 1, L + 2, L * 2, L * 64, 0x7fffffffULL, 0x80000000ULL, 0xffffffffULL, 0xfffffffeULL};
  bool mat = r.Chance(2, 3);
  u64 a, b = 1;
  if (!mat)
    a = r.Chance(1, 2) ? edges[r.Below(8)] : L + 1 + r.Below(0xffffffffULL - L);
  else
    do {
      int k = r.Below(5);
      if (k == 0) {  // the product wraps around to something small
        int s = 1 + r.Below(31);
        a = 1ULL << s;
        b = (1ULL << (32 - s)) + r.Below(3);
      } else if (k == 1) {
        a = 0x80000000ULL + r.Below(3);
        b = 0x80000000ULL + r.Below(3);
      } else if (k == 2) {
        a = 1 + r.Below(1u << 26);
        b = L / a + 1;
      } else if (k == 3) {
        a = edges[r.Below(8)];
        b = 1 + r.Below(5);
      } else {
        a = (std::uint32_t)r.Next();
        b = (std::uint32_t)r.Next();
      }
      if (r.Chance(1, 2)) std::swap(a, b);
      a &= 0xffffffff;
      b &= 0xffffffff;
    } while ((u128)a * b <= L);
  c.Begin(Str("announced ", mat ? Str(a, " x ", b) : Str(a), " elements"));
  BytesChannel ch;
  std::uint32_t x = (std::uint32_t)a, y = (std::uint32_t)b;
  ch.in.resize(8 + r.Below(60));
  for (auto& q : ch.in) q = (unsigned char)r.Next();
  std::memcpy(ch.in.data(), &x, 4);
  if (mat) std::memcpy(ch.in.data() + 4, &y, 4);
  int ty = r.Below(3);
  scl::Vec<G7> v1;
  scl::Vec<F61_> v2;
  scl::Vec<F127_> v3;
  scl::Mat<G7> m1;
  scl::Mat<F61_> m2;
  scl::Mat<Z17> m3;
  g_biggest = 0;
  std::string how = "accepted";
  try {
    if (mat)
      ty == 0 ? ch.Recv(m1) : ty == 1 ? ch.Recv(m2) : ch.Recv(m3);
    else
      ty == 0 ? ch.Recv(v1) : ty == 1 ? ch.Recv(v2) : ch.Recv(v3);
  } catch (const std::logic_error& e) {
    how = "";
  } catch (const std::exception& e) {
    how = std::string("other exception ") + e.what();
  }
  c.Check(how.empty(), mat ? "limit:mat" : "limit:vec", "an announced size above the limit was not refused: " + how);
  c.Check(g_biggest < 100000, "limit:alloc", Str("allocated ", g_biggest, " bytes before refusing"));
  c.Check(ch.biggest <= 8 && ch.pos <= 8, "limit:read", Str("read ", ch.pos, " bytes before refusing"));
  c.End();
}
// sizes up to the limit are served; a body that is cut short is an error
static void Allowed(Rng& r) {
  const u64 L = 1u << 25;
  bool mat = r.Chance(1, 2);
  u64 a = L - (r.Chance(1, 2) ? 0 : r.Below(1000)), b = 1;
  if (mat) {
    b = 1ULL << r.Below(26);
    a = L / b;
    if (r.Chance(1, 3) && a > 1) a--;
    if (r.Chance(1, 2)) std::swap(a, b);
  }
  bool cut = r.Chance(1, 2);
  c.Begin(Str("announced ", mat ? Str(a, " x ", b) : Str(a), " bytes of elements", cut ? ", body cut short" : ""));
  BytesChannel ch;
  ch.in.resize((mat ? 8 : 4) + a * b - (cut ? 1 + r.Below(100) : 0), 3);
  std::uint32_t x = (std::uint32_t)a, y = (std::uint32_t)b;
  std::memcpy(ch.in.data(), &x, 4);
  if (mat) std::memcpy(ch.in.data() + 4, &y, 4);
  scl::Vec<G7> v;
  scl::Mat<G7> m;
  std::string e = Thrown([&]() { mat ? ch.Recv(m) : ch.Recv(v); });
  if (cut)
    c.Check(!e.empty(), "cut", "a message cut short was accepted");
  else {
    c.Check(e.empty(), "allowed", "a size within the limit was refused: " + e);
    if (e.empty()) c.Check(mat ? m.Rows() == a && m.Cols() == b : v.Size() == a, "allowed:size", "wrong size");
  }
  c.End();
}

int main(int argc, char** argv) {
  c.Init(argc, argv);
  Rng r = c.MakeRng(0x104);
  for (long i = c.N(12000, 300000); i-- > 0;) Sequence(r);
  for (long i = c.N(12000, 300000); i-- > 0;) Limit(r);
  for (long i = c.N(16, 160); i-- > 0;) Allowed(r);
  return c.Finish();
}
