// C02: digests against an independent Keccak, for every split into updates.
#include <sys/mman.h>

#include <array>
#include <memory>

#include "scl/hash.h"
#include "vp.h"
using namespace vp;

// Keccak-f[1600] from its definition (rotation offsets and round constants
// are computed, not tabulated)
struct Sha3 {
  u64 a[5][5] = {};
  std::size_t rate, pos = 0;
  explicit Sha3(std::size_t bits) : rate(200 - 2 * (bits / 8)) {}
  static u64 Rot(u64 x, unsigned n) { return n ? x << n | x >> (64 - n) : x; }
  void F() {
    static u64 rc[24];
    static unsigned rot[5][5];
    static bool init = false;
    if (!init) {
      unsigned x = 1, y = 0;
      for (unsigned t = 0; t < 24; t++) {
        rot[x][y] = (t + 1) * (t + 2) / 2 % 64;
        unsigned nx = y, ny = (2 * x + 3 * y) % 5;
        x = nx, y = ny;
      }
      unsigned l = 1;
      for (int i = 0; i < 24; i++)
        for (int j = 0; j < 7; j++) {
          if (l & 1) rc[i] ^= (u64)1 << ((1u << j) - 1);
          l <<= 1;
          if (l & 0x100) l ^= 0x171;
        }
      init = true;
    }
    for (int r = 0; r < 24; r++) {
      u64 c[5], b[5][5];
      for (int x = 0; x < 5; x++) c[x] = a[x][0] ^ a[x][1] ^ a[x][2] ^ a[x][3] ^ a[x][4];
      for (int x = 0; x < 5; x++)
        for (int y = 0; y < 5; y++) a[x][y] ^= c[(x + 4) % 5] ^ Rot(c[(x + 1) % 5], 1);
      for (int x = 0; x < 5; x++)
        for (int y = 0; y < 5; y++) b[y][(2 * x + 3 * y) % 5] = Rot(a[x][y], rot[x][y]);
      for (int x = 0; x < 5; x++)
        for (int y = 0; y < 5; y++) a[x][y] = b[x][y] ^ (~b[(x + 1) % 5][y] & b[(x + 2) % 5][y]);
      a[0][0] ^= rc[r];
    }
  }
  void Xor(std::size_t i, unsigned char v) { a[i / 8 % 5][i / 8 / 5] ^= (u64)v << (8 * (i % 8)); }
  void Put(const unsigned char* p, std::size_t n) {
    for (std::size_t i = 0; i < n; i++) {
      Xor(pos, p[i]);
      if (++pos == rate) F(), pos = 0;
    }
  }
  std::vector<unsigned char> Out(std::size_t bits) {
    Xor(pos, 6);
    Xor(rate - 1, 0x80);
    F();
    std::vector<unsigned char> o;
    for (std::size_t i = 0; i < bits / 8; i++) o.push_back((unsigned char)(a[i / 8 % 5][i / 8 / 5] >> (8 * (i % 8))));
    return o;
  }
};

template <std::size_t B>
static void Case(Rng& r, std::size_t len) {
  Ctx& c = Ctx::I();
  std::unique_ptr<unsigned char[]> msg(new unsigned char[len]);
  int kind = (int)r.Below(5);
  for (std::size_t i = 0; i < len; i++) msg[i] = kind == 0 ? 0 : kind == 1 ? 0xff : (unsigned char)r.Next();
  c.Begin(Str("SHA3-", B, " length ", len, " kind ", kind, " r=", r.s));
  Sha3 ref(B);
  ref.Put(msg.get(), len);
  auto want = ref.Out(B);
  auto same = [&](const typename scl::details::Hash<B>::DigestType& d) { return std::vector<unsigned char>(d.begin(), d.end()) == want; };
  {
    scl::details::Hash<B> h;
    h.Update(msg.get(), len);
    c.Check(same(h.Finalize()), Str("digest:", B), "the digest is not that of SHA3");
  }
  {
    scl::details::Hash<B> h;
    std::vector<unsigned char> v(msg.get(), msg.get() + len);
    c.Check(same(h.Update(v).Finalize()), Str("digest-vector:", B), "the digest of the vector is not that of SHA3");
  }
  for (int s = 0; s < 4; s++) {
    scl::details::Hash<B> h;
    std::size_t at = 0;
    std::string cuts;
    scl::details::Hash<B>* hp = &h;
    int style = (int)r.Below(4);
    while (at < len || r.Chance(1, 4)) {
      std::size_t left = len - at, n;
      switch (style) {
        case 0: n = 1; break;
        case 1: n = r.Below(9); break;
        case 2: n = r.Chance(1, 3) ? 0 : r.Below(20); break;
        default: n = r.Below(left + 1);
      }
      if (n > left) n = left;
      if (cuts.size() < 200) cuts += Str(n, ",");
      // every piece in an allocation of its own
      if (r.Chance(1, 2)) {
        std::unique_ptr<unsigned char[]> piece(new unsigned char[n]);
        std::memcpy(piece.get(), msg.get() + at, n);
        hp = &hp->Update(piece.get(), n);
      } else {
        hp = &hp->Update(std::vector<unsigned char>(msg.get() + at, msg.get() + at + n));
      }
      c.Check(hp == &h, "ref", "updating does not return the object itself");
      at += n;
      c.Count("updates");
    }
    if (r.Chance(1, 5)) {  // a copy of the state can be continued independently
      scl::details::Hash<B> copy = h;
      unsigned char x = 1;
      copy.Update(&x, 1);
      c.Check(!same(copy.Finalize()), Str("copy:", B), "a longer message has the same digest");
    }
    c.Check(same(h.Finalize()), Str("split:", B), Str("split into ", cuts, " gives another digest"));
  }
  c.End(len > 0);
}

int main(int argc, char** argv) {
  Ctx& c = Ctx::I();
  c.Init(argc, argv);
  {
    Sha3 s(256);
    s.Put((const unsigned char*)"abc", 3);
    auto o = s.Out(256);
    if (Hex(o.data(), 32) != "3a985da74fe225b2045c172d6bd390bd855f086e3e9d525b46bfe24511431532") {
      std::fprintf(stderr, "reference SHA3 is wrong\n");
      return 96;
    }
  }
  Rng r = c.MakeRng(202);
  // all lengths around the block sizes, then random ones
  for (std::size_t len = c.shard; len <= 450; len += c.nshards) {
    Case<256>(r, len);
    Case<384>(r, len);
    Case<512>(r, len);
  }
  long n = c.N(1500, 60000);
  for (long i = 0; i < n; i++) {
    std::size_t len = r.Chance(1, 20) ? r.Below(20000) : r.Below(700);
    if (r.Chance(1, 4)) {
      static const std::size_t rates[] = {136, 104, 72, 8};
      len = rates[r.Below(4)] * (1 + r.Below(6)) + r.Below(3) - (r.Chance(1, 2) ? 1 : 0);
    }
    Case<256>(r, len);
    Case<384>(r, len);
    Case<512>(r, len);
  }
  // long messages
  for (long i = 0, m = c.N(16, 160); i < m; i++) {
    std::size_t len = r.Chance(1, 2) ? 65500 + r.Below(300) : 20000 + r.Below(300000);
    switch (r.Below(3)) {
      case 0: Case<256>(r, len); break;
      case 1: Case<384>(r, len); break;
      default: Case<512>(r, len);
    }
  }
  if (c.thorough && c.shard == 0) {
    // more than 4 GiB in one update (never-touched pages take no memory)
    std::size_t len = ((std::size_t)1 << 32) + 13;
    void* p = mmap(nullptr, len, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p != MAP_FAILED) {
      c.case_timeout = 2000;
      c.Begin("SHA3-256 of 2^32+13 zero bytes in one update");
      scl::Hash256 h;
      auto d = h.Update((const unsigned char*)p, len).Finalize();
      Sha3 s(256);
      unsigned char z[4096] = {0};
      for (std::size_t at = 0; at < len;) {
        std::size_t k = len - at < sizeof z ? len - at : sizeof z;
        s.Put(z, k);
        at += k;
      }
      auto o = s.Out(256);
      c.Check(std::vector<unsigned char>(d.begin(), d.end()) == o, "digest:long", "the digest of a message of more than 4 GiB is wrong");
      c.End();
    }
  }
  return c.Finish();
}
