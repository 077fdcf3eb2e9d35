// C01: the generator against an independent AES-128 in counter mode.
#include <memory>

#include "scl/prg.h"
#include "vp.h"
using namespace vp;

// plain AES-128, byte-oriented
struct Aes {
  unsigned char rk[176];
  static unsigned char X(unsigned char a) { return (unsigned char)((a << 1) ^ ((a >> 7) * 0x1b)); }
  static unsigned char Mul(unsigned char a, unsigned char b) {
    unsigned char r = 0;
    while (b) {
      if (b & 1) r ^= a;
      a = X(a);
      b >>= 1;
    }
    return r;
  }
  static const unsigned char* Box() {
    static unsigned char s[256];
    static bool done = false;
    if (!done) {
      for (int i = 0; i < 256; i++) {
        unsigned char inv = 0;
        for (int j = 1; j < 256 && i; j++)
          if (Mul((unsigned char)i, (unsigned char)j) == 1) inv = (unsigned char)j;
        unsigned char v = 0;
        for (int b = 0; b < 8; b++) {
          int bit = (inv >> b ^ inv >> ((b + 4) & 7) ^ inv >> ((b + 5) & 7) ^ inv >> ((b + 6) & 7) ^ inv >> ((b + 7) & 7) ^ 0x63 >> b) & 1;
          v |= (unsigned char)(bit << b);
        }
        s[i] = v;
      }
      done = true;
    }
    return s;
  }
  explicit Aes(const unsigned char* k) {
    const unsigned char* s = Box();
    std::memcpy(rk, k, 16);
    unsigned char rc = 1;
    for (int i = 16; i < 176; i += 4) {
      unsigned char t[4];
      std::memcpy(t, rk + i - 4, 4);
      if (i % 16 == 0) {
        unsigned char f = t[0];
        t[0] = (unsigned char)(s[t[1]] ^ rc), t[1] = s[t[2]], t[2] = s[t[3]], t[3] = s[f];
        rc = X(rc);
      }
      for (int j = 0; j < 4; j++) rk[i + j] = rk[i - 16 + j] ^ t[j];
    }
  }
  void Enc(const unsigned char* in, unsigned char* out) const {
    const unsigned char* s = Box();
    unsigned char b[16], t[16];
    for (int i = 0; i < 16; i++) b[i] = in[i] ^ rk[i];
    for (int r = 1; r <= 10; r++) {
      for (int c = 0; c < 4; c++)
        for (int q = 0; q < 4; q++) t[4 * c + q] = s[b[4 * ((c + q) & 3) + q]];
      if (r < 10)
        for (int c = 0; c < 4; c++) {
          unsigned char* w = t + 4 * c;
          unsigned char a = (unsigned char)(w[0] ^ w[1] ^ w[2] ^ w[3]), f = w[0];
          for (int q = 0; q < 4; q++) {
            unsigned char nx = q < 3 ? w[q + 1] : f;
            b[4 * c + q] = (unsigned char)(w[q] ^ a ^ X((unsigned char)(w[q] ^ nx)));
          }
        }
      else
        std::memcpy(b, t, 16);
      for (int i = 0; i < 16; i++) b[i] ^= rk[16 * r + i];
    }
    std::memcpy(out, b, 16);
  }
};

struct Model {
  Aes aes;
  u64 ctr = (u64)(PRG_INITIAL_COUNTER);
  explicit Model(const unsigned char* seed) : aes(seed) {}
  std::vector<unsigned char> Next(std::size_t n) {
    std::vector<unsigned char> o((n + 15) / 16 * 16);
    for (std::size_t i = 0; i < o.size(); i += 16) {
      unsigned char blk[16];
      u64 nonce = (u64)(PRG_NONCE);
      for (int j = 0; j < 8; j++) blk[j] = (unsigned char)(ctr >> (8 * j)), blk[8 + j] = (unsigned char)(nonce >> (8 * j));
      aes.Enc(blk, o.data() + i);
      ctr++;
    }
    o.resize(n);
    return o;
  }
};

int main(int argc, char** argv) {
  Ctx& c = Ctx::I();
  c.Init(argc, argv);
  {  // the reference itself, FIPS-197 appendix C.1
    unsigned char k[16], p[16], o[16];
    for (int i = 0; i < 16; i++) k[i] = (unsigned char)i, p[i] = (unsigned char)(i * 17);
    Aes(k).Enc(p, o);
    if (Hex(o, 16) != "69c4e0d86a7b0430d8cdb78070b4c55a") {
      std::fprintf(stderr, "reference AES is wrong\n");
      return 96;
    }
  }
  Rng r = c.MakeRng(101);
  long n = c.N(1600, 60000);
  for (long i = 0; i < n; i++) {
    unsigned char seed[16];
    int kind = (int)r.Below(6);
    for (int j = 0; j < 16; j++) seed[j] = kind == 0 ? 0 : kind == 1 ? 0xff : (unsigned char)r.Next();
    if (kind == 2) std::memset(seed, 0, 16), seed[r.Below(16)] = (unsigned char)(1 << r.Below(8));
    std::unique_ptr<unsigned char[]> sd(new unsigned char[16]);
    std::memcpy(sd.get(), seed, 16);
    int nreq = 1 + (int)r.Below(40);
    c.Begin(Str("initial=", (u64)(PRG_INITIAL_COUNTER), " seed=", Hex(seed, 16), " requests=", nreq, " r=", r.s));
    Model m(seed);
    std::unique_ptr<scl::PRG> p(kind == 0 && r.Chance(1, 2) ? new scl::PRG() : new scl::PRG(sd.get()));
    sd.reset();  // the generator keeps its own copy of the seed
    c.Check(!std::memcmp(p->Seed(), seed, 16), "seed", "the seed is not the one given");
    std::vector<unsigned char> first;
    std::unordered_set<u64> blocks;
    bool rep = false;
    for (int q = 0; q < nreq; q++) {
      std::size_t sz;
      switch (r.Below(10)) {
        case 0: sz = 0; break;
        case 1: sz = 1 + r.Below(15); break;
        case 2: sz = 16 * (1 + r.Below(8)); break;
        case 3: sz = 16 * (1 + r.Below(8)) + 1; break;
        case 4: sz = 16 * (1 + r.Below(8)) - 1; break;
        case 5: sz = q == 0 && r.Chance(1, 3) ? 4096 + r.Below(70000) : r.Below(3000); break;
        default: sz = r.Below(200);
      }
      int how = (int)r.Below(5);
      std::vector<unsigned char> got;
      if (how == 0) {
        got = p->Next(sz);
        c.Check(got.size() == sz, "size", "the returned vector has the wrong size");
      } else if (how == 1) {
        got.assign(sz, 0xa5);
        p->Next(got);
        c.Check(got.size() == sz, "size", "the buffer changed its size");
      } else if (how == 2) {
        std::size_t extra = r.Below(40);
        std::vector<unsigned char> buf(sz + extra);
        for (std::size_t j = 0; j < buf.size(); j++) buf[j] = (unsigned char)(j * 7 + 1);
        p->Next(buf, sz);
        bool ok = buf.size() == sz + extra;
        for (std::size_t j = sz; ok && j < buf.size(); j++) ok = buf[j] == (unsigned char)(j * 7 + 1);
        c.Check(ok, "outside", "bytes beyond those requested were written");
        got.assign(buf.begin(), buf.begin() + sz);
      } else {
        // exact allocation at any alignment
        std::size_t off = r.Below(16);
        std::unique_ptr<unsigned char[]> buf(new unsigned char[off + sz]);
        for (std::size_t j = 0; j < off + sz; j++) buf[j] = (unsigned char)(j * 5 + 3);
        p->Next(buf.get() + off, sz);
        bool ok = true;
        for (std::size_t j = 0; j < off; j++) ok = ok && buf[j] == (unsigned char)(j * 5 + 3);
        c.Check(ok, "outside", "bytes before the buffer were written");
        got.assign(buf.get() + off, buf.get() + off + sz);
      }
      auto want = m.Next(sz);
      if (!c.Check(got == want, "stream", Str("request ", q, " of ", sz, " bytes (way ", how, ") differs from AES-128 in counter mode"))) break;
      c.Count("bytes", sz);
      for (std::size_t j = 0; j + 16 <= sz; j += 16) {
        u64 h;
        std::memcpy(&h, got.data() + j, 8);
        rep = rep || !blocks.insert(h).second;
      }
      if (q == 0) first = got;
      if (r.Chance(1, 30)) {
        std::vector<unsigned char> small(sz);
        c.Check(Thrown([&] { p->Next(small, sz + 1 + r.Below(100)); }) != "", "too-small", "more bytes than the buffer holds are not refused");
        c.Count("refusals");
      }
      if (r.Chance(1, 30)) {  // a copy continues on its own
        scl::PRG copy = *p;
        Model mc = m;
        c.Check(copy.Next(33) == mc.Next(33), "copy", "a copied generator does not continue the stream");
      }
      if (r.Chance(1, 40)) {
        p->Reset();
        m.ctr = (u64)(PRG_INITIAL_COUNTER);
        blocks.clear();
        c.Count("resets");
      }
    }
    c.Check(!rep, "repeat", "a block repeats within the stream");
    p->Reset();
    Model m0(seed);
    c.Check(p->Next(48) == m0.Next(48), "reset", "resetting does not restart the stream");
    // a different seed gives a different stream
    unsigned char s2[16];
    std::memcpy(s2, seed, 16);
    s2[r.Below(16)] ^= (unsigned char)(1 << r.Below(8));
    scl::PRG o(s2), same(seed);
    auto x = o.Next(32);
    same.Reset();
    auto y = same.Next(32);
    c.Check(x != y, "seed-matters", "different seeds give the same stream");
    c.End(nreq > 1);
  }
  // long requests
  for (long i = 0, reps = c.N(8, 64); i < reps; i++) {
    unsigned char seed[16];
    for (auto& b : seed) b = (unsigned char)r.Next();
    std::size_t sz = ((std::size_t)1 << 20) - 40 + r.Below(80);
    if (c.shard == 0) sz = ((std::size_t)1 << (c.thorough ? 28 : 24)) + r.Below(100);
    c.case_timeout = 900;
    c.Begin(Str("initial=", (u64)(PRG_INITIAL_COUNTER), " seed=", Hex(seed, 16), " one request of ", sz, " bytes r=", r.s));
    Model m(seed);
    scl::PRG p(seed);
    std::unique_ptr<unsigned char[]> buf(new unsigned char[sz]);
    p.Next(buf.get(), sz);
    bool ok = true;
    for (std::size_t at = 0; ok && at < sz; at += 4096) {
      std::size_t k = std::min<std::size_t>(4096, sz - at);
      ok = !std::memcmp(buf.get() + at, m.Next(k).data(), k);
      if (!c.Check(ok, "stream-long", Str("the bytes from ", at, " on differ from AES-128 in counter mode"))) break;
    }
    c.Check(p.Next(20) == m.Next(20), "stream-long", "the request after a long one does not continue the stream");
    c.Count("bytes", sz);
    c.End();
    if (c.thorough && c.shard == 0 && i == 1) break;
  }
  return c.Finish();
}
