// M02: serialisation of field elements at any address, canonical reading, random elements.
#include <memory>

#include "ref.h"
#include "scl/math/ff.h"
#include "scl/math/mat.h"
#include "scl/math/vec.h"
#include "scl/prg.h"
using namespace vp;

template <typename FF>
struct Run {
  ModP F;
  unsigned bits;
  Ctx& c = Ctx::I();
  static constexpr std::size_t B = FF::ByteSize();

  void Sizes() {
    c.Begin(Str("FF", bits, " sizes"));
    c.Check(B * 8 >= bits && B <= 16, Str("size:", bits), "element size does not hold an element");
    c.End();
  }

  void ReadWrite(Rng& r, u128 bytes, bool canon) {
    std::size_t off = r.Below(17), tail = r.Chance(1, 2) ? 0 : r.Below(9);
    c.Begin(Str("FF", bits, " bytes=", Dec(bytes), " offset=", off, " tail=", tail));
    // the element may be the last thing in an exactly sized allocation; the
    // sanitizer watches what lies beyond it
    std::unique_ptr<unsigned char[]> m(new unsigned char[off + B + tail]);
    for (std::size_t i = 0; i < off + B + tail; i++) m[i] = (unsigned char)r.Next();
    PutLE(m.get() + off, B, bytes);
    std::vector<unsigned char> before(m.get(), m.get() + off + B + tail);
    FF e = FF::Read(m.get() + off);
    c.Check(std::vector<unsigned char>(m.get(), m.get() + off + B + tail) == before, Str("read-writes:", bits), "reading changed the buffer");
    // the surroundings do not influence the result
    std::unique_ptr<unsigned char[]> m2(new unsigned char[B]);
    PutLE(m2.get(), B, bytes);
    FF e2 = FF::Read(m2.get());
    u128 want = bytes % F.p;
    c.Check(e == e2, Str("read-determined:", bits), "the same bytes read at two places give different elements");
    // write at a different offset into an exact allocation
    std::size_t off2 = r.Below(17), tail2 = r.Chance(1, 2) ? 0 : r.Below(9);
    std::unique_ptr<unsigned char[]> w(new unsigned char[off2 + B + tail2]);
    std::vector<unsigned char> wb(off2 + B + tail2);
    for (std::size_t i = 0; i < wb.size(); i++) w[i] = wb[i] = (unsigned char)r.Next();
    e.Write(w.get() + off2);
    u128 got = LE(w.get() + off2, B);
    c.Check(got == want, Str("read-reduces:", bits),
            Str("bytes of ", Dec(bytes), " read and written give ", Dec(got), ", expected ", Dec(want)));
    if (canon) c.Check(got == bytes, Str("roundtrip:", bits), "writing and reading changed the bytes");
    bool same = true;
    for (std::size_t i = 0; i < wb.size(); i++)
      if ((i < off2 || i >= off2 + B) && w[i] != wb[i]) same = false;
    c.Check(same, Str("write-outside:", bits), "writing changed bytes outside the element");
    FF e3 = FF::Read(w.get() + off2);
    c.Check(e3 == e, Str("roundtrip:", bits), "an element written and read back differs");
    // results of arithmetic with the element have canonical, equal bytes
    FF f = e + FF(1) - FF(1);
    FF g = (e * FF(3)) - e - e;
    unsigned char fb[16], gb[16], eb[16];
    f.Write(fb), g.Write(gb), e.Write(eb);
    c.Check(f == e && g == e && !std::memcmp(fb, eb, B) && !std::memcmp(gb, eb, B), Str("equal-bytes:", bits),
            "equal elements have different bytes");
    c.End(bytes > 1);
  }

  // many elements back to back in one buffer, at an odd address
  void Packed(Rng& r) {
    std::size_t n = 1 + r.Below(20), off = r.Below(16);
    c.Begin(Str("FF", bits, " ", n, " elements back to back at offset ", off, " r=", r.s));
    std::unique_ptr<unsigned char[]> m(new unsigned char[off + n * B]);
    std::vector<u128> v;
    for (std::size_t i = 0; i < n; i++) {
      v.push_back(EdgeValue(r, F.p, bits));
      FromU<FF>(v[i]).Write(m.get() + off + i * B);
    }
    bool ok = true;
    for (std::size_t i = 0; i < n; i++) ok = ok && ToInt(FF::Read(m.get() + off + i * B)) == v[i] && LE(m.get() + off + i * B, B) == v[i];
    c.Check(ok, Str("packed:", bits), "elements written next to each other disturb each other");
    // the same through vectors and matrices
    scl::Vec<FF> x = scl::Vec<FF>::Read(n, m.get() + off);
    std::unique_ptr<unsigned char[]> m2(new unsigned char[x.ByteSize() + off]);
    x.Write(m2.get() + off);
    c.Check(x.ByteSize() == n * B && !std::memcmp(m2.get() + off, m.get() + off, n * B), Str("vec-bytes:", bits), "a vector is not written as its elements in order");
    scl::Mat<FF> y = scl::Mat<FF>::Read(1, n, m.get() + off);
    y.Write(m2.get() + off);
    c.Check(y.ByteSize() == n * B && !std::memcmp(m2.get() + off, m.get() + off, n * B), Str("mat-bytes:", bits), "a matrix is not written as its elements in order");
    c.End();
  }

  void Random(Rng& r) {
    unsigned char seed[16];
    for (auto& b : seed) b = (unsigned char)r.Next();
    long n = c.N(80000, 1600000);
    c.Begin(Str("FF", bits, " ", n, " random elements, seed ", Hex(seed, 16)));
    std::unique_ptr<unsigned char[]> sd(new unsigned char[64]);
    std::memset(sd.get(), 0, 64);
    std::memcpy(sd.get(), seed, 16);
    scl::PRG a = scl::PRG(sd.get()), b = scl::PRG(sd.get());
    seed[r.Below(16)] ^= 1 << r.Below(8);
    std::memcpy(sd.get(), seed, 16);
    scl::PRG d = scl::PRG(sd.get());
    std::vector<long> ones(bits, 0), xones(bits, 0), bucket(64, 0), mod7(7, 0), low(64, 0);
    std::unordered_set<u64> seen;
    u128 prev = 0;
    long dup = 0, same_d = 0;
    for (long i = 0; i < n; i++) {
      FF e = FF::Random(a), f = FF::Random(b), g = FF::Random(d);
      u128 v = ToInt(e);
      if (v >= F.p) c.Fail(Str("random-canonical:", bits), Str("random element ", Dec(v), " is not canonical"));
      if (!(e == f)) c.Fail(Str("random-determined:", bits), "two generators in the same state give different elements");
      same_d += e == g;
      for (unsigned j = 0; j < bits; j++) {
        ones[j] += (long)(v >> j & 1);
        xones[j] += (long)((v ^ prev) >> j & 1);
      }
      bucket[(std::size_t)(v >> (bits - 6))]++;
      low[(std::size_t)(v & 63)]++;
      mod7[(std::size_t)(v % 7)]++;
      dup += !seen.insert((u64)v ^ (u64)(v >> 64) * 0x9e3779b97f4a7c15ULL).second;
      prev = v;
    }
    double s = 8.0 * 0.5 * __builtin_sqrt((double)n);
    for (unsigned j = 0; j < bits; j++) {
      c.Check(__builtin_fabs(ones[j] - n / 2.0) < s + 2, Str("random-bias:", bits), Str("bit ", j, " is set in ", ones[j], " of ", n, " random elements"));
      c.Check(__builtin_fabs(xones[j] - n / 2.0) < s + 2, Str("random-serial:", bits),
              Str("bit ", j, " changes between consecutive elements in ", xones[j], " of ", n));
    }
    auto chi = [&](const std::vector<long>& h, const char* what) {
      double x = 0, ex = (double)n / h.size();
      for (long k : h) x += (k - ex) * (k - ex) / ex;
      double df = (double)h.size() - 1, lim = df + 10 * __builtin_sqrt(2 * df) + 30;
      c.Check(x < lim, Str("random-bias:", bits, ":", what), Str("chi-square ", x, " over ", h.size(), " classes (limit ", lim, ")"));
    };
    chi(bucket, "high"), chi(low, "low"), chi(mod7, "mod7");
    c.Check(dup == 0, Str("random-repeats:", bits), Str(dup, " of ", n, " random elements repeat"));
    c.Check(same_d == 0, Str("random-seed:", bits), "different seeds give the same elements");
    c.Count("random_elements", 3 * n);
    // vectors and matrices of random elements
    scl::PRG p1 = scl::PRG(sd.get()), p2 = scl::PRG(sd.get());
    std::unordered_set<u64> s2;
    bool eq = true, back = true;
    long cnt = 0, dups = 0, bad = 0;
    for (std::size_t k : {1, 2, 7, 64, 200, 257, 66000}) {
      auto v1 = scl::Vec<FF>::Random(k, p1), v2 = scl::Vec<FF>::Random(k, p2);
      auto m1 = scl::Mat<FF>::Random(k, 3, p1), m2 = scl::Mat<FF>::Random(k, 3, p2);
      eq = eq && v1.Size() == k && v1.Equals(v2) && m1.Rows() == k && m1.Cols() == 3 && m1.Equals(m2);
      {
        std::unique_ptr<unsigned char[]> vb(new unsigned char[v1.ByteSize()]), mb(new unsigned char[m1.ByteSize()]);
        v1.Write(vb.get()), m1.Write(mb.get());
        auto v3 = scl::Vec<FF>::Read(k, vb.get());
        auto m3 = scl::Mat<FF>::Read(k, 3, mb.get());
        back = back && v3.Size() == k && v3.Equals(v1) && m3.Rows() == k && m3.Cols() == 3 && m3.Equals(m1);
      }
      auto add = [&](const FF& e) {
        u128 v = ToInt(e);
        cnt++;
        bad += v >= F.p;
        dups += !s2.insert((u64)v ^ (u64)(v >> 64) * 0x9e3779b97f4a7c15ULL).second;
      };
      for (auto& e : v1) add(e);
      for (std::size_t i = 0; i < k; i++)
        for (std::size_t j = 0; j < 3; j++) add(m1(i, j));
    }
    c.Check(eq, Str("random-vec:", bits), "random vectors or matrices are not determined by the generator");
    c.Check(back, Str("read-back:", bits), "a vector or matrix written and read back differs");
    c.Check(!bad && !dups, Str("random-vec-repeats:", bits), Str(dups, " of ", cnt, " random entries repeat, ", bad, " are not canonical"));
    c.End();
  }

  void Go(u64 salt) {
    Rng r = c.MakeRng(salt);
    Sizes();
    for (int i = 0; i < (c.thorough ? 6 : 1); i++) Random(r);
    long n = c.N(160000, 6000000);
    u128 top = B == 16 ? ~(u128)0 : (((u128)1 << (8 * B)) - 1);
    for (long i = 0; i < n; i++) {
      u128 v = EdgeValue(r, F.p, bits);
      bool canon = true;
      switch (r.Below(6)) {
        case 0: v = r.Next128() & top; break;
        case 1: v = (v + F.p) & top; break;
        case 2: v = (F.p * (u128)r.Below(9) + (u128)r.Below(3) - (u128)r.Below(3)) & top; break;
        case 3: v = (top - r.Below(4)); break;
        default: break;
      }
      canon = v < F.p;
      ReadWrite(r, v, canon);
      if (i % 8 == 0) Packed(r);
    }
  }
};

int main(int argc, char** argv) {
  Ctx::I().Init(argc, argv);
  Run<scl::FF<61>>{ModP{P61()}, 61}.Go(61);
  Run<scl::FF<127>>{ModP{P127()}, 127}.Go(127);
  return Ctx::I().Finish();
}
