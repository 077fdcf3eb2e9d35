// M04: arithmetic modulo 2^k for every k from 1 to 128.
#include "m04_ops.h"

int main(int argc, char** argv) {
  Ctx& c = Ctx::I();
  c.Init(argc, argv);
  std::vector<Fns> fns;
  for (auto part : {M04Part0, M04Part1, M04Part2, M04Part3})
    for (auto& f : part()) fns.push_back(f);
  Rng r = c.MakeRng(4);
  for (unsigned k = 1; k <= 128; k++) {
    const Fns& f = fns[k - 1];
    const u128 mask = k == 128 ? ~(u128)0 : (((u128)1 << k) - 1);
    const unsigned vb = k <= 64 ? 64 : 128;
    const u128 vmask = vb == 128 ? ~(u128)0 : (((u128)1 << 64) - 1);
    c.Begin(Str("sizes k=", k));
    c.Check(f.bytes == (k + 7) / 8 && f.bits == k && f.sbits == k, "sizes", "sizes do not match k");
    c.End();
    auto edge = [&]() -> u128 {
      switch (r.Below(8)) {
        case 0: return r.Below(4);
        case 1: return mask - r.Below(4);
        case 2: return (u128)1 << r.Below(k);
        case 3: return ((u128)1 << r.Below(k)) - 1;
        case 4: return ((u128)1 << r.Below(k)) + 1;
        case 5: return (((u128)1 << r.Below(k)) - 1) ^ mask;
        default: return r.Next128();
      }
    };
    long n = c.N(8000, 200000);
    for (long i = 0; i < n; i++) {
      u128 a = edge(), b = edge();
      if (r.Chance(1, 10)) b = -a;
      if (r.Chance(1, 10)) b = a ^ ((u128)1 << r.Below(128));
      if (r.Chance(1, 2)) b |= 1;
      u128 am = a & mask, bm = b & mask;
      // bits above k
      int dirt = (int)r.Below(3);
      u128 ad = dirt == 0 ? am : dirt == 1 ? (a & vmask) : (am | (r.Next128() & vmask & ~mask));
      u128 bd = dirt == 0 ? bm : dirt == 1 ? (b & vmask) : (bm | (~mask & vmask));
      c.Begin(Str("k=", k, " a=", Dec(ad), " b=", Dec(bd)));
      u128 inv = 1;
      for (int j = 0; j < 8; j++) inv *= 2 - bm * inv;
      auto want = [&](int op) -> u128 {
        switch (op) {
          case ADD: case ADDI: return am + bm;
          case SUB: case SUBI: return am - bm;
          case RSUB: return bm - am;
          case MUL: case MULI: return am * bm;
          case NEG: case NEGATED: return -am;
          case INV: return inv;
          case DIV: case DIVI: return am * inv;
          case ALIAS_ADD: return am + am;
          case ALIAS_SUB: return 0;
          case ALIAS_MUL: return am * am;
          case ALIAS_DIV: return 1;
          default: {
            u128 x = am;
            for (int j = 0; j < 4; j++) {
              x = x * x + bm;
              x -= bm * x;
              x = -x;
            }
            return x;
          }
        }
      };
      for (int op = 0; op < NOPS; op++) {
        bool needinv = op == INV || op == DIV || op == DIVI || op == ALIAS_DIV;
        if (needinv && !(bm & 1)) continue;
        if (needinv) {
          std::string t = Thrown([&] { (void)f.op(op, ad, bd); });
          if (!c.Check(t.empty(), Str("refused:", kOps[op]), Str("an odd element is refused: ", t))) continue;
        }
        u128 g = f.op(op, ad, bd), w = want(op) & mask;
        c.Check(g == w, Str("arith:", kOps[op]), Str(kOps[op], " gives ", Dec(g), ", expected ", Dec(w), " modulo 2^", k));
      }
      int e = f.eq(ad, bd);
      c.Check(e == (am == bm ? 5 : 2), "equal", "equality is wrong");
      c.Check(f.eq(ad, am) == 5, "equal:dirt", "bits above k influence equality");
      c.Check(f.lsb(ad) == (unsigned)(am & 1), "lsb", "wrong low bit");
      c.Check(f.str(ad) == Dec(am), "print", Str("printed as ", f.str(ad), ", expected ", Dec(am)));
      if (!(bm & 1))
        for (int w = 0; w < 4; w++) c.Check(f.inv_zero(bd, w) != "", "even-inverted", "an even element is inverted");
      // serialisation: exact allocations, arbitrary bits in the last byte
      std::size_t off = r.Below(9);
      std::unique_ptr<unsigned char[]> s(new unsigned char[off + f.bytes]), d(new unsigned char[off + f.bytes]);
      for (std::size_t j = 0; j < off + f.bytes; j++) s[j] = (unsigned char)r.Next(), d[j] = s[j];
      PutLE(s.get() + off, f.bytes, dirt == 0 ? am : a);
      f.read_write(s.get() + off, d.get() + off);
      c.Check(LE(d.get() + off, f.bytes) == am, "serialise", Str("bytes of ", Dec(a), " come back as ", Dec(LE(d.get() + off, f.bytes))));
      bool same = true;
      for (std::size_t j = 0; j < off; j++) same = same && s[j] == d[j];
      c.Check(same, "serialise:outside", "writing changed bytes before the element");
      if (i % 4 == 0) {
        u128 v = r.Chance(1, 2) ? am : (a & vmask);
        std::string dec = Dec(v), bin, hex;
        for (u128 t = v; t; t >>= 1) bin.insert(bin.begin(), (char)('0' + (int)(t & 1)));
        for (u128 t = v; t; t >>= 4) hex.insert(hex.begin(), "0123456789abcdef"[(int)(t & 15)]);
        if (bin.empty()) bin = "0";
        if (hex.size() % 2 || hex.empty()) hex = "0" + hex;
        if (hex.size() % 2) hex = "0" + hex;
        auto chk = [&](const std::string& str, int base, const char* nm) {
          u128 g = 0;
          std::string t = Thrown([&] { g = f.parse(str, base); });
          c.Check(t.empty() && g == (v & mask), Str("parse:", nm), Str("\"", str, "\" gives ", Dec(g), " ", t));
        };
        chk(dec, (int)scl::NumberBase::DECIMAL, "decimal");
        chk(dec, -1, "default");
        chk(bin, (int)scl::NumberBase::BINARY, "binary");
        chk(hex, (int)scl::NumberBase::HEX, "hex");
        c.Check(Thrown([&] { (void)f.parse(dec + "x", -1); }) != "", "parse:bad", "a bad string is accepted");
        c.Check(f.parse(f.str(ad), -1) == am, "print-parse", "parsing the printed element gives another one");
      }
      c.End(am > 1 || bm > 1);
    }
    // random elements: determined by the generator, every bit used
    long m = c.N(8000, 80000);
    unsigned char seed[16];
    for (auto& x : seed) x = (unsigned char)r.Next();
    c.Begin(Str("k=", k, " random elements seed ", Hex(seed, 16)));
    scl::PRG p(seed), q(seed);
    std::vector<long> ones(k, 0);
    for (long i = 0; i < m; i++) {
      u128 v = f.random(p), w = f.random(q);
      c.Check(v == w, "random-determined", "equal generators give different elements");
      c.Check((v & ~mask) == 0, "random-range", "random element out of range");
      for (unsigned j = 0; j < k; j++) ones[j] += (long)(v >> j & 1);
    }
    double lim = 4 * __builtin_sqrt((double)m) + 2;
    for (unsigned j = 0; j < k; j++)
      c.Check(__builtin_fabs(ones[j] - m / 2.0) < lim, "random-bias", Str("bit ", j, " set in ", ones[j], " of ", m));
    c.End();
  }
  return c.Finish();
}
