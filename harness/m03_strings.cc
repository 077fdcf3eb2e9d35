// M03: numbers from and to strings.
#include <sstream>

#include "ref.h"
#include "scl/math/ff.h"
#include "scl/math/mat.h"
#include "scl/math/vec.h"
using namespace vp;
using scl::NumberBase;

static const char* kB64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

static std::string ToBase(u128 v, unsigned b) {
  std::string s;
  do {
    s.insert(s.begin(), "0123456789abcdef"[(int)(v % b)]);
    v /= b;
  } while (v);
  return s;
}
static std::string B64(u128 v, std::size_t minbytes) {
  std::vector<unsigned> by;
  while (v) {
    by.insert(by.begin(), (unsigned)(v & 255));
    v >>= 8;
  }
  while (by.size() < minbytes) by.insert(by.begin(), 0);
  std::string s;
  for (std::size_t i = 0; i < by.size(); i += 3) {
    std::size_t n = by.size() - i < 3 ? by.size() - i : 3;
    unsigned w = by[i] << 16 | (n > 1 ? by[i + 1] << 8 : 0) | (n > 2 ? by[i + 2] : 0);
    s += kB64[w >> 18 & 63];
    s += kB64[w >> 12 & 63];
    s += n > 1 ? kB64[w >> 6 & 63] : '=';
    s += n > 2 ? kB64[w & 63] : '=';
  }
  return s;
}

template <typename FF>
struct Run {
  ModP F;
  unsigned bits;
  Ctx& c = Ctx::I();
  static constexpr std::size_t B = FF::ByteSize();

  void Parse(const std::string& s, NumberBase b, const char* bn, u128 v) {
    c.Begin(Str("FF", bits, " parse ", bn, " \"", s, "\""));
    u128 got = 0;
    std::string t = Thrown([&] { got = ToInt(FF::FromString(s, b)); });
    c.Check(t.empty(), Str("refused:", bits, ":", bn), Str("a valid string is refused: ", t));
    if (t.empty()) {
      c.Check(got == v % F.p, Str("value:", bits, ":", bn), Str("gives ", Dec(got), ", expected ", Dec(v % F.p)));
      c.Check(FF::FromString(s, b) == FromU<FF>(v % F.p), Str("equal:", bits, ":", bn), "the parsed element does not equal the number's element");
    }
    if (b == NumberBase::DECIMAL) {
      u128 g2 = 0;
      Thrown([&] { g2 = ToInt(FF::FromString(s)); });
      c.Check(g2 == v % F.p, Str("value:", bits, ":default"), "the default base is not decimal");
    }
    c.End(v > 1);
  }
  void Refuse(const std::string& s, NumberBase b, const char* bn, const char* why) {
    c.Begin(Str("FF", bits, " bad ", bn, " (", why, ") \"", s, "\""));
    std::string t = Thrown([&] { (void)FF::FromString(s, b); });
    c.Check(!t.empty(), Str("accepted:", bits, ":", bn, ":", why), "an invalid string is accepted");
    c.Count("refusals");
    c.End();
  }
  void Print(u128 v) {
    c.Begin(Str("FF", bits, " print ", Dec(v)));
    FF e = FromU<FF>(v);
    std::ostringstream o;
    o << e;
    c.Check(e.ToString() == Dec(v), Str("print:", bits), Str("printed as ", e.ToString(), ", expected ", Dec(v)));
    c.Check(o.str() == Dec(v), Str("print:", bits, ":stream"), Str("streamed as ", o.str(), ", expected ", Dec(v)));
    c.Check(FF::FromString(e.ToString()) == e, Str("print-parse:", bits), "parsing the printed element gives another one");
    // printing does not depend on how the element came about
    FF f = e - FF(5) + FF(5);
    c.Check(f.ToString() == Dec(v), Str("print:", bits, ":canonical"), Str("printed as ", f.ToString(), ", expected ", Dec(v)));
    c.End(v > 1);
  }
  void Bad(Rng& r, u128 v) {
    struct Bs {
      NumberBase b;
      const char* n;
      std::string s, alpha;
    };
    std::string hex = ToBase(v, 16);
    if (hex.size() % 2) hex = "0" + hex;
    std::vector<Bs> bs = {{NumberBase::BINARY, "binary", ToBase(v, 2), "01"},
                          {NumberBase::DECIMAL, "decimal", ToBase(v, 10), "0123456789"},
                          {NumberBase::HEX, "hex", hex, "0123456789abcdefABCDEF"},
                          {NumberBase::BASE64, "base64", B64(v, 1 + r.Below(4)), std::string(kB64) + "="}};
    for (auto& b : bs) {
      // one character outside the alphabet, anywhere
      std::string s = b.s;
      char ch;
      static const std::string tricky = "-+ \t\n\r./:@G`gZz[{_,=xX2a\x80\xff\xb0\xb1\xe0";
      do
        ch = r.Chance(1, 3) ? (char)r.Below(256) : r.Chance(1, 4) ? '\0' : tricky[r.Below(tricky.size())];
      while (b.alpha.find(ch) != std::string::npos);
      if (r.Chance(1, 200)) s.insert(0, std::string((75 + r.Below(100)) * 4, b.b == NumberBase::BASE64 ? 'A' : '0'));
      std::size_t p = r.Below(s.size());
      if (b.b == NumberBase::BASE64) {
        // keep positions that carry data
        while (s[p] == '=') p = r.Below(s.size());
      }
      s[p] = ch;
      Refuse(s, b.b, b.n, "character");
    }
    std::string odd = ToBase(v, 16);
    if (odd.size() % 2 == 0) odd = "0" + odd;
    if (r.Chance(1, 200)) odd.insert(0, std::string((60 + r.Below(200)) * 2, '0'));
    Refuse(odd, NumberBase::HEX, "hex", "odd length");
    std::string b64 = B64(v, r.Chance(1, 200) ? 200 + r.Below(400) : 1 + r.Below(7));
    {
      std::string s = b64;
      int cut = 1 + (int)r.Below(3);
      if (r.Chance(1, 2))
        s = s.substr(0, s.size() - cut);
      else
        s += std::string(cut, r.Chance(1, 2) ? '=' : 'A');
      Refuse(s, NumberBase::BASE64, "base64", "length");
    }
    {
      // '=' where it does not belong
      std::string s = b64;
      std::size_t g = s.size() / 4;
      switch (r.Below(5)) {
        case 0: s[s.size() - 4] = '='; break;                                                   // first of the last group
        case 1: s[s.size() - 3] = '=', s[s.size() - 1] = '=' , s[s.size() - 2] = 'A'; break;      // hole
        case 2: s = s.substr(0, s.size() - 4) + "A==="; break;
        case 3: s = s.substr(0, s.size() - 4) + std::string("AA=") + "ABCD"[r.Below(4)]; break;  // only the third
        default: {                                                                              // in an inner group
          s += "AAAA";
          std::size_t q = r.Below(g) * 4 + r.Below(4);
          s[q] = '=';
        }
      }
      Refuse(s, NumberBase::BASE64, "base64", "padding");
    }
  }
  void Garbage(Rng& r) {
    std::size_t n = r.Below(40);
    std::string s;
    for (std::size_t i = 0; i < n; i++) s += r.Chance(3, 4) ? kB64[r.Below(64)] : (char)r.Below(256);
    if (r.Chance(1, 2)) s += std::string(r.Below(5), '=');
    c.Begin(Str("FF", bits, " any string \"", s, "\""));
    std::string z = s;
    z.shrink_to_fit();
    for (auto b : {NumberBase::BINARY, NumberBase::DECIMAL, NumberBase::HEX, NumberBase::BASE64}) {
      std::string t = Thrown([&] {
        FF e = FF::FromString(z, b);
        u128 v = ToInt(e);
        if (v >= F.p) c.Fail(Str("canonical:", bits), Str("a parsed element has value ", Dec(v)));
      });
      c.Count(t.empty() ? "garbage.accepted" : "garbage.refused");
    }
    c.End(n > 0);
  }
  void Go(u64 salt) {
    Rng r = c.MakeRng(salt);
    u128 top = B == 16 ? ~(u128)0 : (((u128)1 << (8 * B)) - 1);
    for (auto b : {NumberBase::BINARY, NumberBase::DECIMAL, NumberBase::HEX, NumberBase::BASE64}) {
      c.Begin(Str("FF", bits, " empty string base ", (int)b));
      Thrown([&] { (void)FF::FromString("", b); });  // any ordinary outcome
      c.End(false);
    }
    long n = c.N(60000, 2000000);
    for (long i = 0; i < n; i++) {
      u128 v;
      switch (r.Below(6)) {
        case 0: v = r.Next128() & top; break;
        case 1: v = F.p + r.Below(5) - r.Below(5); break;
        case 2: v = top - r.Below(4); break;
        case 3: v = (F.p * (u128)r.Below(9) + r.Below(3)) & top; break;
        default: v = EdgeValue(r, F.p, bits);
      }
      bool vast = r.Chance(1, 400);  // leading zeros by the hundred
      std::size_t lead = vast ? 100 + r.Below(900) : r.Chance(1, 3) ? r.Below(5) : 0;
      std::string z(lead, '0');
      Parse(z + ToBase(v, 2), NumberBase::BINARY, "binary", v);
      Parse(z + ToBase(v, 10), NumberBase::DECIMAL, "decimal", v);
      std::string h = z + ToBase(v, 16);
      if (h.size() % 2) h = "0" + h;
      int cs = (int)r.Below(3);
      for (auto& ch : h)
        if (ch >= 'a' && (cs == 1 || (cs == 2 && r.Chance(1, 2)))) ch = (char)(ch - 32);
      Parse(h, NumberBase::HEX, "hex", v);
      Parse(B64(v, vast ? 80 + r.Below(500) : r.Below(B + 1)), NumberBase::BASE64, "base64", v);
      Print(v % F.p);
      if (i % 2 == 0) Bad(r, v);
      Garbage(r);
    }
    // vectors and matrices print their elements
    for (int i = 0; i < 50; i++) {
      std::size_t k = 1 + r.Below(i % 10 ? 6 : 400);
      std::vector<FF> v;
      std::string want = "[";
      for (std::size_t j = 0; j < k; j++) {
        u128 x = EdgeValue(r, F.p, bits);
        v.push_back(FromU<FF>(x));
        want += (j ? ", " : "") + Dec(x);
      }
      want += "]";
      c.Begin(Str("FF", bits, " print vector ", want));
      std::ostringstream o;
      o << scl::Vec<FF>(v);
      c.Check(o.str() == want && scl::Vec<FF>(v).ToString() == want, Str("print-vec:", bits), Str("printed as ", o.str()));
      // the matrix lists its entries row by row
      std::size_t rows = 1 + r.Below(4);
      scl::Mat<FF> m(rows, k);
      std::vector<std::string> ent;
      for (std::size_t a = 0; a < rows; a++)
        for (std::size_t b = 0; b < k; b++) {
          u128 x = EdgeValue(r, F.p, bits);
          m(a, b) = FromU<FF>(x);
          ent.push_back(Dec(x));
        }
      std::string ms = m.ToString(), tok;
      for (auto& ch : ms)
        if (ch == '[' || ch == ']') ch = ' ';
      std::istringstream is(ms);
      std::vector<std::string> got;
      while (is >> tok) got.push_back(tok);
      c.Check(got == ent, Str("print-mat:", bits), Str("printed as ", m.ToString()));
      c.End();
    }
  }
};

int main(int argc, char** argv) {
  Ctx::I().Init(argc, argv);
  Run<scl::FF<61>>{ModP{P61()}, 61}.Go(61);
  Run<scl::FF<127>>{ModP{P127()}, 127}.Go(127);
  return Ctx::I().Finish();
}
