// M05: vectors and matrices against textbook definitions, entry by entry.
#include <memory>
#include <numeric>
#include <sstream>

#include "ref.h"
#include "scl/math/mat.h"
#include "scl/math/vec.h"
#include "scl/math/z2k.h"
#include "scl/prg.h"
#include "smallff.h"
using namespace vp;

struct Alg {
  u128 p = 0;     // prime, or 0
  unsigned k = 0;  // bits
  u128 M(u128 x) const { return k == 128 ? x : x & (((u128)1 << k) - 1); }
  u128 Add(u128 a, u128 b) const { return p ? ModP{p}.Add(a, b) : M(a + b); }
  u128 Sub(u128 a, u128 b) const { return p ? ModP{p}.Sub(a, b) : M(a - b); }
  u128 Mul(u128 a, u128 b) const { return p ? ModP{p}.Mul(a, b) : M(a * b); }
};
using Row = std::vector<u128>;
struct RM {
  std::size_t r = 0, c = 0;
  Row v;
  u128& at(std::size_t i, std::size_t j) { return v[i * c + j]; }
  const u128& at(std::size_t i, std::size_t j) const { return v[i * c + j]; }
};

template <typename T>
struct Run {
  const char* name;
  Alg A;
  unsigned bits;
  Ctx& c = Ctx::I();
  Rng r{0};
  std::string K(const char* k) { return Str(k, ":", name); }

  u128 El() { return A.p ? EdgeValue(r, A.p, bits) : A.M(EdgeValue(r, A.p ? A.p : (~(u128)0 >> 1), 127)); }
  T E(u128 v) { return FromU<T>(v); }
  u128 I(const T& e) { return ToInt(e); }
  Row RandRow(std::size_t n) {
    Row v(n);
    int sparse = (int)r.Below(3);
    for (auto& x : v) x = sparse == 0 && r.Chance(2, 3) ? 0 : El();
    return v;
  }
  scl::Vec<T> V(const Row& v) {
    std::vector<T> s;
    for (auto x : v) s.push_back(E(x));
    return scl::Vec<T>(s);
  }
  bool Same(const scl::Vec<T>& x, const Row& v) {
    if (x.Size() != v.size()) return false;
    for (std::size_t i = 0; i < v.size(); i++)
      if (I(x[i]) != v[i]) return false;
    return true;
  }
  scl::Mat<T> M(const RM& m) {
    std::vector<T> s;
    for (auto x : m.v) s.push_back(E(x));
    return scl::Mat<T>::FromVector(m.r, m.c, s);
  }
  bool Same(const scl::Mat<T>& x, const RM& m) {
    if (x.Rows() != m.r || x.Cols() != m.c) return false;
    for (std::size_t i = 0; i < m.r; i++)
      for (std::size_t j = 0; j < m.c; j++)
        if (I(x(i, j)) != m.at(i, j)) return false;
    return true;
  }
  static std::string S(const Row& v) {
    std::string s = "[";
    for (std::size_t i = 0; i < v.size() && i < 12; i++) s += (i ? "," : "") + Dec(v[i]);
    return s + (v.size() > 12 ? ",...]" : "]");
  }
  RM Rand(std::size_t n, std::size_t m) {
    RM x;
    x.r = n, x.c = m, x.v = RandRow(n * m);
    return x;
  }
  template <typename F>
  Row Map(const Row& a, const Row& b, F f) {
    Row o(a.size());
    for (std::size_t i = 0; i < a.size(); i++) o[i] = f(a[i], b[i]);
    return o;
  }
  void Refused(const std::function<void()>& f, const char* what) {
    c.Check(Thrown(f) != "", Str("accepted:", what, ":", name), Str(what, " is not refused"));
    c.Count("refusals");
  }

  // the numbers in a printed form
  static std::vector<std::string> Numbers(const std::string& s) {
    std::vector<std::string> v;
    for (std::size_t i = 0; i < s.size();) {
      std::size_t j = i;
      while (j < s.size() && std::isdigit((unsigned char)s[j])) j++;
      if (j > i) v.push_back(s.substr(i, j - i));
      i = j + (j == i);
    }
    return v;
  }
  static std::vector<std::string> Decs(const Row& a) {
    std::vector<std::string> v;
    for (auto e : a) v.push_back(Dec(e));
    return v;
  }
  void Printed(const scl::Vec<T>& x, const Row& a) {
    std::stringstream ss;
    ss << x;
    c.Check(ss.str() == x.ToString() && Numbers(ss.str()) == Decs(a), K("vec-print"), Str("the vector is printed as ", ss.str().substr(0, 200)));
  }
  void Printed(const scl::Mat<T>& x, const RM& m) {
    std::stringstream ss;
    ss << x;
    c.Check(ss.str() == x.ToString() && Numbers(ss.str()) == Decs(m.v), K("mat-print"), Str("the matrix is printed as ", ss.str().substr(0, 200)));
    // one line per row, entries of a column below each other
    std::size_t i = 0, len = 0;
    for (std::string l; std::getline(ss, l);) {
      auto v = Numbers(l);
      if (v.empty()) continue;
      c.Check(i < m.r && v.size() == m.c && (!i || l.size() == len), K("mat-print"), Str("row ", i, " is printed as ", l.substr(0, 200)));
      len = l.size(), i++;
    }
    c.Check(i == m.r, K("mat-print"), Str(i, " rows are printed of ", m.r));
    c.Count("printed-matrices");
  }

  void Vectors(std::size_t len = 0) {
    std::size_t n = len ? len : r.Chance(1, 12) ? 0 : 1 + r.Below(r.Chance(1, 10) ? 200 : 12);
    Row a = RandRow(n), b = r.Chance(1, 6) ? a : RandRow(n);
    u128 s = El();
    c.Begin(Str(name, " vectors n=", n, " a=", S(a), " b=", S(b), " s=", Dec(s)));
    auto add = [&](u128 x, u128 y) { return A.Add(x, y); };
    auto sub = [&](u128 x, u128 y) { return A.Sub(x, y); };
    auto mul = [&](u128 x, u128 y) { return A.Mul(x, y); };
    const scl::Vec<T> x = V(a), y = V(b);
    c.Check(Same(x, a) && x.Size() == n, K("vec-build"), "a vector does not hold the entries it was built from");
    Row sum = Map(a, b, add), dif = Map(a, b, sub), pro = Map(a, b, mul), sc(n);
    for (std::size_t i = 0; i < n; i++) sc[i] = A.Mul(s, a[i]);
    c.Check(Same(x.Add(y), sum), K("vec-add"), "vector sum is wrong");
    c.Check(Same(x.Subtract(y), dif), K("vec-sub"), "vector difference is wrong");
    c.Check(Same(x.MultiplyEntryWise(y), pro), K("vec-mul"), "entry-wise product is wrong");
    c.Check(Same(x.ScalarMultiply(E(s)), sc), K("vec-scale"), "scaled vector is wrong");
    if (n <= 64) Printed(x, a);
    auto inplace = [&](auto f, const Row& want, const char* w) {
      scl::Vec<T> t = x;
      scl::Vec<T>& ref = f(t);
      c.Check(&ref == &t && Same(t, want), Str(w, ":", name), "in-place variant is wrong");
      c.Check(Same(y, b) && Same(x, a), Str(w, "-operand:", name), "in-place variant changed another operand");
    };
    inplace([&](scl::Vec<T>& t) -> scl::Vec<T>& { return t.AddInPlace(y); }, sum, "vec-add-in-place");
    inplace([&](scl::Vec<T>& t) -> scl::Vec<T>& { return t.SubtractInPlace(y); }, dif, "vec-sub-in-place");
    inplace([&](scl::Vec<T>& t) -> scl::Vec<T>& { return t.MultiplyEntryWiseInPlace(y); }, pro, "vec-mul-in-place");
    inplace([&](scl::Vec<T>& t) -> scl::Vec<T>& { return t.ScalarMultiplyInPlace(E(s)); }, sc, "vec-scale-in-place");
    {  // operand aliased with the vector itself
      scl::Vec<T> t = x;
      t.AddInPlace(t);
      c.Check(Same(t, Map(a, a, add)), K("vec-alias"), "x += x is wrong");
      t = x;
      t.MultiplyEntryWiseInPlace(t);
      c.Check(Same(t, Map(a, a, mul)), K("vec-alias"), "x *= x is wrong");
      t = x;
      t.SubtractInPlace(t);
      c.Check(Same(t, Row(n, 0)), K("vec-alias"), "x -= x is wrong");
    }
    u128 dot = 0, tot = 0;
    for (std::size_t i = 0; i < n; i++) dot = A.Add(dot, pro[i]), tot = A.Add(tot, a[i]);
    c.Check(I(x.Dot(y)) == dot, K("vec-dot"), "dot product is wrong");
    c.Check(I(x.Sum()) == tot, K("vec-sum"), "sum of entries is wrong");
    c.Check(x.Equals(y) == (a == b) && x.Equals(x), K("vec-equal"), "vector equality is wrong");
    if (n) {
      Row d = a;
      std::size_t at = r.Below(n);
      d[at] = A.Add(d[at], 1);
      c.Check(!x.Equals(V(d)) && !V(d).Equals(x), K("vec-equal"), Str("vectors differing at entry ", at, " are equal"));
      Row shorter(a.begin(), a.end() - 1);
      c.Check(!x.Equals(V(shorter)) && !V(shorter).Equals(x), K("vec-equal"), "vectors of different lengths are equal");
      RM rm{1, n, a}, cm{n, 1, a};
      c.Check(Same(x.ToRowMatrix(), rm), K("vec-row"), "row matrix is wrong");
      c.Check(Same(x.ToColumnMatrix(), cm), K("vec-col"), "column matrix is wrong");
      // column times row is the outer product, row times column the dot product
      c.Check(I(x.ToRowMatrix().Multiply(y.ToColumnMatrix())(0, 0)) == dot, K("vec-rowcol"), "row times column is not the dot product");
    }
    std::unique_ptr<unsigned char[]> buf(new unsigned char[n * T::ByteSize()]);
    c.Check(x.ByteSize() == n * T::ByteSize(), K("vec-bytes"), "byte size is wrong");
    x.Write(buf.get());
    c.Check(Same(scl::Vec<T>::Read(n, buf.get()), a), K("vec-serial"), "a vector written and read back differs");
    // iteration, element access, growing
    Row it;
    for (const auto& e : x) it.push_back(I(e));
    c.Check(it == a, K("vec-iter"), "iterating gives other entries");
    Row rit;
    for (auto i = x.rbegin(); i != x.rend(); ++i) rit.push_back(I(*i));
    std::reverse(rit.begin(), rit.end());
    c.Check(rit == a, K("vec-iter"), "iterating backwards gives other entries");
    scl::Vec<T> g;
    if (r.Chance(1, 2)) g.Reserve(n);
    for (auto e : a) g.Emplace(E(e));
    c.Check(Same(g, a) && g.Equals(x), K("vec-grow"), "a vector grown entry by entry differs");
    c.Check(Same(scl::Vec<T>(x.begin(), x.end()), a) && Same(scl::Vec<T>(x.ToStlVector()), a), K("vec-copy"), "a copied vector differs");
    if (n) {
      std::size_t at = r.Below(n);
      scl::Vec<T> t = x;
      t[at] = E(s);
      Row d = a;
      d[at] = s;
      c.Check(Same(t, d) && Same(x, a), K("vec-set"), "assigning an entry is wrong");
    }
    Row longer = a;
    longer.push_back(1);
    const scl::Vec<T> z = V(longer);
    Refused([&] { (void)x.Add(z); }, "vec-add");
    Refused([&] { (void)z.Add(x); }, "vec-add");
    Refused([&] { (void)x.Subtract(z); }, "vec-sub");
    Refused([&] { (void)z.Subtract(x); }, "vec-sub");
    Refused([&] { (void)x.MultiplyEntryWise(z); }, "vec-mul");
    Refused([&] { (void)z.MultiplyEntryWise(x); }, "vec-mul");
    Refused([&] { (void)x.Dot(z); }, "vec-dot");
    Refused([&] { (void)z.Dot(x); }, "vec-dot");
    {
      scl::Vec<T> t = z;
      Refused([&] { t.AddInPlace(x); }, "vec-add-in-place");
      Refused([&] { t.SubtractInPlace(x); }, "vec-sub-in-place");
      Refused([&] { t.MultiplyEntryWiseInPlace(x); }, "vec-mul-in-place");
      c.Check(Same(t, longer), K("refused-unchanged"), "a refused in-place operation changed the vector");
    }
    c.End(n > 0);
  }

  void Matrices(std::size_t len = 0) {
    auto dim = [&]() { return 1 + r.Below(r.Chance(1, 12) ? 24 : 7); };
    std::size_t n = dim(), m = r.Chance(1, 3) ? n : dim(), q = dim();
    if (len) {  // long in one direction
      int way = (int)r.Below(3);
      n = m = q = 1 + r.Below(3);
      (way == 0 ? n : way == 1 ? m : q) = len;
    }
    RM a = Rand(n, m), b = r.Chance(1, 8) ? a : Rand(n, m), d = Rand(m, q);
    u128 s = El();
    c.Begin(Str(name, " matrices ", n, "x", m, " times ", m, "x", q, " a=", S(a.v), " b=", S(b.v), " s=", Dec(s)));
    const scl::Mat<T> x = M(a), y = M(b), z = M(d);
    c.Check(Same(x, a), K("mat-build"), "a matrix does not hold the entries it was built from");
    if (n * m <= 200) Printed(x, a);
    auto zip = [&](auto f) {
      RM o = a;
      for (std::size_t i = 0; i < o.v.size(); i++) o.v[i] = f(a.v[i], b.v[i]);
      return o;
    };
    RM sum = zip([&](u128 p, u128 w) { return A.Add(p, w); }), dif = zip([&](u128 p, u128 w) { return A.Sub(p, w); }),
       pro = zip([&](u128 p, u128 w) { return A.Mul(p, w); }), sc = zip([&](u128 p, u128) { return A.Mul(p, s); });
    c.Check(Same(x.Add(y), sum), K("mat-add"), "matrix sum is wrong");
    c.Check(Same(x.Subtract(y), dif), K("mat-sub"), "matrix difference is wrong");
    c.Check(Same(x.MultiplyEntryWise(y), pro), K("mat-mulew"), "entry-wise product is wrong");
    c.Check(Same(x.ScalarMultiply(E(s)), sc), K("mat-scale"), "scaled matrix is wrong");
    auto inplace = [&](auto f, const RM& want, const char* w) {
      scl::Mat<T> t = x;
      scl::Mat<T>& ref = f(t);
      c.Check(&ref == &t && Same(t, want), Str(w, ":", name), "in-place variant is wrong");
      c.Check(Same(y, b) && Same(x, a), Str(w, "-operand:", name), "in-place variant changed another operand");
    };
    inplace([&](scl::Mat<T>& t) -> scl::Mat<T>& { return t.AddInPlace(y); }, sum, "mat-add-in-place");
    inplace([&](scl::Mat<T>& t) -> scl::Mat<T>& { return t.SubtractInPlace(y); }, dif, "mat-sub-in-place");
    inplace([&](scl::Mat<T>& t) -> scl::Mat<T>& { return t.MultiplyEntryWiseInPlace(y); }, pro, "mat-mulew-in-place");
    inplace([&](scl::Mat<T>& t) -> scl::Mat<T>& { return t.ScalarMultiplyInPlace(E(s)); }, sc, "mat-scale-in-place");
    RM mm{n, q, Row(n * q, 0)};
    for (std::size_t i = 0; i < n; i++)
      for (std::size_t j = 0; j < q; j++)
        for (std::size_t l = 0; l < m; l++) mm.at(i, j) = A.Add(mm.at(i, j), A.Mul(a.at(i, l), d.at(l, j)));
    c.Check(Same(x.Multiply(z), mm), K("mat-mul"), "matrix product is wrong");
    RM tr{m, n, Row(n * m)};
    for (std::size_t i = 0; i < n; i++)
      for (std::size_t j = 0; j < m; j++) tr.at(j, i) = a.at(i, j);
    c.Check(Same(x.Transpose(), tr), K("mat-transpose"), "transpose is wrong");
    c.Check(x.IsSquare() == (n == m), K("mat-square"), "squareness is wrong");
    c.Check(x.Equals(y) == (a.v == b.v) && x.Equals(x), K("mat-equal"), "matrix equality is wrong");
    {
      RM e = a;
      std::size_t at = r.Below(e.v.size());
      e.v[at] = A.Add(e.v[at], 1);
      c.Check(!x.Equals(M(e)) && !M(e).Equals(x), K("mat-equal"), Str("matrices differing at entry ", at, " are equal"));
      if (n != m) {
        RM f{m, n, a.v};
        c.Check(!x.Equals(M(f)) && !M(f).Equals(x), K("mat-equal"), "matrices of different shapes are equal");
      }
      RM g{n + 1, m, a.v};
      g.v.resize((n + 1) * m, 0);
      c.Check(!x.Equals(M(g)) && !M(g).Equals(x), K("mat-equal"), "matrices of different sizes are equal");
    }
    {
      const scl::Mat<T> id = scl::Mat<T>::Identity(n);
      RM idr{n, n, Row(n * n, 0)};
      for (std::size_t i = 0; i < n; i++) idr.at(i, i) = 1;
      c.Check(Same(id, idr) && id.IsIdentity(), K("mat-identity"), "identity matrix is wrong");
      c.Check(Same(id.Multiply(x), a), K("mat-identity"), "identity times a matrix is not that matrix");
      RM e = idr;
      std::size_t at = r.Below(e.v.size());
      e.v[at] = A.Add(e.v[at], 1 + (A.p == 7 || A.p > 100 || !A.p ? r.Below(2) : 0));
      c.Check(!M(e).IsIdentity(), K("mat-is-identity"), "a matrix that is not the identity passes for it");
      if (n != m) c.Check(!x.IsIdentity(), K("mat-is-identity"), "a non-square matrix passes for the identity");
      RM w{n, n + 1, Row(n * (n + 1), 0)};
      for (std::size_t i = 0; i < n; i++) w.at(i, i) = 1;
      c.Check(!M(w).IsIdentity(), K("mat-is-identity"), "a non-square matrix passes for the identity");
    }
    // reshaping keeps the entries in order
    {
      std::size_t tot = n * m, rr = 1 + r.Below(tot);
      while (tot % rr) rr--;
      scl::Mat<T> t = x;
      t.Resize(rr, tot / rr);
      c.Check(Same(t, RM{rr, tot / rr, a.v}), K("mat-reshape"), "reshaping changed the entries");
      Refused([&] { t.Resize(n, m + 1); }, "mat-reshape");
      Refused([&] { t.Resize(n + 1, m); }, "mat-reshape");
      Refused([&] { t.Resize(0, m); }, "mat-reshape");
      c.Check(Same(t, RM{rr, tot / rr, a.v}), K("refused-unchanged"), "a refused reshape changed the matrix");
    }
    // entry access
    {
      scl::Mat<T> t = x;
      std::size_t i = r.Below(n), j = r.Below(m);
      t(i, j) = E(s);
      RM e = a;
      e.at(i, j) = s;
      c.Check(Same(t, e) && Same(x, a), K("mat-set"), "assigning an entry is wrong");
      scl::Mat<T> zero(n, m);
      c.Check(Same(zero, RM{n, m, Row(n * m, 0)}), K("mat-zero"), "a new matrix is not zero");
      scl::Mat<T> sq(n);
      c.Check(Same(sq, RM{n, n, Row(n * n, 0)}), K("mat-zero"), "a new square matrix is not zero");
    }
    std::unique_ptr<unsigned char[]> buf(new unsigned char[n * m * T::ByteSize()]);
    c.Check(x.ByteSize() == n * m * T::ByteSize(), K("mat-bytes"), "byte size is wrong");
    x.Write(buf.get());
    c.Check(Same(scl::Mat<T>::Read(n, m, buf.get()), a), K("mat-serial"), "a matrix written and read back differs");
    RM big = Rand(n + 1, m), wide = Rand(n, m + 1);
    const scl::Mat<T> bx = M(big), wx = M(wide);
    for (auto* o : {&bx, &wx}) {
      Refused([&] { (void)x.Add(*o); }, "mat-add");
      Refused([&] { (void)o->Subtract(x); }, "mat-sub");
      Refused([&] { (void)x.MultiplyEntryWise(*o); }, "mat-mulew");
      scl::Mat<T> t = x;
      Refused([&] { t.AddInPlace(*o); }, "mat-add-in-place");
      Refused([&] { t.SubtractInPlace(*o); }, "mat-sub-in-place");
      Refused([&] { t.MultiplyEntryWiseInPlace(*o); }, "mat-mulew-in-place");
      c.Check(Same(t, a), K("refused-unchanged"), "a refused in-place operation changed the matrix");
    }
    if (n != m) {
      Refused([&] { (void)x.Multiply(y); }, "mat-mul");
      scl::Mat<T> t = M(RM{m, n, a.v});
      Refused([&] { (void)x.Add(t); }, "mat-add-transposed-shape");
    }
    Refused([&] { (void)wx.Multiply(z); }, "mat-mul");
    Refused([&] { scl::Mat<T> t(0, m); }, "mat-zero-dim");
    Refused([&] { scl::Mat<T> t(n, 0); }, "mat-zero-dim");
    Refused([&] { scl::Mat<T> t(0); }, "mat-zero-dim");
    Refused([&] { (void)scl::Mat<T>::FromVector(n, m + 1, std::vector<T>(n * m)); }, "mat-from-vector");
    Refused([&] { (void)scl::Mat<T>::FromVector(n, m, std::vector<T>(n * m + 1)); }, "mat-from-vector");
    c.End();
  }

  void Go(u64 salt, double w) {
    r = c.MakeRng(salt);
    long n = c.N(16000 * w, 600000 * w);
    for (long i = 0; i < n; i++) {
      Vectors();
      Matrices();
    }
    for (long i = 0, m = c.N(64 * w, 640 * w); i < m; i++) {
      Vectors(r.Chance(1, 2) ? 250 + r.Below(20) : 257 + r.Below(2000));
      Matrices(r.Chance(1, 2) ? 250 + r.Below(20) : 257 + r.Below(300));
    }
    if (c.scale >= 1 && c.shard == 0) Vectors(65536 + r.Below(500));
    // partial random vectors: zero exactly where told so
    scl::PRG prg;
    for (int i = 0; i < 40; i++) {
      std::size_t k = r.Below(40);
      u64 pat = r.Next();
      c.Begin(Str(name, " partial random n=", k, " pattern ", pat));
      auto v = scl::Vec<T>::PartialRandom(k, [&](std::size_t j) { return pat >> (j % 64) & 1; }, prg);
      bool ok = v.Size() == k;
      for (std::size_t j = 0; ok && j < k; j++)
        if (!(pat >> (j % 64) & 1)) ok = I(v[j]) == 0;
        else if (bits > 50) ok = I(v[j]) != 0;
      c.Check(ok, K("partial-random"), "entries are not random exactly where asked");
      c.End(k > 0);
    }
  }
};

int main(int argc, char** argv) {
  Ctx::I().Init(argc, argv);
#if TYPES == 0
  Run<scl::FF<61>>{"FF61", Alg{P61(), 61}, 61}.Go(1, 1);
#elif TYPES == 1
  Run<scl::FF<127>>{"FF127", Alg{P127(), 127}, 127}.Go(2, 0.4);
  Run<SmallFF<2>>{"GF2", Alg{2, 1}, 1}.Go(4, 0.3);
#elif TYPES == 2
  Run<SmallFF<7>>{"GF7", Alg{7, 3}, 3}.Go(3, 0.6);
  Run<scl::Z2k<64>>{"Z2k64", Alg{0, 64}, 64}.Go(5, 0.4);
#else
  Run<scl::Z2k<37>>{"Z2k37", Alg{0, 37}, 37}.Go(6, 0.3);
  Run<scl::Z2k<123>>{"Z2k123", Alg{0, 123}, 123}.Go(7, 0.2);
#endif
  return Ctx::I().Finish();
}
