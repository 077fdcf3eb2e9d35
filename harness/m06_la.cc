// M06: linear systems and row reduction against an independent elimination.
#include "ref.h"
#include "scl/math/la.h"
#include "scl/math/mat.h"
#include "scl/math/vec.h"
#include "smallff.h"
using namespace vp;
namespace sd = scl::details;

using RM = std::vector<std::vector<u128>>;

// reduced row echelon form; returns the pivot columns
static std::vector<std::size_t> Rref(const ModP& F, RM& a) {
  std::vector<std::size_t> piv;
  std::size_t n = a.size(), m = a[0].size(), r = 0;
  for (std::size_t c = 0; c < m && r < n; c++) {
    std::size_t p = r;
    while (p < n && !a[p][c]) p++;
    if (p == n) continue;
    std::swap(a[p], a[r]);
    u128 iv = F.Inv(a[r][c]);
    for (auto& x : a[r]) x = F.Mul(x, iv);
    for (std::size_t i = 0; i < n; i++)
      if (i != r && a[i][c]) {
        u128 f = a[i][c];
        for (std::size_t j = 0; j < m; j++) a[i][j] = F.Sub(a[i][j], F.Mul(f, a[r][j]));
      }
    piv.push_back(c);
    r++;
  }
  return piv;
}

template <typename T>
struct Run {
  const char* name;
  ModP F;
  unsigned bits;
  Ctx& c = Ctx::I();
  Rng r{0};

  u128 El(int style) {
    if (style == 0) return r.Chance(2, 3) ? 0 : EdgeValue(r, F.p, bits);
    if (style == 1) return r.Below(2);
    return EdgeValue(r, F.p, bits);
  }
  // n x m of rank at most k, often with zero or repeated rows and columns
  RM Rand(std::size_t n, std::size_t m, std::size_t k, int style) {
    RM x(n, std::vector<u128>(k)), y(k, std::vector<u128>(m)), z(n, std::vector<u128>(m, 0));
    for (auto& row : x)
      for (auto& e : row) e = El(style);
    for (auto& row : y)
      for (auto& e : row) e = El(style);
    for (std::size_t i = 0; i < n; i++)
      for (std::size_t j = 0; j < m; j++)
        for (std::size_t l = 0; l < k; l++) z[i][j] = F.Add(z[i][j], F.Mul(x[i][l], y[l][j]));
    if (r.Chance(1, 3)) {  // echelon-like: leading zero columns, zero rows, permuted rows
      std::size_t zc = r.Below(m);
      if (r.Chance(1, 2))
        for (auto& row : z) row[zc] = 0;
      if (r.Chance(1, 3)) z[r.Below(n)] = std::vector<u128>(m, 0);
      std::swap(z[r.Below(n)], z[r.Below(n)]);
    }
    return z;
  }
  scl::Mat<T> M(const RM& a) {
    scl::Mat<T> x(a.size(), a[0].size());
    for (std::size_t i = 0; i < a.size(); i++)
      for (std::size_t j = 0; j < a[0].size(); j++) x(i, j) = FromU<T>(a[i][j]);
    return x;
  }
  bool Same(const scl::Mat<T>& x, const RM& a) {
    if (x.Rows() != a.size() || x.Cols() != a[0].size()) return false;
    for (std::size_t i = 0; i < a.size(); i++)
      for (std::size_t j = 0; j < a[0].size(); j++)
        if (ToInt(x(i, j)) != a[i][j]) return false;
    return true;
  }
  static std::string S(const RM& a) {
    std::string s = "[";
    for (auto& row : a) {
      s += "[";
      for (auto e : row) s += Dec(e) + " ";
      s += "]";
    }
    return s + "]";
  }

  void Case(std::size_t n, std::size_t m, std::size_t k, int style, int bstyle) {
    RM a = Rand(n, m, k, style);
    std::vector<u128> x0(m), b(n, 0);
    for (auto& e : x0) e = El(style);
    if (bstyle != 1)  // in the column space
      for (std::size_t i = 0; i < n; i++)
        for (std::size_t j = 0; j < m; j++) b[i] = F.Add(b[i], F.Mul(a[i][j], x0[j]));
    if (bstyle == 1)
      for (auto& e : b) e = El(style);
    if (bstyle == 2) {  // off by one entry
      auto& e = b[r.Below(n)];
      e = F.Add(e, 1);
    }
    if (bstyle == 3) b.assign(n, 0);
    RM aug = a;
    for (std::size_t i = 0; i < n; i++) aug[i].push_back(b[i]);
    c.Begin(Str(name, " system ", n, "x", m, " augmented ", S(aug)));
    RM ref = aug;
    auto piv = Rref(F, ref);
    bool solvable = piv.empty() || piv.back() != m;
    bool unique = solvable && piv.size() == m;
    c.Count(!solvable ? "systems.none" : unique ? "systems.unique" : "systems.many");
    c.Count(n == m ? "shape.square" : n > m ? "shape.over" : "shape.under");
    scl::Vec<T> bv(n);
    for (std::size_t i = 0; i < n; i++) bv[i] = FromU<T>(b[i]);
    const scl::Mat<T> am = M(a);
    scl::Mat<T> g = sd::CreateAugmentedMatrix(am, bv);
    c.Check(Same(g, aug), Str("augment:", name), "the augmented matrix is wrong");
    sd::RowReduceInPlace(g);
    c.Check(Same(g, ref), Str("rref:", name), "row reduction does not give the reduced row echelon form");
    // decided from the reduced form (given correctly here)
    const scl::Mat<T> red = M(ref);
    c.Check(sd::HasSolution(red, false) == solvable, Str("solvable:", name), Str("solvability decided wrongly, it is ", solvable));
    c.Check(sd::HasSolution(red, true) == unique, Str("unique:", name), Str("uniqueness decided wrongly, it is ", unique));
    scl::Vec<T> x;
    int pre = (int)r.Below(3);
    if (pre == 1) x = scl::Vec<T>(m);
    if (pre == 2) x = scl::Vec<T>(m + 2);
    bool ok = sd::SolveLinearSystem(x, am, bv);
    c.Check(ok == unique, Str("solve-decision:", name), Str("solving reports ", ok, ", the system has a unique solution: ", unique));
    if (ok && unique) {
      bool good = x.Size() == m;
      for (std::size_t i = 0; good && i < m; i++) good = ToInt(x[i]) == ref[i][m];
      c.Check(good, Str("solution:", name), "the returned solution is wrong");
    }
    c.Check(Same(am, a), Str("operand:", name), "solving changed the matrix");
    bool bs = bv.Size() == n;
    for (std::size_t i = 0; bs && i < n; i++) bs = ToInt(bv[i]) == b[i];
    c.Check(bs, Str("operand:", name), "solving changed the right-hand side");
    // the matrix alone, and reducing twice
    RM ra = a;
    Rref(F, ra);
    scl::Mat<T> h = am;
    sd::RowReduceInPlace(h);
    c.Check(Same(h, ra), Str("rref:", name), "row reduction of the coefficient matrix is wrong");
    sd::RowReduceInPlace(h);
    c.Check(Same(h, ra), Str("rref-idempotent:", name), "reducing twice changes the result");
    // several right-hand sides at once
    if (r.Chance(1, 4)) {
      RM two = a;
      std::size_t w = 1 + r.Below(4);
      RM rhs(n, std::vector<u128>(w));
      for (auto& row : rhs)
        for (auto& e : row) e = El(style);
      for (std::size_t i = 0; i < n; i++) two[i].insert(two[i].end(), rhs[i].begin(), rhs[i].end());
      scl::Mat<T> t = sd::CreateAugmentedMatrix(am, M(rhs));
      c.Check(Same(t, two), Str("augment:", name), "the matrix augmented by a matrix is wrong");
      Rref(F, two);
      sd::RowReduceInPlace(t);
      c.Check(Same(t, two), Str("rref:", name), "row reduction with several right-hand sides is wrong");
    }
    for (int d : {-1, 1, 2}) {
      if ((int)n + d < 0) continue;
      scl::Vec<T> bad(n + d), y;
      c.Check(Thrown([&] { (void)sd::SolveLinearSystem(y, am, bad); }) != "", Str("malformed:", name), "a system with a wrong number of right-hand sides is accepted");
      c.Count("refusals");
    }
    c.End(n > 1 || m > 1);
  }
  void Go(u64 salt, double w) {
    r = c.MakeRng(salt);
    long cnt = c.N(30000 * w, 1200000 * w);
    for (long i = 0; i < cnt; i++) {
      std::size_t top = r.Chance(1, 20) ? 14 : 6;
      std::size_t n = 1 + r.Below(top), m = r.Chance(1, 3) ? n : 1 + r.Below(top);
      std::size_t mn = n < m ? n : m;
      std::size_t k = r.Chance(2, 3) ? mn : r.Below(mn + 1);
      if (!k) k = 1;
      Case(n, m, k, (int)r.Below(4), (int)r.Below(5));
    }
  }
};

int main(int argc, char** argv) {
  Ctx::I().Init(argc, argv);
  Run<SmallFF<2>>{"GF2", ModP{2}, 1}.Go(1, 1.2);
  Run<SmallFF<3>>{"GF3", ModP{3}, 2}.Go(2, 1);
  Run<SmallFF<7>>{"GF7", ModP{7}, 3}.Go(3, 1);
  Run<SmallFF<251>>{"GF251", ModP{251}, 8}.Go(4, 0.5);
  Run<scl::FF<61>>{"FF61", ModP{P61()}, 61}.Go(5, 0.5);
  Run<scl::FF<127>>{"FF127", ModP{P127()}, 127}.Go(6, 0.05);
  return Ctx::I().Finish();
}
