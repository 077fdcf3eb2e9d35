// M07: polynomials in coefficient and in point-value form against reference arithmetic.
#include "ref.h"
#include "scl/math/vec.h"
#include "scl/ss/evpoly.h"
#include "scl/ss/poly.h"
#include "smallff.h"
using namespace vp;
namespace sd = scl::details;

using Co = std::vector<u128>;

static Co Norm(Co c) {
  while (c.size() > 1 && !c.back()) c.pop_back();
  if (c.empty()) c.push_back(0);
  return c;
}
static std::string S(const Co& v) {
  std::string s = "[";
  for (auto x : v) s += Dec(x) + " ";
  return s + "]";
}

template <typename T>
struct Run {
  const char* name;
  ModP F;
  unsigned bits;
  Ctx& c = Ctx::I();
  Rng r{0};
  using P = sd::Polynomial<T>;
  using E = sd::EvPolynomial<T>;

  std::string K(const char* k) { return Str(k, ":", name); }
  u128 El() { return r.Chance(1, 4) ? 0 : EdgeValue(r, F.p, bits); }
  scl::Vec<T> V(const Co& v) {
    std::vector<T> s;
    for (auto x : v) s.push_back(FromU<T>(x));
    return scl::Vec<T>(s);
  }
  u128 Ev(const Co& f, u128 x) {
    u128 y = 0, xp = 1;
    for (auto a : f) {
      y = F.Add(y, F.Mul(a, xp));
      xp = F.Mul(xp, x);
    }
    return y;
  }
  Co Mul(const Co& f, const Co& g) {
    Co h(f.size() + g.size() - 1, 0);
    for (std::size_t i = 0; i < f.size(); i++)
      for (std::size_t j = 0; j < g.size(); j++) h[i + j] = F.Add(h[i + j], F.Mul(f[i], g[j]));
    return h;
  }
  Co AddSub(const Co& f, const Co& g, bool sub) {
    Co h(f.size() > g.size() ? f.size() : g.size(), 0);
    for (std::size_t i = 0; i < h.size(); i++) {
      u128 a = i < f.size() ? f[i] : 0, b = i < g.size() ? g[i] : 0;
      h[i] = sub ? F.Sub(a, b) : F.Add(a, b);
    }
    return h;
  }
  // exact comparison including normalisation
  void Is(const P& p, const Co& want0, const char* what) {
    Co want = Norm(want0);
    bool ok = p.Degree() == want.size() - 1;
    for (std::size_t i = 0; ok && i < want.size(); i++) ok = ToInt(p[i]) == want[i];
    c.Check(ok, K(what), Str(what, " gives ", p.ToString(), ", expected coefficients ", S(want)));
    bool zero = want.size() == 1 && !want[0];
    c.Check(p.IsZero() == zero, K("is-zero"), Str("the zero test of the result of ", what, " is wrong"));
    if (ok) {
      c.Check(ToInt(p.ConstantTerm()) == want[0] && ToInt(p.LeadingTerm()) == want.back(), K("terms"), "constant or leading term is wrong");
    }
  }
  // the printed form is the sum of the terms: parsed back it gives the coefficients
  void Printed(const P& p, const Co& want) {
    std::ostringstream o;
    o << p;
    std::string a = p.ToString(), b = p.ToString("poly", "Var"), w;
    auto parse = [&](const std::string& s, const std::string& head, const std::string& var, Co& got) {
      if (s.compare(0, head.size(), head)) return false;
      std::istringstream in(s.substr(head.size()));
      got.clear();
      while (in >> w) {
        if (w == "+") continue;
        u128 v = 0;
        std::size_t i = 0, e = 0;
        for (; i < w.size() && std::isdigit((unsigned char)w[i]); i++) v = v * 10 + (u128)(w[i] - '0');
        if (!i) return false;
        if (i < w.size()) {
          if (w.compare(i, var.size(), var)) return false;
          i += var.size();
          e = 1;
          if (i < w.size()) {
            if (w[i] != '^') return false;
            e = std::stoul(w.substr(i + 1));
          }
        }
        if (e > 100000) return false;
        if (got.size() <= e) got.resize(e + 1, 0);
        got[e] = F.Add(got[e], v);
      }
      return true;
    };
    Co g1, g2;
    bool ok = parse(a, "f(x) =", "x", g1) && parse(b, "poly(Var) =", "Var", g2);
    c.Check(ok && o.str() == a && Norm(g1) == want && Norm(g2) == want, K("print"), Str("printed as ", a, " and ", b, ", expected coefficients ", S(want)));
    c.Count("printed");
  }
  Co RandPoly() {
    Co f(r.Below(8));
    for (auto& x : f) x = El();
    if (r.Chance(1, 4)) f.insert(f.end(), r.Below(4), 0);  // leading zeros to be dropped
    return f;
  }
  void Coeff() {
    Co f = RandPoly(), g = RandPoly();
    switch (r.Below(8)) {  // cancelling leading terms, equal ones, multiples
      case 0: g = f; break;
      case 1: {
        g = Norm(f);
        g.back() = F.Neg(g.back());
        break;
      }
      case 2: {
        g = Norm(f);
        g[0] = F.Add(g[0], 1);
        break;
      }
      case 3: f = Mul(Norm(f), Norm(g)); break;
      default: break;
    }
    c.Begin(Str(name, " coefficient form f=", S(f), " g=", S(g)));
    const P p = P::Create(V(f)), q = P::Create(V(g));
    Co nf = Norm(f), ng = Norm(g);
    Is(p, nf, "create");
    Is(q, ng, "create");
    Is(p.Add(q), AddSub(nf, ng, false), "add");
    Is(p.Subtract(q), AddSub(nf, ng, true), "subtract");
    Is(q.Subtract(p), AddSub(ng, nf, true), "subtract");
    Is(p.Multiply(q), Mul(nf, ng), "multiply");
    for (int i = 0; i < 4; i++) {
      u128 x = i == 0 ? 0 : i == 1 ? 1 : EdgeValue(r, F.p, bits);
      c.Check(ToInt(p.Evaluate(FromU<T>(x))) == Ev(nf, x), K("evaluate"), Str("evaluation at ", Dec(x), " is wrong"));
    }
    bool gz = ng.size() == 1 && !ng[0];
    if (gz) {
      c.Check(Thrown([&] { (void)p.Divide(q); }) != "", K("divide-zero"), "dividing by the zero polynomial is not refused");
      c.Count("refusals");
    } else {
      auto d = p.Divide(q);
      Co qu, re;
      {  // reference long division
        Co rem = nf;
        std::size_t dg = ng.size() - 1;
        qu.assign(rem.size() > dg ? rem.size() - dg : 1, 0);
        u128 iv = F.Inv(ng.back());
        for (std::size_t k = rem.size(); k-- > dg;) {
          u128 t = F.Mul(rem[k], iv);
          qu[k - dg] = t;
          for (std::size_t j = 0; j <= dg; j++) rem[k - dg + j] = F.Sub(rem[k - dg + j], F.Mul(t, ng[j]));
        }
        re = rem;
      }
      Is(d[0], qu, "quotient");
      Is(d[1], re, "remainder");
      c.Check(d[1].IsZero() || d[1].Degree() < q.Degree(), K("remainder-degree"), "the remainder's degree is not below the divisor's");
      Is(d[0].Multiply(q).Add(d[1]), nf, "quotient-times-divisor-plus-remainder");
    }
    if (r.Chance(1, 4)) Printed(p, nf);
    Is(p, nf, "operand");
    Is(q, ng, "operand");
    Is(P(), {0}, "default");
    u128 k = El();
    Is(P(FromU<T>(k)), {k}, "constant");
    c.End(nf.size() > 1 || ng.size() > 1);
  }
  void Points() {
    std::size_t n = 1 + r.Below(F.p < 20 ? (std::size_t)(F.p < 6 ? F.p : 6) : 9);
    // distinct points
    Co xs, ys, y2;
    int how = (int)r.Below(3);
    u128 start = El();
    if (how == 2) start = 0;
    while (xs.size() < n) {
      u128 x = how == 0 ? EdgeValue(r, F.p, bits) : F.Add(start, xs.size());
      bool dup = false;
      for (auto o : xs) dup |= o == x;
      if (!dup) xs.push_back(x);
      else if (how == 0 && F.p < 20) {
        for (u128 z = 0; z < F.p && xs.size() < n; z++) {
          bool d2 = false;
          for (auto o : xs) d2 |= o == z;
          if (!d2) xs.push_back(z);
        }
      }
    }
    for (std::size_t i = 0; i < n; i++) ys.push_back(El()), y2.push_back(r.Chance(1, 4) ? ys[i] : El());
    if (r.Chance(1, 8)) ys.assign(n, El());
    c.Begin(Str(name, " points how=", how, " x=", S(xs), " y=", S(ys), " y2=", S(y2)));
    const E p = how == 0 ? E(V(xs), V(ys)) : how == 1 ? E(FromU<T>(start), V(ys)) : E(V(ys));
    const E q = E(V(xs), V(y2));
    Co f = Interpolate(F, xs, ys), g = Interpolate(F, xs, y2);
    c.Check(p.Degree() == n - 1, K("ev-degree"), "degree bound is not the number of points minus one");
    auto at = [&](const E& e, const Co& h, u128 x, const char* what) {
      u128 got = ToInt(e.Evaluate(FromU<T>(x)));
      c.Check(got == Ev(h, x), K(what), Str(what, " at ", Dec(x), " is ", Dec(got), ", expected ", Dec(Ev(h, x))));
    };
    std::vector<u128> where = xs;
    for (int i = 0; i < 4; i++) where.push_back(EdgeValue(r, F.p, bits));
    where.push_back(F.Neg(1));
    for (auto x : where) at(p, f, x, "ev-evaluate");
    auto many = p.Evaluate(V(where));
    bool ok = many.Size() == where.size();
    for (std::size_t i = 0; ok && i < where.size(); i++) ok = ToInt(many[i]) == Ev(f, where[i]);
    c.Check(ok, K("ev-evaluate-many"), "evaluation at a vector of points is wrong");
    const E s = p.Add(q), d = p.Subtract(q);
    Co fs = AddSub(f, g, false), fd = AddSub(f, g, true);
    for (auto x : where) {
      at(s, fs, x, "ev-add");
      at(d, fd, x, "ev-subtract");
    }
    bool keep = true;
    auto px = p.GetX(), py = p.GetY();
    keep = px.Size() == n && py.Size() == n;
    for (std::size_t i = 0; keep && i < n; i++) keep = ToInt(px[i]) == xs[i] && ToInt(py[i]) == ys[i] && ToInt(p[i]) == ys[i];
    c.Check(keep, K("ev-points"), "points or values are not those given");
    c.Check(ToInt(p.GetFirstPoint()) == xs[0], K("ev-points"), "the first point is wrong");
    if (n == 1) c.Check(p.IsZero() == !ys[0], K("ev-zero"), "zero test is wrong");
    {
      E k(FromU<T>(ys[0]));
      at(k, {ys[0]}, EdgeValue(r, F.p, bits), "ev-constant");
      E z;
      c.Check(z.IsZero(), K("ev-default"), "the default is not zero");
      at(z, {0}, EdgeValue(r, F.p, bits), "ev-default");
    }
    // refusals
    Co one_more = ys;
    one_more.push_back(1);
    auto refused = [&](const std::function<void()>& fn, const char* what) {
      c.Check(Thrown(fn) != "", K(what), Str(what, " is not refused"));
      c.Count("refusals");
    };
    refused([&] { E(V(xs), V(one_more)); }, "ev-mismatch");
    refused([&] { E(V(Co(xs.begin(), xs.end() - 1)), V(ys)); }, "ev-mismatch");
    refused([&] { E(scl::Vec<T>(), scl::Vec<T>()); }, "ev-empty");
    refused([&] { E(FromU<T>(3), scl::Vec<T>()); }, "ev-empty");
    refused([&] { E e{scl::Vec<T>()}; }, "ev-empty");
    {
      Co other = xs;
      other[r.Below(n)] = F.Add(other[r.Below(n)], 1);
      if (other != xs) {
        // any vector of x-coordinates that differs, in one place or in length
        std::unordered_set<u64> st;
        const E o(V(other), V(y2));
        refused([&] { (void)p.Add(o); }, "ev-add-points");
        refused([&] { (void)p.Subtract(o); }, "ev-subtract-points");
      }
      if (n > 1) {
        const E sh(V(Co(xs.begin(), xs.end() - 1)), V(Co(ys.begin(), ys.end() - 1)));
        refused([&] { (void)p.Add(sh); }, "ev-add-points");
        refused([&] { (void)sh.Subtract(p); }, "ev-subtract-points");
      }
    }
    c.End(n > 1);
  }
  void Go(u64 salt, double w) {
    r = c.MakeRng(salt);
    long n = c.N(40000 * w, 1600000 * w);
    for (long i = 0; i < n; i++) {
      Coeff();
      Points();
    }
  }
};

int main(int argc, char** argv) {
  Ctx::I().Init(argc, argv);
  Run<SmallFF<2>>{"GF2", ModP{2}, 1}.Go(1, 0.5);
  Run<SmallFF<7>>{"GF7", ModP{7}, 3}.Go(2, 1);
  Run<SmallFF<251>>{"GF251", ModP{251}, 8}.Go(3, 0.7);
  Run<scl::FF<61>>{"FF61", ModP{P61()}, 61}.Go(4, 0.5);
  Run<scl::FF<127>>{"FF127", ModP{P127()}, 127}.Go(5, 0.05);
  return Ctx::I().Finish();
}
