// What a coalition sees, compared between two assignments of the other
// parties' inputs.  The coalition's randomness is fixed, the others' is fresh in
// every run.  The runs' views span an affine (degree 1) or quadratic hull; two
// equal distributions have equal hulls.  With honest shares uniform over a field
// of 2^61 elements a hull is found exactly, up to chances around 2^-50.
#ifndef VP_PRIVACY_H
#define VP_PRIVACY_H
#include "proto.h"
#include "ref.h"

namespace vp {
struct Scenario {
  Spec s;
  std::size_t n = 0, t = 0;
  std::vector<std::size_t> coalition;
  u64v x, y;  // two inputs, equal for the coalition, with equal outputs for it
  std::size_t coalition_outs = 0;
  std::string how;
  std::string Print() const {
    std::string who;
    for (auto i : coalition) who += Str(" ", i);
    return Str("n=", n, " t=", t, " coalition", who, " ", how, " ", s.Print(500), " inputs", PrintVec(x), " versus", PrintVec(y));
  }
};

inline Scenario MakeScenario(Rng& r, std::size_t n, std::size_t t, std::size_t k, bool tiny) {
  while (true) {
    Scenario q;
    q.n = n, q.t = t;
    std::vector<std::size_t> id(n);
    for (std::size_t i = 0; i < n; i++) id[i] = i;
    for (std::size_t i = n; i-- > 1;) std::swap(id[i], id[r.Below(i + 1)]);
    std::size_t size = r.Chance(1, 8) ? 1 + r.Below(t) : t;
    // the first party sees most: it is in half of the coalitions
    if (r.Chance(1, 2))
      for (auto& i : id)
        if (i == 0) std::swap(i, id[0]);
    q.coalition.assign(id.begin(), id.begin() + size);
    std::vector<bool> bad(n, false);
    for (auto i : q.coalition) bad[i] = true;
    std::vector<int> honest, evil;
    for (std::size_t i = 0; i < n; i++) (bad[i] ? evil : honest).push_back((int)i);
    if (tiny) {
      q.s.n = n, q.s.k = k;
      std::size_t ni = 2 + r.Below(2);
      for (std::size_t i = 0; i < ni; i++) q.s.in_owner.push_back(r.Pick(honest));
      if (r.Chance(1, 3)) q.s.in_owner[0] = r.Pick(evil);
      int m = 1 + (int)r.Below(2);
      for (int i = 0; i < m; i++) q.s.ops.push_back({kMult, i ? (int)r.Below(ni) : 0, i ? (int)r.Below(ni) : (int)(1 % ni)});
    } else {
      q.s = RandomSpec(r, n, k, 1);
      for (auto& o : q.s.in_owner) o = r.Chance(2, 3) ? r.Pick(honest) : r.Pick(evil);
    }
    q.s.outs.clear();
    std::vector<int> hin;
    for (std::size_t i = 0; i < q.s.in_owner.size(); i++)
      if (!bad[q.s.in_owner[i]]) hin.push_back((int)i);
    if (hin.empty()) continue;
    int mode = (int)r.Below(4);
    if (hin.size() < 2) mode = 0;
    q.x = RandomInputs(r, q.s);
    if (r.Chance(1, 2))
      for (auto& v : q.x) v = r.Next() % kP;
    q.y = q.x;
    int nodes = (int)q.s.in_owner.size();
    for (auto& o : q.s.ops) nodes += o.kind != kNewLayer;
    int a = hin[0], b = hin.back();
    if (mode == 0) {  // everything of the others changes
      q.how = "all";
      for (int i : hin) q.y[i] = RandValue(r);
    } else if (mode == 1) {
      q.how = "one";
      q.y[r.Pick(hin)] = RandValue(r);
    } else if (mode == 2) {  // a sum stays
      q.how = "sum";
      u64 d = 1 + r.Next() % (kP - 1);
      q.y[a] = AddP(q.x[a], d), q.y[b] = SubP(q.x[b], d);
      q.s.ops.push_back({kAdd, a, b});
      int sum = nodes++;
      if (!tiny && r.Chance(1, 2)) {
        q.s.ops.push_back({kNewLayer});
        q.s.ops.push_back({kMult, sum, sum});
        nodes++;
      }
    } else {  // a product stays
      q.how = "product";
      u64 d = 2 + r.Next() % (kP - 2);
      q.y[a] = MulP(q.x[a], d), q.y[b] = MulP(q.x[b], InvP(d));
      if (!tiny) q.s.ops.push_back({kMult, a, b}), nodes++;
    }
    if (q.x == q.y) continue;
    u64v vx = q.s.Eval(q.x), vy = q.s.Eval(q.y);
    std::vector<int> same;
    for (int i = 0; i < nodes; i++)
      if (vx[i] == vy[i]) same.push_back(i);
    std::size_t no = tiny ? 1 + r.Below(2) : 1 + r.Below(4);
    for (std::size_t i = 0; i < no; i++) {
      if (!same.empty() && r.Chance(1, 2)) {
        int node = r.Chance(1, 2) ? same.back() : r.Pick(same);
        q.s.outs.push_back({r.Pick(evil), node});
        q.coalition_outs++;
      } else
        q.s.outs.push_back({r.Pick(honest), (int)(r.Chance(1, 2) ? nodes - 1 : r.Below(nodes))});
    }
    if (q.s.Mults() == 0 && !r.Chance(1, 20)) continue;
    return q;
  }
}

// One run; what the coalition's members received, phase after phase.
using ViewFn = std::function<u64v(const Scenario&, const u64v& inputs)>;

inline u64v Join(const Scenario& q, Mesh& m) {
  u64v v;
  for (auto i : q.coalition) {
    v.insert(v.end(), m.view[i].begin(), m.view[i].end());
    m.view[i].clear();
  }
  return v;
}

struct Nonces {
  std::vector<long long> fix;
  explicit Nonces(Rng& r, std::size_t n) {
    for (std::size_t i = 0; i < n; i++) fix.push_back((long long)r.Next());
  }
  void Fresh(Rng& r, const Scenario& q) const {
    FreshNonces(r, q.n);
    for (auto i : q.coalition) g_nonce[i] = fix[i];
  }
};

// Returns "" or what differs.
inline std::string AffineHulls(const Scenario& q, Rng& r, const ViewFn& view, u64* runs, std::size_t* rank) {
  Nonces nn(r, q.n);
  u64v first;
  {
    nn.Fresh(r, q);
    first = view(q, q.x);
    (*runs)++;
  }
  std::size_t d = first.size() + 1;
  RowSpace sx(d), sy(d);
  auto sample = [&](const u64v& in) {
    nn.Fresh(r, q);
    (*runs)++;
    u64v v = view(q, in);
    v.insert(v.begin(), 1);
    return v;
  };
  for (int stall = 0; stall < 6;) {
    auto v = sample(q.x);
    if (v.size() != d) return "the number of messages differs between runs";
    stall = sx.Insert(v) ? 0 : stall + 1;
  }
  *rank = sx.Rank();
  for (int stall = 0; stall < 6;) {
    auto v = sample(q.y);
    if (v.size() != d) return "the number of messages differs between inputs";
    if (!sx.Contains(v)) return Str("with the second inputs the ", d - 1, " received values leave the affine hull (of dimension ", sx.Rank() - 1, ") they span with the first");
    stall = sy.Insert(v) ? 0 : stall + 1;
  }
  if (sy.Rank() != sx.Rank()) return Str("the received values span dimension ", sx.Rank() - 1, " with the first inputs and ", sy.Rank() - 1, " with the second");
  return "";
}

// `project` may replace the view by any function of it.
inline std::string QuadraticHulls(const Scenario& q, Rng& r, const ViewFn& view, u64* runs, std::size_t* rank, std::size_t limit) {
  Nonces nn(r, q.n);
  auto sample = [&](const u64v& in) {
    nn.Fresh(r, q);
    (*runs)++;
    u64v v = view(q, in);
    v.insert(v.begin(), 1);
    return v;
  };
  u64v first = sample(q.x);
  std::size_t d = first.size();
  // independent coordinates
  RowSpace sx(d);
  sx.Insert(first);
  for (int stall = 0; stall < 6;) {
    auto v = sample(q.x);
    if (v.size() != d) return "the number of messages differs between runs";
    stall = sx.Insert(v) ? 0 : stall + 1;
  }
  std::vector<std::size_t> piv = sx.Pivots();
  std::sort(piv.begin(), piv.end());
  // keep the latest ones: they are what the protocol opens
  while (piv.size() > limit) piv.erase(piv.begin() + 1 + r.Below(piv.size() / 2));
  std::size_t m = piv.size(), dim = m * (m + 1) / 2;
  auto square = [&](const u64v& v) {
    u64v w;
    w.reserve(dim);
    for (std::size_t i = 0; i < m; i++)
      for (std::size_t j = i; j < m; j++) w.push_back(F61::Mul(v[piv[i]], v[piv[j]]));
    return w;
  };
  RowSpace qx(dim);
  for (int stall = 0; stall < 6;) {
    auto v = sample(q.x);
    if (v.size() != d) return "the number of messages differs between runs";
    stall = qx.Insert(square(v)) ? 0 : stall + 1;
  }
  *rank = qx.Rank();
  for (int i = 0; i < 8; i++) {
    auto v = sample(q.y);
    if (v.size() != d) return "the number of messages differs between inputs";
    if (!sx.Contains(v)) return "with the second inputs the received values leave the affine hull they span with the first";
    if (!qx.Contains(square(v))) return Str("with the second inputs ", m - 1, " received values violate a quadratic equation that always holds with the first (", qx.Rank(), " of ", dim, " monomials independent)");
  }
  return "";
}
}  // namespace vp
#endif
