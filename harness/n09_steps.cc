// N09: chains of protocol steps.
#include <memory>

#include "scl/p/simple.h"
#include "vp.h"
using namespace vp;

static Ctx& c = Ctx::I();

struct Env {
  std::vector<int> order;
  std::vector<u64> tags;
  std::vector<const void*> at;
  int throw_at = -1;
  u64 sum = 0;
  int copies = 0;
  Env() = default;
  Env(const Env& o) : order(o.order), tags(o.tags), at(o.at), throw_at(o.throw_at), sum(o.sum), copies(o.copies + 1) {}
};
struct Boom {
  int at;
};

// the object handed from step to step carries a value only it knows
template <int I, int N>
struct Step;
template <int N>
struct Step<N, N> : scl::LastProtocolStep<Step<N, N>, Env> {
  u64 v;
  explicit Step(u64 x) : v(x) {}
  u64 Finalize(Env& e) {
    e.order.push_back(N);
    e.tags.push_back(v);
    e.at.push_back(&e);
    if (e.throw_at == N) throw Boom{N};
    e.sum += v;
    return v * 31 + N;
  }
};
template <int I, int N>
struct Step : scl::ProtocolStep<Step<I, N>, Env> {
  u64 v;
  int ran = 0;
  explicit Step(u64 x) : v(x) {}
  Step<I + 1, N> Run(Env& e) {
    e.order.push_back(I);
    e.tags.push_back(v);
    e.at.push_back(&e);
    if (e.throw_at == I) throw Boom{I};
    e.sum += v;
    ran++;
    // several results depend on the state of the context
    return Step<I + 1, N>(v * 6364136223846793005UL + e.sum + e.order.size());
  }
};

template <int N>
void One(Rng& r) {
  Env e;
  u64 v = r.Next();
  e.throw_at = r.Chance(1, 3) ? (int)r.Below(N + 1) : -1;
  c.Begin(Str("chain of ", N + 1, " steps, value ", v, " exception at ", e.throw_at));
  // reference
  std::vector<u64> tags;
  u64 x = v, sum = 0;
  for (int i = 0; i <= N; i++) {
    tags.push_back(x);
    if (i == e.throw_at) break;
    sum += x;
    if (i < N) x = x * 6364136223846793005UL + sum + (unsigned long)(i + 1);
  }
  Step<0, N> s(v);
  u64 res = 0;
  int caught = -1;
  try {
    res = scl::Evaluate(s, e);
  } catch (const Boom& b) {
    caught = b.at;
  } catch (...) {
    caught = -2;
  }
  c.Check(caught == e.throw_at, "exception", Str("exception of step ", e.throw_at, " seen as ", caught));
  std::size_t steps = e.throw_at < 0 ? N + 1 : e.throw_at + 1;
  bool ord = e.order.size() == steps;
  for (std::size_t i = 0; i < e.order.size() && ord; i++) ord = e.order[i] == (int)i;
  c.Check(ord, "order", Str(e.order.size(), " steps ran instead of ", steps, " or in another order"));
  c.Check(e.tags == tags, "objects", "a step did not run on the object returned by the step before");
  bool same = true;
  for (auto p : e.at) same &= p == (const void*)&e;
  c.Check(same && e.copies == 0, "context", "a step ran with another context object");
  if (e.throw_at < 0) c.Check(res == x * 31 + N, "result", "the result is not that of the last step");
  c.Count("steps", e.order.size());
  // the same chain again on the same context
  if (r.Chance(1, 4)) {
    Env f;
    Step<0, N> t(v);
    auto r1 = Thrown([&]() { scl::Evaluate(t, f); });
    c.Check(r1.empty() && f.order.size() == N + 1, "again", "evaluating again failed");
  }
  c.End();
}

// a context passed by value or as pointer type, steps holding unique resources
struct ByPtr : scl::LastProtocolStep<ByPtr, std::shared_ptr<int>> {
  std::shared_ptr<int> held;
  explicit ByPtr(std::shared_ptr<int> h) : held(h) {}
  int Finalize(std::shared_ptr<int> x) { return *x * 2 + *held; }
};
struct First : scl::ProtocolStep<First, std::shared_ptr<int>> {
  ByPtr Run(std::shared_ptr<int> x) {
    (*x)++;
    return ByPtr(std::make_shared<int>(*x * 100));
  }
};
static void Pointers(Rng& r) {
  int v = (int)r.Below(1000);
  c.Begin(Str("pointer context ", v));
  auto x = std::make_shared<int>(v);
  First f;
  int res = scl::Evaluate(f, x);
  c.Check(*x == v + 1 && res == (v + 1) * 102, "pointer", Str("context ", *x, " result ", res));
  c.End();
}

int main(int argc, char** argv) {
  c.Init(argc, argv);
  Rng r = c.MakeRng(0x109);
  for (long i = c.N(8000, 200000); i-- > 0;) {
    One<0>(r);
    One<1>(r);
    One<2>(r);
    One<3>(r);
    One<5>(r);
    One<17>(r);
    One<64>(r);
    Pointers(r);
  }
  return c.Finish();
}
