// A deterministic scheduler: tasks are threads, exactly one runs at a time, and
// control changes hands only at channel operations (and when a task waits or
// ends).  Waiting is explicit, so a deadlock is seen at once.
#ifndef VP_SCHED_H
#define VP_SCHED_H
#include "proto.h"

namespace vp {
enum Policy { kUniform, kPriorities, kStarveOne, kRunToBlock, kRushOne, kRoundRobin, kPolicies };
inline const char* PolicyName(int p) {
  static const char* n[] = {"uniform", "priorities", "starve-one", "run-to-block", "rush-one", "round-robin"};
  return n[p];
}

class Sched {
 public:
  struct Stop {};
  struct Task {
    std::size_t party;
    std::function<void()> body;
    std::function<bool()> ready;  // empty: runnable
    std::string waits;
    std::condition_variable cv;
    std::thread th;
    bool done = false;
    u64 prio = 0;
  };
  Sched(u64 seed, int policy, std::size_t favourite) : mR(seed), mPolicy(policy), mFav(favourite) {}

  // May be called before Run or by a running task.
  std::size_t Add(std::size_t party, std::function<void()> body) {
    auto t = std::make_unique<Task>();
    std::size_t id = mTasks.size();
    t->party = party;
    t->body = std::move(body);
    t->prio = mR.Next() | (1ULL << 63);
    Task* p = t.get();
    mTasks.push_back(std::move(t));
    p->th = std::thread([this, p, id]() {
      {
        std::unique_lock<std::mutex> l(mMu);
        p->cv.wait(l, [&]() { return mTurn == (long)id || mStop; });
        if (mStop) {
          p->done = true;
          return;
        }
      }
      tMe = (long)id;
      g_party = (int)p->party;
      try {
        p->body();
      } catch (Stop&) {
      } catch (const std::exception& e) {
        if (error.empty()) error = Str("party ", p->party, ": ", e.what());
      }
      std::lock_guard<std::mutex> l(mMu);
      p->done = true;
      if (!mStop) Pass();
    });
    return id;
  }
  // Runs all tasks to their end.
  void Run() {
    {
      std::lock_guard<std::mutex> l(mMu);
      Pass();
    }
    // tasks may be added while running
    for (std::size_t i = 0; i < mTasks.size(); i++) mTasks[i]->th.join();
  }
  // A point where another task may continue.
  void Yield() { Wait("", nullptr); }
  void Wait(const std::string& what, std::function<bool()> ready) {
    std::unique_lock<std::mutex> l(mMu);
    if (mStop) throw Stop();
    Task& me = *mTasks[tMe];
    long id = tMe;
    me.ready = std::move(ready);
    me.waits = what;
    Pass();
    me.cv.wait(l, [&]() { return mTurn == id || mStop; });
    if (mStop) throw Stop();
    me.ready = nullptr;
  }
  void Join(const std::vector<std::size_t>& ids) {
    Wait("its own threads", [this, ids]() {
      for (auto i : ids)
        if (!mTasks[i]->done) return false;
      return true;
    });
  }
  std::string error, deadlock;
  u64 switches = 0, signature = 14695981039346656037ULL, blocked = 0;

 private:
  void Pass() {  // with mMu held
    std::vector<std::size_t> can;
    bool any = false;
    for (std::size_t i = 0; i < mTasks.size(); i++) {
      Task& t = *mTasks[i];
      if (t.done) continue;
      any = true;
      if (!t.ready || t.ready())
        can.push_back(i);
      else
        blocked++;
    }
    if (can.empty()) {
      mTurn = -1;
      if (any) {
        for (auto& t : mTasks)
          if (!t->done) deadlock += Str("party ", t->party, " waits for ", t->waits, "; ");
        mStop = true;
        for (auto& t : mTasks) t->cv.notify_all();
      }
      return;
    }
    std::size_t next = Choose(can);
    if ((long)next != mTurn) switches++;
    signature = (signature ^ next) * 1099511628211ULL;
    mTurn = (long)next;
    mLast = next;
    mTasks[next]->cv.notify_all();
  }
  std::size_t Choose(const std::vector<std::size_t>& can) {
    auto uniform = [&](const std::vector<std::size_t>& v) { return v[mR.Below(v.size())]; };
    switch (mPolicy) {
      case kPriorities: {
        std::size_t best = can[0];
        for (auto i : can)
          if (mTasks[i]->prio > mTasks[best]->prio) best = i;
        if (mR.Below(60) == 0) mTasks[best]->prio = mLow--;
        return best;
      }
      case kStarveOne: {
        std::vector<std::size_t> v;
        for (auto i : can)
          if (mTasks[i]->party != mFav) v.push_back(i);
        return uniform(v.empty() ? can : v);
      }
      case kRushOne: {
        std::vector<std::size_t> v;
        for (auto i : can)
          if (mTasks[i]->party == mFav) v.push_back(i);
        return uniform(v.empty() ? can : v);
      }
      case kRunToBlock:
        for (auto i : can)
          if (i == mLast) return i;
        return uniform(can);
      case kRoundRobin:
        for (auto i : can)
          if (i > mLast) return i;
        return can[0];
      default: return uniform(can);
    }
  }
  Rng mR;
  int mPolicy;
  std::size_t mFav, mLast = 0;
  u64 mLow = 1ULL << 62;
  std::mutex mMu;
  long mTurn = -1;
  bool mStop = false;
  std::deque<std::unique_ptr<Task>> mTasks;
  static inline thread_local long tMe = -1;
};

// What each step of each party moved over each link.
struct Ledger {
  std::mutex mu;
  std::map<std::string, u64> moved;
  static inline thread_local std::string step;
  void Add(const char* what, std::size_t from, std::size_t to, std::size_t bytes) {
    if (!bytes) return;
    std::lock_guard<std::mutex> l(mu);
    moved[Str(from, ">", to, " ", what, " in ", step)] += bytes;
  }
  static std::string Diff(const std::map<std::string, u64>& a, const std::map<std::string, u64>& b) {
    for (auto& x : a) {
      auto i = b.find(x.first);
      if (i == b.end() || i->second != x.second)
        return Str(x.first, ": ", x.second, " bytes in lock step, ", i == b.end() ? 0 : i->second, " now");
    }
    for (auto& x : b)
      if (!a.count(x.first)) return Str(x.first, ": nothing in lock step, ", x.second, " bytes now");
    return "";
  }
};

// A network end whose operations are scheduling points.
class SchedEnd final : public scl::Channel {
 public:
  SchedEnd(Sched* s, std::shared_ptr<Mesh> m, Ledger* l, std::size_t me, std::size_t peer) : mS(s), mM(m), mL(l), mMe(me), mPeer(peer) {}
  void Close() override {}
  void Send(const unsigned char* p, std::size_t n) override {
    if (mS) mS->Yield();
    mM->Send(mMe, mPeer, p, n);
    if (mL) mL->Add("sent", mMe, mPeer, n);
  }
  void Recv(unsigned char* p, std::size_t n) override {
    auto& q = mM->link[mPeer][mMe].q;
    if (mS)
      mS->Wait(Str(n, " bytes from ", mPeer, " in ", Ledger::step), [&q, n]() { return q.size() >= n; });
    mM->Recv(mMe, mPeer, p, n);
    if (mL) mL->Add("received", mPeer, mMe, n);
  }

 private:
  Sched* mS;
  std::shared_ptr<Mesh> mM;
  Ledger* mL;
  std::size_t mMe, mPeer;
};
inline std::shared_ptr<scl::Network> SchedNetwork(Sched* s, std::shared_ptr<Mesh> m, Ledger* l, std::size_t me) {
  std::vector<std::shared_ptr<scl::Channel>> ch;
  for (std::size_t j = 0; j < m->n; j++) ch.push_back(std::make_shared<SchedEnd>(s, m, l, me, j));
  return std::make_shared<scl::Network>(ch);
}
}  // namespace vp
#endif
