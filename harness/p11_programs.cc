// P11: the shipped programs complete and compute correct results over TCP.
#include <signal.h>
#include <sys/wait.h>

#include <fstream>

#include "net.h"
using namespace vp;
static Ctx& c = Ctx::I();
static constexpr u64 kP = (1ULL << 61) - 1;

static u64 Add(u64 a, u64 b) { return (u64)(((u128)a + b) % kP); }
static u64 Mul(u64 a, u64 b) { return (u64)((u128)a * b % kP); }

// The circuit both programs evaluate, on their two inputs.
static std::pair<u64, u64> Reference(std::size_t size, std::size_t depth) {
  std::size_t width = size / depth;
  u64 in[2] = {0432432, 54982};
  std::vector<u64> v(width);
  for (std::size_t i = 0; i < width / 2; i++) {
    u64 s = Add(in[0], in[1]);
    v[2 * i] = Mul(in[0], s), v[2 * i + 1] = Mul(in[1], s);
  }
  for (std::size_t d = 1; d < depth; d++)
    for (std::size_t i = 0; i < width / 2; i++) {
      u64 x = v[2 * i], y = v[2 * i + 1], s = Add(x, y);
      v[2 * i] = Mul(x, s), v[2 * i + 1] = Mul(y, s);
    }
  return {v[0], v[1]};
}

struct Proc {
  pid_t pid = -1;
  int status = -1;
  bool ended = false;
  std::string result, log;
};

static std::string Slurp(const std::string& f) {
  std::ifstream i(f);
  std::stringstream s;
  s << i.rdbuf();
  return s.str();
}

static void Launch(Proc& p, const char* exe, const std::vector<std::string>& args, const std::vector<std::string>& env) {
  p.pid = ::fork();
  if (p.pid < 0) EnvFail("fork");
  if (p.pid) return;
  int fd = ::open(p.log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  ::dup2(fd, 1);
  ::dup2(fd, 2);
  for (int i = 3; i < 256; i++) ::close(i);
  std::vector<char*> a, e;
  a.push_back(const_cast<char*>(exe));
  for (auto& x : args) a.push_back(const_cast<char*>(x.c_str()));
  a.push_back(nullptr);
  for (char** x = environ; *x; x++)
    if (std::strncmp(*x, "VP_", 3)) e.push_back(*x);
  for (auto& x : env) e.push_back(const_cast<char*>(x.c_str()));
  e.push_back(nullptr);
  ::execve(exe, a.data(), e.data());
  _exit(127);
}

static void One(Rng& r, const char* exe, const char* name, std::size_t n, std::size_t size, std::size_t depth, bool faults) {
  std::size_t nd = n;
  static std::string dir = std::getenv("VP_SCRATCH") ? std::getenv("VP_SCRATCH") : ".";
  int base = ClaimPorts(r, (int)n);
  std::vector<int> delay(n);
  int style = (int)r.Below(4);
  std::string d;
  for (std::size_t i = 0; i < n; i++) {
    delay[i] = style == 0 ? 0 : style == 1 ? (int)(n - i) * 20 : (int)r.Below(style == 2 ? 60 : 500);
  }
  if (r.Chance(1, 12)) delay[r.Below(n)] = 3500 + (int)r.Below(5000);
  for (std::size_t i = 0; i < n; i++) d += Str(" ", delay[i]);
  int partial = faults ? (int)r.Below(60) : 0, intr = faults ? (int)r.Below(20) : 0, lag = faults ? (int)r.Below(4) : 0;
  bool shipped = r.Chance(1, 3);
  u64 seed = r.Next() >> 1;
  c.Begin(Str(name, " n=", n, " size=", size, " depth=", depth, " start after", d, " ms, partial ", partial, "% interrupted ", intr, "% delayed ", lag, "%",
              shipped ? " shipped randomness" : "", " seed ", seed));
  std::vector<Proc> ps(nd);
  double t0 = Ctx::Now();
  std::size_t started = 0, ended = 0;
  double limit = 60;
  std::vector<bool> on(n, false);
  bool failed = false;
  while (ended < n && Ctx::Now() - t0 < limit && !failed) {
    double ms = (Ctx::Now() - t0) * 1000;
    for (std::size_t i = 0; i < n; i++)
      if (!on[i] && ms >= delay[i]) {
        on[i] = true;
        started++;
        ps[i].result = Str(dir, "/r", i), ps[i].log = Str(dir, "/l", i);
        ::unlink(ps[i].result.c_str());
        std::vector<std::string> env = {Str("VP_PORT_BASE=", base), Str("VP_RESULT=", ps[i].result), Str("VP_ID=", i), Str("VP_FAULT_SEED=", seed + i),
                                        Str("VP_FAULT_PARTIAL=", partial), Str("VP_FAULT_INTR=", intr), Str("VP_FAULT_DELAY=", lag)};
        if (!shipped) env.push_back(Str("VP_NONCE=", (long long)(Mix(seed + i) >> 1)));
        Launch(ps[i], exe, {Str(n), Str(i), Str(size), Str(depth)}, env);
      }
    for (std::size_t i = 0; i < n; i++)
      if (on[i] && !ps[i].ended && ::waitpid(ps[i].pid, &ps[i].status, WNOHANG) == ps[i].pid) {
        ps[i].ended = true;
        ended++;
        if (ps[i].status != 0) failed = true;
      }
    std::this_thread::sleep_for(std::chrono::milliseconds(2));
  }
  // give the others a moment to end, then stop them
  if (failed) std::this_thread::sleep_for(std::chrono::milliseconds(300));
  std::string stuck;
  for (std::size_t i = 0; i < n; i++)
    if (on[i] && !ps[i].ended) {
      if (::waitpid(ps[i].pid, &ps[i].status, WNOHANG) != ps[i].pid) {
        stuck += Str(" ", i);
        ::kill(ps[i].pid, SIGKILL);
        ::waitpid(ps[i].pid, &ps[i].status, 0);
        ps[i].status = failed ? 0 : -1;
      }
    }
  for (std::size_t i = 0; i < n; i++) {
    if (!on[i] || !ps[i].ended) continue;
    int st = ps[i].status;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 127) EnvFail("exec");
    auto log = Slurp(ps[i].log);
    std::size_t from = log.size() > 900 ? log.size() - 900 : 0;
    for (auto* sign : {"WARNING: ThreadSanitizer", "ERROR: AddressSanitizer", "runtime error:"}) from = std::min(from, log.find(sign));
    c.Check(st == 0, Str(name, ":exit"), Str("party ", i, " ended with ", WIFEXITED(st) ? "exit status " : "signal ", WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st), ": ",
                                             log.substr(from)));
  }
  if (!failed) c.Check(stuck.empty(), Str(name, ":stuck"), Str("parties", stuck, " did not end within ", limit, " s"));
  if (!failed && stuck.empty()) {
    auto want = Reference(size, depth);
    std::size_t closed = 0;
    bool seen = false;
    for (std::size_t i = 0; i < n; i++) {
      std::istringstream in(Slurp(ps[i].result));
      std::string w;
      while (in >> w) {
        if (w == "outputs") {
          u64 a = 0, b = 0;
          in >> a >> b;
          seen = true;
          c.Check(a == want.first && b == want.second, Str(name, ":outputs"), Str("the first party obtains ", a, ", ", b, " instead of ", want.first, ", ", want.second));
        } else if (w == "left") {
          std::string k;
          in >> k;
          c.Fail(Str(name, ":leftover"), Str("party ", i, " closes a connection with ", k, " bytes unread"));
        } else if (w == "closed")
          closed++;
      }
    }
    c.Count("connections-closed-empty", closed);
    c.Count(seen ? "outputs-compared" : "outputs-not-observed");
  }
  c.Count(Str(name, "-runs"));
  c.Count("processes", n);
  c.Max("max_parties", n);
  c.Max("max_size", size);
  c.End(started == n);
}

// An id that is no party's: refused, nothing is run.
static void BadId(Rng& r, const char* exe, const char* name) {
  static std::string dir = std::getenv("VP_SCRATCH") ? std::getenv("VP_SCRATCH") : ".";
  std::size_t n = 5 + 4 * r.Below(4);
  std::string id = r.Chance(1, 2) ? Str(n + r.Below(3)) : Str(n + r.Below(100000));
  if (r.Chance(1, 5)) id = r.Chance(1, 2) ? "18446744073709551615" : "4294967296";
  int base = ClaimPorts(r, 32);
  c.Begin(Str(name, " n=", n, " with id ", id));
  Proc p;
  p.result = dir + "/rb", p.log = dir + "/lb";
  ::unlink(p.result.c_str());
  Launch(p, exe, {Str(n), id, "8", "2"}, {Str("VP_PORT_BASE=", base), Str("VP_RESULT=", p.result), "VP_ID=0"});
  double t0 = Ctx::Now();
  while (Ctx::Now() - t0 < 20 && ::waitpid(p.pid, &p.status, WNOHANG) != p.pid) std::this_thread::sleep_for(std::chrono::milliseconds(2));
  bool ended = Ctx::Now() - t0 < 20;
  if (!ended) {
    ::kill(p.pid, SIGKILL);
    ::waitpid(p.pid, &p.status, 0);
  }
  auto log = Slurp(p.log);
  c.Check(ended && p.status != 0, Str(name, ":bad-id"), ended ? "the program ended successfully" : "the program did not end");
  c.Check(log.find("Connecting") == std::string::npos, Str(name, ":bad-id-runs"), "the program starts connecting");
  c.Count("bad-ids");
  c.End();
}

int main(int argc, char** argv) {
  c.Init(argc, argv);
  c.case_timeout = 100;
  const char* exe[2] = {std::getenv("VP_EXE_OURS"), std::getenv("VP_EXE_DN07")};
  if (!exe[0] || !exe[1]) EnvFail("no programs");
  const char* name[2] = {"ours", "dn07"};
  Rng r = c.MakeRng(111);
  for (long i = 0, m = c.N(72, 1500); i < m; i++) {
    int w = (int)(i % 2);
    std::size_t n = r.Chance(1, 2) ? 5 : r.Chance(1, 2) ? 9 : r.Chance(2, 3) ? 13 : 17;
    std::size_t depth = 1 + r.Below(r.Chance(1, 6) ? 40 : 8), half = 1 + r.Below(r.Chance(1, 5) ? 60 : 9);
    One(r, exe[w], name[w], n, 2 * half * depth, depth, r.Chance(1, 2));
  }
  for (long i = 0, m = c.N(16, 100); i < m; i++) BadId(r, exe[i % 2], name[i % 2]);
  for (long i = 0, m = c.N(8, 60); i < m; i++) One(r, exe[i % 2 ^ (c.shard & 1)], name[i % 2 ^ (c.shard & 1)], 5, 4000 + 4 * r.Below(1500), 2, false);
  return c.Finish();
}
