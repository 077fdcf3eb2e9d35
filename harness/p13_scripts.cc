// P13: the experiment scripts start every party once and tabulate what was measured; the programs
// report the time of each phase.
#include <grp.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/wait.h>

#include <algorithm>
#include <array>
#include <cmath>
#include <fstream>
#include <map>
#include <tuple>

#include "net.h"
using namespace vp;
static Ctx& c = Ctx::I();
static std::string g_dir;
static bool g_drop = false;  // scripts run as an unprivileged user

static std::string Slurp(const std::string& f) {
  std::ifstream i(f);
  std::stringstream s;
  s << i.rdbuf();
  return s.str();
}
static void Spill(const std::string& f, const std::string& s, mode_t m = 0644) {
  std::ofstream(f) << s;
  ::chmod(f.c_str(), m);
}
static bool Exists(const std::string& f) { return ::access(f.c_str(), F_OK) == 0; }

// Runs a command in the scratch directory with stand-ins first on the PATH; returns its output.
struct Result {
  int status = -1;
  bool ended = false;
  std::string out;
};
static Result Cmd(const std::string& dir, const std::vector<std::string>& args, const std::vector<std::string>& env = {}, double limit = 60) {
  Result res;
  std::string log = dir + "/.out";
  ::unlink(log.c_str());
  pid_t pid = ::fork();
  if (pid < 0) EnvFail("fork");
  if (!pid) {
    ::setpgid(0, 0);
    int fd = ::open(log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666);
    int in = ::open("/dev/null", O_RDONLY);
    ::dup2(in, 0);
    ::dup2(fd, 1);
    ::dup2(fd, 2);
    for (int i = 3; i < 256; i++) ::close(i);
    if (g_drop && (::setgroups(0, nullptr) || ::setgid(65534) || ::setuid(65534))) _exit(126);
    if (::chdir(dir.c_str())) _exit(126);
    std::vector<char*> a, e;
    for (auto& x : args) a.push_back(const_cast<char*>(x.c_str()));
    a.push_back(nullptr);
    std::string path = "PATH=" + dir + "/bin:" + (std::getenv("PATH") ? std::getenv("PATH") : "/usr/local/bin:/usr/bin:/bin");
    for (char** x = environ; *x; x++)
      if (std::strncmp(*x, "VP_", 3) && std::strncmp(*x, "PATH=", 5)) e.push_back(*x);
    e.push_back(const_cast<char*>(path.c_str()));
    for (auto& x : env) e.push_back(const_cast<char*>(x.c_str()));
    e.push_back(nullptr);
    environ = e.data();
    ::execvp(a[0], a.data());
    _exit(127);
  }
  double t0 = Ctx::Now();
  while (Ctx::Now() - t0 < limit && ::waitpid(pid, &res.status, WNOHANG) != pid) std::this_thread::sleep_for(std::chrono::milliseconds(2));
  res.ended = Ctx::Now() - t0 < limit;
  ::kill(-pid, SIGKILL);
  if (!res.ended) ::waitpid(pid, &res.status, 0);
  if (WIFEXITED(res.status) && (WEXITSTATUS(res.status) == 126 || WEXITSTATUS(res.status) == 127)) EnvFail("running a script");
  res.out = Slurp(log);
  return res;
}

// A directory that holds copies of the scripts and stand-ins for the commands that wait or delete.
static std::string Fresh() {
  static int k = 0;
  std::string d = Str(g_dir, "/x", k++);
  const char* repo = std::getenv("VP_REPO_DIR");
  std::string from = repo ? repo : "/repo";
  for (auto& x : {d, d + "/bin", d + "/build"})
    if (::mkdir(x.c_str(), 0755)) EnvFail("mkdir");
  for (auto* f : {"run.sh", "gen_data.sh", "parse_files.py"}) Spill(Str(d, "/", f), Slurp(Str(from, "/", f)), 0755);
  Spill(d + "/bin/sleep", "#!/bin/sh\nexit 0\n", 0755);
  // what would be deleted is set aside, if it lies in this directory
  Spill(d + "/bin/rm", Str("#!/bin/sh\nfor a in \"$@\"; do\n  case \"$a\" in -*) continue;; esac\n  p=$(/usr/bin/realpath -- \"$a\" 2>/dev/null) || continue\n",
                           "  case \"$p\" in \"$(/usr/bin/realpath ", d, ")\"/*) k=0; while [ -e ", d, "/.old$k ]; do k=$((k+1)); done; [ -e \"$p\" ] && /bin/mv \"$p\" ", d, "/.old$k;; esac\ndone\nexit 0\n"), 0755);
  if (g_drop)
    for (auto& x : {d, d + "/bin", d + "/build"})
      if (::chown(x.c_str(), 65534, 65534)) EnvFail("chown");
  return d;
}

static std::vector<std::string> Lines(const std::string& s) {
  std::vector<std::string> v;
  std::istringstream i(s);
  for (std::string l; std::getline(i, l);) v.push_back(l);
  return v;
}

static std::string Stub(const std::string& name, Rng& r) {
  // a party that takes a moment, tells what it was started as and prints a little
  return Str("#!/bin/sh\necho \"start ", name, " $*\" >> .events\n",
             r.Chance(1, 3) ? "" : "if [ $(( ($2 * 7 + $1) % 3 )) -eq 0 ]; then /bin/sleep 0.05; fi\n", "echo \"", name, " first $*\"\n",
             r.Chance(1, 2) ? "/bin/sleep 0.02\n" : "", "echo \"", name, " last $*\"\necho \"end ", name, " $*\" >> .events\n");
}

static void RunScript(Rng& r) {
  std::string d = Fresh();
  std::size_t n = r.Chance(1, 12) ? 40 + r.Below(60) : 1 + r.Below(14);
  std::size_t depth = 1 + r.Below(20), size = depth * (1 + r.Below(100000));
  bool bad = r.Chance(1, 8), again = r.Chance(1, 4);
  static const char* words[] = {"x", "", "five", "3x", "-4", "1.5"};
  std::string N = bad ? words[r.Below(6)] : Str(n);
  std::string tag = r.Chance(1, 8) ? "" : r.Chance(1, 2) ? Str(r.Below(30)) : Str("t", r.Below(1000));
  c.Begin(Str("run.sh n=", N, " size=", size, " depth=", depth, " tag=", tag, again ? " twice" : "", " case ", r.s));
  Spill(d + "/build/ours.x", Stub("ours", r), 0755);
  Spill(d + "/build/dn07.x", Stub("dn07", r), 0755);
  std::vector<std::string> args = {"bash", "./run.sh", N, Str(size), Str(depth)};
  if (!tag.empty()) args.push_back(tag);
  for (int round = 0; round < (again ? 2 : 1); round++) {
    ::unlink((d + "/.events").c_str());
    auto res = Cmd(d, args);
    c.Check(res.ended, "run:stuck", "the script does not end");
    if (!res.ended) return c.End();
    auto ev = Lines(Slurp(d + "/.events"));
    if (bad) {
      c.Check(ev.empty(), "run:bad-n", Str("parties are started for a number of parties of \"", N, "\": ", ev.empty() ? "" : ev[0]));
      c.Count("refusals");
      return c.End();
    }
    std::map<std::string, int> st, en;
    std::size_t open = 0, ours = 0;
    for (auto& e : ev) {
      std::istringstream i(e);
      std::string w, p, rest;
      i >> w >> p;
      std::getline(i, rest);
      (w == "start" ? st : en)[p + rest]++;
      if (p == "ours") ours += w == "end";
      if (w == "start") open++;
      else open--;
      if (p == "dn07" && w == "start") c.Check(ours == n, "run:overlap", Str("the baseline starts when ", ours, " of ", n, " parties of the main protocol have ended"));
    }
    std::map<std::string, int> want;
    for (auto* p : {"ours", "dn07"})
      for (std::size_t i = 0; i < n; i++) want[Str(p, " ", n, " ", i, " ", size, " ", depth)] = 1;
    c.Check(st == want, "run:parties", Str(st.size(), " different parties are started, ", want.size(), " expected; first is ", st.empty() ? "none" : st.begin()->first));
    c.Check(en == st && !open, "run:left", "the script ends before its parties");
    std::string logs = Str(d, "/logs/logs_experiment_", n, "_", size, "_", depth, "_", tag);
    for (std::size_t i = 0; i < n; i++) {
      std::string a = Str(n, " ", i, " ", size, " ", depth);
      std::string wl = "ours first " + a + "\nours last " + a + "\ndn07 first " + a + "\ndn07 last " + a + "\n", got = Slurp(Str(logs, "/party_", i, ".log"));
      c.Check(got == wl, "run:log", Str("party ", i, "'s log holds \"", got.substr(0, 300), "\""));
    }
    c.Check(!Exists(Str(logs, "/party_", n, ".log")), "run:log", "there is a log of a party too many");
    c.Count("parties-started", ev.size() / 2);
  }
  c.Max("max_parties", n);
  c.End();
}

static void GenScript(Rng& r) {
  std::string d = Fresh();
  std::size_t its = 1 + r.Below(5), k = 1 + r.Below(4);
  std::vector<std::string> args = {"bash", "./gen_data.sh", Str(its)};
  std::vector<std::size_t> ns;
  for (std::size_t i = 0; i < k; i++) {
    std::size_t n = 5 + 4 * r.Below(20);
    if (std::find(ns.begin(), ns.end(), n) != ns.end()) continue;
    ns.push_back(n), args.push_back(Str(n));
  }
  std::string s;
  for (auto& a : args) s += a + " ";
  c.Begin(s + Str(" case ", r.s));
  Spill(d + "/run.sh", "#!/bin/bash\necho \"start $*\" >> .events\n/bin/sleep 0.005\necho \"end $*\" >> .events\n", 0755);
  ::mkdir((d + "/logs").c_str(), 0777);
  Spill(d + "/logs/stale", "x");
  if (g_drop) (void)!::chown((d + "/logs").c_str(), 65534, 65534);
  auto res = Cmd(d, args, {}, 100);
  if (!c.Check(res.ended, "gen:stuck", "the script does not end")) return c.End();
  std::map<std::string, int> got, want;
  std::string open;
  for (auto& e : Lines(Slurp(d + "/.events"))) {
    if (e.compare(0, 6, "start ") == 0) {
      c.Check(open.empty(), "gen:overlap", Str("\"", e, "\" while \"", open, "\" is running"));
      open = e.substr(6);
      got[open]++;
    } else if (e.compare(0, 4, "end ") == 0)
      open.clear();
  }
  for (auto n : ns)
    for (std::size_t size = 1000; size <= 1000000; size *= 10)
      for (std::size_t i = 0; i < its; i++) want[Str(n, " ", size, " 10 ", i)] = 1;
  c.Check(got == want, "gen:runs", Str(got.size(), " different experiments are run, ", want.size(), " expected"));
  c.Check(!Exists(d + "/logs/stale"), "gen:stale", "logs of earlier experiments are kept among the new ones");
  c.Count("experiments", got.size());
  c.End();
}

static const char* kPhase[6] = {"fi_prep", "fd_prep", "online", "dn07_prep", "dn07_fd", "dn07_online"};
static const int kN[] = {5, 13, 21, 29, 37};

struct Table {
  // [row][column]: offline, online, ratio offline, ratio online
  std::vector<std::vector<std::array<double, 4>>> rows;
  bool ok = true;
};
static Table ReadTable(const std::string& out) {
  Table t;
  for (auto& l : Lines(out)) {
    std::size_t at = l.find("\\textbf{CD}");
    if (at == std::string::npos) at = l.find("\\textbf{CI}");
    if (at == std::string::npos) continue;
    std::vector<double> v;
    std::string s = l.substr(at + 11);
    for (std::size_t i = 0; i < s.size();) {
      if (std::isdigit((unsigned char)s[i]) || (s[i] == '-' && i + 1 < s.size() && std::isdigit((unsigned char)s[i + 1]))) {
        char* e;
        v.push_back(std::strtod(s.c_str() + i, &e));
        i = (std::size_t)(e - s.c_str());
      } else
        i++;
    }
    t.rows.emplace_back();
    if (v.size() % 4) t.ok = false;
    for (std::size_t i = 0; i + 3 < v.size(); i += 4) t.rows.back().push_back({v[i], v[i + 1], v[i + 2], v[i + 3]});
  }
  return t;
}
using Times = std::map<std::tuple<int, long, int>, std::vector<std::array<double, 6>>>;  // by n, size, depth: per iteration, us
static void CheckTable(const std::string& out, const Times& times) {
  Table t = ReadTable(out);
  std::vector<std::pair<long, int>> rows;
  for (int d : {1, 10})
    for (long s = 1000; s <= 1000000; s *= 10) rows.push_back({s, d});
  if (!c.Check(t.ok && t.rows.size() == 2 * rows.size(), "table:shape", Str("the table has ", t.rows.size(), " rows: ", out.substr(out.size() > 600 ? out.size() - 600 : 0)))) return;
  for (std::size_t i = 0; i < rows.size(); i++)
    for (int ci = 0; ci < 2; ci++) {
      auto& row = t.rows[2 * i + (std::size_t)ci];
      if (!c.Check(row.size() == 5, "table:shape", Str("a row of the table has ", row.size(), " entries"))) return;
      for (std::size_t j = 0; j < 5; j++) {
        double m[6] = {0, 0, 0, 1, 1, 1};
        auto it = times.find({kN[j], rows[i].first, rows[i].second});
        if (it != times.end())
          for (int p = 0; p < 6; p++) {
            m[p] = 0;
            for (auto& x : it->second) m[p] += x[(std::size_t)p];
            m[p] /= 1e6 * (double)it->second.size();
          }
        double off = ci ? m[0] : m[0] + m[1], on = ci ? m[1] + m[2] : m[2], doff = ci ? m[3] : m[3] + m[4], don = ci ? m[4] + m[5] : m[5];
        double want[4] = {off, on, off / doff, on / don};
        for (std::size_t q = 0; q < 4; q++)
          c.Check(std::fabs(row[j][q] - want[q]) <= 0.00501 + 1e-9 * std::fabs(want[q]), "table:value",
                  Str("n=", kN[j], " size=", rows[i].first, " depth=", rows[i].second, ci ? " CI" : " CD", " entry ", q, " is ", row[j][q], ", expected ", want[q]));
        c.Count(it == times.end() ? "cells-without-log" : "cells-with-log");
      }
    }
}
static void Parse(Rng& r) {
  std::string d = Fresh();
  ::mkdir((d + "/logs").c_str(), 0755);
  Times times;
  std::string desc;
  unsigned num = 1 + (unsigned)r.Below(6);
  for (int n : kN)
    for (int dep : {1, 10})
      for (long s = 1000; s <= 1000000; s *= 10) {
        if (!r.Chance(num, 6)) continue;
        std::size_t its = r.Chance(1, 10) ? 11 + r.Below(3) : 1 + r.Below(4);
        for (std::size_t i = 0; i < its; i++) {
          std::string ld = Str(d, "/logs/logs_experiment_", n, "_", s, "_", dep, "_", i);
          ::mkdir(ld.c_str(), 0755);
          std::array<double, 6> x;
          std::string f = "========================================\nRunning benchmark with N\nConnecting ...\nDone!\n";
          for (std::size_t p = 0; p < 6; p++) {
            u64 us = r.Chance(1, 6) ? r.Below(4000000000ULL * 5) : 1000 + r.Below(r.Chance(1, 2) ? 100000 : 50000000);
            us = r.Chance(1, 8) ? 1 + r.Below(3000) : us + 1000;
            x[p] = (double)us;
            f += Str(kPhase[p], " SEND\n", r.Chance(1, 2) ? "DN07: online\n" : "", kPhase[p], ": ", us, " us\n", r.Chance(1, 3) ? "Output\n\nclosing the network ...\n" : "");
          }
          Spill(ld + "/party_0.log", f);
          if (r.Chance(1, 3)) Spill(ld + "/party_1.log", "fi_prep: 77777777 us\nonline: 1 us\n");
          times[{n, s, dep}].push_back(x);
          desc += Str(" ", n, "/", s, "/", dep, "/", i, ":", (u64)x[0]);
        }
      }
  c.Begin(Str("parse ", times.size(), " experiments", desc.substr(0, 1500), " case ", r.s));
  auto res = Cmd(d, {"python3", "parse_files.py"});
  c.Check(res.ended && res.status == 0, "table:failed", Str("the script fails: ", res.out.substr(res.out.size() > 800 ? res.out.size() - 800 : 0)));
  if (res.ended && res.status == 0) CheckTable(res.out, times);
  c.End(!times.empty());
}

// Everything together with the real programs, whose clock and traffic are watched.
struct Reading {
  long long ns;
  u64 sent, received;
};
static void Real(Rng& r, const char* exe[2], std::size_t n, std::size_t size, std::size_t depth, std::size_t its) {
  std::string d = Fresh();
  int base = ClaimPorts(r, (int)n);
  c.Begin(Str("run.sh and parse_files.py with the programs, n=", n, " size=", size, " depth=", depth, " iterations ", its, " case ", r.s));
  for (int w = 0; w < 2; w++)
    if (::symlink(exe[w], Str(d, "/build/", w ? "dn07.x" : "ours.x").c_str())) EnvFail("symlink");
  Times times;
  for (std::size_t it = 0; it < its; it++) {
    std::string clk = Str(d, "/clock", it);
    auto res = Cmd(d, {"bash", "./run.sh", Str(n), Str(size), Str(depth), Str(it)}, {Str("VP_PORT_BASE=", base), Str("VP_CLOCK=", clk)}, 80);
    if (!c.Check(res.ended, "real:stuck", "the script does not end")) return c.End();
    // the readings of every process, by program and party
    std::map<std::pair<int, std::size_t>, std::vector<Reading>> clocks;
    std::string ls;
    {
      auto l = Cmd(d, {"sh", "-c", Str("for f in clock", it, ".*; do [ -e $f ] && cat $f; done; true")});
      std::vector<Reading>* cur = nullptr;
      for (auto& line : Lines(l.out)) {
        std::istringstream i(line);
        std::string w, prog;
        i >> w;
        if (w == "args") {
          std::size_t nn = 0, id = 0;
          i >> prog >> nn >> id;
          cur = &clocks[{prog.find("dn07") != std::string::npos, id}];
        } else if (w == "clock" && cur) {
          Reading x{};
          i >> x.ns >> x.sent >> x.received;
          cur->push_back(x);
        }
      }
    }
    u64 moved[2][3][2] = {};
    std::array<double, 6> x{};
    bool all = true;
    std::size_t kk = ((n - 1) / 2 + 2) / 2, batches = depth * ((size / depth + kk - 1) / kk);
    for (std::size_t id = 0; id < n; id++) {
      std::string log = Slurp(Str(d, "/logs/logs_experiment_", n, "_", size, "_", depth, "_", it, "/party_", id, ".log"));
      for (int w = 0; w < 2; w++) {
        auto& rd = clocks[{w, id}];
        std::size_t last = 0;
        bool found = true;
        for (int p = 0; p < 3; p++) {
          std::string name = Str(kPhase[3 * w + p], ":"), word, unit;
          std::vector<long long> us;
          for (auto& l : Lines(log)) {
            std::istringstream i(l);
            long long v = -1;
            if ((i >> word) && word == name && (i >> v >> unit)) us.push_back(unit == "us" ? v : -1);
          }
          if (!c.Check(us.size() == 1, "real:report", Str("party ", id, " of ", w ? "dn07" : "ours", " reports ", name, " ", us.size(), " times; log ends ",
                                                           log.substr(log.size() > 500 ? log.size() - 500 : 0))))
            return c.End();
          if (id == 0) x[(std::size_t)(3 * w + p)] = (double)us[0];
          if (rd.size() < 2) {
            found = false;
            continue;
          }
          bool hit = false;
          for (std::size_t i = last; i < rd.size() && !hit; i++)
            for (std::size_t j = i + 1; j < rd.size() && !hit; j++)
              if ((rd[j].ns - rd[i].ns) / 1000 == us[0] || (rd[j].ns - rd[i].ns + 999) / 1000 == us[0]) {
                hit = true;
                if (p) c.Check(rd[i].sent == rd[last].sent && rd[i].received == rd[last].received, "real:unmeasured", Str("party ", id, " communicates between ", kPhase[3 * w + p - 1], " and ", name));
                last = j;
                moved[w][p][0] += rd[j].sent - rd[i].sent, moved[w][p][1] += rd[j].received - rd[i].received;
                if (!w && p == 2) {
                  u64 ws = id ? 8 * batches : 16 * (n - 1) * batches, wr = id ? 16 * batches : 8 * (n - 1) * batches;
                  c.Check(rd[j].sent - rd[i].sent == ws && rd[j].received - rd[i].received == wr, "real:online-bytes",
                          Str("party ", id, " moves ", rd[j].sent - rd[i].sent, "/", rd[j].received - rd[i].received, " bytes in the reported online phase, expected ", ws, "/", wr));
                }
              }
          c.Check(hit, "real:time", Str("party ", id, "'s ", name, " ", us[0], " us is no difference of two readings of the clock, in order"));
          if (!hit) return c.End();
        }
        if (!found) all = false;
        else
          c.Check(rd[last].sent == rd.back().sent && rd[last].received == rd.back().received, "real:unmeasured", Str("party ", id, " communicates after its last phase"));
      }
    }
    if (all) {
      for (int w = 0; w < 2; w++)
        for (int p = 0; p < 3; p++) {
          c.Check(moved[w][p][0] == moved[w][p][1], "real:phases", Str("in ", kPhase[3 * w + p], " ", moved[w][p][0], " bytes are sent and ", moved[w][p][1], " received"));
          c.Check(moved[w][p][0] > 0, "real:phases", Str("nothing is sent in ", kPhase[3 * w + p]));
          c.Count(Str("bytes-", kPhase[3 * w + p]), moved[w][p][0]);
        }
      c.Count("clocks-watched", 2 * n);
    } else
      c.Count("clocks-not-observed");
    times[{(int)n, (long)size, (int)depth}].push_back(x);
  }
  for (auto& kv : times)
    for (auto& x : kv.second)
      for (auto& v : x)
        if (!(v > 0)) v = -1;
  auto res = Cmd(d, {"python3", "parse_files.py"});
  c.Check(res.ended && res.status == 0, "table:failed", Str("the script fails: ", res.out.substr(res.out.size() > 800 ? res.out.size() - 800 : 0)));
  if (res.ended && res.status == 0) CheckTable(res.out, times);
  c.Count("real-runs");
  c.End();
}

int main(int argc, char** argv) {
  c.Init(argc, argv);
  const char* exe[2] = {std::getenv("VP_EXE_OURS"), std::getenv("VP_EXE_DN07")};
  if (!exe[0] || !exe[1]) EnvFail("no programs");
  g_dir = std::getenv("VP_SCRATCH") ? std::getenv("VP_SCRATCH") : "/tmp/p13";
  ::mkdir(g_dir.c_str(), 0755);
  {  // may an unprivileged user work here?
    pid_t p = ::fork();
    if (!p) {
      if (::setgroups(0, nullptr) || ::setgid(65534) || ::setuid(65534)) _exit(1);
      _exit(::chdir(g_dir.c_str()) || ::access(exe[0], X_OK) || ::access(exe[1], X_OK) ? 1 : 0);
    }
    int st = 1;
    ::waitpid(p, &st, 0);
    g_drop = st == 0;
    c.Count(g_drop ? "max_unprivileged" : "max_privileged");
  }
  Rng r = c.MakeRng(131);
  for (long i = 0, m = c.N(8, 120); i < m; i++) {
    static const std::size_t sizes[] = {1000, 1000, 10000};
    std::size_t n = r.Chance(2, 3) ? 5 : 13, depth = r.Chance(1, 2) ? 1 : 10;
    Real(r, exe, n, sizes[r.Below(n == 5 && i % 8 == 7 ? 3 : 2)], depth, 1 + r.Below(2));
  }
  for (long i = 0, m = c.N(160, 3000); i < m; i++) RunScript(r);
  for (long i = 0, m = c.N(160, 3000); i < m; i++) Parse(r);
  for (long i = 0, m = c.N(24, 300); i < m; i++) GenScript(r);
  return c.Finish();
}
