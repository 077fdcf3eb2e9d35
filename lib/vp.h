// Common support for all harnesses: arguments, random numbers, case
// bookkeeping (what was evaluated, how many distinct cases), violation records
// and a per-case watchdog.  It does not depend on anything in the repository.
#ifndef VP_H
#define VP_H
#include <fcntl.h>
#include <time.h>
#include <sys/mman.h>
#include <unistd.h>

#include <atomic>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <mutex>
#include <sstream>
#include <string>
#include <thread>
#include <unordered_set>
#include <vector>

namespace vp {

using u64 = std::uint64_t;
using u128 = unsigned __int128;

// set while the harness itself moves bytes: no faults then
inline thread_local bool g_raw = false;
struct RawScope {
  bool old = g_raw;
  RawScope() { g_raw = true; }
  ~RawScope() { g_raw = old; }
};

inline u64 Mix(u64 x) {
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}

struct Rng {
  u64 s;
  explicit Rng(u64 seed) : s(Mix(seed)) {}
  u64 Next() {
    s += 0x9e3779b97f4a7c15ULL;
    u64 z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  u128 Next128() {
    u128 h = Next();
    return (h << 64) | Next();
  }
  u64 Below(u64 n) { return n ? Next() % n : 0; }
  // inclusive
  long Range(long a, long b) { return a + (long)Below((u64)(b - a + 1)); }
  bool Chance(unsigned num, unsigned den) { return Below(den) < num; }
  template <typename T>
  const T& Pick(const std::vector<T>& v) {
    return v[Below(v.size())];
  }
};

struct Violation {
  std::string key, msg, cas;
};

struct OutFile {
  std::ostringstream s;
  std::string tmp;
  explicit OutFile(const std::string& t) : tmp(t) {}
  void Commit(const std::string& name) {
    FILE* f = std::fopen(tmp.c_str(), "wb");
    if (!f) return;
    auto str = s.str();
    std::fwrite(str.data(), 1, str.size(), f);
    std::fclose(f);
    std::rename(tmp.c_str(), name.c_str());
  }
};

class Ctx {
 public:
  u64 seed = 1;
  unsigned shard = 0, nshards = 1;
  bool thorough = false;
  double scale = 1.0;  // multiplies case counts
  std::string out;
  std::string mode;

  static Ctx& I() {
    static Ctx c;
    return c;
  }

  void Init(int argc, char** argv) {
    for (int i = 1; i < argc; i++) {
      std::string a = argv[i];
      auto v = [&]() { return std::string(argv[++i]); };
      if (a == "--seed")
        seed = std::stoull(v());
      else if (a == "--shard")
        shard = std::stoul(v());
      else if (a == "--nshards")
        nshards = std::stoul(v());
      else if (a == "--thorough")
        thorough = true;
      else if (a == "--scale")
        scale = std::stod(v());
      else if (a == "--out")
        out = v();
      else if (a == "--mode")
        mode = v();
      else if (a == "--case-timeout")
        case_timeout = std::stod(v());
      else if (a == "--budget")
        budget = std::stod(v());
    }
    if (!out.empty()) {
      int fd = ::open((out + ".cur").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
      if (fd >= 0 && ::ftruncate(fd, kCur) == 0) {
        void* p = ::mmap(nullptr, kCur, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (p != MAP_FAILED) cur = (char*)p;
      }
      if (fd >= 0) ::close(fd);
    }
    t0 = Now();
    std::thread([this]() {
      while (true) {
        std::this_thread::sleep_for(std::chrono::milliseconds(200));
        double b = case_start.load();
        if (!(b > 0) || !(Now() - b > case_timeout)) continue;
        // Stuck: idle, or busy for the whole time.  A case that is only short of processor time
        // (a loaded machine) is given twice as long.
        double wall = Now() - b, used = Cpu() - case_cpu.load();
        if (used < 0.05 * wall || used > 0.8 * case_timeout || wall > 2 * case_timeout) {
          std::fprintf(stderr, "VP-HANG: no progress for %.0f s in the current case\n",
                       case_timeout);
          std::fflush(stderr);
          _exit(97);
        }
      }
    }).detach();
  }

  // number of cases for this shard
  long N(double quick, double thorough_n) {
    double n = (thorough ? thorough_n : quick) * scale / nshards;
    return n < 1 ? 1 : (long)n;
  }
  Rng MakeRng(u64 salt) { return Rng(Mix(seed * 1000003ULL + salt) ^ Mix(shard + 77777ULL)); }

  // A new case begins; `desc` must be enough to understand and replay it.
  void Begin(const std::string& desc) {
    if (budget > 0 && Now() - t0 > budget) {  // a slow machine: what was done so far counts
      counters["max_shards_out_of_time"] = 1;
      Finish();
      std::fflush(nullptr);
      _exit(nviol ? 1 : 0);
    }
    curdesc = desc;
    if (cur) {
      std::size_t n = desc.size() < kCur - 1 ? desc.size() : kCur - 1;
      std::memcpy(cur, desc.data(), n);
      cur[n] = 0;
    }
    evaluations++;
    case_cpu = Cpu();
    case_start = Now();
  }
  // The current case ended; its signature identifies it for distinctness.
  void End(bool nontrivial = true) { EndSig(Fnv(curdesc), nontrivial); }
  void EndSig(u64 sig, bool nontrivial = true) {
    if (nontrivial) {
      if (sigs.size() < 4000000) sigs.insert(sig);
      if (samples.size() < 6 && (evaluations % 37 == 1 || samples.size() < 2))
        samples.push_back(curdesc.substr(0, 400));
    }
    u64 ms = (u64)((Now() - case_start.load()) * 1000);
    if (ms > slowest) slowest = ms;
    case_start = 0;
  }
  void Count(const std::string& name, u64 n = 1) { counters[name] += n; }
  void Max(const std::string& name, u64 n) {
    auto& c = counters[name];
    if (n > c) c = n;
  }

  void Fail(const std::string& key, const std::string& msg) {
    std::lock_guard<std::mutex> l(mu);
    nviol++;
    for (auto& v : viols)
      if (v.key == key) return;
    if (viols.size() < 50) viols.push_back({key, msg.substr(0, 1500), curdesc.substr(0, 3000)});
    std::fprintf(stderr, "VP-VIOLATION %s: %s [case %s]\n", key.c_str(), msg.c_str(),
                 curdesc.substr(0, 500).c_str());
    Finish(false);
  }
  // Used through the macro Check(ok, key, message): key and message are only
  // made up when the check fails.
  template <typename K, typename M>
  bool CheckLazy(bool ok, const K& key, const M& msg) {
    nchecks++;
    if (!ok) Fail(key(), msg());
    return ok;
  }

  static std::string Esc(const std::string& s) {
    std::string r;
    for (unsigned char c : s) {
      if (c == '"' || c == '\\') {
        r += '\\';
        r += c;
      } else if (c < 32 || c > 126) {
        char b[8];
        std::snprintf(b, sizeof b, "\\u%04x", c);
        r += b;
      } else
        r += c;
    }
    return r;
  }
  static u64 Fnv(const std::string& s) {
    u64 h = 1469598103934665603ULL;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
    return h;
  }

  int Finish(bool done = true) {
    counters["checks"] = nchecks;
    counters["max_case_ms"] = slowest;
    if (out.empty()) {
      if (done) {
        std::printf("evaluations %llu distinct %zu violations %llu wall %.1f\n",
                    (unsigned long long)evaluations, sigs.size(), (unsigned long long)nviol,
                    Now() - t0);
        for (auto& c : counters)
          std::printf("  %s = %llu\n", c.first.c_str(), (unsigned long long)c.second);
      }
      return nviol ? 1 : 0;
    }
    OutFile f(out + ".json.tmp");
    f.s << "{\"done\":" << (done ? "true" : "false") << ",\"evaluations\":" << evaluations
        << ",\"distinct\":" << sigs.size() << ",\"nviol\":" << nviol << ",\"counters\":{";
    bool first = true;
    for (auto& c : counters) {
      f.s << (first ? "" : ",") << "\"" << Esc(c.first) << "\":" << c.second;
      first = false;
    }
    f.s << "},\"samples\":[";
    first = true;
    for (auto& s : samples) {
      f.s << (first ? "" : ",") << "\"" << Esc(s) << "\"";
      first = false;
    }
    f.s << "],\"violations\":[";
    first = true;
    for (auto& v : viols) {
      f.s << (first ? "" : ",") << "{\"key\":\"" << Esc(v.key) << "\",\"msg\":\"" << Esc(v.msg)
          << "\",\"case\":\"" << Esc(v.cas) << "\"}";
      first = false;
    }
    f.s << "]}\n";
    f.Commit(out + ".json");
    if (done) {
      FILE* h = std::fopen((out + ".hash").c_str(), "wb");
      if (h) {
        for (u64 s : sigs) std::fwrite(&s, 8, 1, h);
        std::fclose(h);
      }
    }
    return 0;
  }

  static double Now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch())
        .count();
  }
  static double Cpu() {
    timespec t;
    ::clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
    return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec;
  }
  double case_timeout = 120;
  double budget = 0;  // seconds after which no new case begins; 0: none
  std::map<std::string, u64> counters;
  u64 evaluations = 0, nviol = 0, nchecks = 0;
  std::string curdesc;

 private:
  static constexpr std::size_t kCur = 8192;
  char* cur = nullptr;
  double t0 = 0;
  std::atomic<double> case_start{0}, case_cpu{0};
  u64 slowest = 0;
  std::unordered_set<u64> sigs;
  std::vector<std::string> samples;
  std::vector<Violation> viols;
  std::mutex mu;
};

template <typename... A>
std::string Str(const A&... a) {
  std::ostringstream o;
  ((o << a), ...);
  return o.str();
}

inline std::string Dec(u128 v) {
  if (!v) return "0";
  std::string s;
  while (v) {
    s.insert(s.begin(), (char)('0' + (int)(v % 10)));
    v /= 10;
  }
  return s;
}
inline std::string Hex(const unsigned char* p, std::size_t n) {
  static const char* d = "0123456789abcdef";
  std::string s;
  for (std::size_t i = 0; i < n; i++) {
    s += d[p[i] >> 4];
    s += d[p[i] & 15];
  }
  return s;
}

// Runs f; returns "" if it returned, otherwise the kind of exception.
inline std::string Thrown(const std::function<void()>& f) {
  try {
    f();
  } catch (const std::exception& e) {
    return std::string("exception: ") + e.what();
  } catch (...) {
    return "exception of unknown type";
  }
  return "";
}

}  // namespace vp

#define Check(ok, key, ...)                                            \
  CheckLazy(static_cast<bool>(ok), [&]() -> std::string { return key; }, \
            [&]() -> std::string { return __VA_ARGS__; })
#endif
