// N06: configuration files and parameters.
#include <fstream>

#include "scl/net/config.h"
#include "vp.h"
using namespace vp;

static Ctx& c = Ctx::I();
struct Ent {
  unsigned id;
  std::string host;
  int port;
};

static std::string Host(Rng& r) {
  switch (r.Below(6)) {
    case 0: return Str(r.Below(256), ".", r.Below(256), ".", r.Below(256), ".", r.Below(256));
    case 1: return "localhost";
    case 2: return "";
    case 3: return std::string(1 + r.Below(300), (char)('a' + r.Below(26)));
    case 4: return "a,b,," + std::to_string(r.Below(10));
    default: {
      std::string s;
      for (int i = r.Below(20); i-- > 0;) {
        char ch = (char)(32 + r.Below(95));
        s += ch;
      }
      return s;
    }
  }
}
static int Port(Rng& r) {
  static const int e[] = {1, 80, 1023, 1024, 9900, 32767, 32768, 65535};
  return r.Chance(1, 3) ? e[r.Below(8)] : 1 + (int)r.Below(65535);
}
static std::string Same(const scl::NetworkConfig& cfg, unsigned id, const std::vector<Ent>& es) {
  if (cfg.Id() != id) return Str("own id ", cfg.Id(), " instead of ", id);
  if (cfg.NetworkSize() != es.size()) return Str(cfg.NetworkSize(), " parties instead of ", es.size());
  auto ps = cfg.Parties();
  if (ps.size() != es.size()) return "wrong number of parties";
  std::string exp = Str("[id=", id, ", ");
  for (std::size_t i = 0; i < es.size(); i++) {
    if (ps[i].id != es[i].id || ps[i].hostname != es[i].host || ps[i].port != es[i].port)
      return Str("entry ", i, " is ", ps[i].id, ",", ps[i].hostname, ",", ps[i].port, " instead of ", es[i].id, ",", es[i].host, ",", es[i].port);
    auto p = cfg.GetParty(es[i].id);
    if (p.id != es[i].id || p.hostname != es[i].host || p.port != es[i].port)
      return Str("looking up ", es[i].id, " found ", p.id, ",", p.hostname, ",", p.port);
    exp += Str("{", es[i].id, ", ", es[i].host, ", ", es[i].port, i + 1 == es.size() ? "}]" : "}, ");
  }
  if (cfg.ToString() != exp) return "printed as " + cfg.ToString() + " instead of " + exp;
  return "";
}
static std::vector<Ent> Entries(Rng& r, int n) {
  std::vector<Ent> es;
  for (int i = 0; i < n; i++) es.push_back({(unsigned)i, Host(r), Port(r)});
  if (r.Chance(1, 2))
    for (int i = n; i-- > 1;) std::swap(es[i], es[r.Below(i + 1)]);
  return es;
}
static std::string Text(Rng& r, const std::vector<Ent>& es, const std::vector<std::string>& lines = {}) {
  std::string s;
  for (std::size_t i = 0; i < es.size(); i++) {
    s += i < lines.size() && !lines[i].empty() ? lines[i] : Str(es[i].id, ",", es[i].host, ",", es[i].port);
    if (i + 1 < es.size() || r.Chance(1, 2)) s += "\n";
  }
  return s;
}
static std::string File(const std::string& text) {
  static int k = 0;
  std::string n = std::string(std::getenv("VP_SCRATCH") ? std::getenv("VP_SCRATCH") : "/tmp") + "/cfg" + std::to_string(k++ % 4) + ".txt";
  std::ofstream f(n, std::ios::binary | std::ios::trunc);
  f << text;
  return n;
}

static void Valid(Rng& r) {
  int n = 1 + r.Below(r.Chance(1, 10) ? 300 : 8);
  auto es = Entries(r, n);
  unsigned id = r.Below(n);
  auto text = Text(r, es);
  c.Begin(Str("file for ", id, ": ", text));
  auto name = File(text);
  std::string e;
  std::string t = Thrown([&]() { e = Same(scl::NetworkConfig::Load(id, name), id, es); });
  c.Check(t.empty(), "load", "a valid file was refused: " + t);
  c.Check(e.empty(), "load:content", e);
  t = Thrown([&]() {
    std::vector<scl::Party> ps;
    for (auto& x : es) ps.push_back({x.id, x.host, x.port});
    e = Same(scl::NetworkConfig(id, ps), id, es);
  });
  c.Check(t.empty() && e.empty(), "construct", t + e);
  c.Count("valid_files");
  c.End(n > 1);
}
static void Local(Rng& r) {
  int n = 1 + r.Below(r.Chance(1, 10) ? 300 : 8), base = 1 + r.Below(60000);
  unsigned id = r.Below(n);
  c.Begin(Str("localhost ", id, " of ", n, " from ", base));
  std::vector<Ent> es, ds;
  for (int i = 0; i < n; i++) es.push_back({(unsigned)i, "127.0.0.1", base + i}), ds.push_back({(unsigned)i, "127.0.0.1", DEFAULT_PORT_OFFSET + i});
  std::string e, t = Thrown([&]() {
    e = Same(scl::NetworkConfig::Localhost(id, n, base), id, es);
    if (e.empty()) e = Same(scl::NetworkConfig::Localhost(id, n), id, ds);
  });
  c.Check(t.empty() && e.empty(), "localhost", t + e);
  unsigned out = n + r.Below(5);
  if (r.Chance(1, 3)) out = 0xffffffffu - r.Below(3);
  t = Thrown([&]() { scl::NetworkConfig::Localhost(out, n, base); });
  c.Check(!t.empty(), "localhost:id", Str("own id ", out, " of ", n, " was accepted"));
  t = Thrown([&]() { scl::NetworkConfig::Localhost(0, 0, base); });
  c.Check(!t.empty(), "localhost:empty", "an empty configuration was accepted");
  c.End(n > 1);
}
static void Invalid(Rng& r) {
  int n = 1 + r.Below(r.Chance(1, 10) ? 300 : 8);
  auto es = Entries(r, n);
  unsigned id = r.Below(n);
  std::vector<std::string> lines(n);
  int at = r.Below(n), how = r.Below(10);
  auto& e = es[at];
  std::string host = e.host.find(',') == std::string::npos ? e.host : "h";
  bool file_only = true;
  switch (how) {
    case 0: lines[at] = Str(e.id, " ", host, " ", e.port); for (auto& ch : lines[at]) if (ch == ',') ch = ';'; break;
    case 1: lines[at] = r.Chance(1, 2) ? Str(e.id, ",", host) : Str(e.id, ",", e.port); break;
    case 2: {
      static const char* bad[] = {"", "x", "one", "-", "#0", ".5", "a1", " ", "\t"};
      lines[at] = Str(bad[r.Below(9)], ",", host, ",", e.port);
      break;
    }
    case 3: {
      static const char* bad[] = {"", "x", "http", "-", ":80", "p80", " "};
      lines[at] = Str(e.id, ",", host, ",", bad[r.Below(7)]);
      break;
    }
    case 4: {  // an id no party can have
      static const unsigned big[] = {0xffffffffu, 0x80000000u, 0x7fffffffu, 65536};
      e.id = r.Chance(1, 2) ? n + r.Below(4) : big[r.Below(4)];
      file_only = false;
      break;
    }
    case 5:  // an id that does not even fit
      lines[at] = r.Chance(1, 2) ? Str((1ULL << 32) + e.id, ",", host, ",", e.port)
                  : r.Chance(1, 2) ? Str("-", 1 + r.Below(9), ",", host, ",", e.port)
                                   : Str((1ULL << 32) * (2 + r.Below(1000)) + e.id, ",", host, ",", e.port);
      break;
    case 6:
      lines[at] = Str(e.id, ",", host, ",", r.Chance(1, 2) ? "99999999999999999999" : "2147483648");
      break;
    case 7:
      if (n == 1) {
        es.push_back({0, "h", 1});
        lines.push_back("");
      } else {
        int o = (at + 1 + r.Below(n - 1)) % n;
        es[at].id = es[o].id;
      }
      file_only = false;
      break;
    case 8: id = n + r.Below(4); if (r.Chance(1, 3)) id = 0xffffffffu - r.Below(2); file_only = false; break;
    case 9: {  // a line that is no entry
      es.insert(es.begin() + at, Ent{0, "", 0});
      static const char* bad[] = {" ", "# comment", "id host port", ";", ","};
      lines.insert(lines.begin() + at, bad[r.Below(5)]);
      break;
    }
  }
  auto text = Text(r, es, lines);
  c.Begin(Str("invalid file (", how, ") for ", id, ": ", text));
  auto name = File(text);
  auto t = Thrown([&]() { scl::NetworkConfig::Load(id, name); });
  c.Check(!t.empty(), Str("accepted:", how), "an invalid file was accepted");
  if (!file_only) {
    t = Thrown([&]() {
      std::vector<scl::Party> ps;
      for (auto& x : es) ps.push_back({x.id, x.host, x.port});
      scl::NetworkConfig cfg(id, ps);
    });
    c.Check(!t.empty(), Str("accepted-list:", how), "an invalid list of parties was accepted");
  }
  c.Count("invalid_files");
  c.End();
}
static void Missing(Rng& r) {
  c.Begin(Str("missing or empty file ", r.s));
  auto t = Thrown([&]() { scl::NetworkConfig::Load(0, Str("/nonexistent/", r.Next(), ".txt")); });
  c.Check(!t.empty(), "missing", "a missing file was accepted");
  auto n = File("");
  t = Thrown([&]() { scl::NetworkConfig::Load(r.Below(3), n); });
  c.Check(!t.empty(), "empty", "an empty file was accepted");
  t = Thrown([&]() { scl::NetworkConfig(0, {}); });
  c.Check(!t.empty(), "empty-list", "an empty list of parties was accepted");
  c.End();
}
// arbitrary bytes: some configuration or an exception
static void Garbage(Rng& r) {
  std::string s;
  static const char cs[] = "0123456789,,,,\n\n -.abx\t\r";
  for (int i = r.Below(120); i-- > 0;) s += r.Chance(1, 12) ? (char)r.Next() : cs[r.Below(sizeof cs - 1)];
  c.Begin("garbage " + s);
  auto n = File(s);
  unsigned id = r.Below(3);
  auto t = Thrown([&]() {
    auto cfg = scl::NetworkConfig::Load(id, n);
    bool ok = cfg.Id() == id && id < cfg.NetworkSize();
    std::vector<bool> seen(cfg.NetworkSize());
    for (auto& p : cfg.Parties()) {
      if (p.id >= seen.size() || seen[p.id]) {
        ok = false;
        break;
      }
      seen[p.id] = true;
    }
    c.Check(ok, "garbage", "a configuration with invalid ids was returned");
    c.Count("garbage_accepted");
  });
  c.End();
}

int main(int argc, char** argv) {
  c.Init(argc, argv);
  Rng r = c.MakeRng(0x106);
  for (long i = c.N(8000, 100000); i-- > 0;) {
    Valid(r);
    Local(r);
    Invalid(r);
    if (i % 8 == 0) Missing(r);
    Garbage(r);
  }
  return c.Finish();
}
