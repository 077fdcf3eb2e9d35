// Linked into the shipped programs: port base, randomness and socket faults
// from the environment, the first party's outputs and what is left unread on
// any connection written to a file.
#include <sys/ioctl.h>

#include "faults.h"
#include "tp/circuits.h"
#include "tp/dn07.h"
using namespace vp;

static long EnvNum(const char* n, long d) {
  const char* v = std::getenv(n);
  return v ? std::atol(v) : d;
}
static std::mutex g_mu;
static void Report(const std::string& line) {
  const char* f = std::getenv("VP_RESULT");
  if (!f) return;
  std::lock_guard<std::mutex> l(g_mu);
  FILE* o = std::fopen(f, "a");
  if (!o) return;
  std::fprintf(o, "%s\n", line.c_str());
  std::fclose(o);
}
static std::string Num(const tp::FF& f) {
  unsigned char b[8];
  f.Write(b);
  u64 v;
  std::memcpy(&v, b, 8);
  return Str(v);
}

extern "C" {
int vp_port_base() {
  auto& f = Faults::I();
  f.Reset((u64)EnvNum("VP_FAULT_SEED", 1));
  f.partial = (unsigned)EnvNum("VP_FAULT_PARTIAL", 0);
  f.intr = (unsigned)EnvNum("VP_FAULT_INTR", 0);
  f.delay = (unsigned)EnvNum("VP_FAULT_DELAY", 0);
  f.on = f.partial || f.intr || f.delay;
  return (int)EnvNum("VP_PORT_BASE", 9900);
}
long long vp_prg_nonce() {
  const char* v = std::getenv("VP_NONCE");
  return v ? std::atoll(v) : 0x0123456789ABCDEFLL;
}
int __real_close(int) __attribute__((weak));
int __wrap_close(int fd) {
  int left = 0;
  sockaddr_storage a;
  socklen_t n = sizeof a;
  if (vp_is_socket(fd) && ::getpeername(fd, (sockaddr*)&a, &n) == 0 && ::ioctl(fd, FIONREAD, &left) == 0)
    Report(left ? Str("left ", left) : std::string("closed"));
  return __real_close(fd);
}
// Every reading of the clock is written down together with the bytes moved so far; the readings
// are set apart by long, different spans, so that a difference tells which two it was made of.
static long long Clock(long long ns) {
  static const char* f = std::getenv("VP_CLOCK");
  if (!f) return ns;
  static std::mutex mu;
  std::lock_guard<std::mutex> l(mu);
  static u64 k = 0;
  static long long ahead = 0;
  ahead += 1000000000LL * (long long)(5 + Mix(((u64)::getpid() << 20) + k++) % 9000);
  ns += ahead;
  FILE* o = std::fopen(Str(f, ".", ::getpid()).c_str(), "a");
  if (!o) return ns;
  if (k == 1) {
    std::string a;
    FILE* i = std::fopen("/proc/self/cmdline", "rb");
    for (int ch; i && (ch = std::fgetc(i)) != EOF;) a += ch ? (char)ch : ' ';
    if (i) std::fclose(i);
    std::fprintf(o, "args %s\n", a.c_str());
  }
  auto& w = Faults::I();
  std::fprintf(o, "clock %lld %llu %llu\n", ns, (unsigned long long)w.sent, (unsigned long long)w.received);
  std::fclose(o);
  return ns;
}
using SysT = std::chrono::system_clock::time_point;
using StT = std::chrono::steady_clock::time_point;
SysT real_sys_now() __asm__("__real__ZNSt6chrono3_V212system_clock3nowEv") __attribute__((weak));
SysT wrap_sys_now() __asm__("__wrap__ZNSt6chrono3_V212system_clock3nowEv");
SysT wrap_sys_now() { return SysT(std::chrono::nanoseconds(Clock(real_sys_now().time_since_epoch().count()))); }
StT real_steady_now() __asm__("__real__ZNSt6chrono3_V212steady_clock3nowEv") __attribute__((weak));
StT wrap_steady_now() __asm__("__wrap__ZNSt6chrono3_V212steady_clock3nowEv");
StT wrap_steady_now() { return StT(std::chrono::nanoseconds(Clock(real_steady_now().time_since_epoch().count()))); }
void real_main_out(tp::Circuit*) __asm__("__real__ZN2tp7Circuit21OutputOwnerReceivesMuEv") __attribute__((weak));
void wrap_main_out(tp::Circuit*) __asm__("__wrap__ZN2tp7Circuit21OutputOwnerReceivesMuEv");
void wrap_main_out(tp::Circuit* c) {
  real_main_out(c);
  if (EnvNum("VP_ID", -1) != 0) return;
  std::string s = "outputs";
  for (auto& f : c->GetOutputs()) s += " " + Num(f);
  Report(s);
}
void real_dn_out(tp::DN07*) __asm__("__real__ZN2tp4DN0719OutputOwnersReceiveEv") __attribute__((weak));
void wrap_dn_out(tp::DN07*) __asm__("__wrap__ZN2tp4DN0719OutputOwnersReceiveEv");
void wrap_dn_out(tp::DN07* d) {
  real_dn_out(d);
  if (EnvNum("VP_ID", -1) != 0) return;
  std::string s = "outputs";
  for (std::size_t i = 0; i < 2; i++) s += " " + Num(d->GetOutput(0, i));
  Report(s);
}
}
