// Helpers for the network harnesses: raw sockets, free ports, channels that
// record, delay or replay bytes.
#ifndef VP_NET_H
#define VP_NET_H
#include <arpa/inet.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/socket.h>
#include <sys/un.h>

#include <deque>

#include "scl/net/channel.h"
#include "vp.h"

namespace vp {

// exit code 96: the environment, not the code under test, failed
inline void EnvFail(const char* what) {
  std::fprintf(stderr, "environment: %s: %s\n", what, std::strerror(errno));
  _exit(96);
}

// A connected pair of loopback TCP sockets (made without the code under test).
inline void TcpPair(int fd[2]) {
  int l = ::socket(AF_INET, SOCK_STREAM, 0);
  sockaddr_in a{};
  a.sin_family = AF_INET;
  a.sin_addr.s_addr = ::htonl(INADDR_LOOPBACK);
  socklen_t n = sizeof a;
  if (l < 0 || ::bind(l, (sockaddr*)&a, sizeof a) < 0 || ::listen(l, 1) < 0 ||
      ::getsockname(l, (sockaddr*)&a, &n) < 0)
    EnvFail("tcp pair");
  fd[0] = ::socket(AF_INET, SOCK_STREAM, 0);
  if (fd[0] < 0 || ::connect(fd[0], (sockaddr*)&a, sizeof a) < 0) EnvFail("connect");
  fd[1] = ::accept(l, nullptr, nullptr);
  if (fd[1] < 0) EnvFail("accept");
  ::close(l);
  int one = 1;
  for (int i = 0; i < 2; i++) ::setsockopt(fd[i], IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
}
inline void UnixPair(int fd[2]) {
  if (::socketpair(AF_UNIX, SOCK_STREAM, 0, fd) < 0) EnvFail("socketpair");
}
// resets the connection instead of closing it in an orderly way
inline void Reset(int fd) {
  linger l{1, 0};
  ::setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
  ::close(fd);
}

// Blocks of 32 ports below the ephemeral range.  A block belongs to this
// process while it holds the abstract socket named after it.
inline int ClaimPorts(Rng& r, int n, const char* addr = nullptr) {
  static std::vector<int> blocks;
  static std::size_t next_port = 0;
  if (n > 32) {  // several blocks cannot be contiguous in general; probe instead
    for (int tries = 0; tries < 2000; tries++) {
      int base = 26000 + 260 * (int)r.Below(25);
      int s = ::socket(AF_UNIX, SOCK_STREAM, 0);
      sockaddr_un u{};
      u.sun_family = AF_UNIX;
      std::snprintf(u.sun_path + 1, sizeof u.sun_path - 2, "vp-bigports-%d", base);
      if (::bind(s, (sockaddr*)&u, sizeof u) < 0) {
        ::close(s);
        continue;
      }
      return base;
    }
    EnvFail("no ports");
  }
  for (int tries = 0; tries < 4000; tries++) {
    if (blocks.empty() || next_port + n > blocks.size() * 32) {
      int b = (int)r.Below(420);
      int s = ::socket(AF_UNIX, SOCK_STREAM, 0);
      sockaddr_un u{};
      u.sun_family = AF_UNIX;
      std::snprintf(u.sun_path + 1, sizeof u.sun_path - 2, "vp-ports-%d", b);
      if (::bind(s, (sockaddr*)&u, sizeof u) < 0) {
        ::close(s);
        continue;
      }
      blocks.push_back(b);  // s stays open: the claim
      next_port = (blocks.size() - 1) * 32;
    }
    int base = 12000 + blocks.back() * 32 + (int)(next_port % 32);
    next_port += n;
    bool ok = true;
    for (int i = 0; i < n && ok; i++) {
      int s = ::socket(AF_INET, SOCK_STREAM, 0);
      sockaddr_in a{};
      a.sin_family = AF_INET;
      a.sin_addr.s_addr = 0;
      a.sin_port = ::htons(base + i);
      ok = ::bind(s, (sockaddr*)&a, sizeof a) == 0;
      ::close(s);
    }
    if (ok) return base;
  }
  EnvFail("no free ports");
  return 0;
}

// Connects to a local port, waiting for the listener; optionally from a given
// loopback address.
inline int RawConnect(int port, const char* from = nullptr, double patience = 20) {
  double t0 = Ctx::Now();
  while (Ctx::Now() - t0 < patience) {
    int s = ::socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a{};
    a.sin_family = AF_INET;
    if (from) {
      ::inet_pton(AF_INET, from, &a.sin_addr);
      if (::bind(s, (sockaddr*)&a, sizeof a) < 0) EnvFail("bind");
    }
    a.sin_addr.s_addr = ::htonl(INADDR_LOOPBACK);
    a.sin_port = ::htons(port);
    if (::connect(s, (sockaddr*)&a, sizeof a) == 0) return s;
    ::close(s);
    std::this_thread::sleep_for(std::chrono::milliseconds(2));
  }
  return -1;
}
// Listens on every address.
inline int RawListen(int port, int backlog) {
  int s = ::socket(AF_INET, SOCK_STREAM, 0), one = 1;
  ::setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
  sockaddr_in a{};
  a.sin_family = AF_INET;
  a.sin_addr.s_addr = 0;
  a.sin_port = ::htons(port);
  if (::bind(s, (sockaddr*)&a, sizeof a) < 0 || ::listen(s, backlog) < 0) EnvFail("listen");
  return s;
}
inline bool RawSend(int fd, const void* p, std::size_t n) {
  RawScope raw;
  auto* b = (const unsigned char*)p;
  while (n) {
    long k = ::send(fd, b, n, MSG_NOSIGNAL);
    if (k < 0 && errno == EINTR) continue;
    if (k <= 0) return false;
    b += k;
    n -= k;
  }
  return true;
}
inline bool RawRecv(int fd, void* p, std::size_t n) {
  RawScope raw;
  auto* b = (unsigned char*)p;
  while (n) {
    long k = ::recv(fd, b, n, 0);
    if (k < 0 && errno == EINTR) continue;
    if (k <= 0) return false;
    b += k;
    n -= k;
  }
  return true;
}

// The byte at position i of the stream with the given seed.
inline unsigned char StreamByte(u64 seed, u64 i) { return (unsigned char)(Mix(seed + i / 8) >> (8 * (i % 8))); }
inline std::vector<unsigned char> StreamBytes(u64 seed, u64 at, std::size_t n) {
  std::vector<unsigned char> v(n);
  for (std::size_t i = 0; i < n; i++) v[i] = StreamByte(seed, at + i);
  return v;
}
// index of the first difference or -1
inline long StreamDiff(u64 seed, u64 at, const unsigned char* p, std::size_t n) {
  for (std::size_t i = 0; i < n; i++)
    if (p[i] != StreamByte(seed, at + i)) return (long)i;
  return -1;
}

// sizes around those where buffers and kernels change behaviour
inline std::size_t MsgSize(Rng& r, std::size_t big) {
  switch (r.Below(8)) {
    case 0: return r.Below(2);
    case 1: return 8;
    case 2: return r.Below(16);
    case 3: return r.Below(300);
    case 4: return (1u << r.Below(13)) - 1 + r.Below(3);
    case 5: return r.Below(big / 10 + 1);
    case 6: return r.Chance(1, 4) ? r.Below(big) : r.Below(64);
    default: return 1 + r.Below(9);
  }
}

// Replays bytes; a receive beyond the end throws like a closed connection.
class BytesChannel final : public scl::Channel {
 public:
  std::vector<unsigned char> in, out;
  std::size_t pos = 0, biggest = 0;
  explicit BytesChannel(std::vector<unsigned char> b = {}) : in(std::move(b)) {}
  void Close() override {}
  void Send(const unsigned char* s, std::size_t n) override { out.insert(out.end(), s, s + n); }
  void Recv(unsigned char* d, std::size_t n) override {
    if (n > biggest) biggest = n;
    if (n > in.size() - pos) throw std::runtime_error("vp: end of data");
    if (n) std::memcpy(d, in.data() + pos, n);
    pos += n;
  }
  using scl::Channel::Recv;
  using scl::Channel::Send;
};
}  // namespace vp
#endif
