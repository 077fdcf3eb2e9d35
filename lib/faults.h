// Wrappers (ld --wrap) around the calls that move bytes over sockets.  When
// switched on they transfer only part of what was asked for, are interrupted,
// are delayed, or fail, as POSIX allows at any call.
#ifndef VP_FAULTS_H
#define VP_FAULTS_H
#include <cerrno>
#include <signal.h>
#include <sys/socket.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#include "vp.h"

namespace vp {
struct Faults {
  std::atomic<bool> on{false};
  std::atomic<unsigned> partial{0}, intr{0}, delay{0};  // chances out of 100
  std::atomic<long> fail_read{-1}, fail_write{-1};       // countdown to an error
  std::atomic<int> err{0};
  std::atomic<u64> seed{1};
  std::atomic<u64> sent{0}, received{0};  // bytes moved over sockets
  std::atomic<u64> n_partial{0}, n_intr{0}, n_calls{0}, n_failed{0};
  static Faults& I() {
    static Faults f;
    return f;
  }
  void Reset(u64 s) {
    on = false;
    partial = intr = delay = 0;
    fail_read = fail_write = -1;
    seed = s;
  }
  // returns -1: fail with errno set, otherwise the number of bytes to ask for
// No ordering: the wrappers must not synchronise threads, or races would go unseen.
  static constexpr auto kRelaxed = std::memory_order_relaxed;
  static void Inc(std::atomic<u64>& a, u64 n = 1) { a.fetch_add(n, kRelaxed); }
    long Plan(std::size_t n, bool write) {
    if (g_raw) return (long)n;
    Inc(n_calls);
    if (!on.load(kRelaxed)) return (long)n;
    Rng r(seed.fetch_add(0x9e37, kRelaxed));
    if (r.Below(100) < delay.load(kRelaxed)) {
      if (r.Chance(1, 2))
        std::this_thread::yield();
      else
        std::this_thread::sleep_for(std::chrono::microseconds(r.Below(200)));
    }
    auto& f = write ? fail_write : fail_read;
    if (f.load(kRelaxed) >= 0 && f.fetch_sub(1, kRelaxed) == 0) {
      f.store(0, kRelaxed);  // stays broken
      Inc(n_failed);
      errno = err.load(kRelaxed);
      return -1;
    }
    if (r.Below(100) < intr.load(kRelaxed)) {
      Inc(n_intr);
      errno = EINTR;
      return -1;
    }
    if (n > 1 && r.Below(100) < partial.load(kRelaxed)) {
      Inc(n_partial);
      return (long)(r.Chance(1, 2) ? 1 + r.Below(n - 1) : 1 + r.Below(n < 16 ? n - 1 : 15));
    }
    return (long)n;
  }
};
}  // namespace vp

extern "C" {
ssize_t __real_read(int, void*, size_t);
ssize_t __real_recv(int, void*, size_t, int);
ssize_t __real_write(int, const void*, size_t);
ssize_t __real_send(int, const void*, size_t, int);
inline ssize_t vp_in(ssize_t k) {
  if (k > 0) vp::Faults::Inc(vp::Faults::I().received, (vp::u64)k);
  return k;
}
inline ssize_t vp_out(ssize_t k) {
  if (k > 0) vp::Faults::Inc(vp::Faults::I().sent, (vp::u64)k);
  return k;
}
inline bool vp_is_socket(int fd) {
  int t;
  socklen_t l = sizeof t;
  return ::getsockopt(fd, SOL_SOCKET, SO_TYPE, &t, &l) == 0;
}
ssize_t __wrap_read(int fd, void* p, size_t n) {
  if (!vp_is_socket(fd)) return __real_read(fd, p, n);
  long k = vp::Faults::I().Plan(n, false);
  return k < 0 ? -1 : vp_in(__real_read(fd, p, (size_t)k));
}
ssize_t __wrap_recv(int fd, void* p, size_t n, int fl) {
  long k = vp::Faults::I().Plan(n, false);
  return k < 0 ? -1 : vp_in(__real_recv(fd, p, (size_t)k, k < (long)n ? fl & ~MSG_WAITALL : fl));
}
ssize_t __wrap_write(int fd, const void* p, size_t n) {
  if (!vp_is_socket(fd)) return __real_write(fd, p, n);
  long k = vp::Faults::I().Plan(n, true);
  return k < 0 ? -1 : vp_out(__real_write(fd, p, (size_t)k));
}
ssize_t __wrap_send(int fd, const void* p, size_t n, int fl) {
  long k = vp::Faults::I().Plan(n, true);
  return k < 0 ? -1 : vp_out(__real_send(fd, p, (size_t)k, fl));
}
}
#endif
