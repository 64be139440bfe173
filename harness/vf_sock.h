// A connection seen from the other end: what the code under test reads is taken from `in`, what it writes is appended
// to `out`. Reads fail or report the end once `in` is used up; writes fail from byte `write_limit` on, and accept at
// most `write_chunk` bytes at a time.
#ifndef VF_SOCK_H_
#define VF_SOCK_H_
#include <cerrno>
#include <cstdint>
#include <cstring>
#include <sys/types.h>
#include "vf.h"
#ifndef VF_SYMBOLIC
#include <sys/syscall.h>
#include <unistd.h>
#define VF_OTHER(call) if (fd != s.fd) return call
#else
#define VF_OTHER(call)
#endif
struct VfSock {
  static constexpr int kMax = 1 << 16;
  const uint8_t* in = nullptr;
  long in_len = 0, in_pos = 0;
  int read_errno = ECONNRESET;
  bool read_error = false;     // at the end of the input: an error instead of the end
  long reads_after_end = 0;
  uint8_t* out = nullptr;
  long out_len = 0, out_cap = 0;
  long write_limit = -1;
  long write_chunk = 1 << 20;
  int eintr = 0;               // the number of calls that are interrupted first
  int fd = -1;                 // the descriptor of the connection
  int open = 0, bad_close = 0;
};
static VfSock vf_sock;
extern "C" ssize_t read(int fd, void* b, size_t n) {
  VfSock& s = vf_sock;
  VF_OTHER(syscall(SYS_read, fd, b, n));
  if (fd != s.fd || !s.open) { errno = EBADF; return -1; }
  if (s.eintr > 0) { s.eintr--; errno = EINTR; return -1; }
  if (s.in_pos >= s.in_len) {
    vf_check(++s.reads_after_end < 64, "the end of the input is noticed");
    if (s.read_error) { errno = s.read_errno; return -1; }
    return 0;
  }
  if (n == 0) return 0;
  *static_cast<uint8_t*>(b) = s.in[s.in_pos++];
  return 1;
}
extern "C" ssize_t write(int fd, const void* b, size_t n) {
  VfSock& s = vf_sock;
  VF_OTHER(syscall(SYS_write, fd, b, n));
  if (fd != s.fd || !s.open) { errno = EBADF; return -1; }
  if (s.eintr > 0) { s.eintr--; errno = EINTR; return -1; }
  if (static_cast<long>(n) > s.write_chunk) n = s.write_chunk;
  long k = 0;
  for (; k < static_cast<long>(n); k++) {
    if (s.write_limit >= 0 && s.out_len >= s.write_limit) break;
    vf_check(s.out_len < s.out_cap, "output fits");
    s.out[s.out_len++] = static_cast<const uint8_t*>(b)[k];
  }
  if (k == 0 && n > 0) { errno = EPIPE; return -1; }
  return k;
}
extern "C" int vf_close_server(int fd);  // closes the listening socket, if fd is that
extern "C" int close(int fd) {
  if (vf_close_server(fd)) return 0;
  VfSock& s = vf_sock;
  if (fd != 6) { VF_OTHER(syscall(SYS_close, fd)); }
  if (fd != s.fd || !s.open) { s.bad_close++; errno = EBADF; return -1; }
  s.open = 0;
  return 0;
}
#endif
