// Stand-ins for system calls the library makes, so that a test can schedule,
// shorten, fail or end a process at any of them.
#pragma once
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/select.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
namespace hooks {
// sleeping
static bool quick_sleep = false;      // sleep a thousandth of the time
static unsigned sleeps = 0;           // calls made
static std::function<bool(unsigned)> on_sleep;  // called with the number of the sleep; true: do not sleep
inline int do_sleep(long long ns) {
  unsigned n = ++sleeps;
  if (on_sleep && on_sleep(n)) return 0;
  if (quick_sleep) ns /= 1000;
  timespec t{(time_t)(ns / 1000000000), (long)(ns % 1000000000)};
  return (int)syscall(SYS_nanosleep, &t, nullptr);
}
// the k-th file operation: dies before or after it, or fails with an error
enum Action { None, DieBefore, DieAfter, Error, Short };
static bool armed = false;
static unsigned calls = 0, at = 0;
static Action action = None;
static int error = 0;
static bool eintr = false;   // every operation is interrupted once first
static size_t most = 0;       // reads and writes move at most this many bytes
static std::function<void(const char *, int)> on_open;  // called with the path before it is opened
static bool slow = false;    // yield before each operation
enum Kind { Open = 1, Read = 2, Write = 4, Close = 8, Remove = 16, Truncate = 32, Rename = 64 };
static unsigned kinds = 127;
static bool flip = false;
inline Action enter(Kind k) {
  if (!armed) return None;
  if (slow) { timespec t{0, 20000}; syscall(SYS_nanosleep, &t, nullptr); }
  if (!(kinds & k)) return None;
  if (++calls != at) return None;
  if (action == DieBefore) syscall(SYS_exit_group, 77);
  return action;
}
inline void leave(Action a) {
  if (a == DieAfter) syscall(SYS_exit_group, 77);
}
inline bool interrupted() {
  if (!armed || !eintr) return false;
  flip = !flip;
  if (flip) errno = EINTR;
  return flip;
}
}  // namespace hooks
extern "C" {
int nanosleep(const timespec *t, timespec *) { return hooks::do_sleep(t->tv_sec * 1000000000LL + t->tv_nsec); }
int usleep(useconds_t us) { return hooks::do_sleep(us * 1000LL); }
#define HOOK(kind, call)                                                       \
  hooks::Action a = hooks::enter(hooks::kind);                                 \
  if (a == hooks::Error) { errno = hooks::error; return -1; }                  \
  auto r = call;                                                               \
  int e = errno;                                                               \
  hooks::leave(a);                                                             \
  errno = e;                                                                   \
  return r;
int open(const char *p, int f, ...) {
  mode_t m = 0;
  if (f & O_CREAT) { va_list v; va_start(v, f); m = va_arg(v, mode_t); va_end(v); }
  if (hooks::on_open) hooks::on_open(p, f);
  HOOK(Open, (int)syscall(SYS_openat, AT_FDCWD, p, f, m))
}
int close(int fd) { HOOK(Close, (int)syscall(SYS_close, fd)) }
int remove(const char *p) { HOOK(Remove, (int)syscall(SYS_unlinkat, AT_FDCWD, p, 0)) }
int unlink(const char *p) { HOOK(Remove, (int)syscall(SYS_unlinkat, AT_FDCWD, p, 0)) }
int rename(const char *p, const char *q) { HOOK(Rename, (int)syscall(SYS_rename, p, q)) }
int ftruncate(int fd, off_t n) { HOOK(Truncate, (int)syscall(SYS_ftruncate, fd, n)) }
ssize_t write(int fd, const void *p, size_t n) {
  if (hooks::interrupted()) return -1;
  hooks::Action a = hooks::enter(hooks::Write);
  if (a == hooks::Error) { errno = hooks::error; return -1; }
  if (a == hooks::Short && n > 1) { n /= 2; hooks::at++; hooks::action = hooks::error ? hooks::Error : hooks::None; }
  if (hooks::armed && hooks::most) n = std::min(n, hooks::most);
  ssize_t r = syscall(SYS_write, fd, p, n);
  int e = errno;
  hooks::leave(a);
  errno = e;
  return r;
}
ssize_t read(int fd, void *p, size_t n) {
  if (hooks::interrupted()) return -1;
  hooks::Action a = hooks::enter(hooks::Read);
  if (a == hooks::Error) { errno = hooks::error; return -1; }
  if (a == hooks::Short && n > 1) n /= 2;
  if (hooks::armed && hooks::most) n = std::min(n, hooks::most);
  ssize_t r = syscall(SYS_read, fd, p, n);
  int e = errno;
  hooks::leave(a);
  errno = e;
  return r;
}
}
