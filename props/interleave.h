// A scheduler that decides every interleaving: of the threads of a test only
// one runs at a time, and it gives way only where a generated plan says so - at
// any memory access of the library (the library is compiled to report them) and
// at any lock.  Mutexes are the scheduler's own while a test is scheduled, so a
// deadlock is seen as such and a schedule can be replayed exactly.
#pragma once
#include <atomic>
#include <errno.h>
#include <functional>
#include <linux/futex.h>
#include <map>
#include <poll.h>
#include <pthread.h>
#include <string.h>
#include <sys/file.h>
#include <sys/select.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <vector>
#include <dlfcn.h>
namespace sched {
struct Thread {
  std::atomic<int> go{0};
  bool done = false;
  const void *waits = nullptr;
  uint64_t asleep = 0;
  std::function<void()> run;
  pthread_t id;
};
struct Switch { uint32_t after; uint8_t to; };
static std::vector<Thread *> threads;
static thread_local Thread *self = nullptr;
static std::vector<Switch> plan;
static size_t planned = 0;
static uint64_t countdown = 0, now = 0, switches = 0;
static uint64_t limit = 0;
static bool active = false, stuck = false, endless = false;
static std::map<const void *, Thread *> owner;
static std::atomic<int> finished{0};
inline void wait(std::atomic<int> &a) {
  while (!a.load(std::memory_order_acquire)) syscall(SYS_futex, (int *)&a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  a.store(0, std::memory_order_release);
}
inline void wake(std::atomic<int> &a) {
  a.store(1, std::memory_order_release);
  syscall(SYS_futex, (int *)&a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
inline Thread *pick(size_t to) {  // the to-th of the others that can run
  Thread *ready[16];
  size_t n = 0;
  for (auto *t : threads) if (!t->done && !t->waits && !t->asleep && t != self) ready[n++] = t;
  return n ? ready[to % n] : nullptr;
}
inline Thread *awaken() {  // time passes only when no thread can run: then the first that fell asleep wakes up
  Thread *first = nullptr;
  for (auto *t : threads) if (!t->done && t->asleep && (!first || t->asleep < first->asleep)) first = t;
  if (first) first->asleep = 0;
  return first;
}
inline void give(Thread *t) {
  if (t == self) return;
  switches++;
  wake(t->go);
  wait(self->go);
}
inline void next_plan() {
  countdown = planned < plan.size() ? (uint64_t)plan[planned].after + 1 : ~(uint64_t)0;
}
inline void point() {
  if (!self) return;
  now++;
  if (now > limit) { endless = true; wake(finished); for (;;) pause(); }
  if (--countdown) return;
  size_t to = plan[planned++].to;
  next_plan();
  Thread *t = pick(to);
  if (t) give(t);
}
inline void dead() { stuck = true; wake(finished); for (;;) pause(); }
inline int lock(const void *m) {
  point();
  while (owner[m]) {
    self->waits = m;
    Thread *t = pick(0);
    if (!t) t = awaken();
    if (!t) dead();
    switches++;
    wake(t->go);
    wait(self->go);
    self->waits = nullptr;
  }
  owner[m] = self;
  return 0;
}
inline int unlock(const void *m) {
  owner[m] = nullptr;
  for (auto *t : threads) if (t->waits == m) t->waits = nullptr;
  point();
  return 0;
}
inline void *body(void *p) {
  Thread *t = (Thread *)p;
  wait(t->go);
  self = t;
  t->run();
  self = nullptr;
  t->done = true;
  Thread *n = nullptr;
  bool left = false;
  for (auto *x : threads) if (!x->done) { left = true; if (!x->waits && !x->asleep && !n) n = x; }
  if (!n) n = awaken();
  if (n) wake(n->go);
  else { if (left) stuck = true; wake(finished); }
  return nullptr;
}
// A thread that sleeps or waits for a file lets the others run first.
inline void rest() {
  static uint64_t turn = 0;
  if (++now > limit) { endless = true; wake(finished); for (;;) pause(); }
  self->asleep = ++turn;
  Thread *t = pick(0);
  if (!t) t = awaken();
  if (t != self) give(t);
}
// Runs the programs as the plan says; returns why they did not all end, or nullptr.
inline const char *run(std::vector<std::function<void()>> programs, std::vector<Switch> p, uint64_t most = 20000000) {
  plan = std::move(p);
  planned = 0;
  now = switches = 0;
  limit = most;
  stuck = endless = false;
  owner.clear();
  finished = 0;
  threads.clear();
  next_plan();
  pthread_attr_t attr;
  pthread_attr_init(&attr);
  pthread_attr_setstacksize(&attr, 1 << 20);
  for (auto &f : programs) { auto *t = new Thread; t->run = f; threads.push_back(t); }
  for (auto *t : threads) pthread_create(&t->id, &attr, body, t);
  pthread_attr_destroy(&attr);
  active = true;
  wake(threads[0]->go);
  wait(finished);
  active = false;
  if (stuck || endless) { for (auto *t : threads) pthread_detach(t->id); return stuck ? "deadlock" : "no end"; }
  for (auto *t : threads) { pthread_join(t->id, nullptr); delete t; }
  threads.clear();
  return nullptr;
}
}  // namespace sched
extern "C" {
int pthread_mutex_lock(pthread_mutex_t *m) {
  static int (*real)(pthread_mutex_t *) = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_lock");
  return sched::self ? sched::lock(m) : real(m);
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
  static int (*real)(pthread_mutex_t *) = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_trylock");
  if (!sched::self) return real(m);
  sched::point();
  if (sched::owner[m]) return EBUSY;
  sched::owner[m] = sched::self;
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
  static int (*real)(pthread_mutex_t *) = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
  return sched::self ? sched::unlock(m) : real(m);
}
int pthread_mutex_destroy(pthread_mutex_t *m) {
  static int (*real)(pthread_mutex_t *) = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_destroy");
  if (sched::self) { sched::owner.erase(m); return 0; }
  return real(m);
}
int nanosleep(const struct timespec *a, struct timespec *b) {
  static int (*real)(const struct timespec *, struct timespec *) = (int (*)(const struct timespec *, struct timespec *))dlsym(RTLD_NEXT, "nanosleep");
  return sched::self ? sched::rest(), 0 : real(a, b);
}
int usleep(useconds_t n) {
  static int (*real)(useconds_t) = (int (*)(useconds_t))dlsym(RTLD_NEXT, "usleep");
  return sched::self ? sched::rest(), 0 : real(n);
}
int poll(struct pollfd *p, nfds_t n, int ms) {
  static int (*real)(struct pollfd *, nfds_t, int) = (int (*)(struct pollfd *, nfds_t, int))dlsym(RTLD_NEXT, "poll");
  return sched::self && !n ? sched::rest(), 0 : real(p, n, ms);
}
int select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t) {
  static int (*real)(int, fd_set *, fd_set *, fd_set *, struct timeval *) = (int (*)(int, fd_set *, fd_set *, fd_set *, struct timeval *))dlsym(RTLD_NEXT, "select");
  return sched::self && !n ? sched::rest(), 0 : real(n, r, w, e, t);
}
int flock(int fd, int how) {
  static int (*real)(int, int) = (int (*)(int, int))dlsym(RTLD_NEXT, "flock");
  if (!sched::self || (how & LOCK_NB)) return real(fd, how);
  int r;
  while ((r = real(fd, how | LOCK_NB)) != 0 && errno == EWOULDBLOCK) sched::rest();
  return r;
}
#define SCHED_ACCESS(n) void __sanitizer_cov_load##n(void *) { sched::point(); } void __sanitizer_cov_store##n(void *) { sched::point(); }
SCHED_ACCESS(1) SCHED_ACCESS(2) SCHED_ACCESS(4) SCHED_ACCESS(8) SCHED_ACCESS(16)
}
