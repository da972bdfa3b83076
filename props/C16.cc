// C16: concurrent processes sharing a keyring lose and corrupt nothing.
#include "keyring_gen.h"
#include "hooks.h"
#include <pthread.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <signal.h>
using namespace pbt;

static Rec numbered(unsigned p, unsigned i, size_t size) {
  Rec r;
  Rng g(p * 1000003ull + i + 1);
  for (int k = 0; k < 16; k++) r.id.push_back((uint8_t)g.next());
  for (size_t k = 0; k < size; k++) r.key.push_back((uint8_t)g.next());
  for (int k = 0; k < 16; k++) r.nonce.push_back((uint8_t)g.next());
  return r;
}
struct Shared {
  volatile int done[8][64];   // 1: import reported success, 2: failed, 3: failed without having waited it out
  volatile int bad;           // a reader saw a wrong or missing key
  volatile int inside, twice; // exclusivity
  volatile int passes;
};
static Shared *shared() {
  Shared *s = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void *)s, 0, sizeof *s);
  return s;
}
static int reap(pid_t pid) {
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  return st;
}

// a lock created but not yet filled in when its owner died is taken over once it is old
static void age(const std::string &lock) {
  timespec t[2] = {{time(nullptr) - 60, 0}, {time(nullptr) - 60, 0}};
  utimensat(AT_FDCWD, lock.c_str(), t, 0);
}

PBT_TEST(imports, {.quick = 240, .thorough = 4000,
  .rule = "2..6 processes import 1..12 keys each, of different sizes, into one keyring, some reading keys back in between, some killed part way; afterwards the file is well formed and holds exactly the keys whose import reported success (plus at most one per killed process); non-trivial: at least two processes had to wait or more than 6 keys", .nondet = true, .case_cpu = 60, .coverage = false, .workers = 2}) {
  std::string dir = fresh_dir(), ring = dir + "/shared.xdm";
  size_t np = 2 + src.pick(5), per = 1 + src.size(11), size = src.size(3000, {0, 16, 4000});
  bool slow = src.chance(1, 2), readers = src.chance(1, 2), stale = src.chance(1, 5);
  size_t killed = src.chance(1, 3) ? 1 + src.pick(2) : 0;
  unsigned delay = (unsigned)src.range(0, 8000);
  src.note("%zu processes, %zu keys of %zu bytes each, %zu killed after %u us", np, per, size, killed, delay);
  Rec first = numbered(99, 0, 40);
  CHECK(import_key(ring, first), "first import failed");
  if (stale) {  // a lock left by a process that is gone
    pid_t pid = fork();
    if (pid == 0) { Exc e; AcquireFileInfo(ring.c_str(), "x", ReadFileMode, e); _exit(0); }
    reap(pid);
  }
  Shared *s = shared();
  std::vector<pid_t> pids;
  for (size_t p = 0; p < np; p++) {
    pid_t pid = fork();
    if (pid == 0) {
      hooks::quick_sleep = true;
      hooks::armed = hooks::slow = slow;
      for (size_t i = 0; i < per; i++) {
        hooks::sleeps = 0;
        bool ok = import_key(ring, numbered(p, i, size + p));
        s->done[p][i] = ok ? 1 : hooks::sleeps >= 9 ? 2 : 3;
        if (readers && (i & 1)) {
          Rec x;
          hooks::sleeps = 0;
          bool got = export_key(ring, first.id, x);
          if (got ? x.key != first.key : hooks::sleeps < 9) s->bad = 1;
        }
      }
      _exit(0);
    }
    pids.push_back(pid);
  }
  if (killed) {
    timespec t{0, delay * 1000L};
    syscall(SYS_nanosleep, &t, nullptr);
    for (size_t i = 0; i < killed; i++) kill(pids[i], SIGKILL);
    src.label("killed");
  }
  std::vector<int> st;
  for (pid_t p : pids) st.push_back(reap(p));
  int done[8][64], bad = s->bad;
  for (size_t p = 0; p < np; p++) for (size_t i = 0; i < per; i++) done[p][i] = s->done[p][i];
  munmap(s, sizeof *s);
  for (size_t p = 0; p < np; p++) {
    if (p < killed && WIFSIGNALED(st[p])) continue;
    CHECK(WIFEXITED(st[p]) && WEXITSTATUS(st[p]) == 0, "a process importing keys ended with status %x", st[p]);
    for (size_t i = 0; i < per; i++) CHECK(done[p][i] == 1 || done[p][i] == 2, "an import failed without waiting for the file");
  }
  CHECK(!bad, "a reader did not get a stored key while others imported");
  std::vector<Rec> disk;
  CHECK(ring_parse(read_file(ring), disk), "the keyring is not well formed afterwards");
  size_t success = 0, waited = 0;
  for (size_t p = 0; p < np; p++)
    for (size_t i = 0; i < per; i++) {
      Rec want = numbered(p, i, size + p);
      size_t n = 0;
      for (auto &d : disk) if (d.id == want.id) { n++; CHECK(d.key == want.key && d.nonce == want.nonce, "a key was torn"); }
      CHECK(n <= 1, "a key is stored twice");
      if (done[p][i] == 1) { CHECK(n == 1, "an import that reported success is not in the keyring"); success++; }
      if (done[p][i] == 2) { CHECK(n == 0, "an import that reported failure is in the keyring"); waited++; }
    }
  Rec x;
  hooks::quick_sleep = true;
  if (killed) age(dir + "/shared.lck");
  CHECK(export_key(ring, first.id, x) && x.key == first.key, "the first key is lost");
  CHECK(import_key(ring, numbered(98, 0, 16)), "the keyring cannot be used afterwards");
  hooks::quick_sleep = false;
  if (success > 6 || waited) src.nontrivial();
}

// a process holding the file until told otherwise
struct Holder {
  pid_t pid;
  int go[2], ack[2];
  Holder(const std::string &path, FileMode mode) {
    if (pipe(go) || pipe(ack)) discard();
    pid = fork();
    if (pid == 0) {
      Exc e;
      FileInfo *f = AcquireFileInfo(path.c_str(), "x", mode, e);
      char c = f ? 'y' : 'n';
      (void)!write(ack[1], &c, 1);
      if (read(go[0], &c, 1) == 1 && c == 'r' && f) { DestroyFileInfo(f, e); (void)!write(ack[1], "d", 1); }
      _exit(0);   // 'x': ends without releasing
    }
    char c = 0;
    (void)!read(ack[0], &c, 1);
    ok = c == 'y';
  }
  bool ok;
  void release() { char c; (void)!write(go[1], "r", 1); (void)!read(ack[0], &c, 1); finish(); }
  void die() { (void)!write(go[1], "x", 1); finish(); }
  void finish() {
    if (!pid) return;
    reap(pid);
    pid = 0;
    for (int fd : {go[0], go[1], ack[0], ack[1]}) close(fd);
  }
  ~Holder() { if (pid) die(); }
};

static void *try_thread(void *p) {
  auto *a = (std::pair<std::string, int> *)p;
  Exc e;
  FileInfo *f = AcquireFileInfo(a->first.c_str(), "x", ReadFileMode, e);
  a->second = f ? 1 : 0;
  if (f) DestroyFileInfo(f, e);
  return nullptr;
}

PBT_TEST(schedule, {.quick = 10000, .thorough = 60000,
  .rule = "scripted schedules: one process (or thread) holds the file; others ask for it and poll; at a chosen poll the holder releases it, dies, is killed, or holds on; asking must fail exactly when it was never given up; lock files left empty or cut by a crash and aged; non-trivial: always", .case_cpu = 60, .coverage = false}) {
  std::string dir = fresh_dir(), path = dir + "/file.xdm";
  bool exists = src.chance(2, 3);
  if (exists) write_file(path, std::string("content"));
  FileMode mine = src.chance(1, 2) ? WriteFileMode : ReadFileMode, theirs = src.chance(1, 2) ? WriteFileMode : ReadFileMode;
  if (!exists) { mine = theirs = WriteFileMode; }
  src.nontrivial();
  hooks::sleeps = 0;
  hooks::quick_sleep = true;
  struct Reset { ~Reset() { hooks::on_sleep = nullptr; hooks::quick_sleep = false; } } reset;
  Exc e;
  switch (src.pick(6)) {
    case 0: case 1: {  // released, or the holder dies, at poll k
      Holder h(path, theirs);
      CHECK(h.ok, "the first process did not get the file");
      unsigned k = (unsigned)src.range(1, 12);
      size_t how = src.pick(3);
      src.note("holder %s at poll %u", how == 0 ? "releases" : how == 1 ? "ends" : "is killed", k);
      hooks::on_sleep = [&](unsigned n) {
        if (n == k) {
          if (how == 0) h.release();
          else if (how == 1) h.die();
          else { kill(h.pid, SIGKILL); h.finish(); }
        }
        return true;
      };
      FileInfo *f = AcquireFileInfo(path.c_str(), "x", mine, e);
      hooks::on_sleep = nullptr;
      if (f) CHECK(!h.pid, "two processes hold the file");
      else CHECK(h.pid || k == hooks::sleeps, "given up at poll %u, but the waiting process did not get it", k);
      if (k <= 5) CHECK(f, "the waiting process gave up after %u polls", hooks::sleeps);
      if (f) DestroyFileInfo(f, e);
      src.label(f ? "got it" : "gave up");
      break;
    }
    case 2: {  // many askers, never given up
      Holder h(path, theirs);
      CHECK(h.ok, "the first process did not get the file");
      hooks::on_sleep = [](unsigned) { return true; };
      size_t n = 1 + src.pick(3);
      for (size_t i = 0; i < n; i++) {
        pid_t pid = fork();
        if (pid == 0) { FileInfo *f = AcquireFileInfo(path.c_str(), "x", mine, e); _exit(f ? 5 : 0); }
        int st = reap(pid);
        CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "a file held by a process was given to another (status %x)", st);
        FileInfo *f = AcquireFileInfo(path.c_str(), "x", mine, e);
        CHECK(!f, "two processes hold the file");
      }
      h.release();
      FileInfo *f = AcquireFileInfo(path.c_str(), "x", mine, e);
      CHECK(f, "released file not given out");
      DestroyFileInfo(f, e);
      src.label("held on");
      break;
    }
    case 3: {  // threads, and the owner asking again
      FileInfo *f = AcquireFileInfo(path.c_str(), "x", mine, e);
      CHECK(f, "free file not given out");
      hooks::on_sleep = [](unsigned) { return true; };
      std::pair<std::string, int> arg(path, -1);
      pthread_t t;
      pthread_create(&t, nullptr, try_thread, &arg);
      pthread_join(t, nullptr);
      CHECK(arg.second == 0, "two threads hold the file");
      size_t deep = src.pick(3);
      std::vector<FileInfo *> again;
      for (size_t i = 0; i < deep; i++) {
        FileInfo *g = AcquireFileInfo(path.c_str(), "x", mine, e);
        CHECK(g, "the owner asking again was refused");
        again.push_back(g);
      }
      while (!again.empty()) { DestroyFileInfo(again.back(), e); again.pop_back(); }
      pthread_create(&t, nullptr, try_thread, &arg);
      pthread_join(t, nullptr);
      CHECK(arg.second == 0, "the file was given up by an inner use of its owner");
      DestroyFileInfo(f, e);
      write_file(path, std::string("x"));
      pthread_create(&t, nullptr, try_thread, &arg);
      pthread_join(t, nullptr);
      CHECK(arg.second == 1, "released file not given to a thread");
      src.label("threads");
      break;
    }
    case 4: {  // a lock file cut short by a crash, old enough or becoming so
      std::string lock = dir + "/file.lck";
      Bytes b(src.pick(16), 0);
      for (size_t i = 0; i < b.size(); i++) b[i] = src.byte();
      if (b.size() >= 8) discard();
      write_file(lock, b);
      unsigned k = (unsigned)src.range(0, 5);
      if (k == 0) age(lock);
      hooks::on_sleep = [&](unsigned n) { if (n == k) age(lock); return true; };
      FileInfo *f = AcquireFileInfo(path.c_str(), "x", mine, e);
      if (!f) f = AcquireFileInfo(path.c_str(), "x", mine, e);
      CHECK(f, "a lock file of %zu bytes left by a crash blocks the file for good", b.size());
      DestroyFileInfo(f, e);
      src.label("cut lock");
      break;
    }
    default: {  // several dead owners in a row
      size_t n = 1 + src.pick(4);
      for (size_t i = 0; i < n; i++) {
        Holder h(path, theirs);
        CHECK(h.ok, "a lock left by a dead process blocks the file");
        h.die();
      }
      FileInfo *f = AcquireFileInfo(path.c_str(), "x", mine, e);
      CHECK(f, "a lock left by a dead process blocks the file");
      DestroyFileInfo(f, e);
      CHECK(!file_exists(dir + "/file.lck"), "a lock was left behind");
      src.label("dead");
    }
  }
}

PBT_TEST(crash_points, {.quick = 12000, .thorough = 150000,
  .rule = "an import is ended before or after, or fails at, any one of the file operations it makes (or all are interrupted once, or a write is short); the keyring stays well formed, keeps every earlier key, holds the new one if success was reported and not if failure was, and can be used afterwards; non-trivial: the chosen operation was reached", .coverage = false}) {
  std::string dir = fresh_dir(), ring = dir + "/r.xdm";
  size_t n = src.size(4);
  std::vector<Rec> recs;
  for (size_t i = 0; i < n; i++) {
    Rec x = numbered(7, i, src.size(300));
    CHECK(import_key(ring, x), "import failed");
    recs.push_back(x);
  }
  Rec add = numbered(8, 0, src.size(6000, {0, 4096}));
  size_t what = src.weighted({4, 4, 4, 2, 2});
  unsigned at = (unsigned)src.range(1, 40);
  bool intr = src.chance(1, 4);
  int err = src.chance(1, 2) ? ENOSPC : EIO;
  Shared *s = shared();
  pid_t pid = fork();
  if (pid == 0) {
    hooks::quick_sleep = true;
    hooks::at = at;
    hooks::eintr = intr;
    hooks::error = err;
    hooks::kinds = what == 2 ? hooks::Write | hooks::Open | hooks::Read : what >= 3 ? hooks::Write | hooks::Read : 127;
    hooks::action = what == 0 ? hooks::DieBefore : what == 1 ? hooks::DieAfter : what == 2 ? hooks::Error : hooks::Short;
    if (what == 4) { hooks::kinds = hooks::Write; hooks::error = ENOSPC; }
    if (what == 3) hooks::error = 0;
    hooks::armed = true;
    bool ok = import_key(ring, add);
    hooks::armed = false;
    s->done[0][0] = ok ? 1 : 2;
    s->passes = hooks::calls >= at;
    _exit(0);
  }
  int st = reap(pid);
  int done = s->done[0][0];
  bool reached = done == 0 || s->passes;
  munmap(s, sizeof *s);
  static const char *names[] = {"ended before", "ended after", "error at", "short", "short, then no space, at"};
  src.note("%zu keys, import of %zu bytes %s operation %u%s: %s", n, add.key.size(), names[what], at, intr ? ", interrupted" : "", done == 1 ? "success" : done == 2 ? "failure" : "dead");
  CHECK(WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 77), "import ended with status %x", st);
  if (reached) { src.nontrivial(); src.label(names[what]); }
  if (what == 3 && done) CHECK(done == 1, "an import failed because of a short read or write");
  if (!reached && done) CHECK(done == 1, "an import failed without cause");
  std::vector<Rec> disk;
  CHECK(ring_parse(read_file(ring), disk), "the keyring is not well formed after an import that %s", done == 2 ? "failed" : done ? "succeeded" : "was cut short");
  size_t has = disk.size() - n;
  CHECK(disk.size() >= n && has <= 1, "%zu records in place of %zu", disk.size(), n);
  for (size_t i = 0; i < n; i++) CHECK(disk[i].id == recs[i].id && disk[i].key == recs[i].key && disk[i].nonce == recs[i].nonce, "an earlier key changed");
  if (has) CHECK(disk[n].id == add.id && disk[n].key == add.key && disk[n].nonce == add.nonce, "the new key is torn");
  if (done == 1) CHECK(has, "reported success but the key is not there");
  if (done == 2) CHECK(!has, "reported failure but the key is there");
  hooks::quick_sleep = true;
  age(dir + "/r.lck");
  Rec next = numbered(9, 0, 20), x;
  CHECK(import_key(ring, next), "the keyring cannot be used afterwards");
  for (auto &o : recs) CHECK(export_key(ring, o.id, x) && x.key == o.key, "an earlier key is lost");
  CHECK(export_key(ring, next.id, x) && x.key == next.key, "a later key is lost");
  hooks::quick_sleep = false;
}

PBT_TEST(interrupted_export, {.quick = 8000, .thorough = 100000,
  .rule = "exporting a key while reads are interrupted, short or fail: the key comes back exactly, or failure is reported; non-trivial: always", .coverage = false}) {
  std::string dir = fresh_dir(), ring = dir + "/r.xdm";
  size_t n = 1 + src.size(4);
  std::vector<Rec> recs;
  for (size_t i = 0; i < n; i++) { recs.push_back(numbered(7, i, src.size(300))); CHECK(import_key(ring, recs[i]), "import failed"); }
  Rec &want = recs[src.pick(n)];
  hooks::calls = 0;
  hooks::at = (unsigned)src.range(1, 50);
  hooks::kinds = hooks::Read;
  size_t what = src.pick(3);
  hooks::eintr = what == 0 || src.chance(1, 3);
  hooks::action = what == 0 ? hooks::None : what == 1 ? hooks::Short : hooks::Error;
  hooks::error = EIO;
  hooks::quick_sleep = true;
  hooks::armed = true;
  Rec x;
  bool ok = export_key(ring, want.id, x);
  hooks::armed = hooks::eintr = hooks::quick_sleep = false;
  bool reached = hooks::calls >= hooks::at;
  src.note("%zu keys, %s at read %u", n, what == 0 ? "interruptions" : what == 1 ? "short read" : "error", hooks::at);
  src.nontrivial();
  if (ok) CHECK(x.key == want.key && x.nonce == want.nonce, "another key was returned");
  if (what != 2 || !reached) CHECK(ok, "a stored key was not returned");
}
