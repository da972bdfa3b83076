#include "pbt.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <unordered_set>

extern char **environ;

namespace pbt {

static const size_t kRecCap = 1 << 20;
static const int kMaxWorkers = 32;

struct Shm {
  volatile uint64_t cases;       // finished cases of this worker
  volatile uint64_t discarded;
  volatile uint64_t progress;    // bumped at each start
  volatile uint32_t state;       // 0 running, 1 done, 2 failed
  volatile uint32_t reclen;
  volatile uint64_t cseed;       // seed of the current case
  char msg[4096];
  char note[16384];
  volatile uint32_t notelen;
  uint8_t rec[kRecCap];
};

static Shm *g_shm = nullptr;     // the current worker's
static bool g_verbose = false;
static bool g_thorough = false;
static std::string g_scratch_root, g_scratch;
static std::atomic<uint64_t> g_entropy{1};
static bool g_real_entropy = false, g_fail_entropy = false;
static std::string g_repo = "/repo", g_bin;
static pid_t g_main_pid = 0;

static double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

// ---------------------------------------------------------------- coverage
static uint8_t *cov_begin[64], *cov_end[64];
static int cov_n = 0;
static std::vector<uint8_t> cov_seen;
static size_t cov_edges = 0;
extern "C" void __sanitizer_cov_8bit_counters_init(uint8_t *b, uint8_t *e) {
  if (cov_n < 64 && b != e) {
    cov_begin[cov_n] = b;
    cov_end[cov_n++] = e;
  }
}
extern "C" void __sanitizer_cov_pcs_init(const uintptr_t *, const uintptr_t *) {}
static uint8_t bucket(uint8_t c) {
  if (c <= 3) return c ? 1 << (c - 1) : 0;
  if (c < 8) return 8;
  if (c < 16) return 16;
  if (c < 32) return 32;
  if (c < 128) return 64;
  return 128;
}
static void cov_reset() {
  for (int i = 0; i < cov_n; i++) memset(cov_begin[i], 0, cov_end[i] - cov_begin[i]);
}
static bool cov_collect() {
  bool fresh = false;
  size_t off = 0;
  for (int i = 0; i < cov_n; i++) {
    size_t n = cov_end[i] - cov_begin[i];
    if (cov_seen.size() < off + n) cov_seen.resize(off + n);
    uint8_t *p = cov_begin[i];
    size_t k = 0;
    for (; k < n; k++) {
      if ((k & 7) == 0 && k + 8 <= n) {
        uint64_t v;
        memcpy(&v, p + k, 8);
        if (!v) { k += 7; continue; }
      }
      uint8_t b = bucket(p[k]);
      if (b & ~cov_seen[off + k]) {
        if (!cov_seen[off + k]) cov_edges++;
        cov_seen[off + k] |= b;
        fresh = true;
      }
    }
    off += n;
  }
  return fresh;
}

// ---------------------------------------------------------------- entropy
extern "C" int getentropy(void *buf, size_t n) {
  if (n > 256) { errno = EIO; return -1; }
  if (g_fail_entropy) { errno = ENOSYS; return -1; }
  if (g_real_entropy) return syscall(SYS_getrandom, buf, n, 0) == (long)n ? 0 : -1;
  uint64_t ticket = g_entropy.fetch_add(0x9e3779b97f4a7c15ULL);
  Rng r(ticket);
  uint8_t *p = (uint8_t *)buf;
  for (size_t i = 0; i < n; i++) p[i] = (uint8_t)(r.next() >> 24);
  return 0;
}
void real_entropy(bool on) { g_real_entropy = on; }
void fail_entropy(bool on) { g_fail_entropy = on; }

// ---------------------------------------------------------------- Src
Src::Src(const Bytes &prefix, bool replay, uint64_t seed)
    : in_(prefix), replay_(replay), seed_(seed), rng_(seed) {}

uint64_t Src::raw(int n) {
  uint64_t v = 0;
  for (int i = 0; i < n; i++) {
    uint8_t b;
    if (pos_ < in_.size()) b = in_[pos_];
    else b = replay_ ? 0 : (uint8_t)(rng_.next() >> 32);
    if (g_shm && pos_ < kRecCap) {
      g_shm->rec[pos_] = b;
      g_shm->reclen = pos_ + 1;
    }
    pos_++;
    v |= (uint64_t)b << (8 * i);
  }
  return v;
}
uint64_t Src::range(uint64_t lo, uint64_t hi) {
  if (hi <= lo) return lo;
  uint64_t span = hi - lo;
  int n = span < 0x100 ? 1 : span < 0x10000 ? 2 : span < 0x100000000ULL ? 4 : 8;
  // one more byte than needed keeps the bias small for small ranges
  if (n == 1 && span > 15) n = 2;
  uint64_t v = raw(n);
  if (span == UINT64_MAX) return v;
  return lo + v % (span + 1);
}
bool Src::chance(unsigned num, unsigned den) { return range(0, den - 1) >= den - num; }
size_t Src::weighted(std::initializer_list<unsigned> w) {
  unsigned total = 0;
  for (unsigned x : w) total += x;
  unsigned v = (unsigned)range(0, total - 1);
  size_t i = 0;
  for (unsigned x : w) {
    if (v < x) return i;
    v -= x;
    i++;
  }
  return 0;
}
size_t Src::size(size_t max, std::initializer_list<size_t> edges) {
  unsigned k = (unsigned)range(0, 9);
  if (k < 3) return (size_t)range(0, std::min<size_t>(max, 16));
  if (k < 5) return (size_t)range(0, std::min<size_t>(max, 255));
  if (k < 8 && edges.size()) {
    size_t i = pick(edges.size());
    size_t e = *(edges.begin() + i);
    size_t mult = range(0, 3) == 0 ? (size_t)range(1, 4) : 1;
    size_t delta = (size_t)range(0, 4);  // 0,+1,-1,+2,-2
    static const int d[5] = {0, 1, -1, 2, -2};
    long v = (long)(e * mult) + d[delta];
    if (v < 0) v = 0;
    return std::min<size_t>((size_t)v, max);
  }
  return (size_t)range(0, max);
}
Bytes Src::bytes(size_t n) {
  Bytes b(n);
  for (auto &x : b) x = byte();
  return b;
}
Bytes Src::blob(size_t n) {
  if (n <= 16) return bytes(n);
  Bytes b(n);
  unsigned kind = (unsigned)range(0, 5);
  uint64_t seed = raw(4);
  Rng r(seed * 2654435761u + kind);
  switch (kind) {
    case 0: {  // constant
      std::fill(b.begin(), b.end(), (uint8_t)seed);
      break;
    }
    case 1:  // random
    case 5:
      for (auto &x : b) x = (uint8_t)(r.next() >> 24);
      break;
    case 2: {  // text
      static const char w[] = "the quick brown fox jumps over the lazy dog\n<&>\"'\t0123456789";
      for (auto &x : b) x = (uint8_t)w[r.below(sizeof(w) - 1)];
      break;
    }
    case 3: {  // short period
      size_t period = 1 + r.below(40);
      for (size_t i = 0; i < n; i++)
        b[i] = i < period ? (uint8_t)(r.next() >> 24) : b[i - period];
      break;
    }
    default: {  // runs
      size_t i = 0;
      while (i < n) {
        size_t len = 1 + r.below(200);
        uint8_t v = (uint8_t)(r.next() >> 24);
        while (len-- && i < n) b[i++] = v;
      }
    }
  }
  return b;
}
Bytes Src::data(size_t max, std::initializer_list<size_t> edges) {
  size_t n = size(max, edges);
  return blob(n);
}
std::string Src::text(size_t n, const char *alphabet) {
  size_t m = strlen(alphabet);
  std::string s;
  for (size_t i = 0; i < n; i++) s += alphabet[pick(m)];
  return s;
}
std::string Src::cstr(size_t maxlen) {
  size_t n = size(maxlen);
  std::string s;
  for (size_t i = 0; i < n; i++) {
    uint8_t c = byte();
    if (c < 0x60) c = (uint8_t)(0x61 + c % 26);
    else if (c < 0xb0) c = (uint8_t)(0x20 + c % 95);
    else if (c == 0) c = 1;
    s += (char)c;
  }
  return s;
}
bool Src::verbose() const { return g_verbose; }
void Src::note(const char *f, ...) {
  if (!g_shm) return;
  size_t used = g_shm->notelen;
  if (used + 2 >= sizeof g_shm->note) return;
  va_list ap;
  va_start(ap, f);
  int k = vsnprintf(g_shm->note + used, sizeof g_shm->note - used - 2, f, ap);
  va_end(ap);
  if (k < 0) return;
  size_t room = sizeof g_shm->note - used - 2;
  used += (size_t)k < room ? (size_t)k : room - 1;
  g_shm->note[used++] = ';';
  g_shm->note[used] = 0;
  g_shm->notelen = (uint32_t)used;
}

// text of a listed finding (PBT_KNOWN holds "key text" lines), empty when not listed
static std::string known_text(const std::string &key) {
  const char *k = getenv("PBT_KNOWN");
  std::string all = std::string("\n") + (k ? k : "") + "\n", want = "\n" + key + " ";
  size_t p = all.find(want);
  if (p == all.npos) return "";
  p += want.size();
  return all.substr(p, all.find('\n', p) - p);
}
void known(Src &src, const char *key, const std::string &msg) {
  if (known_text(key).empty()) fail("known", 0, "%s", msg.c_str());
  src.label(std::string("known:") + key);
}

void fail(const char *file, int line, const char *f, ...) {
  char b[3000];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  const char *base = strrchr(file, '/');
  throw Fail{fmt("%s:%d: %s", base ? base + 1 : file, line, b)};
}

std::string fmt(const char *f, ...) {
  va_list ap;
  va_start(ap, f);
  char *p = nullptr;
  int k = vasprintf(&p, f, ap);
  va_end(ap);
  std::string s(k >= 0 ? p : "");
  free(p);
  return s;
}
std::string hex(const void *p, size_t n, size_t max) {
  std::string s;
  const uint8_t *b = (const uint8_t *)p;
  for (size_t i = 0; i < n && i < max; i++) {
    static const char d[] = "0123456789abcdef";
    s += d[b[i] >> 4];
    s += d[b[i] & 15];
  }
  if (n > max) s += fmt("..(%zu bytes)", n);
  return s;
}
std::string quote(const std::string &s, size_t max) {
  std::string r = "\"";
  for (size_t i = 0; i < s.size() && i < max; i++) {
    unsigned char c = s[i];
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c >= 32 && c < 127) r += (char)c;
    else r += fmt("\\x%02x", c);
  }
  if (s.size() > max) r += fmt("..(%zu)", s.size());
  return r + "\"";
}

// ---------------------------------------------------------------- files
static void rm_tree(const std::string &path) {  // only below the scratch root
  if (g_scratch_root.empty() || path.compare(0, g_scratch_root.size(), g_scratch_root) != 0) return;
  struct stat st;
  if (lstat(path.c_str(), &st) != 0) return;
  if (S_ISDIR(st.st_mode)) {
    DIR *d = opendir(path.c_str());
    if (d) {
      std::vector<std::string> names;
      while (dirent *e = readdir(d))
        if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) names.push_back(e->d_name);
      closedir(d);
      for (auto &n : names) rm_tree(path + "/" + n);
    }
    rmdir(path.c_str());
  } else
    unlink(path.c_str());
}
void empty_dir(const std::string &path) {
  rm_tree(path);
  mkdir(path.c_str(), 0700);
}
const std::string &scratch() { return g_scratch; }
std::string fresh_dir(const char *name) {
  std::string d = g_scratch + "/" + name;
  empty_dir(d);
  return d;
}
bool thorough() { return g_thorough; }
Bytes read_file(const std::string &path, bool *ok) {
  Bytes b;
  FILE *f = fopen(path.c_str(), "rb");
  if (ok) *ok = f != nullptr;
  if (!f) return b;
  uint8_t buf[65536];
  size_t k;
  while ((k = fread(buf, 1, sizeof buf, f)) > 0) b.insert(b.end(), buf, buf + k);
  fclose(f);
  return b;
}
void write_file(const std::string &path, const void *p, size_t n) {
  FILE *f = fopen(path.c_str(), "wb");
  if (!f || fwrite(p, 1, n, f) != n || fclose(f) != 0) {
    fprintf(stderr, "pbt: cannot write %s: %s\n", path.c_str(), strerror(errno));
    _exit(77);  // environment trouble, not a verdict
  }
}
bool file_exists(const std::string &path) {
  struct stat st;
  return lstat(path.c_str(), &st) == 0;
}

// ---------------------------------------------------------------- processes
bool RunResult::crashed() const {
  return sig != 0 || err.find("ERROR: AddressSanitizer") != std::string::npos ||
         err.find("Assertion `") != std::string::npos ||
         err.find("runtime error:") != std::string::npos;
}
std::string RunResult::brief() const {
  std::string e = err;
  size_t a = e.find("ERROR: AddressSanitizer");
  if (a != std::string::npos) e = e.substr(a);
  return fmt("exit=%d signal=%d%s stderr=%s", code, sig, timeout ? " TIMEOUT" : "", quote(e, 500).c_str());
}
std::string repo() { return g_repo; }
std::string bin(const char *u) { return g_bin + "/" + u; }

RunResult run(const std::vector<std::string> &argv, const RunOptions &o) {
  RunResult r;
  int pi[2], po[2], pe[2];
  if (pipe2(pi, O_CLOEXEC) || pipe2(po, O_CLOEXEC) || pipe2(pe, O_CLOEXEC)) _exit(77);
  uint64_t entropy = g_entropy.fetch_add(0x9e3779b97f4a7c15ULL);
  pid_t pid = fork();
  if (pid < 0) _exit(77);
  if (pid == 0) {
    setpgid(0, 0);
    dup2(pi[0], 0);
    if (!o.stdout_path.empty()) {
      int fd = open(o.stdout_path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
      dup2(fd, 1);
    } else
      dup2(po[1], 1);
    dup2(pe[1], 2);
    for (int fd = 3; fd < 256; fd++) close(fd);
    if (!o.cwd.empty() && chdir(o.cwd.c_str()) != 0) _exit(77);
    rlimit rl;
    rl.rlim_cur = (rlim_t)o.cpu;
    rl.rlim_max = (rlim_t)o.cpu + 2;
    setrlimit(RLIMIT_CPU, &rl);
    rl.rlim_cur = rl.rlim_max = 0;
    setrlimit(RLIMIT_CORE, &rl);
    if (o.fsize >= 0) {
      signal(SIGXFSZ, SIG_IGN);
      rl.rlim_cur = rl.rlim_max = (rlim_t)o.fsize;
      setrlimit(RLIMIT_FSIZE, &rl);
    } else
      signal(SIGXFSZ, SIG_DFL);
    for (int s : {SIGINT, SIGTERM, SIGPIPE, SIGHUP, SIGALRM, SIGCHLD}) signal(s, SIG_DFL);
    std::vector<std::string> env = {
        "PATH=/usr/bin:/bin", "HOME=" + o.cwd, "WIZARD_HOME=" + o.cwd, "TZ=UTC", "LC_ALL=C",
        "WIZARD_CONFIGURE_PATH=" + g_repo + "/config",
        "ASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=1024:symbolize=0:"
        "handle_abort=0:exitcode=99:detect_stack_use_after_return=0:max_malloc_fill_size=65536",
        fmt("PBT_ENTROPY=%s", g_real_entropy ? "real" : std::to_string(entropy).c_str())};
    for (auto &e : o.env) {
      size_t eq = e.find('=');
      bool done = false;
      for (auto &x : env)
        if (x.compare(0, eq + 1, e, 0, eq + 1) == 0) { x = e; done = true; }
      if (!done) env.push_back(e);
    }
    std::vector<char *> a, v;
    for (auto &s : argv) a.push_back((char *)s.c_str());
    a.push_back(nullptr);
    for (auto &s : env) v.push_back((char *)s.c_str());
    v.push_back(nullptr);
    execve(a[0], a.data(), v.data());
    _exit(126);
  }
  close(pi[0]);
  close(po[1]);
  close(pe[1]);
  signal(SIGPIPE, SIG_IGN);
  size_t inpos = 0;
  if (o.in.empty()) { close(pi[1]); pi[1] = -1; }
  else fcntl(pi[1], F_SETFL, O_NONBLOCK);
  double end = now() + o.wall;
  bool oo = true, ee = true;
  while (oo || ee) {
    pollfd pf[3] = {{oo ? po[0] : -1, POLLIN, 0}, {ee ? pe[0] : -1, POLLIN, 0}, {pi[1], POLLOUT, 0}};
    int ms = (int)((end - now()) * 1000);
    if (ms <= 0) { r.timeout = true; break; }
    int k = poll(pf, 3, std::min(ms, 1000));
    if (k < 0 && errno != EINTR) break;
    char buf[65536];
    if (oo && (pf[0].revents & (POLLIN | POLLHUP))) {
      ssize_t c = read(po[0], buf, sizeof buf);
      if (c <= 0) oo = false;
      else if (r.out.size() < (8u << 20)) r.out.append(buf, c);
    }
    if (ee && (pf[1].revents & (POLLIN | POLLHUP))) {
      ssize_t c = read(pe[0], buf, sizeof buf);
      if (c <= 0) ee = false;
      else if (r.err.size() < (1u << 20)) r.err.append(buf, c);
    }
    if (pi[1] >= 0 && (pf[2].revents & (POLLOUT | POLLERR | POLLHUP))) {
      ssize_t c = write(pi[1], o.in.data() + inpos, o.in.size() - inpos);
      if (c > 0) inpos += c;
      if ((c < 0 && errno != EAGAIN) || inpos >= o.in.size()) { close(pi[1]); pi[1] = -1; }
    }
  }
  if (pi[1] >= 0) close(pi[1]);
  close(po[0]);
  close(pe[0]);
  int st = 0;
  if (r.timeout) kill(-pid, SIGKILL);
  else {
    while (waitpid(pid, &st, WNOHANG) == 0) {
      if (now() > end) { r.timeout = true; kill(-pid, SIGKILL); break; }
      usleep(200);
    }
  }
  if (r.timeout) waitpid(pid, &st, 0);
  if (WIFSIGNALED(st)) {
    r.sig = WTERMSIG(st);
    if (r.sig == SIGXCPU || r.sig == SIGKILL) r.timeout = true;
  } else
    r.code = WEXITSTATUS(st);
  if (r.code == 77 && r.err.empty()) _exit(77);
  return r;
}

// ---------------------------------------------------------------- registry
struct Test {
  std::string name;
  TestFn fn;
  Options o;
};
static std::vector<Test> &tests() {
  static std::vector<Test> t;
  return t;
}
Registrar::Registrar(const char *name, TestFn fn, Options o) { tests().push_back({name, fn, o}); }

static uint64_t hash_str(const std::string &s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
  return h;
}
static uint64_t hash_bytes(const uint8_t *p, size_t n) {
  uint64_t h = 0x9ae16a3b2f90404fULL ^ n;
  size_t i = 0;
  for (; i + 8 <= n; i += 8) {
    uint64_t v;
    memcpy(&v, p + i, 8);
    h = (h ^ v) * 0x9ddfea08eb382d69ULL;
    h ^= h >> 29;
  }
  for (; i < n; i++) h = (h ^ p[i]) * 1099511628211ULL;
  return Rng(h).next();
}

// run one case in this process; returns 0 ok, 1 fail (msg in shm), 2 discard
static int run_case(const Test &t, const Bytes &in, bool replay, uint64_t seed, Src **out = nullptr) {
  g_shm->reclen = 0;
  g_shm->notelen = 0;
  g_shm->note[0] = 0;
  g_shm->msg[0] = 0;
  g_shm->cseed = seed;
  g_entropy = seed | 1;
  g_real_entropy = g_fail_entropy = false;
  Src *s = new Src(in, replay, seed);
  int rc = 0;
  try {
    t.fn(*s);
  } catch (Fail &f) {
    snprintf(g_shm->msg, sizeof g_shm->msg, "%s", f.msg.c_str());
    rc = 1;
  } catch (Discard &) {
    rc = 2;
  } catch (std::exception &e) {
    snprintf(g_shm->msg, sizeof g_shm->msg, "harness exception: %s", e.what());
    rc = 1;
  }
  if (out) *out = s;
  else delete s;
  return rc;
}

static void worker_env(int w) {
  g_scratch = g_scratch_root + "/" + fmt("w%d", w);
  empty_dir(g_scratch);
  std::string home = g_scratch + "/home";
  mkdir(home.c_str(), 0700);
  setenv("HOME", home.c_str(), 1);
  setenv("WIZARD_HOME", home.c_str(), 1);
  setenv("WIZARD_CONFIGURE_PATH", (g_repo + "/config").c_str(), 1);
  setenv("TZ", "UTC", 1);
  unsetenv("XDG_CONFIG_HOME");
  unsetenv("WIZARD_DEBUG");
  if (chdir(g_scratch.c_str())) _exit(77);
  rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
}

struct Stats {
  uint64_t evals = 0, discarded = 0, edges = 0, corpus = 0;
  std::unordered_set<uint64_t> distinct;
  std::map<std::string, uint64_t> labels;
  std::vector<std::string> samples;
};

static void mutate(Bytes &b, Rng &r, const std::vector<Bytes> &corpus) {
  int rounds = 1 + (int)r.below(4);
  while (rounds--) {
    if (b.empty()) b.push_back((uint8_t)r.next());
    size_t i = r.below(b.size());
    switch (r.below(9)) {
      case 0: b[i] ^= (uint8_t)(1u << r.below(8)); break;
      case 1: b[i] = (uint8_t)(r.next() >> 20); break;
      case 2: b[i] = (uint8_t)(b[i] + (int)r.below(9) - 4); break;
      case 3: {
        size_t n = 1 + r.below(8);
        Bytes x(n);
        for (auto &c : x) c = (uint8_t)(r.next() >> 20);
        b.insert(b.begin() + i, x.begin(), x.end());
        break;
      }
      case 4: {
        size_t n = std::min<size_t>(1 + r.below(8), b.size() - i);
        b.erase(b.begin() + i, b.begin() + i + n);
        break;
      }
      case 5: b.resize(i); break;  // rest is regenerated
      case 6: {
        const Bytes &o = corpus[r.below(corpus.size())];
        if (o.empty()) break;
        size_t j = r.below(o.size());
        b.resize(i);
        b.insert(b.end(), o.begin() + j, o.end());
        break;
      }
      case 7: {  // duplicate a block
        size_t n = std::min<size_t>(1 + r.below(32), b.size() - i);
        Bytes x(b.begin() + i, b.begin() + i + n);
        b.insert(b.begin() + i, x.begin(), x.end());
        break;
      }
      default: b[i] = (uint8_t)(r.below(2) ? 0 : 255);
    }
    if (b.size() > 60000) b.resize(60000);
  }
}

[[noreturn]] static void worker(const Test &t, int w, int W, uint64_t N, uint64_t seed, double deadline, int fd) {
  worker_env(w);
  if (t.o.setup && pbt_worker_setup) pbt_worker_setup();
  Stats st;
  Rng rng(seed ^ hash_str(t.name) ^ (0x1234567ULL * (w + 1)));
  std::vector<Bytes> corpus;
  for (uint64_t i = w; i < N; i += W) {
    if (now() > deadline) break;
    Bytes prefix;
    uint64_t cs = rng.next();
    if (t.o.coverage && !corpus.empty() && rng.below(2)) {
      prefix = corpus[rng.below(corpus.size())];
      mutate(prefix, rng, corpus);
    }
    if (t.o.enumerate) {
      if (prefix.empty()) prefix.resize(1);
      prefix[0] = (uint8_t)i;
    }
    g_shm->progress = g_shm->progress + 1;
    if (t.o.coverage) cov_reset();
    Src *s = nullptr;
    int rc = run_case(t, prefix, false, cs, &s);
    if (rc == 1) {
      g_shm->state = 2;
      _exit(3);
    }
    if (t.o.coverage && cov_collect() && g_shm->reclen < 60000 && corpus.size() < 4000)
      corpus.push_back(Bytes(g_shm->rec, g_shm->rec + g_shm->reclen));
    st.evals++;
    g_shm->cases = st.evals;
    if (rc == 2) st.discarded++;
    else if (s->nontrivial_) {
      st.distinct.insert(hash_bytes(g_shm->rec, g_shm->reclen));
      if (g_shm->notelen && (st.samples.size() < 2 || (st.samples.size() < 5 && rng.below(N / W + 1) < 4)))
        st.samples.push_back(std::string(g_shm->note, std::min<size_t>(g_shm->notelen, 600)));
    }
    for (auto &l : s->labels_) st.labels[l]++;
    delete s;
  }
  // report
  std::string out;
  out += fmt("E %llu %llu %zu %zu\n", (unsigned long long)st.evals, (unsigned long long)st.discarded, cov_edges, corpus.size());
  for (uint64_t h : st.distinct) out += fmt("H %llx\n", (unsigned long long)h);
  for (auto &l : st.labels) out += fmt("L %llu %s\n", (unsigned long long)l.second, l.first.c_str());
  for (auto &s : st.samples) {
    std::string q = s;
    for (auto &c : q) if (c == '\n') c = ' ';
    out += "S " + q + "\n";
  }
  out += ".\n";
  size_t off = 0;
  while (off < out.size()) {
    ssize_t k = write(fd, out.data() + off, out.size() - off);
    if (k <= 0) break;
    off += k;
  }
  g_shm->state = 1;
  _exit(0);
}

static Shm *new_shm() {
  void *p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(2); }
  return (Shm *)p;
}

enum Outcome { OK, FAILED, CRASHED, HUNG, ENVTROUBLE };
struct Trial {
  Outcome o;
  std::string msg, note, errtail;
};

static void kill_group(pid_t pid) { kill(-pid, SIGKILL); kill(pid, SIGKILL); }

// run one stream in a fresh child
static Trial trial(const Test &t, const Bytes &in, uint64_t seed, double scale = 1) {
  Shm *save = g_shm;
  static Shm *shm = nullptr;
  if (!shm) shm = new_shm();
  memset((void *)shm, 0, offsetof(Shm, rec));
  g_shm = shm;
  int ep[2];
  if (pipe2(ep, O_CLOEXEC)) exit(2);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(2); }
  if (pid == 0) {
    setpgid(0, 0);
    if (!g_verbose) dup2(ep[1], 2);
    rlimit rl;
    rl.rlim_cur = (rlim_t)(t.o.case_cpu * scale);
    rl.rlim_max = rl.rlim_cur + 5;
    setrlimit(RLIMIT_CPU, &rl);
    worker_env(99);
    if (t.o.setup && pbt_worker_setup) pbt_worker_setup();
    int rc = run_case(t, in, true, seed);
    _exit(rc == 1 ? 3 : 0);
  }
  close(ep[1]);
  fcntl(ep[0], F_SETFL, O_NONBLOCK);
  Trial r;
  double end = now() + t.o.case_wall * scale;
  int st;
  bool hung = false;
  for (;;) {
    pid_t k = waitpid(pid, &st, WNOHANG);
    char buf[4096];
    ssize_t c;
    while ((c = read(ep[0], buf, sizeof buf)) > 0)
      if (r.errtail.size() < 20000) r.errtail.append(buf, c);
    if (k == pid) break;
    if (now() > end) { hung = true; kill_group(pid); waitpid(pid, &st, 0); break; }
    usleep(300);
  }
  kill_group(pid);
  close(ep[0]);
  r.msg = shm->msg;
  r.note = shm->note;
  if (hung) { r.o = HUNG; r.msg = "no progress within the case limit"; }
  else if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL)) { r.o = HUNG; r.msg = "CPU limit of one case exceeded"; }
  else if (WIFEXITED(st) && WEXITSTATUS(st) == 0) r.o = OK;
  else if (WIFEXITED(st) && WEXITSTATUS(st) == 3) r.o = FAILED;
  else if (WIFEXITED(st) && WEXITSTATUS(st) == 77) r.o = ENVTROUBLE;
  else {
    r.o = CRASHED;
    r.msg = WIFSIGNALED(st) ? fmt("process ended by signal %d", WTERMSIG(st)) : fmt("process exited with %d", WEXITSTATUS(st));
    size_t a = r.errtail.find("ERROR: AddressSanitizer");
    if (a != std::string::npos) r.msg += ": " + r.errtail.substr(a, 160);
    else r.msg += ": " + r.errtail.substr(0, 300);
  }
  g_shm = save;
  return r;
}

static bool bad(const Trial &t) { return t.o == FAILED || t.o == CRASHED || t.o == HUNG; }

static Bytes shrink(const Test &t, Bytes cur, uint64_t seed, Outcome want, double budget) {
  double end = now() + budget;
  int runs = 0;
  auto try_ = [&](const Bytes &c) {
    if (now() > end || runs > 3000) return false;
    runs++;
    Trial r = trial(t, c, seed);
    if (bad(r) && (r.o == want || want == HUNG)) { cur = c; return true; }
    return false;
  };
  if (want == HUNG) return cur;
  bool progress = true;
  while (progress && now() < end) {
    progress = false;
    for (size_t blk = std::max<size_t>(cur.size() / 2, 1);; blk /= 2) {
      // delete blocks from the end
      for (size_t i = cur.size(); i > 0 && now() < end;) {
        size_t s = i > blk ? i - blk : 0;
        Bytes c(cur);
        c.erase(c.begin() + s, c.begin() + i);
        if (try_(c)) progress = true;
        i = s;
        if (i > cur.size()) i = cur.size();
      }
      if (blk <= 1) break;
    }
    for (size_t blk = 16; blk >= 1; blk /= 2) {
      for (size_t i = 0; i < cur.size() && now() < end; i += blk) {
        size_t e = std::min(i + blk, cur.size());
        bool z = true;
        for (size_t k = i; k < e; k++) z = z && cur[k] == 0;
        if (z) continue;
        Bytes c(cur);
        std::fill(c.begin() + i, c.begin() + e, 0);
        if (try_(c)) progress = true;
      }
      if (blk == 1) break;
    }
    for (size_t i = 0; i < cur.size() && now() < end; i++) {
      while (cur[i] > 0 && now() < end) {
        Bytes c(cur);
        c[i] = c[i] / 2;
        if (try_(c)) { progress = true; continue; }
        c = cur;
        c[i]--;
        if (try_(c)) { progress = true; continue; }
        break;
      }
    }
    while (!cur.empty() && cur.back() == 0 && now() < end) {
      Bytes c(cur);
      c.pop_back();
      if (!try_(c)) break;
    }
  }
  return cur;
}

static std::string json_str(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c < 32 || c >= 127) r += fmt("\\u%04x", c);
    else r += (char)c;
  }
  return r + "\"";
}

struct Violation {
  std::string test, msg, note, replay;
};

static bool load_replay(const std::string &path, std::string &test, uint64_t &seed, Bytes &b) {
  FILE *f = fopen(path.c_str(), "r");
  if (!f) return false;
  char line[4096];
  std::string hexs;
  while (fgets(line, sizeof line, f)) {
    char name[256];
    unsigned long long v;
    if (sscanf(line, "test %255s", name) == 1) test = name;
    else if (sscanf(line, "seed %llu", &v) == 1) seed = v;
    else if (line[0] == 'x' && line[1] == ' ')
      for (char *p = line + 2; *p; p++) if (isxdigit((unsigned char)*p)) hexs += *p;
  }
  fclose(f);
  for (size_t i = 0; i + 1 < hexs.size(); i += 2) b.push_back((uint8_t)strtoul(hexs.substr(i, 2).c_str(), nullptr, 16));
  return !test.empty();
}

static int main_(int argc, char **argv) {
  std::string prop = "C00", tier = "quick", evidence, replay_dir = "/tmp", replay, only;
  uint64_t seed = 1, cases = 0;
  int W = 8;
  bool list = false;
  double cap = 0;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--property") prop = val();
    else if (a == "--tier") tier = val();
    else if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--evidence") evidence = val();
    else if (a == "--replay-dir") replay_dir = val();
    else if (a == "--replay") replay = val();
    else if (a == "--test") only = val();
    else if (a == "--cases") cases = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--cap") cap = atof(val().c_str());
    else if (a == "--workers") W = atoi(val().c_str());
    else if (a == "--repo") g_repo = val();
    else if (a == "--bin") g_bin = val();
    else if (a == "--verbose") g_verbose = true;
    else if (a == "--list") list = true;
  }
  if (list) {
    for (auto &t : tests()) printf("%s\n", t.name.c_str());
    return 0;
  }
  g_thorough = tier == "thorough";
  g_main_pid = getpid();
  g_scratch_root = fmt("/tmp/vpbt-%s-%d", prop.c_str(), getpid());
  if (mkdir(g_scratch_root.c_str(), 0700)) { perror("scratch"); return 2; }
  double t0 = now();
  g_shm = new_shm();
  int rc = 0;
  if (!replay.empty()) {
    std::string name;
    uint64_t rs = 1;
    Bytes b;
    if (!load_replay(replay, name, rs, b)) { fprintf(stderr, "cannot read %s\n", replay.c_str()); rc = 2; }
    bool found = false;
    for (auto &t : tests())
      if (t.name == name) {
        found = true;
        Trial r;
        for (int k = 0; k < (t.o.nondet ? 20 : 1); k++) {
          r = trial(t, b, rs, 3);
          if (bad(r)) break;
        }
        printf("%s %s: %s\n  case: %s\n", name.c_str(), bad(r) ? "FAILS" : "passes", r.msg.c_str(), r.note.c_str());
        if (bad(r)) {
          printf("%s\n", r.errtail.substr(0, 6000).c_str());
          rc = 1;
        }
      }
    if (!found) rc = 2;
    rm_tree(g_scratch_root);
    return rc;
  }
  uint64_t evals = 0, discarded = 0, distinct = 0, edges = 0, corpus = 0;
  std::vector<std::string> samples, assumptions;
  std::set<std::string> known_seen;
  std::string rules, per;
  std::vector<Violation> viol;
  for (auto &t : tests()) {
    if (!only.empty() && t.name != only) continue;
    uint64_t N = cases ? cases : g_thorough ? t.o.thorough : t.o.quick;
    int w_n = t.o.workers ? t.o.workers : W;
    if ((uint64_t)w_n > N) w_n = (int)N;
    if (w_n > kMaxWorkers) w_n = kMaxWorkers;
    double t1 = now();
    double deadline = t1 + (cap > 0 ? cap : g_thorough ? t.o.thorough_s : t.o.quick_s);
    std::vector<Shm *> shm(w_n);
    std::vector<pid_t> pid(w_n);
    std::vector<int> fd(w_n), efd(w_n);
    std::vector<std::string> out(w_n), err(w_n);
    for (int w = 0; w < w_n; w++) {
      shm[w] = new_shm();
      int p[2], e[2];
      if (pipe2(p, O_CLOEXEC) || pipe2(e, O_CLOEXEC)) return 2;
      fflush(nullptr);
      pid[w] = fork();
      if (pid[w] < 0) { perror("fork"); return 2; }
      if (pid[w] == 0) {
        setpgid(0, 0);
        g_shm = shm[w];
        if (!g_verbose) dup2(e[1], 2);
        int nul = open("/dev/null", O_WRONLY);
        if (!g_verbose) dup2(nul, 1);
        worker(t, w, w_n, N, seed, deadline, p[1]);
      }
      close(p[1]);
      close(e[1]);
      fd[w] = p[0];
      efd[w] = e[0];
      fcntl(fd[w], F_SETFL, O_NONBLOCK);
      fcntl(efd[w], F_SETFL, O_NONBLOCK);
    }
    std::vector<bool> done(w_n, false);
    std::vector<uint64_t> prog(w_n, 0);
    std::vector<double> since(w_n, now());
    int live = w_n, failed = -1;
    Outcome kind = OK;
    std::string fmsg;
    while (live > 0 && failed < 0) {
      usleep(3000);
      for (int w = 0; w < w_n; w++) {
        if (done[w]) continue;
        char buf[65536];
        ssize_t c;
        while ((c = read(fd[w], buf, sizeof buf)) > 0) out[w].append(buf, c);
        while ((c = read(efd[w], buf, sizeof buf)) > 0) {
          err[w].append(buf, c);
          if (err[w].size() > 200000) err[w].erase(0, err[w].size() - 100000);
        }
        int st;
        pid_t k = waitpid(pid[w], &st, WNOHANG);
        if (k == pid[w]) {
          while ((c = read(fd[w], buf, sizeof buf)) > 0) out[w].append(buf, c);
          while ((c = read(efd[w], buf, sizeof buf)) > 0) err[w].append(buf, c);
          done[w] = true;
          live--;
          if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
          if (WIFEXITED(st) && WEXITSTATUS(st) == 77) {
            fprintf(stderr, "%s: worker stopped: environment trouble: %s\n", t.name.c_str(), err[w].c_str());
            assumptions.push_back(t.name + ": a worker stopped early (environment trouble)");
            continue;
          }
          failed = w;
          kind = WIFEXITED(st) && WEXITSTATUS(st) == 3 ? FAILED : CRASHED;
          fmsg = kind == FAILED ? std::string(shm[w]->msg)
                                : (WIFSIGNALED(st) ? fmt("signal %d", WTERMSIG(st)) : fmt("exit %d", WEXITSTATUS(st)));
          break;
        }
        if (shm[w]->progress != prog[w]) {
          prog[w] = shm[w]->progress;
          since[w] = now();
        } else if (now() - since[w] > t.o.case_wall && shm[w]->state == 0 && prog[w] > 0) {
          failed = w;
          kind = HUNG;
          fmsg = "no progress within the case limit";
          break;
        }
      }
    }
    for (int w = 0; w < w_n; w++) {
      if (failed >= 0 && !done[w]) {
        kill_group(pid[w]);
        waitpid(pid[w], nullptr, 0);
      }
      kill_group(pid[w]);
      close(fd[w]);
      close(efd[w]);
    }
    // gather
    std::unordered_set<uint64_t> hs;
    std::map<std::string, uint64_t> labels;
    uint64_t ev = 0, disc = 0, edg = 0, cor = 0;
    for (int w = 0; w < w_n; w++) {
      size_t p = 0;
      bool complete = false;
      while (p < out[w].size()) {
        size_t nl = out[w].find('\n', p);
        if (nl == std::string::npos) break;
        std::string l = out[w].substr(p, nl - p);
        p = nl + 1;
        if (l[0] == 'E') {
          unsigned long long a, b, c, d;
          sscanf(l.c_str(), "E %llu %llu %llu %llu", &a, &b, &c, &d);
          ev += a; disc += b; edg = std::max<uint64_t>(edg, c); cor += d;
        } else if (l[0] == 'H') hs.insert(strtoull(l.c_str() + 2, nullptr, 16));
        else if (l[0] == 'L') {
          char *q;
          uint64_t v = strtoull(l.c_str() + 2, &q, 10);
          labels[q + 1] += v;
        } else if (l[0] == 'S') { if (samples.size() < 40 && w < 2) samples.push_back(t.name + ": " + l.substr(2)); }
        else if (l[0] == '.') complete = true;
      }
      if (!complete) ev += shm[w]->cases;
    }
    evals += ev; discarded += disc; distinct += hs.size(); edges += edg; corpus += cor;
    bool capped = failed < 0 && ev < N;
    rules += (rules.empty() ? "" : " | ") + t.name + ": " + t.o.rule;
    std::string lab;
    for (auto &l : labels) lab += (lab.empty() ? "" : ", ") + json_str(l.first) + ": " + std::to_string(l.second);
    per += (per.empty() ? "" : ",\n    ") + json_str(t.name) +
           fmt(": {\"cases\": %llu, \"distinct_nontrivial\": %zu, \"discarded\": %llu, \"edges\": %llu, \"corpus\": %llu, \"wall_s\": %.2f, \"stopped_by_time_cap\": %s, \"labels\": {",
               (unsigned long long)ev, hs.size(), (unsigned long long)disc, (unsigned long long)edg, (unsigned long long)cor, now() - t1, capped ? "true" : "false") + lab + "}}";
    fprintf(stderr, "[%s] %-28s cases=%llu nontrivial=%zu discarded=%llu edges=%llu corpus=%llu %.1fs%s\n", prop.c_str(), t.name.c_str(),
            (unsigned long long)ev, hs.size(), (unsigned long long)disc, (unsigned long long)edg, (unsigned long long)cor, now() - t1, capped ? " (time cap)" : "");
    for (auto &l : labels)
      if (l.first.compare(0, 6, "known:") == 0) known_seen.insert(l.first.substr(6));
    if (getenv("PBT_LABELS")) for (auto &l : labels) fprintf(stderr, "    %8llu %s\n", (unsigned long long)l.second, l.first.c_str());
    if (failed >= 0) {
      Shm *f = shm[failed];
      Bytes stream(f->rec, f->rec + std::min<size_t>(f->reclen, kRecCap));
      std::string note(f->note), worker_err = err[failed];
      fprintf(stderr, "[%s] %s: case failed: %s\n  case: %.1500s\n%.3000s\n", prop.c_str(), t.name.c_str(), fmsg.c_str(), note.c_str(), worker_err.c_str());
      // reproduce in a fresh process
      Trial r;
      bool rep = false;
      uint64_t rs = f->cseed;
      int tries = t.o.nondet ? 15 : 5;
      int envt = 0;
      for (int k = 0; k < tries && !rep; k++) {
        r = trial(t, stream, rs, 2);
        if (r.o == ENVTROUBLE) envt++;
        rep = bad(r);
        if (kind == HUNG && k >= 1) break;
      }
      Bytes best = stream;
      if (rep && !t.o.nondet) {
        double budget = g_thorough ? 90 : 40;
        best = shrink(t, stream, rs, r.o, budget);
        int again = 0;
        Trial q;
        for (int k = 0; k < (r.o == HUNG ? 2 : 3); k++) {
          q = trial(t, best, rs, 2);
          if (bad(q)) { again++; r = q; }
        }
        if (again < (r.o == HUNG ? 2 : 3)) {
          best = stream;
          again = 0;
          for (int k = 0; k < 3; k++) again += bad(trial(t, best, rs, 2));
          rep = again >= 1;
        }
      } else if (rep) {
        // scheduling dependent: the oracle is sound, one more sighting confirms it
      } else if (kind == FAILED && t.o.nondet) {
        rep = true;  // a sound oracle saw it; it may not reproduce on demand
        r.o = FAILED;
        r.msg = fmsg + " (seen once; not reproduced on demand)";
        r.note = note;
      }
      if (!rep) {
        fprintf(stderr, "[%s] %s: UNREPRODUCED failure, not reported as a violation: %s\n", prop.c_str(), t.name.c_str(), fmsg.c_str());
        assumptions.push_back(t.name + ": one unreproduced anomaly: " + fmsg);
      } else {
        Violation v;
        v.test = t.name;
        v.msg = r.msg;
        v.note = r.note;
        mkdir(replay_dir.c_str(), 0755);
        v.replay = replay_dir + "/" + prop + "-" + t.name + fmt("-%016llx.replay", (unsigned long long)hash_bytes(best.data(), best.size()));
        FILE *o = fopen(v.replay.c_str(), "w");
        if (o) {
          fprintf(o, "property %s\ntest %s\nseed %llu\n", prop.c_str(), t.name.c_str(), (unsigned long long)rs);
          std::string m = r.msg, n = r.note;
          for (auto &c : m) if (c == '\n') c = ' ';
          for (auto &c : n) if (c == '\n') c = ' ';
          fprintf(o, "# %s\n# case: %s\n", m.c_str(), n.c_str());
          for (size_t i = 0; i < best.size(); i += 32)
            fprintf(o, "x %s\n", hex(best.data() + i, std::min<size_t>(32, best.size() - i), 64).c_str());
          fclose(o);
        }
        fprintf(stderr, "[%s] %s: minimal case (%zu choice bytes): %s\n  case: %.2000s\n%.4000s\n", prop.c_str(), t.name.c_str(), best.size(), r.msg.c_str(), r.note.c_str(), r.errtail.c_str());
        viol.push_back(v);
      }
    }
    for (int w = 0; w < w_n; w++) munmap(shm[w], sizeof(Shm));
    rm_tree(g_scratch_root);
    mkdir(g_scratch_root.c_str(), 0700);
    if (!viol.empty()) break;
  }
  rm_tree(g_scratch_root);
  if (!evidence.empty()) {
    FILE *f = fopen(evidence.c_str(), "w");
    if (f) {
      fprintf(f, "{\n  \"property\": %s,\n  \"tier\": %s,\n  \"seed\": %llu,\n  \"level\": \"%s\",\n  \"wall_s\": %.2f,\n  \"violations\": %zu,\n",
              json_str(prop).c_str(), json_str(tier).c_str(), (unsigned long long)seed,
              getenv("PBT_LEVEL") ? getenv("PBT_LEVEL") : "exploration", now() - t0, viol.size());
      fprintf(f, "  \"coverage\": {\n    \"evaluations\": %llu,\n    \"distinct_nontrivial\": %llu,\n    \"discarded\": %llu,\n    \"rule\": %s,\n    \"samples\": [", (unsigned long long)evals,
              (unsigned long long)distinct, (unsigned long long)discarded, json_str(rules).c_str());
      for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s\n      %s", i ? "," : "", json_str(samples[i]).c_str());
      fprintf(f, "\n    ],\n    \"tests\": {\n    %s\n    }\n  },\n  \"assumptions\": [", per.c_str());
      for (size_t i = 0; i < assumptions.size(); i++) fprintf(f, "%s%s", i ? ", " : "", json_str(assumptions[i]).c_str());
      fprintf(f, "]\n}\n");
      fclose(f);
    }
  }
  for (auto &k : known_seen) printf("KNOWN-FINDING: property=%s %s\n", prop.c_str(), known_text(k).c_str());
  for (auto &v : viol) {
    printf("VIOLATION property=%s replay=%s\n", prop.c_str(), v.replay.c_str());
    rc = 1;
  }
  return rc;
}
}  // namespace pbt

int main(int argc, char **argv) {
  // whoever starts a check may ignore or block signals (a shell does in the background); the tests must not depend on it
  sigset_t none;
  sigemptyset(&none);
  sigprocmask(SIG_SETMASK, &none, nullptr);
  for (int s = 1; s < 32; s++)
    if (s != SIGKILL && s != SIGSTOP) signal(s, SIG_DFL);
  return pbt::main_(argc, argv);
}
