// C45: a passphrase typed at the terminal.
//
// Each case makes a pseudo terminal, starts a process that has it as controlling
// terminal, and types at it.  What is typed goes out only once a prompt was seen,
// so that the order of events is that of the plan.
#include "cli.h"
#include "wt.h"
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/ioctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <termios.h>
#include <time.h>
#include <dirent.h>
extern "C" {
#include "wizard/passphrase.h"
}

static const int kSignals[] = {SIGALRM, SIGHUP, SIGINT, SIGPIPE, SIGQUIT, SIGTERM, SIGTSTP, SIGTTIN, SIGTTOU};
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }

struct Tty {
  int master = -1, report = -1;
  pid_t pid = -1;
  std::string shown;          // all the terminal showed
  size_t at = 0;              // what was looked at for prompts
  bool done = false;
  int status = 0;
  struct termios before;
  std::string slave;
  explicit Tty(Src &src) {
    master = posix_openpt(O_RDWR | O_NOCTTY | O_CLOEXEC);
    if (master < 0 || grantpt(master) || unlockpt(master)) discard();
    slave = ptsname(master);
    int s = open(slave.c_str(), O_RDWR | O_NOCTTY | O_CLOEXEC);
    if (s < 0) discard();
    tcgetattr(s, &before);
    before.c_lflag |= ICANON | ISIG | ECHO | ECHOE;
    before.c_iflag &= ~(ISTRIP | IUCLC | IMAXBEL | IXON);
    if (src.chance(1, 3)) before.c_lflag |= ECHONL;
    if (src.chance(1, 3)) before.c_lflag ^= ECHOK;
    if (src.chance(1, 3)) before.c_oflag ^= ONLCR;
    if (src.chance(1, 3)) before.c_lflag |= NOFLSH;
    tcsetattr(s, TCSANOW, &before);
    tcgetattr(s, &before);
    keep = s;                 // keeps the terminal's settings alive
  }
  int keep = -1;
  ~Tty() {
    if (pid > 0 && !done) { kill(pid, SIGKILL); waitpid(pid, &status, 0); }
    if (keep >= 0) close(keep);
    if (master >= 0) close(master);
    if (report >= 0) close(report);
  }
  template <class F> void start(F f) {
    int p[2];
    CHECK(pipe(p) == 0, "pipe");
    fflush(stdout);
    fflush(stderr);
    pid = fork();
    CHECK(pid >= 0, "fork");
    if (pid == 0) {
      struct rlimit none = {0, 0};
      setrlimit(RLIMIT_CORE, &none);
      close(p[0]);
      close(master);
      close(keep);
      setsid();
      int s = open(slave.c_str(), O_RDWR);
      if (s < 0 || ioctl(s, TIOCSCTTY, 0) < 0) _exit(90);
      for (int k : kSignals) signal(k, SIG_DFL);
      signal(SIGALRM, SIG_DFL);
      sigset_t m;
      sigemptyset(&m);
      sigprocmask(SIG_SETMASK, &m, nullptr);
      int null = open("/dev/null", O_RDWR);
      dup2(null, 0);
      dup2(null, 2);
      f(p[1]);
      _exit(91);
    }
    close(p[1]);
    report = p[0];
  }
  bool over() {
    if (!done && waitpid(pid, &status, WNOHANG) == pid) done = true;
    return done;
  }
  void drain(int ms) {
    struct pollfd p = {master, POLLIN, 0};
    if (poll(&p, 1, ms) > 0 && (p.revents & POLLIN)) {
      char b[4096];
      ssize_t n = read(master, b, sizeof b);
      if (n > 0) shown.append(b, n);
    }
  }
  // until the process waits for what is typed
  void waiting() {
    for (double end = now() + 60; now() < end; usleep(500)) {
      std::string c = text("/syscall"), s = text("/stat");
      if (c.empty() ? s.find(") S ") != s.npos : c.compare(0, 2, "0 ") == 0) return;
      if (over()) return;
    }
  }
  std::string text(const char *what) {
    char b[512];
    ssize_t n = -1;
    int f = open(("/proc/" + std::to_string(pid) + what).c_str(), O_RDONLY | O_CLOEXEC);
    if (f >= 0) { n = read(f, b, sizeof b); close(f); }
    return n > 0 ? std::string(b, n) : std::string();
  }
  // true when a prompt is shown, false when the process ended instead
  bool prompt() {
    for (double end = now() + 60;;) {
      size_t p = shown.find(": ", at);
      if (p != shown.npos) { at = p + 2; return true; }
      if (over()) { drain(0); if (shown.find(": ", at) == shown.npos) return false; continue; }
      CHECK(now() < end, "no prompt and no end; the terminal shows %s", quote(shown, 200).c_str());
      drain(20);
    }
  }
  void type(const std::string &s) {
    for (size_t i = 0; i < s.size();) {
      ssize_t n = write(master, s.data() + i, s.size() - i);
      CHECK(n > 0, "typing");
      i += n;
    }
  }
  void finish() {
    for (double end = now() + 60; !over();) {
      CHECK(now() < end, "does not end; the terminal shows %s", quote(shown, 200).c_str());
      drain(20);
    }
    drain(0);
  }
  std::string reported() {
    std::string s;
    char b[4096];
    ssize_t n;
    while ((n = read(report, b, sizeof b)) > 0) s.append(b, n);
    return s;
  }
  struct termios settings() { struct termios t; memset(&t, 0, sizeof t); tcgetattr(keep, &t); return t; }
  void restored() {
    struct termios t = settings();
    CHECK(t.c_lflag == before.c_lflag && t.c_iflag == before.c_iflag && t.c_oflag == before.c_oflag && t.c_cflag == before.c_cflag && !memcmp(t.c_cc, before.c_cc, sizeof t.c_cc),
          "the terminal is left with settings %x %x %x, before %x %x %x", t.c_lflag, t.c_iflag, t.c_oflag, before.c_lflag, before.c_iflag, before.c_oflag);
  }
  void hidden(const std::string &s) {
    if (s.size() >= 6 && std::string("Enter same passphrase again: ").find(s) == std::string::npos)
      CHECK(shown.find(s) == shown.npos, "the terminal shows what was typed: %s", quote(shown, 200).c_str());
  }
};
static std::string gen_line(Src &src) {
  std::string s;
  size_t n = src.chance(1, 12) ? src.range(200, 4000) : src.size(40, {0, 1, 16, 32});
  bool high = src.chance(1, 3);
  for (size_t i = 0; i < n; i++) {
    uint8_t c = high ? src.byte() : (uint8_t)src.range(' ', '~');
    if (c < 0x20 || c == 0x7f) c = 'x';        // keys that edit the line
    s += (char)c;
  }
  return s;
}
static std::string vary(Src &src, std::string s) {
  switch (src.pick(4)) {
    case 0: return s + (char)('a' + src.pick(26));
    case 1: if (s.empty()) return "q"; s.pop_back(); return s;
    case 2: if (s.empty()) return "q"; { size_t i = src.pick(s.size()); s[i] = s[i] == 'a' ? 'b' : 'a'; return s; }
    default: { std::string t = gen_line(src); return t == s ? s + "z" : t; }
  }
}
static size_t descriptors() {
  size_t n = 0;
  DIR *d = opendir("/proc/self/fd");
  if (!d) return 0;
  while (readdir(d)) n++;
  closedir(d);
  return n;
}
// reports: "1" or "0" for success, then "same" or what changed, then the phrase
static void ask(int out) {
  struct sigaction a[sizeof kSignals / sizeof *kSignals], b;
  for (size_t i = 0; i < sizeof kSignals / sizeof *kSignals; i++) {
    signal(kSignals[i], i % 2 && kSignals[i] == SIGPIPE ? SIG_IGN : SIG_DFL);
    sigaction(kSignals[i], nullptr, &a[i]);
  }
  ExceptionInfo *e = AcquireExceptionInfo();
  size_t fd = descriptors();
  StringInfo *s = GetPassphrase(e);
  std::string r = s ? "1" : "0";
  for (size_t i = 0; i < sizeof kSignals / sizeof *kSignals; i++) {
    sigaction(kSignals[i], nullptr, &b);
    if (b.sa_handler != a[i].sa_handler) r += fmt("handling of signal %d changed;", kSignals[i]);
  }
  if (descriptors() != fd) r += "descriptors left open;";
  r += "\n";
  if (s) r.append((const char *)GetStringInfoDatum(s), GetStringInfoLength(s));
  for (size_t i = 0; i < r.size();) { ssize_t n = write(out, r.data() + i, r.size() - i); if (n <= 0) _exit(92); i += n; }
  _exit(0);
}

PBT_TEST(typed, {.quick = 1500, .thorough = 30000, .rule = "up to three pairs of lines typed at a pseudo terminal of varied settings, of 0-4000 bytes, the last pair equal and the others not, sometimes interrupted by a stop signal halfway through a line; the phrase returned must be the last line, the echo off while typing, nothing typed shown, settings, signal handling and descriptors as before; non-trivial: a pair that differs or an interruption", .case_cpu = 60, .coverage = false, .workers = 8}) {
  Tty t(src);
  std::vector<std::string> lines;
  for (size_t n = src.pick(3); n; n--) { lines.push_back(gen_line(src)); lines.push_back(vary(src, lines.back())); src.nontrivial(); }
  lines.push_back(gen_line(src));
  lines.push_back(lines.back());
  t.start(ask);
  for (auto &l : lines) {
    CHECK(t.prompt(), "ended after %s", quote(t.shown, 200).c_str());
    CHECK(!(t.settings().c_lflag & ECHO), "echo is on while a passphrase is asked for");
    if (src.chance(1, 6)) {     // stopped halfway: what was typed is void, and the prompt comes again
      std::string part = gen_line(src).substr(0, 30);
      t.type(part);
      src.note("stop signal after %zu bytes", part.size());
      src.nontrivial();
      src.label("stopped");
      t.waiting();
      kill(t.pid, SIGTSTP);
      CHECK(t.prompt(), "ended by a stop signal");
      t.hidden(part);
    }
    src.note("%zu bytes", l.size());
    t.type(l + (src.chance(1, 4) ? "\r" : "\n"));
  }
  t.finish();
  CHECK(WIFEXITED(t.status) && WEXITSTATUS(t.status) == 0, "ended with status %x", t.status);
  std::string r = t.reported();
  size_t p = r.find('\n');
  CHECK(p != r.npos && r[0] == '1', "no passphrase");
  CHECK(p == 1, "%s", r.substr(1, p - 1).c_str());
  CHECK(r.substr(p + 1) == lines.back(), "%zu bytes returned (%s), %zu typed (%s)", r.size() - p - 1, quote(r.substr(p + 1), 60).c_str(), lines.back().size(), quote(lines.back(), 60).c_str());
  for (auto &l : lines) t.hidden(l);
  t.restored();
  src.label(lines.size() > 2 ? "asked again" : "at once");
}

PBT_TEST(interrupted, {.quick = 1000, .thorough = 20000, .rule = "a process asking for a passphrase gets a terminating signal, by key or by kill, at the first or second prompt with a part of a line typed: it ends by that signal with the terminal's settings as before and nothing typed shown; non-trivial: all", .case_cpu = 60, .coverage = false, .workers = 8}) {
  Tty t(src);
  t.start([](int out) { for (int k : kSignals) signal(k, SIG_DFL); ask(out); });
  std::string line = gen_line(src), part = gen_line(src).substr(0, 40);
  CHECK(t.prompt(), "ended");
  bool second = src.chance(1, 2);
  if (second) { t.type(line + "\n"); CHECK(t.prompt(), "ended"); }
  t.type(part);
  int sig = src.of<int>({SIGINT, SIGTERM, SIGHUP, SIGQUIT, SIGALRM});
  bool key = (sig == SIGINT || sig == SIGQUIT) && src.chance(1, 2);
  src.note("%s prompt, %zu bytes, signal %d %s", second ? "second" : "first", part.size(), sig, key ? "by key" : "");
  src.nontrivial();
  src.label(fmt("signal %d", sig));
  t.waiting();
  for (double end = now() + 60; !t.over();) {
    if (key) t.type(std::string(1, (char)t.before.c_cc[sig == SIGINT ? VINTR : VQUIT])); else kill(t.pid, sig);
    for (int i = 0; i < 10 && !t.over(); i++) t.drain(20);
    CHECK(now() < end, "does not end by signal %d", sig);
  }
  CHECK(WIFSIGNALED(t.status) && WTERMSIG(t.status) == sig, "signal %d: ended with status %x", sig, t.status);
  t.drain(0);
  t.restored();
  t.hidden(part);
  t.hidden(line);
}

// no terminal: an error, and nothing kept
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
PBT_TEST(no_terminal, {.quick = 100, .thorough = 2000, .rule = "a process without a controlling terminal asks for a passphrase 1-40 times: each time no phrase and an error of the authenticate kind, with memory, descriptors and signal handling as before; non-trivial: all", .case_cpu = 60, .coverage = false, .workers = 8}) {
  int n = (int)src.range(1, 40), p[2];
  CHECK(pipe(p) == 0, "pipe");
  pid_t pid = fork();
  CHECK(pid >= 0, "fork");
  if (pid == 0) {
    close(p[0]);
    setsid();
    int null = open("/dev/null", O_RDWR);
    dup2(null, 0);
    dup2(null, 2);
    std::string why;
    size_t mem = 0, fd = 0;
    struct sigaction a, b;
    sigaction(SIGINT, nullptr, &a);
    for (int i = -3; i < n && why.empty(); i++) {
      if (i == 0) { mem = __sanitizer_get_current_allocated_bytes(); fd = descriptors(); }
      ExceptionInfo *e = AcquireExceptionInfo();
      StringInfo *s = GetPassphrase(e);
      if (s) why = "a passphrase without a terminal";
      else if (GetExceptionSeverity(e) != AuthenticateError) why = "no error";
      e = DestroyExceptionInfo(e);
    }
    sigaction(SIGINT, nullptr, &b);
    if (why.empty() && b.sa_handler != a.sa_handler) why = "handling of a signal changed";
    if (why.empty() && descriptors() != fd) why = "descriptors left open";
    if (why.empty() && __sanitizer_get_current_allocated_bytes() > mem + 512) why = fmt("%zu bytes kept", __sanitizer_get_current_allocated_bytes() - mem);
    if (write(p[1], why.data(), why.size()) < 0) _exit(2);
    _exit(0);
  }
  close(p[1]);
  std::string why;
  char buf[256];
  for (ssize_t k; (k = read(p[0], buf, sizeof buf)) > 0;) why.append(buf, k);
  close(p[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  src.nontrivial();
  src.note("%d times", n);
  CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "ended with status %x", st);
  CHECK(why.empty(), "%s", why.c_str());
}

// the utilities: typing is as good as a file with the same bytes
PBT_TEST(utilities, {.quick = 120, .thorough = 3000, .rule = "a file enciphered with a passphrase typed or in a file and deciphered with the same or a slightly different one typed or in a file: recovered exactly when they are equal; non-trivial: one of them typed", .case_cpu = 60, .coverage = false, .workers = 8}) {
  Cli cli(fresh_dir());
  Bytes data = src.blob(src.range(0, 300));
  write_file(cli.p("plain"), data);
  std::string phrase = gen_line(src) + "k", other = src.chance(1, 2) ? phrase : vary(src, phrase);
  if (other.empty()) other = "x";
  auto go = [&](const char *u, Args a, const std::string &ph, bool typed) {
    if (!typed) {
      write_file(cli.p("phrase"), ph);
      return cli.run(u, cat({"-passphrase", "phrase"}, a)).code;
    }
    Tty t(src);
    std::string exe = bin(u), dir = cli.dir, seed = std::to_string(src.u64());
    t.start([&](int) {
      std::vector<char *> v{(char *)exe.c_str()};
      for (auto &x : a) v.push_back((char *)x.c_str());
      v.push_back(nullptr);
      std::string conf = "WIZARD_CONFIGURE_PATH=" + repo() + "/config", home = "HOME=" + dir, wh = "WIZARD_HOME=" + dir, en = "PBT_ENTROPY=" + seed;
      char *env[] = {(char *)"PATH=/usr/bin:/bin", (char *)"LC_ALL=C", (char *)"TZ=UTC", (char *)conf.c_str(), (char *)home.c_str(), (char *)wh.c_str(), (char *)en.c_str(),
        (char *)"ASAN_OPTIONS=detect_leaks=0:symbolize=0:handle_abort=0:exitcode=99", nullptr};
      if (chdir(dir.c_str()) == 0) execve(exe.c_str(), v.data(), env);
    });
    for (int i = 0; i < 2; i++) { CHECK(t.prompt(), "%s ended without asking: %x", u, t.status); t.type(ph + "\n"); }
    t.finish();
    CHECK(WIFEXITED(t.status) && WEXITSTATUS(t.status) < 90, "%s: status %x", u, t.status);
    t.hidden(ph);
    t.restored();
    return WEXITSTATUS(t.status);
  };
  bool t1 = src.chance(2, 3), t2 = src.chance(2, 3);
  src.note("%s then %s, %zu bytes, %s", t1 ? "typed" : "file", t2 ? "typed" : "file", phrase.size(), phrase == other ? "equal" : "different");
  if (t1 || t2) src.nontrivial();
  int r = go("encipher", {"-keyring", "ring", "plain", "c"}, phrase, t1);
  CHECK(r == 0, "encipher: %d", r);
  r = go("decipher", {"-keyring", "ring", "c", "out"}, other, t2);
  bool ok = r == 0 && read_file(cli.p("out")) == data;
  CHECK(ok == (phrase == other), "%s passphrase: decipher ends with %d, %s", phrase == other ? "the same" : "another", r, ok ? "recovered" : "not recovered");
  src.label(ok ? "recovered" : "refused");
}
