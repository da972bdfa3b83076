// C33: resource accounting is exact and temporary files never outlive their use.
#include "wt.h"
#include "hooks.h"
#include <algorithm>
#include <filesystem>
#include <map>
#include <set>
#include <signal.h>
#include <sys/stat.h>
#include <sys/wait.h>
extern "C" {
#include "wizard/resource_.h"
WizardSizeType GetWizardResourceLimit(const ResourceType) __attribute__((weak));
}
using namespace pbt;
typedef unsigned __int128 u128;
static const uint64_t kInfinity = ~0ull;
static const ResourceType kTypes[] = {AreaResource, DiskResource, FileResource, MapResource, MemoryResource};
static const char *const kNames[] = {"area", "disk", "file", "map", "memory"};
static bool refuse_mkstemp = false;
extern "C" int mkstemp(char *p) {
  if (refuse_mkstemp) { errno = ENOSYS; return -1; }
  static const char set[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
  static uint64_t state = 88172645463325252ull + (uint64_t)getpid();
  char *x = p + strlen(p) - 6;
  if (strlen(p) < 6 || strcmp(x, "XXXXXX")) { errno = EINVAL; return -1; }
  for (int tries = 0; tries < 1000; tries++) {
    for (int i = 0; i < 6; i++) { state ^= state << 13; state ^= state >> 7; state ^= state << 17; x[i] = set[state % 62]; }
    int fd = (int)syscall(SYS_openat, AT_FDCWD, p, O_RDWR | O_CREAT | O_EXCL, 0600);
    if (fd != -1 || errno != EEXIST) return fd;
  }
  return -1;
}

static uint64_t gen_size(Src &src, u128 used, uint64_t limit) {
  switch (src.weighted({4, 4, 2, 2})) {
    case 0: return src.size(1000);
    case 1: {  // around what is left
      uint64_t left = (u128)limit > used ? (uint64_t)(limit - used) : 0;
      return left + (uint64_t)src.irange(-2, 2);
    }
    case 2: return (1ull << src.range(0, 63)) + (uint64_t)src.irange(-1, 1);
    default: return src.chance(1, 4) ? src.u64() : src.range(0, 1 << 20);
  }
}
PBT_TEST(accounting, {.quick = 400000, .thorough = 6000000,
  .rule = "up to 60 requests, releases and limit changes over the five resources, with amounts around what is left, around powers of two and up to the largest number: each request is granted exactly below the limit, the usage equals what is held, and a refusal changes nothing; limits from the environment and in the listing; non-trivial: a request was refused and another granted"}) {
  uint64_t limit[5], used[5] = {0}, before[5];
  bool known[5] = {false};  // area: only a granted request sets it
  std::vector<std::pair<int, uint64_t>> held;
  // limits from the environment
  const char *const vars[] = {"WIZARD_AREA_LIMIT", "WIZARD_DISK_LIMIT", "WIZARD_FILE_LIMIT", "WIZARD_MAP_LIMIT", "WIZARD_MEMORY_LIMIT"};
  for (int t = 0; t < 5; t++) {
    limit[t] = src.weighted({3, 1, 1, 1}) == 0 ? src.range(0, 5000) : src.of<uint64_t>({0, 1, kInfinity, kInfinity - 1, 1ull << 63, (1ull << 63) - 1, (1ull << 63) + 1, 1ull << 32, 1000000});
    if (src.chance(1, 4)) setenv(vars[t], fmt("%llu", (unsigned long long)limit[t]).c_str(), 1);
    else unsetenv(vars[t]);
  }
  ResourceComponentGenesis();
  for (int t = 0; t < 5; t++) {
    if (getenv(vars[t])) {
      if (GetWizardResourceLimit) CHECK(GetWizardResourceLimit(kTypes[t]) == limit[t], "%s=%s gives the limit %llu", vars[t], getenv(vars[t]), (unsigned long long)GetWizardResourceLimit(kTypes[t]));
      unsetenv(vars[t]);
    } else SetWizardResourceLimit(kTypes[t], limit[t]);
  }
  for (int t = 1; t < 5; t++) {
    before[t] = GetWizardResource(kTypes[t]);
    CHECK(before[t] == 0, "%s usage %llu before anything is taken", kNames[t], (unsigned long long)before[t]);
  }
  size_t ops = src.size(60), granted = 0, refused = 0;
  for (size_t i = 0; i < ops; i++) {
    int t = (int)src.pick(5);
    switch (src.weighted({6, 4, 2, 1, 1})) {
      case 0: {
        uint64_t n = gen_size(src, used[t], limit[t]);
        bool want = limit[t] == kInfinity || (t ? (u128)used[t] + n < limit[t] : n < limit[t]);
        if (t && want && (u128)used[t] + n >= ((u128)1 << 63)) break;  // usage is a signed 64-bit amount
        src.note("%s+%llu ", kNames[t], (unsigned long long)n);
        bool got = AcquireWizardResource(kTypes[t], n) != WizardFalse;
        CHECK(got == want, "%llu of %s with %llu used of %llu was %s", (unsigned long long)n, kNames[t], (unsigned long long)used[t], (unsigned long long)limit[t], got ? "granted" : "refused");
        (got ? granted : refused)++;
        if (t == 0) { known[0] = got; used[0] = n; }
        else if (got) { used[t] += n; held.push_back({t, n}); }
        break;
      }
      case 1: {
        if (held.empty()) break;
        size_t k = src.pick(held.size());
        auto [r, n] = held[k];
        uint64_t part = src.chance(1, 3) && n ? src.range(0, n) : n;
        src.note("%s-%llu ", kNames[r], (unsigned long long)part);
        RelinquishWizardResource(kTypes[r], part);
        used[r] -= part;
        held[k].second -= part;
        if (!held[k].second) held.erase(held.begin() + (ssize_t)k);
        break;
      }
      case 2: {
        limit[t] = src.chance(1, 2) ? used[t] + (uint64_t)src.irange(-3, 100) : src.of<uint64_t>({0, 1, 10, 100, 5000, kInfinity, 1ull << 40, 1ull << 63});
        if (t == 0) limit[t] = src.range(0, 2000);
        src.note("%s<%llu ", kNames[t], (unsigned long long)limit[t]);
        CHECK(SetWizardResourceLimit(kTypes[t], limit[t]), "the limit could not be set");
        break;
      }
      case 3: {
        if (!GetWizardResourceLimit) break;
        for (int k = 0; k < 5; k++) CHECK(GetWizardResourceLimit(kTypes[k]) == limit[k], "%s limit is %llu, not %llu", kNames[k], (unsigned long long)GetWizardResourceLimit(kTypes[k]), (unsigned long long)limit[k]);
        break;
      }
      default: {
        char *text = nullptr;
        size_t n = 0;
        FILE *f = open_memstream(&text, &n);
        Exc e;
        bool ok = ListWizardResourceInfo(f, e) != WizardFalse;
        fclose(f);
        std::string s(text, n);
        free(text);
        CHECK(ok, "no listing");
        size_t at = 0;
        for (int k : {2, 0, 4, 3, 1}) {
          char b[WizardFormatExtent];
          FormatWizardSize(limit[k], k == 0 ? WizardFalse : WizardTrue, WizardFormatExtent, b);
          std::string w = k == 2 ? fmt("%g", (double)limit[k]) : k == 1 && limit[k] == kInfinity ? "unlimited" : b;
          size_t p = s.find(w, at ? at : s.rfind("--\n"));
          CHECK(p != std::string::npos, "the listing does not show the %s limit %s: %s", kNames[k], w.c_str(), quote(s).c_str());
          at = p + w.size();
        }
      }
    }
    for (int k = 0; k < 5; k++)
      if (k || known[0]) CHECK(GetWizardResource(kTypes[k]) == used[k], "%s usage is %llu, not %llu", kNames[k], (unsigned long long)GetWizardResource(kTypes[k]), (unsigned long long)used[k]);
  }
  if (granted && refused) src.nontrivial();
  for (auto [t, n] : held) RelinquishWizardResource(kTypes[t], n);
  for (int t = 1; t < 5; t++) CHECK(GetWizardResource(kTypes[t]) == 0, "%s usage %llu after everything is given back", kNames[t], (unsigned long long)GetWizardResource(kTypes[t]));
}

static std::set<std::string> listing(const std::string &dir) {
  std::set<std::string> s;
  for (auto &x : std::filesystem::directory_iterator(dir)) s.insert(x.path().string());
  return s;
}
struct Temp { int fd; bool filed; Bytes text; };
PBT_TEST(temporary, {.quick = 20000, .thorough = 300000,
  .rule = "up to 40 temporary files made in the directory the environment or the caller names, written, closed, released with or without removal, released again, refused at the file limit or made without the help of the system library, then the component is shut down: every file is new, private, in the right directory, stays until its release, is counted while held and is gone afterwards, and no other file is touched; non-trivial: at least two files were held at once"}) {
  std::string dir = fresh_dir();
  std::vector<std::string> dirs = {dir + "/one", dir + "/two", dir + "/three"};
  for (auto &d : dirs) mkdir(d.c_str(), 0700);
  write_file(dirs[0] + "/mine", Bytes{'x'});
  unsetenv("WIZARD_TMPDIR");
  unsetenv("TMPDIR");
  std::string deflt = dirs[1];
  switch (src.pick(3)) {
    case 0: setenv("WIZARD_TMPDIR", dirs[1].c_str(), 1); break;
    case 1: setenv("TMPDIR", (dirs[1] + (src.chance(1, 2) ? "/" : "")).c_str(), 1); break;
    default: setenv("TMPDIR", dirs[2].c_str(), 1); setenv("WIZARD_TMPDIR", dirs[1].c_str(), 1);
  }
  ResourceComponentGenesis();
  uint64_t limit = src.chance(1, 3) ? src.range(0, 12) : 1000;
  SetWizardResourceLimit(FileResource, limit);
  uint64_t base = GetWizardResource(FileResource);
  CHECK(base == 0, "%llu files counted before any is made", (unsigned long long)base);
  std::map<std::string, Temp> live;
  std::set<std::string> kept, ever;
  size_t ops = 1 + src.size(40), most = 0;
  auto everywhere = [&] { std::set<std::string> s; for (auto &d : dirs) { auto l = listing(d); s.insert(l.begin(), l.end()); } return s; };
  for (size_t i = 0; i < ops; i++) {
    refuse_mkstemp = src.chance(1, 4);
    switch (live.empty() ? 0 : src.weighted({5, 3, 1, 2})) {
      case 0: {
        char name[WizardPathExtent];
        memset(name, 'Z', sizeof name);
        Exc e;
        bool plain = src.chance(1, 4), own = !plain && src.chance(1, 2);
        std::string d = own ? dirs[src.pick(3)] : deflt, arg = own ? d + (src.chance(1, 3) ? "/" : "") : "";
        std::set<std::string> old = everywhere();
        unsigned meet = refuse_mkstemp ? (unsigned)src.weighted({3, 1, 1}) : 0;  // another process makes that very file just before
        hooks::on_open = [&](const char *p, int f) {
          if (!meet || !(f & O_CREAT) || !strstr(p, "/wizard-")) return;
          meet--;
          int fd = (int)syscall(SYS_openat, AT_FDCWD, p, O_WRONLY | O_CREAT | O_EXCL, 0644);
          if (fd == -1) return;
          syscall(SYS_close, fd);
          old.insert(p);
          kept.insert(p);
          
        };
        Temp t{-1, false, {}};
        bool want = live.size() + 1 < limit;
        bool got;
        if (plain) got = AcquireUniqueFilename(name, e) != WizardFalse;
        else { t.fd = AcquireUniqueFileResource(arg.c_str(), name, e); got = t.fd != -1; }
        hooks::on_open = nullptr;
        src.note("%s%s ", got ? "make" : "refuse", refuse_mkstemp ? "!" : "");
        CHECK(got == want, "making a file with %zu held of %llu %s", live.size(), (unsigned long long)limit, got ? "succeeded" : "failed");
        std::set<std::string> now = everywhere();
        if (!got) {
          CHECK(now == old, "a refused temporary file changed the directory: %zu files instead of %zu", now.size(), old.size());
          break;
        }
        CHECK(memchr(name, 0, sizeof name), "the name is not terminated");
        std::string s = name;
        CHECK(s.compare(0, d.size() + 1, d + "/") == 0 && s.find('/', d.size() + 1) == std::string::npos, "%s is not in %s", s.c_str(), d.c_str());
        CHECK(!old.count(s) && ever.insert(s).second, "%s is not new", s.c_str());
        old.insert(s);
        CHECK(now == old, "making %s did more or less than making that file", s.c_str());
        struct stat a, b;
        CHECK(lstat(name, &a) == 0 && S_ISREG(a.st_mode) && a.st_size == 0, "%s is no empty file", name);
        CHECK((a.st_mode & 0777) == 0600, "%s has mode %o", name, a.st_mode & 0777);
        if (!plain) {
          CHECK(fstat(t.fd, &b) == 0 && a.st_ino == b.st_ino, "the descriptor is not that of %s", name);
          t.text = src.data(40);
          CHECK(write(t.fd, t.text.data(), t.text.size()) == (ssize_t)t.text.size() && lseek(t.fd, 0, SEEK_SET) == 0, "not writable");
          Bytes back(t.text.size());
          CHECK(read(t.fd, back.data(), back.size()) == (ssize_t)back.size() && back == t.text, "not readable");
          if (src.chance(2, 3)) { close(t.fd); t.fd = -1; }
        }
        live[s] = t;
        most = std::max(most, live.size());
        break;
      }
      case 1: {
        auto it = live.begin();
        std::advance(it, (ssize_t)src.pick(live.size()));
        std::string s = it->first;
        bool trash = src.chance(2, 3);
        Bytes text = it->second.text;
        if (it->second.fd != -1) close(it->second.fd);
        live.erase(it);
        std::set<std::string> want = everywhere();
        if (trash) want.erase(s); else kept.insert(s);
        src.note("%s ", trash ? "release" : "keep");
        CHECK(RelinquishUniqueFileResource(s.c_str(), trash ? WizardTrue : WizardFalse), "releasing %s failed", s.c_str());
        CHECK(everywhere() == want, "releasing %s left other files than it should", s.c_str());
        if (!trash) CHECK(read_file(s) == text, "%s kept, but changed", s.c_str());
        break;
      }
      case 2: {  // releasing what is not held removes at most that file and counts nothing
        std::string s = ever.empty() || src.chance(1, 3) ? dirs[0] + "/none" : *std::next(ever.begin(), (ssize_t)src.pick(ever.size()));
        if (live.count(s)) break;
        bool trash = src.chance(1, 2);
        std::set<std::string> want = everywhere();
        bool there = want.count(s);
        if (trash) want.erase(s), kept.erase(s);
        src.note("again ");
        bool got = RelinquishUniqueFileResource(s.c_str(), trash ? WizardTrue : WizardFalse) != WizardFalse;
        if (trash) CHECK(got == there, "removing %s, which %s, %s", s.c_str(), there ? "is there" : "is gone", got ? "succeeded" : "failed");
        CHECK(everywhere() == want, "releasing %s again changed other files", s.c_str());
        break;
      }
      default: {
        limit = src.chance(1, 2) ? live.size() + src.range(0, 3) : 1000;
        SetWizardResourceLimit(FileResource, limit);
      }
    }
    CHECK(GetWizardResource(FileResource) == live.size(), "%llu files counted with %zu held", (unsigned long long)GetWizardResource(FileResource), live.size());
    std::set<std::string> now = everywhere();
    for (auto &[s, t] : live) CHECK(now.count(s) && read_file(s) == t.text, "%s is gone or changed while it is held", s.c_str());
  }
  if (most > 1) src.nontrivial();
  refuse_mkstemp = false;
  for (auto &[s, t] : live) if (t.fd != -1) close(t.fd);
  bool early = src.chance(1, 4);
  if (early) AsynchronousResourceComponentTerminus();
  else { ResourceComponentTerminus(); ResourceComponentGenesis(); }
  kept.insert(dirs[0] + "/mine");
  std::set<std::string> now = everywhere();
  if (early) { ResourceComponentTerminus(); ResourceComponentGenesis(); }
  CHECK(now == kept, "%zu files instead of %zu are left after the shutdown", now.size(), kept.size());
  uint64_t rest = GetWizardResource(FileResource);
  if (rest) RelinquishWizardResource(FileResource, rest);
}

PBT_TEST(shutdown, {.quick = 1500, .thorough = 15000,
  .rule = "a process that makes up to 12 temporary files and releases some ends by returning, exit, an interrupt, hang-up, termination, quit, or a limit signal, possibly in the middle of other work: none of the files is left, and files it decided to keep are; non-trivial: a file was held at the end", .coverage = false}) {
  std::string dir = fresh_dir(), tmp = dir + "/tmp", list = dir + "/kept";
  mkdir(tmp.c_str(), 0700);
  size_t n = src.size(12);
  std::vector<int> fate;
  for (size_t i = 0; i < n; i++) fate.push_back((int)src.weighted({4, 1, 1}));
  int how = (int)src.pick(8);
  static const int sigs[] = {0, 0, SIGINT, SIGHUP, SIGTERM, SIGQUIT, SIGXCPU, SIGXFSZ};
  static const char *const names[] = {"exit", "terminus", "SIGINT", "SIGHUP", "SIGTERM", "SIGQUIT", "SIGXCPU", "SIGXFSZ"};
  size_t holding = (size_t)std::count(fate.begin(), fate.end(), 0);
  src.note("%zu files, %zu held, %s", n, holding, names[how]);
  src.label(names[how]);
  if (holding) src.nontrivial();
  pid_t pid = fork();
  if (!pid) {
    signal(SIGALRM, SIG_DFL);
    alarm(60);
    WizardsToolkitTerminus();
    for (int s : {SIGINT, SIGHUP, SIGTERM, SIGQUIT, SIGXCPU, SIGXFSZ}) signal(s, SIG_DFL);
    setenv("WIZARD_TMPDIR", tmp.c_str(), 1);
    WizardsToolkitGenesis("pbt");
    std::string kept;
    Exc e;
    for (int f : fate) {
      char name[WizardPathExtent];
      int fd = AcquireUniqueFileResource("", name, e);
      if (fd == -1) _exit(99);
      close(fd);
      if (f) RelinquishUniqueFileResource(name, f == 1 ? WizardTrue : WizardFalse);
      if (f == 2) kept += std::string(name) + "\n";
    }
    write_file(list, Bytes(kept.begin(), kept.end()));
    if (how == 1) { WizardsToolkitTerminus(); _exit(0); }
    if (how == 0) { WizardsToolkitTerminus(); exit(0); }
    raise(sigs[how]);
    _exit(98);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) == -1 && errno == EINTR);
  CHECK(!(WIFEXITED(st) && WEXITSTATUS(st) == 99), "no temporary file could be made");
  CHECK(file_exists(list), "the process did not come to its end");
  CHECK(!(WIFEXITED(st) && WEXITSTATUS(st) == 98), "%s did not end the process", names[how]);
  std::set<std::string> want;
  Bytes text = read_file(list);
  std::string line;
  for (uint8_t c : text) { if (c == '\n') { want.insert(line); line.clear(); } else line += (char)c; }
  std::set<std::string> got = listing(tmp);
  CHECK(got == want, "%zu files instead of %zu are left", got.size(), want.size());
}
