// Choice-sequence property-based testing engine with coverage feedback.
//
// A test is a function of a Src: every random decision is drawn from the Src
// as a few bytes.  A case is therefore just a byte string, which can be
// recorded, replayed, mutated under coverage guidance, and shrunk.
#pragma once
#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <algorithm>

namespace pbt {

typedef std::vector<uint8_t> Bytes;

struct Rng {  // splitmix64
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
};

struct Fail {
  std::string msg;
};
struct Discard {};

class Src {
 public:
  // generation: prefix bytes first, then random ones; replay: bytes then zeros
  Src(const Bytes &prefix, bool replay, uint64_t seed);
  uint64_t raw(int nbytes);
  // uniform in [lo,hi]; zero bytes give lo
  uint64_t range(uint64_t lo, uint64_t hi);
  int64_t irange(int64_t lo, int64_t hi) {
    return (int64_t)((uint64_t)lo + range(0, (uint64_t)hi - (uint64_t)lo));
  }
  bool chance(unsigned num, unsigned den);   // zero bytes give false
  uint8_t byte() { return (uint8_t)raw(1); }
  uint64_t u64() { return raw(8); }
  size_t pick(size_t n) { return (size_t)range(0, n - 1); }
  // weighted choice; zero bytes give index 0
  size_t weighted(std::initializer_list<unsigned> w);
  // size with a bias towards small ones and towards the given boundaries
  size_t size(size_t max, std::initializer_list<size_t> edges = {});
  Bytes bytes(size_t n);                // n explicit choice bytes
  Bytes blob(size_t n);                 // n bytes of assorted texture, cheap in choices
  Bytes data(size_t max, std::initializer_list<size_t> edges = {});
  std::string text(size_t n, const char *alphabet);  // from an alphabet
  std::string cstr(size_t maxlen);      // arbitrary non-NUL bytes, biased to ASCII
  template <class T> const T &of(const std::vector<T> &v) { return v[pick(v.size())]; }

  void nontrivial() { nontrivial_ = true; }
  void label(const std::string &l) { labels_.insert(l); }
  void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  bool verbose() const;

  bool nontrivial_ = false;
  std::set<std::string> labels_;
  size_t pos() const { return pos_; }
  uint64_t case_seed() const { return seed_; }

 private:
  Bytes in_;
  bool replay_;
  uint64_t seed_;
  Rng rng_;
  size_t pos_ = 0;
};

void fail(const char *file, int line, const char *fmt, ...)
    __attribute__((format(printf, 3, 4), noreturn));
#define CHECK(cond, ...)                                          \
  do {                                                            \
    if (!(cond)) ::pbt::fail(__FILE__, __LINE__, __VA_ARGS__);    \
  } while (0)

// a violation that matches a finding listed under this key in known_findings.txt
// is reported as known and the case goes on; otherwise the case fails
void known(Src &src, const char *key, const std::string &msg);

[[noreturn]] inline void discard() { throw Discard(); }

typedef void (*TestFn)(Src &);
struct Options {
  uint64_t quick = 1000, thorough = 10000;  // number of cases
  const char *rule = "";                    // what is generated, what is non-trivial
  bool nondet = false;                      // failures may depend on scheduling
  double case_cpu = 20;                     // seconds of CPU one case may take
  double case_wall = 90;                    // seconds without progress
  bool coverage = true;                     // use coverage feedback
  int workers = 0;                          // 0: default
  double quick_s = 60, thorough_s = 600;    // time cap: stop exploring, not a verdict
  bool enumerate = false;                   // first choice byte of case i is i
  bool setup = true;                        // call pbt_worker_setup in workers
};
struct Registrar {
  Registrar(const char *name, TestFn fn, Options o);
};
#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PBT_TEST(name, ...)                                                      \
  static void name(::pbt::Src &src);                                             \
  static ::pbt::Registrar PBT_CAT(reg_, name)(#name, name, ::pbt::Options __VA_ARGS__); \
  static void name(::pbt::Src &src)

// scratch directory of this worker (exists, private, removed by the parent)
const std::string &scratch();
// an empty directory below scratch(), emptied on each call
std::string fresh_dir(const char *name = "case");
void empty_dir(const std::string &path);
bool thorough();

std::string hex(const void *p, size_t n, size_t max = 64);
inline std::string hex(const Bytes &b, size_t max = 64) { return hex(b.data(), b.size(), max); }
std::string quote(const std::string &s, size_t max = 200);
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));

Bytes read_file(const std::string &path, bool *ok = nullptr);
void write_file(const std::string &path, const void *p, size_t n);
inline void write_file(const std::string &path, const Bytes &b) { write_file(path, b.data(), b.size()); }
inline void write_file(const std::string &path, const std::string &b) { write_file(path, b.data(), b.size()); }
bool file_exists(const std::string &path);

struct RunResult {
  int code = -1;     // exit code, or -1 when ended by a signal
  int sig = 0;
  bool timeout = false;
  std::string out, err;
  bool crashed() const;  // signal, sanitizer report, assertion
  std::string brief() const;
};
struct RunOptions {
  std::string cwd;
  std::string in;
  std::vector<std::string> env;   // added to the base environment
  long fsize = -1;                // RLIMIT_FSIZE
  double cpu = 20, wall = 60;
  std::string stdout_path;        // when set, stdout goes to this file
};
RunResult run(const std::vector<std::string> &argv, const RunOptions &o = RunOptions());
std::string bin(const char *utility);   // path of an instrumented utility
std::string repo();                     // path of the repository under test

// getentropy() as seen by the code under test: deterministic per case unless
// switched to the kernel's.
void real_entropy(bool on);
void fail_entropy(bool on);   // getentropy() fails, as on a kernel without it

}  // namespace pbt

// called once in each worker before its first case
extern "C" void pbt_worker_setup(void) __attribute__((weak));
