// Generators and wrappers for the command line utilities.
#pragma once
#include "pbt.h"
#include <sys/stat.h>
#include <unistd.h>
using namespace pbt;
typedef std::vector<std::string> Args;

static const std::vector<std::string> kHashes = {"SHA2-256", "SHA1", "MD5", "CRC64", "SHA2-224", "SHA2-384", "SHA2-512", "SHA2",
  "SHA3", "SHA3-224", "SHA3-256", "SHA3-384", "SHA3-512"};

struct Config {
  std::string cipher, mode, entropy, level, hmac, key, keylen, random;  // empty: the default
  size_t chunk = 0;                                                    // 0: the default
  bool props = false, raw = false;
  Args args() const {
    Args a;
    auto add = [&](const char *o, const std::string &v) { if (!v.empty()) { a.push_back(o); a.push_back(v); } };
    add("-cipher", cipher); add("-mode", mode); add("-entropy", entropy); add("-level", level);
    add("-hmac", hmac); add("-key", key); add("-key-length", keylen); add("-random", random);
    if (chunk) add("-chunksize", std::to_string(chunk));
    if (raw) a.push_back("+(de)compress");
    return a;
  }
  std::string str() const { std::string s; for (auto &x : args()) s += x + " "; if (props) s += "-properties"; return s; }
  size_t block() const { return cipher == "Chacha" ? 64 : 16; }
  size_t chunksize() const { return chunk ? chunk : 16384; }
};
// always_mac: a message authentication hash is in use
static inline Config gen_config(Src &src, bool always_mac = false) {
  Config c;
  auto maybe = [&](std::initializer_list<const char *> l) { return src.chance(4, 5) ? std::string(src.of(std::vector<const char *>(l))) : std::string(); };
  c.cipher = maybe({"AES", "Serpent", "Twofish", "Chacha"});
  c.mode = maybe({"CBC", "CFB", "CTR", "ECB", "OFB"});
  c.entropy = maybe({"None", "Zip", "BZip", "LZMA"});
  if (!c.entropy.empty() && c.entropy != "None" && src.chance(1, 2)) c.level = std::to_string(src.range(c.entropy == "BZip" ? 1 : 0, 9));
  if (src.chance(3, 4)) c.hmac = !always_mac && src.chance(1, 6) ? "None" : src.of(kHashes);
  if (src.chance(1, 2)) c.key = src.of(kHashes);
  if (src.chance(1, 2)) c.keylen = src.of<std::string>({"256", "512", "1024", "2048"});
  if (src.chance(1, 4)) c.random = src.of(kHashes);
  if (src.chance(5, 6)) c.chunk = src.chance(1, 2) ? src.range(1, 200) : src.of<size_t>({16, 32, 48, 64, 128, 256, 1000, 1024, 4096, 8192, 8193, 65536});
  c.props = src.chance(1, 4);
  c.raw = src.chance(1, 4);
  return c;
}
// a length that tends to lie at chunk and block boundaries
static inline size_t gen_length(Src &src, const Config &c, size_t max_chunks = 6, size_t max = 200000) {
  size_t k = c.chunksize(), n;
  switch (src.pick(4)) {
    case 0: n = src.range(0, 80); break;
    case 1: n = src.range(0, max_chunks) * k + src.irange(0, 2 * (int)c.block() + 2) - c.block() - 1; break;
    case 2: n = src.range(0, max_chunks) * k + src.range(0, 4) * c.block(); break;
    default: n = src.range(0, max_chunks * k); break;
  }
  if ((ssize_t)n < 0) n = 0;
  return std::min(n, std::min(max, max_chunks * k + 40));
}
// at most 40 chunks for the coders that take long to start
static inline size_t capped(const Config &c, size_t n) { return c.entropy == "LZMA" || c.entropy == "BZip" ? std::min(n, 40 * c.chunksize()) : std::min(n, 2000 * c.chunksize()); }
static inline bool gz_or_bz(const Bytes &b) {
  return (b.size() >= 2 && b[0] == 0x1f && b[1] == 0x8b) || (b.size() >= 3 && b[0] == 'B' && b[1] == 'Z' && b[2] == 'h');
}
static inline Args cat(Args a, const Args &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static inline std::string join(const Args &a) { std::string s; for (auto &x : a) s += quote(x, 80) + " "; return s; }

struct Cli {
  std::string dir;
  RunOptions o;
  explicit Cli(const std::string &d) : dir(d) { o.cwd = d; o.cpu = 40; o.wall = 120; }
  RunResult run(const char *u, const Args &a, bool may_crash = false) {
    RunResult r = pbt::run(cat({bin(u)}, a), o);
    if (!may_crash) CHECK(!r.crashed() && !r.timeout, "%s %s: %s", u, join(a).c_str(), r.brief().c_str());
    return r;
  }
  std::string p(const std::string &n) const { return dir + "/" + n; }
};
