// C44: an enciphered file shows no part of its plaintext and no repetition in it.
#include "cli.h"
#include <map>

static const std::map<std::string, size_t> kMac = {{"", 32}, {"None", 0}, {"SHA2-256", 32}, {"SHA1", 20}, {"MD5", 16}, {"CRC64", 8}, {"SHA2-224", 28}, {"SHA2-384", 48}, {"SHA2-512", 64}, {"SHA2", 32}, {"SHA3", 32}, {"SHA3-224", 28}, {"SHA3-256", 32}, {"SHA3-384", 48}, {"SHA3-512", 64}};

static Bytes encipher(Cli &cli, const Config &c, const std::string &plain, const std::string &cip) {
  Args a = cat(c.args(), {"-keyring", "ring", "-passphrase", "pass"});
  if (c.props) a = cat(a, {"-properties", cip + ".props"});
  RunResult r = cli.run("encipher", cat(a, {plain, cip}));
  CHECK(r.code == 0, "encipher: %s", r.brief().c_str());
  return read_file(cli.p(cip));
}
static size_t body_of(const Config &c, const Bytes &b) {
  if (c.props) return 0;
  std::string mark = "<?cipherpacket?>\f\n", s(b.begin(), b.end());
  size_t p = s.find(mark);
  CHECK(p != s.npos, "no content properties");
  return p + mark.size();
}

PBT_TEST(repetition, {.quick = 900, .thorough = 20000, .rule = "one to three files made of a repeated block, a repeated chunk or constant bytes, sometimes with chunks of some kilobytes or a megabyte, enciphered into one keyring under a random cipher, chained mode, hash and chunk size without a coder; for every whole 16-byte block of every chunk the keystream (cipher block xor plaintext block; the cipher block itself in CBC mode) must differ from all others, as must the authentication codes; non-trivial: two or more chunks", .coverage = false}) {
  Cli cli(fresh_dir());
  Config c = gen_config(src);
  c.entropy = "None";
  c.level.clear();
  if (c.mode == "ECB") c.mode = "CTR";
  c.chunk = src.chance(1, 2) ? 16 * src.range(1, 20) : src.range(16, 600);
  if (src.chance(1, 10)) c.chunk = src.range(4000, 20000);             // the counter of a chunk passes one byte
  if (src.chance(1, 60)) c.chunk = src.range(1100000, 1400000);        // and two
  c.raw = true;
  write_file(cli.p("pass"), std::string("correct horse"));
  size_t mac = kMac.at(c.hmac), blk = c.chunk, files = src.range(1, 3);
  if (c.mode != "CFB") blk = (blk + c.block() - 1) / c.block() * c.block();
  std::map<std::string, std::string> seen, macs;
  src.note("%s", c.str().c_str());
  for (size_t f = 0; f < files; f++) {
    size_t n = src.range(0, c.chunk < 1000 ? 8 * c.chunk : 3 * c.chunk / 2);
    size_t period = src.of<size_t>({1, 16, c.chunk, 64});
    Bytes unit = src.chance(1, 4) ? Bytes(period, 0) : src.blob(period), data(n);
    for (size_t i = 0; i < n; i++) data[i] = unit[i % period];
    src.note("%zu bytes of period %zu", n, period);
    std::string cip = fmt("c%zu", f);
    write_file(cli.p("plain"), data);
    Bytes b = encipher(cli, c, "plain", cip);
    size_t p = body_of(c, b);
    if (n > c.chunk) src.nontrivial();
    for (size_t at = 0, k = 0; at < n; at += c.chunk, k++) {
      size_t len = std::min(c.chunk, n - at);
      CHECK(p + mac + (c.mode == "CFB" ? len : (len + c.block() - 1) / c.block() * c.block()) <= b.size(), "chunk %zu of %s lies beyond the %zu bytes of the file", k, cip.c_str(), b.size());
      std::string code(b.begin() + p, b.begin() + p + mac);
      if (mac) {
        auto q = macs.emplace(code, fmt("file %zu chunk %zu", f, k));
        CHECK(q.second, "file %zu chunk %zu has the authentication code of %s", f, k, q.first->second.c_str());
      }
      p += mac;
      for (size_t i = 0; i + 16 <= len; i += 16) {
        std::string x(b.begin() + p + i, b.begin() + p + i + 16);
        if (c.mode != "CBC") for (int j = 0; j < 16; j++) x[j] ^= data[at + i + j];
        auto q = seen.emplace(x, fmt("file %zu chunk %zu block %zu", f, k, i / 16));
        if (!q.second) {
          std::string msg = fmt("file %zu chunk %zu block %zu is enciphered like %s (%s)", f, k, i / 16, q.first->second.c_str(), c.str().c_str());
          if (c.cipher == "Chacha") known(src, "chacha-keystream", msg);
          else CHECK(false, "%s", msg.c_str());
        }
      }
      p += blk;
    }
  }
}

PBT_TEST(no_plaintext, {.quick = 500, .thorough = 10000, .rule = "a file of unique bytes with a unique passphrase, any configuration including coders and separate properties: no 8 byte window of the plaintext or passphrase occurs in the enciphered file, the properties, the keyring or the random reservoir; non-trivial: eight bytes or more", .coverage = false}) {
  Cli cli(fresh_dir());
  Config c = gen_config(src);
  c.raw = true;
  size_t n = std::min<size_t>(gen_length(src, c, 5, 6000), 6000);
  Bytes data(n);
  Rng g(src.u64());
  for (auto &x : data) x = (uint8_t)g.next();
  if (src.chance(1, 3)) for (auto &x : data) x = "abcdefghijklmnop"[x & 15];   // compressible
  std::string pass;
  for (int i = 0; i < 24; i++) pass += (char)('!' + g.below(90));
  write_file(cli.p("plain"), data);
  write_file(cli.p("pass"), pass);
  encipher(cli, c, "plain", "c.cip");
  src.note("%s | %zu bytes", c.str().c_str(), n);
  if (n >= 8) src.nontrivial();
  std::set<std::string> windows;
  std::string d(data.begin(), data.end());
  for (size_t i = 0; i + 8 <= n; i++) windows.insert(d.substr(i, 8));
  for (size_t i = 0; i + 8 <= pass.size(); i++) windows.insert(pass.substr(i, 8));
  for (const char *name : {"c.cip", "c.cip.props", "ring", "ring/keyring.xdm", "keyring.xdm", "reservoir.xdm", ".wizard/reservoir.xdm"}) {
    Bytes b = read_file(cli.p(name));
    for (size_t i = 0; i + 8 <= b.size(); i++)
      CHECK(!windows.count(std::string(b.begin() + i, b.begin() + i + 8)), "%s holds 8 bytes of the plaintext or passphrase at %zu (%s)", name, i, c.str().c_str());
  }
}
