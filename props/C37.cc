// C37: utilities given arbitrary files end with a status, not a crash or hang.
#include "cli.h"
#include "ref.h"
#include <map>
#include <sys/wait.h>

static void ended(const RunResult &r, const char *u) {
  CHECK(!r.crashed() && !r.timeout && r.code >= 0, "%s: %s", u, r.brief().c_str());
}
// a path that starts with '|' would be run as a command: never generate one
static std::string tame(std::string s) { for (char &c : s) if (c == '|') c = '!'; return s; }
static std::string str(const Bytes &b) { return std::string(b.begin(), b.end()); }
static std::string packet(const std::string &rdf) {
  Bytes d = ref::hash(ref::SHA2256, Bytes(rdf.begin(), rdf.end()));
  return fmt("<?cipherpacket digest=\"%s\" bytes=\"%zu\"?>\n", hex(d.data(), d.size(), d.size()).c_str(), rdf.size()) + rdf + "<?cipherpacket?>\f\n";
}
static std::string odd_value(Src &src, const std::string &old) {
  static const std::vector<std::string> v = {"", "0", "-1", "1", "3", "15", "16", "17", "64", "255", "1000", "65536", "4294967295", "4294967296", "99999999999999999999", "1e9", "-0", "0x10", "nan",
    "Undefined", "None", "AES", "Serpent", "Twofish", "Chacha", "CBC", "CFB", "CTR", "ECB", "OFB", "Zip", "BZip", "LZMA", "MD5", "SHA1", "SHA2-512", "SHA3", "SHA3-512", "CRC64", "Secret", "Public", "sha,aes", "nonsense", "\xff\xfe", "&bad;", "&amp;", "&#0;", "&#x110000;", "<x/>", "<![CDATA[x]]>", " ", "abc", "0123456789abcdef0", "2026-11-16T01:56:27+00:00", "9999999999-99-99T99:99:99Z", "-1-0-0T"};
  switch (src.pick(5)) {
    case 0: return std::string(src.range(1, src.chance(1, 4) ? 70000 : 9000), (char)('0' + src.pick(40)));
    case 1: return old.empty() ? "x" : old.substr(0, src.range(0, old.size() - 1));
    case 2: { std::string s = old; if (!s.empty()) s[src.pick(s.size())] = (char)src.byte(); return s; }
    default: return src.of(v);
  }
}
// a processing instruction at the start of a file, as the utilities may meet it
static std::string odd_instruction(Src &src, const std::string &rdf) {
  Bytes d = ref::hash(ref::SHA2256, Bytes(rdf.begin(), rdf.end()));
  std::string s = "<?cipherpacket";
  for (size_t n = src.range(0, 5); n; n--) {
    std::string key = src.of<std::string>({"digest", "bytes", "Digest", "BYTES", "d", "b", "x", ""}), value;
    if (src.chance(1, 12)) key = std::string(src.range(1, 20000), "dbx"[src.pick(3)]);
    if (key[0] == 'd' && src.chance(1, 2)) value = hex(d.data(), d.size(), d.size());
    else if (src.chance(1, 2)) value = src.of<std::string>({fmt("%zu", rdf.size()), fmt("%zu", rdf.size() + 1), "0", "-1", "1", "99999999", "18446744073709551615", "-9223372036854775808", "1e3", ""});
    else value = odd_value(src, fmt("%zu", rdf.size()));
    s += src.of<std::string>({" ", " ", "", "  \n"}) + key + src.of<std::string>({"=", "=", "=", " = ", "", "=="});
    s += src.chance(1, 5) ? value : "\"" + value + (src.chance(1, 8) ? "" : "\"");
  }
  return s + src.of<std::string>({"?>\n", "?>\n", ">", "", "?", " ?>\n"});
}
// changes some elements of an RDF document
static std::string vary_rdf(Src &src, std::string s, const char *prefix) {
  size_t m = src.range(1, 3);
  while (m--) {
    std::vector<std::pair<size_t, size_t>> e;    // element text
    for (size_t i = 0; (i = s.find(std::string("<") + prefix, i)) != s.npos; i++) {
      size_t g = s.find('>', i), l = g == s.npos ? s.npos : s.find('<', g);
      if (l != s.npos && l > g + 1 && s[g + 1] != '\n') e.push_back({g + 1, l - g - 1});
    }
    if (e.empty()) break;
    auto x = e[src.pick(e.size())];
    switch (src.pick(6)) {
      case 0: { size_t a = s.rfind('<', x.first), b = s.find('\n', x.first); if (b != s.npos) s.erase(a, b - a); break; }
      case 1: { size_t a = s.rfind('<', x.first), b = s.find('\n', x.first); if (b != s.npos) s.insert(a, s.substr(a, b - a)); break; }
      case 2: { size_t i = src.pick(s.size()); s[i] = (char)src.byte(); break; }
      default: s.replace(x.first, x.second, odd_value(src, s.substr(x.first, x.second)));
    }
  }
  return s;
}
static Bytes damage(Src &src, Bytes b) {
  size_t m = src.range(1, 3);
  while (m--) {
    size_t n = b.size();
    switch (n ? src.pick(7) : 4) {
      case 0: b[src.pick(n)] ^= 1 << src.pick(8); break;
      case 1: { size_t i = src.pick(n), k = src.range(1, 8); for (size_t j = i; j < std::min(n, i + k); j++) b[j] = src.chance(1, 2) ? (src.chance(1, 2) ? 0xff : 0) : src.byte(); break; }
      case 2: b.resize(src.range(0, n - 1)); break;
      case 3: { size_t i = src.pick(n); b.erase(b.begin() + i, b.begin() + std::min(n, i + src.range(1, 40))); break; }
      case 4: { Bytes x = src.bytes(src.range(1, 60)); b.insert(b.begin() + src.range(0, n), x.begin(), x.end()); break; }
      case 5: { size_t i = src.pick(n), k = std::min<size_t>(n - i, src.range(1, 200)); Bytes x(b.begin() + i, b.begin() + i + k); b.insert(b.begin() + src.range(0, n), x.begin(), x.end()); break; }
      default: { size_t i = n < 40 ? 0 : src.pick(n - 3); for (size_t j = 0; j < 4 && i + j < n; j++) b[i + j] = (uint8_t)(src.of<uint32_t>({0, 1, 0xffffffff, 0x7fffffff, 0x80000000, 0x10000}) >> 8 * j); break; }
    }
  }
  return b;
}

PBT_TEST(contents, {.quick = 1200, .thorough = 24000, .rule = "decipher and cipher-info on enciphered files with crafted, correctly sealed content properties, with arbitrary names and values of up to 70000 bytes in the instruction before them, damaged anywhere, replaced by arbitrary bytes or compressed garbage; non-trivial: crafted properties", .coverage = false}) {
  Cli cli(fresh_dir());
  Config c = gen_config(src);
  c.props = false;
  c.raw = true;
  Bytes data = src.blob(capped(c, src.range(0, 600)));
  write_file(cli.p("plain"), data);
  write_file(cli.p("pass"), std::string("correct horse"));
  RunResult r = cli.run("encipher", cat(c.args(), {"-keyring", "ring", "-passphrase", "pass", "plain", "c"}));
  CHECK(r.code == 0, "encipher: %s", r.brief().c_str());
  std::string g = str(read_file(cli.p("c")));
  size_t a = g.find('\n') + 1, z = g.find("<?cipherpacket?>");
  CHECK(z != g.npos && z > a, "no content properties");
  std::string rdf = g.substr(a, z - a), body = g.substr(z + 18);
  for (int k = 0; k < 5; k++) {
    std::string b, how;
    bool sealed = false;
    switch (src.pick(8)) {
      case 6: case 7: b = odd_instruction(src, rdf) + rdf + "<?cipherpacket?>\f\n" + body; how = "odd instruction"; break;
      case 0: { Bytes x = src.bytes(src.range(0, 2000)); b = str(x); how = "arbitrary"; break; }
      case 1: b = str(damage(src, Bytes(g.begin(), g.end()))); how = "damaged"; break;
      case 2: { Bytes x = src.bytes(src.range(0, 60)); b = (src.chance(1, 2) ? std::string("\x1f\x8b\x08\0\0\0\0\0\0\x03", 10) : std::string("BZh91AY&SY")) + str(x); how = "compressed garbage"; break; }
      default: b = packet(vary_rdf(src, rdf, "cipher:")) + (src.chance(1, 3) ? str(damage(src, Bytes(body.begin(), body.end()))) : body); sealed = true; how = "crafted"; break;
    }
    write_file(cli.p("bad"), b);
    src.note("%s %s", how.c_str(), sealed ? "" : quote(b, 60).c_str());
    bool info = src.chance(1, 3);
    r = info ? pbt::run({bin("cipher-info"), "bad"}, cli.o)
             : pbt::run(cat(cat({bin("decipher")}, src.chance(1, 2) ? Args{"+(de)compress"} : Args{}), {"-keyring", "ring", "-passphrase", "pass", "bad", "out"}), cli.o);
    ended(r, info ? "cipher-info" : "decipher");
    if (sealed) src.nontrivial();
    src.label(fmt("%s %s %s", info ? "cipher-info" : "decipher", how.c_str(), r.code ? "refused" : "accepted"));
  }
}

PBT_TEST(keyrings, {.quick = 700, .thorough = 16000, .rule = "keyring, encipher and decipher on damaged or arbitrary keyring and reservoir files; non-trivial: a keyring of at least one whole key was damaged", .coverage = false}) {
  Cli cli(fresh_dir());
  write_file(cli.p("plain"), src.blob(src.range(0, 100)));
  write_file(cli.p("pass"), std::string("correct horse"));
  size_t keys = src.range(1, 3);
  RunResult r;
  for (size_t i = 0; i < keys; i++) {
    r = cli.run("encipher", {"-keyring", "ring", "-passphrase", "pass", "plain", "c"});
    CHECK(r.code == 0, "encipher: %s", r.brief().c_str());
  }
  r = cli.run("keyring", {"ring", "-"});
  CHECK(r.code == 0, "keyring: %s", r.brief().c_str());
  size_t i = r.out.find("Key rdf:about=\"");
  CHECK(i != r.out.npos, "no key listed: %s", quote(r.out).c_str());
  std::string id = r.out.substr(i + 15, r.out.find('"', i + 15) - i - 15);
  Bytes ring = read_file(cli.p("ring")), res = read_file(cli.p("reservoir.xdm"));
  for (int k = 0; k < 6; k++) {
    Bytes b;
    bool arbitrary = src.chance(1, 5);
    if (arbitrary) b = src.bytes(src.range(0, 300));
    else b = damage(src, ring);
    if (src.chance(1, 2) && b.size() > 64) std::copy(ring.begin(), ring.begin() + std::min<size_t>(64, ring.size()), b.begin());   // keep the header
    write_file(cli.p("bad"), b);
    if (src.chance(1, 3) && !res.empty()) write_file(cli.p("reservoir.xdm"), src.chance(1, 4) ? src.bytes(src.range(0, 200)) : damage(src, res));
    else unlink(cli.p("reservoir.xdm").c_str());
    unlink(cli.p("exp").c_str());
    const char *u = "keyring";
    switch (src.pick(4)) {
      case 0: r = pbt::run({bin("keyring"), "bad", "-"}, cli.o); break;
      case 1: r = pbt::run({bin("keyring"), "-export", src.chance(1, 4) ? src.of<std::string>({"", "0", "zz", "00", id + "00"}) : id, "bad", "exp"}, cli.o); break;
      case 2: u = "decipher"; r = pbt::run({bin("decipher"), "-keyring", "bad", "-passphrase", "pass", "c", "out"}, cli.o); break;
      default: u = "encipher"; r = pbt::run({bin("encipher"), "-keyring", "bad", "-passphrase", "pass", "plain", "c2"}, cli.o); break;
    }
    ended(r, u);
    if (!arbitrary) src.nontrivial();
    src.label(fmt("%s %s", u, r.code ? "refused" : "accepted"));
  }
}

PBT_TEST(documents, {.quick = 900, .thorough = 20000, .rule = "digest authentication of varied, damaged and arbitrary documents; non-trivial: a varied document", .coverage = false}) {
  Cli cli(fresh_dir());
  write_file(cli.p("f"), src.blob(src.range(0, 9000)));
  write_file(cli.p("g"), src.blob(src.range(0, 100)));
  RunResult r = cli.run("digest", {"-hash", src.of(kHashes), "f", "g", "doc"});
  CHECK(r.code == 0, "digest: %s", r.brief().c_str());
  Bytes good = read_file(cli.p("doc"));
  for (int k = 0; k < 5; k++) {
    std::string b;
    switch (src.pick(4)) {
      case 0: b = str(src.bytes(src.range(0, 1000))); break;
      case 1: b = str(damage(src, good)); break;
      default: b = vary_rdf(src, str(good), "digest:"); src.nontrivial(); break;
    }
    write_file(cli.p("bad"), tame(b));
    r = pbt::run({bin("digest"), "-authenticate", "bad", "-"}, cli.o);
    ended(r, "digest");
    src.label(r.code ? "refused" : "accepted");
  }
}

PBT_TEST(options, {.quick = 8000, .thorough = 150000, .rule = "every utility with random, unknown, valueless, repeated or out-of-range options and missing, odd or nonexistent files; non-trivial: an option with an argument", .coverage = false}) {
  Cli cli(fresh_dir());
  write_file(cli.p("plain"), src.blob(src.range(0, 200)));
  write_file(cli.p("pass"), src.chance(1, 4) ? src.bytes(src.range(0, 5000)) : Bytes{'p', 'w'});
  std::string u = src.of<std::string>({"encipher", "decipher", "digest", "keyring", "cipher-info"});
  static const std::vector<std::string> names = {"-cipher", "-mode", "-entropy", "-level", "-hmac", "-key", "-key-length", "-random", "-chunksize", "-properties", "-keyring", "-passphrase", "-hash", "-authenticate", "-export",
    "-list", "-log", "-debug", "-version", "-help", "-bench", "-regard-warnings", "-(de)compress", "-nonsense", "-", "--", "-c", "-k"};
  static const std::vector<std::string> values = {"AES", "None", "Undefined", "CFB", "zip", "SHA1", "SHA3-512", "0", "1", "2", "-1", "8", "64", "100", "256", "1024", "100000", "4294967296", "99999999999999999999", "1.5", "abc", "plain", "pass", "ring", "nofile", ".", "%t %e", "%", "all", "exception", "Hash", "Cipher", "List", "configure", "-", "secret", "6304c9a04bcbf176"};
  Args a;
  size_t n = src.range(0, 4);
  for (size_t i = 0; i < n; i++) {
    std::string o = src.of(names);
    if (src.chance(2, 3)) {     // one the utility knows
      if (u == "digest") o = src.of<std::string>({"-hash", "-authenticate", "-list", "-log", "-debug"});
      else if (u == "keyring") o = src.of<std::string>({"-export", "-list", "-log", "-debug"});
      else if (u == "cipher-info") o = src.of<std::string>({"-list", "-log", "-debug"});
      else o = names[src.pick(12)];
    }
    if (src.chance(1, 10)) o[0] = '+';
    a.push_back(o);
    if (src.chance(4, 5)) {
      std::string v = src.of(values);
      if (o == "-bench" || o == "+bench") v = src.of<std::string>({"1", "0", "x"});    // it repeats the run
      a.push_back(v);
      src.nontrivial();
    }
  }
  if (src.chance(3, 4)) a = cat(a, {"-passphrase", "pass"});
  size_t m = src.range(0, 3);
  for (size_t i = 0; i < m; i++) a.push_back(src.of<std::string>({"plain", "pass", "out", "nofile", ".", "-", "nodir/x", "plain.gz"}));
  src.note("%s %s", u.c_str(), join(a).c_str());
  cli.o.in = "typed\ntyped\n";
  RunResult r = pbt::run(cat({bin(u.c_str())}, a), cli.o);
  ended(r, u.c_str());
  src.label(fmt("%s %s", u.c_str(), r.code ? "refused" : "accepted"));
}
