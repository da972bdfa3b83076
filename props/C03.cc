// C03: only the right passphrase with the right keyring opens a content.
#include "cli.h"

static std::string gen_phrase(Src &src) {
  std::string s;
  if (src.chance(1, 3)) s = src.text(src.range(1, 200), "abcdefgh 0123!\n");
  else { s = src.cstr(40); if (s.empty()) s = "p"; }
  return s;
}
static std::string vary(Src &src, const std::string &s) {
  std::string t = s;
  switch (src.pick(7)) {
    case 0: t[src.pick(t.size())] ^= 1 << src.pick(7); break;
    case 1: t += src.of<std::string>({"\n", " ", "x", "\r"}); break;
    case 2: t.pop_back(); break;
    case 3: t.erase(0, 1); break;
    case 4: t[t.size() - 1] ^= 0x20; break;
    case 5: t = t + t; break;
    default: t = gen_phrase(src); break;
  }
  for (char &ch : t) if (!ch) ch = 1;     // trailing NULs are not told apart by HMAC
  if (t.empty() || t == s) t = s + "!";
  return t;
}
struct Doc { Config c; Bytes data; std::string ring, phrase, cip; };
static Args dec(const Doc &d, const std::string &ring, const std::string &pass) {
  Args a = {"-keyring", ring, "-passphrase", pass};
  if (d.c.props) a = cat(a, {"-properties", d.cip + ".rdf"});
  a.push_back("+(de)compress");
  return cat(a, {d.cip, "out"});
}
static void refused(Cli &cli, const Doc &d, const std::string &ring, const std::string &pass, const char *why) {
  unlink(cli.p("out").c_str());
  RunResult r = cli.run("decipher", dec(d, ring, pass), true);
  Bytes out = read_file(cli.p("out"));
  CHECK(r.code != 0, "deciphered with %s (%s): %s", why, d.c.str().c_str(), r.brief().c_str());
  CHECK(d.data.size() < 8 || out != d.data, "plaintext written despite %s", why);
}
PBT_TEST(wrong_key, {.quick = 700, .thorough = 15000, .rule = "two files enciphered into one or two keyrings with two passphrases; deciphered with near and far wrong passphrases, missing, foreign, empty keyrings and the wrong pairing, then rightly; non-trivial: a passphrase differing in one character was refused", .coverage = false}) {
  Cli cli(fresh_dir());
  std::string p1 = gen_phrase(src), p2 = vary(src, p1);
  bool two = src.chance(1, 2);
  write_file(cli.p("p1"), p1);
  write_file(cli.p("p2"), p2);
  Doc d[2];
  Bytes data = src.blob(src.range(0, 400));
  for (int i = 0; i < 2; i++) {
    d[i].c = gen_config(src);
    d[i].c.raw = true;
    if (d[i].c.chunk) d[i].c.chunk = std::max<size_t>(d[i].c.chunk, 10);
    d[i].data = src.chance(1, 2) ? data : src.blob(src.range(0, 400));
    d[i].ring = two && i ? "ring2.xdm" : "ring1.xdm";
    d[i].cip = fmt("c%d", i);
    write_file(cli.p("plain"), d[i].data);
    Args a = d[i].c.args();
    if (d[i].c.props) a = cat(a, {"-properties", d[i].cip + ".rdf"});
    a = cat(a, {"-keyring", d[i].ring, "-passphrase", i ? "p2" : "p1", "plain", d[i].cip});
    RunResult r = cli.run("encipher", a);
    CHECK(r.code == 0, "encipher: %s", r.brief().c_str());
  }
  src.note("%s against %s, %s", quote(p1).c_str(), quote(p2).c_str(), two ? "two keyrings" : "one keyring");
  refused(cli, d[0], d[0].ring, "p2", "another passphrase");
  refused(cli, d[1], d[1].ring, "p1", "another passphrase");
  write_file(cli.p("p3"), vary(src, p1));
  refused(cli, d[0], d[0].ring, "p3", "a passphrase nearly right");
  if (two) refused(cli, d[0], d[1].ring, "p1", "a foreign keyring");
  std::string none = src.of<std::string>({"missing", "empty"});
  write_file(cli.p("empty"), Bytes());
  refused(cli, d[0], none, "p1", "a keyring without the key");
  refused(cli, d[1], d[1].ring, "nofile", "no passphrase");
  for (int i = 0; i < 2; i++) {
    RunResult r = cli.run("decipher", dec(d[i], d[i].ring, i ? "p2" : "p1"));
    CHECK(r.code == 0, "right passphrase refused: %s", r.brief().c_str());
    CHECK(read_file(cli.p("out")) == d[i].data, "right passphrase gives other bytes");
  }
  size_t diff = 0;
  for (size_t i = 0; i < std::min(p1.size(), p2.size()); i++) diff += p1[i] != p2[i];
  if (p1.size() == p2.size() && diff == 1) src.nontrivial();
}

// A content found in a ciphertext: no stretch of the plaintext may show.
static bool shows(const Bytes &big, const Bytes &data, size_t n) {
  std::set<std::string> w;
  for (size_t i = 0; i + n <= data.size(); i++) w.insert(std::string(data.begin() + i, data.begin() + i + n));
  for (size_t i = 0; i + n <= big.size(); i++) if (w.count(std::string(big.begin() + i, big.begin() + i + n))) return true;
  return false;
}
PBT_TEST(twice, {.quick = 500, .thorough = 10000, .rule = "the same file enciphered twice with the same options, passphrase and keyring (fresh entropy); the key ids and chunks differ and no 12-byte stretch of the plaintext shows in output or keyring; non-trivial: at least 16 bytes", .coverage = false}) {
  Cli cli(fresh_dir());
  Config c = gen_config(src);
  c.raw = true;
  c.props = true;          // the ciphertext file then holds chunks only
  Bytes data = src.chance(1, 2) ? src.bytes(capped(c, src.range(8, 600))) : src.blob(gen_length(src, c, 4, 3000));
  write_file(cli.p("plain"), data);
  write_file(cli.p("pass"), std::string("one passphrase of many"));
  src.note("%s | %zu bytes", c.str().c_str(), data.size());
  Bytes body[2], props[2];
  bool samering = src.chance(1, 2);
  for (int i = 0; i < 2; i++) {
    Args a = cat(c.args(), {"-properties", fmt("r%d", i), "-keyring", samering ? "ring" : fmt("ring%d", i), "-passphrase", "pass", "plain", fmt("c%d", i)});
    RunResult r = cli.run("encipher", a);
    CHECK(r.code == 0, "encipher: %s", r.brief().c_str());
    body[i] = read_file(cli.p(fmt("c%d", i)));
    props[i] = read_file(cli.p(fmt("r%d", i)));
  }
  CHECK(props[0] != props[1], "the same content properties twice");
  if (data.size() < 8) return;
  CHECK(body[0] != body[1], "the same ciphertext twice");
  if (data.size() >= 16) {
    src.nontrivial();
    CHECK(!shows(body[0], body[1], 16), "both ciphertexts share a block");
    bool plain = std::set<uint8_t>(data.begin(), data.end()).size() > 16;
    if (plain) for (int i = 0; i < 2; i++) CHECK(!shows(body[i], data, 12) && !shows(props[i], data, 12), "the plaintext shows in the output");
  }
}
