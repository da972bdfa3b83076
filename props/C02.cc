// C02: altered ciphertext is detected or harmless.
#include "cli.h"
#include "ref.h"

PBT_TEST(altered, {.quick = 700, .thorough = 16000, .rule = "a file enciphered under a random configuration with a message authentication hash, then altered eight times (bytes changed, inserted, deleted, runs overwritten, tail cut or extended) in header or chunks, each deciphered with the right key; non-trivial: an alteration the utility refused", .coverage = false}) {
  Cli cli(fresh_dir());
  Config c = gen_config(src, true);
  c.chunk = std::max<size_t>(c.chunk, 8);
  c.raw = src.chance(3, 4);
  Bytes data = src.blob(gen_length(src, c, 5, 20000));
  if (gz_or_bz(data)) c.raw = true;
  write_file(cli.p("plain"), data);
  write_file(cli.p("pass"), std::string("correct horse"));
  std::string cip = c.raw ? "c.cip" : src.of<std::string>({"c.cip", "c.gz", "c.bz2"});
  Args a = c.args();
  if (c.props) a = cat(a, {"-properties", "props"});
  a = cat(a, {"-keyring", "ring", "-passphrase", "pass", "plain", cip});
  RunResult r = cli.run("encipher", a);
  CHECK(r.code == 0, "encipher: %s", r.brief().c_str());
  Bytes good = read_file(cli.p(cip)), props = c.props ? read_file(cli.p("props")) : Bytes();
  src.note("%s | %zu bytes, %zu enciphered, %s", c.str().c_str(), data.size(), good.size(), cip.c_str());
  size_t body = 0;
  std::string mark = "<?cipherpacket?>\f\n", g(good.begin(), good.end());
  if (!c.props && g.find(mark) != g.npos) body = g.find(mark) + mark.size();
  bool packed = cip != "c.cip";
  for (int k = 0; k < 8; k++) {
    bool in_props = c.props && src.chance(1, 4);
    Bytes b = in_props ? props : good;
    size_t lo = in_props || packed || src.chance(1, 5) ? 0 : body;   // mostly in the chunks
    auto at = [&](size_t extra) {
      size_t n = b.size() + extra;
      if (n <= lo) lo = 0;
      return src.chance(1, 4) ? std::min(n - 1, lo + src.range(0, 100)) : src.chance(1, 4) ? n - 1 - src.range(0, std::min<size_t>(n - 1, 100)) : src.range(lo, n - 1);
    };
    std::string what;
    if (b.empty()) { b.push_back(src.byte()); what = "one byte added"; }
    else switch (src.pick(7)) {
      case 0: { size_t i = at(0); b[i] ^= 1 << src.pick(8); what = fmt("bit of byte %zu", i); break; }
      case 1: { size_t i = at(0), n = src.range(1, 4); for (size_t j = i; j < std::min(i + n, b.size()); j++) b[j] = src.byte(); what = fmt("%zu bytes at %zu", n, i); break; }
      case 2: { size_t i = at(1); Bytes x = src.bytes(src.range(1, 6)); b.insert(b.begin() + i, x.begin(), x.end()); what = fmt("%zu inserted at %zu", x.size(), i); break; }
      case 3: { size_t i = at(0), n = std::min<size_t>(src.range(1, 6), b.size() - i); b.erase(b.begin() + i, b.begin() + i + n); what = fmt("%zu deleted at %zu", n, i); break; }
      case 4: { size_t i = at(0); b.resize(i); what = fmt("cut to %zu", i); break; }
      case 5: { size_t i = at(0), n = std::min<size_t>(src.range(1, 40), b.size() - i); Bytes x(n, src.byte()); std::copy(x.begin(), x.end(), b.begin() + i); what = fmt("%zu overwritten at %zu", n, i); break; }
      default: { Bytes x = src.chance(1, 2) ? src.bytes(src.range(1, 80)) : Bytes(b.end() - std::min<size_t>(b.size(), src.range(1, 20)), b.end()); b.insert(b.end(), x.begin(), x.end()); what = fmt("%zu appended", x.size()); break; }
    }
    if (b == (in_props ? props : good)) continue;
    write_file(cli.p("bad"), in_props ? good : b);
    if (c.props) write_file(cli.p("badprops"), in_props ? b : props);
    Args d = {"-keyring", "ring", "-passphrase", "pass"};
    if (c.props) d = cat(d, {"-properties", "badprops"});
    if (c.raw) d.push_back("+(de)compress");
    d = cat(d, {"bad", "out"});
    unlink(cli.p("out").c_str());
    r = cli.run("decipher", d, true);
    src.note("%s%s -> %d", in_props ? "properties: " : "", what.c_str(), r.code);
    if (r.code == 0) {
      Bytes out = read_file(cli.p("out"));
      CHECK(out == data, "%s%s: accepted and deciphered to %zu bytes, original %zu (%s)", in_props ? "properties: " : "", what.c_str(), out.size(), data.size(), c.str().c_str());
      src.label("harmless");
    } else { src.nontrivial(); src.label("refused"); }
  }
}

// Alterations by someone who knows the format: whole chunks moved, and content
// properties rewritten with a digest that fits again.
PBT_TEST(forged, {.quick = 350, .thorough = 8000, .rule = "a file of several chunks enciphered under a random configuration with a message authentication hash, then altered six times: chunks exchanged, dropped or repeated, or one content property replaced by another valid value with the properties' digest and size renewed, each deciphered with the right key; non-trivial: an alteration the utility refused", .coverage = false}) {
  Cli cli(fresh_dir());
  Config c = gen_config(src, true);
  c.chunk = src.range(8, 200);
  c.raw = true;
  Bytes data = src.blob(src.range(0, 6 * c.chunk));
  write_file(cli.p("plain"), data);
  write_file(cli.p("pass"), std::string("correct horse"));
  Args a = c.args();
  if (c.props) a = cat(a, {"-properties", "props"});
  a = cat(a, {"-keyring", "ring", "-passphrase", "pass", "plain", "c.cip"});
  RunResult r = cli.run("encipher", a);
  CHECK(r.code == 0, "encipher: %s", r.brief().c_str());
  Bytes gb = read_file(cli.p("c.cip")), pb = c.props ? read_file(cli.p("props")) : Bytes();
  std::string good(gb.begin(), gb.end()), head = c.props ? std::string(pb.begin(), pb.end()) : good, body;
  std::string mark = "<?cipherpacket?>\f\n";
  size_t e = head.find(mark), b0 = head.find("?>\n");
  CHECK(e != head.npos && b0 != head.npos, "content properties not found");
  body = c.props ? good : good.substr(e + mark.size());
  head.resize(e + mark.size());
  std::string rdf = head.substr(b0 + 3, e - b0 - 3);
  std::string mac = hex(ref::sha256(Bytes(rdf.begin(), rdf.end())));
  CHECK(head.find(mac) != head.npos, "digest of the content properties");
  src.note("%s | %zu bytes", c.str().c_str(), data.size());
  static const std::map<std::string, size_t> D = {{"", 32}, {"SHA2-256", 32}, {"SHA1", 20}, {"MD5", 16}, {"CRC64", 8}, {"SHA2-224", 28}, {"SHA2-384", 48}, {"SHA2-512", 64}, {"SHA2", 32}, {"SHA3", 32}, {"SHA3-224", 28}, {"SHA3-256", 32}, {"SHA3-384", 48}, {"SHA3-512", 64}};
  size_t blk = c.chunk;
  if (c.mode != "CFB") blk = (blk + c.block() - 1) / c.block() * c.block();
  size_t cell = D.at(c.hmac) + (c.entropy == "None" ? 0 : 1) + blk, n = (body.size() + cell - 1) / cell;
  for (int k = 0; k < 6; k++) {
    std::string nb = body, nh = head, what;
    bool chunks = n > 1 && src.chance(1, 2), nomac = false;
    if (chunks) {
      std::vector<std::string> v;
      for (size_t i = 0; i < n; i++) v.push_back(body.substr(i * cell, cell));
      size_t i = src.pick(n), j = src.pick(n);
      switch (src.pick(3)) {
        case 0: std::swap(v[i], v[j]); what = fmt("chunks %zu and %zu exchanged", i, j); break;
        case 1: v.erase(v.begin() + i); what = fmt("chunk %zu dropped", i); break;
        default: v.insert(v.begin() + j, std::string(v[i])); what = fmt("chunk %zu repeated at %zu", i, j); break;
      }
      nb.clear();
      for (auto &x : v) nb += x;
    } else {
      struct P { const char *tag; std::vector<std::string> values; };
      static const std::vector<P> ps = {
        {"hmac", {"None", "MD5", "SHA1", "SHA256", "SHA512", "SHA3-256"}}, {"mode", {"CBC", "CFB", "CTR", "ECB", "OFB"}}, {"type", {"AES", "Serpent", "Twofish", "Chacha", "None"}},
        {"entropy", {"None", "Zip", "BZip", "LZMA"}}, {"level", {"1", "3", "9"}}, {"chunksize", {"1", "8", "16", "100", "262144"}}, {"key-length", {"8", "128", "256", "512", "1024"}},
        {"key-hash", {"MD5", "SHA1", "SHA256"}}, {"protocol", {"1.0", "1.1", "2.0"}}, {"nonce", {"00", "000102030405060708090a0b0c0d0e0f"}}, {"authenticate", {"Secret", "Public"}}};
      const P &p = src.of(ps);
      std::string value = src.of(p.values), x = rdf, open = fmt("<cipher:%s>", p.tag), close = fmt("</cipher:%s>", p.tag);
      size_t s = x.find(open), t = x.find(close);
      if (s == x.npos || t == x.npos) continue;
      if (src.chance(1, 6)) { x.erase(s, t + close.size() - s); value = "absent"; }
      else x.replace(s + open.size(), t - s - open.size(), value);
      nomac = !strcmp(p.tag, "hmac") && value == "None";
      what = fmt("%s %s", p.tag, value.c_str());
      nh = fmt("<?cipherpacket digest=\"%s\" bytes=\"%zu\"?>\n", hex(ref::sha256(Bytes(x.begin(), x.end()))).c_str(), x.size()) + x + mark;
    }
    if (nb == body && nh == head) continue;
    write_file(cli.p("bad"), c.props ? nb : nh + nb);
    if (c.props) write_file(cli.p("badprops"), nh);
    Args d = {"-keyring", "ring", "-passphrase", "pass"};
    if (c.props) d = cat(d, {"-properties", "badprops"});
    d = cat(d, {"+(de)compress", "bad", "out"});
    unlink(cli.p("out").c_str());
    r = cli.run("decipher", d, true);
    src.note("%s -> %d", what.c_str(), r.code);
    if (r.code == 0) {
      Bytes out = read_file(cli.p("out"));
      std::string msg = fmt("%s: accepted and deciphered to %zu bytes, original %zu (%s)", what.c_str(), out.size(), data.size(), c.str().c_str());
      if (out == data) src.label("harmless");
      else if (nomac) known(src, "renewed-digest", msg);
      else CHECK(false, "%s", msg.c_str());
    } else { src.nontrivial(); src.label(chunks ? "chunks refused" : "properties refused"); }
  }
}
