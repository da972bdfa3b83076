// C04: a utility that could not store its output reports failure.
#include "cli.h"

static bool same(const Cli &cli, const std::string &name, const Bytes &data) {
  return file_exists(cli.p(name)) && read_file(cli.p(name)) == data;
}
static Args decipher_args(const Config &c, const std::string &ring, const std::string &props, const std::string &cip, const std::string &out, bool raw) {
  Args a = {"-keyring", ring, "-passphrase", "pass"};
  if (c.props) a = cat(a, {"-properties", props});
  if (raw) a.push_back("+(de)compress");
  return cat(a, {cip, out});
}
static size_t near(Src &src, size_t n) {
  switch (src.pick(5)) {
    case 0: return src.range(0, n);
    case 1: return n ? n - 1 : 0;
    case 2: return n - std::min<size_t>(n, src.range(0, 40));
    case 3: return std::min<size_t>(n, src.range(0, 600));
    default: return std::min<size_t>(n, src.range(0, n / 4096 + 1) * 4096);
  }
}

PBT_TEST(limit, {.quick = 600, .thorough = 15000, .rule = "a fault-free encipherment measures the result, keyring and properties; further ones and decipherments then run with every file limited to a random size around those; a zero exit must leave a result that deciphers to the original, an earlier result stays decipherable; non-trivial: a limited run failed", .coverage = false}) {
  Cli cli(fresh_dir());
  Config c = gen_config(src);
  bool packed = src.chance(1, 4);
  c.raw = !packed;
  Bytes data = src.chance(1, 3) ? src.bytes(src.range(0, std::min<size_t>(60000, 40 * c.chunksize()))) : src.blob(gen_length(src, c, 6, 60000));
  if (gz_or_bz(data)) data[0] = 'x';
  std::string ext = packed ? src.of<std::string>({".gz", ".bz2"}) : ".cip";
  write_file(cli.p("plain"), data);
  write_file(cli.p("pass"), std::string("correct horse"));
  auto encipher = [&](const std::string &ring, const std::string &props, const std::string &cip, bool crash) {
    Args a = c.args();
    if (c.props) a = cat(a, {"-properties", props});
    return cli.run("encipher", cat(a, {"-keyring", ring, "-passphrase", "pass", "plain", cip}), crash);
  };
  RunResult r = encipher("ring", "props0", "c0" + ext, false);
  CHECK(r.code == 0, "encipher without a limit: %s", r.brief().c_str());
  if (src.chance(1, 2)) encipher("ring", "props0", "c0" + ext, false);     // the keyring outgrows small contents
  size_t sizes[3] = {read_file(cli.p("c0" + ext)).size(), read_file(cli.p("ring")).size(), c.props ? read_file(cli.p("props0")).size() : 0};
  src.note("%s| %zu bytes -> %zu%s, keyring %zu, properties %zu", c.str().c_str(), data.size(), sizes[0], ext.c_str(), sizes[1], sizes[2]);
  for (int k = 0; k < 4; k++) {
    bool shared = src.chance(1, 3);                     // into the keyring that already holds a key
    std::string ring = shared ? "ring" : fmt("ring%d", k), props = fmt("props%d", k + 1), cip = fmt("c%d", k + 1) + ext;
    size_t which = src.pick(3), limit = which == 1 && shared ? sizes[1] + src.range(0, sizes[1]) : near(src, sizes[which] + 1);
    cli.o.fsize = (long)limit;
    r = encipher(ring, props, cip, false);
    cli.o.fsize = -1;
    src.note("encipher, limit %zu -> %d", limit, r.code);
    if (r.code != 0) { src.nontrivial(); src.label("encipher failed"); }
    else {
      src.label("encipher succeeded");
      RunResult d = cli.run("decipher", decipher_args(c, ring, props, cip, "out", !packed));
      CHECK(d.code == 0 && same(cli, "out", data), "encipher succeeded with files limited to %zu bytes but its result does not decipher (%s): %s", limit, c.str().c_str(), d.brief().c_str());
      unlink(cli.p("out").c_str());
    }
  }
  for (int k = 0; k < 3; k++) {
    bool zip = src.chance(1, 5) && packed;
    std::string out = zip ? src.of<std::string>({"out.gz", "out.bz2"}) : fmt("out%d", k);
    size_t limit = near(src, data.size() + 1);
    cli.o.fsize = (long)limit;
    r = cli.run("decipher", decipher_args(c, "ring", "props0", "c0" + ext, out, !packed));
    cli.o.fsize = -1;
    src.note("decipher, limit %zu -> %d", limit, r.code);
    if (r.code != 0) { src.nontrivial(); src.label("decipher failed"); }
    else if (!zip) { src.label("decipher succeeded"); CHECK(same(cli, out, data), "decipher succeeded with files limited to %zu bytes but wrote %zu bytes of %zu", limit, read_file(cli.p(out)).size(), data.size()); }
    unlink(cli.p(out).c_str());
  }
  r = cli.run("decipher", decipher_args(c, "ring", "props0", "c0" + ext, "out", !packed));
  CHECK(r.code == 0 && same(cli, "out", data), "after the limited runs the first content no longer deciphers: %s", r.brief().c_str());
}

PBT_TEST(full, {.quick = 500, .thorough = 12000, .rule = "encipherments, decipherments and digests whose result, keyring or properties file is a full device (also through a compressing name or as standard output) must fail; non-trivial: the content was not empty", .coverage = false}) {
  Cli cli(fresh_dir());
  Config c = gen_config(src);
  c.raw = false;
  Bytes data = src.blob(gen_length(src, c, 4, 40000));
  if (gz_or_bz(data)) data[0] = 'x';
  if (!data.empty()) src.nontrivial();
  write_file(cli.p("plain"), data);
  write_file(cli.p("pass"), std::string("correct horse"));
  for (const char *n : {"full", "full.gz", "full.bz2", "full.Z"}) CHECK(symlink("/dev/full", cli.p(n).c_str()) == 0, "symlink");
  auto encipher = [&](const std::string &ring, const std::string &props, const std::string &cip) {
    Args a = c.args();
    if (c.props) a = cat(a, {"-properties", props});
    return cli.run("encipher", cat(a, {"-keyring", ring, "-passphrase", "pass", "plain", cip}));
  };
  RunResult r = encipher("ring", "props", "c.cip");
  CHECK(r.code == 0, "encipher: %s", r.brief().c_str());
  src.note("%s| %zu bytes", c.str().c_str(), data.size());
  for (int k = 0; k < 4; k++) {
    std::string out = src.of<std::string>({"full", "full.gz", "full.bz2", "full.Z", "-"});
    switch (src.pick(4)) {
      case 3:
        if (out == "-") cli.o.stdout_path = "/dev/full";
        r = cli.run("digest", {"plain", "pass", out});
        cli.o.stdout_path.clear();
        CHECK(r.code != 0, "digest onto a full device (%s) succeeded: %s", out.c_str(), r.brief().c_str());
        src.label("digest " + out);
        break;
      case 0:
        if (c.props && data.empty() && out == "full") out = "full.gz";      // nothing to store
        if (out == "-" && c.props && data.empty()) break;
        if (out == "-") cli.o.stdout_path = "/dev/full";
        r = encipher("ring", "props2", out);
        cli.o.stdout_path.clear();
        CHECK(r.code != 0, "encipher onto a full device (%s) succeeded: %s", out.c_str(), r.brief().c_str());
        src.label("encipher " + out);
        break;
      case 1: {
        if (data.empty() && (out == "full" || out == "-")) break;
        if (out == "-") cli.o.stdout_path = "/dev/full";
        r = cli.run("decipher", decipher_args(c, "ring", "props", "c.cip", out, false));
        cli.o.stdout_path.clear();
        CHECK(r.code != 0, "decipher onto a full device (%s) succeeded: %s", out.c_str(), r.brief().c_str());
        src.label("decipher " + out);
        break;
      }
      default:
        if (!c.props) break;
        r = encipher("ring", "full", "c2.cip");
        CHECK(r.code != 0, "encipher with its properties on a full device succeeded: %s", r.brief().c_str());
        src.label("properties");
        break;
    }
  }
  r = cli.run("decipher", decipher_args(c, "ring", "props", "c.cip", "out", false));
  CHECK(r.code == 0 && same(cli, "out", data), "after the failed runs the content no longer deciphers: %s", r.brief().c_str());
}
