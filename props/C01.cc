// C01: decipher recreates what encipher was given.
#include "cli.h"

struct Item { Config c; Bytes data; std::string plain, cip, props; bool defaults; };

static Item gen_item(Src &src, Cli &cli, int i, bool big) {
  Item it;
  it.c = gen_config(src);
  if (big) {
    // chunk sizes of up to seven digits, and up to three chunks of them
    it.c.chunk = src.chance(1, 4) ? src.of<size_t>({99999, 100000, 262143, 262144, 262145, 524288, 999999, 1000000, 1048576, 1048577}) : src.range(src.chance(1, 2) ? 1000000 : 65537, 1700000);
    it.data = src.blob(gen_length(src, it.c, 3, 3600000));
  } else it.data = src.blob(gen_length(src, it.c));
  if (src.chance(1, 20)) { Bytes m = src.chance(1, 2) ? Bytes{0x1f, 0x8b} : Bytes{'B', 'Z', 'h'}; it.data.insert(it.data.begin(), m.begin(), m.end()); }
  if (gz_or_bz(it.data)) it.c.raw = true;
  it.plain = src.chance(1, 8) ? fmt("p%d ", i) + src.text(src.range(1, 12), "aZ0 &<>\"'%;:,=()#@!~\xc3\xa9._-") + "x" : fmt("plain%d.txt", i);
  it.cip = fmt("cipher%d", i) + src.of<std::string>({"", ".cip", ".gz", ".bz2", " file.x"});
  it.props = it.c.props ? fmt("props%d.rdf", i) : "";
  write_file(cli.p(it.plain), it.data);
  return it;
}
static void encipher(Cli &cli, const Item &it, const char *ring) {
  Args a = it.c.args();
  if (!it.props.empty()) a = cat(a, {"-properties", it.props});
  a = cat(a, {"-keyring", ring, "-passphrase", "pass.txt", it.plain, it.cip});
  RunResult r = cli.run("encipher", a);
  CHECK(r.code == 0, "encipher %s of %zu bytes: %s", join(a).c_str(), it.data.size(), r.brief().c_str());
}
static void decipher(Src &src, Cli &cli, const Item &it, const char *ring) {
  Args a;
  if (it.c.raw && it.cip.find(".gz") == it.cip.npos && it.cip.find(".bz2") == it.cip.npos && src.chance(1, 2)) a.push_back("+(de)compress");
  if (!it.props.empty()) a = cat(a, {"-properties", it.props});
  if (src.chance(1, 8)) a.push_back("-verbose");
  a = cat(a, {"-keyring", ring, "-passphrase", "pass.txt", it.cip, "out"});
  if (src.chance(1, 2)) unlink(cli.p("out").c_str());
  RunResult r = cli.run("decipher", a);
  CHECK(r.code == 0, "decipher of %zu bytes enciphered with %s: %s", it.data.size(), it.c.str().c_str(), r.brief().c_str());
  bool ok;
  Bytes out = read_file(cli.p("out"), &ok);
  CHECK(ok, "no output file");
  size_t d = 0;
  while (d < out.size() && d < it.data.size() && out[d] == it.data[d]) d++;
  CHECK(out == it.data, "%s: %zu bytes come back as %zu, first difference at %zu", it.c.str().c_str(), it.data.size(), out.size(), d);
  CHECK(read_file(cli.p(it.plain)) == it.data, "the original file was changed");
}
static void scenario(Src &src, int n, bool big = false) {
  Cli cli(fresh_dir());
  write_file(cli.p("pass.txt"), src.data(60, {0, 1}));
  if (read_file(cli.p("pass.txt")).empty()) write_file(cli.p("pass.txt"), Bytes{'x'});
  std::vector<Item> items;
  const char *ring = src.chance(1, 3) ? "my ring.xdm" : "ring.xdm";
  for (int i = 0; i < n; i++) {
    items.push_back(gen_item(src, cli, i, big));
    src.note("%s | %zu bytes | %s -> %s", items.back().c.str().c_str(), items.back().data.size(), quote(items.back().plain).c_str(), items.back().cip.c_str());
    encipher(cli, items.back(), ring);
    if (i + 1 < n && src.chance(1, 4)) decipher(src, cli, items[src.pick(items.size())], ring);
  }
  for (size_t i = 0; i < items.size(); i++) decipher(src, cli, items[(i + n / 2) % n], ring);
  for (auto &it : items) {
    size_t k = it.c.chunksize(), b = it.c.block();
    if (it.data.size() > k || (it.data.size() && it.data.size() % b == 0)) src.nontrivial();
    src.label(it.data.empty() ? "empty" : it.data.size() % k == 0 ? "multiple of chunk" : it.data.size() > k ? "chunks" : "one chunk");
    if (it.data.size() % k > k - b - 1) src.label("last chunk just short of full");
  }
}
PBT_TEST(one_file, {.quick = 3200, .thorough = 60000, .rule = "a file whose length tends to chunk and block boundaries, under random options, enciphered and deciphered with the real utilities; non-trivial: several chunks or a whole number of blocks", .coverage = false}) { scenario(src, 1); }
PBT_TEST(large_chunks, {.quick = 120, .thorough = 3000, .rule = "a file of up to three chunks of up to 1.7 million bytes each; non-trivial: as above", .coverage = false}) { scenario(src, 1, true); }
PBT_TEST(shared_keyring, {.quick = 500, .thorough = 12000, .rule = "two to five files with different options enciphered into one keyring and deciphered in another order, some while others are still to come; non-trivial: as above", .coverage = false}) { scenario(src, (int)src.range(2, 5)); }
