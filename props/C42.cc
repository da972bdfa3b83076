// C42: the keyring and cipher-info utilities report exactly what their files hold.
#include "cli.h"
#include "keyring_gen.h"
#include <algorithm>
#include <map>
#include <set>

struct Item { Config c; Bytes data; std::string plain, cip, props, ring, id; std::string header() const { return props.empty() ? cip : props; } };
static std::string text(const Bytes &b) { return std::string(b.begin(), b.end()); }
static std::string canonical(const std::string &h) { return h == "SHA224" ? "SHA2-224" : h == "SHA256" ? "SHA2-256" : h == "SHA384" ? "SHA2-384" : h == "SHA512" ? "SHA2-512" : h; }
static std::string element(const std::string &s, const std::string &tag) {
  size_t a = s.find("<" + tag + ">"), z = s.find("</" + tag + ">");
  return a == s.npos || z == s.npos ? "" : s.substr(a + tag.size() + 2, z - a - tag.size() - 2);
}
struct World {
  Src &src;
  Cli cli;
  std::vector<std::string> rings;
  std::vector<Item> items;
  World(Src &s, int most) : src(s), cli(fresh_dir()) {
    write_file(cli.p("pass.txt"), std::string("open sesame"));
    rings = {"a.xdm", "b ring.xdm"};
    size_t n = src.range(1, most);
    for (size_t i = 0; i < n; i++) {
      Item it;
      it.c = gen_config(src);
      it.data = src.blob(src.range(0, 300));
      if (gz_or_bz(it.data)) it.c.raw = true;
      it.plain = fmt("plain%zu.txt", i);
      it.cip = fmt("file%zu", i) + src.of<std::string>({"", ".cip", ".gz", " &x"});
      it.props = it.c.props ? fmt("props%zu.rdf", i) : "";
      it.ring = src.of(rings);
      write_file(cli.p(it.plain), it.data);
      Args a = it.c.args();
      if (!it.props.empty()) a = cat(a, {"-properties", it.props});
      a = cat(a, {"-keyring", it.ring, "-passphrase", "pass.txt", it.plain, it.cip});
      RunResult r = cli.run("encipher", a);
      CHECK(r.code == 0, "encipher %s: %s", join(a).c_str(), r.brief().c_str());
      src.note("%s -> %s in %s", it.c.str().c_str(), it.cip.c_str(), it.ring.c_str());
      items.push_back(it);
    }
  }
  std::string xml(const Item &it) {
    Bytes b = read_file(cli.p(it.header()));
    if (b.size() > 2 && b[0] == 0x1f && b[1] == 0x8b) {
      RunResult r = pbt::run({"/bin/gzip", "-dc", cli.p(it.header())}, cli.o);
      return r.out;
    }
    return text(b);
  }
};
// sections of the report: the lines below each file name, as path to value
typedef std::vector<std::pair<std::string, std::map<std::string, std::string>>> Report;
static Report parse(const std::string &out) {
  Report r;
  std::string group, line;
  for (char c : out) {
    if (c != '\n') { line += c; continue; }
    if (line.compare(0, 10, "Filename: ") == 0) { r.push_back({line.substr(10), {}}); group.clear(); }
    else if (!r.empty()) {
      size_t in = line.find_first_not_of(' '), colon = line.find(':');
      if (in != line.npos && colon != line.npos) {
        std::string key = line.substr(in, colon - in), value = colon + 2 <= line.size() ? line.substr(colon + 2) : "";
        if (in == 2) { group = key; if (!value.empty()) r.back().second[key] = value; }
        else CHECK(r.back().second.emplace(group + "/" + key, value).second, "%s/%s is reported twice", group.c_str(), key.c_str());
      }
    }
    line.clear();
  }
  return r;
}

PBT_TEST(cipher_info, {.quick = 800, .thorough = 30000,
  .rule = "one to three files enciphered with random options, reported by the cipher-info utility in any order, some twice, mixed with damaged, missing and foreign files: each sound file is reported once per mention with the options it was made with, the exit status tells whether any was not; non-trivial: two files or more, or a bad one", .coverage = false}) {
  World w(src, 3);
  Args a;
  std::vector<const Item *> want;
  bool bad = false;
  size_t n = src.range(1, 5);
  for (size_t i = 0; i < n; i++) {
    if (src.chance(3, 4)) { const Item &it = w.items[src.pick(w.items.size())]; a.push_back(it.header()); want.push_back(&it); continue; }
    bad = true;
    std::string name = fmt("bad%zu", i);
    a.push_back(name);
    switch (src.pick(4)) {
      case 0: break;  // missing
      case 1: write_file(w.cli.p(name), src.blob(src.range(0, 400))); break;
      case 2: {  // one character of what was recorded differs
        Bytes b;
        std::string s = w.xml(w.items[0]);
        size_t from = s.find("<cipher:Content"), to = s.find("</cipher:Content");
        CHECK(from != s.npos && to != s.npos, "no properties");
        s[from + 1 + src.pick(to - from - 1)] ^= (char)(1 << src.pick(3));
        write_file(w.cli.p(name), s);
        break;
      }
      default: {
        std::string s = w.xml(w.items[0]);
        size_t to = s.find("</rdf:RDF>");
        write_file(w.cli.p(name), s.substr(0, src.pick(to)));
      }
    }
  }
  if (bad || want.size() > 1) src.nontrivial();
  if (src.chance(1, 6)) a.insert(a.begin() + src.pick(a.size() + 1), {"-debug", "Locale"});
  RunResult r = w.cli.run("cipher-info", a);
  CHECK((r.code != 0) == bad, "cipher-info %s: %s although %s", join(a).c_str(), r.brief().c_str(), bad ? "one of the files is not sound" : "all files are sound");
  Report got = parse(r.out);
  CHECK(got.size() == want.size(), "%zu files are reported, not %zu: %s", got.size(), want.size(), join(a).c_str());
  for (size_t i = 0; i < got.size(); i++) {
    const Item &it = *want[i];
    auto &m = got[i].second;
    std::string x = w.xml(it);
    CHECK(got[i].first == it.header(), "%s is reported as %s", it.header().c_str(), got[i].first.c_str());
    auto same = [&](const char *key, const std::string &v) { CHECK(canonical(m[key]) == v, "%s of %s is reported as %s, not %s (%s)", key, it.header().c_str(), m[key].c_str(), v.c_str(), it.c.str().c_str()); };
    auto either = [](const std::string &v, const char *d) { return v.empty() ? std::string(d) : v; };
    same("Cipher/type", either(it.c.cipher, "AES"));
    same("Cipher/mode", either(it.c.mode, "CTR"));
    same("Cipher/nonce", element(x, "cipher:nonce"));
    same("Authenticate/method", "Secret");
    same("Key/hash", either(it.c.key, "SHA2-256"));
    same("Key/length", either(it.c.keylen, "512"));
    same("Key/id", element(x, "cipher:id"));
    same("Entropy Generator/type", either(it.c.entropy, "BZip"));
    same("Entropy Generator/level", either(it.c.level, "6"));
    same("Keyed-Hashed Message Authentication Code/hash", either(it.c.hmac, "SHA2-256"));
    for (const char *d : {"modify", "create"}) same((std::string("Dates/") + d).c_str(), element(x, std::string("cipher:") + d + "-date"));
    same("Dates/timestamp", element(x, "cipher:timestamp"));
    same("Protocol", element(x, "cipher:protocol"));
    same("Version", element(x, "cipher:version"));
    CHECK(element(x, "cipher:id").size() >= 16 && element(x, "cipher:nonce").size() >= 16, "no key id");
    if (it.c.chunk && it.c.chunk < 1000) CHECK(atoi(m["Chunksize"].c_str()) == (int)it.c.chunk, "the chunk size %zu is reported as %s", it.c.chunk, m["Chunksize"].c_str());
  }
}

// what a listing says: ring to key id to nonce
static std::map<std::string, std::map<std::string, std::string>> listing(const std::string &s, size_t &keys) {
  std::map<std::string, std::map<std::string, std::string>> r;
  keys = 0;
  for (size_t at = 0; (at = s.find("<keyring:Keyring rdf:about=\"", at)) != s.npos; at++) { size_t a = at + 28; r[s.substr(a, s.find('"', a) - a)]; }
  for (size_t at = 0; (at = s.find("<keyring:Key rdf:about=\"", at)) != s.npos; at++) {
    size_t a = at + 24, z = s.find("</keyring:Key>", at);
    CHECK(z != s.npos, "a key is not closed");
    std::string id = s.substr(a, s.find('"', a) - a), body = s.substr(at, z - at), of = "<keyring:memberOf rdf:resource=\"";
    size_t m = body.find(of);
    CHECK(m != body.npos, "a key belongs to no keyring");
    m += of.size();
    r[body.substr(m, body.find('"', m) - m)][id] = element(body, "keyring:nonce");
    keys++;
  }
  return r;
}
PBT_TEST(keyring, {.quick = 500, .thorough = 25000,
  .rule = "one to four files enciphered into two keyrings, which are listed together with damaged ones, and whose keys are then exported to further keyrings from one or several sources: the listing names each key once with its keyring, the exported keyring holds exactly the keys asked for, deciphers the file, and the sources stay as they were; non-trivial: two keys or more", .coverage = false}) {
  World w(src, 4);
  if (w.items.size() > 1) src.nontrivial();
  std::map<std::string, std::set<std::string>> ids;
  for (auto &it : w.items) {
    it.id = element(w.xml(it), "cipher:id");
    CHECK(it.id.size() >= 16, "no key id");
    CHECK(ids[it.ring].insert(it.id).second, "two files share the key %s", it.id.c_str());
  }
  std::map<std::string, Bytes> before;
  std::map<std::string, std::string> nonces;
  for (auto &r : ids) before[r.first] = read_file(w.cli.p(r.first));
  for (int round = 0; round < 2; round++) {
    Args a;
    std::set<std::string> want;
    bool bad = false;
    size_t n = src.range(1, 3);
    for (size_t i = 0; i < n; i++) {
      if (src.chance(1, 5)) {  // not a keyring
        std::string name = fmt("bad%d%zu.xdm", round, i);
        Bytes b = src.chance(1, 2) ? src.blob(src.range(1, 300)) : before.begin()->second;
        b[src.pick(std::min<size_t>(b.size(), 64))] ^= (uint8_t)(1 + src.pick(255));
        write_file(w.cli.p(name), b);
        a.push_back(name);
        bad = true;
        continue;
      }
      auto r = ids.begin();
      if (ids.size() > 1 && src.chance(1, 2)) ++r;
      if (want.insert(r->first).second) a.push_back(r->first);
    }
    if (a.empty()) continue;
    if (src.chance(1, 6)) a.insert(a.begin() + src.pick(a.size() + 1), {"-debug", "Locale"});
    a.push_back("out.rdf");
    RunResult r = w.cli.run("keyring", a);
    CHECK((r.code != 0) == bad, "keyring %s: %s although %s", join(a).c_str(), r.brief().c_str(), bad ? "one of the files is no keyring" : "all keyrings are sound");
    size_t keys, expect = 0;
    auto got = listing(text(read_file(w.cli.p("out.rdf"))), keys);
    for (auto &g : got) CHECK(want.count(g.first) || g.second.empty(), "keys of %s are listed", g.first.c_str());
    for (auto &ring : want) {
      CHECK(got.count(ring), "the keyring %s is not listed by keyring %s", ring.c_str(), join(a).c_str());
      std::set<std::string> have;
      for (auto &k : got[ring]) {
        have.insert(k.first);
        CHECK(k.second.size() >= 2, "the key %s has no nonce", k.first.c_str());
        CHECK(nonces.emplace(k.first, k.second).first->second == k.second, "the nonce of %s differs between listings", k.first.c_str());
      }
      CHECK(have == ids[ring], "%zu keys are listed for %s, not %zu", have.size(), ring.c_str(), ids[ring].size());
      expect += have.size();
    }
    CHECK(keys == expect, "%zu keys are listed, not %zu", keys, expect);
  }
  // moves to other keyrings
  std::map<std::string, std::set<std::string>> moved;
  size_t steps = src.range(1, 4);
  for (size_t i = 0; i < steps; i++) {
    const Item &it = w.items[src.pick(w.items.size())];
    std::string to = src.of<std::string>({"x.xdm", "y.xdm"}), id = it.id;
    bool known = src.chance(4, 5);
    if (!known) { if (src.chance(1, 2)) id[src.pick(id.size())] ^= 1; else id.resize(id.size() - 2); if (id == it.id || !strspn(id.c_str(), "0123456789abcdef") || strspn(id.c_str(), "0123456789abcdef") != id.size()) continue; }
    Args sources{it.ring};
    for (auto &r : ids) if (r.first != it.ring && src.chance(1, 2)) sources.insert(sources.begin() + src.pick(2), r.first);
    bool there = false;
    for (auto &s : sources) there = there || ids[s].count(id);
    if (moved[to].count(id)) continue;
    Args a = cat(cat({"-export", id}, sources), {to});
    RunResult r = w.cli.run("keyring", a);
    CHECK((r.code == 0) == there, "keyring %s: %s although the key is %s", join(a).c_str(), r.brief().c_str(), there ? "there" : "not there");
    if (there) {
      moved[to].insert(id);
      if (id == it.id) {
        Args d;
        if (!it.props.empty()) d = {"-properties", it.props};
        if (it.c.raw && it.cip.find(".gz") == it.cip.npos) d.push_back("+(de)compress");
        d = cat(d, {"-keyring", to, "-passphrase", "pass.txt", it.cip, "plain.out"});
        unlink(w.cli.p("plain.out").c_str());
        RunResult o = w.cli.run("decipher", d);
        CHECK(o.code == 0 && read_file(w.cli.p("plain.out")) == it.data, "the exported key does not decipher %s: %s", it.cip.c_str(), o.brief().c_str());
      }
    }
  }
  for (auto &m : moved) {
    if (m.second.empty()) continue;
    RunResult r = w.cli.run("keyring", {m.first, "out.rdf"});
    CHECK(r.code == 0, "listing %s: %s", m.first.c_str(), r.brief().c_str());
    size_t keys;
    auto got = listing(text(read_file(w.cli.p("out.rdf"))), keys)[m.first];
    CHECK(keys == m.second.size() && got.size() == keys, "%zu keys are in %s, not %zu", keys, m.first.c_str(), m.second.size());
    for (auto &g : got) {
      CHECK(m.second.count(g.first), "the key %s was not exported", g.first.c_str());
      CHECK(!nonces.count(g.first) || nonces[g.first] == g.second, "the nonce of %s changed", g.first.c_str());
    }
  }
  for (auto &b : before) CHECK(read_file(w.cli.p(b.first)) == b.second, "the keyring %s was changed", b.first.c_str());
}

static Bytes ring_of(const std::vector<std::pair<Rec, uint64_t>> &v) {
  Bytes b = ring_header();
  for (auto &r : v) ring_record(b, r.first, r.second, false);
  return b;
}
PBT_TEST(any_keyring, {.quick = 1500, .thorough = 60000,
  .rule = "keyring files written record by record with ids, keys and nonces of any bytes and lengths: the listing gives each id with its nonce and time stamp, and exports by id append exactly the record asked for to the other keyring; non-trivial: two records or more", .coverage = false}) {
  Cli cli(fresh_dir());
  std::map<std::string, std::vector<std::pair<Rec, uint64_t>>> rings;
  std::set<Bytes> ids;
  size_t total = 0;
  for (const char *name : {"a.xdm", "b.xdm"}) {
    auto &v = rings[name];
    size_t n = src.size(6, {0, 1});
    for (size_t i = 0; i < n; i++) {
      Rec r{gen_field(src, false), gen_field(src, false), gen_field(src, false)};
      if (!ids.empty() && src.chance(1, 3)) { r.id = *ids.begin(); if (src.chance(1, 2)) r.id.push_back(src.byte()); else r.id.resize(r.id.size() / 2); }  // close to another one
      if (r.id.size() > 1500) r.id.resize(1500);
      if (r.id.empty() || !ids.insert(r.id).second) continue;
      v.push_back({r, src.chance(1, 3) ? src.range(0, 4102444800u) : 1700000000u + src.range(0, 100)});
      src.note("%s: id %zu, key %zu, nonce %zu bytes", name, r.id.size(), r.key.size(), r.nonce.size());
    }
    total += v.size();
    write_file(cli.p(name), ring_of(v));
  }
  if (total > 1) src.nontrivial();
  Args order = src.chance(1, 2) ? Args{"a.xdm", "b.xdm"} : Args{"b.xdm", "a.xdm"};
  RunResult r = cli.run("keyring", cat(order, {"out.rdf"}));
  CHECK(r.code == 0, "keyring: %s although all keyrings are sound", r.brief().c_str());
  std::string out = text(read_file(cli.p("out.rdf")));
  size_t keys;
  auto got = listing(out, keys);
  CHECK(keys == total, "%zu keys are listed, not %zu", keys, total);
  for (auto &ring : rings) {
    for (auto &k : ring.second) {
      std::string id = hexs(k.first.id);
      CHECK(got[ring.first].count(id), "the key %s of %s is not listed", id.c_str(), ring.first.c_str());
      CHECK(got[ring.first][id] == hexs(k.first.nonce), "the nonce %s of %s is listed as %s", hexs(k.first.nonce).c_str(), id.c_str(), got[ring.first][id].c_str());
      size_t at = out.find("<keyring:Key rdf:about=\"" + id + "\"");
      CHECK(at != out.npos, "the key %s is not listed", id.c_str());
      time_t t = (time_t)k.second;
      struct tm tm;
      char want[64];
      localtime_r(&t, &tm);
      strftime(want, sizeof(want), "%Y-%m-%dT%H:%M:%S", &tm);
      std::string stamp = element(out.substr(at, out.find("</keyring:Key>", at) - at), "keyring:timestamp");
      CHECK(stamp.compare(0, strlen(want), want) == 0, "the time stamp %s of %s is listed as %s", want, id.c_str(), stamp.c_str());
    }
  }
  std::vector<std::pair<Rec, uint64_t>> to;
  size_t steps = src.range(0, 3);
  for (size_t i = 0; i < steps && !ids.empty(); i++) {
    auto p = ids.begin();
    std::advance(p, src.pick(ids.size()));
    Bytes id = *p;
    if (src.chance(1, 5)) { if (src.chance(1, 2)) id.push_back(src.byte()); else id[src.pick(id.size())] ^= 1; }
    const std::pair<Rec, uint64_t> *want = nullptr;
    for (auto &ring : rings) for (auto &k : ring.second) if (k.first.id == id) want = &k;
    bool there = false;
    for (auto &k : to) there = there || k.first.id == id;
    if (there) continue;
    RunResult x = cli.run("keyring", cat(cat({"-export", hexs(id)}, order), {"to.xdm"}));
    CHECK((x.code == 0) == !!want, "exporting %s: %s although the key is %s", hexs(id).c_str(), x.brief().c_str(), want ? "there" : "not there");
    if (want) to.push_back(*want);
  }
  if (!to.empty()) {
    std::vector<Rec> have;
    CHECK(ring_parse(read_file(cli.p("to.xdm")), have), "the keyring exported to is not well formed");
    CHECK(have.size() == to.size(), "%zu keys were exported, not %zu", have.size(), to.size());
    for (size_t i = 0; i < to.size(); i++) CHECK(have[i].id == to[i].first.id && have[i].key == to[i].first.key && have[i].nonce == to[i].first.nonce, "the key exported as %s differs from its source", hexs(to[i].first.id).c_str());
    CHECK(read_file(cli.p("to.xdm")) == ring_of(to), "the exported records differ from their source");
  }
  for (auto &ring : rings) CHECK(read_file(cli.p(ring.first)) == ring_of(ring.second), "the keyring %s was changed", ring.first.c_str());
}
