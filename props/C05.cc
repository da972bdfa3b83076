// C05: the digest utility records published digests and reports every change.
#include "cli.h"
#include "ref.h"
#include <map>
#include <set>

static const std::vector<std::pair<std::string, ref::Hash>> kKinds = {{"SHA2-256", ref::SHA2256}, {"SHA1", ref::SHA1}, {"MD5", ref::MD5}, {"CRC64", ref::CRC64},
  {"SHA2", ref::SHA2256}, {"SHA2-224", ref::SHA2224}, {"SHA2-384", ref::SHA2384}, {"SHA2-512", ref::SHA2512}, {"SHA224", ref::SHA2224}, {"SHA256", ref::SHA2256},
  {"SHA384", ref::SHA2384}, {"SHA512", ref::SHA2512}, {"sha3", ref::SHA3}, {"SHA3-224", ref::SHA3224}, {"SHA3-256", ref::SHA3256}, {"SHA3-384", ref::SHA3384}, {"sha3-512", ref::SHA3512}};

static std::string gen_name(Src &src, bool &odd) {
  odd = src.chance(1, 2);
  static const std::vector<std::string> parts = {"a", "b", "Z", "0", ".", "_", " ", "&", "<", ">", "\"", "'", "=", ";", "#", "&amp;", "&#x41;", "/>", "+", "\xc3\xa9", "\xe6\xbc\xa2", "\xff", "\xc3", "(", "digest:", "$"};
  std::string s = "f";
  size_t n = odd ? src.range(1, 12) : 0;
  for (size_t i = 0; i < n; i++) s += src.of(parts);
  for (char &ch : s) if (ch == '/') ch = '|';
  return s;
}
struct Listed { std::string path, old_digest, new_digest; };
// "Path: p\n  create date: ...\n  digest (t):\n    x\n  errant digest (t):\n    y\n"
static std::vector<Listed> parse(const std::string &s) {
  std::vector<Listed> v;
  size_t i = 0;
  auto line = [&]() { size_t j = s.find('\n', i); std::string l = s.substr(i, j - i); i = j == s.npos ? s.size() : j + 1; return l; };
  while (i < s.size()) {
    std::string l = line();
    if (l.compare(0, 6, "Path: ") == 0) v.push_back({l.substr(6), "", ""});
    else if (l.compare(0, 10, "  digest (") == 0 && !v.empty()) { l = line(); v.back().old_digest = l.substr(std::min<size_t>(4, l.size())); }
    else if (l.compare(0, 17, "  errant digest (") == 0 && !v.empty()) { l = line(); v.back().new_digest = l.substr(std::min<size_t>(4, l.size())); }
  }
  return v;
}
static std::string digest(ref::Hash h, const Bytes &b) { Bytes d = ref::hash(h, b); return hex(d.data(), d.size(), d.size()); }
// the text between the opening and closing tag of each entry's digest, in order
static std::vector<std::string> recorded(const std::string &doc) {
  std::vector<std::string> v;
  std::string low;
  for (size_t i = 0; (i = doc.find("<digest:Content ", i)) != doc.npos; i++) {
    size_t e = doc.find("</digest:Content>", i);
    std::string d = doc.substr(i, e - i);
    for (size_t k = d.size(); k;) {     // the last element of the entry
      k = d.rfind("</digest:");
      size_t b = d.rfind('>', k);
      v.push_back(d.substr(b + 1, k - b - 1));
      break;
    }
  }
  return v;
}

PBT_TEST(history, {.quick = 900, .thorough = 22000, .rule = "1..5 files with plain and odd names and any contents get one or two digest documents with random hashes, recorded digests are compared with reference hashes; then a history of up to 8 changes, deletions, restorations, exchanges and no-ops, after each of which authentication must list exactly the files whose bytes differ with their old and new digests, and fail when one is missing; non-trivial: an altered and an unaltered file in one authentication", .coverage = false}) {
  Cli cli(fresh_dir());
  size_t n = src.range(1, 5);
  std::vector<std::string> names;
  std::vector<Bytes> orig, now;
  std::vector<bool> gone(n, false);
  std::set<std::string> used;
  while (names.size() < n) {
    bool odd;
    std::string s = gen_name(src, odd);
    if (!used.insert(s).second) { s += std::to_string(names.size()); if (!used.insert(s).second) discard(); }
    if (odd) src.label("odd name");
    names.push_back(s);
    size_t len = src.chance(1, 6) ? src.of<size_t>({0, 1, 8191, 8192, 8193, 16384, 20000}) : src.range(0, 300);
    orig.push_back(!orig.empty() && src.chance(1, 6) ? orig[0] : src.blob(len));
    write_file(cli.p(s), orig.back());
  }
  now = orig;
  size_t docs = 1 + src.chance(1, 3);
  std::vector<ref::Hash> hashes;
  std::vector<std::string> doc_names;
  for (size_t d = 0; d < docs; d++) {
    size_t k = src.pick(kKinds.size() + 2);
    Args a;
    ref::Hash h = ref::SHA2256;
    if (k < kKinds.size()) { a = {"-hash", kKinds[k].first}; h = kKinds[k].second; }
    hashes.push_back(h);
    std::string out = fmt("doc%zu.rdf", d) + (src.chance(1, 8) ? ".gz" : "");
    doc_names.push_back(out);
    src.note("%s over %zu files", a.empty() ? "default" : a[1].c_str(), n);
    RunResult r = cli.run("digest", cat(cat(a, names), {out}));
    CHECK(r.code == 0 && r.err.empty(), "digest %s: %s", join(names).c_str(), r.brief().c_str());
    if (out.back() == 'z') continue;
    Bytes b = read_file(cli.p(out));
    std::vector<std::string> got = recorded(std::string(b.begin(), b.end()));
    CHECK(got.size() == n, "%zu digests recorded for %zu files", got.size(), n);
    for (size_t i = 0; i < n; i++) CHECK(got[i] == digest(h, orig[i]), "recorded digest of %s (%zu bytes) is %s, expected %s", quote(names[i]).c_str(), orig[i].size(), got[i].c_str(), digest(h, orig[i]).c_str());
  }
  size_t steps = src.range(1, 8);
  for (size_t s = 0; s <= steps; s++) {
    if (s) {
      size_t i = src.pick(n);
      Bytes b = now[i];
      bool g = gone[i];
      switch (src.pick(9)) {
        case 0: if (!b.empty()) b[src.pick(b.size())] ^= 1 << src.pick(8); break;
        case 1: b.push_back(src.byte()); break;
        case 2: if (!b.empty()) b.pop_back(); break;
        case 3: b = orig[i]; g = false; break;
        case 4: g = true; break;
        case 5: b = src.blob(src.range(0, 300)); g = false; break;
        case 6: if (!b.empty()) b.erase(b.begin()); break;
        case 7: { size_t j = src.pick(n); b = now[j]; break; }
        default: break;    // written again with the same bytes
      }
      now[i] = b;
      gone[i] = g;
      unlink(cli.p(names[i]).c_str());
      if (!g) write_file(cli.p(names[i]), b);
    }
    size_t bad = 0, lost = 0;
    for (size_t i = 0; i < n; i++) { if (gone[i]) lost++; else if (now[i] != orig[i]) bad++; }
    bool to_file = src.chance(1, 4);
    RunResult r = cli.run("digest", cat(cat({"-authenticate"}, doc_names), {to_file ? "report" : "-"}));
    Bytes rep;
    if (to_file) rep = read_file(cli.p("report"));
    std::string out = to_file ? std::string(rep.begin(), rep.end()) : r.out;
    if (lost) CHECK(r.code != 0, "%zu listed files are gone, yet authentication succeeds: %s", lost, r.brief().c_str());
    else CHECK(r.code == 0 || bad, "nothing changed, yet authentication fails: %s", r.brief().c_str());
    std::vector<Listed> got = parse(out), want;
    for (size_t d = 0; d < docs; d++)
      for (size_t i = 0; i < n; i++)
        if (!gone[i] && now[i] != orig[i]) want.push_back({names[i], digest(hashes[d], orig[i]), digest(hashes[d], now[i])});
    CHECK(got.size() == want.size(), "%zu files reported, %zu changed: %s %s", got.size(), want.size(), quote(out, 600).c_str(), r.brief().c_str());
    for (size_t i = 0; i < want.size(); i++)
      CHECK(got[i].path == want[i].path && got[i].old_digest == want[i].old_digest && got[i].new_digest == want[i].new_digest,
        "reported %s %s -> %s, expected %s %s -> %s", quote(got[i].path).c_str(), got[i].old_digest.c_str(), got[i].new_digest.c_str(), quote(want[i].path).c_str(), want[i].old_digest.c_str(), want[i].new_digest.c_str());
    if (bad && bad + lost < n) src.nontrivial();
  }
}

PBT_TEST(damaged_document, {.quick = 900, .thorough = 22000, .rule = "a digest document altered at random bytes (mostly in the recorded digests) or replaced by arbitrary bytes is authenticated: it terminates without crashing and a document whose recorded digest differs from the file's is never found authentic; non-trivial: a digest digit was changed", .coverage = false}) {
  Cli cli(fresh_dir());
  Bytes data = src.blob(src.range(0, 300));
  write_file(cli.p("f"), data);
  const auto &k = kKinds[src.pick(kKinds.size())];
  RunResult r = cli.run("digest", {"-hash", k.first, "f", "doc"});
  CHECK(r.code == 0, "digest: %s", r.brief().c_str());
  Bytes doc = read_file(cli.p("doc"));
  std::string good(doc.begin(), doc.end()), dig = digest(k.second, data);
  size_t at = good.find(dig);
  CHECK(at != good.npos, "recorded digest is not %s", dig.c_str());
  for (int i = 0; i < 4; i++) {
    std::string b = good;
    bool digit = false;
    switch (src.pick(4)) {
      case 0: { size_t j = at + src.pick(dig.size()); char ch = "0123456789abcdef"[src.pick(16)]; if (ch == b[j]) ch = ch == '0' ? '1' : '0'; b[j] = ch; digit = true; break; }
      case 1: { size_t m = src.range(1, 4); while (m--) b[src.pick(b.size())] = (char)src.byte(); break; }
      case 2: b.resize(src.pick(b.size())); break;
      default: { Bytes x = src.bytes(src.range(0, 400)); b.assign(x.begin(), x.end()); break; }
    }
    for (char &ch : b) if (ch == '|') ch = '!';      // a path that starts with a bar would be run as a command
    write_file(cli.p("bad"), b);
    r = cli.run("digest", {"-authenticate", "bad", "-"});
    if (digit) {
      src.nontrivial();
      std::vector<Listed> got = parse(r.out);
      CHECK(got.size() == 1 && got[0].path == "f", "a digest that is not the file's is taken as authentic: %s", r.brief().c_str());
    }
  }
}
