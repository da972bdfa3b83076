// C30: MIME lookups follow the type map for every name and content.
#include "wt.h"
#include <fnmatch.h>
#include <memory>
#include <algorithm>
extern "C" {
#include "wizard/mime.h"
}
using namespace pbt;

struct Entry {
  std::string type, description, pattern;
  bool named = false, signed_ = false, stealth = false;
  int data = 0, endian = 0;  // string, byte, short, long; none, LSB, MSB
  Bytes magic;
  long value = 0, mask = 0, offset = 0, extent = 0, priority = 0;
};
static bool occurs(const Entry &e, const Bytes &b) {
  if (e.data == 0) {
    for (long i = 0; i <= e.extent; i++) {
      size_t at = (size_t)(e.offset + i);
      if (at + e.magic.size() > b.size()) break;
      if (std::equal(e.magic.begin(), e.magic.end(), b.begin() + (ssize_t)at)) return true;
    }
    return false;
  }
  size_t n = e.data == 1 ? 1 : e.data == 2 ? 2 : 4;
  if ((size_t)e.offset + n > b.size()) return false;
  long v = 0;
  for (size_t i = 0; i < n; i++) v |= (long)b[(size_t)e.offset + i] << (8 * (e.endian == 2 ? n - 1 - i : i));
  return e.mask ? (v & e.mask) == (e.value & e.mask) : v == e.value;
}
static const Entry *lookup(const std::vector<Entry> &map, const char *name, const Bytes &b) {
  const Entry *best = nullptr;
  for (auto &e : map) {
    if (best && e.priority > best->priority) continue;
    bool m = e.named && name ? fnmatch(e.pattern.c_str(), name, 0) == 0 : e.signed_ && occurs(e, b);
    if (m) best = &e;
  }
  return best;
}
static std::string xml(const std::string &s) {
  std::string o;
  for (char c : s) o += c == '<' ? "&lt;" : c == '&' ? "&amp;" : c == '"' ? "&quot;" : c == '>' ? "&gt;" : std::string(1, c);
  return o;
}
static std::string escaped(Src &src, const Bytes &m) {
  std::string o;
  bool octal = false;
  for (uint8_t c : m) {
    bool raw = c > 32 && c < 127 && c != '\\' && c != '&' && !(octal && isdigit(c));
    octal = false;
    if (c == '\n' && src.chance(1, 2)) o += "\\n";
    else if (c == '\r' && src.chance(1, 2)) o += "\\r";
    else if (c == '\t' && src.chance(1, 2)) o += "\\t";
    else if (c == '\b' && src.chance(1, 2)) o += "\\b";
    else if (c == '\f' && src.chance(1, 2)) o += "\\f";
    else if (c == '\v' && src.chance(1, 2)) o += "\\v";
    else if (c == '\\' && src.chance(1, 2)) o += "\\\\";
    else if (strchr("?*.;,:!%()[]{}+-=_zZXQ", c) && c && src.chance(1, 4)) o += std::string("\\") + (char)c;
    else if (raw && src.chance(5, 6)) o += (char)c;
    else { o += fmt("\\%03o", c); octal = true; }
  }
  return o;
}
static void load(const std::string &path) {
  setenv("WIZARD_CONFIGURE_PATH", path.c_str(), 1);
  MimeComponentTerminus();
  MimeComponentGenesis();
}
static const MimeInfo *ask(const char *name, const Bytes &b) {
  std::unique_ptr<unsigned char[]> exact(new unsigned char[b.size()]);
  std::copy(b.begin(), b.end(), exact.get());
  Exc e;
  return GetMimeInfo(name, exact.get(), b.size(), e);
}
// bytes that carry (or nearly carry) the signature of an entry
static Bytes carry(Src &src, const Entry &e) {
  Bytes b;
  size_t at = (size_t)e.offset + (e.extent && e.data == 0 ? src.size((size_t)e.extent + 1, {0, (size_t)e.extent, (size_t)e.extent + 1}) : 0);
  b = src.chance(1, 2) ? Bytes(at, (uint8_t)src.of<int>({0, ' ', 255})) : src.blob(at);
  if (e.data == 0) b.insert(b.end(), e.magic.begin(), e.magic.end());
  else {
    size_t n = e.data == 1 ? 1 : e.data == 2 ? 2 : 4;
    long v = e.value;
    if (e.mask && src.chance(2, 3)) v = (v & e.mask) | ((long)src.u64() & ~e.mask & (n == 4 ? 0xffffffffL : n == 2 ? 0xffff : 0xff));
    for (size_t i = 0; i < n; i++) b.push_back((uint8_t)(v >> (8 * (e.endian == 2 ? n - 1 - i : i))));
  }
  if (src.chance(1, 4) && !b.empty()) b[src.pick(b.size())] ^= (uint8_t)(1 << src.pick(8));
  if (src.chance(1, 4) && b.size() > 1) b.resize(b.size() - 1);
  else if (src.chance(1, 2)) { Bytes t = src.blob(src.size(20)); b.insert(b.end(), t.begin(), t.end()); }
  return b;
}
static std::string gen_name(Src &src, const std::vector<Entry> &map) {
  std::vector<const Entry *> named;
  for (auto &e : map) if (e.named) named.push_back(&e);
  if (named.empty() || src.chance(1, 5)) return src.text(src.size(8), "abc.dz");
  std::string o;
  const std::string &p = named[src.pick(named.size())]->pattern;
  for (size_t i = 0; i < p.size(); i++) {
    if (p[i] == '*') o += src.text(src.size(4), "abc.z");
    else if (p[i] == '?') o += src.text(1, "abcz");
    else if (p[i] == '[') { o += p[i + 1]; while (i + 1 < p.size() && p[i] != ']') i++; }
    else o += p[i];
  }
  if (src.chance(1, 6) && !o.empty()) o[src.pick(o.size())] = src.text(1, "abAB.z")[0];
  return o;
}

PBT_TEST(maps, {.quick = 40000, .thorough = 200000,
  .rule = "generated type maps of up to 25 entries (patterns, text and number signatures at offsets and within ranges, masks, byte orders, priorities with ties, stealth entries), in one or two files or included, looked up up to 30 times by name, bytes or both; each answer is compared with a model that knows no history; non-trivial: at least one lookup found an entry"}) {
  std::string dir = fresh_dir();
  std::vector<Entry> map;
  size_t n = 1 + src.size(24), files = 1 + src.pick(3);
  std::string text[3];
  std::vector<Entry> part[3];
  for (size_t i = 0; i < n; i++) {
    Entry e;
    e.type = fmt("%s/t%zu", src.of<const char *>({"text", "image", "application"}), src.chance(1, 3) ? i / 2 : i);
    e.description = fmt("entry %zu", i);
    e.priority = src.chance(1, 2) ? src.of<long>({0, 50, 100}) : (long)src.range(0, 100);
    e.stealth = src.chance(1, 10);
    e.named = src.chance(1, 2);
    e.signed_ = !e.named || src.chance(1, 5);
    if (e.named) e.pattern = src.weighted({4, 1, 1, 1, 1}) == 0 ? "*." + src.text(1 + src.size(2), "abcz") : src.of<std::string>({"core", "*~", "*.[ab]", "?a*", "*.a?", "*", "*.tar.c", ".z*"});
    std::string m;
    if (e.signed_) {
      e.data = (int)src.weighted({4, 1, 1, 1});
      e.offset = (long)src.size(12);
      if (e.data == 0) {
        e.magic = src.chance(1, 3) ? [&] { Bytes b; for (char c : src.text(1 + src.size(3), "ab\n\b\f\v?[")) b.push_back((uint8_t)c); return b; }() : src.chance(1, 8) ? Bytes(1 + src.size(6), 0) : src.data(8, {1, 2, 4});
        if (e.magic.empty()) e.magic = {'a'};
        if (src.chance(1, 3)) e.extent = (long)src.size(10);
        m = escaped(src, e.magic);
      } else {
        unsigned bits = e.data == 1 ? 8 : e.data == 2 ? 16 : 32;
        e.value = (long)(src.u64() & ((1ull << bits) - 1));
        if (src.chance(1, 3)) e.value &= 0x0f0f0f0f;
        e.endian = (int)src.pick(3);
        if (src.chance(1, 3)) { e.mask = (long)(src.u64() & ((1ull << bits) - 1)); if (src.chance(1, 2)) e.value &= e.mask; }
        m = src.chance(3, 4) ? fmt("0x%lx", e.value) : fmt("%ld", e.value);
      }
    }
    size_t f = src.pick(files);
    part[f].push_back(e);
    std::vector<std::string> a = {"type=\"" + xml(e.type) + "\"", "description=\"" + xml(e.description) + "\""};
    if (e.priority || src.chance(1, 2)) a.push_back(fmt("priority=\"%ld\"", e.priority));
    if (e.stealth) a.push_back("stealth=\"true\"");
    if (e.named) a.push_back("pattern=\"" + xml(e.pattern) + "\"");
    if (e.signed_) {
      a.push_back("magic=\"" + xml(m) + "\"");
      a.push_back(fmt("data-type=\"%s\"", (const char *[]){"string", "byte", "short", "long"}[e.data]));
      if (e.offset || e.extent || src.chance(1, 2)) a.push_back(e.extent || src.chance(1, 8) ? fmt("offset=\"%ld:%ld\"", e.offset, e.extent) : fmt("offset=\"%ld\"", e.offset));
      if (e.endian) a.push_back(e.endian == 1 ? "endian=\"LSB\"" : "endian=\"MSB\"");
      if (e.mask) a.push_back(fmt("mask=\"0x%lx\"", e.mask));
    }
    for (size_t k = a.size(); k > 1; k--) std::swap(a[k - 1], a[src.pick(k)]);
    text[f] += "  <mime";
    for (auto &x : a) text[f] += " " + x;
    text[f] += " />\n";
  }
  // file 0 in the first directory, file 1 in the second, file 2 included by file 0
  std::string head = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<mimemap>\n";
  mkdir((dir + "/a").c_str(), 0700);
  mkdir((dir + "/b").c_str(), 0700);
  write_file(dir + "/a/mime.xml", head + (files == 3 ? "  <include file=\"more.xml\" />\n" : "") + text[0] + "</mimemap>\n");
  write_file(dir + "/b/mime.xml", head + text[1] + "</mimemap>\n");
  if (files == 3) write_file(dir + "/a/more.xml", head + text[2] + "</mimemap>\n");
  for (size_t f : {2, 0, 1}) map.insert(map.end(), part[f].begin(), part[f].end());
  src.note("%s", (text[2] + text[0] + text[1]).c_str());
  load(dir + "/a:" + dir + "/b" + (src.chance(1, 2) ? "/" : ""));
  size_t asks = 1 + src.size(30);
  bool found = false;
  for (size_t i = 0; i < asks; i++) {
    std::string name = gen_name(src, map);
    bool anon = src.chance(1, 4);
    Bytes b = src.chance(2, 3) ? carry(src, map[src.pick(map.size())]) : src.data(20);
    if (b.empty()) b = {' '};
    const Entry *want = lookup(map, anon ? nullptr : name.c_str(), b);
    const MimeInfo *got = ask(anon ? nullptr : name.c_str(), b);
    std::string q = fmt("lookup %zu of %s with %s", i, anon ? "no name" : quote(name).c_str(), hex(b).c_str());
    CHECK((want != nullptr) == (got != nullptr), "%s found %s, not %s", q.c_str(), got ? GetMimeDescription(got) : "nothing", want ? want->description.c_str() : "nothing");
    if (!want) continue;
    found = true;
    CHECK(want->description == GetMimeDescription(got) && want->type == GetMimeType(got), "%s found %s (%s), not %s", q.c_str(), GetMimeDescription(got), GetMimeType(got), want->description.c_str());
    if (src.chance(1, 6)) {
      std::string ext = src.text(1 + src.size(2), "abczABC");
      std::string low = ext;
      for (char &c : low) c = (char)tolower(c);
      const Entry *w = lookup(map, ("file." + low).c_str(), {' '});
      char *t = WizardToMime(ext.c_str());
      CHECK((w ? w->type : "image/x-" + low) == t, "extension %s gives %s, not %s", ext.c_str(), t, w ? w->type.c_str() : "a private type");
      DestroyString(t);
    }
  }
  if (found) src.nontrivial();
  // lists
  std::string glob = src.of<std::string>({"*", "text/*", "*/t1", "image/t?", "none"});
  std::vector<std::string> types, descs, tg, dg;
  for (auto &e : map) if (!e.stealth && fnmatch(glob.c_str(), e.type.c_str(), 0) == 0) types.push_back(e.type), descs.push_back(e.description);
  size_t k = 0;
  Exc e;
  char **l = GetMimeList(glob.c_str(), &k, e);
  CHECK(l, "no list");
  for (size_t i = 0; i < k; i++) { tg.push_back(l[i]); l[i] = DestroyString(l[i]); }
  CHECK(!l[k], "the list is not terminated");
  RelinquishWizardMemory(l);
  CHECK(std::is_sorted(tg.begin(), tg.end(), [](const std::string &a, const std::string &b) { return strcasecmp(a.c_str(), b.c_str()) < 0; }), "the list of types is not sorted");
  std::sort(tg.begin(), tg.end());
  std::sort(types.begin(), types.end());
  CHECK(tg == types, "the list for %s has %zu types instead of %zu", glob.c_str(), tg.size(), types.size());
  const MimeInfo **m = GetMimeInfoList(glob.c_str(), &k, e);
  CHECK(m, "no list");
  for (size_t i = 0; i < k; i++) dg.push_back(GetMimeDescription(m[i]));
  RelinquishWizardMemory(m);
  std::sort(dg.begin(), dg.end());
  std::sort(descs.begin(), descs.end());
  CHECK(dg == descs, "the list for %s has %zu entries instead of %zu", glob.c_str(), dg.size(), descs.size());
}

// the map that comes with the toolkit, read independently
static std::string attr(const std::string &line, const char *name, bool *has = nullptr) {
  std::string key = std::string(" ") + name + "=\"";
  size_t p = line.find(key);
  if (has) *has = p != line.npos;
  if (p == line.npos) return "";
  p += key.size();
  std::string v = line.substr(p, line.find('"', p) - p);
  static const char *ent[][2] = {{"&lt;", "<"}, {"&gt;", ">"}, {"&quot;", "\""}, {"&apos;", "'"}, {"&amp;", "&"}};
  for (auto &x : ent) for (size_t q; (q = v.find(x[0])) != v.npos;) v.replace(q, strlen(x[0]), x[1]);
  return v;
}
static const std::vector<Entry> &shipped_map() {
  static std::vector<Entry> map;
  if (!map.empty()) return map;
  Bytes raw = read_file(repo() + "/config/mime.xml");
  std::string all(raw.begin(), raw.end());
  for (size_t p = 0; (p = all.find("<mime ", p)) != all.npos; p++) {
    std::string line = all.substr(p, all.find("/>", p) - p);
    Entry e;
    e.type = attr(line, "type");
    e.description = attr(line, "description");
    e.pattern = attr(line, "pattern", &e.named);
    e.priority = strtol(attr(line, "priority").c_str(), nullptr, 0);
    e.mask = strtol(attr(line, "mask").c_str(), nullptr, 0);
    std::string m = attr(line, "magic", &e.signed_), o = attr(line, "offset"), d = attr(line, "data-type"), n = attr(line, "endian");
    e.offset = strtol(o.c_str(), nullptr, 0);
    if (o.find(':') != o.npos) e.extent = strtol(o.c_str() + o.find(':') + 1, nullptr, 0);
    e.data = d == "byte" ? 1 : d == "short" ? 2 : d == "long" ? 3 : 0;
    e.endian = strcasecmp(n.c_str(), "lsb") == 0 ? 1 : strcasecmp(n.c_str(), "msb") == 0 ? 2 : 0;
    if (e.data) e.value = strtol(m.c_str(), nullptr, 0);
    for (size_t i = 0; i < m.size(); i++) {
      if (m[i] != '\\') { e.magic.push_back((uint8_t)m[i]); continue; }
      i++;
      if (m[i] >= '0' && m[i] <= '7') {
        int v = 0, k = 0;
        while (i < m.size() && m[i] >= '0' && m[i] <= '7') v = v * 8 + m[i++] - '0', k++;
        i--;
        e.magic.push_back((uint8_t)v);
      } else e.magic.push_back((uint8_t)(m[i] == 'n' ? '\n' : m[i] == 'r' ? '\r' : m[i] == 't' ? '\t' : m[i] == 'b' ? '\b' : m[i] == 'f' ? '\f' : m[i] == 'v' ? '\v' : m[i]));
    }
    map.push_back(e);
  }
  return map;
}
PBT_TEST(shipped, {.quick = 1600, .thorough = 20000,
  .rule = "the type map of the toolkit looked up 60 times by names made from its patterns and bytes made from its signatures, whole, altered or cut; non-trivial: always"}) {
  const std::vector<Entry> &map = shipped_map();
  CHECK(map.size() > 500, "the type map has %zu entries", map.size());
  load(repo() + "/config");
  for (size_t i = 0; i < 60; i++) {
    std::string name = gen_name(src, map);
    bool anon = src.chance(1, 3);
    const Entry *seed = &map[src.pick(map.size())];
    for (int k = 0; k < 4 && !seed->signed_; k++) seed = &map[src.pick(map.size())];
    Bytes b = seed->signed_ && src.chance(4, 5) ? carry(src, *seed) : src.data(40);
    if (b.empty()) b = {' '};
    const Entry *want = lookup(map, anon ? nullptr : name.c_str(), b);
    const MimeInfo *got = ask(anon ? nullptr : name.c_str(), b);
    CHECK((want ? want->type : "nothing") == (got ? GetMimeType(got) : "nothing"), "%s with %s is %s, not %s", anon ? "no name" : quote(name).c_str(), hex(b).c_str(), got ? GetMimeType(got) : "nothing", want ? want->type.c_str() : "nothing");
    src.label(!want ? "none" : want->named ? "by name" : "by bytes");
  }
  src.nontrivial();
}

PBT_TEST(damaged_maps, {.quick = 12000, .thorough = 200000,
  .rule = "type maps with arbitrary attribute values (escapes cut short, numbers out of range, missing attributes) are loaded and looked up without memory errors; non-trivial: always"}) {
  std::string dir = fresh_dir(), text = "<mimemap>\n";
  size_t n = 1 + src.size(6);
  for (size_t i = 0; i < n; i++) {
    text += "<mime";
    if (src.chance(5, 6)) text += " type=\"a/b\"";
    if (src.chance(2, 3)) text += " magic=\"" + src.text(src.size(10), "ab\\01789nx ;") + "\"";
    if (src.chance(1, 2)) text += " data-type=\"" + src.of<std::string>({"string", "byte", "short", "long", "other", ""}) + "\"";
    if (src.chance(1, 2)) text += " offset=\"" + src.of<std::string>({"0", "1:4", "3", "x", "", "1:", ":5", "100000000000", "9223372036854775807", "0:9223372036854775807", "9223372036854775800:20"}) + "\"";
    if (src.chance(1, 3)) text += " mask=\"" + src.of<std::string>({"0xff", "-1", "x", "0xffffffffffffffffff"}) + "\"";
    if (src.chance(1, 3)) text += " endian=\"" + src.of<std::string>({"LSB", "MSB", "PDP", ""}) + "\"";
    if (src.chance(1, 3)) text += " pattern=\"" + src.text(src.size(8), "*?[]{},a.\\-^") + "\"";
    if (src.chance(1, 3)) text += " priority=\"" + src.text(src.size(4), "0159-x") + "\"";
    if (src.chance(1, 5)) text += " stealth=\"" + src.text(src.size(4), "trueon1") + "\"";
    text += " />\n";
  }
  text += "</mimemap>\n";
  src.note("%s", text.c_str());
  write_file(dir + "/mime.xml", text);
  load(dir);
  for (size_t i = 0; i < 6; i++) {
    Bytes b = src.data(16);
    if (b.empty()) b = {1};
    std::string name = src.text(src.size(6), "a.b");
    (void)ask(src.chance(1, 3) ? nullptr : name.c_str(), b);
  }
  src.nontrivial();
}
