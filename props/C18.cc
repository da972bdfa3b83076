// C18: counted strings against a byte-vector model.
#include "wt.h"
using namespace pbt;

struct M {          // model: bytes, -1 where the library leaves them unspecified
  std::vector<int> b;
  std::string path;
  StringInfo *s = nullptr;
};
static void agree(const M &m, const char *op) {
  CHECK(GetStringInfoLength(m.s) == m.b.size(), "%s: length %zu, expected %zu", op, GetStringInfoLength(m.s), m.b.size());
  const unsigned char *p = GetStringInfoDatum(m.s);
  CHECK(p != nullptr, "%s: no datum", op);
  for (size_t i = 0; i < m.b.size(); i++)
    CHECK(m.b[i] < 0 || m.b[i] == p[i], "%s: byte %zu is %02x, expected %02x (length %zu)", op, i, p[i], m.b[i], m.b.size());
  CHECK(m.path == GetStringInfoPath(m.s), "%s: path %s, expected %s", op, GetStringInfoPath(m.s), m.path.c_str());
}
static void define(M &m) {  // overwrite unspecified bytes
  unsigned char *p = GetStringInfoDatum(m.s);
  for (size_t i = 0; i < m.b.size(); i++)
    if (m.b[i] < 0) { p[i] = (unsigned char)(i * 7); m.b[i] = p[i]; }
}
static std::vector<int> ints(const Bytes &b) { return std::vector<int>(b.begin(), b.end()); }
static int sgn(int x) { return x < 0 ? -1 : x > 0; }

PBT_TEST(string_info_history, {.quick = 60000, .thorough = 1500000,
  .rule = "up to 40 operations on up to 5 counted strings with arbitrary bytes, compared with byte vectors after every step; non-trivial: at least 3 mutating operations"}) {
  std::vector<M> v;
  int muts = 0;
  size_t ops = 1 + src.size(40);
  auto gen = [&]() { return src.data(src.chance(1, 20) ? 9000 : 300, {16, 32, 64, 128, 4096}); };
  auto fresh = [&]() {
    M m;
    switch (src.pick(6)) {
      case 0: {
        size_t n = src.size(300, {64, 4096});
        m.s = AcquireStringInfo(n);
        m.b.assign(n, 0);
        src.note("acquire(%zu)", n);
        break;
      }
      case 1: {
        Bytes d = gen();
        m.s = BlobToStringInfo(d.data(), d.size());
        m.b = ints(d);
        src.note("blob(%s)", hex(d, 16).c_str());
        break;
      }
      case 2: {
        size_t n = src.size(300);
        m.s = BlobToStringInfo(nullptr, n);
        m.b.assign(n, 0);
        src.note("blob(NULL,%zu)", n);
        break;
      }
      case 3: {
        std::string t = src.cstr(100);
        m.s = StringToStringInfo(t.c_str());
        m.b.assign(t.begin(), t.end());
        for (auto &x : m.b) x &= 255;
        src.note("string(%s)", quote(t, 16).c_str());
        break;
      }
      case 4: {
        Bytes d = gen();
        m.s = HexStringToStringInfo(hex(d.data(), d.size(), d.size()).c_str());
        m.b = ints(d);
        src.note("hex(%s)", hex(d, 16).c_str());
        break;
      }
      default: {
        Bytes d = gen();
        m.s = AcquireStringInfo(d.size());
        SetStringInfoDatum(m.s, d.data());
        m.b = ints(d);
        src.note("datum(%s)", hex(d, 16).c_str());
      }
    }
    return m;
  };
  for (size_t k = 0; k < ops; k++) {
    if (v.empty() || (v.size() < 5 && src.chance(1, 6))) {
      v.push_back(fresh());
      agree(v.back(), "create");
      continue;
    }
    size_t i = src.pick(v.size()), j = src.pick(v.size());
    M &a = v[i];
    switch (src.pick(12)) {
      case 0:
        if (i == j) break;
        src.note("concat(%zu,%zu)", i, j);
        if (a.b.size() + v[j].b.size() > 100000) break;
        ConcatenateStringInfo(a.s, v[j].s);
        a.b.insert(a.b.end(), v[j].b.begin(), v[j].b.end());
        agree(a, "concatenate");
        muts++;
        break;
      case 1: {
        size_t n = src.size(400, {a.b.size(), 64, 4096});
        src.note("setlength(%zu,%zu)", i, n);
        SetStringInfoLength(a.s, n);
        a.b.resize(n, -1);
        agree(a, "set length");
        define(a);
        muts++;
        break;
      }
      case 2: {
        size_t off = src.chance(1, 8) ? src.size(1000) : (size_t)src.range(0, a.b.size());
        src.note("split(%zu,%zu)", i, off);
        StringInfo *h = SplitStringInfo(a.s, off);
        if (off > a.b.size()) {
          CHECK(h == nullptr, "split beyond the end succeeded");
          agree(a, "failed split");
          break;
        }
        CHECK(h != nullptr, "split at %zu of %zu failed", off, a.b.size());
        M m;
        m.s = h;
        m.b.assign(a.b.begin(), a.b.begin() + off);
        a.b.erase(a.b.begin(), a.b.begin() + off);
        agree(m, "split head");
        agree(a, "split tail");
        if (v.size() < 5) v.push_back(m);
        else DestroyStringInfo(h);
        muts++;
        break;
      }
      case 3:
        src.note("reset(%zu)", i);
        ResetStringInfo(a.s);
        std::fill(a.b.begin(), a.b.end(), 0);
        agree(a, "reset");
        muts++;
        break;
      case 4: {
        src.note("set(%zu,%zu)", i, j);
        if (i == j) break;
        SetStringInfo(a.s, v[j].s);
        size_t n = std::min(a.b.size(), v[j].b.size());
        std::fill(a.b.begin(), a.b.end(), 0);
        std::copy(v[j].b.begin(), v[j].b.begin() + n, a.b.begin());
        agree(a, "set");
        muts++;
        break;
      }
      case 5: {
        Bytes d = src.blob(a.b.size());
        src.note("setdatum(%zu)", i);
        SetStringInfoDatum(a.s, d.data());
        a.b = ints(d);
        agree(a, "set datum");
        muts++;
        break;
      }
      case 6: {
        src.note("clone(%zu)", i);
        StringInfo *c = CloneStringInfo(a.s);
        M m;
        m.s = c;
        m.b = a.b;
        agree(m, "clone");
        CHECK(GetStringInfoDatum(c) != GetStringInfoDatum(a.s), "clone shares its bytes");
        if (v.size() < 5) v.push_back(m);
        else DestroyStringInfo(c);
        muts++;
        break;
      }
      case 7: {
        int c = CompareStringInfo(a.s, v[j].s);
        int e = a.b < v[j].b ? -1 : a.b == v[j].b ? 0 : 1;
        CHECK(sgn(c) == e, "compare gives %d, expected sign %d", c, e);
        break;
      }
      case 8: {
        char *t = StringInfoToString(a.s);
        CHECK(t, "no string");
        for (size_t q = 0; q < a.b.size(); q++) CHECK((unsigned char)t[q] == a.b[q], "to string: byte %zu differs", q);
        CHECK(t[a.b.size()] == 0, "to string: not terminated");
        DestroyString(t);
        char *h = StringInfoToHexString(a.s);
        Bytes bb(a.b.begin(), a.b.end());
        CHECK(hex(bb.data(), bb.size(), bb.size()) == h, "hex text differs: %s", h);
        DestroyString(h);
        break;
      }
      case 9: {
        std::string p = src.cstr(src.chance(1, 10) ? 5000 : 60);
        SetStringInfoPath(a.s, p.c_str());
        a.path = p.substr(0, WizardPathExtent - 1);
        agree(a, "set path");
        break;
      }
      case 10:
        if (v.size() < 2) break;
        src.note("destroy(%zu)", i);
        CHECK(DestroyStringInfo(a.s) == nullptr, "destroy returned a pointer");
        v.erase(v.begin() + i);
        break;
      default:
        if (!a.b.empty()) {
          size_t q = src.pick(a.b.size());
          uint8_t c = src.byte();
          GetStringInfoDatum(a.s)[q] = c;
          a.b[q] = c;
          src.note("poke(%zu,%zu,%02x)", i, q, c);
          muts++;
        }
    }
    for (auto &m : v) agree(m, "all");
  }
  for (auto &m : v) DestroyStringInfo(m.s);
  if (muts >= 3) src.nontrivial();
}

PBT_TEST(string_info_order, {.quick = 60000, .thorough = 600000,
  .rule = "triples of strings sharing prefixes: comparison is a consistent total order and equal exactly for equal bytes; non-trivial: two of them share a non-empty prefix"}) {
  Bytes base = src.data(40);
  Bytes t[3];
  StringInfo *s[3];
  for (int i = 0; i < 3; i++) {
    t[i] = base;
    t[i].resize(src.range(0, base.size()));
    if (src.chance(1, 2)) { Bytes x = src.bytes(src.range(0, 3)); t[i].insert(t[i].end(), x.begin(), x.end()); }
    if (!t[i].empty() && src.chance(1, 3)) t[i][src.pick(t[i].size())] ^= src.byte();
    s[i] = si(t[i]);
  }
  src.note("%s %s %s", hex(t[0]).c_str(), hex(t[1]).c_str(), hex(t[2]).c_str());
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) {
      int c = sgn(CompareStringInfo(s[i], s[j]));
      int e = t[i] < t[j] ? -1 : t[i] == t[j] ? 0 : 1;
      CHECK(c == e, "compare(%d,%d)=%d, expected %d", i, j, c, e);
    }
  if (t[0].size() && t[1].size() && t[0][0] == t[1][0]) src.nontrivial();
  for (auto x : s) DestroyStringInfo(x);
}
