// C15: a damaged keyring or random reservoir file is an error, not a crash.
#include "keyring_gen.h"
using namespace pbt;

static void interesting_len(Src &src, Bytes &f, size_t at) {
  static const uint32_t v[] = {0xffffffffu, 0x7fffffffu, 0x80000000u, 0, 1, 0x10000, 0x01000000u};
  if (f.size() < 4) return;
  at = std::min(at, f.size() - 4);
  uint32_t x;
  switch (src.pick(3)) {
    case 0: x = v[src.pick(7)]; break;
    case 1: x = (uint32_t)(f.size() + src.irange(-40, 40)); break;
    default: x = (uint32_t)src.raw(src.chance(1, 2) ? 1 : 4);
  }
  for (int i = 0; i < 4; i++) f[at + i] = (uint8_t)(x >> (8 * i));
}
static void damage(Src &src, Bytes &f) {
  size_t n = 1 + src.weighted({5, 2, 1});
  for (size_t k = 0; k < n; k++) {
    switch (src.weighted({4, 3, 4, 2, 2, 1})) {
      case 0: if (!f.empty()) f.resize(src.pick(f.size())); src.label("cut"); break;
      case 1: if (!f.empty()) f[src.pick(f.size())] ^= (uint8_t)(1 + src.pick(255)); src.label("byte"); break;
      case 2: interesting_len(src, f, src.pick(f.size() + 1)); src.label("length"); break;
      case 3: { Bytes b = src.bytes(1 + src.size(40)); f.insert(f.begin() + src.pick(f.size() + 1), b.begin(), b.end()); src.label("insert"); break; }
      case 4: if (!f.empty()) { size_t a = src.pick(f.size()), b = a + src.pick(f.size() - a + 1); f.erase(f.begin() + a, f.begin() + b); } src.label("delete"); break;
      default: f = src.blob(src.size(300, {0, 1, 32, 64, 65})); src.label("foreign");
    }
  }
}

PBT_TEST(keyring, {.quick = 80000, .thorough = 1500000,
  .rule = "a keyring of 0..4 records cut, altered, with lengths replaced, bytes inserted or removed, or foreign, is exported from, imported into and listed; every answer must be the one the bytes of the file support; non-trivial: the file differs from the original and is not empty"}) {
  std::string dir = fresh_dir(), ring = dir + "/r.xdm";
  std::vector<Rec> recs;
  size_t n = src.size(4);
  Bytes f = ring_header();
  std::vector<size_t> starts;
  for (size_t i = 0; i < n; i++) {
    Rec x{src.bytes(1 + src.size(20)), gen_field(src, false), gen_field(src, false)};
    starts.push_back(f.size());
    ring_record(f, x, src.raw(4), src.chance(1, 4));
    recs.push_back(x);
  }
  Bytes good = f;
  if (!starts.empty() && src.chance(1, 3)) {  // a length field proper
    size_t at = starts[src.pick(starts.size())];
    size_t off = at + 8, p = off;
    bool old = get_le(f, p, 2) == 1 && get_le(f, p, 2) == 0;
    size_t pos = at + (old ? 12 : 20);
    size_t which = src.pick(3);
    for (size_t k = 0; k < which; k++) { size_t q = pos; pos += 4 + get_le(f, q, 4); }
    interesting_len(src, f, pos);
    if (src.chance(1, 4)) damage(src, f);
    src.label("length field");
  } else
    damage(src, f);
  write_file(ring, f);
  src.note("file of %zu bytes, was %zu, %zu records", f.size(), good.size(), n);
  if (f != good && !f.empty()) src.nontrivial();
  // what the bytes support: whole records up to the first that is not
  std::vector<Rec> whole;
  bool wf = ring_parse(f, whole);
  KeyringInfo *live = src.chance(1, 2) ? AcquireKeyringInfo(ring.c_str()) : nullptr;
  size_t ops = 1 + src.size(4);
  std::vector<Rec> added;
  for (size_t k = 0; k < ops; k++) {
    switch (src.weighted({3, 2, 1})) {
      case 0: {
        Bytes id = recs.empty() || src.chance(1, 5) ? src.bytes(src.size(8)) : recs[src.pick(recs.size())].id;
        Rec x;
        bool ok = export_key(ring, id, x, live);
        bool found = false;
        for (auto &o : whole) if (o.id == id && o.key == x.key && o.nonce == x.nonce) found = true;
        for (auto &o : added) if (o.id == id && o.key == x.key && o.nonce == x.nonce) found = true;
        if (ok) CHECK(found, "returned a key no whole record of the file holds");
        else if (wf) {
          bool has = false;
          for (auto &o : whole) has |= o.id == id;
          CHECK(!has, "a sound record was not found");
        }
        break;
      }
      case 1: {
        Rec x{src.bytes(1 + src.size(20)), gen_field(src, false), gen_field(src, false)};
        bool dup = false;
        for (auto &o : whole) dup |= o.id == x.id;
        for (auto &o : added) dup |= o.id == x.id;
        Bytes before = read_file(ring);
        bool ok = import_key(ring, x, live);
        if (ok) {
          CHECK(!dup, "imported twice");
          Rec y;
          CHECK(export_key(ring, x.id, y) && y.key == x.key && y.nonce == x.nonce, "import into a damaged keyring reported success but the key is not there");
          added.push_back(x);
        } else
          CHECK(read_file(ring) == before, "failed import changed the file");
        if (wf && !dup) CHECK(ok, "import into a sound keyring refused");
        break;
      }
      default: {
        std::string text;
        int ok = list_keys(ring, dir + "/list", text);
        if (!wf) CHECK(ok == 0, "listing of a damaged keyring reported success");
      }
    }
  }
  if (live) DestroyKeyringInfo(live);
  CHECK(!file_exists(dir + "/r.lck"), "a lock was left behind");
}

PBT_TEST(reservoir, {.quick = 40000, .thorough = 600000,
  .rule = "a saved random reservoir cut, altered, with lengths replaced or foreign; making a generator still succeeds, its keys are fresh and the reservoir is sound again afterwards; non-trivial: file not empty"}) {
  std::string path = std::string(getenv("WIZARD_HOME")) + "/reservoir.xdm";
  RandomInfo *a = AcquireRandomInfo(SHA2256Hash);
  SI ka(GetRandomKey(a, 64));
  DestroyRandomInfo(a);
  Bytes f = read_file(path);
  CHECK(f.size() > 64, "no reservoir saved");
  Bytes good = f;
  if (src.chance(1, 3)) interesting_len(src, f, 64 + src.pick(20));
  else damage(src, f);
  write_file(path, f);
  src.note("reservoir of %zu bytes, was %zu", f.size(), good.size());
  if (!f.empty()) src.nontrivial();
  fail_entropy(src.chance(1, 3));
  RandomInfo *b = AcquireRandomInfo(src.chance(1, 2) ? SHA2256Hash : SHA2512Hash);
  fail_entropy(false);
  SI kb(GetRandomKey(b, 64));
  CHECK(kb.get() != ka.get(), "key repeated after damage to the reservoir");
  DestroyRandomInfo(b);
  Bytes now = read_file(path);
  CHECK(now.size() >= 64 + 16, "reservoir not rewritten");
  Bytes h = ref::hash(ref::SHA2256, Bytes{0x7f, 0x53, 0x45, 0x45});
  CHECK(std::equal(h.begin(), h.end(), now.begin()), "reservoir rewritten without its header");
}
