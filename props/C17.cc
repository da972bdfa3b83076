// C17: the in-memory key map against std::map.
#include "wt.h"
using namespace pbt;

PBT_TEST(key_map_history, {.quick = 12000, .thorough = 400000,
  .rule = "up to 40 set/get/generate operations on up to 2 key maps, ids drawn from near-equal byte strings, keys of 0-400 bytes, every id re-read after the history; non-trivial: at least 3 ids and one replaced"}) {
  struct Map { KeyInfo *k; std::map<Bytes, Bytes> ref; };
  std::vector<Map> maps(1 + src.pick(2));
  for (auto &m : maps) { m.k = AcquireKeyInfo(); CHECK(m.k, "no key map"); }
  // ids that are easily confused: prefixes, embedded zeros, last byte changes
  std::vector<Bytes> ids;
  Bytes base = src.data(40, {16, 32});
  size_t ni = 1 + src.size(12);
  for (size_t i = 0; i < ni; i++) {
    Bytes b = base;
    switch (src.pick(5)) {
      case 0: b = src.data(40, {16, 32}); break;
      case 1: b.resize(src.range(0, b.size())); break;
      case 2: b.push_back(src.byte()); break;
      case 3: if (!b.empty()) b[src.pick(b.size())] ^= 1 << src.pick(8); break;
      default: b.insert(b.begin(), 0);
    }
    ids.push_back(b);
  }
  size_t ops = src.size(40);
  bool replaced = false;
  auto get = [&](Map &m, const Bytes &id) {
    SI i(id);
    SI k(GetKeyInfo(m.k, i));
    CHECK(k.s, "no key for id %s", hex(id).c_str());
    CHECK(k.get() == m.ref[id], "id %s: got key %s, expected %s", hex(id).c_str(), hex(k.get(), 32).c_str(), hex(m.ref[id], 32).c_str());
  };
  for (size_t n = 0; n < ops; n++) {
    Map &m = maps[src.pick(maps.size())];
    const Bytes &id = ids[src.pick(ids.size())];
    switch (src.pick(6)) {
      case 0: case 1: case 2: {
        Bytes key = src.data(400, {16, 32, 64});
        replaced |= m.ref.count(id);
        SI i(id), k(key);
        src.note("set(%s,%zu bytes)", hex(id, 8).c_str(), key.size());
        CHECK(SetKeyInfo(m.k, i, k) != WizardFalse, "set failed");
        CHECK(k.get() == key && i.get() == id, "the caller's key or id was changed");
        m.ref[id] = key;
        break;
      }
      case 3: {
        if (!src.chance(1, 3)) break;
        SI g(GenerateSessionKey(m.k));
        CHECK(g.s && !m.ref.count(g.get()), "session id repeats");
        SI k(GetKeyInfo(m.k, g));
        CHECK(k.s && !k.get().empty(), "no session key");
        src.note("generate");
        m.ref[g.get()] = k.get();
        ids.push_back(g.get());
        break;
      }
      default:
        if (m.ref.count(id)) { src.note("get(%s)", hex(id, 8).c_str()); get(m, id); }
    }
  }
  size_t total = 0;
  for (auto &m : maps) {
    std::vector<Bytes> all;
    for (auto &x : m.ref) all.push_back(x.first);
    for (auto &x : all) get(m, x);
    total += all.size();
    DestroyKeyInfo(m.k);
  }
  if (total >= 3 && replaced) src.nontrivial();
}
