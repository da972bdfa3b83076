// C11: damaged compressed streams are reported.
#include "entropy_gen.h"
using namespace pbt;

static void damage(Src &src, Bytes &b) {
  size_t n = 1 + src.weighted({6, 2, 1});
  for (size_t k = 0; k < n; k++) {
    switch (src.weighted({4, 4, 2, 1, 1})) {
      case 0: { if (b.empty()) break; size_t keep = src.chance(1, 3) ? b.size() - std::min<size_t>(b.size(), src.range(1, 30)) : (size_t)src.range(0, b.size() - 1); src.note("cut to %zu", keep); b.resize(keep); break; }
      case 1: { if (b.empty()) break; size_t i = src.pick(b.size()); uint8_t d = src.chance(1, 2) ? 1 << src.pick(8) : (uint8_t)src.range(1, 255); b[i] ^= d; src.note("flip %zu by %02x", i, d); break; }
      case 2: { if (b.empty()) break; size_t i = src.pick(b.size()), l = src.range(1, 20); src.note("delete %zu+%zu", i, l); b.erase(b.begin() + i, b.begin() + std::min(b.size(), i + l)); break; }
      case 3: { size_t i = src.range(0, b.size()); Bytes x = src.bytes(src.range(1, 8)); src.note("insert %zu at %zu", x.size(), i); b.insert(b.begin() + i, x.begin(), x.end()); break; }
      default: { if (b.size() < 2) break; size_t i = src.pick(b.size()), j = src.pick(b.size()); std::swap(b[i], b[j]); src.note("swap %zu %zu", i, j); }
    }
  }
}

PBT_TEST(damaged_stream, {.quick = 30000, .thorough = 600000,
  .rule = "a compressed stream of a generated message with 1..3 cuts, flips, deletions or insertions: restore fails or returns exactly the message; non-trivial: the stream really changed", .quick_s = 60}) {
  size_t c = gen_coder(src), level = gen_level(src, c);
  Bytes m = gen_payload(src);
  src.note("%s level %zu, %zu bytes %s", coders[c].name, level, m.size(), hex(m, 16).c_str());
  EntropyInfo *a = AcquireEntropyInfo(coders[c].t, level);
  Exc e;
  SI s(m);
  CHECK(IncreaseEntropy(a, s, e), "increase failed");
  Bytes packed = bytes_of(GetEntropyChaos(a)), bad = packed;
  damage(src, bad);
  if (bad != packed) src.nontrivial();
  SI t(bad);
  size_t room = m.size() + (src.chance(1, 2) ? 0 : src.size(2000));
  Exc e2;
  if (RestoreEntropy(a, room, t, e2)) {
    Bytes got = bytes_of(GetEntropyChaos(a));
    CHECK(got == m, "a damaged %s stream was restored to %zu different bytes (original %zu) and reported as a success", coders[c].name, got.size(), m.size());
    src.label("harmless");
  } else {
    src.label("refused");
    CHECK(GetExceptionSeverity(e2) != 0, "refused without an exception");
  }
  // the object stays usable
  SI p(packed);
  CHECK(RestoreEntropy(a, m.size(), p, e) && bytes_of(GetEntropyChaos(a)) == m, "the undamaged stream is no longer restored");
  DestroyEntropyInfo(a);
}

PBT_TEST(foreign_stream, {.quick = 60000, .thorough = 1500000,
  .rule = "arbitrary bytes, sometimes behind a valid stream header, presented to each coder: a status, never a memory error, output within the length; non-trivial: more than 8 bytes", .coverage = true}) {
  size_t c = src.pick(3);
  Bytes b;
  if (src.chance(2, 3)) {
    static const Bytes heads[] = {{0x78, 0x9c}, {'B', 'Z', 'h', '1', 0x31, 0x41, 0x59, 0x26, 0x53, 0x59}, {0xfd, '7', 'z', 'X', 'Z', 0, 0, 0x0a, 0xe1, 0xfb, 0x0c, 0xa1}};
    b = heads[src.chance(1, 10) ? src.pick(3) : c];
  }
  Bytes t = src.data(200);
  b.insert(b.end(), t.begin(), t.end());
  size_t room = src.size(4000);
  src.note("%s %s into %zu", coders[c].name, hex(b, 40).c_str(), room);
  EntropyInfo *a = AcquireEntropyInfo(coders[c].t, 1);
  SI s(b);
  Exc e;
  if (RestoreEntropy(a, room, s, e)) {
    CHECK(GetStringInfoLength(GetEntropyChaos(a)) <= room, "more output than room");
    bytes_of(GetEntropyChaos(a));
  }
  DestroyEntropyInfo(a);
  if (b.size() > 8) src.nontrivial();
}
