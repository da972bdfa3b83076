// C10: entropy coders restore what they reduced.
#include "entropy_gen.h"
#include <zlib.h>
#include <bzlib.h>
using namespace pbt;

PBT_TEST(entropy_round_trip, {.quick = 24000, .thorough = 400000,
  .rule = "one coder object taken through 1..4 messages (0..300 KB, repetitive, random, mixed) at any level, each restored by the same or a fresh object with an exact or generous length; non-trivial: a message of more than 16 bytes", .quick_s = 60}) {
  size_t c = gen_coder(src);
  size_t level = gen_level(src, c);
  EntropyInfo *a = AcquireEntropyInfo(coders[c].t, level), *b = AcquireEntropyInfo(coders[c].t, src.chance(1, 2) ? level : gen_level(src, c));
  src.label(coders[c].name);
  size_t rounds = 1 + src.weighted({6, 2, 1, 1});
  for (size_t r = 0; r < rounds; r++) {
    Bytes m = gen_payload(src);
    src.note("%s level %zu, %zu bytes %s", coders[c].name, level, m.size(), hex(m, 16).c_str());
    SI s(m);
    Exc e;
    CHECK(IncreaseEntropy(a, s, e), "increase of %zu bytes at level %zu failed", m.size(), level);
    CHECK(bytes_of(s) == m, "increase changed its argument");
    SI packed(CloneStringInfo(GetEntropyChaos(a)));
    if (c == 0) {  // the stream is a plain zlib one
      Bytes out(m.size() + 1);
      uLongf n = out.size();
      CHECK(uncompress(out.data(), &n, GetStringInfoDatum(packed), GetStringInfoLength(packed)) == Z_OK && n == m.size() && std::equal(m.begin(), m.end(), out.begin()), "not a zlib stream of the message");
    } else if (c == 1) {
      Bytes out(m.size() + 1);
      unsigned n = out.size();
      CHECK(BZ2_bzBuffToBuffDecompress((char *)out.data(), &n, (char *)GetStringInfoDatum(packed), GetStringInfoLength(packed), 0, 0) == BZ_OK && n == m.size() && std::equal(m.begin(), m.end(), out.begin()), "not a bzip2 stream of the message");
    }
    EntropyInfo *d = src.chance(1, 2) ? a : b;
    size_t room = m.size() + (src.chance(1, 2) ? 0 : src.size(5000));
    CHECK(RestoreEntropy(d, room, packed, e), "restore of %zu bytes failed", m.size());
    Bytes got = bytes_of(GetEntropyChaos(d));
    CHECK(got == m, "restored %zu bytes differ from the %zu original ones", got.size(), m.size());
    if (m.size() > 16) src.nontrivial();
  }
  DestroyEntropyInfo(a);
  DestroyEntropyInfo(b);
}

PBT_TEST(entropy_no_room, {.quick = 12000, .thorough = 150000,
  .rule = "restoring with a length smaller than the original: refused, or the prefix never exceeds the length; non-trivial: original larger than one byte"}) {
  size_t c = gen_coder(src), level = gen_level(src, c);
  Bytes m = gen_payload(src);
  if (m.empty()) discard();
  size_t room = (size_t)src.range(0, m.size() - 1);
  src.note("%s level %zu, %zu bytes into %zu", coders[c].name, level, m.size(), room);
  EntropyInfo *a = AcquireEntropyInfo(coders[c].t, level);
  Exc e;
  SI s(m);
  CHECK(IncreaseEntropy(a, s, e), "increase failed");
  SI packed(CloneStringInfo(GetEntropyChaos(a)));
  if (RestoreEntropy(a, room, packed, e)) {
    Bytes got = bytes_of(GetEntropyChaos(a));
    CHECK(got == m, "restore reported success with %zu of %zu bytes", got.size(), m.size());
  }
  DestroyEntropyInfo(a);
  if (m.size() > 1) src.nontrivial();
}
