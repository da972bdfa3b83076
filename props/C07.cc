// C07: HMAC against the published construction.
#include "wt.h"
#include "ref.h"
using namespace pbt;
struct H { HashType t; ref::Hash r; };
static const H kinds[] = {{CRC64Hash, ref::CRC64}, {MD5Hash, ref::MD5}, {SHA1Hash, ref::SHA1}, {SHA2224Hash, ref::SHA2224},
  {SHA2256Hash, ref::SHA2256}, {SHA2384Hash, ref::SHA2384}, {SHA2512Hash, ref::SHA2512}, {SHA3Hash, ref::SHA3},
  {SHA3224Hash, ref::SHA3224}, {SHA3256Hash, ref::SHA3256}, {SHA3384Hash, ref::SHA3384}, {SHA3512Hash, ref::SHA3512}};
static Bytes gen_key(Src &src) { return src.data(300, {0, 1, 31, 32, 33, 63, 64, 65, 127, 128, 129}); }
static void expect(HMACInfo *h, const H &k, const Bytes &key, const Bytes &m) {
  Bytes e = ref::hmac(k.r, key, m), g = bytes_of(GetHMACDigest(h));
  CHECK(g == e, "HMAC-%s key %zu message %zu is %s, expected %s", ref::name(k.r), key.size(), m.size(), hex(g).c_str(), hex(e).c_str());
  CHECK(GetHMACDigestsize(h) == e.size(), "digest size %zu", GetHMACDigestsize(h));
}

PBT_TEST(hmac_history, {.quick = 120000, .thorough = 2500000,
  .rule = "an HMAC object of any hash taken through up to 4 rounds of initialise (new key) or reset (same key), updates in pieces and finalize, or the one-shot call, each code compared with the published construction; non-trivial: key longer than a block or at least two rounds"}) {
  const H &k = kinds[src.pick(12)];
  HMACInfo *h = AcquireHMACInfo(k.t);
  Bytes key;
  bool keyed = false;
  size_t rounds = 1 + src.pick(4);
  src.label(ref::name(k.r));
  if (rounds > 1) src.nontrivial();
  for (size_t r = 0; r < rounds; r++) {
    if (src.chance(1, 5)) {
      key = gen_key(src);
      Bytes m = src.data(400, {64, 128});
      SI a(key), b(m);
      src.note("construct %s key %s message %s", ref::name(k.r), hex(key, 20).c_str(), hex(m, 20).c_str());
      ConstructHMAC(h, a, b);
      expect(h, k, key, m);
      CHECK(bytes_of(a) == key && bytes_of(b) == m, "arguments changed");
      keyed = false;  // what a later reset does after the one-shot call is not specified
      continue;
    }
    if (!keyed || src.chance(1, 2)) {
      key = gen_key(src);
      SI a(key);
      src.note("init %s key %zu:%s", ref::name(k.r), key.size(), hex(key, 20).c_str());
      InitializeHMAC(h, a);
      keyed = true;
    } else { src.note("reset"); ResetHMAC(h); }
    Bytes m = src.data(600, {55, 56, 64, 111, 112, 128});
    src.note("message %zu:%s", m.size(), hex(m, 20).c_str());
    size_t o = 0;
    while (o < m.size()) {
      size_t n = src.chance(1, 2) ? m.size() - o : std::min(m.size() - o, (size_t)src.range(1, 140));
      SI p(Bytes(m.begin() + o, m.begin() + o + n));
      UpdateHMAC(h, p);
      o += n;
    }
    FinalizeHMAC(h);
    expect(h, k, key, m);
    if (key.size() > ref::block_size(k.r)) src.nontrivial();
  }
  DestroyHMACInfo(h);
}

PBT_TEST(hmac_sensitivity, {.quick = 40000, .thorough = 600000,
  .rule = "two related (key, message) pairs differing in one byte: the codes differ; non-trivial: message longer than a block"}) {
  const H &k = kinds[1 + src.pick(11)];
  Bytes key = gen_key(src), m = src.data(500, {64, 128});
  if (key.empty()) key.push_back(src.byte());
  Bytes key2 = key, m2 = m;
  bool inkey = m.empty() || src.chance(1, 2);
  uint8_t d = (uint8_t)src.range(1, 255);
  if (inkey) key2[src.pick(key.size())] ^= d; else m2[src.pick(m.size())] ^= d;
  src.note("%s key %zu message %zu differ in %s", ref::name(k.r), key.size(), m.size(), inkey ? "key" : "message");
  HMACInfo *h = AcquireHMACInfo(k.t);
  SI a(key), b(m), a2(key2), b2(m2);
  InitializeHMAC(h, a); UpdateHMAC(h, b); FinalizeHMAC(h);
  Bytes x = bytes_of(GetHMACDigest(h));
  InitializeHMAC(h, a2); UpdateHMAC(h, b2); FinalizeHMAC(h);
  Bytes y = bytes_of(GetHMACDigest(h));
  InitializeHMAC(h, a); UpdateHMAC(h, b); FinalizeHMAC(h);
  CHECK(x != y, "codes of different inputs are equal: %s", hex(x).c_str());
  CHECK(bytes_of(GetHMACDigest(h)) == x, "the code of the same input changed");
  DestroyHMACInfo(h);
  if (m.size() > 64) src.nontrivial();
}
