// C06: digests against reference implementations, under every way of feeding.
#include "wt.h"
#include "ref.h"
using namespace pbt;

struct H { HashType t; ref::Hash r; };
static const H kinds[] = {{CRC64Hash, ref::CRC64}, {MD5Hash, ref::MD5}, {SHA1Hash, ref::SHA1}, {SHA2224Hash, ref::SHA2224},
  {SHA2256Hash, ref::SHA2256}, {SHA2384Hash, ref::SHA2384}, {SHA2512Hash, ref::SHA2512}, {SHA3Hash, ref::SHA3},
  {SHA3224Hash, ref::SHA3224}, {SHA3256Hash, ref::SHA3256}, {SHA3384Hash, ref::SHA3384}, {SHA3512Hash, ref::SHA3512},
  {SHA2Hash, ref::SHA2256}};
static const size_t nkinds = sizeof kinds / sizeof *kinds;

static Bytes message(Src &src) {
  return src.data(src.chance(1, 30) ? 20000 : 700, {55, 56, 63, 64, 65, 71, 72, 103, 104, 111, 112, 119, 120, 127, 128, 129, 135, 136, 143, 144, 256});
}
static void verify(HashInfo *h, const H &k, const Bytes &m, const char *what) {
  Bytes e = ref::hash(k.r, m), g = bytes_of(GetHashDigest(h));
  CHECK(g == e, "%s %s of %zu bytes is %s, expected %s", what, ref::name(k.r), m.size(), hex(g).c_str(), hex(e).c_str());
  CHECK(GetHashDigestsize(h) == e.size(), "digest size %zu, expected %zu", GetHashDigestsize(h), e.size());
  char *x = GetHashHexDigest(h);
  CHECK(hex(e.data(), e.size(), e.size()) == x, "hex digest %s", x);
  DestroyString(x);
}
static void feed(Src &src, HashInfo *h, const Bytes &m) {
  size_t o = 0;
  int style = (int)src.pick(3);
  while (o < m.size()) {
    size_t n = m.size() - o;
    if (style == 1) n = std::min(n, (size_t)src.range(1, 1 + src.pick(200)));
    if (style == 2) n = std::min(n, (size_t)(src.chance(1, 5) ? src.of(std::vector<size_t>{1, 8, 63, 64, 65, 72, 104, 128, 136, 144}) : 64));
    Bytes p(m.begin() + o, m.begin() + o + n);
    SI s(p);
    CHECK(UpdateHash(h, s), "update failed");
    CHECK(bytes_of(s) == p, "update changed the message");
    o += n;
    if (src.chance(1, 10)) { SI z(Bytes{}); UpdateHash(h, z); }
  }
}

PBT_TEST(digest_one, {.quick = 150000, .thorough = 3000000,
  .rule = "one message of 0..20000 bytes fed in random pieces to a random hash, digest compared with the reference; non-trivial: more than 55 bytes"}) {
  const H &k = kinds[src.pick(nkinds)];
  Bytes m = message(src);
  src.note("%s %zu bytes %s", ref::name(k.r), m.size(), hex(m, 24).c_str());
  src.label(ref::name(k.r));
  HashInfo *h = AcquireHashInfo(k.t);
  InitializeHash(h);
  feed(src, h, m);
  CHECK(FinalizeHash(h), "finalize failed");
  verify(h, k, m, "digest");
  DestroyHashInfo(h);
  if (m.size() > 55) src.nontrivial();
}

PBT_TEST(digest_history, {.quick = 30000, .thorough = 600000,
  .rule = "up to 25 steps over up to 4 hash objects of any kind: update, finalize, reinitialise, interleaved; every finalized digest compared with the reference of that object's own message; non-trivial: two objects and a reuse after finalize"}) {
  struct O { HashInfo *h; H k; Bytes m; bool fin = false; };
  std::vector<O> v;
  bool reuse = false;
  size_t steps = 2 + src.size(25);
  for (size_t s = 0; s < steps; s++) {
    if (v.empty() || (v.size() < 4 && src.chance(1, 5))) {
      O o; o.k = kinds[src.pick(nkinds)];
      o.h = AcquireHashInfo(o.k.t);
      InitializeHash(o.h);
      src.note("new %s", ref::name(o.k.r));
      v.push_back(o);
      continue;
    }
    O &o = v[src.pick(v.size())];
    switch (src.weighted({4, 2, 1})) {
      case 0:
        if (o.fin) { InitializeHash(o.h); o.m.clear(); o.fin = false; reuse = true; }
        {
          Bytes p = src.data(300, {64, 128, 136});
          SI x(p);
          UpdateHash(o.h, x);
          o.m.insert(o.m.end(), p.begin(), p.end());
          src.note("update %zu", p.size());
        }
        break;
      case 1:
        if (o.fin) break;
        FinalizeHash(o.h);
        o.fin = true;
        src.note("finalize");
        break;
      default:
        InitializeHash(o.h);
        if (!o.m.empty()) reuse = true;
        o.m.clear(); o.fin = false;
        src.note("init");
    }
    for (auto &q : v) if (q.fin) verify(q.h, q.k, q.m, "history digest");
  }
  for (auto &q : v) {
    if (!q.fin) FinalizeHash(q.h);
    verify(q.h, q.k, q.m, "final digest");
    DestroyHashInfo(q.h);
  }
  if (v.size() >= 2 && reuse) src.nontrivial();
}

PBT_TEST(signature, {.quick = 40000, .thorough = 500000,
  .rule = "the library's signature digest (SHA-256) of a message fed in random pieces, compared with the reference; non-trivial: more than 55 bytes"}) {
  Bytes m = message(src);
  src.note("%zu bytes", m.size());
  SignatureInfo s;
  GetSignatureInfo(&s);
  size_t o = 0;
  while (o < m.size()) {
    size_t n = src.chance(1, 2) ? m.size() - o : std::min(m.size() - o, (size_t)src.range(1, 130));
    Bytes p(m.begin() + o, m.begin() + o + n);
    UpdateSignature(&s, p.data(), p.size());
    o += n;
  }
  FinalizeSignature(&s);
  Bytes e = ref::sha256(m), g;
  for (int i = 0; i < 8; i++) for (int k = 3; k >= 0; k--) g.push_back((uint8_t)(s.digest[i] >> (8 * k)));
  CHECK(g == e, "signature of %zu bytes is %s, expected %s", m.size(), hex(g).c_str(), hex(e).c_str());
  if (m.size() > 55) src.nontrivial();
}

// Messages around 2^32 bits: the 32-bit length counters carry.
PBT_TEST(digest_huge, {.quick = 8, .thorough = 48,
  .rule = "messages around 512 MiB (bit count passing 2^32) in one update or many, compared with the reference; every case is non-trivial",
  .case_cpu = 400, .case_wall = 600, .coverage = false, .quick_s = 150, .thorough_s = 1500, .enumerate = true}) {
  static const H big[] = {{SHA2256Hash, ref::SHA2256}, {MD5Hash, ref::MD5}, {SHA1Hash, ref::SHA1}, {SHA2224Hash, ref::SHA2224},
                          {SHA2384Hash, ref::SHA2384}, {SHA2512Hash, ref::SHA2512}, {UndefinedHash, ref::SHA2256}, {MD5Hash, ref::MD5}};
  const H &k = big[src.pick(8)];
  Bytes rep = src.blob(1 << 20);
  uint64_t n = 512;
  Bytes tail = src.data(300);
  int style = (int)src.pick(3);
  if (style == 2) n = 511;            // the carry happens inside the tail
  if (style == 2) { Bytes t(rep); t.insert(t.end(), tail.begin(), tail.end()); tail = t; }
  src.note("%s %llu MiB + %zu bytes, style %d", ref::name(k.r), (unsigned long long)n, tail.size(), style);
  src.label(std::string(k.t == UndefinedHash ? "signature" : ref::name(k.r)));
  Bytes e = ref::hash_repeated(k.r, rep, n, tail), g;
  if (k.t == UndefinedHash) {
    SignatureInfo s;
    GetSignatureInfo(&s);
    for (uint64_t i = 0; i < n; i++) UpdateSignature(&s, rep.data(), rep.size());
    UpdateSignature(&s, tail.data(), tail.size());
    FinalizeSignature(&s);
    for (int i = 0; i < 8; i++) for (int q = 3; q >= 0; q--) g.push_back((uint8_t)(s.digest[i] >> (8 * q)));
  } else {
    HashInfo *h = AcquireHashInfo(k.t);
    InitializeHash(h);
    if (style == 0) {
      SI s(AcquireStringInfo(n * rep.size() + tail.size()));
      unsigned char *p = GetStringInfoDatum(s);
      for (uint64_t i = 0; i < n; i++) memcpy(p + i * rep.size(), rep.data(), rep.size());
      memcpy(p + n * rep.size(), tail.data(), tail.size());
      UpdateHash(h, s);
    } else {
      SI s(rep), t(tail);
      for (uint64_t i = 0; i < n; i++) UpdateHash(h, s);
      UpdateHash(h, t);
    }
    FinalizeHash(h);
    g = bytes_of(GetHashDigest(h));
    DestroyHashInfo(h);
  }
  CHECK(g == e, "%s of %llu bytes is %s, expected %s", ref::name(k.r), (unsigned long long)(n * rep.size() + tail.size()), hex(g).c_str(), hex(e).c_str());
  src.nontrivial();
}
