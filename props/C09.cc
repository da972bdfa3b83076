// C09: decipher inverts encipher over histories of several cipher objects.
#include "cipher_gen.h"
using namespace pbt;

PBT_TEST(cipher_history, {.quick = 40000, .thorough = 900000,
  .rule = "up to 25 steps over 2-4 cipher objects of one cipher and mode: set key, set or reset nonce, encipher, decipher an earlier ciphertext on any object put under the same key and nonce; non-trivial: a ciphertext of more than one block deciphered after other operations"}) {
  const CK &k = ciphers[src.pick(4)];
  const MK &m = modes[src.pick(5)];
  struct O { CipherInfo *c; Bytes key, nonce; };
  struct T { Bytes key, nonce, plain, cipher; size_t step; };
  std::vector<O> os(2 + src.pick(3));
  std::vector<T> texts;
  std::vector<Bytes> keys;
  src.note("%s %s, %zu objects", k.name, m.name, os.size());
  auto setkey = [&](O &o, const Bytes &b) { SI s(b); SetCipherKey(o.c, s); o.key = b; CHECK(bytes_of(s) == b, "key argument changed"); };
  auto setnonce = [&](O &o, const Bytes &b) { SI s(b); SetCipherNonce(o.c, s); o.nonce = b; };
  for (auto &o : os) {
    o.c = AcquireCipherInfo(k.t, m.m);
    o.nonce = bytes_of(GetCipherNonce(o.c));
    CHECK(o.nonce.size() == k.bs, "nonce has %zu bytes", o.nonce.size());
    setkey(o, gen_cipher_key(src));
  }
  size_t steps = 3 + src.size(25);
  for (size_t s = 0; s < steps; s++) {
    size_t oi = src.pick(os.size());
    O &o = os[oi];
    switch (src.weighted({5, 5, 2, 2, 1})) {
      case 0: {
        T t;
        t.plain = src.data(src.chance(1, 20) ? 3000 : 200, {0, 15, 16, 17, 63, 64, 65, 128});
        t.key = o.key; t.nonce = o.nonce; t.step = s;
        t.cipher = lib_encipher(o.c, t.plain, m.m);
        src.note("%zu: encipher %zu bytes", oi, t.plain.size());
        if (m.m != ECBMode || true)
          for (auto &q : texts)  // deterministic in the part the message decides
            if (q.key == t.key && q.nonce == t.nonce && q.plain == t.plain) {
              size_t whole = m.m == CFBMode || m.m == CTRMode || m.m == OFBMode ? t.plain.size() : t.plain.size() / k.bs * k.bs;
              CHECK(std::equal(q.cipher.begin(), q.cipher.begin() + whole, t.cipher.begin()), "enciphering the same message again differs");
            }
        texts.push_back(t);
        break;
      }
      case 1: {
        if (texts.empty()) break;
        T &t = texts[src.pick(texts.size())];
        if (o.key != t.key) setkey(o, t.key);
        if (o.nonce != t.nonce) setnonce(o, t.nonce);
        src.note("%zu: decipher text of step %zu", oi, t.step);
        Bytes p = lib_decipher(o.c, t.cipher);
        CHECK(p.size() >= t.plain.size() && std::equal(t.plain.begin(), t.plain.end(), p.begin()), "deciphered text differs from the %zu byte message", t.plain.size());
        if (m.m != CFBMode) {
          CHECK(p.size() == t.cipher.size(), "deciphered length");
          CHECK(p.back() == p.size() - t.plain.size() - 1, "pad count %u", p.back());
        }
        if (t.plain.size() > k.bs && t.step + 1 < s) src.nontrivial();
        break;
      }
      case 2: setkey(o, !texts.empty() && src.chance(1, 2) ? texts[src.pick(texts.size())].key : gen_cipher_key(src)); src.note("%zu: key", oi); break;
      case 3: setnonce(o, !texts.empty() && src.chance(1, 2) ? texts[src.pick(texts.size())].nonce : gen_nonce(src, k.bs)); src.note("%zu: nonce", oi); break;
      default: ResetCipherNonce(o.c); o.nonce.assign(k.bs, 0); src.note("%zu: reset nonce", oi);
    }
    for (auto &q : os) CHECK(bytes_of(GetCipherNonce(q.c)) == q.nonce, "nonce of an object changed to %s, expected %s", hex(bytes_of(GetCipherNonce(q.c))).c_str(), hex(q.nonce).c_str());
  }
  for (auto &o : os) DestroyCipherInfo(o.c);
}

PBT_TEST(fresh_nonces, {.quick = 20000, .thorough = 200000,
  .rule = "nonces of newly acquired cipher objects have the block length and never repeat; counter mode nonces start with a zero counter half; non-trivial: every case"}) {
  real_entropy(true);
  const CK &k = ciphers[src.pick(4)];
  const MK &m = modes[src.pick(5)];
  CipherInfo *a = AcquireCipherInfo(k.t, m.m), *b = AcquireCipherInfo(k.t, m.m);
  Bytes x = bytes_of(GetCipherNonce(a)), y = bytes_of(GetCipherNonce(b));
  src.note("%s %s %s %s", k.name, m.name, hex(x).c_str(), hex(y).c_str());
  CHECK(x.size() == k.bs && y.size() == k.bs, "nonce sizes %zu %zu", x.size(), y.size());
  CHECK(x != y, "two objects share a nonce");
  StringInfo *n = GenerateCipherNonce(a);
  CHECK(bytes_of(n) != x && GetStringInfoLength(n) == k.bs, "generated nonce repeats");
  if (m.m == CTRMode) for (size_t i = k.bs / 2; i < k.bs; i++) CHECK(x[i] == 0, "counter does not start at zero");
  DestroyStringInfo(n);
  DestroyCipherInfo(a);
  DestroyCipherInfo(b);
  real_entropy(false);
  src.nontrivial();
}
