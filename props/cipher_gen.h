#pragma once
#include "wt.h"
#include "ref.h"
#include <memory>
// Keys of an unpublished size: Twofish appends a one byte before the zeros
// (Serpent's own definition does), Chacha uses whole words only.
inline ref::Block *mk_twofish(const Bytes &k) { Bytes b = k; if (b.size() < 32) { b.push_back(1); } size_t n = k.size() >= 32 ? 32 : k.size() >= 24 ? 24 : 16; b.resize(n, 0); return ref::twofish(b); }
inline ref::Block *mk_chacha(const Bytes &k) { Bytes b = k; if (b.size() < 16) b.resize(b.size() / 4 * 4); return ref::chacha(b); }
struct CK { CipherType t; const char *name; ref::Block *(*mk)(const Bytes &); size_t bs; };
static const CK ciphers[] = {{AESCipher, "AES", ref::aes, 16}, {SerpentCipher, "Serpent", ref::serpent, 16},
                             {TwofishCipher, "Twofish", mk_twofish, 16}, {ChachaCipher, "Chacha", mk_chacha, 64}};
struct MK { CipherMode m; const char *name; ref::Mode r; };
static const MK modes[] = {{CBCMode, "CBC", ref::CBC}, {CFBMode, "CFB", ref::CFB8}, {CTRMode, "CTR", ref::CTR}, {ECBMode, "ECB", ref::ECB}, {OFBMode, "OFB", ref::OFB}};
inline Bytes gen_nonce(Src &src, size_t n) {
  Bytes b = src.chance(1, 3) ? src.bytes(n) : src.blob(n);
  // counters about to carry
  if (src.chance(1, 2)) { size_t k = src.range(1, n - 1); for (size_t i = 0; i < k; i++) b[n - 1 - i] = 255; if (src.chance(1, 2)) b[n - 1] = (uint8_t)src.range(250, 255); if (b[0] == 255) b[0] = 7; }
  if (b[0] == 255) b[0] = 254;   // the counter itself never wraps: documented as fatal
  return b;
}
inline Bytes gen_cipher_key(Src &src) {
  size_t n;
  switch (src.weighted({4, 2, 1})) {
    case 0: n = src.of(std::vector<size_t>{16, 24, 32}); break;
    case 1: n = src.range(0, 70); break;
    default: n = src.of(std::vector<size_t>{0, 1, 4, 15, 17, 23, 25, 31, 33, 64});
  }
  return src.chance(1, 2) ? src.bytes(n) : src.blob(n);
}
// encipher through the library: the padded ciphertext
inline Bytes lib_encipher(CipherInfo *c, const Bytes &m, CipherMode mode) {
  size_t bs = GetCipherBlocksize(c);
  SI s(m);
  StringInfo *o = EncipherCipher(c, s);
  CHECK(o == s.s, "encipher returned another string");
  CHECK(GetStringInfoLength(s) == m.size(), "length changed from %zu to %zu", m.size(), GetStringInfoLength(s));
  size_t pad = mode == CFBMode ? 0 : bs - m.size() % bs;
  const unsigned char *p = GetStringInfoDatum(s);
  return Bytes(p, p + m.size() + pad);
}
inline Bytes lib_decipher(CipherInfo *c, const Bytes &m) {
  SI s(m);
  StringInfo *o = DecipherCipher(c, s);
  CHECK(o == s.s, "decipher returned another string");
  return bytes_of(s);
}
