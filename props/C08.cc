// C08: ciphertexts against reference block ciphers and modes.
#include "cipher_gen.h"
using namespace pbt;

PBT_TEST(cipher_modes, {.quick = 60000, .thorough = 1200000,
  .rule = "a random cipher, mode, key size, nonce (often with a counter about to carry) and message of 0..600 bytes: the whole ciphertext, padding removed, equals the reference, and the reference ciphertext deciphers to the message; non-trivial: message longer than one block"}) {
  const CK &k = ciphers[src.pick(4)];
  const MK &m = modes[src.pick(5)];
  Bytes key = gen_cipher_key(src), nonce = gen_nonce(src, k.bs);
  Bytes msg = src.data(src.chance(1, 20) ? 5000 : 300, {k.bs - 1, k.bs, k.bs + 1, 2 * k.bs, 16 * k.bs});
  src.note("%s %s key %s nonce %s message %s", k.name, m.name, hex(key).c_str(), hex(nonce).c_str(), hex(msg, 32).c_str());
  src.label(std::string(k.name) + "-" + m.name);
  std::unique_ptr<ref::Block> b(k.mk(key));
  CipherInfo *c = AcquireCipherInfo(k.t, m.m);
  CHECK(GetCipherBlocksize(c) == k.bs, "block size %zu", GetCipherBlocksize(c));
  if (src.chance(1, 4)) { SI other(gen_cipher_key(src)); SetCipherKey(c, other); }
  { SI s(key); SetCipherKey(c, s); }
  { SI s(nonce); SetCipherNonce(c, s); }
  Bytes got = lib_encipher(c, msg, m.m);
  Bytes plain = ref::decipher(*b, m.r, nonce, got);
  CHECK(plain.size() == got.size(), "ciphertext is not a whole number of blocks");
  Bytes head(plain.begin(), plain.begin() + msg.size());
  CHECK(head == msg, "ciphertext %s does not decipher to the message by the published algorithm", hex(got).c_str());
  if (m.m != CFBMode) {
    size_t pad = plain.size() - msg.size();
    CHECK(plain.back() == pad - 1, "pad count byte is %u, expected %zu", plain.back(), pad - 1);
  }
  CHECK(ref::encipher(*b, m.r, nonce, plain) == got, "ciphertext differs from the reference");
  // and the other way round
  Bytes whole = msg;
  if (m.m != CFBMode) whole.resize((msg.size() / k.bs + (msg.size() % k.bs != 0)) * k.bs, 0x5a);
  CHECK(lib_decipher(c, ref::encipher(*b, m.r, nonce, whole)) == whole, "reference ciphertext does not decipher to the message");
  DestroyCipherInfo(c);
  if (msg.size() > k.bs) src.nontrivial();
}

PBT_TEST(block_functions, {.quick = 60000, .thorough = 1000000,
  .rule = "single blocks through the block functions of each cipher, including input and output in one buffer, Chacha with nonce and counter; non-trivial: every case"}) {
  size_t which = src.pick(4);
  Bytes key = gen_cipher_key(src);
  Bytes in = src.chance(1, 2) ? src.bytes(64) : src.blob(64);
  bool inplace = src.chance(1, 2);
  src.note("%s key %s block %s%s", ciphers[which].name, hex(key).c_str(), hex(in).c_str(), inplace ? " in place" : "");
  std::unique_ptr<ref::Block> b(ciphers[which].mk(key));
  size_t bs = ciphers[which].bs;
  Bytes e(bs), out(in.begin(), in.begin() + bs), back(bs);
  b->enc(in.data(), e.data());
  SI k(key);
  const unsigned char *p = inplace ? out.data() : in.data();
#define GO(N) { N##Info *x = Acquire##N##Info(); CHECK(Get##N##Blocksize(x) == bs, "block size"); Set##N##Key(x, k); \
    Encipher##N##Block(x, p, out.data()); Decipher##N##Block(x, out.data(), back.data()); Destroy##N##Info(x); }
  switch (which) {
    case 0: GO(AES) break;
    case 1: GO(Serpent) break;
    case 2: GO(Twofish) break;
    default: GO(Chacha)
  }
  CHECK(out == e, "block is %s, expected %s", hex(out).c_str(), hex(e).c_str());
  CHECK(std::equal(back.begin(), back.end(), in.begin()), "decipher does not invert: %s", hex(back).c_str());
  CHECK(bytes_of(k) == key, "key changed");
  src.nontrivial();
}
