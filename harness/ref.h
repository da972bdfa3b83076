// Reference implementations written from the published definitions (tables
// are derived, not copied), favouring clarity over speed.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
namespace ref {
typedef std::vector<uint8_t> Bytes;
Bytes md5(const Bytes &), sha1(const Bytes &), sha224(const Bytes &), sha256(const Bytes &),
    sha384(const Bytes &), sha512(const Bytes &), crc64(const Bytes &);
Bytes keccak(const Bytes &, size_t rate_bytes, size_t out);  // original padding
Bytes hmac(Bytes (*hash)(const Bytes &), size_t block, Bytes key, const Bytes &msg);
// hash by the library's HashType name: CRC64 MD5 SHA1 SHA2224 ... SHA3512
enum Hash { CRC64, MD5, SHA1, SHA2224, SHA2256, SHA2384, SHA2512, SHA3, SHA3224, SHA3256, SHA3384, SHA3512, NHASH };
Bytes hash(Hash h, const Bytes &);
// hash of n copies of rep (a multiple of 128 bytes) followed by tail; MD5, SHA-1, SHA-2
Bytes hash_repeated(Hash h, const Bytes &rep, uint64_t n, const Bytes &tail);
size_t digest_size(Hash h);
size_t block_size(Hash h);
const char *name(Hash h);
Bytes hmac(Hash h, const Bytes &key, const Bytes &msg);
struct Block {  // a keyed block function
  virtual ~Block() {}
  virtual size_t size() const { return 16; }
  virtual void enc(const uint8_t *in, uint8_t *out) const = 0;
  virtual void dec(const uint8_t *in, uint8_t *out) const = 0;
};
Block *aes(const Bytes &key), *serpent(const Bytes &key), *twofish(const Bytes &key), *chacha(const Bytes &key);
enum Mode { CBC, CFB8, CTR, ECB, OFB, NMODE };
// whole blocks except for CFB8
Bytes encipher(const Block &b, Mode m, const Bytes &nonce, const Bytes &plain);
Bytes decipher(const Block &b, Mode m, const Bytes &nonce, const Bytes &cipher);
std::string base64(const Bytes &);
}
