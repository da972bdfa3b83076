#include "ref.h"
#include <cmath>
#include <cstring>
namespace ref {
static uint32_t rol(uint32_t x, int n) { n &= 31; return n ? (x << n) | (x >> (32 - n)) : x; }
static uint32_t ror(uint32_t x, int n) { return rol(x, 32 - n); }
static uint64_t ror64(uint64_t x, int n) { return (x >> n) | (x << (64 - n)); }
static uint64_t rol64(uint64_t x, int n) { return n ? (x << n) | (x >> (64 - n)) : x; }

// Merkle-Damgard padding: 0x80, zeros, bit length in `lenbytes`
static Bytes pad(const Bytes &m, size_t block, size_t lenbytes, bool big, uint64_t before) {
  Bytes p = m;
  p.push_back(0x80);
  while (p.size() % block != block - lenbytes) p.push_back(0);
  unsigned __int128 bits = ((unsigned __int128)m.size() + before) * 8;
  for (size_t i = 0; i < lenbytes; i++) {
    size_t k = big ? lenbytes - 1 - i : i;
    p.push_back(k < 16 ? (uint8_t)(bits >> (8 * k)) : 0);
  }
  return p;
}
static uint32_t be32(const uint8_t *p) { return (uint32_t)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; }
static uint32_t le32(const uint8_t *p) { return (uint32_t)p[3] << 24 | p[2] << 16 | p[1] << 8 | p[0]; }
static void put_le(uint8_t *p, uint32_t v) { for (int i = 0; i < 4; i++) p[i] = v >> (8 * i); }

static Bytes md5_(const Bytes &rep, uint64_t n, const Bytes &m) {
  static uint32_t K[64];
  static bool init = false;
  if (!init) { for (int i = 0; i < 64; i++) K[i] = (uint32_t)(uint64_t)floor(fabs(sin(i + 1.0)) * 4294967296.0); init = true; }
  static const int R[4][4] = {{7, 12, 17, 22}, {5, 9, 14, 20}, {4, 11, 16, 23}, {6, 10, 15, 21}};
  uint32_t s[4] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476};
  auto compress = [&](const Bytes &p) { for (size_t o = 0; o < p.size(); o += 64) {
    uint32_t a = s[0], b = s[1], c = s[2], d = s[3];
    for (int i = 0; i < 64; i++) {
      uint32_t f; int g;
      switch (i / 16) {
        case 0: f = (b & c) | (~b & d); g = i; break;
        case 1: f = (d & b) | (~d & c); g = (5 * i + 1) % 16; break;
        case 2: f = b ^ c ^ d; g = (3 * i + 5) % 16; break;
        default: f = c ^ (b | ~d); g = (7 * i) % 16;
      }
      f += a + K[i] + le32(&p[o + 4 * g]);
      a = d; d = c; c = b; b += rol(f, R[i / 16][i % 4]);
    }
    s[0] += a; s[1] += b; s[2] += c; s[3] += d;
  } };
  for (uint64_t i = 0; i < n; i++) compress(rep);
  compress(pad(m, 64, 8, false, n * rep.size()));
  Bytes out(16);
  for (int i = 0; i < 4; i++) put_le(&out[4 * i], s[i]);
  return out;
}
static Bytes sha1_(const Bytes &rep, uint64_t n, const Bytes &m) {
  uint32_t h[5] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0};
  auto compress = [&](const Bytes &p) { for (size_t o = 0; o < p.size(); o += 64) {
    uint32_t w[80];
    for (int i = 0; i < 16; i++) w[i] = be32(&p[o + 4 * i]);
    for (int i = 16; i < 80; i++) w[i] = rol(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
    uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
    for (int i = 0; i < 80; i++) {
      uint32_t f, k;
      if (i < 20) { f = (b & c) | (~b & d); k = 0x5a827999; }
      else if (i < 40) { f = b ^ c ^ d; k = 0x6ed9eba1; }
      else if (i < 60) { f = (b & c) | (b & d) | (c & d); k = 0x8f1bbcdc; }
      else { f = b ^ c ^ d; k = 0xca62c1d6; }
      uint32_t t = rol(a, 5) + f + e + k + w[i];
      e = d; d = c; c = rol(b, 30); b = a; a = t;
    }
    h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
  } };
  for (uint64_t i = 0; i < n; i++) compress(rep);
  compress(pad(m, 64, 8, true, n * rep.size()));
  Bytes out;
  for (int i = 0; i < 5; i++) for (int k = 3; k >= 0; k--) out.push_back(h[i] >> (8 * k));
  return out;
}
// SHA-2 constants: fractional parts of cube roots (and square roots) of primes
static uint64_t frac_root(unsigned prime, bool cube) {
  // floor(root(prime) * 2^64) mod 2^64 by binary search in 128/192 bit integers
  auto leq = [&](uint64_t ip, uint64_t fp) {  // (ip.fp)^k <= prime ?
    // long double is not enough: use 32-bit limb arithmetic
    std::vector<uint32_t> a = {(uint32_t)fp, (uint32_t)(fp >> 32), (uint32_t)ip};
    std::vector<uint32_t> r = a;
    for (int n = 1; n < (cube ? 3 : 2); n++) {
      std::vector<uint32_t> t(r.size() + a.size(), 0);
      for (size_t i = 0; i < r.size(); i++) {
        uint64_t c = 0;
        for (size_t j = 0; j < a.size(); j++) {
          c += (uint64_t)t[i + j] + (uint64_t)r[i] * a[j];
          t[i + j] = (uint32_t)c; c >>= 32;
        }
        t[i + a.size()] += (uint32_t)c;
      }
      r = t;
    }
    size_t fl = cube ? 6 : 4;   // fractional limbs
    uint64_t whole = 0;
    for (size_t i = r.size(); i-- > fl;) whole = whole << 32 | r[i];
    return whole < prime;        // roots of primes are irrational: never equal
  };
  uint64_t ip = 0;
  while (leq(ip + 1, 0)) ip++;
  uint64_t f = 0;
  for (int b = 63; b >= 0; b--) if (leq(ip, f | 1ULL << b)) f |= 1ULL << b;
  return f;
}
static const uint64_t *primes_k(bool cube) {
  static uint64_t K[80], H[16];
  static bool init = false;
  if (!init) {
    int n = 0;
    for (unsigned p = 2; n < 80; p++) {
      bool pr = true;
      for (unsigned q = 2; q * q <= p; q++) if (p % q == 0) pr = false;
      if (!pr) continue;
      K[n] = frac_root(p, true);
      if (n < 16) H[n] = frac_root(p, false);
      n++;
    }
    init = true;
  }
  return cube ? K : H;
}
static Bytes sha2_32(const Bytes &rep, uint64_t n, const Bytes &m, bool is224) {
  const uint64_t *K = primes_k(true), *H = primes_k(false);
  uint32_t h[8];
  for (int i = 0; i < 8; i++) h[i] = is224 ? (uint32_t)H[i + 8] : (uint32_t)(H[i] >> 32);
  auto compress = [&](const Bytes &p) { for (size_t o = 0; o < p.size(); o += 64) {
    uint32_t w[64], v[8];
    for (int i = 0; i < 16; i++) w[i] = be32(&p[o + 4 * i]);
    for (int i = 16; i < 64; i++) {
      uint32_t s0 = ror(w[i - 15], 7) ^ ror(w[i - 15], 18) ^ (w[i - 15] >> 3);
      uint32_t s1 = ror(w[i - 2], 17) ^ ror(w[i - 2], 19) ^ (w[i - 2] >> 10);
      w[i] = w[i - 16] + s0 + w[i - 7] + s1;
    }
    memcpy(v, h, sizeof v);
    for (int i = 0; i < 64; i++) {
      uint32_t S1 = ror(v[4], 6) ^ ror(v[4], 11) ^ ror(v[4], 25), ch = (v[4] & v[5]) ^ (~v[4] & v[6]);
      uint32_t t1 = v[7] + S1 + ch + (uint32_t)(K[i] >> 32) + w[i];
      uint32_t S0 = ror(v[0], 2) ^ ror(v[0], 13) ^ ror(v[0], 22), mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
      for (int k = 7; k > 0; k--) v[k] = v[k - 1];
      v[4] += t1; v[0] = t1 + S0 + mj;
    }
    for (int i = 0; i < 8; i++) h[i] += v[i];
  } };
  for (uint64_t i = 0; i < n; i++) compress(rep);
  compress(pad(m, 64, 8, true, n * rep.size()));
  Bytes out;
  for (int i = 0; i < (is224 ? 7 : 8); i++) for (int k = 3; k >= 0; k--) out.push_back(h[i] >> (8 * k));
  return out;
}
Bytes sha224(const Bytes &m) { return sha2_32(Bytes(), 0, m, true); }
Bytes sha256(const Bytes &m) { return sha2_32(Bytes(), 0, m, false); }
static Bytes sha2_64(const Bytes &rep, uint64_t n, const Bytes &m, bool is384) {
  const uint64_t *K = primes_k(true), *H = primes_k(false);
  uint64_t h[8];
  for (int i = 0; i < 8; i++) h[i] = H[i + (is384 ? 8 : 0)];
  auto compress = [&](const Bytes &p) { for (size_t o = 0; o < p.size(); o += 128) {
    uint64_t w[80], v[8];
    for (int i = 0; i < 16; i++) w[i] = (uint64_t)be32(&p[o + 8 * i]) << 32 | be32(&p[o + 8 * i + 4]);
    for (int i = 16; i < 80; i++) {
      uint64_t s0 = ror64(w[i - 15], 1) ^ ror64(w[i - 15], 8) ^ (w[i - 15] >> 7);
      uint64_t s1 = ror64(w[i - 2], 19) ^ ror64(w[i - 2], 61) ^ (w[i - 2] >> 6);
      w[i] = w[i - 16] + s0 + w[i - 7] + s1;
    }
    memcpy(v, h, sizeof v);
    for (int i = 0; i < 80; i++) {
      uint64_t S1 = ror64(v[4], 14) ^ ror64(v[4], 18) ^ ror64(v[4], 41), ch = (v[4] & v[5]) ^ (~v[4] & v[6]);
      uint64_t t1 = v[7] + S1 + ch + K[i] + w[i];
      uint64_t S0 = ror64(v[0], 28) ^ ror64(v[0], 34) ^ ror64(v[0], 39), mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
      for (int k = 7; k > 0; k--) v[k] = v[k - 1];
      v[4] += t1; v[0] = t1 + S0 + mj;
    }
    for (int i = 0; i < 8; i++) h[i] += v[i];
  } };
  for (uint64_t i = 0; i < n; i++) compress(rep);
  compress(pad(m, 128, 16, true, n * rep.size()));
  Bytes out;
  for (int i = 0; i < (is384 ? 6 : 8); i++) for (int k = 7; k >= 0; k--) out.push_back(h[i] >> (8 * k));
  return out;
}
Bytes sha384(const Bytes &m) { return sha2_64(Bytes(), 0, m, true); }
Bytes sha512(const Bytes &m) { return sha2_64(Bytes(), 0, m, false); }

Bytes keccak(const Bytes &m, size_t rate, size_t outlen) {
  static uint64_t RC[24];
  static int rot[5][5];
  static bool init = false;
  if (!init) {
    uint8_t lfsr = 1;
    for (int r = 0; r < 24; r++) {
      RC[r] = 0;
      for (int j = 0; j < 7; j++) {
        if (lfsr & 1) RC[r] |= 1ULL << ((1 << j) - 1);
        lfsr = (uint8_t)((lfsr << 1) ^ ((lfsr & 0x80) ? 0x71 : 0));
      }
    }
    int x = 1, y = 0;
    rot[0][0] = 0;
    for (int t = 0; t < 24; t++) {
      rot[x][y] = ((t + 1) * (t + 2) / 2) % 64;
      int nx = y, ny = (2 * x + 3 * y) % 5;
      x = nx; y = ny;
    }
    init = true;
  }
  Bytes p = m;
  p.push_back(0x01);
  while (p.size() % rate) p.push_back(0);
  p.back() |= 0x80;
  uint64_t A[5][5];
  memset(A, 0, sizeof A);
  auto f = [&]() {
    for (int r = 0; r < 24; r++) {
      uint64_t C[5], D[5], B[5][5];
      for (int x = 0; x < 5; x++) C[x] = A[x][0] ^ A[x][1] ^ A[x][2] ^ A[x][3] ^ A[x][4];
      for (int x = 0; x < 5; x++) D[x] = C[(x + 4) % 5] ^ rol64(C[(x + 1) % 5], 1);
      for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) A[x][y] ^= D[x];
      for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) B[y][(2 * x + 3 * y) % 5] = rol64(A[x][y], rot[x][y]);
      for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) A[x][y] = B[x][y] ^ (~B[(x + 1) % 5][y] & B[(x + 2) % 5][y]);
      A[0][0] ^= RC[r];
    }
  };
  for (size_t o = 0; o < p.size(); o += rate) {
    for (size_t i = 0; i < rate; i++) A[(i / 8) % 5][(i / 8) / 5] ^= (uint64_t)p[o + i] << (8 * (i % 8));
    f();
  }
  Bytes out;
  while (true) {
    for (size_t i = 0; i < rate && out.size() < outlen; i++) out.push_back(A[(i / 8) % 5][(i / 8) / 5] >> (8 * (i % 8)));
    if (out.size() >= outlen) return out;
    f();
  }
}
Bytes crc64(const Bytes &m) {  // ISO 3309 polynomial, reflected
  uint64_t c = 0;
  for (uint8_t b : m) {
    c ^= b;
    for (int i = 0; i < 8; i++) c = (c & 1) ? (c >> 1) ^ 0xd800000000000000ULL : c >> 1;
  }
  Bytes out;
  for (int k = 7; k >= 0; k--) out.push_back(c >> (8 * k));
  return out;
}
Bytes md5(const Bytes &m) { return md5_(Bytes(), 0, m); }
Bytes sha1(const Bytes &m) { return sha1_(Bytes(), 0, m); }
Bytes hash_repeated(Hash h, const Bytes &rep, uint64_t n, const Bytes &tail) {
  switch (h) {
    case MD5: return md5_(rep, n, tail);
    case SHA1: return sha1_(rep, n, tail);
    case SHA2224: return sha2_32(rep, n, tail, true);
    case SHA2256: return sha2_32(rep, n, tail, false);
    case SHA2384: return sha2_64(rep, n, tail, true);
    case SHA2512: return sha2_64(rep, n, tail, false);
    default: return Bytes();
  }
}
Bytes hash(Hash h, const Bytes &m) {
  switch (h) {
    case CRC64: return crc64(m);
    case MD5: return md5(m);
    case SHA1: return sha1(m);
    case SHA2224: return sha224(m);
    case SHA2256: return sha256(m);
    case SHA2384: return sha384(m);
    case SHA2512: return sha512(m);
    case SHA3: return keccak(m, 128, 36);
    case SHA3224: return keccak(m, 144, 28);
    case SHA3256: return keccak(m, 136, 32);
    case SHA3384: return keccak(m, 104, 48);
    case SHA3512: return keccak(m, 72, 64);
    default: return Bytes();
  }
}
size_t digest_size(Hash h) {
  static const size_t n[] = {8, 16, 20, 28, 32, 48, 64, 36, 28, 32, 48, 64};
  return n[h];
}
size_t block_size(Hash h) {
  static const size_t n[] = {32, 64, 64, 64, 64, 128, 128, 64, 64, 64, 64, 64};
  return n[h];
}
const char *name(Hash h) {
  static const char *const n[] = {"CRC64", "MD5", "SHA1", "SHA2224", "SHA2256", "SHA2384", "SHA2512", "SHA3", "SHA3224", "SHA3256", "SHA3384", "SHA3512"};
  return n[h];
}
Bytes hmac(Hash h, const Bytes &k0, const Bytes &msg) {
  size_t B = block_size(h);
  Bytes k = k0;
  if (k.size() > B) k = hash(h, k);
  k.resize(B, 0);
  Bytes in, out;
  for (uint8_t b : k) { in.push_back(b ^ 0x36); out.push_back(b ^ 0x5c); }
  in.insert(in.end(), msg.begin(), msg.end());
  Bytes d = hash(h, in);
  out.insert(out.end(), d.begin(), d.end());
  return hash(h, out);
}

// ---- block ciphers ----
static uint8_t gmul(uint8_t a, uint8_t b, unsigned poly) {
  unsigned r = 0, x = a;
  for (int i = 0; i < 8; i++) { if (b >> i & 1) r ^= x; x <<= 1; if (x & 0x100) x ^= poly; }
  return (uint8_t)r;
}
struct Aes : Block {
  int rounds;
  uint8_t rk[15][16];
  static uint8_t sb[256], inv[256], m[6][256];  // m: multiples by 2,3,9,11,13,14
  static void tables() {
    static bool init = false;
    if (init) return;
    init = true;
    static const uint8_t f[6] = {2, 3, 9, 11, 13, 14};
    for (int x = 0; x < 256; x++) {
      uint8_t i = 0;
      for (int y = 1; y < 256; y++) if (x && gmul(x, y, 0x11b) == 1) i = y;
      uint8_t s = 0x63;
      for (int k = 0; k < 5; k++) s ^= (uint8_t)((i << k) | (i >> (8 - k)));
      sb[x] = s; inv[s] = x;
      for (int k = 0; k < 6; k++) m[k][x] = gmul(x, f[k], 0x11b);
    }
  }
  explicit Aes(Bytes key) {
    tables();
    size_t n = key.size() >= 32 ? 8 : key.size() >= 24 ? 6 : 4;
    key.resize(4 * n, 0);
    rounds = (int)n + 6;
    uint8_t w[60][4];
    uint8_t rc = 1;
    for (size_t i = 0; i < 4u * (rounds + 1); i++) {
      if (i < n) { memcpy(w[i], &key[4 * i], 4); continue; }
      uint8_t t[4];
      memcpy(t, w[i - 1], 4);
      if (i % n == 0) {
        uint8_t x = t[0];
        t[0] = sb[t[1]] ^ rc; t[1] = sb[t[2]]; t[2] = sb[t[3]]; t[3] = sb[x];
        rc = gmul(rc, 2, 0x11b);
      } else if (n > 6 && i % n == 4) for (auto &b : t) b = sb[b];
      for (int k = 0; k < 4; k++) w[i][k] = w[i - n][k] ^ t[k];
    }
    for (int r = 0; r <= rounds; r++) memcpy(rk[r], w[4 * r], 16);
  }
  void enc(const uint8_t *in, uint8_t *out) const override {
    uint8_t s[16], t[16];
    for (int i = 0; i < 16; i++) s[i] = in[i] ^ rk[0][i];
    for (int r = 1; r <= rounds; r++) {
      for (int c = 0; c < 4; c++) for (int k = 0; k < 4; k++) t[4 * c + k] = sb[s[4 * ((c + k) % 4) + k]];
      if (r < rounds)
        for (int c = 0; c < 4; c++) for (int k = 0; k < 4; k++)
          s[4 * c + k] = m[0][t[4 * c + k]] ^ m[1][t[4 * c + (k + 1) % 4]] ^ t[4 * c + (k + 2) % 4] ^ t[4 * c + (k + 3) % 4];
      else memcpy(s, t, 16);
      for (int i = 0; i < 16; i++) s[i] ^= rk[r][i];
    }
    memcpy(out, s, 16);
  }
  void dec(const uint8_t *in, uint8_t *out) const override {
    uint8_t s[16], t[16];
    memcpy(s, in, 16);
    for (int r = rounds; r >= 1; r--) {
      for (int i = 0; i < 16; i++) s[i] ^= rk[r][i];
      if (r < rounds) {
        for (int c = 0; c < 4; c++) for (int k = 0; k < 4; k++)
          t[4 * c + k] = m[5][s[4 * c + k]] ^ m[3][s[4 * c + (k + 1) % 4]] ^ m[4][s[4 * c + (k + 2) % 4]] ^ m[2][s[4 * c + (k + 3) % 4]];
      } else memcpy(t, s, 16);
      for (int c = 0; c < 4; c++) for (int k = 0; k < 4; k++) s[4 * ((c + k) % 4) + k] = inv[t[4 * c + k]];
    }
    for (int i = 0; i < 16; i++) out[i] = s[i] ^ rk[0][i];
  }
};
uint8_t Aes::sb[256], Aes::inv[256], Aes::m[6][256];
Block *aes(const Bytes &key) { return new Aes(key); }

struct Serpent : Block {
  uint32_t k[33][4];
  static const uint8_t *S(int i) {
    static const uint8_t s[8][16] = {
        {3, 8, 15, 1, 10, 6, 5, 11, 14, 13, 4, 2, 7, 0, 9, 12}, {15, 12, 2, 7, 9, 0, 5, 10, 1, 11, 14, 8, 6, 13, 3, 4},
        {8, 6, 7, 9, 3, 12, 10, 15, 13, 1, 14, 4, 0, 11, 5, 2}, {0, 15, 11, 8, 12, 9, 6, 3, 13, 1, 2, 4, 10, 7, 5, 14},
        {1, 15, 8, 3, 12, 0, 11, 6, 2, 5, 4, 10, 9, 14, 7, 13}, {15, 5, 2, 11, 4, 10, 9, 12, 0, 3, 14, 8, 13, 6, 7, 1},
        {7, 2, 12, 5, 8, 4, 6, 11, 14, 9, 1, 15, 13, 3, 10, 0}, {1, 13, 15, 0, 14, 8, 2, 11, 7, 4, 12, 10, 9, 3, 5, 6}};
    return s[i & 7];
  }
  static void sub(const uint8_t *s, uint32_t x[4]) {
    uint32_t y[4] = {0, 0, 0, 0};
    for (int b = 0; b < 32; b++) {
      int v = (x[0] >> b & 1) | (x[1] >> b & 1) << 1 | (x[2] >> b & 1) << 2 | (x[3] >> b & 1) << 3;
      v = s[v];
      for (int q = 0; q < 4; q++) y[q] |= (uint32_t)(v >> q & 1) << b;
    }
    memcpy(x, y, 16);
  }
  explicit Serpent(Bytes key) {
    if (key.size() >= 32) key.resize(32);
    else { key.push_back(1); key.resize(32, 0); }
    uint32_t w[140];
    for (int i = 0; i < 8; i++) w[i] = le32(&key[4 * i]);
    for (int i = 8; i < 140; i++) w[i] = rol(w[i - 8] ^ w[i - 5] ^ w[i - 3] ^ w[i - 1] ^ 0x9e3779b9u ^ (uint32_t)(i - 8), 11);
    for (int r = 0; r < 33; r++) {
      for (int q = 0; q < 4; q++) k[r][q] = w[8 + 4 * r + q];
      sub(S((3 - r) & 7), k[r]);
    }
  }
  static void lt(uint32_t x[4]) {
    x[0] = rol(x[0], 13); x[2] = rol(x[2], 3);
    x[1] ^= x[0] ^ x[2]; x[3] ^= x[2] ^ (x[0] << 3);
    x[1] = rol(x[1], 1); x[3] = rol(x[3], 7);
    x[0] ^= x[1] ^ x[3]; x[2] ^= x[3] ^ (x[1] << 7);
    x[0] = rol(x[0], 5); x[2] = rol(x[2], 22);
  }
  static void ilt(uint32_t x[4]) {
    x[2] = ror(x[2], 22); x[0] = ror(x[0], 5);
    x[2] ^= x[3] ^ (x[1] << 7); x[0] ^= x[1] ^ x[3];
    x[3] = ror(x[3], 7); x[1] = ror(x[1], 1);
    x[3] ^= x[2] ^ (x[0] << 3); x[1] ^= x[0] ^ x[2];
    x[2] = ror(x[2], 3); x[0] = ror(x[0], 13);
  }
  void enc(const uint8_t *in, uint8_t *out) const override {
    uint32_t x[4];
    for (int i = 0; i < 4; i++) x[i] = le32(in + 4 * i);
    for (int r = 0; r < 32; r++) {
      for (int i = 0; i < 4; i++) x[i] ^= k[r][i];
      sub(S(r), x);
      if (r < 31) lt(x); else for (int i = 0; i < 4; i++) x[i] ^= k[32][i];
    }
    for (int i = 0; i < 4; i++) put_le(out + 4 * i, x[i]);
  }
  void dec(const uint8_t *in, uint8_t *out) const override {
    uint32_t x[4];
    for (int i = 0; i < 4; i++) x[i] = le32(in + 4 * i);
    for (int r = 31; r >= 0; r--) {
      if (r < 31) ilt(x); else for (int i = 0; i < 4; i++) x[i] ^= k[32][i];
      uint8_t is[16];
      for (int i = 0; i < 16; i++) is[S(r)[i]] = i;
      sub(is, x);
      for (int i = 0; i < 4; i++) x[i] ^= k[r][i];
    }
    for (int i = 0; i < 4; i++) put_le(out + 4 * i, x[i]);
  }
};
Block *serpent(const Bytes &key) { return new Serpent(key); }

struct Twofish : Block {
  uint32_t K[40];
  uint32_t g[4][256];  // full key-dependent s-boxes with the MDS matrix
  static uint8_t q[2][256];
  static uint32_t mds_col[4][256];
  static void tables() {
    static bool init = false;
    if (init) return;
    init = true;
    static const uint8_t t[2][4][16] = {
        {{8, 1, 7, 13, 6, 15, 3, 2, 0, 11, 5, 9, 14, 12, 10, 4}, {14, 12, 11, 8, 1, 2, 3, 5, 15, 4, 10, 6, 7, 0, 9, 13},
         {11, 10, 5, 14, 6, 13, 9, 0, 12, 8, 15, 3, 2, 4, 7, 1}, {13, 7, 15, 4, 1, 2, 6, 14, 9, 11, 3, 0, 8, 5, 12, 10}},
        {{2, 8, 11, 13, 15, 7, 6, 14, 3, 1, 9, 4, 0, 10, 12, 5}, {1, 14, 2, 11, 4, 12, 3, 7, 6, 13, 10, 5, 15, 9, 0, 8},
         {4, 12, 7, 5, 1, 6, 9, 10, 0, 14, 13, 8, 2, 11, 3, 15}, {11, 9, 5, 1, 12, 3, 13, 14, 6, 4, 7, 15, 2, 0, 8, 10}}};
    for (int n = 0; n < 2; n++)
      for (int x = 0; x < 256; x++) {
        int a = x >> 4, b = x & 15;
        for (int s = 0; s < 4; s += 2) {
          int c = a ^ b, d = a ^ ((b >> 1) | ((b & 1) << 3)) ^ ((8 * a) & 15);
          a = t[n][s][c]; b = t[n][s + 1][d];
        }
        q[n][x] = (uint8_t)(16 * b + a);
      }
    static const uint8_t M[4][4] = {{1, 0xef, 0x5b, 0x5b}, {0x5b, 0xef, 0xef, 1}, {0xef, 0x5b, 1, 0xef}, {0xef, 1, 0xef, 0x5b}};
    for (int c = 0; c < 4; c++) for (int x = 0; x < 256; x++) {
      uint32_t v = 0;
      for (int r = 0; r < 4; r++) v |= (uint32_t)gmul(M[r][c], x, 0x169) << (8 * r);
      mds_col[c][x] = v;
    }
  }
  static uint8_t h_byte(int pos, uint8_t y, const std::vector<uint32_t> &L) {
    // q permutation choices per stage, outermost first
    static const uint8_t o[4][5] = {{1, 0, 0, 1, 1}, {0, 0, 1, 1, 0}, {1, 1, 0, 0, 0}, {0, 1, 1, 0, 1}};
    for (size_t s = L.size(); s > 0; s--) y = q[o[pos][s]][y] ^ (uint8_t)(L[s - 1] >> (8 * pos));
    return q[o[pos][0]][y];
  }
  static uint32_t h(uint32_t X, const std::vector<uint32_t> &L) {
    uint32_t z = 0;
    for (int i = 0; i < 4; i++) z ^= mds_col[i][h_byte(i, (uint8_t)(X >> (8 * i)), L)];
    return z;
  }
  explicit Twofish(Bytes key) {
    tables();
    size_t k = key.size() >= 32 ? 4 : key.size() >= 24 ? 3 : 2;
    key.resize(8 * k, 0);
    std::vector<uint32_t> Me, Mo, S(k);
    static const uint8_t RS[4][8] = {{1, 0xa4, 0x55, 0x87, 0x5a, 0x58, 0xdb, 0x9e}, {0xa4, 0x56, 0x82, 0xf3, 0x1e, 0xc6, 0x68, 0xe5},
                                     {2, 0xa1, 0xfc, 0xc1, 0x47, 0xae, 0x3d, 0x19}, {0xa4, 0x55, 0x87, 0x5a, 0x58, 0xdb, 0x9e, 3}};
    for (size_t i = 0; i < k; i++) {
      Me.push_back(le32(&key[8 * i])); Mo.push_back(le32(&key[8 * i + 4]));
      uint32_t s = 0;
      for (int r = 0; r < 4; r++) {
        uint8_t b = 0;
        for (int c = 0; c < 8; c++) b ^= gmul(RS[r][c], key[8 * i + c], 0x14d);
        s |= (uint32_t)b << (8 * r);
      }
      S[k - 1 - i] = s;
    }
    for (int i = 0; i < 20; i++) {
      uint32_t A = h(0x01010101u * (2 * i), Me), B = rol(h(0x01010101u * (2 * i + 1), Mo), 8);
      K[2 * i] = A + B; K[2 * i + 1] = rol(A + 2 * B, 9);
    }
    for (int p = 0; p < 4; p++) for (int x = 0; x < 256; x++) g[p][x] = mds_col[p][h_byte(p, x, S)];
  }
  uint32_t G(uint32_t x) const { return g[0][x & 255] ^ g[1][x >> 8 & 255] ^ g[2][x >> 16 & 255] ^ g[3][x >> 24]; }
  void enc(const uint8_t *in, uint8_t *out) const override {
    uint32_t R[4];
    for (int i = 0; i < 4; i++) R[i] = le32(in + 4 * i) ^ K[i];
    for (int r = 0; r < 16; r++) {
      uint32_t t0 = G(R[0]), t1 = G(rol(R[1], 8));
      uint32_t f0 = t0 + t1 + K[2 * r + 8], f1 = t0 + 2 * t1 + K[2 * r + 9];
      uint32_t n0 = ror(R[2] ^ f0, 1), n1 = rol(R[3], 1) ^ f1;
      R[2] = R[0]; R[3] = R[1]; R[0] = n0; R[1] = n1;
    }
    for (int i = 0; i < 4; i++) put_le(out + 4 * i, R[(i + 2) % 4] ^ K[4 + i]);
  }
  void dec(const uint8_t *in, uint8_t *out) const override {
    uint32_t R[4];
    for (int i = 0; i < 4; i++) R[(i + 2) % 4] = le32(in + 4 * i) ^ K[4 + i];
    for (int r = 15; r >= 0; r--) {
      uint32_t p0 = R[2], p1 = R[3];
      uint32_t t0 = G(p0), t1 = G(rol(p1, 8));
      uint32_t f0 = t0 + t1 + K[2 * r + 8], f1 = t0 + 2 * t1 + K[2 * r + 9];
      uint32_t p2 = rol(R[0], 1) ^ f0, p3 = ror(R[1] ^ f1, 1);
      R[0] = p0; R[1] = p1; R[2] = p2; R[3] = p3;
    }
    for (int i = 0; i < 4; i++) put_le(out + 4 * i, R[i] ^ K[i]);
  }
};
uint8_t Twofish::q[2][256];
uint32_t Twofish::mds_col[4][256];
Block *twofish(const Bytes &key) { return new Twofish(key); }

struct Chacha : Block {  // the keystream block of counter 0, nonce 0
  uint8_t ks[64];
  size_t size() const override { return 64; }
  explicit Chacha(Bytes key) {
    uint32_t s[16], x[16];
    const char *c = key.size() == 32 ? "expand 32-byte k" : "expand 16-byte k";
    if (key.size() != 32) { key.resize(16, 0); key.insert(key.end(), key.begin(), key.begin() + 16); Bytes t(key.begin(), key.end()); key = t; }
    for (int i = 0; i < 4; i++) s[i] = le32((const uint8_t *)c + 4 * i);
    for (int i = 0; i < 8; i++) s[4 + i] = le32(&key[4 * i]);
    for (int i = 12; i < 16; i++) s[i] = 0;
    memcpy(x, s, sizeof x);
    auto qr = [&](int a, int b, int cc, int d) {
      x[a] += x[b]; x[d] = rol(x[d] ^ x[a], 16);
      x[cc] += x[d]; x[b] = rol(x[b] ^ x[cc], 12);
      x[a] += x[b]; x[d] = rol(x[d] ^ x[a], 8);
      x[cc] += x[d]; x[b] = rol(x[b] ^ x[cc], 7);
    };
    for (int r = 0; r < 10; r++) {
      for (int i = 0; i < 4; i++) qr(i, 4 + i, 8 + i, 12 + i);
      for (int i = 0; i < 4; i++) qr(i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4);
    }
    for (int i = 0; i < 16; i++) put_le(ks + 4 * i, x[i] + s[i]);
  }
  void enc(const uint8_t *in, uint8_t *out) const override { for (int i = 0; i < 64; i++) out[i] = in[i] ^ ks[i]; }
  void dec(const uint8_t *in, uint8_t *out) const override { enc(in, out); }
};
Block *chacha(const Bytes &key) { return new Chacha(key); }

Bytes encipher(const Block &b, Mode m, const Bytes &nonce, const Bytes &plain) {
  size_t n = b.size();
  Bytes reg = nonce, out, t(n);
  if (m == CFB8) {
    for (uint8_t c : plain) {
      b.enc(reg.data(), t.data());
      uint8_t y = c ^ t[0];
      out.push_back(y);
      reg.erase(reg.begin());
      reg.push_back(y);
    }
    return out;
  }
  for (size_t o = 0; o + n <= plain.size(); o += n) {
    Bytes in(plain.begin() + o, plain.begin() + o + n);
    switch (m) {
      case ECB: b.enc(in.data(), t.data()); break;
      case CBC: for (size_t i = 0; i < n; i++) in[i] ^= reg[i]; b.enc(in.data(), t.data()); reg = t; break;
      case OFB: b.enc(reg.data(), t.data()); reg = t; for (size_t i = 0; i < n; i++) t[i] ^= in[i]; break;
      default:
        b.enc(reg.data(), t.data());
        for (size_t i = 0; i < n; i++) t[i] ^= in[i];
        for (size_t i = n; i-- > 0;) if (++reg[i]) break;
    }
    out.insert(out.end(), t.begin(), t.end());
  }
  return out;
}
Bytes decipher(const Block &b, Mode m, const Bytes &nonce, const Bytes &cipher) {
  size_t n = b.size();
  Bytes reg = nonce, out, t(n);
  if (m == CFB8) {
    for (uint8_t c : cipher) {
      b.enc(reg.data(), t.data());
      out.push_back(c ^ t[0]);
      reg.erase(reg.begin());
      reg.push_back(c);
    }
    return out;
  }
  if (m == CTR || m == OFB) return encipher(b, m, nonce, cipher);
  for (size_t o = 0; o + n <= cipher.size(); o += n) {
    Bytes in(cipher.begin() + o, cipher.begin() + o + n);
    b.dec(in.data(), t.data());
    if (m == CBC) { for (size_t i = 0; i < n; i++) t[i] ^= reg[i]; reg = in; }
    out.insert(out.end(), t.begin(), t.end());
  }
  return out;
}
std::string base64(const Bytes &b) {
  static const char *A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  std::string s;
  for (size_t i = 0; i < b.size(); i += 3) {
    uint32_t v = b[i] << 16 | (i + 1 < b.size() ? b[i + 1] << 8 : 0) | (i + 2 < b.size() ? b[i + 2] : 0);
    s += A[v >> 18]; s += A[v >> 12 & 63];
    s += i + 1 < b.size() ? A[v >> 6 & 63] : '=';
    s += i + 2 < b.size() ? A[v & 63] : '=';
  }
  return s;
}
}
