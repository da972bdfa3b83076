// C13: a stored secret key is recovered only with its id and passphrase.
#include "wt.h"
extern "C" {
#include "wizard/authenticate.h"
#include "wizard/keyring.h"
#include "wizard/secret.h"
#include "wizard/file.h"
}
#include <sys/wait.h>
using namespace pbt;

struct Secret { Bytes id, key, phrase, stream; size_t ring, bits; HashType hash; };
static const HashType hashes[] = {SHA2256Hash, MD5Hash, SHA1Hash, SHA2224Hash, SHA2384Hash, SHA2512Hash,
                                  SHA3224Hash, SHA3256Hash, SHA3384Hash, SHA3512Hash};

static Bytes gen_phrase(Src &src) {
  switch (src.weighted({6, 2, 1, 1})) {
    case 0: { std::string s = src.text(1 + src.size(40, {16, 24, 32, 33}), "abcXYZ 019!\n"); return Bytes(s.begin(), s.end()); }
    case 1: { Bytes b = src.bytes(1 + src.size(30)); return b; }
    case 2: return src.blob(1 + src.size(9000, {8191, 8192, 8193}));
    default: return Bytes(1 + src.size(60), 0);
  }
}
// HMAC pads its key with zeros, so phrases that differ only in trailing zeros are one key
static Bytes stripped(Bytes p) {
  while (!p.empty() && p.back() == 0) p.pop_back();
  return p;
}
static Bytes near(Src &src, Bytes p) {
  switch (src.weighted({3, 2, 2, 2})) {
    case 0: p[src.pick(p.size())] ^= (uint8_t)(1u << src.range(0, 7)); break;
    case 1: p.pop_back(); if (p.empty()) p.push_back('x'); break;
    case 2: p.push_back(src.byte()); break;
    default: p = gen_phrase(src);
  }
  return p;
}
struct Auth {
  AuthenticateInfo *a;
  Auth(const std::string &ring, HashType h) : a(AcquireAuthenticateInfo(SecretAuthenticateMethod, ring.c_str(), h)) {}
  ~Auth() { DestroyAuthenticateInfo(a); }
  void phrase(const std::string &dir, const Bytes &p) {
    write_file(dir + "/phrase", p);
    SetAuthenticatePassphrase(a, (dir + "/phrase").c_str());
  }
};

static bool recover(const std::string &dir, const std::string &ring, const Secret &s, const Bytes &phrase, const Bytes &id, Bytes &key, bool gone = false) {
  Auth a(ring, s.hash);
  a.phrase(dir, phrase);
  if (gone) unlink((dir + "/phrase").c_str());
  SI i(id);
  SetAuthenticateId(a.a, i);
  Exc e;
  if (!AuthenticateKey(a.a, e)) return false;
  key = bytes_of(GetAuthenticateKey(a.a));
  return true;
}

PBT_TEST(secrets, {.quick = 2500, .thorough = 25000,
  .rule = "1..12 secrets generated into up to 3 keyring files by reused or new objects, for text or binary passphrases of 1 byte to 9 KB, key lengths of 64 bits to 8 KB and any hash, then authenticated in any order by reused or new objects, some in another process, with the right and with altered passphrases and ids, from the wrong keyring, and from one with the stored key or its id altered; non-trivial: at least two secrets", .case_cpu = 60}) {
  std::string dir = fresh_dir();
  std::vector<std::string> rings = {dir + "/a.xdm", dir + "/b.xdm", dir + "/c d.xdm"};
  std::vector<Secret> secrets;
  size_t ops = 1 + src.size(14);
  HashType hash = hashes[src.pick(10)];
  bool mixed = src.chance(1, 3);
  size_t nring = 1 + src.pick(3);
  std::vector<Auth *> live(nring, nullptr);
  std::vector<Bytes> phrases;
  for (size_t k = 0; k < ops; k++) {
    if (secrets.empty() || src.chance(2, 5)) {  // generate
      size_t r = src.pick(nring);
      Secret s;
      s.ring = r;
      s.hash = mixed ? hashes[src.pick(10)] : hash;
      Auth *a;
      bool fresh = true;
      if (!mixed && src.chance(1, 3)) {
        fresh = !live[r];
        if (!live[r]) live[r] = new Auth(rings[r], hash);
        a = live[r];
      } else
        a = new Auth(rings[r], s.hash);
      s.phrase = !phrases.empty() && src.chance(1, 2) ? src.of(phrases) : gen_phrase(src);
      phrases.push_back(s.phrase);
      s.bits = src.chance(1, 2) ? 1024 : 8 * (8 + src.size(src.chance(1, 10) ? 1016 : 120, {8, 24, 56}));
      a->phrase(dir, s.phrase);
      if (s.bits != 1024 || !fresh) SetAuthenticateKeyLength(a->a, s.bits);
      CHECK(GetAuthenticateKeyLength(a->a) == s.bits, "key length %zu reported as %zu", s.bits, GetAuthenticateKeyLength(a->a));
      Exc e;
      src.note("generate %zu bits in ring %zu, phrase of %zu bytes, hash %d%s", s.bits, r, s.phrase.size(), (int)s.hash, fresh ? "" : ", object used before");
      CHECK(GenerateAuthenticateKey(a->a, e), "generating a secret failed");
      s.id = bytes_of(GetAuthenticateId(a->a));
      s.key = bytes_of(GetAuthenticateKey(a->a));
      CHECK(s.key.size() == s.bits / 8, "key of %zu bytes for %zu bits", s.key.size(), s.bits);
      CHECK(!s.id.empty(), "empty id");
      for (auto &o : secrets) {
        CHECK(o.id != s.id, "two secrets have one id");
        CHECK(o.key != s.key, "two secrets have one key");
        size_t n = std::min(o.key.size(), s.key.size());
        CHECK(!std::equal(o.key.begin(), o.key.begin() + n, s.key.begin()), "one key starts with another");
      }
      // the stored form does not give the key away, and no two stored forms are enciphered alike
      bool ok;
      Bytes f = read_file(rings[r], &ok);
      CHECK(ok, "no keyring file");
      {
        KeyringInfo *k = AcquireKeyringInfo(rings[r].c_str());
        SI i(s.id);
        SetKeyringId(k, i);
        CHECK(ExportKeyringKey(k, e), "secret not in the keyring");
        s.stream = bytes_of(GetKeyringKey(k));
        DestroyKeyringInfo(k);
      }
      for (size_t i = 0; i < s.stream.size() && i < s.key.size(); i++) s.stream[i] ^= s.key[i];
      for (auto &o : secrets) {
        size_t n = std::min(o.stream.size(), s.stream.size());
        CHECK(n < 8 || !std::equal(o.stream.begin(), o.stream.begin() + n, s.stream.begin()), "two secrets are stored under one keystream");
        if (o.ring == r && o.phrase == s.phrase) src.label("phrase used twice in a ring");
      }
      CHECK(std::search(f.begin(), f.end(), s.key.begin(), s.key.end()) == f.end(), "the key is stored in the clear");
      CHECK(s.phrase.size() < 8 || std::search(f.begin(), f.end(), s.phrase.begin(), s.phrase.end()) == f.end() || s.phrase == Bytes(s.phrase.size(), 0), "the passphrase is stored in the clear");
      secrets.push_back(s);
      if (a != live[r]) delete a;
    } else {
      const Secret &s = secrets[src.pick(secrets.size())];
      Bytes key;
      switch (src.weighted({6, 4, 2, 2, 2, 3})) {
        case 0:
          CHECK(recover(dir, rings[s.ring], s, s.phrase, s.id, key), "right passphrase and id refused");
          CHECK(key == s.key, "authentication gave another key");
          break;
        case 1: {
          if (src.chance(1, 6)) {
            src.note("no passphrase file");
            CHECK(!recover(dir, rings[s.ring], s, s.phrase, s.id, key, true), "a passphrase that cannot be read is accepted");
            if (src.chance(1, 2)) {
              Auth a(rings[s.ring], s.hash);
              SetAuthenticatePassphrase(a.a, (dir + "/none/phrase").c_str());
              Exc e;
              Bytes before = read_file(rings[s.ring]);
              CHECK(!GenerateAuthenticateKey(a.a, e), "a secret is generated without a passphrase");
              CHECK(read_file(rings[s.ring]) == before, "a failed generation changed the keyring");
            }
            break;
          }
          Bytes p = near(src, s.phrase);
          if (stripped(p) == stripped(s.phrase)) break;
          src.note("wrong passphrase");
          bool ok = recover(dir, rings[s.ring], s, p, s.id, key);
          CHECK(!ok, "another passphrase accepted");
          src.label("wrong passphrase");
          break;
        }
        case 2: {
          Bytes id = s.id;
          if (src.chance(1, 3)) id.resize(src.pick(id.size())); else id[src.pick(id.size())] ^= (uint8_t)(1u << src.range(0, 7));
          src.note("wrong id");
          bool ok = recover(dir, rings[s.ring], s, s.phrase, id, key);
          CHECK(!ok, "unknown id accepted");
          src.label("wrong id");
          break;
        }
        case 3: {
          size_t r = src.pick(3);
          if (r == s.ring) break;
          CHECK(!recover(dir, rings[r], s, s.phrase, s.id, key), "id accepted from another keyring");
          break;
        }
        case 5: {  // the stored key under an id that does not belong to it, or altered under its own
          std::string ring = dir + "/forged.xdm";
          unlink(ring.c_str());
          KeyringInfo *from = AcquireKeyringInfo(rings[s.ring].c_str()), *to = AcquireKeyringInfo(ring.c_str());
          SI i(s.id);
          SetKeyringId(from, i);
          Exc e;
          CHECK(ExportKeyringKey(from, e), "secret not in the keyring");
          Bytes id = s.id, stored = bytes_of(GetKeyringKey(from)), nonce = bytes_of(GetKeyringNonce(from));
          switch (src.pick(4)) {
            case 0: id[id.size() - 1 - src.size(id.size() - 1)] ^= (uint8_t)(1u << src.range(0, 7)); break;
            case 1: if (src.chance(1, 2)) id.resize(src.range(1, id.size() - 1)); else id.push_back(src.byte()); break;
            case 2: stored[stored.size() - 1 - src.size(stored.size() - 1)] ^= (uint8_t)(1u << src.range(0, 7)); break;
            default: stored.resize(src.range(1, stored.size() - 1));
          }
          SI j(id), st(stored), n(nonce);
          SetKeyringId(to, j);
          SetKeyringKey(to, st);
          SetKeyringNonce(to, n);
          CHECK(ImportKeyringKey(to, e), "the altered key is not stored");
          DestroyKeyringInfo(from);
          DestroyKeyringInfo(to);
          src.note("forged keyring");
          bool ok = recover(dir, ring, s, s.phrase, id, key);
          CHECK(!ok, "a stored key or id that was altered is accepted");
          src.label("forged");
          break;
        }
        default: {  // another process
          pid_t pid = fork();
          if (pid == 0) {
            Bytes k2;
            bool ok = recover(dir, rings[s.ring], s, s.phrase, s.id, k2) && k2 == s.key;
            _exit(ok ? 0 : 9);
          }
          int st = 0;
          waitpid(pid, &st, 0);
          CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "another process did not recover the key (status %x)", st);
          src.label("other process");
        }
      }
    }
  }
  // everything is still there, in one object per ring as well
  for (auto &s : secrets) {
    Bytes key;
    CHECK(recover(dir, rings[s.ring], s, s.phrase, s.id, key) && key == s.key, "secret lost after later additions");
    Auth *a = live[s.ring];
    if (a && s.hash == hash) {
      a->phrase(dir, s.phrase);
      SI i(s.id);
      SetAuthenticateId(a->a, i);
      Exc e;
      CHECK(AuthenticateKey(a->a, e) && bytes_of(GetAuthenticateKey(a->a)) == s.key, "an object used before does not recover the key");
    }
  }
  for (Auth *a : live) delete a;
  if (secrets.size() >= 2) src.nontrivial();
}
