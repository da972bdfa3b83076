// C43: destroyed objects leave nothing behind.
//
// Each case is a tape of numbers from which a scenario makes, uses and destroys
// objects.  The scenario is played several times in one process: the first times
// may fill caches, after that the memory in use and the open descriptors must be
// the same before and after.
#include "wt.h"
#include "xml_dict.h"
#include <dirent.h>
#include <fcntl.h>
#include <functional>
#include <zlib.h>
#include <bzlib.h>
extern "C" {
#include "wizard/authenticate.h"
#include "wizard/file.h"
#include "wizard/key.h"
#include "wizard/keyring.h"
#include "wizard/secret.h"
#include "wizard/xml-tree.h"
#include "wizard/mime.h"
#include "wizard/timer.h"
size_t __sanitizer_get_current_allocated_bytes(void);
}
using namespace pbt;

struct Tape {
  std::vector<uint32_t> v;
  size_t at = 0;
  uint32_t raw() { return at < v.size() ? v[at++] : 0; }
  bool end() const { return at >= v.size(); }
  size_t pick(size_t n) { return raw() % n; }
  Src *src = nullptr;
  size_t op(size_t n) {
    size_t k = pick(n);
    if (src) src->note("%zu", k);
    return k;
  }
  bool chance(uint32_t a, uint32_t b) { return raw() % b >= b - a; }
  std::string text(size_t most) {
    uint32_t x = raw();
    size_t n = (x >> 8) % (most + 1);
    std::string s;
    for (size_t i = 0; i < n; i++) { s += "abcXYZ <>&;,'\"\\%=/.019"[(x >> 16) % 22]; x = x * 1103515245u + 12345u; }
    return s;
  }
  Bytes bytes(size_t most) {
    uint32_t x = raw();
    size_t n = (x >> 4) % (most + 1);
    Bytes b(n);
    for (auto &c : b) { c = (uint8_t)(x >> 16); x = x * 1103515245u + 12345u; }
    if (x & 64) std::fill(b.begin(), b.end(), (uint8_t)x);
    return b;
  }
};
static size_t descriptors() {
  size_t n = 0;
  DIR *d = opendir("/proc/self/fd");
  if (!d) return 0;
  while (readdir(d)) n++;
  closedir(d);
  return n;
}
typedef void (*Scenario)(Tape &, const std::string &);
static void play(Src &src, Scenario s, size_t most) {
  Tape t;
  size_t n = 1 + src.size(most, {most});
  for (size_t i = 0; i < n; i++) t.v.push_back((uint32_t)src.range(0, 0xffffffffu));
  if (n >= 20) src.nontrivial();
  std::string dir = fresh_dir();
  long grown = 0, fds = 0;
  for (int round = 0; round < 6; round++) {
    size_t fd = descriptors(), before = __sanitizer_get_current_allocated_bytes();
    t.at = 0;
    t.src = round ? nullptr : &src;
    s(t, dir);
    long g = (long)(__sanitizer_get_current_allocated_bytes() - before), f = (long)(descriptors() - fd);
    // memory that is taken once, whenever that may be, is a cache
    if (round >= 1 && g <= 0 && f <= 0) return;
    grown = g;
    fds = f;
  }
  CHECK(fds <= 0, "%ld descriptors stay open each time", fds);
  CHECK(grown <= 0, "%ld bytes stay in use each time", grown);
}

// ------------------------------------------------------------------ containers
static void *drop(void *p) { return RelinquishWizardMemory(p); }
static void *copy_of(void *p) { return ConstantString((const char *)p); }
static int by_text(const void *a, const void *b) { return strcmp((const char *)a, (const char *)b); }
static void containers(Tape &t, const std::string &) {
  LinkedListInfo *l = NewLinkedList(t.chance(1, 4) ? 5 : 0);
  HashmapInfo *h = NewHashmap(t.chance(1, 2) ? 3 : 100, HashStringType, CompareHashmapString, drop, drop);
  SplayTreeInfo *s = NewSplayTree(CompareSplayTreeString, drop, drop);
  while (!t.end()) {
    std::string k = fmt("k%zu", t.pick(40));
    switch (t.op(20)) {
      case 0: case 1: { char *v = ConstantString(k.c_str()); if (!AppendValueToLinkedList(l, v)) drop(v); break; }
      case 2: { char *v = ConstantString(k.c_str()); if (!InsertValueInLinkedList(l, t.pick(GetNumberOfElementsInLinkedList(l) + 1), v)) drop(v); break; }
      case 3: { char *v = ConstantString(k.c_str()); void *old = nullptr; if (!InsertValueInSortedLinkedList(l, by_text, &old, v)) drop(v); else if (old) drop(old); break; }
      case 4: { size_t n = GetNumberOfElementsInLinkedList(l); if (n) drop(RemoveElementFromLinkedList(l, t.pick(n))); break; }
      case 5: { void *v = RemoveLastElementFromLinkedList(l); if (v) drop(v); break; }
      case 6: { size_t n = GetNumberOfElementsInLinkedList(l); void *v = n ? GetValueFromLinkedList(l, t.pick(n)) : nullptr; if (v) drop(RemoveElementByValueFromLinkedList(l, v)); break; }
      case 7: if (t.chance(1, 4)) ClearLinkedList(l, drop); break;
      case 8: case 9: case 10: PutEntryInHashmap(h, ConstantString(k.c_str()), ConstantString("value")); break;
      case 11: { void *v = RemoveEntryFromHashmap(h, k.c_str()); if (v) drop(v); break; }
      case 12: ResetHashmapIterator(h); while (GetNextKeyInHashmap(h)) {} break;
      case 13: case 14: case 15: AddValueToSplayTree(s, ConstantString(k.c_str()), ConstantString("value")); break;
      case 16: { void *v = RemoveNodeFromSplayTree(s, k.c_str()); if (v) drop(v); break; }
      case 17: DeleteNodeFromSplayTree(s, k.c_str()); break;
      case 18: { const void *v = GetValueFromSplayTree(s, k.c_str()); if (v && t.chance(1, 2)) { if (t.chance(1, 2)) DeleteNodeByValueFromSplayTree(s, v); else { void *w = RemoveNodeByValueFromSplayTree(s, v); if (w) drop(w); } } break; }
      default: if (t.chance(1, 3)) ResetSplayTree(s); else { SplayTreeInfo *c = CloneSplayTree(s, copy_of, copy_of); if (c) DestroySplayTree(c); } break;
    }
  }
  DestroyLinkedList(l, drop);
  DestroyHashmap(h);
  DestroySplayTree(s);
}
PBT_TEST(containers, {.quick = 8000, .thorough = 200000, .rule = "histories of a list, a map and a tree that own their keys and values; non-trivial: 20 operations or more"}) { play(src, containers, 120); }

// --------------------------------------------------------------------- strings
static void strings(Tape &t, const std::string &dir) {
  char *s = AcquireString("start");
  StringInfo *b = AcquireStringInfo(t.pick(100));
  while (!t.end()) {
    switch (t.op(19)) {
      case 0: ConcatenateString(&s, t.text(300).c_str()); break;
      case 1: CloneString(&s, t.text(9000).c_str()); break;
      case 2: { std::string a = t.text(2), b = t.text(8); if (t.src) t.src->note("%s %s %s", quote(s).c_str(), quote(a).c_str(), quote(b).c_str()); SubstituteString(&s, a.c_str(), b.c_str()); break; }
      case 3: StripString(s); break;
      case 4: { int n; char **a = StringToArgv(t.text(80).c_str(), &n); if (a) { for (int i = 0; i < n; i++) DestroyString(a[i]); RelinquishWizardMemory(a); } break; }
      case 5: { StringInfo *c = SplitStringInfo(b, t.pick(60)); if (c) DestroyStringInfo(c); break; }
      case 6: { SI c(t.bytes(300)); ConcatenateStringInfo(b, c); break; }
      case 7: { SI c(t.bytes(300)); SetStringInfo(b, c); break; }
      case 8: SetStringInfoLength(b, t.pick(500)); break;
      case 9: { StringInfo *c = CloneStringInfo(b); DestroyStringInfo(c); break; }
      case 10: { char *x = StringInfoToHexString(b); StringInfo *c = x ? HexStringToStringInfo(x) : nullptr; if (c) DestroyStringInfo(c); if (x) DestroyString(x); break; }
      case 11: { char *x = StringInfoToString(b); if (x) DestroyString(x); break; }
      case 12: { size_t n; if (!GetStringInfoLength(b)) break; char *x = Base64Encode(GetStringInfoDatum(b), GetStringInfoLength(b), &n); if (x) { unsigned char *y = Base64Decode(x, &n); if (y) RelinquishWizardMemory(y); DestroyString(x); } break; }
      case 13: { size_t n; unsigned char *y = Base64Decode(t.text(60).c_str(), &n); if (y) RelinquishWizardMemory(y); break; }
      case 14: { size_t n; char **p = GetPathComponents(t.text(60).c_str(), &n); if (p) { for (size_t i = 0; i < n; i++) DestroyString(p[i]); RelinquishWizardMemory(p); } break; }
      case 15: { Exc e; std::string f = dir + (t.chance(1, 3) ? "/none" : "/file"); Bytes c = t.bytes(20000); write_file(dir + "/file", c); StringInfo *x = FileToStringInfo(f.c_str(), t.chance(1, 2) ? ~0UL : t.pick(100), e); if (x) DestroyStringInfo(x); break; }
      case 16: { Exc e; char *x = FileToString((dir + (t.chance(1, 3) ? "/none" : "/file")).c_str(), t.chance(1, 2) ? ~0UL : t.pick(100), e); if (x) DestroyString(x); break; }
      case 17: { StringInfo *x = t.chance(1, 2) ? StringToStringInfo(t.text(50).c_str()) : BlobToStringInfo(s, strlen(s)); if (x) DestroyStringInfo(x); break; }
      default: { char *x = GetEnvironmentValue(t.chance(1, 2) ? "PATH" : "no such variable"); if (x) DestroyString(x); x = ConstantString(s); DestroyString(x); break; }
    }
    if (strlen(s) > 60000) CloneString(&s, "x");
  }
  DestroyString(s);
  DestroyStringInfo(b);
}
PBT_TEST(strings, {.quick = 8000, .thorough = 200000, .rule = "histories of string operations, among them reads of files that exist or not and decoding of malformed text; non-trivial: as above"}) { play(src, strings, 60); }

// -------------------------------------------------------------------- documents
static void documents(Tape &t, const std::string &) {
  while (!t.end()) {
    std::string s;
    if (t.chance(2, 3)) {
      size_t n = t.pick(30);
      if (t.chance(1, 2)) s = "<a>";
      for (size_t i = 0; i < n; i++) s += DICT[t.pick(DICT.size())];
      if (t.chance(1, 2)) s += "</a>";
    } else {  // well formed
      s = t.chance(1, 2) ? "<?pi one?><?pi two?><!DOCTYPE r [<!ENTITY e 'v'><!ENTITY f \"&e;w\"><!ATTLIST i x CDATA 'd' y NMTOKENS 'p q'><!ATTLIST i z CDATA #IMPLIED>]><r>" : "<r>";
      size_t n = t.pick(8);
      for (size_t i = 0; i < n; i++) s += fmt("<i x='%zu' q=\"a&amp;b\">", i) + (t.chance(1, 2) ? "&lt;t&gt;<j/>x&#65;y" : "plain") + (t.chance(1, 3) ? "<![CDATA[ <&> ]]>" : "") + "</i>";
      s += "</r>";
    }
    if (t.src) t.src->note("%s", quote(s).c_str());
    Exc e;
    XMLTreeInfo *x = NewXMLTree(s.c_str(), e);
    if (!x) continue;
    size_t n = t.pick(6);
    for (size_t i = 0; i < n; i++) {
      XMLTreeInfo *c = GetXMLTreeChild(x, nullptr);
      switch (t.op(8)) {
        case 0: if (c) DestroyXMLTree(PruneTagFromXMLTree(c)); break;
        case 1: AddChildToXMLTree(x, "new", t.pick(5)); break;
        case 2: if (c) SetXMLTreeAttribute(c, "x", t.chance(1, 2) ? "value" : nullptr); break;
        case 3: if (c) SetXMLTreeContent(c, t.text(20).c_str()); break;
        case 4: { XMLTreeInfo *p = AddPathToXMLTree(x, "one/two", t.pick(3)); if (p) SetXMLTreeContent(p, "deep"); break; }
        case 5: GetXMLTreePath(x, "i/j"); break;
        case 6: { XMLTreeInfo *y = NewXMLTreeTag("loose"); if (y) { SetXMLTreeContent(y, "text"); SetXMLTreeAttribute(y, "k", "v"); if (t.chance(1, 2)) InsertTagIntoXMLTree(x, y, 0); else DestroyXMLTree(y); } break; }
        default: { char *o = XMLTreeInfoToXML(x); if (o) DestroyString(o); break; }
      }
    }
    char *o = CanonicalXMLContent(s.c_str(), t.chance(1, 2) ? WizardTrue : WizardFalse);
    if (o) DestroyString(o);
    DestroyXMLTree(x);
  }
}
PBT_TEST(documents, {.quick = 8000, .thorough = 200000, .rule = "well-formed and broken documents parsed, changed, written out and destroyed; non-trivial: as above"}) { play(src, documents, 90); }

// ----------------------------------------------------------------------- crypto
static void crypto(Tape &t, const std::string &) {
  while (!t.end()) {
    static const HashType hashes[] = {CRC64Hash, MD5Hash, SHA1Hash, SHA2224Hash, SHA2256Hash, SHA2384Hash, SHA2512Hash, SHA2Hash, SHA3Hash, SHA3224Hash, SHA3256Hash, SHA3384Hash, SHA3512Hash};
    static const CipherType ciphers[] = {AESCipher, SerpentCipher, TwofishCipher, ChachaCipher};
    static const CipherMode modes[] = {CBCMode, CFBMode, CTRMode, ECBMode, OFBMode};
    HashType ht = hashes[t.pick(13)];
    switch (t.op(6)) {
      case 0: {
        HashInfo *h = AcquireHashInfo(ht);
        for (size_t i = t.pick(4); i; i--) { SI d(t.bytes(300)); UpdateHash(h, d); }
        if (t.chance(3, 4)) FinalizeHash(h);
        char *x = GetHashHexDigest(h);
        if (x) DestroyString(x);
        if (t.chance(1, 2)) InitializeHash(h);
        DestroyHashInfo(h);
        break;
      }
      case 1: {
        HMACInfo *h = AcquireHMACInfo(ht);
        for (size_t i = t.pick(3); i; i--) { SI k(t.bytes(300)), d(t.bytes(300)); if (t.chance(1, 2)) ConstructHMAC(h, k, d); else { InitializeHMAC(h, k); UpdateHMAC(h, d); FinalizeHMAC(h); } if (t.chance(1, 3)) ResetHMAC(h); }
        DestroyHMACInfo(h);
        break;
      }
      case 2: {
        CipherInfo *c = AcquireCipherInfo(ciphers[t.pick(4)], modes[t.pick(5)]);
        for (size_t i = t.pick(4); i; i--) {
          SI k(t.bytes(64)), d(t.bytes(300));
          SetCipherKey(c, k);
          if (t.chance(1, 2)) { SI n(Bytes(GetCipherBlocksize(c), 7)); SetCipherNonce(c, n); }
          if (t.chance(1, 3)) ResetCipherNonce(c);
          if (t.chance(1, 4)) { StringInfo *n = GenerateCipherNonce(c); if (n) DestroyStringInfo(n); }
          d.s = EncipherCipher(c, d.s);
          if (t.chance(1, 2)) d.s = DecipherCipher(c, d.s);
        }
        DestroyCipherInfo(c);
        break;
      }
      case 3: case 4: {
        static const EntropyType kinds[] = {ZIPEntropy, BZIPEntropy, LZMAEntropy};
        EntropyType kind = kinds[t.pick(3)];
        EntropyInfo *h = AcquireEntropyInfo(kind, 1 + t.pick(9));
        for (size_t i = t.pick(3); i; i--) {
          Exc e;
          SI d(t.bytes(2000));
          if (!IncreaseEntropy(h, d, e)) continue;
          Bytes c = bytes_of(GetEntropyChaos(h));
          if (t.chance(1, 2) && !c.empty()) { if (t.chance(1, 2)) c.resize(t.pick(c.size())); else c[t.pick(c.size())] ^= (uint8_t)(1 + t.pick(255)); }
          SI x(c);
          Exc e2;
          RestoreEntropy(h, GetStringInfoLength(d), x, e2);
        }
        DestroyEntropyInfo(h);
        break;
      }
      default: {
        if (t.chance(1, 2)) {  // a damaged reservoir
          const char *h = getenv("WIZARD_HOME");
          std::string f = std::string(h ? h : ".") + "/reservoir.xdm";
          Bytes b = read_file(f);
          if (!b.empty()) { if (t.chance(1, 3)) b.resize(t.pick(b.size())); else b[t.pick(b.size())] ^= (uint8_t)(1 + t.pick(255)); write_file(f, b); }
        }
        RandomInfo *r = AcquireRandomInfo(t.chance(1, 2) ? SHA2256Hash : MD5Hash);
        if (!r) break;
        for (size_t i = t.pick(4); i; i--) { StringInfo *k = GetRandomKey(r, t.pick(100)); if (k) DestroyStringInfo(k); GetPseudoRandomValue(r); unsigned char b[40]; SetRandomKey(r, t.pick(40), b); }
        DestroyRandomInfo(r);
      }
    }
  }
}
PBT_TEST(crypto, {.quick = 4000, .thorough = 100000, .rule = "digests, keyed digests, ciphers, coders with sound and damaged data and random generators; non-trivial: as above"}) { play(src, crypto, 40); }

// ------------------------------------------------------------------------- keys
static void keys(Tape &t, const std::string &dir) {
  std::string ring = dir + "/ring.xdm", phrase = dir + "/phrase";
  unlink(ring.c_str());
  write_file(phrase, std::string("a phrase"));
  size_t secrets = 0;
  Bytes sid;
  while (!t.end()) {
    Exc e;
    switch (t.op(7)) {
      case 0: case 1: {
        KeyringInfo *k = AcquireKeyringInfo(ring.c_str());
        for (size_t i = 1 + t.pick(2); i; i--) { SI id(Bytes(4, (uint8_t)t.pick(4))), key(t.bytes(80)), n(t.bytes(40)); SetKeyringId(k, id); SetKeyringKey(k, key); SetKeyringNonce(k, n); ImportKeyringKey(k, e); }
        DestroyKeyringInfo(k);
        break;
      }
      case 2: {
        KeyringInfo *k = AcquireKeyringInfo(t.chance(1, 4) ? (dir + "/none.xdm").c_str() : ring.c_str());
        for (size_t i = 1 + t.pick(2); i; i--) { SI id(Bytes(4, (uint8_t)t.pick(5))); SetKeyringId(k, id); ExportKeyringKey(k, e); }
        DestroyKeyringInfo(k);
        break;
      }
      case 3: {
        BlobInfo *b = OpenBlob((dir + "/out").c_str(), WriteBinaryBlobMode, WizardFalse, e);
        if (b) { PrintKeyringProperties(ring.c_str(), b, e); DestroyBlob(b); }
        break;
      }
      case 4: {  // damage
        Bytes b = read_file(ring);
        if (b.empty()) break;
        if (t.chance(1, 2)) b.resize(t.pick(b.size())); else b[t.pick(b.size())] ^= (uint8_t)(1 + t.pick(255));
        write_file(ring, b);
        break;
      }
      case 5: {
        if (t.chance(1, 2) && secrets < 3) {
          AuthenticateInfo *a = AcquireAuthenticateInfo(SecretAuthenticateMethod, ring.c_str(), SHA2256Hash);
          SetAuthenticatePassphrase(a, t.chance(1, 4) ? (dir + "/none").c_str() : phrase.c_str());
          if (GenerateAuthenticateKey(a, e)) sid = bytes_of(GetAuthenticateId(a));
          secrets++;
          DestroyAuthenticateInfo(a);
        } else {
          SecretInfo *a = AcquireSecretInfo(ring.c_str(), SHA2256Hash, 256);
          if (t.chance(1, 4)) write_file(phrase, std::string("another phrase"));
          SetSecretPassphrase(a, t.chance(1, 4) ? (dir + "/none").c_str() : phrase.c_str());
          SI id(sid.empty() || t.chance(1, 4) ? Bytes(4, 1) : sid);
          SetSecretId(a, id);
          AuthenticateSecretKey(a, e);
          if (t.chance(1, 3)) AuthenticateSecretKey(a, e);
          DestroySecretInfo(a);
        }
        break;
      }
      default: {
        KeyInfo *k = AcquireKeyInfo();
        bool set[3] = {false, false, false};
        for (size_t i = t.pick(6); i; i--) {
          size_t which = t.pick(3);
          SI id(Bytes(3, (uint8_t)which)), key(t.bytes(50));
          if (t.chance(2, 3)) set[which] = SetKeyInfo(k, id, key) || set[which];
          else if (set[which]) { StringInfo *g = GetKeyInfo(k, id); if (g) DestroyStringInfo(g); }
        }
        StringInfo *s = t.chance(1, 2) ? GenerateSessionKey(k) : nullptr;
        if (s) DestroyStringInfo(s);
        DestroyKeyInfo(k);
      }
    }
  }
}
PBT_TEST(keys, {.quick = 1500, .thorough = 40000, .rule = "keyrings with repeated, missing and damaged keys, secrets with right, wrong and missing passphrases, key maps; non-trivial: as above"}) { play(src, keys, 40); }

// ---------------------------------------------------------------------- streams
static void streams(Tape &t, const std::string &dir) {
  static const char *names[] = {"/plain", "/x.gz", "/x.bz2", "/none/x", ""};
  for (auto n : {"/plain", "/x.gz", "/x.bz2"}) unlink((dir + n).c_str());
  char buffer[70000];
  while (!t.end()) {
    Exc e;
    std::string name = dir + names[t.pick(t.chance(1, 6) ? 5 : 3)];
    switch (t.op(7)) {
      case 0: case 1: {
        BlobInfo *b = OpenBlob(name.c_str(), WriteBinaryBlobMode, t.chance(1, 2) ? WizardTrue : WizardFalse, e);
        if (!b) break;
        for (size_t i = t.pick(4); i; i--) {
          Bytes d = t.bytes(t.chance(1, 8) ? 60000 : 500);
          d.push_back('.');
          if (t.chance(1, 2)) WriteBlob(b, d.size(), d.data()); else WriteBlobChunk(b, d.size(), d.data());
          if (t.chance(1, 3)) WriteBlobString(b, "text");
          if (t.chance(1, 8)) SyncBlob(b);
        }
        if (t.chance(1, 2)) CloseBlob(b);
        DestroyBlob(b);
        break;
      }
      case 2: case 3: {
        BlobInfo *b = OpenBlob(name.c_str(), ReadBinaryBlobMode, t.chance(2, 3) ? WizardTrue : WizardFalse, e);
        if (!b) break;
        for (size_t i = t.pick(5); i; i--) {
          if (t.chance(1, 2)) ReadBlob(b, t.pick(sizeof(buffer)), buffer); else ReadBlobByte(b);
          EOFBlob(b); GetBlobSize(b); TellBlob(b);
        }
        if (t.chance(1, 2)) CloseBlob(b);
        DestroyBlob(b);
        break;
      }
      case 4: { size_t n = 0; void *p = FileToBlob(name.c_str(), t.chance(1, 2) ? ~0UL : t.pick(100), &n, e); if (p) RelinquishWizardMemory(p); break; }
      case 5: {  // damage
        bool ok;
        Bytes b = read_file(name, &ok);
        if (!ok || b.empty()) break;
        if (t.chance(1, 2)) b.resize(t.pick(b.size())); else b[t.pick(b.size())] ^= (uint8_t)(1 + t.pick(255));
        write_file(name, b);
        break;
      }
      default: {
        FileInfo *f = AcquireFileInfo((dir + (t.chance(1, 5) ? "/none/f" : "/f")).c_str(), "x", t.chance(1, 2) ? WriteFileMode : ReadFileMode, e);
        if (!f) break;
        WriteFile32Bits(f, 7);
        size_t v;
        ReadFile32Bits(f, &v);
        GetFileProperties(f);
        DestroyFileInfo(f, e);
      }
    }
  }
}
PBT_TEST(streams, {.quick = 3000, .thorough = 80000, .rule = "plain and compressed files written, read, damaged, missing or directories; non-trivial: as above"}) { play(src, streams, 40); }

// --------------------------------------------------------------------- services
static void quiet(const ExceptionType, const char *, const char *) {}
static void services(Tape &t, const std::string &dir) {
  ExceptionInfo *e = AcquireExceptionInfo();
  FILE *null = fopen("/dev/null", "w");
  SetWarningHandler(quiet);
  SetErrorHandler(quiet);
  size_t n;
  while (!t.end()) {
    switch (t.op(18)) {
      case 0: ThrowException(e, t.chance(1, 2) ? FileError : OptionWarning, t.text(20).c_str(), t.chance(1, 4) ? nullptr : t.text(20).c_str()); break;
      case 1: { Exc o; ThrowException(o, FileWarning, "r", t.text(5).c_str()); if (t.chance(1, 2)) ThrowException(o, FileError, "r", "d"); InheritException(e, o); break; }
      case 2: CatchException(e); break;
      case 3: ClearWizardException(e); break;
      case 4: { char *m = GetExceptionMessage((int)t.pick(40)); if (m) DestroyString(m); break; }
      case 5: { char **l = GetWizardOptions((WizardOption)(1 + t.pick(12))); if (l) { for (size_t i = 0; l[i]; i++) DestroyString(l[i]); RelinquishWizardMemory(l); } break; }
      case 6: ParseWizardOption(WizardLogEventOptions, WizardTrue, t.text(30).c_str()); break;
      case 7: { const ConfigureInfo **l = GetConfigureInfoList("*", &n, e); if (l) RelinquishWizardMemory((void *)l); break; }
      case 8: { char **l = GetConfigureList("*", &n, e); if (l) { for (size_t i = 0; i < n; i++) DestroyString(l[i]); RelinquishWizardMemory(l); } break; }
      case 9: { const MimeInfo **l = GetMimeInfoList("*", &n, e); if (l) RelinquishWizardMemory((void *)l); char **m = GetMimeList("*", &n, e); if (m) { for (size_t i = 0; i < n; i++) DestroyString(m[i]); RelinquishWizardMemory(m); } break; }
      case 10: { Bytes b = t.bytes(64); GetMimeInfo(t.chance(1, 2) ? nullptr : t.text(10).c_str(), b.data(), b.size(), e); char *m = WizardToMime(t.text(8).c_str()); if (m) DestroyString(m); break; }
      case 11: { char path[WizardPathExtent]; int fd = AcquireUniqueFileResource(t.chance(1, 2) ? "wizard" : "x", path, e); if (fd >= 0) { close(fd); RelinquishUniqueFileResource(path, WizardFalse); } break; }
      case 12: { MemoryInfo *m = AcquireVirtualMemory(1 + t.pick(3000), 1 + t.pick(50), e); if (m) { memset(GetVirtualMemoryBlob(m), 1, 1); RelinquishVirtualMemory(m); } break; }
      case 13: { LinkedListInfo *l = GetConfigureOptions("configure.xml", e); if (l) DestroyConfigureOptions(l); l = GetConfigurePaths("configure.xml", e); if (l) DestroyLinkedList(l, drop); break; }
      case 14: { const LocaleInfo **l = GetLocaleInfoList("*", &n, e); if (l) RelinquishWizardMemory((void *)l); char **m = GetLocaleList("*", &n, e); if (m) { for (size_t i = 0; i < n; i++) DestroyString(m[i]); RelinquishWizardMemory(m); } break; }
      case 15: if (null) { switch (t.pick(4)) { case 0: ListConfigureInfo(null, e); break; case 1: ListMimeInfo(null, e); break; case 2: ListWizardOptions(null, (WizardOption)(1 + t.pick(8)), e); break; default: ListWizardResourceInfo(null, e); } } break;
      case 16: { void *p = AcquireAlignedMemory(1 + t.pick(100), 1 + t.pick(100)); if (p) RelinquishAlignedMemory(p); p = AcquireWizardMemory(1 + t.pick(100)); p = ResizeQuantumMemory(p, 1 + t.pick(100), 8); if (p) RelinquishWizardMemory(p); break; }
      default: { TimerInfo *x = AcquireTimerInfo(); GetElapsedTime(x); ContinueTimer(x); DestroyTimerInfo(x); GetLocaleMessage("no/such/tag"); GetLocaleExceptionMessage(FileError, "no such"); break; }
    }
  }
  if (null) fclose(null);
  DestroyExceptionInfo(e);
}
PBT_TEST(services, {.quick = 2000, .thorough = 50000, .rule = "exceptions, option, configuration, message and type lists, temporary files and memory blocks; non-trivial: as above"}) { play(src, services, 60); }

// -------------------------------------------------------------------- start, end
static void lifecycle(Tape &t, const std::string &) {
  while (!t.end()) {
    WizardsToolkitTerminus();
    WizardsToolkitGenesis("");
    Exc e;
    size_t n;
    for (size_t i = t.pick(5); i; i--)
      switch (t.op(7)) {
        case 0: { const ConfigureInfo **l = GetConfigureInfoList("*", &n, e); if (l) RelinquishWizardMemory((void *)l); break; }
        case 1: { const MimeInfo **l = GetMimeInfoList("*", &n, e); if (l) RelinquishWizardMemory((void *)l); break; }
        case 2: GetLocaleMessage("Exception/File/Error"); break;
        case 3: { char path[WizardPathExtent]; int fd = AcquireUniqueFileResource("x", path, e); if (fd >= 0) { close(fd); if (t.chance(1, 2)) RelinquishUniqueFileResource(path, WizardFalse); } break; }
        case 4: { RandomInfo *r = AcquireRandomInfo(SHA2256Hash); DestroyRandomInfo(r); break; }
        case 5: SetLogEventMask(t.chance(1, 2) ? "resource" : "none"); LogWizardEvent(ResourceEvent, GetWizardModule(), "%d", 1); SetLogEventMask("none"); break;
        default: GetWizardResource(MemoryResource); break;
      }
  }
}
PBT_TEST(lifecycle, {.quick = 200, .thorough = 4000, .rule = "the library ended and started again, with uses of its lists and services between; non-trivial: as above"}) { play(src, lifecycle, 40); }
