#pragma once
#include "wt.h"
#include "ref.h"
extern "C" {
#include "wizard/keyring.h"
#include "wizard/file.h"
}
struct Rec { Bytes id, key, nonce; };
inline bool import_key(const std::string &ring, const Rec &r, KeyringInfo *k = nullptr) {
  KeyringInfo *own = k ? k : AcquireKeyringInfo(ring.c_str());
  SI i(r.id), key(r.key), n(r.nonce);
  SetKeyringId(own, i);
  SetKeyringKey(own, key);
  SetKeyringNonce(own, n);
  Exc e;
  bool ok = ImportKeyringKey(own, e);
  if (!k) DestroyKeyringInfo(own);
  return ok;
}
inline bool export_key(const std::string &ring, const Bytes &id, Rec &out, KeyringInfo *k = nullptr) {
  KeyringInfo *own = k ? k : AcquireKeyringInfo(ring.c_str());
  SI i(id);
  SetKeyringId(own, i);
  Exc e;
  bool ok = ExportKeyringKey(own, e);
  if (ok) {
    out.id = id;
    out.key = bytes_of(GetKeyringKey(own));
    out.nonce = bytes_of(GetKeyringNonce(own));
  }
  if (!k) DestroyKeyringInfo(own);
  return ok;
}
// listing: 1 when it reported success
inline int list_keys(const std::string &ring, const std::string &out, std::string &text) {
  Exc e;
  BlobInfo *blob = OpenBlob(out.c_str(), WriteBinaryBlobMode, WizardFalse, e);
  if (!blob) return -1;
  int ok = PrintKeyringProperties(ring.c_str(), blob, e) ? 1 : 0;
  DestroyBlob(blob);
  Bytes b = pbt::read_file(out);
  text.assign(b.begin(), b.end());
  return ok;
}
inline std::string hexs(const Bytes &b) {
  std::string s;
  for (uint8_t c : b) s += fmt("%02x", c);
  return s;
}
inline void le(Bytes &b, uint64_t v, int n) { for (int i = 0; i < n; i++) b.push_back((uint8_t)(v >> (8 * i))); }

inline Bytes ring_header() {
  Bytes m = ref::hash(ref::SHA2256, Bytes{0x7f, 0x53, 0x45, 0x45}), t = ref::hash(ref::SHA2256, Bytes{'k', 'e', 'y', 'r', 'i', 'n', 'g'});
  m.insert(m.end(), t.begin(), t.end());
  return m;
}
inline void ring_field(Bytes &b, const Bytes &f) {
  le(b, f.size(), 4);
  b.insert(b.end(), f.begin(), f.end());
}
// a record as the file format defines it; old: protocol 1.0
inline void ring_record(Bytes &b, const Rec &r, uint64_t t, bool old) {
  le(b, 0xabacadabu, 4);
  le(b, old ? t : 0, 4);
  le(b, 1, 2);
  le(b, old ? 0 : 1, 2);
  if (!old) le(b, t, 8);
  ring_field(b, r.id);
  ring_field(b, r.key);
  ring_field(b, r.nonce);
}
inline uint64_t get_le(const Bytes &b, size_t &p, int n) {
  uint64_t v = 0;
  for (int i = 0; i < n; i++) v |= (uint64_t)b[p++] << (8 * i);
  return v;
}
// independent reader; false when the file is not well formed
inline bool ring_parse(const Bytes &b, std::vector<Rec> &out) {
  out.clear();
  if (b.empty()) return true;
  Bytes h = ring_header();
  if (b.size() < h.size() || !std::equal(h.begin(), h.end(), b.begin())) return false;
  size_t p = h.size();
  while (p < b.size()) {
    if (b.size() - p < 12) return false;
    if (get_le(b, p, 4) != 0xabacadabu) return false;
    get_le(b, p, 4);
    unsigned ma = get_le(b, p, 2), mi = get_le(b, p, 2);
    if (!(ma == 1 && mi == 0)) { if (b.size() - p < 8) return false; get_le(b, p, 8); }
    Rec r;
    for (Bytes *f : {&r.id, &r.key, &r.nonce}) {
      if (b.size() - p < 4) return false;
      uint64_t n = get_le(b, p, 4);
      if (b.size() - p < n) return false;
      f->assign(b.begin() + p, b.begin() + p + n);
      p += n;
    }
    out.push_back(r);
  }
  return true;
}
inline Bytes gen_field(Src &src, bool big) {
  switch (src.weighted({6, 2, 1, 1})) {
    case 0: return src.bytes(src.size(40, {0, 1, 16, 32}));
    case 1: return src.blob(src.size(400, {64, 128, 255, 256, 257}));
    case 2: return Bytes(src.size(40), src.chance(1, 2) ? 0 : 0xff);
    default: return src.blob(src.size(big ? 70000 : 3000, {4096, 65535, 65536, 65537}));
  }
}
