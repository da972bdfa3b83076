// C20: hexadecimal and base64 text.
#include "wt.h"
#include "ref.h"
using namespace pbt;

static char *exact(const std::string &s) { char *p = (char *)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); return p; }
static bool ws(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }

// Strict decoding, white space ignored: false for text that is no encoding.
static bool reference(const std::string &text, Bytes &out) {
  std::string t;
  for (char c : text) if (!ws(c)) t += c;
  out.clear();
  if (t.size() % 4) return false;
  for (size_t i = 0; i < t.size(); i += 4) {
    int pad = 0;
    uint32_t v = 0;
    for (int j = 0; j < 4; j++) {
      char c = t[i + j];
      int d;
      if (c == '=' && i + 4 == t.size() && j >= 2) { pad++; d = 0; }
      else if (pad) return false;
      else if (c >= 'A' && c <= 'Z') d = c - 'A';
      else if (c >= 'a' && c <= 'z') d = c - 'a' + 26;
      else if (c >= '0' && c <= '9') d = c - '0' + 52;
      else if (c == '+') d = 62;
      else if (c == '/') d = 63;
      else return false;
      v = v << 6 | d;
    }
    uint8_t b[3] = {(uint8_t)(v >> 16), (uint8_t)(v >> 8), (uint8_t)v};
    for (int j = 0; j < 3; j++)
      if (j < 3 - pad) out.push_back(b[j]);
      else if (b[j]) return false;
  }
  return true;
}

PBT_TEST(base64_round_trip, {.quick = 300000, .thorough = 6000000,
  .rule = "1-600 arbitrary bytes encoded, compared with the standard text, and decoded with white space strewn in; non-trivial: length not a multiple of 3"}) {
  Bytes b = src.data(src.chance(1, 20) ? 600 : 40);
  if (b.empty()) b.push_back(src.byte());
  unsigned char *e = (unsigned char *)malloc(b.size());
  memcpy(e, b.data(), b.size());
  size_t n = 0;
  char *t = Base64Encode(e, b.size(), &n);
  free(e);
  std::string want = ref::base64(b);
  src.note("%s", hex(b, 40).c_str());
  CHECK(t && n == want.size() && strlen(t) == n, "encoded length %zu, expected %zu", n, want.size());
  CHECK(want == t, "encoded %s, expected %s", t, want.c_str());
  std::string d;
  bool sp = src.chance(1, 2);
  for (char c : want) { d += c; if (sp && src.chance(1, 4)) d += src.of<char>({' ', '\n', '\t', '\r'}); }
  char *x = exact(d);
  unsigned char *r = Base64Decode(x, &n);
  free(x);
  CHECK(r, "cannot decode %s", quote(d).c_str());
  CHECK(n == b.size() && !memcmp(r, b.data(), n), "decoded %s, expected %s", hex(r, n).c_str(), hex(b).c_str());
  RelinquishWizardMemory(r);
  RelinquishWizardMemory(t);
  if (b.size() % 3) src.nontrivial();
}

PBT_TEST(base64_arbitrary, {.quick = 400000, .thorough = 8000000,
  .rule = "arbitrary and damaged base64 text against a strict reference decoder; non-trivial: at least 4 base64 digits"}) {
  std::string t;
  if (src.chance(1, 3)) t = src.cstr(20);
  else if (src.chance(1, 2)) t = src.text(src.size(24), "AQZaz09+/= =");
  else {
    Bytes b = src.data(30);
    t = ref::base64(b);
    for (size_t k = src.size(3); k; k--) {
      size_t i = t.empty() ? 0 : src.pick(t.size());
      switch (src.pick(4)) {
        case 0: if (!t.empty()) t[i] = (char)src.range(1, 255); break;
        case 1: if (!t.empty()) t.erase(i, 1); break;
        case 2: t.insert(i, 1, src.of<char>({'=', 'A', ' ', '-'})); break;
        default: t += src.of<std::string>({"=", "==", "A", "\n"});
      }
    }
  }
  Bytes want;
  bool ok = reference(t, want);
  char *x = exact(t);
  size_t n = 99;
  unsigned char *r = Base64Decode(x, &n);
  free(x);
  src.note("%s", quote(t).c_str());
  size_t digits = 0;
  for (char c : t) digits += !ws(c);
  if (digits >= 4) src.nontrivial();
  src.label(ok ? "valid" : "invalid");
  if (!ok) { CHECK(!r, "%s is no encoding but decodes to %s", quote(t).c_str(), hex(r, n).c_str()); return; }
  if (want.empty()) { if (r) RelinquishWizardMemory(r); CHECK(n == 0, "nothing decodes to %zu bytes", n); return; }
  CHECK(r && n == want.size() && !memcmp(r, want.data(), n), "%s decodes to %s, expected %s", quote(t).c_str(), r ? hex(r, n).c_str() : "nothing", hex(want).c_str());
  RelinquishWizardMemory(r);
}

PBT_TEST(hex_round_trip, {.quick = 200000, .thorough = 4000000,
  .rule = "0-600 arbitrary bytes written as hexadecimal text and read back in any letter case; arbitrary text stays in bounds; non-trivial: at least 2 bytes"}) {
  if (src.chance(1, 5)) {
    std::string t = src.cstr(40);
    char *x = exact(t);
    SI s(HexStringToStringInfo(x));
    free(x);
    CHECK(GetStringInfoLength(s) == t.size() / 2, "length %zu for %zu digits", GetStringInfoLength(s), t.size());
    return;
  }
  Bytes b = src.data(src.chance(1, 20) ? 600 : 40);
  SI s(b);
  char *t = StringInfoToHexString(s);
  std::string want = hex(b.data(), b.size(), b.size());
  CHECK(want == t, "hexadecimal text %s, expected %s", t, want.c_str());
  for (auto &c : want) if (c >= 'a' && src.chance(1, 2)) c -= 32;
  char *x = exact(want);
  SI r(HexStringToStringInfo(x));
  free(x);
  CHECK(r.get() == b, "read back %s, expected %s", hex(r.get()).c_str(), hex(b).c_str());
  DestroyString(t);
  if (b.size() >= 2) src.nontrivial();
}
