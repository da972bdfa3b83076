// C36: token scanning.
#include "wt.h"
#include "wizard/token.h"
using namespace pbt;

static char *exact(const std::string &s) { char *p = (char *)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); return p; }
static bool ws(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }

PBT_TEST(token_streams, {.quick = 200000, .thorough = 5000000,
  .rule = "texts of 1-10 numbers, words, quoted texts, punctuation and parenthesised words tokenise back to them, cut to the token size; non-trivial: at least 3 tokens of 2 kinds"}) {
  struct Tok { int kind; std::string full; };
  std::vector<Tok> want;
  std::string t = src.text(src.size(2), " \t\n");
  size_t n = 1 + src.size(9), extent = src.chance(1, 4) ? src.range(24, 40) : 4096;
  unsigned kinds = 0;
  int prev = -1;
  for (size_t i = 0; i < n; i++) {
    int k = src.pick(6);
    std::string full, raw;
    switch (k) {
      case 0:
        raw = src.of<std::string>({"", "-", "+"}) + std::to_string(src.range(0, 99999));
        if (src.chance(1, 3)) raw += "." + std::to_string(src.range(0, 999));
        if (src.chance(1, 4)) raw += src.of<std::string>({"e5", "e-7", "E+3"});
        if (src.chance(1, 4)) raw += "%";
        full = raw;
        break;
      case 1: {
        raw = src.text(1, "bcdghjklmopqrstvwxyzBCXYZ#") + src.text(src.size(src.chance(1, 10) ? 60 : 10), "abcxyz0189_.-+*/&!?\"'[]{}");
        if (raw.compare(0, 3, "url") == 0) raw = "b" + raw;
        full = raw;
        break;
      }
      case 2: {
        char o = src.of<char>({'"', '\'', '`', '{'}), c = o == '{' ? '}' : o == '`' ? '\'' : o;
        raw = o;
        size_t l = src.size(src.chance(1, 10) ? 60 : 10);
        for (size_t j = 0; j < l; j++) {
          char x = src.of<char>({'a', ' ', 'b', c, '\\', '"', ',', '>', '(', '\n', '\xe9'});
          full += x;
          if (x == c || x == '\\') raw += '\\';
          raw += x;
        }
        raw += c;
        break;
      }
      case 3: raw = full = src.text(1, ",;:=[])!&|@$^~?*"); break;
      case 4: raw = full = src.of<std::string>({"/", "/>", "//", "<", ">"}); break;
      default: {
        std::string name = src.of<std::string>({"rgb", "url", "fill", "x"});
        std::string body = src.text(src.size(8), "ab1, ;:=<\"");
        if (name == "url") {
          bool h = src.chance(1, 2);
          if (!h && !body.empty() && body[0] == '#') body[0] = 'a';
          raw = name + "(" + (h ? "#" : "") + body + ")";
          full = body;
        } else full = raw = name + "(" + body + ")";
      }
    }
    // white space is needed unless the previous token ends by itself
    bool need = !(prev == 2 || prev == 3 || i == 0 || (k == 3 && strchr(",;:=", raw[0]) && prev != 5 && prev != 4));
    if (prev == 5 && k == 3 && strchr(",;:=", raw[0])) need = false;
    if (prev == 4) need = true;
    t += src.text(need ? 1 + src.size(2) : src.size(2), " \t\n\r\v\f");
    t += raw;
    want.push_back({k, full});
    kinds |= 1 << k;
    prev = k;
  }
  t += src.text(src.size(2), " \t\n");
  src.note("%s extent %zu", quote(t, 200).c_str(), extent);
  char *e = exact(t), *tok = (char *)malloc(extent);
  const char *p = e;
  for (size_t i = 0; i < n; i++) {
    const char *before = p, *peek = nullptr;
    if (src.chance(1, 4)) {
      GetNextToken(p, nullptr, extent, tok);  // looking ahead consumes nothing
      std::string w = want[i].full.substr(0, extent - 1);
      CHECK(w == tok, "looking ahead, token %zu is %s, expected %s", i, quote(tok).c_str(), quote(w).c_str());
    }
    (void)peek;
    GetNextToken(p, &p, extent, tok);
    CHECK(p > before && p <= e + t.size(), "scan position is outside the text");
    CHECK(memchr(tok, 0, extent), "token not terminated");
    std::string w = want[i].full.substr(0, extent - 1);
    CHECK(w == tok, "token %zu is %s, expected %s", i, quote(tok).c_str(), quote(w).c_str());
  }
  CHECK(*p == 0, "%s is left after the last token", quote(p).c_str());
  free(e);
  free(tok);
  if (n >= 3 && (kinds & (kinds - 1))) src.nontrivial();
}

PBT_TEST(token_arbitrary, {.quick = 300000, .thorough = 8000000,
  .rule = "arbitrary texts scanned to their end with token sizes from 2 up in exactly sized buffers; without quoting characters the tokens join to the text less its white space; non-trivial: at least 3 tokens"}) {
  int kind = src.pick(4);
  bool lossless = kind == 0;
  std::string t = kind == 0 ? src.text(src.size(30), " \t\nab:;=,</.0159+-eExX%#[]&\xe9\x80")
    : kind == 1 ? src.cstr(40)
    : kind == 2 ? src.text(src.size(30), " url(#)\\'\"`{}<>/a0.,") : src.of<std::string>({"url(", "url(#", "a(", "\"", "{", "url"}) + src.text(src.size(4), "#)\\ a");
  size_t extent = lossless ? 64 : 2 + src.size(40);
  char *e = exact(t), *tok = (char *)malloc(extent);
  const char *p = e;
  src.note("%s extent %zu", quote(t).c_str(), extent);
  std::string join;
  size_t n = 0;
  while (*p) {
    const char *b = p;
    GetNextToken(p, &p, extent, tok);
    CHECK(p > b && p <= e + t.size(), "no progress or beyond the text at %zd", b - e);
    CHECK(memchr(tok, 0, extent), "token not terminated");
    join += tok;
    n++;
  }
  if (lossless) {
    std::string w;
    for (char c : t) if (!ws(c)) w += c;
    CHECK(join == w, "tokens join to %s, expected %s", quote(join).c_str(), quote(w).c_str());
  }
  CHECK(t == e, "the text was changed");
  free(e);
  free(tok);
  if (n >= 3) src.nontrivial();
}
