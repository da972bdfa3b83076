// C19: text string utilities against their definitions.
#include "wt.h"
using namespace pbt;

static bool ws(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
static int low(unsigned char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
// An exactly sized heap copy, so that any access outside it is caught.
static char *exact(const std::string &s) { char *p = (char *)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); return p; }

PBT_TEST(bounded_copy, {.quick = 300000, .thorough = 6000000,
  .rule = "bounded copy and concatenation of arbitrary text into an exactly sized buffer; non-trivial: the text is longer than the room"}) {
  std::string s = src.cstr(src.chance(1, 50) ? 5000 : 40), d;
  size_t n = 1 + src.size(60, {s.size(), s.size() + 1, s.size() + 2, 4, 8});
  char *src_copy = exact(s);
  char *buf = (char *)malloc(n);
  if (src.chance(1, 2)) {
    src.note("copy %s to %zu", quote(s, 40).c_str(), n);
    memset(buf, 'x', n);
    size_t r = CopyWizardString(buf, src_copy, n);
    std::string e = s.substr(0, n - 1);
    CHECK(memchr(buf, 0, n), "copy not terminated");
    CHECK(e == buf, "copied %s, expected %s", quote(buf, 40).c_str(), quote(e, 40).c_str());
    if (s.size() < n) CHECK(r == s.size(), "copy returned %zu for a text of %zu", r, s.size());
    if (s.size() >= n) src.nontrivial();
  } else {
    d = src.cstr(40);
    d.resize(std::min(d.size(), n - 1));
    memset(buf, 'x', n);
    memcpy(buf, d.c_str(), d.size() + 1);
    src.note("concatenate %s to %s of %zu", quote(s, 40).c_str(), quote(d, 40).c_str(), n);
    size_t r = ConcatenateWizardString(buf, src_copy, n);
    std::string e = (d + s).substr(0, n - 1);
    CHECK(memchr(buf, 0, n), "concatenation not terminated");
    CHECK(e == buf, "concatenated %s, expected %s", quote(buf, 40).c_str(), quote(e, 40).c_str());
    CHECK(r == d.size() + s.size(), "concatenation returned %zu, expected %zu", r, d.size() + s.size());
    if (d.size() + s.size() >= n) src.nontrivial();
  }
  free(buf);
  free(src_copy);
}

PBT_TEST(growing_strings, {.quick = 60000, .thorough = 1500000,
  .rule = "histories of up to 12 clone, append and substitute operations on a growing string; non-trivial: a substitution changed the text or two appends"}) {
  char *p = nullptr;
  std::string m;
  bool null = true;
  int apps = 0;
  size_t ops = 1 + src.size(12);
  for (size_t k = 0; k < ops; k++) {
    std::string s = src.chance(1, 60) ? std::string(src.range(4000, 9000), 'a' + src.pick(26)) : src.chance(1, 2) ? src.text(src.size(20), "ab") : src.cstr(30);
    char *e = exact(s);
    switch (src.pick(5)) {
      case 0:
        src.note("clone(%s)", quote(s, 20).c_str());
        CHECK(CloneString(&p, e) == p, "clone returned another pointer");
        m = s;
        null = false;
        break;
      case 1:
        src.note("append(%s)", quote(s, 20).c_str());
        CHECK(ConcatenateString(&p, e) != WizardFalse, "append failed");
        m += s;
        null = false;
        apps++;
        break;
      case 2: case 3: {
        if (null || (m.size() > 1000 && !src.chance(1, 20))) break;
        std::string f = m.empty() || src.chance(1, 2) ? src.text(1 + src.size(3), "ab") : m.substr(src.pick(m.size()), 1 + src.size(4)), r;
        switch (src.pick(3)) {
          case 0: r = src.text(src.size(6), "abc"); break;
          case 1: r = f + src.text(1 + src.size(3), "ab"); break;
          default: r = src.cstr(20);
        }
        if (m.size() > 100000) break;
        if (src.chance(1, 30)) f.clear();  // nothing to replace
        std::string x;
        bool any = false;
        for (size_t i = 0; i < m.size();)
          if (!f.empty() && m.compare(i, f.size(), f) == 0) { x += r; i += f.size(); any = true; }
          else x += m[i++];
        src.note("substitute(%s,%s)", quote(f, 20).c_str(), quote(r, 20).c_str());
        char *ef = exact(f), *er = exact(r);
        bool st = SubstituteString(&p, ef, er) != WizardFalse;
        free(ef);
        free(er);
        CHECK(st == any, "substitution status %d, expected %d", st, any);
        m = x;
        if (any) src.nontrivial();
        break;
      }
      default:
        if (src.chance(1, 4)) {
          src.note("clone(null)");
          CHECK(CloneString(&p, nullptr) == nullptr && p == nullptr, "clone of nothing is something");
          m.clear();
          null = true;
        }
    }
    free(e);
    CHECK((p == nullptr) == null, "string %s", p ? "exists" : "is missing");
    if (p) CHECK(m == p, "string is %s, expected %s", quote(p, 60).c_str(), quote(m, 60).c_str());
  }
  if (p) {
    char *c = ConstantString(p), *a = AcquireString(p);
    CHECK(m == c && m == a, "copies differ");
    DestroyString(c);
    DestroyString(a);
    DestroyString(p);
  }
  if (apps >= 2) src.nontrivial();
}

PBT_TEST(compare_order, {.quick = 300000, .thorough = 6000000,
  .rule = "case-insensitive comparison of related text pairs, plain and bounded, and case conversion; non-trivial: the texts share a first letter ignoring case"}) {
  std::string a = src.chance(1, 2) ? src.text(src.size(10), "aAbBzZ@[`{") : src.cstr(20), b = a;
  switch (src.pick(5)) {
    case 0: b = src.chance(1, 2) ? src.text(src.size(10), "aAbBzZ@[`{") : src.cstr(20); break;
    case 1: for (auto &c : b) if (src.chance(1, 2)) { if (c >= 'a' && c <= 'z') c -= 32; else if (c >= 'A' && c <= 'Z') c += 32; } break;
    case 2: if (!b.empty()) b[src.pick(b.size())] = (char)src.range(1, 255); break;
    case 3: b += src.cstr(3); break;
    default: b.resize(src.range(0, b.size()));
  }
  size_t n = src.size(24, {a.size(), b.size(), 0, 1});
  auto cmp = [&](size_t lim) {
    for (size_t i = 0; i < lim; i++) {
      int x = i < a.size() ? low(a[i]) : 0, y = i < b.size() ? low(b[i]) : 0;
      if (x != y) return x < y ? -1 : 1;
      if (!x) break;
    }
    return 0;
  };
  char *ea = exact(a), *eb = exact(b);
  src.note("%s %s %zu", quote(a).c_str(), quote(b).c_str(), n);
  int r = sgn(LocaleCompare(ea, eb)), e = cmp(1000);
  CHECK(r == e, "comparison gives %d, expected %d", r, e);
  CHECK(sgn(LocaleCompare(eb, ea)) == -e, "comparison is not antisymmetric");
  r = sgn(LocaleNCompare(ea, eb, n));
  e = cmp(n);
  CHECK(r == e, "comparison of %zu characters gives %d, expected %d", n, r, e);
  CHECK(LocaleCompare(nullptr, nullptr) == 0 && LocaleCompare(nullptr, eb) < 0 && LocaleCompare(ea, nullptr) > 0, "order of null");
  LocaleLower(ea);
  for (size_t i = 0; i < a.size(); i++) CHECK((unsigned char)ea[i] == low(a[i]), "lower case of %02x is %02x", (unsigned char)a[i], (unsigned char)ea[i]);
  CHECK(strlen(ea) == a.size() && strlen(eb) == b.size(), "length changed");
  free(ea);
  free(eb);
  if (!a.empty() && !b.empty() && low(a[0]) == low(b[0])) src.nontrivial();
}

PBT_TEST(words, {.quick = 150000, .thorough = 3000000,
  .rule = "texts of 0-8 plain and quoted words with varied white space split back into the words; non-trivial: a quoted word with white space inside or at least 3 words"}) {
  size_t n = src.size(8);
  std::vector<std::string> w;
  std::string t = src.text(src.size(3), " \t\n");
  for (size_t i = 0; i < n; i++) {
    if (i) t += src.text(1 + src.size(2), " \t\n\v\f\r");
    switch (src.pick(3)) {
      case 0: {
        std::string x = src.cstr(8);
        std::string y;
        for (char c : x) if (!ws(c)) y += c;
        if (y.empty() || y[0] == '"' || y[0] == '\'') y = "w" + y;
        w.push_back(y);
        t += y;
        break;
      }
      default: {
        char q = src.chance(1, 2) ? '"' : '\'';
        std::string x = src.cstr(10), y;
        for (char c : x) if (c != q) y += c;
        if (src.chance(1, 2)) y += " z";
        w.push_back(y);
        t += q + y + q;
        if (y.find(' ') != y.npos) src.nontrivial();
      }
    }
  }
  t += src.text(src.size(2), " \t\n");
  src.note("%s", quote(t, 100).c_str());
  int argc = -1;
  char *e = exact(t);
  char **v = StringToArgv(e, &argc);
  CHECK(v, "no words");
  CHECK(argc == (int)n, "%d words, expected %zu", argc, n);
  for (size_t i = 0; i < n; i++) CHECK(v[i] && w[i] == v[i], "word %zu is %s, expected %s", i, quote(v[i]).c_str(), quote(w[i]).c_str());
  CHECK(v[n] == nullptr, "list not terminated");
  DestroyStringList(v);
  free(e);
  if (n >= 3) src.nontrivial();
}

PBT_TEST(strip, {.quick = 150000, .thorough = 3000000,
  .rule = "white space and one pair of quotes around a text are stripped, inside it newlines become spaces; arbitrary texts stay within their buffer; non-trivial: something to strip"}) {
  std::string pre = src.text(src.size(4), " \t\n\r\v\f"), post = src.text(src.size(4), " \t\n\r\v\f");
  if (src.chance(1, 4)) {  // arbitrary text: stays a part of the input
    std::string a = pre + src.text(src.size(10), " \"'a\nb") + post;
    char *e = exact(a);
    StripString(e);
    std::string r = e, x = a;
    for (auto &c : x) if (c == '\n') c = ' ';
    CHECK(x.find(r) != x.npos, "strip made %s of %s", quote(r).c_str(), quote(a).c_str());
    free(e);
    return;
  }
  std::string body = src.cstr(12), x;
  auto edge = [](char c) { return ws(c) || c == '"' || c == '\''; };
  while (!body.empty() && edge(body.front())) body.erase(0, 1);
  while (!body.empty() && edge(body.back())) body.pop_back();
  if (body.empty()) body = "b";
  if (src.chance(1, 3)) body = body + "\n" + "c";
  std::string q1 = src.of<std::string>({"", "\"", "'"}), q2 = src.of<std::string>({"", "\"", "'"});
  if (body.size() < 1) discard();
  x = pre + q1 + body + q2 + post;
  for (auto &c : body) if (c == '\n') c = ' ';
  char *e = exact(x);
  src.note("%s", quote(x).c_str());
  StripString(e);
  CHECK(body == e, "strip made %s of %s", quote(e).c_str(), quote(x).c_str());
  free(e);
  if (!(pre + post + q1 + q2).empty()) src.nontrivial();
}
