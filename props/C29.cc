// C29: glob matching against a matcher over the parsed pattern.
#include "wt.h"
using namespace pbt;

namespace {
struct Node { char kind; std::string lit; std::vector<std::pair<char, char>> set; std::vector<std::string> alts; };
char *exact(const std::string &s) { char *p = (char *)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); return p; }
const char *ALPHA = "abcABC019.-_ *?[]{},\\";

bool same(char a, char b, bool ci) { return a == b || (ci && tolower((unsigned char)a) == tolower((unsigned char)b)); }

bool matches(const std::vector<Node> &p, const std::string &t, bool ci) {
  std::set<size_t> at{0};
  for (auto &n : p) {
    std::set<size_t> next;
    for (size_t i : at) switch (n.kind) {
      case 'c': if (i < t.size() && same(t[i], n.lit[0], ci)) next.insert(i + 1); break;
      case '?': if (i < t.size()) next.insert(i + 1); break;
      case '*': for (size_t k = i; k <= t.size(); k++) next.insert(k); break;
      case '[': if (i < t.size()) for (auto &r : n.set) if (t[i] >= r.first && t[i] <= r.second) next.insert(i + 1); break;
      case '{': for (auto &a : n.alts) if (t.compare(i, a.size(), a) == 0) next.insert(i + a.size()); break;
    }
    at = next;
  }
  return at.count(t.size());
}

std::string esc(Src &src, char c) {
  std::string s;
  if (strchr("*?[]{},\\-", c) || src.chance(1, 12)) s += '\\';
  return s + c;
}
}

PBT_TEST(glob_language, {.quick = 400000, .thorough = 10000000,
  .rule = "patterns of up to 8 literals, ?, *, sets with ranges and brace alternatives; texts drawn from the pattern's language then mutated, or arbitrary; non-trivial: a set, brace or star in the pattern"}) {
  bool ci = src.chance(1, 3);
  auto ch = [&](bool plain) { return plain ? src.of<char>({'0', '1', '9', '.', '_', ',', '{'}) : ALPHA[src.pick(strlen(ALPHA))]; };
  std::vector<Node> p;
  std::string text_pattern, t;
  size_t n = 1 + src.size(7), stars = 0;
  bool rich = false;
  for (size_t i = 0; i < n; i++) {
    Node d;
    d.kind = "c?*[{c"[src.pick(6)];
    if (d.kind == '*' && ++stars > 3) d.kind = '?';
    switch (d.kind) {
      case 'c':
        d.lit = std::string(1, ch(false));
        text_pattern += esc(src, d.lit[0]);
        t += ci && src.chance(1, 2) ? (isupper(d.lit[0]) ? tolower(d.lit[0]) : toupper(d.lit[0])) : d.lit[0];
        break;
      case '?': text_pattern += '?'; t += ch(false); break;
      case '*': text_pattern += std::string(1 + src.pick(2), '*'); t += src.text(src.size(4), ALPHA); rich = true; break;
      case '[': {
        text_pattern += '[';
        size_t k = 1 + src.size(3);
        for (size_t j = 0; j < k; j++) {
          char a = ch(ci), b = a;
          if (src.chance(1, 2)) { b = ch(ci); if (src.chance(3, 4) && a > b) std::swap(a, b); text_pattern += esc(src, a) + "-" + esc(src, b); }
          else text_pattern += esc(src, a);
          d.set.push_back({a, b});
        }
        text_pattern += ']';
        auto &r = d.set[src.pick(d.set.size())];
        t += r.first <= r.second ? (char)src.irange(r.first, r.second) : r.first;
        rich = true;
        break;
      }
      case '{': {
        text_pattern += '{';
        size_t k = 1 + src.size(3);
        for (size_t j = 0; j < k; j++) {
          std::string a;
          size_t l = src.size(3);
          for (size_t m = 0; m < l; m++) a += ch(ci);
          if (j && src.chance(1, 3)) a = d.alts[src.pick(j)] + a;
          if (j) text_pattern += ',';
          for (char c : a) text_pattern += esc(src, c);
          d.alts.push_back(a);
        }
        text_pattern += '}';
        t += d.alts[src.pick(d.alts.size())];
        rich = true;
        break;
      }
    }
    p.push_back(d);
  }
  switch (src.pick(5)) {
    case 0: t = src.text(src.size(8), ALPHA); break;
    case 1: if (!t.empty()) t[src.pick(t.size())] = ch(false); break;
    case 2: if (!t.empty()) t.erase(src.pick(t.size()), 1); break;
    case 3: t.insert(src.pick(t.size() + 1), 1, ch(false)); break;
    default: break;
  }
  for (char &c : t) if (!c) c = 'a';
  bool want = matches(p, t, ci);
  src.note("%s ~ %s%s", quote(t).c_str(), quote(text_pattern).c_str(), ci ? " ignoring case" : "");
  src.label(want ? "match" : "mismatch");
  char *a = exact(t), *b = exact(text_pattern);
  bool got = GlobExpression(a, b, ci ? WizardTrue : WizardFalse) != WizardFalse;
  CHECK(got == want, "%s %s %s%s, the answer is %s", quote(t).c_str(), want ? "matches" : "does not match", quote(text_pattern).c_str(), ci ? " ignoring case" : "", got ? "yes" : "no");
  free(a);
  free(b);
  if (rich) src.nontrivial();
}

PBT_TEST(glob_arbitrary, {.quick = 400000, .thorough = 10000000,
  .rule = "arbitrary pattern bytes (up to 16, rich in pattern characters) and texts in exactly sized buffers; non-trivial: pattern holds an opening bracket or brace"}) {
  std::string p = src.chance(1, 3) ? src.cstr(12) : src.text(src.size(16), "*?[]{},\\-a\xe9"), t = src.chance(1, 3) ? src.cstr(10) : src.text(src.size(10), "a-]},\xe9");
  if (std::count(p.begin(), p.end(), '*') > 5) discard();
  char *a = exact(t), *b = exact(p);
  src.note("%s ~ %s", quote(t).c_str(), quote(p).c_str());
  bool ci = src.chance(1, 2);
  int r = GlobExpression(a, b, ci ? WizardTrue : WizardFalse), s = GlobExpression(a, b, ci ? WizardTrue : WizardFalse);
  CHECK(r == s && (r == WizardTrue || r == WizardFalse), "answers %d, then %d", r, s);
  CHECK(t == a && p == b, "the arguments were changed");
  free(a);
  free(b);
  if (p.find_first_of("[{") != p.npos) src.nontrivial();
}

PBT_TEST(glob_names, {.quick = 40000, .thorough = 1000000,
  .rule = "names with and without pattern characters, of files that exist or not: a name is a pattern exactly when no such file exists and it holds a pattern character; non-trivial: it holds one"}) {
  static std::string dir;
  if (dir.empty()) dir = fresh_dir();
  std::string name = src.text(1 + src.size(8), "abc*?[]{}.,-\\ ");
  if (name == "." || name == "..") discard();
  std::string path = dir + "/" + name;
  bool exists = src.chance(1, 2), special = name.find_first_of("*?[]{}") != name.npos;
  if (exists) write_file(path, std::string("x"));
  src.note("%s%s", quote(name).c_str(), exists ? " exists" : "");
  char *p = exact(path);
  bool got = IsGlob(p) != WizardFalse;
  CHECK(path == p, "the name was changed");
  free(p);
  unlink(path.c_str());
  CHECK(got == (special && !exists), "%s which %s is taken for a %s", quote(name).c_str(), exists ? "exists" : "does not exist", got ? "pattern" : "name");
  if (special) src.nontrivial();
}
