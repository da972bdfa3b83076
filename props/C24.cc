// C24: XML documents against the tree they were rendered from.
#include "wt.h"
#include "wizard/xml-tree.h"
using namespace pbt;

extern "C" __attribute__((weak)) WizardBooleanType GetXMLTreeAttributes(const XMLTreeInfo *, SplayTreeInfo *);

namespace {
char *exact(const std::string &s) { char *p = (char *)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); return p; }

struct El {
  std::string tag, content;
  std::vector<std::pair<std::string, std::string>> attr;
  std::vector<std::pair<size_t, El>> kids;   // offset within content
};
const std::vector<std::string> TAGS = {"a", "b", "aa", "x:y", "_c", "item", "b1", "A"};

std::string chars(Src &src, size_t max) {
  if (src.chance(1, 500)) return std::string(src.range(3800, 9000), src.of<char>({'a', '&', '<', ' '}));
  return src.text(src.size(max), "abz019 <>&\"';#%\n\t]-?=/x");
}
std::string name(Src &src) { return src.chance(1, 300) ? std::string(src.range(3800, 9000), 'm') : src.chance(1, 20) ? std::string(src.range(1, 60), 'n') : TAGS[src.pick(TAGS.size())]; }

// references for characters in several ways
std::string refs(Src &src, const std::string &s, bool attr, char q) {
  std::string o;
  for (unsigned char c : s) {
    bool must = c == '<' || c == '&' || (attr && (c == (unsigned char)q || c == '\n' || c == '\t' || c == '\r')) || c == '\r' || (c == '>' );
    if (!must && !src.chance(1, 12)) { o += (char)c; continue; }
    static const std::map<char, std::string> P = {{'<', "&lt;"}, {'>', "&gt;"}, {'&', "&amp;"}, {'"', "&quot;"}, {'\'', "&apos;"}};
    auto it = P.find((char)c);
    switch (src.pick(3)) {
      case 0: if (it != P.end()) { o += it->second; break; } [[fallthrough]];
      case 1: o += fmt("&#%d;", c); break;
      default: o += fmt(src.chance(1, 2) ? "&#x%x;" : "&#x%X;", c);
    }
  }
  return o;
}

struct Doc {
  El root;
  std::map<std::string, std::vector<std::string>> pi;       // by target, in order
  std::map<std::string, std::string> entity;                // name -> text
  std::map<std::string, std::map<std::string, std::string>> dflt;  // element -> attribute -> value
};

std::string ws(Src &src, bool need) { return src.text(need ? 1 + src.size(2) : src.size(2), " \n\t"); }

std::string render_pi(Src &src, Doc &d) {
  std::string t = src.of<std::string>({"pi", "target", "p2"}), v = src.chance(1, 60) ? std::string(src.range(3800, 9000), 'v') : src.text(src.size(8), "ab =\"'<>&;");
  while (!v.empty() && v[0] == ' ') v.erase(0, 1);
  d.pi[t].push_back(v);
  return "<?" + t + (v.empty() ? "" : " " + v) + "?>";
}

El element(Src &src, Doc &d, int depth, std::string &out) {
  El e;
  e.tag = name(src);
  out += "<" + e.tag;
  size_t na = src.size(3);
  std::set<std::string> seen;
  for (size_t i = 0; i < na; i++) {
    std::string n = name(src), v = chars(src, 10);
    if (n == "x:y" ) n = "xy";
    if (!seen.insert(n).second) continue;
    char q = src.chance(1, 2) ? '"' : '\'';
    std::string r = refs(src, v, true, q);
    if (!d.entity.empty() && src.chance(1, 5)) { auto it = d.entity.begin(); std::advance(it, src.pick(d.entity.size())); r += "&" + it->first + ";"; v += it->second; }
    out += ws(src, true) + n + ws(src, false) + "=" + ws(src, false) + q + r + q;
    e.attr.push_back({n, v});
  }
  out += ws(src, false);
  size_t n = depth >= 4 ? src.size(2) : src.size(5);
  if (!n && src.chance(1, 2)) { out += "/>"; return e; }
  out += ">";
  for (size_t i = 0; i < n; i++) {
    switch (src.pick(8)) {
      case 0: case 1: case 2:
        if (depth < 5) { size_t off = e.content.size(); e.kids.push_back({off, element(src, d, depth + 1, out)}); }
        break;
      case 3: case 4: { std::string s = chars(src, 12); out += refs(src, s, false, 0); e.content += s; break; }
      case 5: { std::string s = chars(src, 12); if (s.find("]]") != s.npos) s = "<x>&amp;"; out += "<![CDATA[" + s + "]]>"; e.content += s; break; }
      case 6: out += "<!--" + src.text(src.size(6), "ab <>&'") + "-->"; break;
      default:
        if (!d.entity.empty()) { auto it = d.entity.begin(); std::advance(it, src.pick(d.entity.size())); out += "&" + it->first + ";"; e.content += it->second; }
        else out += render_pi(src, d);
    }
  }
  out += "</" + e.tag + ws(src, false) + ">";
  return e;
}

void add_defaults(El &e, const Doc &d) {
  auto it = d.dflt.find(e.tag);
  if (it != d.dflt.end())
    for (auto &a : it->second) {
      bool has = false;
      for (auto &x : e.attr) has |= x.first == a.first;
      if (!has) e.attr.push_back(a);
    }
  for (auto &k : e.kids) add_defaults(k.second, d);
}

// The library's tree against the model.
void compare(XMLTreeInfo *x, const El &e, const std::string &path) {
  std::string p = path + "/" + e.tag.substr(0, 10);
  CHECK(GetXMLTreeTag(x) && e.tag == GetXMLTreeTag(x), "%s: tag is %s", p.c_str(), GetXMLTreeTag(x));
  CHECK(e.content == GetXMLTreeContent(x), "%s: content is %s, expected %s", p.c_str(), quote(GetXMLTreeContent(x), 60).c_str(), quote(e.content, 60).c_str());
  for (auto &a : e.attr) {
    const char *v = GetXMLTreeAttribute(x, a.first.c_str());
    CHECK(v && a.second == v, "%s: attribute %s is %s, expected %s", p.c_str(), a.first.substr(0, 10).c_str(), v ? quote(v, 60).c_str() : "missing", quote(a.second, 60).c_str());
  }
  CHECK(!GetXMLTreeAttribute(x, "absent"), "%s: an absent attribute has a value", p.c_str());
  XMLTreeInfo *c = GetXMLTreeChild(x, nullptr);
  std::vector<XMLTreeInfo *> nodes;
  for (auto &k : e.kids) {
    CHECK(c, "%s: child %s is missing", p.c_str(), k.second.tag.substr(0, 10).c_str());
    compare(c, k.second, p);
    nodes.push_back(c);
    c = GetXMLTreeOrdered(c);
  }
  CHECK(!c, "%s: extra child %s", p.c_str(), GetXMLTreeTag(c));
  // lookup by tag gives the first of each tag, next the following ones
  std::map<std::string, std::vector<XMLTreeInfo *>> by;
  for (size_t i = 0; i < nodes.size(); i++) by[e.kids[i].second.tag].push_back(nodes[i]);
  for (auto &b : by) {
    XMLTreeInfo *n = GetXMLTreeChild(x, b.first.c_str());
    for (size_t i = 0; i < b.second.size(); i++) {
      CHECK(n == b.second[i], "%s: lookup of %s number %zu finds %s", p.c_str(), b.first.substr(0, 10).c_str(), i, n ? "another element" : "nothing");
      n = GetNextXMLTreeTag(n);
    }
    CHECK(!n, "%s: more than %zu elements %s", p.c_str(), b.second.size(), b.first.substr(0, 10).c_str());
  }
  XMLTreeInfo *sib = GetXMLTreeChild(x, nullptr);
  for (size_t i = 0; i < nodes.size(); i++) {
    if (by[e.kids[i].second.tag][0] != nodes[i]) continue;
    CHECK(sib == nodes[i], "%s: the siblings are not the first of each tag in order", p.c_str());
    sib = GetXMLTreeSibling(sib);
  }
  CHECK(!sib, "%s: too many siblings", p.c_str());
  CHECK(!GetXMLTreeChild(x, "absent"), "%s: lookup finds an absent element", p.c_str());
}

void compare_pi(XMLTreeInfo *x, const Doc &d) {
  for (auto &t : d.pi) {
    const char **v = GetXMLTreeProcessingInstructions(x, t.first.c_str());
    size_t i = 0;
    for (; v && v[i]; i++) CHECK(i < t.second.size() && t.second[i] == v[i], "processing instruction %s number %zu is %s", t.first.c_str(), i, quote(v[i]).c_str());
    CHECK(i == t.second.size(), "%zu processing instructions %s, expected %zu", i, t.first.c_str(), t.second.size());
  }
  const char **v = GetXMLTreeProcessingInstructions(x, "absent");
  CHECK(v && !*v, "an absent processing instruction is found");
}

size_t count(const El &e) { size_t n = 1; for (auto &k : e.kids) n += count(k.second); return n; }

XMLTreeInfo *parse(const std::string &t) {
  char *e = exact(t);
  Exc ex;
  XMLTreeInfo *x = NewXMLTree(e, ex);
  free(e);
  std::string why;
  if (GetExceptionSeverity(ex) != UndefinedException) why = "error";
  CHECK(x && why.empty(), "a well-formed document is refused: %s: %s", why.c_str(), quote(t, 300).c_str());
  return x;
}
}

static std::string document(Src &src, Doc &d) {
  std::string t;
  if (src.chance(1, 2)) t += "<?xml version=\"1.0\"?>";
  t += ws(src, false);
  if (src.chance(1, 4)) t += render_pi(src, d) + ws(src, false);
  if (src.chance(1, 5)) t += "<!-- head -->";
  if (src.chance(1, 3)) {
    t += "<!DOCTYPE r" + ws(src, true) + "[" + ws(src, false);
    for (size_t n = src.size(5); n; n--) {
      switch (src.pick(4)) {
        case 0: case 1: {
          std::string en = src.of<std::string>({"e", "ent", "e1", "long-name"});
          if (d.entity.count(en)) break;
          std::string v = src.text(src.size(src.chance(1, 4) ? 60 : 6), "ab1 ,."), r = v;
          if (src.chance(1, 3)) { r += "&#38;#38;"; v += "&"; }
          if (!d.entity.empty() && src.chance(1, 2)) { auto it = d.entity.begin(); std::advance(it, src.pick(d.entity.size())); r += "&" + it->first + ";"; v += it->second; }
          t += "<!ENTITY" + ws(src, true) + en + ws(src, true) + "\"" + r + "\">";
          d.entity[en] = v;
          break;
        }
        case 2: {
          std::string el = name(src);
          t += "<!ATTLIST " + el;
          for (size_t k = 1 + src.pick(2); k; k--) {
            std::string an = src.chance(1, 40) ? std::string(src.range(3800, 9000), 'd') : src.of<std::string>({"da", "db", "a"}), v = src.text(src.size(5), "ab1 ");
            t += " " + an + " CDATA \"" + v + "\"";
            if (!d.dflt[el].count(an)) d.dflt[el][an] = v;
          }
          t += ">";
          break;
        }
        default: t += "<!-- c -->";
      }
      t += ws(src, false);
    }
    t += "]>" + ws(src, false);
  }
  d.root = element(src, d, 0, t);
  if (src.chance(1, 4)) t += ws(src, false) + render_pi(src, d);
  if (src.chance(1, 3)) t += ws(src, true);
  return t;
}

PBT_TEST(parse_documents, {.quick = 40000, .thorough = 2000000,
  .rule = "rendered documents of up to a few dozen elements with attributes, references, CDATA, comments, processing instructions, entity and attribute declarations; parsed, compared, written, parsed again; non-trivial: at least 3 elements"}) {
  Doc d;
  std::string t = document(src, d);
  src.note("%s", quote(t, 600).c_str());
  XMLTreeInfo *x = parse(t);
  add_defaults(d.root, d);
  compare(x, d.root, "");
  compare_pi(x, d);
  char *out = XMLTreeInfoToXML(x);
  CHECK(out, "the tree is not written");
  std::string w = out;
  RelinquishWizardMemory(out);
  src.note("written: %s", quote(w, 600).c_str());
  compare(x, d.root, "");
  DestroyXMLTree(x);
  x = parse(w);
  compare(x, d.root, "rewritten:");
  compare_pi(x, d);
  out = XMLTreeInfoToXML(x);
  CHECK(w == out, "writing it again gives another text: %s", quote(out, 300).c_str());
  RelinquishWizardMemory(out);
  DestroyXMLTree(x);
  if (count(d.root) >= 3) src.nontrivial();
}

PBT_TEST(reject_malformed, {.quick = 60000, .thorough = 1500000,
  .rule = "well-formed documents damaged in their nesting (an end tag removed, renamed, swapped or doubled, a quote or bracket left open) are reported; non-trivial: at least 3 elements"}) {
  Doc d;
  std::string t;
  d.root = element(src, d, 0, t);
  std::vector<size_t> ends;
  for (size_t i = 0; i + 1 < t.size();) {
    if (!t.compare(i, 9, "<![CDATA[")) i = t.find("]]>", i);
    else if (!t.compare(i, 4, "<!--")) i = t.find("-->", i);
    else if (!t.compare(i, 2, "<?")) i = t.find("?>", i);
    else { if (t[i] == '<' && t[i + 1] == '/') ends.push_back(i); i++; }
  }
  std::string what;
  switch (src.pick(6)) {
    case 0:
      if (ends.empty()) discard();
      { size_t i = ends[src.pick(ends.size())]; t.erase(i, t.find('>', i) - i + 1); what = "end tag removed"; }
      break;
    case 1:
      if (ends.empty()) discard();
      t.insert(ends[src.pick(ends.size())] + 2, 1, 'z');
      what = "end tag renamed";
      break;
    case 2:
      if (ends.empty()) discard();
      { size_t i = ends[src.pick(ends.size())]; std::string e = t.substr(i, t.find('>', i) - i + 1); t.insert(i, e); what = "end tag doubled"; }
      break;
    case 3: t += "</extra>"; what = "an end tag too many"; break;
    case 4: t.insert(ends.empty() ? t.size() : ends.back(), "<open>"); what = "an element never closed"; break;
    default: t = t.substr(0, t.size() - 1); while (!t.empty() && t.back() != '>') t.pop_back(); if (t.empty()) discard(); t += src.of<std::string>({"<a b=\"c", "<!-- x", "<![CDATA[ x", "<?pi x", "<a", "</", "<"}); what = "cut short";
  }
  src.note("%s: %s", what.c_str(), quote(t, 400).c_str());
  char *e = exact(t);
  Exc ex;
  XMLTreeInfo *x = NewXMLTree(e, ex);
  free(e);
  CHECK(GetExceptionSeverity(ex) != UndefinedException, "%s, but the document is accepted", what.c_str());
  if (x) DestroyXMLTree(x);
  if (count(d.root) >= 3) src.nontrivial();
}

// Building trees through the interface.
namespace {
struct Node { XMLTreeInfo *x; El *e; };
// children are kept by offset, equal offsets in order of insertion
El *place(El &p, size_t off, El e) {
  size_t i = 0;
  while (i < p.kids.size() && p.kids[i].first <= off) i++;
  return &p.kids.insert(p.kids.begin() + i, {off, std::move(e)})->second;
}
// the library node of a model node given by child indices
XMLTreeInfo *locate(XMLTreeInfo *x, const std::vector<size_t> &path) {
  for (size_t i : path) { x = GetXMLTreeChild(x, nullptr); while (i-- && x) x = GetXMLTreeOrdered(x); }
  return x;
}
El *locate(El *e, const std::vector<size_t> &path) { for (size_t i : path) e = &e->kids[i].second; return e; }
}

PBT_TEST(build_trees, {.quick = 40000, .thorough = 1500000,
  .rule = "histories of up to 25 operations adding elements at offsets, setting, replacing and removing attributes, setting content, pruning and reinserting elements; compared after each step and after writing and parsing; non-trivial: at least 3 elements and an attribute or a prune"}) {
  El m;
  m.tag = "root";
  XMLTreeInfo *x = NewXMLTreeTag("root");
  CHECK(x, "no tree");
  size_t ops = 1 + src.size(24);
  bool did = false;
  auto choose = [&]() {
    std::vector<size_t> path;
    El *e = &m;
    while (!e->kids.empty() && path.size() < 4 && src.chance(2, 3)) { size_t i = src.pick(e->kids.size()); path.push_back(i); e = &e->kids[i].second; }
    return path;
  };
  for (size_t k = 0; k < ops; k++) {
    auto path = choose();
    El *e = locate(&m, path);
    XMLTreeInfo *n = locate(x, path);
    CHECK(n, "an element is lost");
    std::string at = fmt("[%zu]", path.size());
    switch (src.pick(8)) {
      case 0: case 1: case 2: {
        El c;
        c.tag = name(src);
        size_t off = src.chance(1, 2) ? e->content.size() : src.chance(1, 20) ? src.range(0, 20000) : src.range(0, e->content.size() + 2);
        if (!e->kids.empty() && src.chance(1, 3)) off = e->kids[src.pick(e->kids.size())].first;
        src.note("add(%s,%s,%zu)", at.c_str(), c.tag.substr(0, 8).c_str(), off);
        XMLTreeInfo *r = AddChildToXMLTree(n, c.tag.c_str(), off);
        CHECK(r && c.tag == GetXMLTreeTag(r), "the new element is wrong");
        std::string content = chars(src, 8);
        c.content = content;
        CHECK(SetXMLTreeContent(r, content.c_str()) == r, "content not set");
        place(*e, off, c);
        break;
      }
      case 3: case 4: {
        std::string a = src.of<std::string>({"p", "q", "pq", "r", "s"}), v = chars(src, 8);
        bool remove = src.chance(1, 4);
        src.note("attribute(%s,%s,%s)", at.c_str(), a.c_str(), remove ? "removed" : quote(v, 20).c_str());
        CHECK(SetXMLTreeAttribute(n, a.c_str(), remove ? nullptr : v.c_str()) == n, "attribute not set");
        size_t i = 0;
        while (i < e->attr.size() && e->attr[i].first != a) i++;
        if (remove) { if (i < e->attr.size()) e->attr.erase(e->attr.begin() + i); CHECK(!GetXMLTreeAttribute(n, a.c_str()), "a removed attribute has a value"); }
        else if (i < e->attr.size()) e->attr[i].second = v;
        else e->attr.push_back({a, v});
        did = true;
        break;
      }
      case 5: {
        std::string c = chars(src, 10);
        src.note("content(%s,%s)", at.c_str(), quote(c, 20).c_str());
        SetXMLTreeContent(n, c.c_str());
        e->content = c;
        break;
      }
      case 6: {
        if (path.empty()) break;
        auto up = path;
        size_t i = up.back();
        up.pop_back();
        El *p = locate(&m, up);
        XMLTreeInfo *px = locate(x, up);
        src.note("prune(%s,%zu)", at.c_str(), i);
        CHECK(PruneTagFromXMLTree(n) == n, "prune returns another element");
        El copy = p->kids[i].second;
        p->kids.erase(p->kids.begin() + i);
        compare(x, m, "pruned:");
        did = true;
        if (src.chance(1, 2)) {
          size_t off = src.range(0, p->content.size() + 2);
          src.note("insert(%zu)", off);
          CHECK(InsertTagIntoXMLTree(px, n, off) == n, "insert returns another element");
          place(*p, off, copy);
        } else DestroyXMLTree(n);
        break;
      }
      default: {
        std::string a = TAGS[src.pick(TAGS.size())], b = TAGS[src.pick(TAGS.size())];
        if (a == "x:y" || b == "x:y") break;
        auto kid = [](El *q, const std::string &t) -> El * { for (auto &kk : q->kids) if (kk.second.tag == t) return &kk.second; return nullptr; };
        El *w = kid(e, a);
        if (w) w = kid(w, b);
        XMLTreeInfo *g = GetXMLTreePath(n, (a + "/" + b).c_str());
        src.note("path(%s/%s)", a.c_str(), b.c_str());
        CHECK(!w == !g, "path %s/%s is %s", a.c_str(), b.c_str(), g ? "found" : "not found");
        if (g) CHECK(b == GetXMLTreeTag(g) && w->content == GetXMLTreeContent(g), "path %s/%s finds another element", a.c_str(), b.c_str());
      }
    }
    compare(x, m, "");
  }
  char *out = XMLTreeInfoToXML(x);
  CHECK(out, "the tree is not written");
  std::string w = out;
  RelinquishWizardMemory(out);
  src.note("written: %s", quote(w, 600).c_str());
  if (!m.kids.empty()) {  // an element written on its own
    size_t i = src.pick(m.kids.size());
    out = XMLTreeInfoToXML(locate(x, {i}));
    CHECK(out, "an element is not written");
    XMLTreeInfo *y = parse(out);
    RelinquishWizardMemory(out);
    compare(y, m.kids[i].second, "element:");
    DestroyXMLTree(y);
    compare(x, m, "");
  }
  DestroyXMLTree(x);
  x = parse(w);
  compare(x, m, "rewritten:");
  DestroyXMLTree(x);
  if (count(m) >= 3 && did) src.nontrivial();
}

PBT_TEST(large_trees, {.quick = 250, .thorough = 6000,
  .rule = "trees of up to 300 elements whose names, attributes and contents have one length each (up to 9000, often none), written in full and parsed; non-trivial: more than 8000 bytes"}) {
  auto len = [&]() { return src.chance(1, 3) ? 0 : src.chance(1, 2) ? src.range(1, 12) : src.chance(1, 3) ? src.range(3800, 9000) : src.range(1, 400); };
  size_t n = src.range(2, 300), nest = src.range(1, 40), tag = 1 + len(), attrs = src.pick(4), name_length = 1 + len(), value = len(), content = len();
  if (tag + name_length + value + content > 2500) n = 1 + n % 12;
  char fill = src.of<char>({'x', '&', ' ', '<'});
  El m;
  m.tag = "root";
  XMLTreeInfo *x = NewXMLTreeTag("root");
  std::vector<size_t> path;
  for (size_t i = 0; i < n; i++) {
    El c;
    c.tag = std::string(tag, 'a' + i % 7);
    c.content = std::string(content, fill);
    El *e = locate(&m, path);
    XMLTreeInfo *p = locate(x, path), *y = AddChildToXMLTree(p, c.tag.c_str(), e->content.size());
    CHECK(y && SetXMLTreeContent(y, c.content.c_str()) == y, "no element");
    for (size_t k = 0; k < attrs; k++) {
      c.attr.push_back({std::string(name_length, 'n') + (char)('a' + k), std::string(value, fill)});
      SetXMLTreeAttribute(y, c.attr[k].first.c_str(), c.attr[k].second.c_str());
    }
    place(*e, e->content.size(), c);
    if (path.size() < nest && src.chance(1, 2)) path.push_back(e->kids.size() - 1);
    else if (!path.empty() && src.chance(1, 2)) path.pop_back();
  }
  src.note("%zu elements, names of %zu, %zu attributes of %zu and %zu, content of %zu", n, tag, attrs, name_length, value, content);
  char *out = XMLTreeInfoToXML(x);
  CHECK(out, "the tree is not written");
  std::string w = out;
  RelinquishWizardMemory(out);
  compare(x, m, "");
  DestroyXMLTree(x);
  x = parse(w);
  compare(x, m, "rewritten:");
  DestroyXMLTree(x);
  if (w.size() > 8000) src.nontrivial();
}
