// C25: XML parsing of arbitrary text.
#include "wt.h"
#include "wizard/xml-tree.h"
#include "xml_dict.h"
using namespace pbt;

extern "C" __attribute__((weak)) WizardBooleanType GetXMLTreeAttributes(const XMLTreeInfo *, SplayTreeInfo *);  // exported but not declared

static char *exact(const std::string &s) { char *p = (char *)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); return p; }

static void walk(XMLTreeInfo *n, size_t &budget, XMLTreeInfo *root) {
  for (XMLTreeInfo *c = GetXMLTreeChild(n, nullptr); c && budget; c = GetXMLTreeOrdered(c), budget--) {
    CHECK(GetXMLTreeTag(c) && GetXMLTreeContent(c), "an element without tag or content");
    CHECK(GetXMLTreeChild(n, GetXMLTreeTag(c)), "child %s is not found by its tag", quote(GetXMLTreeTag(c)).c_str());
    (void)GetXMLTreeAttribute(c, "x");
    (void)GetXMLTreeAttribute(c, "c");
    (void)GetXMLTreeProcessingInstructions(c, "pi");
    XMLTreeInfo *t = GetNextXMLTreeTag(c);
    if (t) CHECK(!strcmp(GetXMLTreeTag(t), GetXMLTreeTag(c)), "next element has another tag");
    SplayTreeInfo *at = NewSplayTree(CompareSplayTreeString, RelinquishWizardMemory, RelinquishWizardMemory);
    if (GetXMLTreeAttributes) GetXMLTreeAttributes(c, at);
    DestroySplayTree(at);
    walk(c, budget, root);
  }
}

static void parse(Src &src, const std::string &t) {
  char *e = exact(t);
  Exc ex;
  XMLTreeInfo *x = NewXMLTree(e, ex);
  CHECK(t == e, "the text was changed");
  bool bad = GetExceptionSeverity(ex) != UndefinedException;
  src.label(x ? bad ? "tree+error" : "tree" : "refused");
  CHECK(x || bad, "no tree and no error");
  if (x && GetXMLTreeTag(x)) {
    size_t budget = 5000;
    walk(x, budget, x);
    if (!bad && GetXMLTreeChild(x, nullptr)) src.nontrivial();
    char *out = XMLTreeInfoToXML(x);
    CHECK(out && *out == '<', "the tree is written as %s", out ? quote(out).c_str() : "nothing");
    RelinquishWizardMemory(out);
    XMLTreeInfo *c = GetXMLTreeChild(x, nullptr);
    if (c) {
      out = XMLTreeInfoToXML(c);
      CHECK(out && *out == '<', "an element is written as %s", out ? quote(out).c_str() : "nothing");
      RelinquishWizardMemory(out);
    }
    (void)GetXMLTreePath(x, src.of<const char *>({"a", "a/b", "b[2]", "/", "", "a//b", "b[99999]", "a:b", "b.c"}));
  }
  if (x) DestroyXMLTree(x);
  free(e);
}

PBT_TEST(xml_fuzz, {.quick = 1000000, .thorough = 20000000,
  .rule = "texts of up to 40 XML fragments and arbitrary bytes, parsed, walked, written out and released; non-trivial: parsed without error to a tree with child elements", .thorough_s = 400}) {
  std::string t;
  bool wrap = src.chance(1, 2), doctype = src.chance(1, 3);
  if (doctype) {
    t += "<!DOCTYPE a [";
    for (size_t n = src.size(10); n; n--) t += DICT[src.pick(DICT.size())];
    if (!src.chance(1, 10)) t += "]>";
  }
  if (wrap) t += "<a>";
  for (size_t n = src.size(40); n; n--)
    if (src.chance(1, 8)) t += src.cstr(6);
    else t += DICT[src.pick(DICT.size())];
  if (wrap) t += "</a>";
  src.note("%s", quote(t, 300).c_str());
  parse(src, t);
}

PBT_TEST(xml_mutate, {.quick = 600000, .thorough = 12000000,
  .rule = "well-formed documents with 1-6 random damages (bytes changed, removed, repeated, cut); non-trivial: parsed without error to a tree with child elements", .thorough_s = 400}) {
  std::string t;
  if (src.chance(1, 2)) t += "<?xml version=\"1.0\"?>\n";
  if (src.chance(1, 2)) t += "<!DOCTYPE a [<!ENTITY e 'v&amp;w'><!ENTITY long-name \"text of the entity\"><!ENTITY % p 'q'><!ATTLIST b c CDATA 'dflt' d (x|y) 'x'><!-- n --><?pi in?>]>";
  t += "<a>";
  size_t depth = 0, n = 1 + src.size(12);
  for (size_t i = 0; i < n; i++) {
    switch (src.pick(7)) {
      case 0: t += "<b c='1'>"; depth++; break;
      case 1: if (depth) { t += "</b>"; depth--; } break;
      case 2: t += "<d e=\"&e;&#x41;\"/>"; break;
      case 3: t += "text &e; &long-name; &#233;"; break;
      case 4: t += "<![CDATA[<x>&amp;]]>"; break;
      case 5: t += "<!-- comment -->"; break;
      default: t += "<?pi some data?>";
    }
  }
  while (depth--) t += "</b>";
  t += "</a>";
  if (src.chance(1, 3)) t += "\n<?pi tail?>\n";
  for (size_t k = 1 + src.size(5); k && !t.empty(); k--) {
    size_t i = src.pick(t.size());
    switch (src.pick(5)) {
      case 0: t[i] = (char)src.range(1, 255); break;
      case 1: t.erase(i, 1 + src.size(6)); break;
      case 2: t.insert(i, t.substr(src.pick(t.size()), 1 + src.size(20))); break;
      case 3: t.insert(i, DICT[src.pick(DICT.size())]); break;
      default: if (src.chance(1, 3)) t.resize(i); else t[i] = src.of<char>({'<', '>', '&', ';', '"', '\'', '/', '[', ']', ' '});
    }
  }
  if (src.chance(1, 30)) {  // as UTF-16
    bool be = src.chance(1, 2);
    std::string u = be ? "\xfe\xff" : "\xff\xfe";
    for (char c : t) { char hi = (char)src.range(1, 255); u += be ? std::string{hi, c} : std::string{c, hi}; }
    t = u;
  }
  src.note("%s", quote(t, 400).c_str());
  parse(src, t);
}

PBT_TEST(xml_escape, {.quick = 150000, .thorough = 3000000,
  .rule = "arbitrary content escaped as XML content; legal content reads back through a parse; non-trivial: content holds a character that must be escaped"}) {
  std::string s = src.chance(1, 2) ? src.cstr(40) : src.text(src.size(30), "<>&\"'\n\t a;#xamplt]");
  if (src.chance(1, 1000)) s += std::string(src.range(4000, 9000), src.of<char>({'&', 'a', '\xe9'}));
  char *e = exact(s);
  bool ped = src.chance(1, 2), control = false;
  char *c = CanonicalXMLContent(e, ped ? WizardTrue : WizardFalse);
  free(e);
  CHECK(c, "no canonical content");
  for (unsigned char x : s) control |= x < 32 && x != 9 && x != 10 && x != 13;
  std::string t = std::string("<r>") + c + "</r>", w;
  DestroyString(c);
  for (unsigned char x : s)
    if (x < 0x80) w += x;
    else { w += (char)(0xc0 | x >> 6); w += (char)(0x80 | (x & 0x3f)); }
  src.note("%s", quote(s, 60).c_str());
  e = exact(t);
  Exc ex;
  XMLTreeInfo *x = NewXMLTree(e, ex);
  free(e);
  CHECK(x && GetExceptionSeverity(ex) == UndefinedException, "the escaped content %s does not parse", quote(t, 100).c_str());
  if (!control) CHECK(w == GetXMLTreeContent(x), "content %s reads back as %s", quote(w, 60).c_str(), quote(GetXMLTreeContent(x), 60).c_str());
  else {
    XMLTreeInfo *b = GetXMLTreeChild(x, "base64");
    CHECK(b, "control characters are not encoded");
    size_t n = 0;
    unsigned char *d = Base64Decode(GetXMLTreeContent(b), &n);
    CHECK(d && w == std::string((char *)d, n), "content %s reads back differently", quote(w, 60).c_str());
    RelinquishWizardMemory(d);
  }
  DestroyXMLTree(x);
  if (s.find_first_of("<>&\"") != s.npos) src.nontrivial();
}
