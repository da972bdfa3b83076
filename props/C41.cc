// C41: configuration values and messages are those the files on the configure path define.
#include "wt.h"
#include <algorithm>
#include <locale.h>
#include <map>
#include <set>
#include <sys/stat.h>
#include <unistd.h>
extern "C" {
#include "wizard/configure.h"
#include "wizard/hashmap.h"
#include "wizard/locale_.h"
WizardBooleanType ConfigureComponentGenesis(void);
void ConfigureComponentTerminus(void);
WizardBooleanType LocaleComponentGenesis(void);
void LocaleComponentTerminus(void);
}
using namespace pbt;
static std::string lower(std::string s) { for (char &c : s) c = (char)tolower((unsigned char)c); return s; }
static std::string escape(const std::string &s, char quote) {
  std::string r;
  for (char c : s) r += c == '<' ? std::string("&lt;") : c == '&' ? std::string("&amp;") : c == '>' ? std::string("&gt;") : c == quote ? std::string(c == '"' ? "&quot;" : "&apos;") : std::string(1, c);
  return r;
}
static bool glob(const char *t, const char *p) {
  if (!*p) return !*t;
  if (*p == '*') return glob(t, p + 1) || (*t && glob(t + 1, p));
  return *t && (*p == '?' || *p == *t) && glob(t + 1, p + 1);
}
// directories in the order they are searched
struct Place { std::string dir; int how; };
struct Env {
  std::string keep;
  std::vector<Place> places;
  std::string home, xdg;
  Env(Src &src, const std::string &dir) {
    keep = getenv("HOME") ? getenv("HOME") : "";
    std::string list;
    size_t n = src.pick(4);
    for (size_t i = 0; i < n; i++) {
      std::string d = dir + "/" + src.of<std::string>({"d", "conf dir ", "e."}) + std::to_string(i);
      mkdir(d.c_str(), 0700);
      list += (i ? ":" : "") + d + (src.chance(1, 3) ? "/" : "");
      places.push_back({d, 0});
    }
    if (n) setenv("WIZARD_CONFIGURE_PATH", list.c_str(), 1); else unsetenv("WIZARD_CONFIGURE_PATH");
    for (const char *v : {"XDG_CONFIG_HOME", "LOCALAPPDATA", "APPDATA", "USERPROFILE"}) unsetenv(v);
    if (src.chance(1, 3)) {
      xdg = dir + "/xdg";
      setenv("XDG_CONFIG_HOME", xdg.c_str(), 1);
      mkdir(xdg.c_str(), 0700);
      mkdir((xdg + "/WizardsToolkit").c_str(), 0700);
      places.push_back({xdg + "/WizardsToolkit", 1});
    }
    home = dir + "/home";
    setenv("HOME", home.c_str(), 1);
    mkdir(home.c_str(), 0700);
    mkdir((home + "/.config").c_str(), 0700);
    mkdir((home + "/.config/WizardsToolkit").c_str(), 0700);
    places.push_back({home + "/.config/WizardsToolkit", 2});
  }
  ~Env() {
    setenv("HOME", keep.c_str(), 1);
    setenv("WIZARD_CONFIGURE_PATH", (std::string(repo()) + "/config").c_str(), 1);
    unsetenv("XDG_CONFIG_HOME");
  }
};
struct Entry { std::string path, name, value; bool stealth, has_value; };
static const std::vector<std::string> kNames = {"A", "a", "Bb", "bB", "CC", "NAME", "x.y", "long-name_12", "q z", "VERSION", "NAM", "NAMES", "VER", "VERSION-2", "AB", "C", "x"};
static std::string space(Src &src) { return src.of<std::string>({"", " ", "\n", "\n  ", "\t"}); }
// writes a configuration file; its entries are appended to all in the order they count
static void gen_configure(Src &src, const std::string &path, std::vector<Entry> &all, int depth, int &serial) {
  std::string s = src.chance(3, 4) ? "<?xml version=\"1.0\"?>\n" : "";
  if (src.chance(1, 8)) s += "<!DOCTYPE configuremap [<!ELEMENT configuremap (configure)+>]>\n";
  s += "<configuremap>" + space(src);
  std::vector<Entry> own;
  size_t n = src.size(6);
  std::string dir = path.substr(0, path.rfind('/'));
  for (size_t i = 0; i < n; i++) {
    switch (src.weighted({12, 2, 1, 1, 1})) {
      case 0: {
        Entry e{path, src.of(kNames), "", false, src.chance(9, 10)};
        e.value = src.text(src.size(12), "abc 019<>&'\"/=.-");
        char q = src.chance(1, 2) ? '"' : '\'';
        std::string Q(1, q), st;
        if (src.chance(1, 5)) { auto w = src.of<std::string>({"true", "True", "yes", "1", "on", "false", "no", "0", "maybe"}); e.stealth = w == "true" || w == "True" || w == "yes" || w == "1" || w == "on"; st = " stealth=" + Q + w + Q; }
        // white space within an attribute is kept as blanks
        std::string na = " name=" + Q + escape(e.name, q) + Q, va = e.has_value ? " value=" + Q + escape(e.value, q) + Q : "";
        s += "<configure" + (src.chance(1, 2) ? na + va + st : st + va + na) + (src.chance(1, 4) ? " >text</configure>" : "/>") + space(src);
        own.push_back(e);
        break;
      }
      case 1:
        if (depth < 2) {
          std::string name = fmt("inc%d.xml", serial++);
          s += "<include file=\"" + name + "\"/>" + space(src);
          if (src.chance(4, 5)) gen_configure(src, dir + "/" + name, all, depth + 1, serial);  // what is included counts first
        }
        break;
      case 2: s += "<!-- <configure name=\"CC\" value=\"comment\"/> -->" + space(src); break;
      case 3: s += "<other name=\"CC\" value=\"other\"><configure name=\"CC\" value=\"inner\"/></other>"; break;
      default: s += "<configure value=\"nameless\"/>"; break;
    }
  }
  s += "</configuremap>" + space(src);
  all.insert(all.end(), own.begin(), own.end());
  write_file(path, s);
}
static void fresh() { ConfigureComponentTerminus(); LocaleComponentTerminus(); ConfigureComponentGenesis(); LocaleComponentGenesis(); }

PBT_TEST(configure, {.quick = 25000, .thorough = 500000,
  .rule = "configuration files with includes, hidden, repeated and nameless entries in up to six directories of the search path, then a history of lookups, lists and listings against a model; non-trivial: an entry defined twice or an include"}) {
  std::string dir = fresh_dir();
  Env env(src, dir);
  std::vector<Entry> all{{"[built-in]", "NAME", "ImageMagick", false, true}};
  int serial = 0;
  for (auto &p : env.places) if (src.chance(2, 3)) gen_configure(src, p.dir + "/configure.xml", all, 0, serial);
  std::map<std::string, const Entry *> first;
  bool twice = serial > 0;
  for (auto &e : all) if (!first.emplace(lower(e.name), &e).second) twice = true;
  if (twice) src.nontrivial();
  fresh();
  Exc e;
  size_t steps = 1 + src.pick(8);
  for (size_t i = 0; i < steps; i++) {
    switch (src.weighted({6, 2, 2, 1})) {
      case 0: {
        std::string name = src.chance(1, 8) ? "none" : src.of(kNames);
        if (src.chance(1, 4)) name = lower(name);
        const ConfigureInfo *c = GetConfigureInfo(name.c_str(), e);
        auto f = first.find(lower(name));
        if (f == first.end()) { CHECK(!c, "an entry %s is found", name.c_str()); break; }
        CHECK(c, "no entry %s is found", name.c_str());
        const char *v = GetConfigureValue(c);
        CHECK(!!v == f->second->has_value && (!v || v == f->second->value), "%s has the value %s, not %s of %s", name.c_str(), v ? quote(v).c_str() : "none", f->second->has_value ? quote(f->second->value).c_str() : "none", f->second->path.c_str() + (f->second->path[0] == '/' ? dir.size() : 0));
        break;
      }
      case 1: case 2: {
        std::string pattern = src.of<std::string>({"*", "A", "?", "*b", "N*", "*_*", "none", "?*?"});
        std::multiset<std::string> want, got;
        size_t n = 999;
        if (src.chance(1, 2)) {
          for (auto &x : all) if (!x.stealth && glob(x.name.c_str(), pattern.c_str())) want.insert(x.name);
          char **list = GetConfigureList(pattern.c_str(), &n, e);
          CHECK(list, "no list for %s", pattern.c_str());
          for (size_t k = 0; k < n; k++) {
            got.insert(list[k]);
            CHECK(!k || strcasecmp(list[k - 1], list[k]) <= 0, "%s is listed before %s", list[k - 1], list[k]);
          }
          CHECK(!list[n], "the list does not end");
          for (size_t k = 0; k < n; k++) RelinquishWizardMemory(list[k]);
          RelinquishWizardMemory(list);
        } else {
          for (auto &x : all) if (!x.stealth && glob(x.name.c_str(), pattern.c_str())) want.insert(x.path + "|" + x.name + "|" + (x.has_value ? x.value : "-none-"));
          const ConfigureInfo **list = GetConfigureInfoList(pattern.c_str(), &n, e);
          CHECK(list, "no list for %s", pattern.c_str());
          for (size_t k = 0; k < n; k++) {
            got.insert(std::string(list[k]->path) + "|" + list[k]->name + "|" + (GetConfigureValue(list[k]) ? GetConfigureValue(list[k]) : "-none-"));
            if (k) { int c = strcasecmp(list[k - 1]->path, list[k]->path); CHECK(c < 0 || (c == 0 && strcasecmp(list[k - 1]->name, list[k]->name) <= 0), "%s of %s is listed before %s of %s", list[k - 1]->name, list[k - 1]->path, list[k]->name, list[k]->path); }
          }
          CHECK(!list[n], "the list does not end");
          RelinquishWizardMemory((void *)list);
        }
        CHECK(got == want, "%zu entries are listed for %s, not %zu", got.size(), pattern.c_str(), want.size());
        break;
      }
      default: {
        std::string path = dir + "/listing";
        FILE *f = fopen(path.c_str(), "w");
        CHECK(f && ListConfigureInfo(f, e), "no listing");
        fclose(f);
        Bytes b = read_file(path);
        std::multiset<std::string> want, got;
        std::string at, line;
        for (auto &x : all) if (!x.stealth) { std::string n = x.name; while (n.size() < 13) n += ' '; want.insert(x.path + "|" + n + " " + (x.has_value ? x.value : "unknown")); }
        std::set<std::string> groups;
        for (unsigned char c : b) {
          if (c != '\n') { line += (char)c; continue; }
          if (line.compare(0, 6, "Path: ") == 0) { at = line.substr(6); CHECK(groups.insert(at).second, "the path %s is listed twice", at.c_str()); }
          else if (!line.empty() && line.compare(0, 10, "Name      ") != 0 && line.compare(0, 10, "----------") != 0) got.insert(at + "|" + line);
          else if (line.compare(0, 4, "Name") == 0 && line != "Name          Value") got.insert(at + "|" + line);
          line.clear();
        }
        CHECK(got == want, "the listing holds %zu entries, not %zu", got.size(), want.size());
      }
    }
  }
}

// messages
typedef std::map<std::string, std::pair<std::set<std::string>, std::string>> Messages;  // by tag in lower case: what it may say, and the tag
struct Locale {
  Src &src;
  std::string locale;
  Messages all;
  int serial = 0;
  std::map<std::string, std::string> listed;  // tag to path, where defined once
  void add(const std::string &path, const std::string &tag, const std::string &text) {
    auto &m = all[lower(tag)];
    m.first.insert(text);
    m.second = tag;
    (void)path;
  }
  std::string body(const std::string &path, const std::string &prefix, int depth, bool counts) {
    std::string s;
    size_t n = src.size(4);
    for (size_t i = 0; i < n; i++) {
      s += src.of<std::string>({"", "\n", "  ", "\n    "});
      if (depth < 3 && src.chance(1, 3)) {
        std::string name = src.of<std::string>({"Blob", "Error", "Warning", "cache", "X1"});
        s += "<" + name + ">" + body(path, prefix + name + "/", depth + 1, counts) + "</" + name + ">";
      } else if (src.chance(1, 10)) {
        s += "<!-- nothing here -->";
      } else if (prefix.size()) {
        std::string name = src.of<std::string>({"UnableToOpen", "NoData", "a", "bad-name", "Z9"}) + (src.chance(1, 2) ? std::to_string(serial++) : "");
        std::string text = src.chance(1, 30) ? src.text(src.range(250, 300), "abc d") : src.text(src.size(30), "abc /.,`'%s:!()\"-");
        size_t a = text.find_first_not_of(" "), z = text.find_last_not_of(" ");
        std::string want = a == text.npos ? "" : text.substr(a, z - a + 1).substr(0, 255);
        s += "<message name=\"" + name + "\">" + src.of<std::string>({"", " ", "\n      "}) + text + src.of<std::string>({"", " ", "\n    "}) + "</message>";
        if (counts) add(path, prefix + name + "/", want);
      }
    }
    return s + src.of<std::string>({"", "\n"});
  }
  void file(const std::string &path, int depth, bool counts) {
    std::string s = "<?xml version=\"1.0\"?>\n", dir = path.substr(0, path.rfind('/'));
    if (src.chance(1, 6)) s += "<!DOCTYPE localemap [<!ELEMENT localemap (include)+>]>\n";
    s += "<localemap>\n";
    size_t n = depth < 2 ? src.size(3) : 0;
    for (size_t i = 0; i < n; i++) {
      std::string name = fmt("loc%d.xml", serial++), l = src.chance(2, 3) ? locale : src.of<std::string>({"fr", "C.x", "de_DE"});
      s += "  <include locale=\"" + l + "\" file=\"" + name + "\"/>\n";
      if (src.chance(5, 6)) file(dir + "/" + name, depth + 1, counts && l == locale);
    }
    if (src.chance(5, 6)) s += "<locale name=\"" + locale + "\">" + body(path, "", 0, counts) + "</locale>\n";
    s += "</localemap>\n";
    write_file(path, s);
  }
};
PBT_TEST(messages, {.quick = 25000, .thorough = 500000,
  .rule = "locale files with includes for several locales and messages in nested sections in up to six directories of the search path, then lookups and lists against a model; non-trivial: three messages or more"}) {
  std::string dir = fresh_dir();
  Env env(src, dir);
  Locale l{src, src.chance(1, 4) ? "C.UTF-8" : "C", {}, 0, {}};
  struct Back { ~Back() { setlocale(LC_CTYPE, "C"); } } back;
  CHECK(setlocale(LC_CTYPE, l.locale.c_str()), "no locale %s", l.locale.c_str());
  bool english = src.chance(1, 4);
  for (auto &p : env.places) if (src.chance(2, 3)) l.file(p.dir + (english ? "/english.xml" : "/locale.xml"), 0, true);
  bool only = l.all.empty();  // then there is nothing but the built-in map
  if (l.all.size() >= 3) src.nontrivial();
  fresh();
  Exc e;
  size_t steps = 1 + src.pick(8);
  for (size_t i = 0; i < steps; i++) {
    if (src.chance(2, 3)) {
      std::string tag;
      if (!l.all.empty() && src.chance(5, 6)) { auto it = l.all.begin(); std::advance(it, src.pick(l.all.size())); tag = it->second.second; tag.pop_back(); }
      else tag = src.of<std::string>({"Blob/Error/None", "x", "a/b/c/d", "Blob"});
      auto f = l.all.find(lower(tag + "/"));
      std::string m = GetLocaleMessage(tag.c_str());
      if (f == l.all.end()) CHECK(m == tag, "the unknown %s says %s", tag.c_str(), quote(m).c_str());
      else CHECK(f->second.first.count(m), "%s says %s, not %s", tag.c_str(), quote(m).c_str(), quote(*f->second.first.begin()).c_str());
    } else if (!only) {
      std::string pattern = src.of<std::string>({"*", "*a*", "blob/*", "?*"});
      std::set<std::string> want, got;
      for (auto &x : l.all) if (glob(x.first.c_str(), pattern.c_str())) want.insert(x.first);
      size_t n = 0;
      std::string last, path;
      if (src.chance(1, 2)) {
        char **list = GetLocaleList(pattern.c_str(), &n, e);
        CHECK(list, "no list of messages");
        for (size_t k = 0; k < n; k++) {
          CHECK(got.insert(lower(list[k])).second, "%s is listed twice", list[k]);
          CHECK(last <= lower(list[k]), "%s is listed before %s", last.c_str(), list[k]);
          last = lower(list[k]);
          RelinquishWizardMemory(list[k]);
        }
        CHECK(!list[n], "the list does not end");
        RelinquishWizardMemory(list);
      } else {
        const LocaleInfo **list = GetLocaleInfoList(pattern.c_str(), &n, e);
        CHECK(list, "no list of messages");
        for (size_t k = 0; k < n; k++) {
          std::string tag = lower(list[k]->tag), p = lower(list[k]->path);
          CHECK(got.insert(tag).second, "%s is listed twice", tag.c_str());
          CHECK(path < p || (path == p && last <= tag), "%s is listed before %s", last.c_str(), tag.c_str());
          const char *m = list[k]->message;
          CHECK(m && (!l.all.count(tag) || l.all[tag].first.count(m)), "%s is listed as %s", tag.c_str(), m ? quote(m).c_str() : "none");
          path = p; last = tag;
        }
        CHECK(!list[n], "the list does not end");
        RelinquishWizardMemory((void *)list);
      }
      CHECK(got == want, "%zu messages are listed for %s, not %zu", got.size(), pattern.c_str(), want.size());
    }
  }
}
// arbitrary files
PBT_TEST(damaged, {.quick = 25000, .thorough = 500000,
  .rule = "damaged configuration and locale files: reading, looking up and listing them ends without a memory error; non-trivial: damaged in two places or more"}) {
  std::string dir = fresh_dir();
  Env env(src, dir);
  std::vector<Entry> all;
  int serial = 0;
  Locale l{src, "C", {}, 0, {}};
  std::string d = env.places.back().dir;
  gen_configure(src, d + "/configure.xml", all, 2, serial);
  l.file(d + "/locale.xml", 2, true);
  for (const char *name : {"/configure.xml", "/locale.xml"}) {
    Bytes b = read_file(d + name);
    size_t n = src.size(6);
    if (n >= 2) src.nontrivial();
    for (size_t i = 0; i < n && !b.empty(); i++) {
      size_t at = src.pick(b.size());
      switch (src.pick(6)) {
        case 0: b[at] = src.of<uint8_t>({'<', '>', '/', '"', '&', 0, ' ', '!', '-', '\'', '\n', '='}); break;
        case 1: b.resize(at); break;
        case 2: b.erase(b.begin() + at, b.begin() + std::min(b.size(), at + 1 + src.pick(20))); break;
        case 3: { Bytes c(b.begin() + at, b.begin() + std::min(b.size(), at + 1 + src.pick(60))); b.insert(b.begin() + src.pick(b.size()), c.begin(), c.end()); break; }
        case 4: { std::string t = src.of<std::string>({"<include file=\"configure.xml\"/>", "<include locale=\"C\" file=\"locale.xml\"/>", "<message name=\"", "<!--", "<![CDATA[", "<!DOCTYPE [", "</locale>", "<", "<?", "</", "<message name=\"x\">", "</message>", "<configure/>"}); if (t[1] == 'i' && std::string((char *)b.data(), b.size()).find("<include") != std::string::npos) break; b.insert(b.begin() + at, t.begin(), t.end()); break; }
        default: { Bytes t = src.blob(src.range(1, 300)); b.insert(b.begin() + at, t.begin(), t.end()); }
      }
    }
    size_t includes = 0;  // a file that includes itself several times takes forever to read
    for (size_t i = 0; i + 5 < b.size(); i++) if (!strncasecmp((const char *)&b[i], "e.xml", 5) && ++includes > 1) b[i] = 'x';
    write_file(d + name, b);
  }
  fresh();
  Exc e;
  size_t n = 0;
  for (auto *name : {"CC", "none", "a"}) { const ConfigureInfo *c = GetConfigureInfo(name, e); if (c) GetConfigureValue(c); }
  const ConfigureInfo **c = GetConfigureInfoList("*", &n, e);
  if (c) RelinquishWizardMemory((void *)c);
  FILE *f = fopen((dir + "/listing").c_str(), "w");
  if (f) { ListConfigureInfo(f, e); ListLocaleInfo(f, e); fclose(f); }
  for (auto *tag : {"Blob/Error/NoData", "x"}) CHECK(GetLocaleMessage(tag), "no message");
  char **m = GetLocaleList("*", &n, e);
  if (m) { for (size_t k = 0; k < n; k++) RelinquishWizardMemory(m[k]); RelinquishWizardMemory(m); }
}
