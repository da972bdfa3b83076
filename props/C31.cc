// C31: path components reassemble to the path they came from.
#include "wt.h"
using namespace pbt;

static std::string gen_path(Src &src, const std::string &dir) {
  if (src.chance(1, 40)) {
    std::string s = src.text(src.size(5), "ab/.");
    s.resize(src.of<size_t>({4000, 4090, 4094, 4095, 4096, 4097, 5000, 9000}) - src.size(3), src.of<char>({'a', '/', '.'}));
    return s + src.text(src.size(6), "ab/.[]");
  }
  std::string s;
  if (src.chance(1, 3)) s = src.of<std::string>({"/", "//", "./", "../", dir + "/", "~/", dir + ":", dir + "/d:", "C:", "x:y/", ":"});
  size_t n = src.size(6);
  static const std::vector<std::string> parts = {"a", "b.c", "file", "file.txt", ".", "..", ".profile", "tar.gz", "a.", "x y", "a[0]", "\xc3\xa9.d", "a?b", "c.d?e", "-", "", "archive.tar.gz", "a:b", "]", "[", "n.", "d.e.f"};
  for (size_t i = 0; i < n; i++) {
    s += src.chance(2, 3) ? src.of<std::string>(parts) : src.text(src.size(6), "ab./:[]? ");
    if (i + 1 < n || src.chance(1, 5)) s += src.chance(1, 12) ? "//" : "/";
  }
  if (src.chance(1, 8)) s += src.of<std::string>({"[0]", "[1-3]", "[]", "[a/b]", "]", "[x][y]", "[.]"});
  return s;
}
// the component of a path, in memory of exactly the documented size
static std::string part(const std::string &path, PathType type) {
  std::vector<char> in(path.begin(), path.end()), out(WizardPathExtent, 'Z');
  in.push_back(0);
  char *c = (char *)malloc(WizardPathExtent);
  memset(c, '.', WizardPathExtent);
  GetPathComponent(in.data(), type, c);
  CHECK(memchr(c, 0, WizardPathExtent), "component %d of a path of %zu bytes is not terminated", (int)type, path.size());
  std::string s = c;
  free(c);
  return s;
}

PBT_TEST(components, {.quick = 400000, .thorough = 6000000,
  .rule = "paths of up to 6 parts with dots, dot files, empty parts, trailing and repeated separators, sub-node suffixes, colons before existing and missing directories, and paths at and beyond the size limit; non-trivial: the path has a separator or a period"}) {
  std::string dir = fresh_dir();
  std::string path = gen_path(src, dir);
  src.note("%s", quote(path.substr(0, 200)).c_str());
  if (path.find('/') != path.npos || path.find('.') != path.npos) src.nontrivial();
  std::string fs = part(path, FilesystemPath), sub = part(path, SubnodePath), head = part(path, HeadPath), tail = part(path, TailPath), root = part(path, RootPath), base = part(path, BasePath), ext = part(path, ExtensionPath);
  if (path.size() >= WizardPathExtent) {
    for (auto &x : {fs, sub, head, tail, root, base, ext}) CHECK(x.size() < WizardPathExtent, "component longer than the limit");
    std::string cut = path.substr(0, WizardPathExtent - 1);
    if (path.find(':') == path.npos) CHECK(head == part(cut, HeadPath) && tail == part(cut, TailPath) && root == part(cut, RootPath) && ext == part(cut, ExtensionPath) && base == part(cut, BasePath), "an overlong path is not treated as its first %d bytes", WizardPathExtent - 1);
    src.label("overlong");
    return;
  }
  // what belongs to the file system or names a node within the file is apart from the others
  std::string p = path, want_fs, want_sub;
  struct stat st;
  size_t colon = p.find(':');
  if (colon != p.npos && stat(p.c_str(), &st) != 0 && colon > 0 && stat(p.substr(0, colon).c_str(), &st) == 0) {
    want_fs = p.substr(0, colon);
    p = p.substr(colon + 1);
  }
  if (!p.empty() && p.back() == ']') {
    size_t b = p.rfind('[');
    if (b != p.npos) { want_sub = p.substr(b + 1, p.size() - b - 2); p.resize(b); }
  }
  CHECK(fs == want_fs, "the file system of the path is '%s', not '%s'", fs.c_str(), want_fs.c_str());
  CHECK(sub == want_sub, "the sub-node is '%s', not '%s'", sub.c_str(), want_sub.c_str());
  size_t sep = p.rfind('/');
  std::string want_head = sep == p.npos ? "" : p.substr(0, sep), want_tail = sep == p.npos ? p : p.substr(sep + 1);
  CHECK(head == want_head, "head '%s', not '%s'", head.c_str(), want_head.c_str());
  CHECK(tail == want_tail, "tail '%s', not '%s'", tail.c_str(), want_tail.c_str());
  if (sep != p.npos) CHECK(head + "/" + tail == p, "head and tail do not give the path");
  size_t dot = want_tail.rfind('.');
  if (dot == want_tail.npos) {
    CHECK(root == p, "root '%s' of a path without extension", root.c_str());
    CHECK(ext.empty(), "extension '%s' of a path without one", ext.c_str());
    CHECK(base == want_tail, "base name '%s', not '%s'", base.c_str(), want_tail.c_str());
  } else if (dot > 0) {
    std::string want_ext = want_tail.substr(dot + 1);
    CHECK(root == p.substr(0, p.size() - want_ext.size() - 1), "root '%s'", root.c_str());
    CHECK(base == want_tail.substr(0, dot), "base name '%s', not '%s'", base.c_str(), want_tail.substr(0, dot).c_str());
    CHECK(ext == want_ext.substr(0, want_ext.find('?')), "extension '%s', not '%s'", ext.c_str(), want_ext.c_str());
    src.label("extension");
  } else src.label("dot file");
}

PBT_TEST(changes, {.quick = 400000, .thorough = 6000000,
  .rule = "extensions appended or replaced and trailing components chopped, in place, for the same paths: only that part changes and the result fits; splitting and joining gives the path back; non-trivial: the path has a separator or a period"}) {
  std::string path = gen_path(src, "/nowhere");
  for (char &c : path) if (c == ':') c = '_';
  src.note("%s", quote(path.substr(0, 200)).c_str());
  if (path.find('/') != path.npos || path.find('.') != path.npos) src.nontrivial();
  if (src.chance(1, 3)) {
    size_t n = 0;
    char **c = GetPathComponents(path.c_str(), &n);
    CHECK(c && n >= 1, "no components");
    std::string joined;
    for (size_t i = 0; i < n; i++) {
      CHECK(!strchr(c[i], '/'), "a component with a separator");
      joined += (i ? "/" : "") + std::string(c[i]);
      c[i] = DestroyString(c[i]);
    }
    CHECK(!c[n], "the components are not terminated");
    RelinquishWizardMemory(c);
    CHECK(joined == path, "the components give %s", quote(joined).c_str());
  }
  if (path.size() >= WizardPathExtent) path.resize(WizardPathExtent - 1);
  std::string p = path;
  if (!p.empty() && p.back() == ']' && p.rfind('[') != p.npos) p.resize(p.rfind('['));
  char *buf = (char *)malloc(WizardPathExtent);
  if (src.chance(1, 2)) {
    strcpy(buf, path.c_str());
    size_t n = src.size(5);
    std::string want = path;
    for (size_t i = 0; i < n; i++) {
      if (!want.empty() && want.back() == ']' && want.rfind('[') != want.npos) want.resize(want.rfind('['));
      size_t sep = want.rfind('/');
      want.resize(sep == want.npos ? 0 : sep);
    }
    ChopPathComponents(buf, n);
    CHECK(want == buf, "chopping %zu components leaves '%s', not '%s'", n, buf, want.c_str());
  } else {
    strcpy(buf, path.c_str());
    std::string ext = src.text(src.chance(1, 30) ? 4096 : src.size(5), "abz");
    AppendFileExtension(ext.c_str(), buf);
    CHECK(strlen(buf) < WizardPathExtent, "overlong result");
    size_t sep = p.rfind('/'), dot = p.rfind('.');
    bool dotted = dot != p.npos && (sep == p.npos || dot > sep), dotfile = dotted && dot == (sep == p.npos ? 0 : sep + 1);
    std::string want = (dotted ? p.substr(0, dot) : p) + "." + ext;
    if (want.size() >= WizardPathExtent) want.resize(WizardPathExtent - 1);
    if (ext.empty() || path.empty()) want = path;
    if (!dotfile) CHECK(want == buf, "with the extension '%s': '%s', not '%s'", ext.substr(0, 20).c_str(), buf, want.c_str());
  }
  free(buf);
}
