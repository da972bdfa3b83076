// C40: log events are written once when enabled and never when disabled.
#include "wt.h"
#include <algorithm>
#include <dlfcn.h>
#include <errno.h>
#include <map>
#include <memory>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
extern "C" {
#include "wizard/client.h"
#include "wizard/log.h"
#include "wizard/option.h"
#include "wizard/version.h"
const char *SetLogName(const char *);
const char *GetLogName(void);
}
using namespace pbt;

// A damaged configuration may name any file, so files are created in the scratch directory only.
static std::string allowed;
static bool confined = false;
static unsigned opened_for_writing = 0;
extern "C" FILE *fopen(const char *path, const char *mode) {
  static FILE *(*real)(const char *, const char *) = (FILE * (*)(const char *, const char *)) dlsym(RTLD_NEXT, "fopen64");
  if (confined && (strchr(mode, 'a') || strchr(mode, 'w'))) {
    opened_for_writing++;
    if (strncmp(path, allowed.c_str(), allowed.size()) || strstr(path, "..")) { errno = EACCES; return nullptr; }
  }
  return real(path, mode);
}
extern "C" FILE *fopen64(const char *path, const char *mode) { return fopen(path, mode); }

static const struct { const char *name; int mask; } kEvents[] = {
  {"All", 0x7ffffffe}, {"Blob", 4}, {"Deprecate", 0x40}, {"Configure", 0x20}, {"Exception", 0x80}, {"Locale", 0x100}, {"None", 0}, {"Resource", 0x400}, {"Trace", 1}, {"User", 0x2000}, {"Warning", 0x1000}};
static std::string gen_mask(Src &src, int &mask) {
  std::string s;
  mask = 0;
  size_t n = 1 + src.size(3);
  for (size_t i = 0; i < n; i++) {
    auto &e = kEvents[src.pick(sizeof kEvents / sizeof *kEvents)];
    std::string name = e.name;
    if (src.chance(1, 4)) for (char &c : name) c = (char)tolower(c);
    s += (i ? "," : "") + name;
    mask |= e.mask;
  }
  return s;
}
static std::string domain_of(int type) {
  for (auto &e : kEvents) if (e.mask == type) return e.name;
  return WizardOptionToMnemonic(WizardLogEventOptions, type);
}

// what an event must look like: literal text, or a number or time whose value is not ours to say
struct Piece { enum { Text, Real, Wall, User, Thread } kind; std::string text; };
typedef std::vector<Piece> Pieces;
static void lit(Pieces &p, const std::string &s) { if (!p.empty() && p.back().kind == Piece::Text) p.back().text += s; else p.push_back({Piece::Text, s}); }
static bool shape(const std::string &t, int kind) {
  auto digits = [&](size_t i, size_t n) { for (size_t k = 0; k < n; k++) if (i + k >= t.size() || !isdigit((unsigned char)t[i + k])) return false; return true; };
  size_t i = 0;
  switch (kind) {
    case Piece::Thread: return !t.empty() && t.size() < 25 && t.find_first_not_of("0123456789e+") == std::string::npos;
    case Piece::Real: { while (i < t.size() && isdigit((unsigned char)t[i])) i++; return i && i + 6 <= t.size() && t.size() <= i + 7 && t[i] == ':' && digits(i + 1, 2) && t[i + 3] == '.' && digits(i + 4, t.size() - i - 4); }
    case Piece::User: { while (i < t.size() && isdigit((unsigned char)t[i])) i++; return i && t.size() == i + 5 && t[i] == '.' && digits(i + 1, 3) && t.back() == 'u'; }
    default: return t.size() >= 19 && digits(0, 4) && t[4] == '-' && digits(5, 2) && t[7] == '-' && digits(8, 2) && t[10] == 'T' && digits(11, 2) && t[13] == ':' && t.size() <= 26;
  }
}
static bool matches(const Pieces &p, size_t i, const std::string &s, size_t at, size_t end) {
  if (i == p.size()) return at == end;
  if (p[i].kind == Piece::Text) return end - at >= p[i].text.size() && !s.compare(at, p[i].text.size(), p[i].text) && matches(p, i + 1, s, at + p[i].text.size(), end);
  for (size_t n = 1; n <= 27 && at + n <= end; n++)
    if (shape(s.substr(at, n), p[i].kind) && matches(p, i + 1, s, at + n, end)) return true;
  return false;
}
static std::string show(const Pieces &p) {
  std::string s;
  for (auto &x : p) s += x.kind == Piece::Text ? x.text : "<...>";
  return quote(s.substr(0, 300));
}
static Pieces translate(const std::string *format, int type, const std::string &module, const std::string &function, size_t line, const std::string &event) {
  Pieces out;
  if (!format) { lit(out, event); return out; }
  for (size_t i = 0; i < format->size(); i++) {
    char c = (*format)[i], d = i + 1 < format->size() ? (*format)[i + 1] : 0;
    if (c == '\\' && (d == 'n' || d == 'r')) { lit(out, d == 'n' ? "\n" : "\r"); i++; continue; }
    if (c != '%') { lit(out, std::string(1, c)); continue; }
    i++;
    switch (d) {
      case 0: break;
      case 'c': lit(out, GetClientName()); break;
      case 'd': lit(out, domain_of(type)); break;
      case 'e': lit(out, event); break;
      case 'f': lit(out, function); break;
      case 'l': lit(out, fmt("%zu", line)); break;
      case 'm': lit(out, module.substr(module.rfind('/') == std::string::npos ? 0 : module.rfind('/') + 1)); break;
      case 'n': lit(out, GetLogName()); break;
      case 'p': lit(out, fmt("%d", (int)getpid())); break;
      case 'v': lit(out, WizardLibVersionText); break;
      case '%': lit(out, "%"); break;
      case 'i': out.push_back({Piece::Thread, ""}); break;
      case 'r': out.push_back({Piece::Real, ""}); break;
      case 't': out.push_back({Piece::Wall, ""}); break;
      case 'u': out.push_back({Piece::User, ""}); break;
      default: lit(out, std::string("%") + d);
    }
  }
  return out;
}
static void append(Pieces &to, const Pieces &p) { for (auto &x : p) if (x.kind == Piece::Text) lit(to, x.text); else to.push_back(x); }

static std::string quoted(std::string s) {  // in a quoted text a backslash may need one itself
  for (size_t i = 0; (i = s.find('\\', i)) != std::string::npos; i += 2) if (i + 1 == s.size() || s[i + 1] == '\\') s.insert(i, "\\");
  return s;
}
static std::string gen_format(Src &src) {
  if (src.chance(1, 3)) return src.of<std::string>({"%t %r %u %v %d %c[%p]: %m/%f/%l/%d\\n  %e", "%e", "%d %e", "%m/%f/%l %e", "", "[%i] %e\\r"});
  static const std::vector<std::string> parts = {"%c", "%d", "%e", "%e", "%e", "%f", "%i", "%l", "%m", "%n", "%p", "%r", "%t", "%u", "%v", "%%", "\\n", "\\r", " ", "x", "%z", "\\", "/", ": ", "%", "%Q"};
  std::string s;
  size_t n = src.size(12);
  for (size_t i = 0; i < n; i++) s += parts[src.pick(parts.size())];
  return s;
}

struct Redirect {
  int saved[2] = {-1, -1};
  std::string path[2];
  Redirect(const std::string &dir) {
    for (int k = 0; k < 2; k++) {
      fflush(k ? stderr : stdout);
      path[k] = dir + (k ? "/stderr" : "/stdout");
      int fd = open(path[k].c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
      saved[k] = dup(k + 1);
      dup2(fd, k + 1);
      close(fd);
    }
  }
  void restore() {
    for (int k = 0; k < 2; k++) if (saved[k] >= 0) {
      fflush(k ? stderr : stdout);
      dup2(saved[k], k + 1);
      close(saved[k]);
      saved[k] = -1;
    }
  }
  ~Redirect() { restore(); }
};
struct Configured {  // the log as configured by files, and back again
  std::string old;
  Configured(const std::string &path) {
    const char *s = getenv("WIZARD_CONFIGURE_PATH");
    old = s ? s : "";
    LogComponentTerminus();
    setenv("WIZARD_CONFIGURE_PATH", path.c_str(), 1);
    LogComponentGenesis();
  }
  bool done = false;
  void end() {
    if (done) return;
    done = true;
    LogComponentTerminus();
    setenv("WIZARD_CONFIGURE_PATH", old.c_str(), 1);
    confined = false;
    LogComponentGenesis();
    SetLogEventMask("None");
  }
  ~Configured() { end(); }
};

PBT_TEST(histories, {.quick = 60000, .thorough = 1500000,
  .rule = "a configuration with random events, outputs (console, stdout, stderr, file or several), file name, generations, limit and format, then up to 25 events of any type with texts of up to 6000 characters, changes of mask, format and name, and closings: every output holds exactly the events in the mask at the time, in order, each translated as the format said at the time; log files hold them between the proper tags, over as many generations as configured; non-trivial: at least one event was written and one was not"}) {
  std::string dir = fresh_dir();
  allowed = dir + "/";
  int mask = 0, handlers = 0;
  std::string events = gen_mask(src, mask), output;
  static const struct { const char *name; int bit; } kOut[] = {{"console", 1}, {"stdout", 2}, {"stderr", 4}, {"file", 8}, {"none", 0}, {"debug", 0}, {"event", 0}};
  size_t outs = 1 + src.size(3);
  for (size_t i = 0; i < outs; i++) {
    auto &o = kOut[src.pick(7)];
    output += std::string(i ? src.chance(1, 4) ? ", " : "," : "") + o.name;
    handlers |= o.bit;
  }
  std::string name = src.of<std::string>({"log-%g.xml", "log.xml", "%n-%p-%g", "%c.%g%%", "x%z%g"});
  uint64_t generations = src.of<uint64_t>({0, 1, 2, 3, 1000000, ~(uint64_t)0}), limit = src.of<uint64_t>({0, 0, 1, 2000, ~(uint64_t)0});
  std::unique_ptr<std::string> format;
  if (src.chance(9, 10)) format.reset(new std::string(gen_format(src)));
  mkdir((dir + "/etc").c_str(), 0700);
  std::string split = src.of<std::string>({" />\n  <log ", " "});
  auto number = [](uint64_t v) { return v == ~(uint64_t)0 ? std::string("unlimited") : fmt("%llu", (unsigned long long)v); };
  std::string xml = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<!-- comment -->\n<logmap>\n  <log events=\"" + events + "\"" + split + "output=\"" + output + "\"" + split + "filename=\"" + dir + "/" + name + "\"" + split;
  if (generations || src.chance(1, 2)) xml += "generations=\"" + number(generations) + "\"" + split;
  if (limit || src.chance(1, 2)) xml += "limit=\"" + number(limit) + "\"" + split;
  if (format) xml += "format=\"" + quoted(*format) + "\"";
  xml += " />\n</logmap>\n";
  if (src.chance(1, 6)) xml += "<logmap>\n  <log events=\"All\" /><log output=\"stdout\" />\n</logmap>\n";  // only the first counts
  write_file(dir + "/etc/log.xml", xml);
  src.note("%s", xml.substr(58).c_str());
  SetClientName("pbt");
  SetLogName("Wizard");
  Configured conf(dir + "/etc");
  Redirect redirect(dir);
  confined = true;
  Pieces want[2];
  std::map<std::string, Pieces> files;
  std::string current;
  uint64_t generation = 0, size = 0;
  unsigned written = 0, withheld = 0;
  size_t ops = 1 + src.size(25);
  bool bulk = limit == 1 && handlers & 8 && src.chance(1, 100);  // enough to pass the limit
  if (bulk) ops = 400;
  for (size_t i = 0; i < ops; i++) {
    switch (bulk ? 0 : src.weighted({12, 3, 2, 1, 1})) {
      case 0: {
        int type = src.chance(1, 2) ? src.of<int>({0x2000, 0x1000, 4, 0x80}) : 1 << src.pick(15);
        std::string module = src.of<std::string>({"wizard/blob.c", "m.c", "/a/b/c.c", "x"}), function = src.of<std::string>({"OpenBlob", "f", ""});
        if (src.chance(1, 30)) function = std::string(src.size(2000), 'f');
        size_t line = src.chance(1, 2) ? src.size(5000) : src.u64() >> 12;
        std::string text;
        switch (bulk ? 3 : src.weighted({4, 2, 1, 0})) {
          case 0: text = fmt("event %zu", i); break;
          case 1: text = src.text(src.size(40), "ab %en<>&\\\n\"\xe9\x01"); break;
          case 2: text = src.text(src.size(60), "xyz%") + std::string(src.size(6000, {4095, 4096, 4094}), 'q'); break;
          default: text = std::string(4000, 'b');
        }
        bool wide = src.chance(1, 4);
        int number = (int)src.irange(-1000, 1000);
        std::string shown = wide ? fmt("%d:", number) + text : text;
        if (shown.size() > 4095) shown.resize(4095);
        src.note("%zu: type %x %zu characters;", i, type, text.size());
        struct stat st;
        bool full = !current.empty() && !stat(current.c_str(), &st) && limit != ~(uint64_t)0 && (uint64_t)st.st_size > limit * 1048576;
        int status = wide ? LogWizardEvent((LogEventType)type, module.c_str(), function.c_str(), line, "%d:%s", number, text.c_str())
                          : LogWizardEvent((LogEventType)type, module.c_str(), function.c_str(), line, "%s", text.c_str());
        CHECK(status == (mask != 0), "logging gives %d with mask %x", status, mask);
        if (!(mask & type)) { withheld++; break; }
        written++;
        Pieces p = translate(format.get(), type, module, function, line, shown);
        for (int k = 0; k < 2; k++)
          for (int copies = k ? !!(handlers & 1) + !!(handlers & 4) : !!(handlers & 2); copies > 0; copies--) append(want[k], p), lit(want[k], "\n");
        if (handlers & 8) {
          if (full) { lit(files[current], "</log>\n"); current.clear(); }
          if (current.empty()) {
            std::string g = fmt("%llu", generations ? (unsigned long long)(generation % generations) : 0ull);
            for (size_t k = 0; k < name.size(); k++) {
              if (name[k] != '%') { current += name[k]; continue; }
              char c = name[++k];
              current += c == 'g' ? g : c == 'n' ? std::string(GetLogName()) : c == 'p' ? fmt("%d", (int)getpid()) : c == 'c' ? std::string("pbt") : c == '%' ? "%" : std::string("%") + c;
            }
            current = dir + "/" + current;
            generation++;
            if (!files.count(current)) lit(files[current], "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n");
            lit(files[current], "<log>\n");
          }
          lit(files[current], "  <event>");
          append(files[current], p);
          lit(files[current], "</event>\n");
        }
        break;
      }
      case 1: {
        bool bad = src.chance(1, 8);
        std::string s = bad ? src.of<std::string>({"Bogus", "User,Bogus", "Userx"}) : gen_mask(src, mask);
        if (bad) mask = 0;
        src.note("mask %s;", s.c_str());
        int got = (int)SetLogEventMask(s.c_str());
        CHECK(got == mask, "mask %s gives %x, not %x", s.c_str(), got, mask);
        CHECK((IsEventLogging() != WizardFalse) == (mask != 0), "events are logged with mask %x", mask);
        break;
      }
      case 2: {
        format.reset(new std::string(gen_format(src)));
        src.note("format %s;", quote(*format).c_str());
        SetLogFormat(format->c_str());
        break;
      }
      case 3: {
        src.note("close;");
        CloseWizardLog();
        if (mask && !current.empty()) { lit(files[current], "</log>\n"); current.clear(); }
        break;
      }
      default: {
        std::string s = src.of<std::string>({"Wizard", "other", ""});
        src.note("name %s;", s.c_str());
        std::string before = GetLogName(), after = s.empty() ? before : s;
        CHECK(after == SetLogName(s.c_str()) && after == GetLogName(), "the log name is %s, not %s", GetLogName(), after.c_str());
      }
    }
  }
  conf.end();
  redirect.restore();
  if (!current.empty()) lit(files[current], "</log>\n");
  for (int k = 0; k < 2; k++) {
    Bytes b = read_file(redirect.path[k]);
    std::string got(b.begin(), b.end());
    CHECK(matches(want[k], 0, got, 0, got.size()), "%s holds %s (%zu), not %s", k ? "standard error" : "standard output", quote(got.substr(0, 300)).c_str(), got.size(), show(want[k]).c_str());
  }
  for (auto &f : files) {
    bool ok = false;
    Bytes b = read_file(f.first, &ok);
    std::string got(b.begin(), b.end());
    CHECK(ok, "log file %s was not written", f.first.c_str());
    CHECK(matches(f.second, 0, got, 0, got.size()), "log file %s holds %s (%zu), not %s", f.first.c_str(), quote(got.substr(0, 300)).c_str(), got.size(), show(f.second).c_str());
  }
  src.label(files.size() > 1 ? "generations" : files.size() ? "file" : handlers ? "stream" : "nowhere");
  if (bulk) src.label("limit passed");
  if (written && withheld) src.nontrivial();
}

PBT_TEST(damaged, {.quick = 60000, .thorough = 1500000,
  .rule = "a log configuration with random bytes and words inserted, removed or repeated, then some events, listings and changes: nothing is read or written out of bounds, and the calls return; non-trivial: the damaged configuration logs events"}) {
  std::string dir = fresh_dir();
  allowed = dir + "/";
  std::string fill = src.of<std::string>({"User", "All", "Trace,User"});
  std::string xml = "<?xml version=\"1.0\"?>\n<!DOCTYPE logmap [\n <!ELEMENT logmap (log)+>\n]>\n<!-- c -->\n<logmap>\n<include file=\"more.xml\" />\n <log events=\"" + fill + "\" output=\"stdout,file\" filename=\"\002/l-%g\" generations=\"2\" limit=\"0\" format=\"%t %e\" />\n</logmap>\n";
  static const std::vector<std::string> words = {"<logmap>", "</logmap>", "<log ", "/>", "events=", "output=\"stderr\"", "format=\"xml\"", "limit=\"unlimited\"", "generations=\"0\"", "=", "\"", "'", "<!--", "-->", "<!DOCTYPE", "]>", "<include file=\"more.xml\" />", "<include ", "file=", "%", "filename=\"\"", "\\", "(", ")", "output=\"file\"", "unlimited"};
  size_t n = src.size(8);
  for (size_t i = 0; i < n; i++) {
    size_t at = src.pick(xml.size() + 1);
    switch (src.pick(5)) {
      case 0: xml.insert(at, src.of(words)); break;
      case 1: xml.insert(at, src.cstr(src.size(12))); break;
      case 2: xml.erase(at, 1 + src.size(40)); break;
      case 3: xml.insert(at, xml.substr(src.pick(xml.size() + 1), 1 + src.size(60))); break;
      default: if (!xml.empty()) xml[src.pick(xml.size())] = (char)src.byte();
    }
    if (xml.empty()) break;
  }
  if (src.chance(1, 20)) { size_t k = src.size(9000); xml.insert(src.pick(xml.size() + 1), std::string(k, src.of<char>({'a', '%', ' ', '<'}))); }
  src.note("%s", quote(xml).c_str());
  for (size_t i = 0; (i = xml.find('\002', i)) != std::string::npos; i += dir.size()) xml.replace(i, 1, dir);
  mkdir((dir + "/etc").c_str(), 0700);
  write_file(dir + "/etc/log.xml", xml);
  write_file(dir + "/etc/more.xml", "<logmap>\n<log events=\"User\" output=\"stderr\" format=\"%e\"/>\n</logmap>");
  Redirect redirect(dir);
  confined = true;
  Configured conf(dir + "/etc");
  Exc exc;
  if (IsEventLogging()) src.nontrivial();
  size_t ops = 1 + src.size(6);
  for (size_t i = 0; i < ops; i++) {
    switch (src.pick(6)) {
      case 0: case 1: LogWizardEvent((LogEventType)src.of<int>({0x2000, 1, 0x80}), "a/m.c", "f", i, "%s", std::string(src.size(5000), 'e').c_str()); break;
      case 2: SetLogEventMask(src.of<std::string>({"User", "All", "None", "bogus", "Trace"}).c_str()); break;
      case 3: SetLogFormat(src.of<std::string>({"xml", "%e", "%", "\\"}).c_str()); break;
      case 4: {
        size_t count = 0;
        char **list = GetLogList("*", &count, exc);
        if (list) { for (size_t k = 0; k < count; k++) free(list[k]); free(list); }
        break;
      }
      default: {
        FILE *f = tmpfile();
        if (f) { ListLogInfo(f, exc); fclose(f); }
      }
    }
  }
  CloseWizardLog();
  conf.end();
  redirect.restore();
}
