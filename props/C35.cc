// C35: exceptions are recorded, inherited and delivered exactly once and in order.
#include "wt.h"
#include <algorithm>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
extern "C" {
#include "wizard/client.h"
}
using namespace pbt;

struct Record {
  int severity;
  bool has_reason, has_description;
  std::string reason, description;
  bool operator==(const Record &o) const { return severity == o.severity && has_reason == o.has_reason && has_description == o.has_description && reason == o.reason && description == o.description; }
};
static std::string lower(std::string s) { for (char &c : s) if (c >= 'A' && c <= 'Z') c = (char)(c + 32); return s; }
static bool repeats(const Record &a, const Record &b) {
  return a.severity == b.severity && a.has_reason == b.has_reason && a.has_description == b.has_description && lower(a.reason) == lower(b.reason) && lower(a.description) == lower(b.description);
}
static std::string show(const Record &r) { return fmt("%d %s (%s)", r.severity, r.has_reason ? quote(r.reason).c_str() : "-", r.has_description ? quote(r.description).c_str() : "-"); }
static std::vector<std::pair<int, Record>> delivered;  // handler, record
static Record make(ExceptionType s, const char *r, const char *d) { return {(int)s, r != nullptr, d != nullptr, r ? r : "", d ? d : ""}; }
static void on_warning(const ExceptionType s, const char *r, const char *d) { delivered.push_back({0, make(s, r, d)}); }
static void on_error(const ExceptionType s, const char *r, const char *d) { delivered.push_back({1, make(s, r, d)}); }
static void on_fatal(const ExceptionType s, const char *r, const char *d) { delivered.push_back({2, make(s, r, d)}); }
static int handler_of(int severity) { return severity >= FatalErrorException ? 2 : severity >= ErrorException ? 1 : severity >= WarningException ? 0 : -1; }

static int gen_severity(Src &src) {
  if (src.chance(1, 8)) return (int)src.of<int>({299, 300, 301, 399, 400, 401, 499, 500, 699, 700, 701, 0, 1, 799});
  int base = src.of<int>({300, 400, 700});
  return base + 5 * (int)src.pick(20);
}
static std::string gen_text(Src &src) {
  switch (src.weighted({4, 2, 1, 1})) {
    case 0: return src.of<std::string>({"unable to open file `a'", "Unable to open file `a'", "memory allocation failed `x'", "", "a", "A", "b"});
    case 1: return src.text(src.size(30), "abcAB %s%n`'/:\\\n\t\xe9");
    case 2: return std::string(src.size(9000, {4094, 4095, 4096, 4097}), 'q');
    default: return src.text(src.size(4), "aA");
  }
}
struct Object { ExceptionInfo *e; std::vector<Record> model; };
static void verify(const std::vector<Record> &want, const char *when, bool w, bool e, bool f) {
  std::vector<std::pair<int, Record>> expect;
  for (auto &r : want) {
    int h = handler_of(r.severity);
    if (h < 0 || (h == 0 && !w) || (h == 1 && !e) || (h == 2 && !f)) continue;
    expect.push_back({h, r});
  }
  for (size_t i = 0; i < std::max(expect.size(), delivered.size()); i++) {
    CHECK(i < delivered.size(), "%s: %zu records delivered, not %zu; missing %s", when, delivered.size(), expect.size(), show(expect[i].second).c_str());
    CHECK(i < expect.size(), "%s: record %s delivered that was not thrown", when, show(delivered[i].second).c_str());
    CHECK(delivered[i] == expect[i], "%s: record %zu delivered to handler %d is %s, not %s to handler %d", when, i, delivered[i].first, show(delivered[i].second).c_str(), show(expect[i].second).c_str(), expect[i].first);
  }
  delivered.clear();
}

PBT_TEST(histories, {.quick = 200000, .thorough = 4000000,
  .rule = "up to 50 throws (plain and formatted, with texts of up to 9000 characters, absent texts and repetitions), inheritances, clearings and catches over three exception objects with handlers set or not: the delivered records are those of the model, in order, each to the handler of its own severity; the severity is that of the latest record; non-trivial: records were inherited or a catch delivered at least two"}) {
  Object o[3];
  for (auto &x : o) x.e = AcquireExceptionInfo();
  delivered.clear();
  SetWarningHandler(on_warning);
  SetErrorHandler(on_error);
  SetFatalErrorHandler(on_fatal);
  bool set[3] = {true, true, true};
  auto record = [&](Object &x, const Record &r) { if (x.model.empty() || !repeats(x.model.back(), r)) x.model.push_back(r); };
  size_t ops = src.size(50);
  bool rich = false;
  for (size_t i = 0; i < ops; i++) {
    size_t k = src.pick(3);
    Object &x = o[k];
    switch (src.weighted({8, 4, 3, 1, 2, 1, 1})) {
      case 0: {
        Record r{gen_severity(src), true, true, gen_text(src), gen_text(src)};
        if (src.chance(1, 4) && !x.model.empty()) {  // nearly or exactly the same again
          r = x.model.back();
          switch (src.pick(5)) {
            case 0: break;
            case 1: r.severity += 5; break;
            case 2: if (r.has_reason) r.reason += "x"; break;
            case 3: if (r.has_description) r.description += "x"; break;
            default: for (char &c : r.reason) if (c >= 'a' && c <= 'z') c = (char)(c - 32);
          }
        }
        if (src.chance(1, 6)) r.has_reason = false, r.reason.clear();
        if (src.chance(1, 3)) r.has_description = false, r.description.clear();
        src.note("%zu: throw %s;", k, show(r).substr(0, 60).c_str());
        CHECK(ThrowException(x.e, (ExceptionType)r.severity, r.has_reason ? r.reason.c_str() : nullptr, r.has_description ? r.description.c_str() : nullptr), "throwing failed");
        record(x, r);
        break;
      }
      case 1: {
        std::string module = src.of<std::string>({"wizard/blob.c", "m.c", "a/b/c.c"}), function = src.of<std::string>({"OpenBlob", "f"});
        size_t line = src.chance(1, 2) ? src.size(5000) : src.u64() >> 12;
        std::string a = gen_text(src), b = gen_text(src);
        Record r{gen_severity(src), true, false, "", ""};
        std::string reason = ("unable to open file `" + a + "': " + b).substr(0, WizardPathExtent - 1);
        r.reason = (reason + " @ " + module + "/" + function + "/" + fmt("%zu", line)).substr(0, WizardPathExtent - 1);
        src.note("%zu: format %s;", k, show(r).substr(0, 60).c_str());
        ThrowWizardException(x.e, module.c_str(), function.c_str(), line, (ExceptionType)r.severity, "unable to open file `%s': %s", a.c_str(), b.c_str());
        record(x, r);
        break;
      }
      case 2: {
        size_t j = (k + 1 + src.pick(2)) % 3;
        src.note("%zu: inherit %zu;", k, j);
        InheritException(x.e, o[j].e);
        if (!o[j].model.empty()) rich = true;
        for (auto &r : o[j].model) record(x, r);
        break;
      }
      case 3: {
        src.note("%zu: clear;", k);
        ClearWizardException(x.e);
        x.model.clear();
        break;
      }
      case 4: {
        src.note("%zu: catch;", k);
        if (x.model.size() > 1) rich = true;
        CatchException(x.e);
        verify(x.model, "catching", set[0], set[1], set[2]);
        x.model.clear();
        break;
      }
      case 5: {
        set[0] = src.chance(4, 5); set[1] = src.chance(4, 5); set[2] = src.chance(4, 5);
        WarningHandler w = SetWarningHandler(set[0] ? on_warning : nullptr);
        ErrorHandler e = SetErrorHandler(set[1] ? on_error : nullptr);
        FatalErrorHandler f = SetFatalErrorHandler(set[2] ? on_fatal : nullptr);
        CHECK((w == on_warning || !w) && (e == on_error || !e) && (f == on_fatal || !f), "setting a handler gives back another one");
        break;
      }
      default: {
        src.note("%zu: renew;", k);
        x.e = DestroyExceptionInfo(x.e);
        CHECK(!x.e, "destroying gives something");
        x.e = AcquireExceptionInfo();
        x.model.clear();
      }
    }
    CHECK(delivered.empty(), "a record was delivered without a catch: %s", show(delivered[0].second).c_str());
    for (auto &y : o) CHECK((int)GetExceptionSeverity(y.e) == (y.model.empty() ? (int)UndefinedException : y.model.back().severity), "the severity is %d, not %d", (int)GetExceptionSeverity(y.e), y.model.empty() ? 0 : y.model.back().severity);
  }
  SetWarningHandler(on_warning);
  SetErrorHandler(on_error);
  SetFatalErrorHandler(on_fatal);
  for (auto &x : o) {
    CatchException(x.e);
    verify(x.model, "the last catch", true, true, true);
    CHECK(GetExceptionSeverity(x.e) == UndefinedException, "the object is not empty after a catch");
    CatchException(x.e);
    CHECK(delivered.empty(), "a record was delivered twice");
    DestroyExceptionInfo(x.e);
  }
  // directly
  Record r{gen_severity(src), src.chance(3, 4), src.chance(3, 4), gen_text(src), gen_text(src)};
  if (!r.has_reason) r.reason.clear();
  if (!r.has_description) r.description.clear();
  const char *a = r.has_reason ? r.reason.c_str() : nullptr, *b = r.has_description ? r.description.c_str() : nullptr;
  int which = (int)src.pick(3);
  (which == 0 ? WizardWarning : which == 1 ? WizardError : WizardFatalError)((ExceptionType)r.severity, a, b);
  CHECK(delivered.size() == 1 && delivered[0].first == which && delivered[0].second == r, "reporting directly to handler %d", which);
  if (rich) src.nontrivial();
}

PBT_TEST(reports, {.quick = 4000, .thorough = 40000,
  .rule = "the same records caught by a process with the handlers it starts with: its error output holds one line per warning and error, with client name, reason and description, in order up to the first fatal one, which ends the process with its severity; non-trivial: at least one record", .coverage = false}) {
  std::string dir = fresh_dir(), out = dir + "/out";
  std::vector<Record> model;
  size_t n = src.size(8);
  for (size_t i = 0; i < n; i++) {
    Record r{gen_severity(src), true, src.chance(1, 2), src.text(1 + src.size(20), "abcAB %s%d`'/:"), ""};
    if (src.chance(2, 3) && r.severity >= FatalErrorException) r.severity -= 300;
    if (r.has_description) r.description = src.text(src.size(20), "abcAB %s%d`'/:");
    if (!model.empty() && repeats(model.back(), r)) continue;
    model.push_back(r);
    src.note("%s;", show(r).c_str());
  }
  std::string client = src.of<std::string>({"pbt", "encipher", "x y"});
  pid_t pid = fork();
  if (!pid) {
    int fd = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    dup2(fd, 2);
    SetClientName(client.c_str());
    ExceptionInfo *e = AcquireExceptionInfo();
    for (auto &r : model) ThrowException(e, (ExceptionType)r.severity, r.reason.c_str(), r.has_description ? r.description.c_str() : nullptr);
    CatchException(e);
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) == -1 && errno == EINTR);
  std::string want;
  int code = 0;
  for (auto &r : model) {
    if (handler_of(r.severity) < 0) continue;
    want += client + ": " + r.reason + (r.has_description ? " (" + r.description + ")" : "") + ".\n";
    if (handler_of(r.severity) == 2) { code = r.severity & 255; break; }
  }
  Bytes b = read_file(out);
  std::string got(b.begin(), b.end());
  CHECK(got == want, "reported %s, not %s", quote(got).c_str(), quote(want).c_str());
  CHECK(WIFEXITED(st) && WEXITSTATUS(st) == code, "ended with %x, not %d", st, code);
  if (!model.empty()) src.nontrivial();
}
