// C39: numbers in every locale.
#include "wt.h"
#include "wizard/locale_.h"
#include <clocale>
#include <cmath>
using namespace pbt;

// The locale of the process: comma as decimal point, a two-byte decimal point, or C.
static const char *enter(Src &src) {
  static int once = setenv("LOCPATH", (std::string(__FILE__, strrchr(__FILE__, '/') - __FILE__) + "/../config/locale").c_str(), 1);
  (void)once;
  const char *l = src.of<const char *>({"C", "de_DE.UTF-8", "ps_AF.UTF-8"});
  CHECK(setlocale(LC_NUMERIC, l), "no locale %s", l);
  return l;
}
struct Leave { ~Leave() { setlocale(LC_NUMERIC, "C"); } };

static double number(Src &src) {
  switch (src.pick(5)) {
    case 0: return (double)src.irange(-1000000, 1000000);
    case 1: return (double)src.irange(-1000000, 1000000) / 1000;
    case 2: return std::ldexp((double)src.irange(-(1LL << 53), 1LL << 53), (int)src.irange(-1100, 900));
    case 3: { double d; uint64_t u = src.u64(); memcpy(&d, &u, 8); return std::isfinite(d) ? d : 0.5; }
    default: return std::pow(10.0, (double)src.irange(-20, 20)) * (src.chance(1, 2) ? 1 : 9.5);
  }
}

PBT_TEST(format_any_locale, {.quick = 200000, .thorough = 4000000, .rule = "numbers and texts formatted into an exactly sized buffer under three locales, compared with the C locale's text; non-trivial: a decimal point in a foreign locale"}) {
  Leave leave;
  double d = number(src);
  int prec = (int)src.range(0, 17), kind = src.pick(5);
  long l = (long)src.u64();
  std::string s = src.cstr(20);
  char want[2048];
  setlocale(LC_NUMERIC, "C");
  auto fmt_ = [&](char *b, size_t n, bool lib) -> long {
    switch (kind) {
      case 0: return lib ? FormatLocaleString(b, n, "%.*g", prec, d) : snprintf(b, n, "%.*g", prec, d);
      case 1: return lib ? FormatLocaleString(b, n, "%.*f|%s", prec, d, s.c_str()) : snprintf(b, n, "%.*f|%s", prec, d, s.c_str());
      case 2: return lib ? FormatLocaleString(b, n, "%ld %g", l, d) : snprintf(b, n, "%ld %g", l, d);
      case 3: return lib ? FormatLocaleString(b, n, "%s%e", s.c_str(), d) : snprintf(b, n, "%s%e", s.c_str(), d);
      default: return lib ? FormatLocaleString(b, n, "%*.3g,%x", prec, d, (unsigned)l) : snprintf(b, n, "%*.3g,%x", prec, d, (unsigned)l);
    }
  };
  long full = fmt_(want, sizeof want, false);
  std::string w = want;
  size_t n = 1 + src.size(80, {w.size(), w.size() + 1, w.size() - 1});
  if (n < w.size() + 1 && src.chance(1, 2)) n = w.size() + 1;
  char *b = (char *)malloc(n);
  const char *loc = enter(src);
  src.note("%s kind %d %.17g size %zu", loc, kind, d, n);
  long r = fmt_(b, n, true);
  std::string after = localeconv()->decimal_point;
  CHECK(memchr(b, 0, n), "text not terminated");
  CHECK(w.substr(0, n - 1) == b, "%s: formatted %s, expected %s", loc, quote(b).c_str(), quote(w.substr(0, n - 1)).c_str());
  CHECK(r == full, "length %ld reported, expected %ld", r, full);
  CHECK(after == (*loc == 'C' ? "." : *loc == 'd' ? "," : "\xd9\xab"), "the locale of the application was changed");
  char *x = (char *)malloc(64);
  snprintf(x, 64, "%.1f", 0.5);
  CHECK(!strncmp(x + 1, after.c_str(), after.size()), "the locale of the thread was changed");
  free(x);
  free(b);
  if (*loc != 'C' && w.find('.') != w.npos) src.nontrivial();
}

PBT_TEST(read_any_locale, {.quick = 300000, .thorough = 6000000, .rule = "decimal and hexadecimal number texts, with trailing text, read under three locales; non-trivial: a foreign locale and a fraction"}) {
  Leave leave;
  setlocale(LC_NUMERIC, "C");
  std::string t;
  double want;
  if (src.chance(1, 5)) {
    uint64_t v = src.u64() >> src.pick(64);
    t = fmt(src.chance(1, 2) ? "0x%lx" : "0X%lX", (unsigned long)v);
    want = (double)v;
  } else {
    double d = number(src);
    t = fmt(src.chance(1, 2) ? "%.17g" : src.chance(1, 2) ? "%.6f" : "%g", d);
    if (t.size() > 60) t = fmt("%.17g", d);
    want = strtod(t.c_str(), nullptr);
  }
  std::string tail = src.of<std::string>({"", ",5", " 1", "%", "/2", "\xd9\xab" "5", "=", "q"});
  const char *loc = enter(src);
  std::string all = t + tail;
  char *e = (char *)malloc(all.size() + 1), *q = nullptr;
  memcpy(e, all.c_str(), all.size() + 1);
  src.note("%s %s", loc, quote(all).c_str());
  double got = InterpretLocaleValue(e, &q);
  CHECK(got == want, "%s: %s reads as %.17g, expected %.17g", loc, quote(all).c_str(), got, want);
  CHECK(q == e + t.size(), "reading %s stops at %zd, expected %zu", quote(all).c_str(), q - e, t.size());
  CHECK(InterpretLocaleValue(e, nullptr) == want, "reads differently without a sentinel");
  free(e);
  if (*loc != 'C' && t.find('.') != t.npos) src.nontrivial();
}

PBT_TEST(si_prefixes, {.quick = 300000, .thorough = 6000000, .rule = "numbers with decimal and binary prefixes and byte suffix; non-trivial: a prefix"}) {
  Leave leave;
  static const struct { char c; int e; } P[] = {{'y', -24}, {'z', -21}, {'a', -18}, {'f', -15}, {'p', -12}, {'n', -9}, {'u', -6}, {'m', -3}, {'c', -2}, {'d', -1}, {'h', 2}, {'k', 3}, {'K', 3}, {'M', 6}, {'G', 9}, {'T', 12}, {'P', 15}, {'E', 18}, {'Z', 21}, {'Y', 24}};
  setlocale(LC_NUMERIC, "C");
  double d = (double)src.irange(-100000, 100000) / src.of<double>({1, 10, 1000, 8});
  std::string t = fmt("%.10g", d);
  d = strtod(t.c_str(), nullptr);
  double want = d;
  size_t stop;
  if (src.chance(4, 5)) {
    auto &p = P[src.pick(20)];
    t += p.c;
    if (p.e > 2 && src.chance(1, 2)) { t += 'i'; want = d * std::ldexp(1.0, p.e / 3 * 10); }
    else want = (double)((long double)d * powl(10, p.e));
    src.nontrivial();
    if (src.chance(1, 3)) t += 'B';
  } else if (src.chance(1, 2)) t += 'B';
  stop = t.size();
  t += src.of<std::string>({"", " ", ",", "/s", "-", "5"});
  if (isdigit((unsigned char)t.back()) && stop < t.size() && (isdigit((unsigned char)t[stop - 1]) || t[stop - 1] == 'E')) t.pop_back();
  const char *loc = enter(src);
  char *e = (char *)malloc(t.size() + 1), *q = nullptr;
  memcpy(e, t.c_str(), t.size() + 1);
  src.note("%s %s", loc, quote(t).c_str());
  double got = InterpretSiPrefixValue(e, &q);
  CHECK(std::fabs(got - want) <= 1e-12 * std::fabs(want), "%s reads as %.17g, expected %.17g", quote(t).c_str(), got, want);
  CHECK(q == e + stop, "reading %s stops at %zd, expected %zu", quote(t).c_str(), q - e, stop);
  free(e);
}

PBT_TEST(sizes, {.quick = 300000, .thorough = 6000000, .rule = "64-bit sizes formatted in decimal or binary units and read back to the printed precision; non-trivial: at least one unit prefix"}) {
  Leave leave;
  uint64_t v = src.u64() >> src.pick(64);
  if (src.chance(1, 3)) { double x = std::pow(src.chance(1, 2) ? 1000 : 1024, (double)src.range(0, 6)) * (double)src.range(1, 17); v = x < 1.8e19 ? (uint64_t)x + src.irange(-2, 2) : v; }
  bool bi = src.chance(1, 2);
  const char *loc = enter(src);
  size_t n = 4096;
  char *b = (char *)malloc(n);
  src.note("%s %lu %s", loc, (unsigned long)v, bi ? "binary" : "decimal");
  ssize_t r = FormatWizardSize(v, bi ? WizardTrue : WizardFalse, n, b);
  CHECK(r == (ssize_t)strlen(b), "length %zd of %s", r, quote(b).c_str());
  int i = 0;
  double base = bi ? 1024 : 1000, m = (double)v;
  while (m >= base) { m /= base; i++; }
  char *q = nullptr;
  double got = InterpretSiPrefixValue(b, &q);
  CHECK(*q == 0, "%s does not read as a size", quote(b).c_str());
  double tol = i == 0 ? 0 : 0.5000001 * std::pow(10.0, -(i + 1)) * (double)v;
  CHECK(std::fabs(got - (double)v) <= tol, "%lu is formatted %s which reads as %.17g", (unsigned long)v, quote(b).c_str(), got);
  std::string unit = i ? std::string(1, "KMGTPEZY"[i - 1]) + (bi ? "i" : "") : "", t = b;
  size_t u = t.find_first_not_of("0123456789.");
  CHECK(t.substr(u) == unit + "B", "%lu is formatted %s, expected unit %sB", (unsigned long)v, quote(b).c_str(), unit.c_str());
  free(b);
  if (i) src.nontrivial();
}
