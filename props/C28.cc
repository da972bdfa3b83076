// C28: time stamps survive formatting and parsing in every time zone.
#include "wt.h"
#include <sys/time.h>
#include <utime.h>
using namespace pbt;

// a POSIX time zone: offset in minutes, with or without daylight saving time
static std::string gen_zone(Src &src, std::string *plain = nullptr) {
  static const char *named[] = {"UTC", "Asia/Kolkata", "Asia/Kathmandu", "America/St_Johns", "Australia/Eucla", "Pacific/Chatham", "Europe/London", "America/New_York", "Pacific/Apia", "Australia/Lord_Howe", "Pacific/Kiritimati", "Pacific/Marquesas"};
  if (src.chance(1, 4)) return named[src.pick(12)];
  int m = (int)src.irange(-14 * 60, 12 * 60);
  if (src.chance(1, 2)) m -= m % 60;
  auto part = [](int v) { return fmt("%s%d:%02d", v < 0 ? "-" : "", abs(v) / 60, abs(v) % 60); };
  std::string z = "AAA" + part(m);
  if (src.chance(1, 3)) {
    static const int shift[] = {60, 30, 120, 20, -60};
    int s = shift[src.pick(5)];
    z += "BBB" + part(m - s) + (src.chance(1, 2) ? ",M3.2.0,M11.1.0" : ",M10.1.0/3,M4.1.0/2:30");
  }
  return z;
}
static time_t gen_time(Src &src) {
  switch (src.weighted({4, 2, 2, 2, 1})) {
    case 0: return (time_t)src.irange(0, 4102444800LL);          // to 2100
    case 1: return (time_t)(src.irange(0, 30000) * 86400 + src.irange(-2, 2));   // about midnight
    case 2: {                                                     // about the turn of a year
      struct tm t{};
      t.tm_year = (int)src.range(72, 300);
      return timegm(&t) + src.irange(-54000, 54000);
    }
    case 3: return (time_t)src.irange(68256000LL, 253402300799LL - 86400);   // to 9999
    default: return (time_t)src.irange(-2, 1000) * (time_t)src.irange(0, 3000);
  }
}
struct Zone {
  std::string old;
  bool had;
  Zone(const std::string &z) { const char *t = getenv("TZ"); had = t; if (t) old = t; setenv("TZ", z.c_str(), 1); tzset(); }
  ~Zone() { if (had) setenv("TZ", old.c_str(), 1); else unsetenv("TZ"); tzset(); }
};
static std::string format_in(const std::string &zone, time_t t) {
  Zone z(zone);
  char buf[WizardPathExtent];
  ssize_t n = FormatWizardTime(t, sizeof buf, buf);
  CHECK(n == (ssize_t)strlen(buf), "length %zd returned for %s", n, buf);
  return buf;
}
static time_t parse_in(const std::string &zone, const std::string &s) {
  Zone z(zone);
  time_t t = 0;
  std::vector<char> exact(s.begin(), s.end());
  exact.push_back(0);
  const char *rest = ParseWizardTime(exact.data(), &t);
  CHECK(*rest == 0, "in %s, '%s' was read up to '%s' only", zone.c_str(), s.c_str(), rest);
  return t;
}
// independent reading of the Internet format
static bool denotes(const std::string &s, time_t &t, int &minutes) {
  int Y, M, D, h, m, sec, oh, om, n = 0;
  char sign;
  if (sscanf(s.c_str(), "%d-%2d-%2dT%2d:%2d:%2d%c%2d:%2d%n", &Y, &M, &D, &h, &m, &sec, &sign, &oh, &om, &n) != 9 || n != (int)s.size() || s.size() != 25) return false;
  if ((sign != '+' && sign != '-') || M < 1 || M > 12 || D < 1 || D > 31 || h > 23 || m > 59 || sec > 59 || om > 59) return false;
  struct tm x{};
  x.tm_year = Y - 1900, x.tm_mon = M - 1, x.tm_mday = D, x.tm_hour = h, x.tm_min = m, x.tm_sec = sec;
  minutes = (sign == '-' ? -1 : 1) * (oh * 60 + om);
  t = timegm(&x) - 60 * minutes;
  return true;
}

PBT_TEST(round_trip, {.quick = 400000, .thorough = 5000000,
  .rule = "a time from 1970 to 9999 formatted in one time zone (whole-hour and minute offsets, with and without daylight saving time, named zones) and parsed in the same or another: the text denotes the instant in local time and parses back to it; non-trivial: the zone is not UTC"}) {
  std::string zone = gen_zone(src), other = src.chance(1, 2) ? zone : gen_zone(src);
  time_t t = gen_time(src);
  src.note("%lld in %s, parsed in %s", (long long)t, zone.c_str(), other.c_str());
  std::string s = format_in(zone, t);
  time_t d = 0;
  int off = 0;
  CHECK(denotes(s, d, off), "'%s' is not an Internet time stamp", s.c_str());
  CHECK(d == t, "'%s' denotes %lld", s.c_str(), (long long)d);
  struct tm x;
  { Zone z(zone); localtime_r(&t, &x); }
  CHECK(off * 60 == x.tm_gmtoff, "'%s' has the offset %d minutes, not %ld", s.c_str(), off, x.tm_gmtoff / 60);
  time_t back = parse_in(other, s);
  CHECK(back == t, "'%s' was read in %s as %lld", s.c_str(), other.c_str(), (long long)back);
  if (off) src.nontrivial();
  src.label(off == 0 ? "utc" : off % 60 ? "minutes" : off < 0 ? "west" : "east");
}

PBT_TEST(texts, {.quick = 200000, .thorough = 3000000,
  .rule = "time stamps written by others (any offset) denote the same instant in every time zone; arbitrary and cut time stamps are read without memory errors; formatting into any size keeps within it; non-trivial: a well formed time stamp with an offset"}) {
  std::string zone = gen_zone(src);
  if (src.chance(1, 2)) {
    time_t t = gen_time(src);
    int off = (int)src.irange(-14 * 60, 14 * 60);
    if (src.chance(1, 3)) off = (int)src.irange(-59, 59);
    time_t l = t + 60 * off;
    struct tm x;
    gmtime_r(&l, &x);
    char buf[64];
    snprintf(buf, sizeof buf, "%04d-%02d-%02dT%02d:%02d:%02d%c%02d:%02d", x.tm_year + 1900, x.tm_mon + 1, x.tm_mday, x.tm_hour, x.tm_min, x.tm_sec, off < 0 ? '-' : '+', abs(off) / 60, abs(off) % 60);
    src.note("%s in %s", buf, zone.c_str());
    CHECK(x.tm_year + 1900 < 0 || parse_in(zone, buf) == t, "'%s' read in %s as %lld, not %lld", buf, zone.c_str(), (long long)parse_in(zone, buf), (long long)t);
    if (off) src.nontrivial();
    return;
  }
  std::string s = format_in(zone, gen_time(src));
  if (src.chance(1, 2)) {
    size_t room = src.pick(32);
    std::vector<char> b(room + 4, 0x5a);
    Zone z(zone);
    if (room) {
      (void)FormatWizardTime(gen_time(src), room, b.data());
      CHECK(memchr(b.data(), 0, room), "no terminator within %zu bytes", room);
    }
    for (size_t i = 0; i < 4; i++) CHECK(b[room + i] == 0x5a, "written beyond %zu bytes", room);
  }
  size_t k = src.size(4);
  for (size_t i = 0; i < k && !s.empty(); i++) switch (src.pick(4)) {
    case 0: s.resize(src.pick(s.size() + 1)); break;
    case 1: s[src.pick(s.size())] = src.text(1, "0123456789-+T:.eExXZ \tinfa")[0]; break;
    case 2: s.insert(src.pick(s.size() + 1), src.text(1 + src.size(12), "0123456789-+T:.eZ")); break;
    default: s = src.text(src.size(40), "0123456789-+T:.eExZ infa");
  }
  src.note("'%s' in %s", s.c_str(), zone.c_str());
  Zone z(zone);
  std::vector<char> exact(s.begin(), s.end());
  exact.push_back(0);
  time_t t;
  const char *rest = ParseWizardTime(exact.data(), &t);
  CHECK(rest >= exact.data() && rest < exact.data() + exact.size(), "the rest is outside the text");
}

PBT_TEST(deciphered, {.quick = 150, .thorough = 2500,
  .rule = "files with modification times from 1970 to 2100 enciphered in one time zone and deciphered in another: the deciphered file has the same modification time; non-trivial: the zones differ", .case_cpu = 120, .coverage = false}) {
  std::string dir = fresh_dir(), za = gen_zone(src), zb = src.chance(1, 4) ? za : gen_zone(src);
  time_t t = (time_t)src.irange(1, 4102444800LL);
  if (src.chance(1, 4)) t = t / 86400 * 86400 + (time_t)src.irange(-1, 1) + 1;
  src.note("%lld from %s to %s", (long long)t, za.c_str(), zb.c_str());
  write_file(dir + "/plain", src.data(300));
  utimbuf u{t, t};
  CHECK(utime((dir + "/plain").c_str(), &u) == 0, "cannot set the time");
  write_file(dir + "/pass", std::string("a pass phrase"));
  auto go = [&](const char *tool, const std::string &zone, const char *from, const char *to) {
    RunOptions o;
    o.cwd = dir;
    o.env = {"TZ=" + zone, "WIZARD_HOME=" + dir};
    auto r = run({bin(tool), "-passphrase", "pass", from, to}, o);
    CHECK(r.code == 0, "%s exited with %d: %s", tool, r.code, r.err.c_str());
    CHECK(r.err.find("timestamp") == std::string::npos, "%s: %s", tool, r.err.c_str());
  };
  go("encipher", za, "plain", "cipher");
  go("decipher", zb, "cipher", "again");
  struct stat st;
  CHECK(stat((dir + "/again").c_str(), &st) == 0, "no deciphered file");
  CHECK(st.st_mtime == t, "the deciphered file is dated %lld", (long long)st.st_mtime);
  if (za != zb) src.nontrivial();
}
