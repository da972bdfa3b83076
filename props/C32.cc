// C32: option names and values convert both ways without ambiguity.
#include "wt.h"
#include <map>
extern "C" {
#include "wizard/authenticate.h"
#include "wizard/entropy.h"
#include "wizard/mime-private.h"
#include "wizard/option.h"
#include "wizard/resource_.h"
}
using namespace pbt;

struct Name { const char *name; ssize_t value; };
struct Table { WizardOption option; const char *what; std::vector<Name> names; };
static const std::vector<Table> &tables() {
  static const std::vector<Name> events = {{"All", AllEvents & ~TraceEvent}, {"Blob", BlobEvent}, {"Deprecate", DeprecateEvent}, {"Configure", ConfigureEvent}, {"Exception", ExceptionEvent}, {"Locale", LocaleEvent}, {"None", NoEvents}, {"Resource", ResourceEvent}, {"Trace", TraceEvent}, {"User", UserEvent}, {"Warning", WarningEvent}};
  static const std::vector<Table> t = {
    {WizardAuthenticateOptions, "authenticate", {{"Public", PublicAuthenticateMethod}, {"Secret", SecretAuthenticateMethod}}},
    {WizardCipherOptions, "cipher", {{"AES", AESCipher}, {"Chacha", ChachaCipher}, {"None", NoCipher}, {"Serpent", SerpentCipher}, {"Twofish", TwofishCipher}}},
    {WizardDataTypeOptions, "data type", {{"Byte", ByteData}, {"Long", LongData}, {"Short", ShortData}, {"String", StringData}}},
    {WizardEndianOptions, "endian", {{"LSB", LSBEndian}, {"MSB", MSBEndian}}},
    {WizardEntropyOptions, "entropy", {{"None", NoEntropy}, {"BZip", BZIPEntropy}, {"LZMA", LZMAEntropy}, {"Zip", ZIPEntropy}}},
    {WizardEntropyLevelOptions, "level", {{"0", 0}, {"1", 1}, {"2", 2}, {"3", 3}, {"4", 4}, {"5", 5}, {"6", 6}, {"7", 7}, {"8", 8}, {"9", 9}}},
    {WizardKeyLengthOptions, "key length", {{"256", 256}, {"512", 512}, {"1024", 1024}, {"2048", 2048}}},
    {WizardHashOptions, "hash", {{"CRC64", CRC64Hash}, {"MD5", MD5Hash}, {"None", NoHash}, {"SHA1", SHA1Hash}, {"SHA224", SHA2224Hash}, {"SHA256", SHA2256Hash}, {"SHA384", SHA2384Hash}, {"SHA512", SHA2512Hash}, {"SHA2", SHA2Hash}, {"SHA2-224", SHA2224Hash}, {"SHA2-256", SHA2256Hash}, {"SHA2-384", SHA2384Hash}, {"SHA2-512", SHA2512Hash}, {"SHA3", SHA3Hash}, {"SHA3-224", SHA3224Hash}, {"SHA3-256", SHA3256Hash}, {"SHA3-384", SHA3384Hash}, {"SHA3-512", SHA3512Hash}}},
    {WizardListOptions, "list", {{"Cipher", WizardCipherOptions}, {"Debug", WizardDebugOptions}, {"Entropy", WizardEntropyOptions}, {"EntropyLevel", WizardEntropyLevelOptions}, {"Hash", WizardHashOptions}, {"KeyLength", WizardKeyLengthOptions}, {"List", WizardListOptions}, {"Mode", WizardModeOptions}, {"DataType", WizardDataTypeOptions}, {"Endian", WizardEndianOptions}, {"Authenticate", WizardAuthenticateOptions}, {"Command", WizardCommandOptions}}},
    {WizardModeOptions, "mode", {{"CBC", CBCMode}, {"CFB", CFBMode}, {"CTR", CTRMode}, {"ECB", ECBMode}, {"OFB", OFBMode}}},
    {WizardResourceOptions, "resource", {{"Area", AreaResource}, {"Disk", DiskResource}, {"File", FileResource}, {"Map", MapResource}, {"Memory", MemoryResource}}},
    {WizardDebugOptions, "debug", events},
    {WizardLogEventOptions, "log event", events},
    {WizardCommandOptions, "command", {{"-chunksize", 1}, {"+chunksize", 1}, {"-decipher", 0}, {"-debug", 1}, {"-entropy", 1}, {"-hash", 1}, {"-help", 0}, {"-key-length", 1}, {"+key", 1}, {"-level", 1}, {"-list", 1}, {"-log", 1}, {"-mode", 1}, {"-properties", 1}, {"-random", 1}, {"-verbose", 0}, {"+verbose", 0}}},
  };
  return t;
}
static std::vector<std::string> listed(WizardOption o) {
  char **l = GetWizardOptions(o);
  std::vector<std::string> v;
  CHECK(l, "no options listed");
  for (size_t i = 0; l[i]; i++) { v.push_back(l[i]); l[i] = DestroyString(l[i]); }
  RelinquishWizardMemory(l);
  return v;
}
static std::string anycase(Src &src, std::string s) {
  switch (src.pick(4)) {
    case 0: return s;
    case 1: for (char &c : s) c = (char)tolower(c); return s;
    case 2: for (char &c : s) c = (char)toupper(c); return s;
    default: for (char &c : s) c = (char)(src.chance(1, 2) ? toupper(c) : tolower(c)); return s;
  }
}
static ssize_t parse(WizardOption o, bool list, const std::string &s) {
  std::vector<char> exact(s.begin(), s.end());
  exact.push_back(0);
  return ParseWizardOption(o, list ? WizardTrue : WizardFalse, exact.data());
}
static std::string lower(std::string s) { for (char &c : s) c = (char)tolower((unsigned char)c); return s; }

PBT_TEST(names, {.quick = 400000, .thorough = 5000000,
  .rule = "names of every table spelt in any letter case, with hyphens or underscores put inside, blanks before and after, or altered into something else; the printed name of a value parses back to it; non-trivial: always"}) {
  const Table &t = tables()[src.pick(tables().size())];
  const Name &n = t.names[src.pick(t.names.size())];
  std::string s = anycase(src, n.name), plain = n.name;
  bool own = plain.find('-') != plain.npos || plain[0] == '+';
  if (!own && src.chance(1, 3))
    for (size_t k = 1 + src.pick(3); k > 0; k--) s.insert(1 + src.pick(s.size()), 1, src.of<char>({'-', '_'}));
  if (t.option != WizardCommandOptions && src.chance(1, 8)) s = src.of<std::string>({"-", "+"}) + s;
  s = std::string(src.chance(1, 4) ? src.of<std::string>({" ", "\t", "  ", ","}) : "") + s + std::string(src.chance(1, 4) ? src.of<std::string>({" ", "\n", "  "}) : "");
  src.note("%s: %s", t.what, quote(s).c_str());
  bool list = src.chance(1, 3);
  ssize_t v = parse(t.option, list, s);
  CHECK(v == n.value, "%s %s is %zd, not %zd", t.what, quote(s).c_str(), v, n.value);
  const char *m = WizardOptionToMnemonic(t.option, n.value);
  CHECK(m, "no name for %s %zd", t.what, n.value);
  CHECK(parse(t.option, false, m) == n.value, "%s %zd is printed as %s, which is %zd", t.what, n.value, m, parse(t.option, false, m));
  if (t.option != WizardCommandOptions) {
    bool mine = false;
    for (auto &x : t.names) mine |= x.value == n.value && std::string(m) == x.name;
    CHECK(mine, "%s %zd is printed as %s", t.what, n.value, m);
  }
  src.nontrivial();
}

PBT_TEST(unknown, {.quick = 400000, .thorough = 5000000,
  .rule = "words that are no name of a table (altered, cut, joined or foreign names, blanks, digits, overlong words) are rejected alone and in lists; values without a name are printed as undefined; non-trivial: the word is not empty"}) {
  const Table &t = tables()[src.pick(tables().size())];
  std::vector<std::string> all = listed(t.option);
  std::string s = t.names[src.pick(t.names.size())].name;
  switch (src.pick(7)) {
    case 0: s.resize(src.pick(s.size())); break;
    case 1: s += src.text(1 + src.size(3), "aZ09!x"); break;
    case 2: s[src.pick(s.size())] = src.text(1, "qQ7!~")[0]; break;
    case 3: s = src.text(src.size(8), "abcSHA2356-_+!"); break;
    case 4: s = tables()[src.pick(tables().size())].names[0].name; break;
    case 5: s = std::string(src.of<size_t>({4094, 4095, 4096, 4097, 9000}), 'a') + s; break;
    default: s.insert(src.pick(s.size() + 1), src.text(1, "x!*?")); break;
  }
  // what the text amounts to once a sign, an exclusion and inner hyphens are gone
  auto canon = [](std::string x) { std::string o; for (size_t i = 0; i < x.size(); i++) if (i == 0 || (x[i] != '-' && x[i] != '_')) o += (char)tolower((unsigned char)x[i]); return o; };
  std::string w = s;
  if (t.option != WizardCommandOptions && !w.empty() && (w[0] == '-' || w[0] == '+')) w.erase(0, 1);
  if (!w.empty() && w[0] == '!') w.erase(0, 1);
  bool known = false;
  for (auto &x : all) known |= lower(w) == lower(x) || canon(w) == lower(x);
  if (known) discard();
  if (!s.empty()) src.nontrivial();
  src.note("%s: %s", t.what, quote(s.substr(0, 60)).c_str());
  ssize_t v = parse(t.option, false, s);
  CHECK(v < 0, "%s %s was taken for %zd", t.what, quote(s.substr(0, 60)).c_str(), v);
  std::string good = t.names[src.pick(t.names.size())].name;
  CHECK(parse(t.option, true, good + "," + s) < 0, "the list %s,%s was accepted", good.c_str(), s.substr(0, 60).c_str());
  CHECK(parse(t.option, true, s + "," + good) < 0 || s.empty(), "the list %s,%s was accepted", s.substr(0, 60).c_str(), good.c_str());
  ssize_t odd = (ssize_t)src.irange(100000, 200000) * 16 + 1048576 * 512;
  const char *m = WizardOptionToMnemonic(t.option, odd);
  CHECK(m && strcasecmp(m, "undefined") == 0, "value %zd is printed as %s", odd, m ? m : "nothing");
}

PBT_TEST(lists, {.quick = 200000, .thorough = 3000000,
  .rule = "comma separated lists of event names, some excluded with '!', with blanks, repetitions and inner hyphens: the value is that of adding and removing the members in order; non-trivial: at least two members"}) {
  const Table &t = tables()[src.chance(3, 4) ? 12 : src.pick(12)];
  std::string s;
  ssize_t want = 0;
  size_t n = 1 + src.size(8);
  bool removed = false;
  for (size_t i = 0; i < n; i++) {
    const Name &x = t.names[src.pick(t.names.size())];
    bool no = src.chance(1, 4);
    if (i) s += src.of<std::string>({",", ", ", ",,", " ,", ",\t"});
    if (no) s += "!";
    s += anycase(src, x.name);
    if (no) { removed |= (want & x.value) != 0; want &= ~x.value; } else want |= x.value;
  }
  src.note("%s: %s", t.what, quote(s).c_str());
  ssize_t v = parse(t.option, true, s);
  CHECK(v == want, "%s %s is %zx, not %zx", t.what, quote(s).c_str(), v, want);
  if (n > 1) src.nontrivial();
  if (removed) src.label("excluded");
}

PBT_TEST(listing, {.quick = 2000, .thorough = 20000,
  .rule = "the names listed and printed for each table are exactly its names, each once, and each parses; words are options only with a sign and a letter; true and false words; non-trivial: always", .workers = 2}) {
  const Table &t = tables()[src.pick(tables().size())];
  std::vector<std::string> all = listed(t.option);
  char *buf = nullptr;
  size_t len = 0;
  FILE *f = open_memstream(&buf, &len);
  Exc e;
  CHECK(ListWizardOptions(f, t.option, e), "listing failed");
  fclose(f);
  std::string text(buf, len), want;
  free(buf);
  std::map<std::string, int> seen;
  for (auto &x : all) {
    CHECK(++seen[lower(x)] == 1, "%s is listed twice for %s", x.c_str(), t.what);
    CHECK(parse(t.option, false, x) >= 0, "%s %s is listed but not known", t.what, x.c_str());
    if (x != "Undefined") want += x + "\n";
  }
  CHECK(text == want, "%s prints %s instead of %s", t.what, quote(text).c_str(), quote(want).c_str());
  for (auto &x : t.names) CHECK(seen.count(lower(x.name)), "%s %s is not listed", t.what, x.name);
  std::string w = src.text(src.size(4), "-+a1!Z ");
  bool opt = w.size() > 1 && (w[0] == '-' || w[0] == '+') && isalpha((unsigned char)w[1]);
  CHECK((IsWizardOption(w.c_str()) != WizardFalse) == opt, "%s is %san option", quote(w).c_str(), opt ? "not " : "");
  std::string b = anycase(src, src.of<std::string>({"true", "on", "yes", "1", "false", "off", "no", "0", "", "tru", "yess", "11", "o"}));
  std::string lb = lower(b);
  bool yes = lb == "true" || lb == "on" || lb == "yes" || lb == "1";
  CHECK((IsWizardTrue(b.c_str()) != WizardFalse) == yes, "%s is %s", quote(b).c_str(), yes ? "false" : "true");
  CHECK(!IsWizardTrue(nullptr), "nothing is true");
  src.nontrivial();
}
