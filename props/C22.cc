// C22: hash maps against std::map, with every release of a key or value counted.
#include "wt.h"
using namespace pbt;

// Every key and value handed to the map is registered here.
static std::map<void *, int> live;  // pointer -> 1 while owned by the map
static std::string trouble;
static void drop(void *p, const char *what) {
  auto f = live.find(p);
  if (f == live.end()) { trouble = fmt("%s released twice or never given", what); return; }
  live.erase(f);
}
static void *free_string_key(void *p) { drop(p, "key"); free(p); return nullptr; }
static void *free_si_key(void *p) { drop(p, "key"); return DestroyStringInfo((StringInfo *)p); }
static void *forget_key(void *p) { drop(p, "key"); return nullptr; }
static void *free_value(void *p) { drop(p, "value"); free(p); return nullptr; }
static size_t same_hash(const void *) { return 7; }
static size_t weak_hash(const void *p) { return ((const char *)p)[0] & 3; }
static size_t weak_si(const void *p) { return GetStringInfoLength((const StringInfo *)p) & 3; }
static char slots[64];

PBT_TEST(hashmap_history, {.quick = 30000, .thorough = 900000,
  .rule = "up to 120 put/get/remove/iterate operations on a map keyed by pointers, strings or byte strings, with good and colliding hashes and small capacities, against a reference map, counting every release; non-trivial: a key was replaced or removed and at least 4 entries were present"}) {
  live.clear();
  trouble.clear();
  int kind = src.pick(3), h = src.pick(3);
  size_t cap = src.of<size_t>({1, 2, 3, 17, 31, 61, 1024});
  HashmapInfo *m;
  if (kind == 0) m = NewHashmap(cap, nullptr, nullptr, forget_key, free_value);
  else if (kind == 1)
    m = NewHashmap(cap, h == 0 ? HashStringType : h == 1 ? weak_hash : same_hash, CompareHashmapString, free_string_key, free_value);
  else
    m = NewHashmap(cap, h == 0 ? HashStringInfoType : h == 1 ? weak_si : same_hash, CompareHashmapStringInfo, free_si_key, free_value);
  CHECK(m, "no map");
  src.label(kind == 0 ? "pointer keys" : kind == 1 ? "string keys" : "byte string keys");
  // A universe of keys.
  std::vector<std::string> u;
  size_t nk = kind == 0 ? 40 : 1 + src.size(60);
  for (size_t i = 0; i < nk; i++) {
    if (kind == 0) u.push_back(std::string(1, (char)i));
    else if (kind == 1) u.push_back(src.chance(1, 3) ? src.cstr(20) : fmt("k%zu", i));
    else { Bytes b = src.data(12); u.push_back(std::string(b.begin(), b.end())); }
  }
  auto mk = [&](const std::string &s) -> void * {
    if (kind == 0) return slots + (unsigned char)s[0];
    if (kind == 1) return strdup(s.c_str());
    return si(s);
  };
  auto unmk = [&](void *p) {
    if (kind == 1) free(p);
    if (kind == 2) DestroyStringInfo((StringInfo *)p);
  };
  auto text = [&](const void *p) -> std::string {
    if (kind == 0) return std::string(1, (char)((const char *)p - slots));
    if (kind == 1) return (const char *)p;
    Bytes b = bytes_of((const StringInfo *)p);
    return std::string(b.begin(), b.end());
  };
  std::map<std::string, void *> ref;
  int serial = 0;
  size_t ops = src.size(120), biggest = 0;
  bool changed = false;
  for (size_t k = 0; k < ops; k++) {
    std::string key = u[src.pick(u.size())];
    switch (src.pick(9)) {
      case 0: case 1: case 2: case 3: {
        bool had = ref.count(key);
        void *kp = mk(key), *vp = malloc(16);
        snprintf((char *)vp, 16, "%d", ++serial);
        src.note("put(%s,%d)%s", quote(key, 12).c_str(), serial, had ? " replaces" : "");
        if (kind == 0 && had) {
          // the same pointer is released and taken again
          live[kp] = 1;
        }
        if (kind != 0 || !had) live[kp] = 1;
        live[vp] = 1;
        size_t before = live.size();
        CHECK(PutEntryInHashmap(m, kp, vp) != WizardFalse, "put failed");
        if (kind == 0 && had) { CHECK(!live.count(kp), "replaced key not released"); live[kp] = 1; before++; }
        CHECK(trouble.empty(), "put: %s", trouble.c_str());
        CHECK(live.size() == before - (had ? 2 : 0), "put released %zd keys and values, expected %d", (ssize_t)(before - live.size()), had ? 2 : 0);
        ref[key] = vp;
        changed |= had;
        break;
      }
      case 4: case 5: {
        void *kp = mk(key);
        void *v = GetValueFromHashmap(m, kp);
        void *e = ref.count(key) ? ref[key] : nullptr;
        src.note("get(%s)", quote(key, 12).c_str());
        CHECK(v == e, "get %s: got %s, expected %s", quote(key).c_str(), v ? (char *)v : "nothing", e ? (char *)e : "nothing");
        unmk(kp);
        break;
      }
      case 6: {
        void *kp = mk(key);
        bool had = ref.count(key);
        size_t before = live.size();
        src.note("remove(%s)", quote(key, 12).c_str());
        void *v = RemoveEntryFromHashmap(m, kp);
        void *e = had ? ref[key] : nullptr;
        CHECK(v == e, "remove %s: got another value", quote(key).c_str());
        CHECK(trouble.empty(), "remove: %s", trouble.c_str());
        CHECK(live.size() == before - (had ? 1 : 0), "remove: key released %zd times", (ssize_t)(before - live.size()));
        if (had) {
          drop(v, "value");
          free(v);
          ref.erase(key);
          changed = true;
        }
        unmk(kp);
        break;
      }
      case 7: {
        bool keys = src.chance(1, 2);
        src.note("iterate %s", keys ? "keys" : "values");
        ResetHashmapIterator(m);
        if (keys) {
          std::set<std::string> seen;
          while (const void *p = GetNextKeyInHashmap(m)) {
            CHECK(seen.insert(text(p)).second, "key %s visited twice", quote(text(p)).c_str());
            CHECK(seen.size() <= ref.size(), "more keys than entries");
            CHECK(ref.count(text(p)), "key %s is not in the map", quote(text(p)).c_str());
          }
          CHECK(seen.size() == ref.size(), "%zu keys visited of %zu", seen.size(), ref.size());
        } else {
          std::set<void *> seen, want;
          for (auto &x : ref) want.insert(x.second);
          while (void *p = GetNextValueInHashmap(m)) {
            CHECK(seen.insert(p).second, "a value is visited twice");
            CHECK(want.count(p), "a value that is not in the map");
          }
          CHECK(seen == want, "%zu values visited of %zu", seen.size(), want.size());
        }
        break;
      }
      default: {
        CHECK(PutEntryInHashmap(m, nullptr, slots) == WizardFalse, "null key accepted");
        CHECK(GetValueFromHashmap(m, nullptr) == nullptr && RemoveEntryFromHashmap(m, nullptr) == nullptr, "null key found");
      }
    }
    biggest = std::max(biggest, ref.size());
    CHECK(GetNumberOfEntriesInHashmap(m) == ref.size(), "%zu entries, expected %zu", GetNumberOfEntriesInHashmap(m), ref.size());
    CHECK((IsHashmapEmpty(m) != WizardFalse) == ref.empty(), "emptiness is wrong");
  }
  for (auto &x : ref) {
    void *kp = mk(x.first);
    CHECK(GetValueFromHashmap(m, kp) == x.second, "at the end: %s has another value", quote(x.first).c_str());
    unmk(kp);
  }
  DestroyHashmap(m);
  CHECK(trouble.empty(), "destroy: %s", trouble.c_str());
  CHECK(live.empty(), "%zu keys or values never released", live.size());
  if (changed && biggest >= 4) src.nontrivial();
}

PBT_TEST(hashmap_large, {.quick = 40, .thorough = 1500,
  .rule = "500-6000 entries in a map of small initial capacity, half of them removed, growth included; non-trivial: always", .coverage = false}) {
  size_t n = src.range(500, 6000), cap = src.of<size_t>({1, 2, 17, 61});
  bool string = src.chance(1, 2);
  size_t salt = src.u64();
  HashmapInfo *m = string ? NewHashmap(cap, HashStringType, CompareHashmapString, nullptr, nullptr) : NewHashmap(cap, nullptr, nullptr, nullptr, nullptr);
  std::vector<std::string> k(n);
  std::vector<char> pk(2 * n);
  for (size_t i = 0; i < n; i++) k[i] = fmt("%zx-%zu", salt, i);
  auto key = [&](size_t i) -> const void * { return string ? (const void *)k[i].c_str() : (const void *)&pk[2 * i]; };
  src.note("n=%zu capacity=%zu %s", n, cap, string ? "strings" : "pointers");
  for (size_t i = 0; i < n; i++) CHECK(PutEntryInHashmap(m, key(i), &k[i]) != WizardFalse, "put %zu", i);
  CHECK(GetNumberOfEntriesInHashmap(m) == n, "%zu entries of %zu", GetNumberOfEntriesInHashmap(m), n);
  for (size_t i = 0; i < n; i++) CHECK(GetValueFromHashmap(m, key(i)) == &k[i], "entry %zu lost", i);
  size_t left = n;
  for (size_t i = 0; i < n; i++)
    if ((i * 2654435761u >> 7 ^ salt) & 1) { CHECK(RemoveEntryFromHashmap(m, key(i)) == &k[i], "remove %zu", i); left--; }
  CHECK(GetNumberOfEntriesInHashmap(m) == left, "%zu entries of %zu", GetNumberOfEntriesInHashmap(m), left);
  for (size_t i = 0; i < n; i++) {
    bool gone = (i * 2654435761u >> 7 ^ salt) & 1;
    CHECK(GetValueFromHashmap(m, key(i)) == (gone ? nullptr : &k[i]), "entry %zu is wrong after removals", i);
  }
  size_t seen = 0;
  ResetHashmapIterator(m);
  while (GetNextValueInHashmap(m)) CHECK(++seen <= left, "too many values");
  CHECK(seen == left, "%zu values of %zu", seen, left);
  DestroyHashmap(m);
  src.nontrivial();
}
