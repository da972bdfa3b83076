// C23: splay trees against std::map, with every release of a key or value counted.
#include "wt.h"
using namespace pbt;

static std::map<void *, int> live;
static std::string trouble;
static void drop(void *p, const char *what) {
  auto f = live.find(p);
  if (f == live.end()) { trouble = fmt("%s released twice or never given", what); return; }
  if (--f->second == 0) live.erase(f);
}
static size_t owned() { size_t n = 0; for (auto &x : live) n += x.second; return n; }
static void *free_string_key(void *p) { drop(p, "key"); free(p); return nullptr; }
static void *free_si_key(void *p) { drop(p, "key"); return DestroyStringInfo((StringInfo *)p); }
static void *forget_key(void *p) { drop(p, "key"); return nullptr; }
static void *free_value(void *p) { drop(p, "value"); free(p); return nullptr; }
static char slots[64];
static int kind;

struct Less {  // the order of the tree, written out anew
  bool operator()(const std::string &a, const std::string &b) const {
    if (kind != 1) return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end(),
        [](char x, char y) { return (unsigned char)x < (unsigned char)y; });
    size_t n = std::min(a.size(), b.size());
    for (size_t i = 0; i < n; i++) {
      int x = (unsigned char)a[i], y = (unsigned char)b[i];
      if (x >= 'A' && x <= 'Z') x += 32;
      if (y >= 'A' && y <= 'Z') y += 32;
      if (x != y) return x < y;
    }
    return a.size() < b.size();
  }
};
typedef std::map<std::string, void *, Less> Ref;

static void *mk(const std::string &s) {
  if (kind == 0) return slots + 1 + (unsigned char)s[0];
  if (kind == 1) return strdup(s.c_str());
  return si(s);
}
static void unmk(void *p) {
  if (kind == 1) free(p);
  if (kind == 2) DestroyStringInfo((StringInfo *)p);
}
static std::string text(const void *p) {
  if (kind == 0) return std::string(1, (char)((const char *)p - slots - 1));
  if (kind == 1) return (const char *)p;
  Bytes b = bytes_of((const StringInfo *)p);
  return std::string(b.begin(), b.end());
}
static void *clone_key(void *p) {
  void *c = kind == 0 ? p : kind == 1 ? (void *)strdup((char *)p) : (void *)CloneStringInfo((StringInfo *)p);
  live[c]++;
  return c;
}
static void *clone_value(void *p) {
  void *c = malloc(16);
  memcpy(c, p, 16);
  live[c]++;
  return c;
}
static bool same(const std::string &a, const std::string &b) { Less l; return !l(a, b) && !l(b, a); }

static void walk(SplayTreeInfo *t, const Ref &ref, bool keys, const char *op, Src *src, std::vector<std::string> *u) {
  ResetSplayTreeIterator(t);
  auto it = ref.begin();
  for (;;) {
    const void *p = keys ? GetNextKeyInSplayTree(t) : GetNextValueInSplayTree(t);
    if (it == ref.end()) { CHECK(!p, "%s: iteration goes on after %zu entries", op, ref.size()); break; }
    CHECK(p, "%s: iteration ended early, before %s", op, quote(it->first).c_str());
    if (keys) CHECK(same(text(p), it->first), "%s: iteration gave key %s, expected %s", op, quote(text(p)).c_str(), quote(it->first).c_str());
    else CHECK(p == it->second, "%s: iteration gave another value than that of %s", op, quote(it->first).c_str());
    ++it;
    if (src && src->chance(1, 6)) {  // lookups in between do not disturb it
      std::string k = (*u)[src->pick(u->size())];
      void *kp = mk(k);
      auto f = ref.find(k);
      CHECK(GetValueFromSplayTree(t, kp) == (f == ref.end() ? nullptr : f->second), "%s: wrong value while iterating", op);
      unmk(kp);
    }
  }
}

PBT_TEST(splay_tree_history, {.quick = 40000, .thorough = 1000000,
  .rule = "up to 100 operations on trees keyed by pointers, text or byte strings, incl. removal by value, clones and iteration, against a reference ordered map, counting every release; non-trivial: a key was replaced or removed and at least 4 nodes were present"}) {
  live.clear();
  trouble.clear();
  kind = src.pick(3);
  auto make = [&]() {
    return kind == 0 ? NewSplayTree(nullptr, forget_key, free_value)
         : kind == 1 ? NewSplayTree(CompareSplayTreeString, free_string_key, free_value)
                     : NewSplayTree(CompareSplayTreeStringInfo, free_si_key, free_value);
  };
  SplayTreeInfo *t = make();
  CHECK(t, "no tree");
  std::vector<std::string> u;
  size_t nk = kind == 0 ? 40 : 1 + src.size(40);
  for (size_t i = 0; i < nk; i++) {
    if (kind == 0) u.push_back(std::string(1, (char)i));
    else if (kind == 1) u.push_back(src.chance(1, 3) ? src.cstr(8) : fmt("%c%zu", src.chance(1, 2) ? 'k' : 'K', i / 2));
    else { Bytes b = src.data(6); u.push_back(std::string(b.begin(), b.end())); }
  }
  Ref ref;
  int serial = 0;
  size_t ops = src.size(100), biggest = 0;
  bool changed = false;
  for (size_t k = 0; k < ops; k++) {
    std::string key = u[src.pick(u.size())];
    bool had = ref.count(key);
    switch (src.pick(12)) {
      case 0: case 1: case 2: case 3: {
        void *kp = mk(key), *vp = malloc(16);
        snprintf((char *)vp, 16, "%d", ++serial);
        src.note("add(%s,%d)", quote(key, 12).c_str(), serial);
        live[kp]++;
        live[vp]++;
        size_t before = owned();
        CHECK(AddValueToSplayTree(t, kp, vp) != WizardFalse, "add failed");
        CHECK(trouble.empty(), "add: %s", trouble.c_str());
        CHECK(owned() == before - (had ? 2 : 0), "add released %zd, expected %d", (ssize_t)(before - owned()), had ? 2 : 0);
        ref.erase(key);
        ref[key] = vp;
        changed |= had;
        break;
      }
      case 4: case 5: {
        void *kp = mk(key);
        src.note("get(%s)", quote(key, 12).c_str());
        const void *v = GetValueFromSplayTree(t, kp);
        CHECK(v == (had ? ref[key] : nullptr), "get %s: got %s, expected %s", quote(key).c_str(), v ? (char *)v : "nothing", had ? (char *)ref[key] : "nothing");
        unmk(kp);
        break;
      }
      case 6: {
        void *kp = mk(key);
        size_t before = owned();
        src.note("remove(%s)", quote(key, 12).c_str());
        void *v = RemoveNodeFromSplayTree(t, kp);
        CHECK(v == (had ? ref[key] : nullptr), "remove %s: another value", quote(key).c_str());
        CHECK(trouble.empty(), "remove: %s", trouble.c_str());
        CHECK(owned() == before - (had ? 1 : 0), "remove: released %zd", (ssize_t)(before - owned()));
        if (had) { drop(v, "value"); free(v); ref.erase(key); changed = true; }
        unmk(kp);
        break;
      }
      case 7: {
        void *kp = mk(key);
        size_t before = owned();
        src.note("delete(%s)", quote(key, 12).c_str());
        bool ok = DeleteNodeFromSplayTree(t, kp) != WizardFalse;
        CHECK(ok == had, "delete %s: status %d", quote(key).c_str(), ok);
        CHECK(trouble.empty(), "delete: %s", trouble.c_str());
        CHECK(owned() == before - (had ? 2 : 0), "delete: released %zd", (ssize_t)(before - owned()));
        if (had) { ref.erase(key); changed = true; }
        unmk(kp);
        break;
      }
      case 8: {
        bool del = src.chance(1, 2);
        void *vp = had ? ref[key] : (void *)slots;
        size_t before = owned();
        src.note("%s value of %s", del ? "delete" : "remove", quote(key, 12).c_str());
        if (del) {
          bool ok = DeleteNodeByValueFromSplayTree(t, vp) != WizardFalse;
          CHECK(ok == had, "delete by value: status %d", ok);
          CHECK(owned() == before - (had ? 2 : 0), "delete by value: released %zd", (ssize_t)(before - owned()));
        } else {
          void *kp = RemoveNodeByValueFromSplayTree(t, vp);
          CHECK((kp != nullptr) == had, "remove by value: %s", kp ? "a key" : "nothing");
          if (had) {
            CHECK(same(text(kp), key), "remove by value: key %s, expected %s", quote(text(kp)).c_str(), quote(key).c_str());
            CHECK(owned() == before - 1, "remove by value: released %zd", (ssize_t)(before - owned()));
            drop(kp, "key");
            unmk(kp);
          }
        }
        CHECK(trouble.empty(), "by value: %s", trouble.c_str());
        if (had) { ref.erase(key); changed = true; }
        break;
      }
      case 9: {
        bool keys = src.chance(1, 2);
        src.note("walk");
        walk(t, ref, keys, "walk", &src, &u);
        break;
      }
      case 10: {
        if (!src.chance(1, 3)) break;
        src.note("clone");
        SplayTreeInfo *c = CloneSplayTree(t, clone_key, clone_value);
        CHECK(c, "no clone");
        CHECK(GetNumberOfNodesInSplayTree(c) == ref.size(), "clone has %zu nodes, expected %zu", GetNumberOfNodesInSplayTree(c), ref.size());
        walk(c, ref, true, "clone", nullptr, nullptr);
        for (auto &x : ref) {
          void *kp = mk(x.first);
          const char *v = (const char *)GetValueFromSplayTree(c, kp);
          CHECK(v && v != x.second && !strcmp(v, (char *)x.second), "clone: value of %s differs", quote(x.first).c_str());
          unmk(kp);
        }
        if (src.chance(1, 2)) {  // go on with the clone
          DestroySplayTree(t);
          t = c;
          for (auto &x : ref) {
            void *kp = mk(x.first);
            x.second = (void *)GetValueFromSplayTree(c, kp);
            unmk(kp);
          }
        } else DestroySplayTree(c);
        CHECK(trouble.empty(), "clone: %s", trouble.c_str());
        CHECK(owned() == 2 * ref.size(), "after the clone %zu keys and values are owned, expected %zu", owned(), 2 * ref.size());
        break;
      }
      default: {
        if (!src.chance(1, 8)) break;
        src.note("reset");
        ResetSplayTree(t);
        CHECK(trouble.empty(), "reset: %s", trouble.c_str());
        CHECK(owned() == 0, "reset left %zu keys and values", owned());
        ref.clear();
      }
    }
    biggest = std::max(biggest, ref.size());
    CHECK(GetNumberOfNodesInSplayTree(t) == ref.size(), "%zu nodes, expected %zu", GetNumberOfNodesInSplayTree(t), ref.size());
  }
  walk(t, ref, true, "at the end", nullptr, nullptr);
  walk(t, ref, false, "at the end", nullptr, nullptr);
  DestroySplayTree(t);
  CHECK(trouble.empty(), "destroy: %s", trouble.c_str());
  CHECK(live.empty(), "%zu keys or values never released", owned());
  if (changed && biggest >= 4) src.nontrivial();
}

PBT_TEST(splay_tree_large, {.quick = 60, .thorough = 2000,
  .rule = "500-5000 keys added in rising, falling, zigzag or random order (deep trees that need balancing), looked up, iterated and half removed; non-trivial: at least 1100 keys in monotone order", .coverage = false}) {
  kind = 0;
  size_t n = src.range(500, 5000);
  int order = src.pick(4), look = src.pick(4);
  auto perm = [&](int o) {
    std::vector<size_t> p(n);
    for (size_t i = 0; i < n; i++) p[i] = o == 0 ? i : o == 1 ? n - 1 - i : o == 2 ? (i & 1 ? n - 1 - i / 2 : i / 2) : i;
    if (o == 3) for (size_t i = n - 1; i; i--) std::swap(p[i], p[src.u64() % (i + 1)]);
    return p;
  };
  std::vector<char> k(n), v(n);
  src.note("n=%zu order %d lookups %d", n, order, look);
  SplayTreeInfo *t = NewSplayTree(nullptr, nullptr, nullptr);
  for (size_t i : perm(order)) CHECK(AddValueToSplayTree(t, &k[i], &v[i]) != WizardFalse, "add");
  CHECK(GetNumberOfNodesInSplayTree(t) == n, "%zu nodes of %zu", GetNumberOfNodesInSplayTree(t), n);
  for (size_t i : perm(look)) CHECK(GetValueFromSplayTree(t, &k[i]) == &v[i], "value %zu lost", i);
  ResetSplayTreeIterator(t);
  for (size_t i = 0; i < n; i++) CHECK(GetNextValueInSplayTree(t) == &v[i], "iteration: value %zu", i);
  CHECK(!GetNextValueInSplayTree(t), "iteration goes on");
  uint64_t salt = src.u64();
  size_t left = n;
  for (size_t i : perm(src.pick(4)))
    if ((i * 2654435761u >> 7 ^ salt) & 1) { CHECK(RemoveNodeFromSplayTree(t, &k[i]) == &v[i], "remove %zu", i); left--; }
  CHECK(GetNumberOfNodesInSplayTree(t) == left, "%zu nodes of %zu", GetNumberOfNodesInSplayTree(t), left);
  for (size_t i = 0; i < n; i++)
    CHECK(GetValueFromSplayTree(t, &k[i]) == (((i * 2654435761u >> 7 ^ salt) & 1) ? nullptr : &v[i]), "value %zu is wrong after removals", i);
  DestroySplayTree(t);
  if (n >= 1100 && order < 2) src.nontrivial();
}
