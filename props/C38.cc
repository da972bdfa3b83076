// C38: concurrent use of shared containers and services gives serial results.
#include "wt.h"
#include "interleave.h"
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <sys/stat.h>
#include <unistd.h>
extern "C" {
#include "wizard/cipher.h"
#include "wizard/configure.h"
#include "wizard/hash.h"
#include "wizard/hashmap.h"
#include "wizard/hmac.h"
#include "wizard/locale_.h"
#include "wizard/log.h"
#include "wizard/mime.h"
#include "wizard/random_.h"
#include "wizard/resource_.h"
#include "wizard/semaphore.h"
#include "wizard/splay-tree.h"
}
using namespace pbt;

// One operation of a thread: what it did, what it gave and between which moments.
struct Op {
  int kind = 0;
  uint64_t a = 0, b = 0;
  std::string result;
  uint64_t start = 0, end = 0;
  int thread = 0;
};
typedef std::vector<Op> History;

// Is there a serial order of the operations, respecting which ended before which began, that gives the same results?
template <class Model> struct Serial {
  const History &h;
  std::set<std::pair<uint64_t, std::string>> seen;
  Serial(const History &h) : h(h) {}
  bool from(uint64_t done, const Model &m) {
    if (done == (h.size() == 64 ? ~0ull : (1ull << h.size()) - 1)) return true;
    if (!seen.insert({done, m.state()}).second) return false;
    uint64_t first = ~0ull;  // the earliest end of those left: one that began later cannot come before it
    for (size_t i = 0; i < h.size(); i++) if (!(done >> i & 1)) first = std::min(first, h[i].end);
    for (size_t i = 0; i < h.size(); i++) {
      if (done >> i & 1 || h[i].start > first) continue;
      Model n = m;
      if (n.apply(h[i]) == h[i].result && from(done | 1ull << i, n)) return true;
    }
    return false;
  }
};
static std::vector<sched::Switch> gen_plan(Src &src, size_t most = 30) {
  std::vector<sched::Switch> p;
  size_t n = src.size(most);
  uint32_t range = src.of<uint32_t>({4, 20, 100, 400, 2000});
  for (size_t i = 0; i < n; i++) p.push_back({(uint32_t)src.pick(range), (uint8_t)src.pick(4)});
  return p;
}
// Runs the threads' operations under the plan, then the closing operations one after the other.
template <class Do> static History perform(Src &src, std::vector<std::vector<Op>> programs, const std::vector<Op> &closing, const std::vector<sched::Switch> &plan, Do perform_one) {
  std::vector<std::function<void()>> fs;
  for (auto &p : programs)
    fs.push_back([&p, &perform_one] {
      for (auto &op : p) {
        op.start = ++sched::now;
        op.result = perform_one(op);
        op.end = ++sched::now;
      }
    });
  const char *why = sched::run(fs, plan);
  CHECK(!why, "the threads did not end: %s", why);
  if (sched::switches > programs.size()) src.nontrivial();
  History h;
  for (size_t t = 0; t < programs.size(); t++) for (auto &op : programs[t]) { op.thread = (int)t; h.push_back(op); }
  for (Op op : closing) {
    op.start = ++sched::now;
    op.result = perform_one(op);
    op.end = ++sched::now;
    op.thread = -1;
    h.push_back(op);
  }
  return h;
}
static std::string show(const History &h, const char *const *names) {
  std::string s;
  for (auto &op : h) s += fmt("%s%d: %s(%llu,%llu)=%s [%llu..%llu]", s.empty() ? "" : "; ", op.thread, names[op.kind], (unsigned long long)op.a, (unsigned long long)op.b, op.result.c_str(), (unsigned long long)op.start, (unsigned long long)op.end);
  return s;
}
static std::vector<std::vector<Op>> gen_programs(Src &src, size_t total, const std::function<Op(Src &)> &gen) {
  size_t threads = 2 + src.pick(3);
  std::vector<std::vector<Op>> p(threads);
  for (auto &x : p) {
    size_t n = 1 + src.pick(total / threads);
    for (size_t i = 0; i < n; i++) x.push_back(gen(src));
  }
  return p;
}
static std::string num(uint64_t v) { return fmt("%llu", (unsigned long long)v); }
#define RULE "; the threads give way to each other where a generated plan says, at any memory access or lock of the library; non-trivial: threads were switched in the middle of their work"

// linked lists
static const char *const list_names[] = {"append", "insert", "remove", "remove value", "remove last", "get", "last", "count", "empty", "clear", "next", "reset", "array", "sorted"};
struct ListModel {
  std::vector<uint64_t> v;
  int next = -1;
  size_t capacity = ~0ul;
  std::string state() const { std::string s = num(next + 1) + ":"; for (auto x : v) s += num(x) + ","; return s; }
  std::string remove(size_t i) {
    uint64_t x = v[i];
    v.erase(v.begin() + (long)i);
    if (next > (int)i) next--;
    if (next >= (int)v.size()) next = -1;
    return num(x);
  }
  std::string apply(const Op &op) {
    switch (op.kind) {
      case 0: if (v.size() >= capacity) return "0"; v.push_back(op.a); if (next < 0) next = (int)v.size() - 1; return "1";
      case 1: {
        if (op.b > v.size() || v.size() >= capacity) return "0";
        int at = (int)op.b, n = (int)v.size();
        v.insert(v.begin() + at, op.a);
        if (next < 0) { if (!n || at == n) next = at; }
        else if (next > at) next++;
        return "1";
      }
      case 2: return op.b >= v.size() ? "0" : remove(op.b);
      case 3: { auto i = std::find(v.begin(), v.end(), op.a); return i == v.end() ? "0" : remove((size_t)(i - v.begin())); }
      case 4: return v.empty() ? "0" : remove(v.size() - 1);
      case 5: return op.b >= v.size() ? "0" : num(v[op.b]);
      case 6: return v.empty() ? "0" : num(v.back());
      case 7: return num(v.size());
      case 8: return v.empty() ? "1" : "0";
      case 9: v.clear(); next = -1; return "";
      case 10: { if (next < 0) return "0"; uint64_t x = v[next]; if (++next >= (int)v.size()) next = -1; return num(x); }
      case 11: next = v.empty() ? -1 : 0; return "";
      default: { std::string s; for (auto x : v) s += num(x) + ","; return s; }
    }
  }
};
PBT_TEST(lists, {.quick = 60000, .thorough = 1500000,
  .rule = "two to four threads append, insert, remove, read and iterate over one list: results and final contents are those of some serial order" RULE}) {
  size_t capacity = src.chance(1, 4) ? 1 + src.pick(4) : 0;
  LinkedListInfo *list = NewLinkedList(capacity);
  ListModel m;
  if (capacity) m.capacity = capacity;
  size_t n = src.size(4);
  for (size_t i = 0; i < n; i++) { Op op; op.a = 1 + src.pick(4); AppendValueToLinkedList(list, (void *)op.a); m.apply(op); }
  auto programs = gen_programs(src, 12, [](Src &s) { Op op; op.kind = (int)s.weighted({5, 3, 4, 3, 4, 3, 2, 1, 1, 1, 3, 1, 0}); op.a = 1 + s.pick(4); op.b = s.pick(4); return op; });
  for (size_t t = 0; t < programs.size(); t++) for (auto &op : programs[t]) src.note("%zu: %s %llu %llu;", t, list_names[op.kind], (unsigned long long)op.a, (unsigned long long)op.b);
  std::vector<Op> closing(3);
  closing[0].kind = 12; closing[1].kind = 7; closing[2].kind = 6;
  History h = perform(src, programs, closing, gen_plan(src), [&](const Op &op) -> std::string {
    switch (op.kind) {
      case 0: return num(AppendValueToLinkedList(list, (void *)op.a));
      case 1: return num(InsertValueInLinkedList(list, op.b, (void *)op.a));
      case 2: return num((uint64_t)RemoveElementFromLinkedList(list, op.b));
      case 3: return num((uint64_t)RemoveElementByValueFromLinkedList(list, (void *)op.a));
      case 4: return num((uint64_t)RemoveLastElementFromLinkedList(list));
      case 5: return num((uint64_t)GetValueFromLinkedList(list, op.b));
      case 6: return num((uint64_t)GetLastValueInLinkedList(list));
      case 7: return num(GetNumberOfElementsInLinkedList(list));
      case 8: return num(IsLinkedListEmpty(list));
      case 9: ClearLinkedList(list, nullptr); return "";
      case 10: return num((uint64_t)GetNextValueInLinkedList(list));
      case 11: ResetLinkedListIterator(list); return "";
      default: {
        std::vector<void *> a(64);
        LinkedListToArray(list, a.data());
        std::string s;
        for (size_t i = 0; i < GetNumberOfElementsInLinkedList(list); i++) s += num((uint64_t)a[i]) + ",";
        return s;
      }
    }
  });
  DestroyLinkedList(list, nullptr);
  CHECK(Serial<ListModel>(h).from(0, m), "no serial order of the threads' operations gives these results, from %s: %s", m.state().c_str(), show(h, list_names).c_str());
}

// maps and trees
static const char *const map_names[] = {"put", "get", "remove", "count", "delete", "remove value", "delete value", "next key", "next value", "reset", "all"};
struct MapModel {
  std::map<uint64_t, uint64_t> m;
  uint64_t next = 0;
  std::string state() const { std::string s = num(next) + ":"; for (auto &x : m) s += num(x.first) + "=" + num(x.second) + ","; return s; }
  std::string apply(const Op &op) {
    auto i = m.find(op.a);
    switch (op.kind) {
      case 0: m[op.a] = op.b; return "1";
      case 1: return i == m.end() ? "0" : num(i->second);
      case 2: { if (i == m.end()) return "0"; uint64_t v = i->second; m.erase(i); return num(v); }
      case 3: return num(m.size());
      case 4: { if (i == m.end()) return "0"; m.erase(i); return "1"; }
      case 5: case 6: for (auto j = m.begin(); j != m.end(); ++j) if (j->second == op.b) { uint64_t k = j->first; m.erase(j); return op.kind == 5 ? num(k) : "1"; } return "0";
      case 7: case 8: {
        if (!next) return "0";
        auto j = m.find(next);
        uint64_t r = op.kind == 7 ? j->first : j->second;
        next = ++j == m.end() ? 0 : j->first;
        return num(r);
      }
      case 9: next = m.empty() ? 0 : m.begin()->first; return "";
      default: { std::string s; for (auto &x : m) s += num(x.first) + "=" + num(x.second) + ","; return s; }
    }
  }
};
static const char *const key_texts[] = {"", "one", "two", "three", "four", "five", "six", "seven", "eight"};
static size_t same_hash(const void *) { return 7; }
static WizardBooleanType same_key(const void *a, const void *b) { return a == b ? WizardTrue : WizardFalse; }
PBT_TEST(maps, {.quick = 50000, .thorough = 1000000,
  .rule = "two to four threads put, get, remove and count entries of one map, with keys that are numbers, texts or all of one hash, and with capacities that grow: results and final entries are those of some serial order" RULE}) {
  int kind = (int)src.pick(3);
  size_t capacity = src.of<size_t>({3, 4, 5, 17});
  HashmapInfo *map = NewHashmap(capacity, kind == 0 ? HashPointerType : kind == 1 ? HashStringType : same_hash, kind == 1 ? CompareHashmapString : same_key, nullptr, nullptr);
  auto key = [&](uint64_t k) -> const void * { return kind == 1 ? (const void *)key_texts[k] : (const void *)k; };
  MapModel m;
  size_t n = src.size(4);
  for (size_t i = 0; i < n; i++) { Op op; op.a = 1 + src.pick(8); op.b = 1 + src.pick(9); CHECK(PutEntryInHashmap(map, key(op.a), (void *)op.b), "putting fails"); m.apply(op); }
  auto programs = gen_programs(src, 12, [](Src &s) { Op op; op.kind = (int)s.weighted({4, 3, 3, 1}); op.a = 1 + s.pick(s.chance(1, 2) ? 2 : 8); op.b = 1 + s.pick(9); return op; });
  for (size_t t = 0; t < programs.size(); t++) for (auto &op : programs[t]) src.note("%zu: %s %llu %llu;", t, map_names[op.kind], (unsigned long long)op.a, (unsigned long long)op.b);
  std::vector<Op> closing(2);
  closing[0].kind = 10; closing[1].kind = 3;
  History h = perform(src, programs, closing, gen_plan(src), [&](const Op &op) -> std::string {
    switch (op.kind) {
      case 0: return num(PutEntryInHashmap(map, key(op.a), (void *)op.b));
      case 1: return num((uint64_t)GetValueFromHashmap(map, key(op.a)));
      case 2: return num((uint64_t)RemoveEntryFromHashmap(map, key(op.a)));
      case 3: return num(GetNumberOfEntriesInHashmap(map));
      default: {
        std::multimap<uint64_t, uint64_t> all;
        ResetHashmapIterator(map);
        for (void *k; (k = GetNextKeyInHashmap(map));) {
          uint64_t x = (uint64_t)k;
          if (kind == 1) for (x = 8; x && key_texts[x] != (const char *)k; x--) {}
          all.insert({x, 0});
          if (all.size() > 40) break;
        }
        std::string s;
        for (auto &x : all) s += num(x.first) + "=" + num((uint64_t)GetValueFromHashmap(map, key(x.first))) + ",";
        return s;
      }
    }
  });
  DestroyHashmap(map);
  CHECK(Serial<MapModel>(h).from(0, m), "no serial order of the threads' operations gives these results, from %s: %s", m.state().c_str(), show(h, map_names).c_str());
}
static int compare_key(const void *a, const void *b) { return a < b ? -1 : a > b; }
PBT_TEST(trees, {.quick = 60000, .thorough = 1500000,
  .rule = "two to four threads add, get, remove, delete, count or iterate over the nodes of one tree: results and final nodes are those of some serial order" RULE}) {
  bool iterate = src.chance(1, 4), texts = src.chance(1, 4);
  SplayTreeInfo *tree = NewSplayTree(texts ? CompareSplayTreeString : src.chance(1, 2) ? compare_key : nullptr, nullptr, nullptr);
  static const char *const words[] = {"", "a", "b", "c", "d", "e"};
  auto key = [&](uint64_t k) -> const void * { return texts ? (const void *)words[k] : (const void *)k; };
  auto back = [&](const void *k) -> uint64_t { if (!texts || !k) return (uint64_t)k; for (uint64_t i = 1; i < 6; i++) if (words[i] == k) return i; return 99; };
  MapModel m;
  size_t n = src.size(4);
  for (size_t i = 0; i < n; i++) { Op op; op.a = 1 + src.pick(5); op.b = 1 + src.pick(9); AddValueToSplayTree(tree, key(op.a), (void *)op.b); m.apply(op); }
  auto programs = gen_programs(src, 12, [&](Src &s) {
    Op op;
    op.kind = (int)(iterate ? s.weighted({3, 2, 0, 1, 0, 0, 0, 4, 4, 2}) : s.weighted({4, 3, 3, 1, 3, 1, 1}));
    op.a = 1 + s.pick(s.chance(1, 2) ? 2 : 5);
    op.b = 1 + s.pick(9);
    return op;
  });
  for (size_t t = 0; t < programs.size(); t++) for (auto &op : programs[t]) src.note("%zu: %s %llu %llu;", t, map_names[op.kind], (unsigned long long)op.a, (unsigned long long)op.b);
  std::vector<Op> closing(2);
  closing[0].kind = 10; closing[1].kind = 3;
  History h = perform(src, programs, closing, gen_plan(src), [&](const Op &op) -> std::string {
    switch (op.kind) {
      case 0: return num(AddValueToSplayTree(tree, key(op.a), (void *)op.b));
      case 1: return num((uint64_t)GetValueFromSplayTree(tree, key(op.a)));
      case 2: return num((uint64_t)RemoveNodeFromSplayTree(tree, key(op.a)));
      case 3: return num(GetNumberOfNodesInSplayTree(tree));
      case 4: return num(DeleteNodeFromSplayTree(tree, key(op.a)));
      case 5: return num(back(RemoveNodeByValueFromSplayTree(tree, (void *)op.b)));
      case 6: return num(DeleteNodeByValueFromSplayTree(tree, (void *)op.b));
      case 7: return num(back(GetNextKeyInSplayTree(tree)));
      case 8: return num((uint64_t)GetNextValueInSplayTree(tree));
      case 9: ResetSplayTreeIterator(tree); return "";
      default: {
        std::vector<const void *> keys;
        ResetSplayTreeIterator(tree);
        for (const void *k; (k = GetNextKeyInSplayTree(tree)) && keys.size() < 40;) keys.push_back(k);
        std::string s;
        for (auto k : keys) s += num(back(k)) + "=" + num((uint64_t)GetValueFromSplayTree(tree, k)) + ",";
        return s;
      }
    }
  });
  DestroySplayTree(tree);
  CHECK(Serial<MapModel>(h).from(0, m), "no serial order of the threads' operations gives these results, from %s: %s", m.state().c_str(), show(h, map_names).c_str());
}

// resources
static const char *const resource_names[] = {"acquire", "relinquish", "usage", "limit"};
struct ResourceModel {
  uint64_t used[6] = {}, limit[6] = {};
  std::string state() const { std::string s; for (int i = 2; i < 6; i++) s += num(used[i]) + "/" + num(limit[i]) + ","; return s; }
  std::string apply(const Op &op) {
    int t = (int)op.a;
    switch (op.kind) {
      case 0: if (used[t] + op.b >= limit[t]) return "0"; used[t] += op.b; return "1";
      case 1: used[t] -= op.b; return "";
      case 2: return num(used[t]);
      default: limit[t] = op.b; return "1";
    }
  }
};
PBT_TEST(resources, {.quick = 50000, .thorough = 1000000,
  .rule = "two to four threads take, give back (what they took) and ask for resources of several kinds under small limits that may change: grants and usages are those of some serial order" RULE}) {
  ResourceModel m;
  for (int t = 2; t < 6; t++) {
    m.limit[t] = 2 + src.pick(12);
    m.used[t] = GetWizardResource((ResourceType)t);
    m.limit[t] += m.used[t];
    SetWizardResourceLimit((ResourceType)t, m.limit[t]);
  }
  int kinds = 1 + (int)src.pick(4);
  auto programs = gen_programs(src, 12, [&](Src &s) { Op op; op.kind = (int)s.weighted({5, 4, 2, 1}); op.a = 2 + s.pick(kinds); op.b = 1 + s.pick(5); if (op.kind == 3) op.b = m.used[op.a] + 2 + s.pick(12); return op; });
  for (size_t t = 0; t < programs.size(); t++) for (auto &op : programs[t]) src.note("%zu: %s %llu %llu;", t, resource_names[op.kind], (unsigned long long)op.a, (unsigned long long)op.b);
  // a thread gives back only what it was granted: other relinquishes become questions
  std::vector<std::map<uint64_t, std::vector<uint64_t>>> held(programs.size());
  std::map<const Op *, size_t> thread_of;
  for (size_t t = 0; t < programs.size(); t++) for (auto &op : programs[t]) thread_of[&op] = t;
  std::vector<Op> closing(4);
  for (int i = 0; i < 4; i++) { closing[i].kind = 2; closing[i].a = (uint64_t)i + 2; }
  std::vector<std::function<void()>> fs;
  for (size_t t = 0; t < programs.size(); t++)
    fs.push_back([&, t] {
      for (auto &op : programs[t]) {
        auto &mine = held[t][op.a];
        if (op.kind == 1) { if (mine.empty()) op.kind = 2; else { op.b = mine.back(); mine.pop_back(); } }
        op.start = ++sched::now;
        switch (op.kind) {
          case 0: { bool ok = AcquireWizardResource((ResourceType)op.a, op.b); op.result = ok ? "1" : "0"; if (ok) mine.push_back(op.b); break; }
          case 1: RelinquishWizardResource((ResourceType)op.a, op.b); break;
          case 2: op.result = num(GetWizardResource((ResourceType)op.a)); break;
          default: op.result = num(SetWizardResourceLimit((ResourceType)op.a, op.b));
        }
        op.end = ++sched::now;
      }
    });
  const char *why = sched::run(fs, gen_plan(src));
  CHECK(!why, "the threads did not end: %s", why);
  if (sched::switches > programs.size()) src.nontrivial();
  History h;
  for (size_t t = 0; t < programs.size(); t++) for (auto &op : programs[t]) { op.thread = (int)t; h.push_back(op); }
  for (auto &op : closing) { op.start = op.end = ++sched::now; op.result = num(GetWizardResource((ResourceType)op.a)); op.thread = -1; h.push_back(op); }
  bool ok = Serial<ResourceModel>(h).from(0, m);
  for (auto &t : held) for (auto &x : t) for (auto v : x.second) RelinquishWizardResource((ResourceType)x.first, v);
  for (int t = 2; t < 6; t++) SetWizardResourceLimit((ResourceType)t, ~0ull);
  CHECK(ok, "no serial order of the threads' operations gives these results, from %s: %s", m.state().c_str(), show(h, resource_names).c_str());
}
PBT_TEST(temporary_files, {.quick = 4000, .thorough = 100000,
  .rule = "two to four threads make and release temporary files: all names differ, each file exists with what its owner wrote until that thread releases it, and all usage is given back" RULE}) {
  std::string dir = fresh_dir();
  SetWizardResourceLimit(FileResource, 1000);
  SetWizardResourceLimit(DiskResource, 1ull << 40);
  { Exc e; char warm[WizardPathExtent]; int fd = AcquireUniqueFileResource(dir.c_str(), warm, e); if (fd >= 0) close(fd); RelinquishUniqueFileResource(warm, WizardTrue); }
  uint64_t used = GetWizardResource(FileResource);
  size_t threads = 2 + src.pick(3);
  struct File { std::string path, text; };
  std::vector<std::vector<int>> ops(threads);
  for (auto &o : ops) { size_t n = 1 + src.pick(4); for (size_t i = 0; i < n; i++) o.push_back((int)src.weighted({3, 1})); }
  std::vector<std::vector<File>> left(threads);
  std::vector<std::string> wrong(threads), names[4];
  std::vector<std::function<void()>> fs;
  for (size_t t = 0; t < threads; t++)
    fs.push_back([&, t] {
      Exc e;
      for (int op : ops[t]) {
        if (op == 0) {
          char path[WizardPathExtent] = "";
          int fd = AcquireUniqueFileResource(dir.c_str(), path, e);
          if (fd < 0) { wrong[t] = "no temporary file"; return; }
          File f{path, fmt("thread %zu file %zu", t, left[t].size())};
          if (write(fd, f.text.data(), f.text.size()) < 0) wrong[t] = "cannot write";
          close(fd);
          names[t].push_back(path);
          left[t].push_back(f);
        } else if (!left[t].empty()) {
          File f = left[t].back();
          left[t].pop_back();
          Bytes b = read_file(f.path);
          if (std::string(b.begin(), b.end()) != f.text) wrong[t] = "temporary file " + f.path + " holds " + hex(b);
          if (!RelinquishUniqueFileResource(f.path.c_str(), WizardTrue)) wrong[t] = "releasing " + f.path + " fails";
          if (file_exists(f.path)) wrong[t] = "released file " + f.path + " is still there";
        }
      }
    });
  const char *why = sched::run(fs, gen_plan(src));
  CHECK(!why, "the threads did not end: %s", why);
  if (sched::switches > threads) src.nontrivial();
  size_t count = 0;
  for (size_t t = 0; t < threads; t++) {
    CHECK(wrong[t].empty(), "thread %zu: %s", t, wrong[t].c_str());
    for (auto &f : left[t]) {
      count++;
      Bytes b = read_file(f.path);
      CHECK(std::string(b.begin(), b.end()) == f.text, "temporary file %s holds %s, not %s", f.path.c_str(), hex(b).c_str(), f.text.c_str());
    }
  }
  uint64_t now = GetWizardResource(FileResource);
  CHECK(now == used + count, "%llu files are counted, not %llu", (unsigned long long)(now - used), (unsigned long long)count);
  for (auto &x : left) for (auto &f : x) CHECK(RelinquishUniqueFileResource(f.path.c_str(), WizardTrue) && !file_exists(f.path), "releasing %s fails", f.path.c_str());
  CHECK(GetWizardResource(FileResource) == used, "the file usage is not given back");
}

// random numbers
PBT_TEST(random_keys, {.quick = 15000, .thorough = 300000,
  .rule = "two to four threads draw keys of 16 to 40 bytes and values from one generator: no two keys share any eight bytes in a row, and values are in range" RULE}) {
  static RandomInfo *random_info = nullptr;
  if (!random_info) random_info = AcquireRandomInfo(SHA2256Hash);
  size_t threads = 2 + src.pick(3);
  std::vector<std::vector<size_t>> ops(threads);
  for (auto &o : ops) { size_t n = 1 + src.pick(4); for (size_t i = 0; i < n; i++) o.push_back(src.chance(1, 6) ? 0 : 16 + src.pick(25)); }
  std::vector<std::vector<Bytes>> keys(threads);
  std::vector<std::string> wrong(threads);
  std::vector<std::function<void()>> fs;
  for (size_t t = 0; t < threads; t++)
    fs.push_back([&, t] {
      for (size_t n : ops[t]) {
        if (!n) {
          double v = GetRandomValue(random_info);
          if (!(v >= 0 && v <= 1)) wrong[t] = fmt("value %g", v);
          continue;
        }
        Bytes b(n);
        SetRandomKey(random_info, n, b.data());
        keys[t].push_back(b);
      }
    });
  const char *why = sched::run(fs, gen_plan(src));
  CHECK(!why, "the threads did not end: %s", why);
  if (sched::switches > threads) src.nontrivial();
  std::set<std::string> eights;
  for (size_t t = 0; t < threads; t++) {
    CHECK(wrong[t].empty(), "thread %zu: %s", t, wrong[t].c_str());
    for (auto &b : keys[t])
      for (size_t i = 0; i + 8 <= b.size(); i++)
        CHECK(eights.insert(std::string(b.begin() + (long)i, b.begin() + (long)i + 8)).second, "the bytes %s were drawn twice", hex(b.data() + i, 8).c_str());
  }
}

// tables that are read in when they are first needed
PBT_TEST(lookups, {.quick = 2000, .thorough = 30000,
  .rule = "two to four threads look up MIME types, configuration values and messages at once, all for the first time: each gets what a single thread gets" RULE}) {
  struct Ask { int kind; std::string key; };
  auto answer = [](const Ask &a) -> std::string {
    ExceptionInfo *e = AcquireExceptionInfo();
    std::string r;
    switch (a.kind) {
      case 0: {
        const MimeInfo *m = GetMimeInfo(a.key.c_str(), (const unsigned char *)a.key.data(), a.key.size(), e);
        r = m && GetMimeType(m) ? GetMimeType(m) : "-";
        break;
      }
      case 1: {
        const ConfigureInfo *c = GetConfigureInfo(a.key.c_str(), e);
        r = c && GetConfigureValue(c) ? GetConfigureValue(c) : "-";
        break;
      }
      case 2: {
        const char *m = GetLocaleMessage(a.key.c_str());
        r = m ? m : "-";
        break;
      }
      default: {
        size_t n = 0;
        char **list = GetMimeList("image/*", &n, e);
        for (size_t i = 0; i < n; i++) { r += list[i]; r += ","; RelinquishWizardMemory(list[i]); }
        if (list) RelinquishWizardMemory(list);
      }
    }
    DestroyExceptionInfo(e);
    return r;
  };
  size_t threads = 2 + src.pick(3);
  std::vector<std::vector<Ask>> asks(threads);
  int only = src.chance(1, 2) ? (int)src.pick(3) : -1;
  for (auto &x : asks) {
    size_t n = 1 + src.pick(2);
    for (size_t i = 0; i < n; i++) {
      Ask a{only >= 0 ? only : (int)src.weighted({3, 3, 3, 1}), ""};
      a.key = a.kind == 0 ? src.of<std::string>({"a.png", "b.txt", "c.pdf", "\x89PNG\r\n\x1a\n", "x", "d.html"}) : a.kind == 1 ? src.of<std::string>({"CC", "NAME", "VERSION", "none", "CFLAGS"}) : src.of<std::string>({"Blob/Error/UnableToOpenFile", "Blob/Error/", "none/such", "Option/Error/UnrecognizedOption"});
      x.push_back(a);
    }
  }
  static std::map<std::pair<int, std::string>, std::string> alone;  // answers with the tables freshly read by one thread
  auto fresh = [] {
    MimeComponentTerminus(); LocaleComponentTerminus(); ConfigureComponentTerminus();
  };
  for (auto &x : asks) for (auto &a : x) if (!alone.count({a.kind, a.key})) { fresh(); alone[{a.kind, a.key}] = answer(a); }
  std::vector<std::vector<std::string>> got(threads);
  std::vector<std::function<void()>> fs;
  for (size_t t = 0; t < threads; t++) fs.push_back([&, t] { for (auto &a : asks[t]) got[t].push_back(answer(a)); });
  std::vector<sched::Switch> plan = gen_plan(src);
  if (src.chance(2, 3)) for (auto &s : plan) s.after *= src.of<uint32_t>({1, 10, 300});
  bool warm = src.chance(1, 3);
  fresh();
  if (warm) for (auto &x : asks) for (auto &a : x) answer(a);
  const char *why = sched::run(fs, plan);
  CHECK(!why, "the threads did not end: %s", why);
  if (sched::switches > threads) src.nontrivial();
  for (size_t t = 0; t < threads; t++)
    for (size_t i = 0; i < asks[t].size(); i++)
      CHECK((got[t][i] == alone[{asks[t][i].kind, asks[t][i].key}]), "thread %zu is told %s for %s, not %s", t, quote(got[t][i]).c_str(), quote(asks[t][i].key).c_str(), quote(alone[{asks[t][i].kind, asks[t][i].key}]).c_str());
}

// exceptions and semaphores
static std::vector<std::string> caught;
static void catcher(const ExceptionType, const char *reason, const char *) { caught.push_back(reason ? reason : "-"); }
PBT_TEST(exceptions, {.quick = 40000, .thorough = 800000,
  .rule = "two to four threads throw records into one exception object, inherit from it or catch it: every record is delivered once, and those of one thread in order" RULE}) {
  ExceptionInfo *shared = AcquireExceptionInfo();
  caught.clear();
  WarningHandler w = SetWarningHandler(catcher);
  ErrorHandler e = SetErrorHandler(catcher);
  size_t threads = 2 + src.pick(3);
  std::vector<std::vector<int>> ops(threads);
  bool catching = src.chance(1, 3);
  for (auto &o : ops) { size_t n = 1 + src.pick(4); for (size_t i = 0; i < n; i++) o.push_back((int)src.weighted({5, 1, catching ? 2u : 0u, 1})); }
  std::vector<std::function<void()>> fs;
  size_t thrown = 0;
  for (size_t t = 0; t < threads; t++) for (int op : ops[t]) thrown += op == 0 || op == 1;
  for (size_t t = 0; t < threads; t++)
    fs.push_back([&, t] {
      int i = 0;
      for (int op : ops[t]) {
        std::string text = fmt("%zu/%d", t, i++);
        switch (op) {
          case 0: ThrowException(shared, i % 2 ? (ExceptionType)BlobError : (ExceptionType)BlobWarning, text.c_str(), "d"); break;
          case 1: {
            ExceptionInfo *own = AcquireExceptionInfo();
            ThrowException(own, (ExceptionType)BlobError, text.c_str(), nullptr);
            InheritException(shared, own);
            DestroyExceptionInfo(own);
            break;
          }
          case 2: CatchException(shared); break;
          default: {
            ExceptionInfo *own = AcquireExceptionInfo();
            InheritException(own, shared);
            ClearWizardException(own);
            DestroyExceptionInfo(own);
          }
        }
      }
    });
  const char *why = sched::run(fs, gen_plan(src));
  if (!why) { CatchException(shared); DestroyExceptionInfo(shared); }
  SetWarningHandler(w);
  SetErrorHandler(e);
  CHECK(!why, "the threads did not end: %s", why);
  if (sched::switches > threads) src.nontrivial();
  std::map<int, int> last;
  std::string all;
  for (auto &s : caught) all += s + " ";
  CHECK(caught.size() == thrown, "%zu records were delivered, not %zu: %s", caught.size(), thrown, all.c_str());
  for (auto &s : caught) {
    int t = -1, i = -1;
    sscanf(s.c_str(), "%d/%d", &t, &i);
    CHECK(!last.count(t) || last[t] < i, "records are delivered out of order: %s", all.c_str());
    last[t] = i;
  }
}
PBT_TEST(semaphores, {.quick = 40000, .thorough = 800000,
  .rule = "two to four threads activate one semaphore and lock it around work on a shared number: all get the same semaphore, and never two are inside" RULE}) {
  SemaphoreInfo *s = nullptr;
  size_t threads = 2 + src.pick(3), rounds = 1 + src.pick(4);
  int inside = 0, most = 0;
  size_t total = 0;
  std::set<SemaphoreInfo *> seen;
  std::vector<std::function<void()>> fs;
  for (size_t t = 0; t < threads; t++)
    fs.push_back([&] {
      for (size_t i = 0; i < rounds; i++) {
        ActivateSemaphoreInfo(&s);
        SemaphoreInfo *mine = s;
        seen.insert(mine);
        LockSemaphoreInfo(mine);
        most = std::max(most, ++inside);
        size_t v = total;
        for (int k = 0; k < 5; k++) sched::point();
        total = v + 1;
        inside--;
        UnlockSemaphoreInfo(mine);
      }
    });
  auto plan = gen_plan(src);
  const char *why = sched::run(fs, plan);
  CHECK(!why, "the threads did not end: %s", why);
  if (sched::switches > threads) src.nontrivial();
  CHECK(seen.size() == 1, "%zu semaphores were made", seen.size());
  CHECK(most == 1, "%d threads were inside at once", most);
  CHECK(total == threads * rounds, "%zu rounds were counted, not %zu", total, threads * rounds);
  RelinquishSemaphoreInfo(&s);
  CHECK(!s, "a relinquished semaphore is left");
}
// each thread with its own objects
static std::string work(int kind, int which, const std::string &text) {
  SI key(si(std::string("0123456789abcdef0123456789abcdef").substr(0, which % 2 ? 16 : 32)));
  switch (kind) {
    case 0: case 1: {
      static const HashType types[] = {CRC64Hash, MD5Hash, SHA1Hash, SHA2224Hash, SHA2256Hash, SHA2384Hash, SHA2512Hash, SHA3224Hash, SHA3512Hash};
      HashInfo *h = AcquireHashInfo(types[which % 9]);
      SI data(si(text));
      InitializeHash(h);
      UpdateHash(h, data);
      UpdateHash(h, data);
      FinalizeHash(h);
      char *d = GetHashHexDigest(h);
      std::string r = d;
      DestroyString(d);
      DestroyHashInfo(h);
      return r;
    }
    default: {
      static const CipherType types[] = {AESCipher, SerpentCipher, TwofishCipher, ChachaCipher};
      static const CipherMode modes[] = {CBCMode, CFBMode, CTRMode, ECBMode, OFBMode};
      CipherMode mode = modes[which / 4 % 5];
      CipherInfo *c = AcquireCipherInfo(types[which % 4], mode);
      SetCipherKey(c, key);
      std::string nonce(GetCipherBlocksize(c), 'n');
      SI n(si(nonce));
      SetCipherNonce(c, n);
      StringInfo *t = si(text);
      t = EncipherCipher(c, t);
      size_t size = GetStringInfoLength(t);
      if (mode == CBCMode || mode == ECBMode) size = std::min(size, text.size() - text.size() % nonce.size());  // the last block is filled up at random
      std::string r = hex(GetStringInfoDatum(t), size, 10000);
      DestroyStringInfo(t);
      DestroyCipherInfo(c);
      return r;
    }
  }
}
PBT_TEST(own_objects, {.quick = 10000, .thorough = 200000,
  .rule = "two to four threads digest and encipher with objects of their own: each gets what it gets alone" RULE}) {
  struct Job { int kind, which; std::string text, alone, got; };
  size_t threads = 2 + src.pick(3);
  std::vector<std::vector<Job>> jobs(threads);
  for (auto &x : jobs) { size_t n = 1 + src.pick(2); for (size_t i = 0; i < n; i++) x.push_back({(int)src.pick(4), (int)src.pick(40), src.text(src.size(100), "abcdef"), "", ""}); }
  if (src.chance(1, 2)) for (auto &x : jobs) for (auto &j : x) j.kind = jobs[0][0].kind, j.which = jobs[0][0].which;  // all the same kind
  for (auto &x : jobs) for (auto &j : x) j.alone = work(j.kind, j.which, j.text);
  std::vector<std::function<void()>> fs;
  for (size_t t = 0; t < threads; t++) fs.push_back([&, t] { for (auto &j : jobs[t]) j.got = work(j.kind, j.which, j.text); });
  std::vector<sched::Switch> plan = gen_plan(src);
  uint32_t scale = src.of<uint32_t>({1, 3, 10, 40});
  for (auto &s : plan) s.after *= scale;
  const char *why = sched::run(fs, plan);
  CHECK(!why, "the threads did not end: %s", why);
  if (sched::switches > threads) src.nontrivial();
  for (auto &x : jobs) for (auto &j : x) CHECK(j.got == j.alone, "%s %d of %s gives %s with other threads, and %s alone", j.kind < 2 ? "digest" : "cipher", j.which, quote(j.text).c_str(), j.got.c_str(), j.alone.c_str());
}
