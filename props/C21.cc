// C21: linked lists against std::vector.
#include "wt.h"
using namespace pbt;

struct Val { int key, id; };
static Val pool[64];
static int cmp(const void *a, const void *b) { return ((const Val *)a)->key - ((const Val *)b)->key; }
static std::vector<void *> *released;
static void *release(void *p) { released->push_back(p); return nullptr; }
static std::string nm(const void *p) {
  if (!p) return "null";
  const Val *v = (const Val *)p;
  if (v < pool || v >= pool + 64) return "garbage";
  return fmt("v%d(key %d)", v->id, v->key);
}

struct L {
  LinkedListInfo *l;
  size_t cap;
  std::vector<void *> m;
  size_t it = 0;       // index of the element the iterator returns next
  bool known = true;   // the iterator position is specified
  bool sorted = true;
};

static void agree(L &x, const char *op) {
  size_t n = x.m.size();
  CHECK(GetNumberOfElementsInLinkedList(x.l) == n, "%s: %zu elements, expected %zu", op, GetNumberOfElementsInLinkedList(x.l), n);
  CHECK((IsLinkedListEmpty(x.l) != WizardFalse) == (n == 0), "%s: emptiness is wrong", op);
  std::vector<void *> a(n + 1, nullptr);
  if (LinkedListToArray(x.l, a.data()) == WizardFalse) CHECK(false, "%s: no array", op);
  for (size_t i = 0; i < n; i++)
    CHECK(a[i] == x.m[i], "%s: array element %zu of %zu is %s, expected %s", op, i, n, nm(a[i]).c_str(), nm(x.m[i]).c_str());
  CHECK(a[n] == nullptr, "%s: array has more than %zu elements", op, n);
  for (size_t i = 0; i < n; i++) {
    void *p = GetValueFromLinkedList(x.l, i);
    CHECK(p == x.m[i], "%s: element %zu of %zu is %s, expected %s", op, i, n, nm(p).c_str(), nm(x.m[i]).c_str());
  }
  CHECK(GetValueFromLinkedList(x.l, n) == nullptr, "%s: an element beyond the end", op);
  void *p = GetLastValueInLinkedList(x.l);
  CHECK(p == (n ? x.m[n - 1] : nullptr), "%s: last is %s", op, nm(p).c_str());
}

PBT_TEST(linked_list_history, {.quick = 250000, .thorough = 5000000,
  .rule = "up to 60 operations on up to 2 lists of optional limited capacity, compared with vectors after every step; non-trivial: some list reaches 3 elements and an element is removed or inserted in the middle"}) {
  for (int i = 0; i < 64; i++) pool[i] = {i / 2, i};
  std::vector<void *> rel;
  released = &rel;
  L ls[2];
  for (auto &x : ls) {
    x.cap = src.chance(1, 4) ? src.range(1, 6) : 0;
    x.l = NewLinkedList(x.cap);
    CHECK(x.l, "no list");
  }
  size_t ops = src.size(60), biggest = 0;
  bool middle = false;
  for (size_t k = 0; k < ops; k++) {
    L &x = ls[src.chance(1, 4)];
    int which = (int)(&x - ls);
    bool full = x.cap && x.m.size() == x.cap;
    size_t n = x.m.size();
    void *v = &pool[src.pick(64)];
    switch (src.pick(14)) {
      case 0: case 1: case 2: {
        src.note("append%d(%s)", which, nm(v).c_str());
        bool ok = AppendValueToLinkedList(x.l, v) != WizardFalse;
        CHECK(ok == !full, "append to %zu of %zu: status %d", n, x.cap, ok);
        if (ok) { x.m.push_back(v); x.sorted = false; }
        break;
      }
      case 3: case 4: case 5: {
        size_t i = src.range(0, n + 1);
        src.note("insert%d(%zu,%s)", which, i, nm(v).c_str());
        bool ok = InsertValueInLinkedList(x.l, i, v) != WizardFalse;
        CHECK(ok == (!full && i <= n), "insert at %zu in %zu of capacity %zu: status %d", i, n, x.cap, ok);
        if (ok) {
          x.m.insert(x.m.begin() + i, v);
          if (i < x.it) x.it++;
          x.sorted = false;
          if (i && i < n) middle = true;
        }
        break;
      }
      case 6: {
        if (!x.sorted) {  // sort first: rebuild
          ClearLinkedList(x.l, nullptr);
          std::stable_sort(x.m.begin(), x.m.end(), [](void *a, void *b) { return cmp(a, b) < 0; });
          for (void *p : x.m) CHECK(AppendValueToLinkedList(x.l, p) != WizardFalse, "cannot append");
          ResetLinkedListIterator(x.l);
          x.it = 0;
          x.known = true;
          x.sorted = true;
        }
        bool rep = src.chance(1, 2);
        void *old = nullptr;
        src.note("sorted%d(%s,%d)", which, nm(v).c_str(), rep);
        bool ok = InsertValueInSortedLinkedList(x.l, cmp, rep ? &old : nullptr, v) != WizardFalse;
        CHECK(ok == !full, "sorted insert into %zu of %zu: status %d", n, x.cap, ok);
        if (!ok) { CHECK(old == nullptr, "replaced although it failed"); break; }
        size_t i = 0;
        void *exp = nullptr;
        while (i < n && cmp(v, x.m[i]) >= 0) {
          if (rep && cmp(v, x.m[i]) == 0) { exp = x.m[i]; break; }
          i++;
        }
        CHECK(old == exp, "replaced %s, expected %s", nm(old).c_str(), nm(exp).c_str());
        if (exp) x.m[i] = v;
        else x.m.insert(x.m.begin() + i, v);
        x.known = false;
        middle |= i && i < n;
        break;
      }
      case 7: {
        size_t i = src.range(0, n);
        src.note("remove%d(%zu)", which, i);
        void *p = RemoveElementFromLinkedList(x.l, i);
        CHECK(p == (i < n ? x.m[i] : nullptr), "remove at %zu of %zu gave %s", i, n, nm(p).c_str());
        if (i < n) {
          x.m.erase(x.m.begin() + i);
          if (i < x.it) x.it--;
          if (i && i + 1 < n) middle = true;
        }
        break;
      }
      case 8: {
        if (n && src.chance(3, 4)) v = x.m[src.pick(n)];
        src.note("removevalue%d(%s)", which, nm(v).c_str());
        void *p = RemoveElementByValueFromLinkedList(x.l, v);
        auto f = std::find(x.m.begin(), x.m.end(), v);
        CHECK(p == (f == x.m.end() ? nullptr : v), "remove by value gave %s", nm(p).c_str());
        if (f != x.m.end()) {
          size_t i = f - x.m.begin();
          x.m.erase(f);
          if (i < x.it) x.it--;
        }
        break;
      }
      case 9: {
        src.note("removelast%d()", which);
        void *p = RemoveLastElementFromLinkedList(x.l);
        CHECK(p == (n ? x.m[n - 1] : nullptr), "remove last gave %s", nm(p).c_str());
        if (n) {
          if (x.it == n) x.it--;
          x.m.pop_back();
        }
        break;
      }
      case 10: {
        src.note("reset%d()", which);
        ResetLinkedListIterator(x.l);
        x.it = 0;
        x.known = true;
        break;
      }
      case 11: {
        size_t c = 1 + src.size(8);
        src.note("next%d(%zu)", which, c);
        while (c--) {
          void *p = GetNextValueInLinkedList(x.l);
          if (!x.known) {
            CHECK(!p || std::find(x.m.begin(), x.m.end(), p) != x.m.end(), "iterated to %s, which is not in the list", nm(p).c_str());
            continue;
          }
          void *e = x.it < x.m.size() ? x.m[x.it] : nullptr;
          CHECK(p == e, "iterator gave %s, expected %s (position %zu of %zu)", nm(p).c_str(), nm(e).c_str(), x.it, x.m.size());
          if (p) x.it++;
        }
        break;
      }
      case 12: {
        if (!src.chance(1, 4)) break;
        src.note("clear%d()", which);
        rel.clear();
        bool r = src.chance(1, 2);
        ClearLinkedList(x.l, r ? release : nullptr);
        CHECK(rel == (r ? x.m : std::vector<void *>()), "clear released %zu of %zu values", rel.size(), x.m.size());
        x.m.clear();
        x.it = 0;
        x.known = true;
        x.sorted = true;
        break;
      }
      default: {
        if (!src.chance(1, 4)) break;
        src.note("invalid%d()", which);
        CHECK(InsertValueInLinkedList(x.l, 0, nullptr) == WizardFalse, "inserted a null value");
        CHECK(InsertValueInSortedLinkedList(x.l, cmp, nullptr, nullptr) == WizardFalse, "inserted a null value");
        CHECK(RemoveElementByValueFromLinkedList(x.l, nullptr) == nullptr, "removed a null value");
        CHECK(RemoveElementFromLinkedList(x.l, n) == nullptr, "removed beyond the end");
        CHECK(LinkedListToArray(x.l, nullptr) == WizardFalse, "wrote to a null array");
      }
    }
    biggest = std::max(biggest, x.m.size());
    agree(x, "after operation");
  }
  for (auto &x : ls) {
    rel.clear();
    agree(x, "at the end");
    CHECK(DestroyLinkedList(x.l, release) == nullptr, "destroy returned a pointer");
    CHECK(rel == x.m, "destroy released %zu values, expected %zu", rel.size(), x.m.size());
  }
  if (biggest >= 3 && middle) src.nontrivial();
}
