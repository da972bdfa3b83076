// C34: memory requests are overflow safe, aligned and preserve contents.
#include "wt.h"
#include "hooks.h"
#include <algorithm>
#include <filesystem>
#include <map>
#include <memory>
#include <stdlib.h>
#include <sys/mman.h>
extern "C" {
#include "wizard/memory_.h"
#include "wizard/resource_.h"
}
using namespace pbt;
typedef unsigned __int128 u128;
static int refuse_maps = 0;  // 1: anonymous, 2: all
extern "C" void *mmap(void *a, size_t n, int prot, int flags, int fd, off_t off) {
  if (refuse_maps == 2 || (refuse_maps == 1 && (flags & MAP_ANONYMOUS))) { errno = ENOMEM; return MAP_FAILED; }
  return (void *)syscall(SYS_mmap, a, n, prot, flags, fd, off);
}
// an allocator that knows every block
static std::map<void *, size_t> blocks;
static size_t fail_at = 0, handler_calls = 0;
static bool bad_free = false;
static const size_t kMost = 64 << 20;
static void *my_acquire(size_t n) {
  if (++handler_calls == fail_at || n > kMost) { errno = ENOMEM; return nullptr; }
  void *p = malloc(n);
  if (p) blocks[p] = n;
  return p;
}
static void *my_resize(void *p, size_t n) {
  if (++handler_calls == fail_at || n > kMost) { errno = ENOMEM; return nullptr; }
  auto it = blocks.find(p);
  if (it == blocks.end()) { bad_free = true; return nullptr; }
  size_t old = it->second;
  void *q = malloc(n);  // always moves
  if (!q) return nullptr;
  memcpy(q, p, std::min(old, n));
  blocks.erase(it);
  free(p);
  blocks[q] = n;
  return q;
}
static void my_destroy(void *p) {
  if (!blocks.erase(p)) { bad_free = true; return; }
  free(p);
}
struct Own {
  Own() { blocks.clear(); fail_at = handler_calls = 0; bad_free = false; SetWizardMemoryMethods(my_acquire, my_resize, my_destroy); }
  ~Own() { SetWizardMemoryMethods(malloc, realloc, free); for (auto &b : blocks) free(b.first); blocks.clear(); refuse_maps = 0; }
};
static uint64_t edge(Src &src) {
  switch (src.weighted({3, 3, 2, 1})) {
    case 0: return src.size(40);
    case 1: return (1ull << src.range(0, 63)) + (uint64_t)src.irange(-1, 1);
    case 2: return ~0ull - src.size(20);
    default: return src.u64();
  }
}
// pairs whose product is near the edge of what can be represented
static std::pair<size_t, size_t> gen_pair(Src &src) {
  if (src.chance(1, 3)) return {edge(src), edge(src)};
  uint64_t a = std::max<uint64_t>(1, src.chance(1, 2) ? src.range(1, 300) : edge(src));
  uint64_t b = src.chance(1, 2) ? ~0ull / a + (uint64_t)src.irange(-1, 2) : src.chance(1, 2) ? ((1ull << 63) / a + (uint64_t)src.irange(-1, 2)) : src.size(3000);
  return src.chance(1, 2) ? std::pair<size_t, size_t>{a, b} : std::pair<size_t, size_t>{b, a};
}

PBT_TEST(overflow, {.quick = 2000000, .thorough = 150000000,
  .rule = "counts and sizes whose product is around the largest number, around half of it, small, or zero, asked of every kind of request: a product that cannot be represented, or a count of zero, gives nothing and no block is left or passed to the allocator, anything else of a sensible size gives a block of that size; non-trivial: the product cannot be represented"}) {
  auto [count, quantum] = gen_pair(src);
  u128 want = (u128)count * quantum;
  bool over = want >> 64 != 0;
  src.note("%zu x %zu", count, quantum);
  if (over) src.nontrivial();
  int kind = (int)src.pick(4);
  std::unique_ptr<Own> own(kind == 3 ? nullptr : new Own);
  bool none = over || count == 0;
  if (kind == 1 && !none && want > kMost) return;   // the aligned allocator is the system's
  if (kind == 3 && !none && want > kMost) return;
  errno = 0;
  switch (kind) {
    case 0: case 2: {
      void *p = nullptr;
      if (kind == 2) { p = AcquireWizardMemory(10); memset(p, 'x', 10); }
      handler_calls = 0;
      p = kind == 2 ? ResizeQuantumMemory(p, count, quantum) : AcquireQuantumMemory(count, quantum);
      if (none) {
        CHECK(!p, "a block for %zu x %zu", count, quantum);
        CHECK(handler_calls == 0, "the allocator was asked for %zu x %zu", count, quantum);
        CHECK(errno == ENOMEM, "no error given for %zu x %zu", count, quantum);
      } else if (want <= kMost) {
        CHECK(p, "no block for %zu x %zu", count, quantum);
        CHECK(blocks.count(p) && blocks[p] >= (size_t)want && blocks[p] >= 1, "%zu bytes for %zu x %zu", blocks[p], count, quantum);
        if (kind == 2) for (size_t i = 0; i < std::min<size_t>(10, (size_t)want); i++) CHECK(((char *)p)[i] == 'x', "resizing lost the contents");
        CHECK(!RelinquishWizardMemory(p), "release gives something");
      } else CHECK(!p, "a block the allocator refused");
      break;
    }
    case 1: {
      void *p = AcquireAlignedMemory(count, quantum);
      if (none || want == 0) CHECK(!p, "an aligned block for %zu x %zu", count, quantum);
      else {
        CHECK(p && (uintptr_t)p % 64 == 0, "no aligned block for %zu x %zu: %p", count, quantum, p);
        if (want <= 1 << 20) memset(p, 1, (size_t)want);
        else { ((char *)p)[0] = 1; ((char *)p)[(size_t)want - 1] = 1; }
      }
      RelinquishAlignedMemory(p);
      break;
    }
    default: {
      Exc e;
      if (!none && want == 0) return;
      for (auto t : {MemoryResource, MapResource, DiskResource}) SetWizardResourceLimit(t, ~0ull);
      MemoryInfo *m = AcquireVirtualMemory(count, quantum, e);
      if (none) CHECK(!m, "virtual memory for %zu x %zu", count, quantum);
      else {
        CHECK(m && GetVirtualMemoryBlob(m), "no virtual memory for %zu x %zu", count, quantum);
        char *p = (char *)GetVirtualMemoryBlob(m);
        p[0] = 1;
        p[(size_t)want - 1] = 1;
        RelinquishVirtualMemory(m);
      }
      for (auto t : {MemoryResource, MapResource, DiskResource, FileResource}) CHECK(GetWizardResource(t) == 0, "usage %llu of resource %d is left", (unsigned long long)GetWizardResource(t), (int)t);
    }
  }
  CHECK(!bad_free && blocks.empty(), "%zu blocks are left", blocks.size());
}

struct Block { unsigned char *p; Bytes model; int kind; std::vector<bool> known; };
PBT_TEST(block_histories, {.quick = 400000, .thorough = 6000000,
  .rule = "up to 60 requests, resizes, copies (also overlapping ones), fills and releases of plain, counted and aligned blocks of 0..5000 bytes, compared with a model of their contents, one request of the allocator refused in a part of the cases: contents survive, alignment holds, a refused request leaves nothing behind; non-trivial: a block was resized or copied over itself"}) {
  Own own;
  std::vector<Block> live;
  size_t ops = src.size(60);
  if (src.chance(1, 3)) fail_at = 1 + src.size(20);
  bool moved = false;
  auto gen_n = [&] { return src.size(5000, {0, 1, 7, 8, 9, 63, 64, 65, 2048, 2049, 4096, 4097}); };
  for (size_t i = 0; i < ops; i++) {
    size_t k = live.empty() ? 0 : src.pick(live.size());
    switch (live.empty() ? 0 : src.weighted({4, 4, 5, 2, 2})) {
      case 0: {
        size_t n = gen_n();
        Block b{nullptr, {}, (int)src.pick(3), {}};
        size_t before = handler_calls;
        size_t q = 1 + src.size(16);
        size_t have = blocks.size();
        if (b.kind == 0) b.p = (unsigned char *)AcquireWizardMemory(n);
        else if (b.kind == 1) { n = (n / q + 1) * q; b.p = (unsigned char *)AcquireQuantumMemory(n / q, q); }
        else { n = (n / q + 1) * q; b.p = (unsigned char *)AcquireAlignedMemory(n / q, q); }
        src.note("new%d %zu;", b.kind, n);
        bool refused = fail_at > before && fail_at <= handler_calls;
        CHECK(refused == !b.p, "a request of %zu bytes %s", n, refused ? "succeeded though refused" : "failed");
        if (refused) { CHECK(blocks.size() == have, "a refused request left a block"); break; }
        if (b.kind == 2) CHECK((uintptr_t)b.p % 64 == 0, "%p is not aligned", (void *)b.p);
        b.model = src.blob(n);
        std::copy(b.model.begin(), b.model.end(), b.p);
        b.known.assign(n, true);
        live.push_back(b);
        break;
      }
      case 1: {
        Block &b = live[k];
        if (b.kind == 2) break;
        size_t n = gen_n(), q = 1 + src.size(16), before = handler_calls;
        bool counted = src.chance(1, 2);
        if (counted) n = (n / q + 1) * q;
        src.note("resize %zu->%zu;", b.model.size(), n);
        b.p = (unsigned char *)(counted ? ResizeQuantumMemory(b.p, n / q, q) : ResizeWizardMemory(b.p, n));
        bool refused = fail_at > before && fail_at <= handler_calls;
        CHECK(refused == !b.p, "a resize to %zu bytes %s", n, refused ? "succeeded though refused" : "failed");
        if (refused) { live.erase(live.begin() + (ssize_t)k); break; }
        moved = true;
        size_t old = b.model.size();
        for (size_t j = 0; j < std::min(old, n); j++) CHECK(b.p[j] == b.model[j], "byte %zu of %zu changed when resizing to %zu", j, old, n);
        b.model.resize(n);
        for (size_t j = old; j < n; j++) b.p[j] = b.model[j] = src.chance(1, 50) ? src.byte() : (uint8_t)j;
        break;
      }
      case 2: {
        Block &a = live[k], &b = live[src.chance(1, 2) ? k : src.pick(live.size())];
        size_t n = src.chance(1, 3) ? src.size(std::min({a.model.size(), b.model.size(), (size_t)10})) : src.size(std::min(a.model.size(), b.model.size()));
        size_t from = src.size(a.model.size() - n), to = src.size(b.model.size() - n);
        if (&a == &b && src.chance(2, 3)) {  // close together
          long d = src.irange(-10, 10) + (src.chance(1, 3) ? (long)n : 0);
          to = (size_t)std::clamp<long>((long)from + d, 0, (long)(b.model.size() - n));
        }
        src.note("copy %zu %zu->%zu%s;", n, from, to, &a == &b ? " same" : "");
        if (&a == &b && n && from != to) moved = true;
        CHECK(CopyWizardMemory(b.p + to, a.p + from, n) == b.p + to, "copying gives another address");
        Bytes part(a.model.begin() + (ssize_t)from, a.model.begin() + (ssize_t)(from + n));
        std::copy(part.begin(), part.end(), b.model.begin() + (ssize_t)to);
        break;
      }
      case 3: {
        Block &b = live[k];
        size_t n = src.size(b.model.size()), at = src.size(b.model.size() - n);
        int c = (int)src.irange(-300, 600);
        CHECK(ResetWizardMemory(b.p + at, c, n) == b.p + at, "filling gives another address");
        std::fill(b.model.begin() + (ssize_t)at, b.model.begin() + (ssize_t)(at + n), (uint8_t)c);
        break;
      }
      default: {
        Block &b = live[k];
        CHECK(!(b.kind == 2 ? RelinquishAlignedMemory(b.p) : RelinquishWizardMemory(b.p)), "release gives something");
        live.erase(live.begin() + (ssize_t)k);
      }
    }
    for (auto &b : live) CHECK(std::equal(b.model.begin(), b.model.end(), b.p), "a block of %zu bytes changed", b.model.size());
  }
  if (moved) src.nontrivial();
  for (auto &b : live) b.kind == 2 ? RelinquishAlignedMemory(b.p) : RelinquishWizardMemory(b.p);
  CHECK(!RelinquishWizardMemory(nullptr) && !RelinquishAlignedMemory(nullptr), "releasing nothing gives something");
  CHECK(!bad_free && blocks.empty(), "%zu blocks are left", blocks.size());
}

struct Virtual { MemoryInfo *m; unsigned char *p; size_t n; uint64_t use[4]; uint8_t seed; };
PBT_TEST(virtual_memory, {.quick = 100000, .thorough = 1500000,
  .rule = "up to 12 large requests and releases under random limits of memory, maps, disk and files, with anonymous or all mappings refused and the disk failing in a part of the cases: the block is usable throughout and comes from the first source whose limit allows it, the usage is that of the blocks held, and everything, temporary files included, is given back on release; non-trivial: a request went past the first source"}) {
  std::string dir = fresh_dir();
  setenv("WIZARD_TMPDIR", dir.c_str(), 1);
  static const ResourceType types[4] = {MemoryResource, MapResource, DiskResource, FileResource};
  static const char *const names[4] = {"memory", "map", "disk", "file"};
  uint64_t limit[4], used[4] = {0};
  for (int t = 0; t < 4; t++) {
    limit[t] = t == 3 ? (src.chance(1, 4) ? src.range(0, 4) : 100) : src.weighted({2, 2, 1}) == 0 ? 0 : src.chance(1, 2) ? src.range(0, 200000) : ~0ull;
    SetWizardResourceLimit(types[t], limit[t]);
  }
  {  // the generator of names is ready
    char name[WizardPathExtent];
    Exc e;
    SetWizardResourceLimit(FileResource, 100);
    CHECK(AcquireUniqueFilename(name, e) && RelinquishUniqueFileResource(name, WizardTrue), "no temporary file");
    SetWizardResourceLimit(FileResource, limit[3]);
  }
  std::vector<Virtual> live;
  size_t ops = 1 + src.size(12);
  bool past = false;
  for (size_t i = 0; i < ops; i++) {
    if (live.empty() || src.chance(3, 5)) {
      size_t q = 1 + src.size(32), n = (1 + src.size(60000, {4095, 4096, 4097}) / q) * q;
      refuse_maps = (int)src.weighted({3, 3, 1});
      bool broken = src.chance(1, 6);
      hooks::armed = broken;
      hooks::calls = 0; hooks::at = 1; hooks::kinds = hooks::Write; hooks::action = hooks::Error; hooks::error = ENOSPC;
      Exc e;
      MemoryInfo *m = AcquireVirtualMemory(n / q, q, e);
      hooks::armed = false;
      auto fits = [&](int t, uint64_t x) { return limit[t] == ~0ull || (u128)used[t] + x < limit[t]; };
      Virtual v{m, nullptr, n, {0, 0, 0, 0}, src.byte()};
      if (fits(0, n)) v.use[0] = n;
      else {
        past = true;
        if (fits(1, n)) {
          if (!refuse_maps) v.use[1] = n;
          else if (fits(2, n) && fits(3, 1) && !broken && refuse_maps == 1) v.use[1] = v.use[2] = n, v.use[3] = 1;
        }
      }
      src.note("+%zu%s%s (%s);", n, refuse_maps == 1 ? " no anonymous map" : refuse_maps ? " no map" : "", broken ? " full disk" : "", v.use[0] ? "memory" : v.use[2] ? "disk" : v.use[1] ? "map" : "heap");
      src.label(v.use[0] ? "memory" : v.use[2] ? "disk" : v.use[1] ? "map" : "heap");
      refuse_maps = 0;
      CHECK(m, "no virtual memory of %zu bytes", n);
      v.p = (unsigned char *)GetVirtualMemoryBlob(m);
      CHECK(v.p, "virtual memory without an address");
      for (size_t j = 0; j < n; j++) v.p[j] = (uint8_t)(v.seed + j * 7);
      live.push_back(v);
      for (int t = 0; t < 4; t++) used[t] += v.use[t];
    } else {
      size_t k = src.pick(live.size());
      Virtual v = live[k];
      for (size_t j = 0; j < v.n; j++) CHECK(v.p[j] == (uint8_t)(v.seed + j * 7), "byte %zu of %zu changed", j, v.n);
      src.note("-%zu;", v.n);
      CHECK(!RelinquishVirtualMemory(v.m), "release gives something");
      live.erase(live.begin() + (ssize_t)k);
      for (int t = 0; t < 4; t++) used[t] -= v.use[t];
    }
    for (int t = 0; t < 4; t++) CHECK(GetWizardResource(types[t]) == used[t], "%s usage is %llu, not %llu", names[t], (unsigned long long)GetWizardResource(types[t]), (unsigned long long)used[t]);
    size_t files = 0;
    for (auto &x : std::filesystem::directory_iterator(dir)) (void)x, files++;
    CHECK(files == used[3], "%zu temporary files, not %llu", files, (unsigned long long)used[3]);
  }
  if (past) src.nontrivial();
  for (auto &v : live) {
    for (size_t j = 0; j < v.n; j++) CHECK(v.p[j] == (uint8_t)(v.seed + j * 7), "byte %zu of %zu changed", j, v.n);
    RelinquishVirtualMemory(v.m);
  }
  for (int t = 0; t < 4; t++) CHECK(GetWizardResource(types[t]) == 0, "%s usage %llu is left", names[t], (unsigned long long)GetWizardResource(types[t]));
  CHECK(std::filesystem::is_empty(dir), "a temporary file is left");
}
