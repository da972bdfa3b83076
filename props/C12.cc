// C12: random keys are fresh, of the requested size, and never repeat.
#include "wt.h"
using namespace pbt;

static const HashType hashes[] = {SHA2256Hash, MD5Hash, SHA1Hash, SHA2224Hash, SHA2384Hash, SHA2512Hash,
                                  SHA3224Hash, SHA3256Hash, SHA3384Hash, SHA3512Hash};
static HashType gen_hash(Src &src) { return hashes[src.pick(10)]; }

static std::string reservoir() {
  const char *h = getenv("WIZARD_HOME");
  return std::string(h ? h : ".") + "/reservoir.xdm";
}

// draw n bytes one way or the other; nothing outside the n bytes may change
static void draw(Src &src, RandomInfo *r, size_t n, Bytes &all) {
  if (src.chance(1, 2)) {
    SI k(GetRandomKey(r, n));
    CHECK(GetStringInfoLength(k) == n, "asked for %zu bytes, got %zu", n, GetStringInfoLength(k));
    Bytes b = k.get();
    all.insert(all.end(), b.begin(), b.end());
  } else {
    Bytes b(n + 16, 0x5a);
    SetRandomKey(r, n, b.data() + 8);
    for (size_t i = 0; i < 8; i++)
      CHECK(b[i] == 0x5a && b[n + 8 + i] == 0x5a, "bytes around a %zu byte key were written", n);
    all.insert(all.end(), b.begin() + 8, b.begin() + 8 + n);
  }
}

// no 8-byte window twice, balanced bits and bytes, no correlation at any short distance
static void judge(const Bytes &all) {
  size_t n = all.size();
  if (n >= 9) {
    std::vector<uint64_t> w;
    w.reserve(n - 7);
    uint64_t v = 0;
    for (size_t i = 0; i < n; i++) {
      v = (v << 8) | all[i];
      if (i >= 7) w.push_back(v);
    }
    std::sort(w.begin(), w.end());
    for (size_t i = 1; i < w.size(); i++)
      CHECK(w[i] != w[i - 1], "the 8 bytes %016llx were drawn twice within %zu bytes", (unsigned long long)w[i], n);
  }
  if (n < 512) return;
  size_t bits[8] = {0}, hist[256] = {0};
  for (uint8_t b : all) {
    hist[b]++;
    for (int k = 0; k < 8; k++) bits[k] += (b >> k) & 1;
  }
  for (int k = 0; k < 8; k++)
    CHECK(fabs((double)bits[k] - n / 2.0) < 8 * sqrt(n / 4.0) + 8, "bit %d is set in %zu of %zu bytes", k, bits[k], n);
  double lim = n / 256.0 + 8 * sqrt(n / 256.0) + 8;
  for (int b = 0; b < 256; b++) CHECK(hist[b] < lim, "byte %02x occurs %zu times in %zu", b, hist[b], n);
  size_t m = std::min(n, (size_t)8192);
  lim = m / 256.0 + 8 * sqrt(m / 256.0) + 8;
  for (size_t lag = 1; lag <= 132 && lag < m; lag++) {
    size_t same = 0;
    for (size_t i = lag; i < m; i++) same += all[i] == all[i - lag];
    CHECK(same < lim, "%zu of %zu bytes repeat the one %zu before", same, m, lag);
  }
}

PBT_TEST(keys, {.quick = 800, .thorough = 40000,
  .rule = "histories of draws (0..20 KB, sometimes 3 MB) from 1..5 generators with any hash but the checksum, created and destroyed in between, with the saved reservoir file kept, removed, put back to an earlier state or cut, with or without a working kernel entropy call, and with one or several secret seeds set; non-trivial: at least 256 bytes drawn", .case_cpu = 60, .coverage = false}) {
  std::vector<RandomInfo *> live;
  Bytes all, saved;
  bool have_saved = false;
  size_t big = 0;
  size_t ops = 2 + src.size(40);
  fail_entropy(src.chance(1, 6));
  if (src.chance(1, 3)) unlink(reservoir().c_str());
  for (size_t k = 0; k < ops; k++) {
    size_t op = live.empty() ? 0 : src.weighted({2, 14, 1, 1, 1, 1, 1});
    if (op == 0) {
      if (live.size() >= 5) continue;
      if (src.chance(1, 4)) SetRandomSecretKey(src.chance(1, 2) ? 42UL : (unsigned long)src.raw(4));
      HashType h = gen_hash(src);
      src.note("acquire with hash %d", (int)h);
      live.push_back(AcquireRandomInfo(h));
      if (src.chance(1, 4)) SetRandomSecretKey(~0UL);
    } else if (op == 1) {
      size_t i = src.pick(live.size());
      size_t n;
      switch (src.weighted({6, 6, 1, 1})) {
        case 0: n = src.size(20, {0, 1, 2}); break;
        case 1: n = src.size(300, {16, 20, 28, 32, 48, 64, 128}); break;
        case 2: n = src.size(20000, {4096, 8192, 16384}); break;
        default: n = big++ || !src.chance(1, 10) ? 33 : (size_t)src.range(1050000, 2200000);
      }
      src.note("draw %zu bytes from generator %zu", n, i);
      draw(src, live[i], n, all);
    } else if (op == 2) {
      size_t i = src.pick(live.size());
      DestroyRandomInfo(live[i]);
      live.erase(live.begin() + i);
    } else if (op == 3) {
      saved = read_file(reservoir(), &have_saved);
    } else if (op == 4) {
      if (have_saved) { write_file(reservoir(), saved); src.label("reservoir put back"); }
    } else if (op == 5) {
      unlink(reservoir().c_str());
      src.label("reservoir removed");
    } else {
      bool ok;
      Bytes f = read_file(reservoir(), &ok);
      if (ok && !f.empty()) { f.resize(src.pick(f.size())); write_file(reservoir(), f); }
      src.label("reservoir cut");
    }
  }
  for (RandomInfo *r : live) DestroyRandomInfo(r);
  SetRandomSecretKey(~0UL);
  fail_entropy(false);
  if (all.size() >= 256) src.nontrivial();
  if (all.size() > 1000000) src.label("over 1 MB");
  judge(all);
}

PBT_TEST(small_draws, {.quick = 2500, .thorough = 20000,
  .rule = "8 KB drawn from one generator in pieces of one size, or of two alternating ones (1..130 bytes), or as values in [0,1); non-trivial: always", .coverage = false}) {
  HashType h = gen_hash(src);
  size_t a = 1 + src.size(130, {15, 16, 19, 20, 27, 28, 31, 32, 47, 48, 63, 64}), b = src.chance(1, 2) ? a : 1 + src.size(130);
  RandomInfo *r = AcquireRandomInfo(h);
  src.note("hash %d, %zu and %zu bytes", (int)h, a, b);
  Bytes all;
  bool values = src.chance(1, 6);
  std::set<double> seen;
  double sum = 0;
  size_t nv = 0;
  while (all.size() < 8192) {
    draw(src, r, a, all);
    draw(src, r, b, all);
    if (values) {
      double v = GetRandomValue(r);
      CHECK(v >= 0 && v < 1.0000001, "random value %g", v);
      CHECK(seen.insert(v).second, "random value %.17g drawn twice", v);
      sum += v;
      nv++;
    }
  }
  if (nv >= 100) CHECK(fabs(sum / nv - 0.5) < 8 * 0.2887 / sqrt((double)nv), "mean of %zu random values is %g", nv, sum / nv);
  DestroyRandomInfo(r);
  src.nontrivial();
  judge(all);
}

static std::vector<double> values(Src &src, RandomInfo *r, size_t n, bool mix) {
  std::vector<double> v;
  Bytes all;
  for (size_t i = 0; i < n; i++) {
    double x = GetPseudoRandomValue(r);
    CHECK(x >= 0 && x <= 1, "pseudo-random value %g", x);
    v.push_back(x);
    if (mix && (i & 7) == 0) draw(src, r, i % 40, all);
  }
  judge(all);
  return v;
}

PBT_TEST(seeded, {.quick = 4000, .thorough = 40000,
  .rule = "generators made with the same secret seed (any hash, any reservoir, keys drawn in between) give the same pseudo-random values, with another seed or none others, while their keys differ; non-trivial: at least 10 values", .coverage = false}) {
  unsigned long s1 = src.chance(1, 4) ? src.range(0, 3) : (unsigned long)src.u64();
  if (s1 == ~0UL) s1 = 1;
  unsigned long s2 = src.chance(1, 2) ? s1 ^ (1UL << src.range(0, 63)) : (unsigned long)src.u64();
  size_t n = 1 + src.size(3000, {10, 1000});
  src.note("seeds %lx and %lx, %zu values", s1, s2, n);
  SetRandomSecretKey(s1);
  RandomInfo *a = AcquireRandomInfo(gen_hash(src));
  bool late = src.chance(1, 2);
  RandomInfo *b = late ? nullptr : AcquireRandomInfo(gen_hash(src));
  CHECK(GetRandomSecretKey(a) == s1, "seed reported as %lx", GetRandomSecretKey(a));
  auto va = values(src, a, n, src.chance(1, 2));
  RandomInfo *c = nullptr;
  if (s2 != ~0UL && s2 != s1) {
    SetRandomSecretKey(s2);
    c = AcquireRandomInfo(gen_hash(src));
    auto vc = values(src, c, n, false);
    if (n >= 4) CHECK(va != vc, "seeds %lx and %lx give the same values", s1, s2);
    SetRandomSecretKey(s1);
  }
  if (late) b = AcquireRandomInfo(gen_hash(src));
  auto vb = values(src, b, n, src.chance(1, 2));
  CHECK(va == vb, "two generators seeded with %lx differ", s1);
  SetRandomSecretKey(~0UL);
  RandomInfo *d = AcquireRandomInfo(gen_hash(src));
  auto vd = values(src, d, n, false);
  if (n >= 4) CHECK(vd != va, "unseeded generator repeats a seeded one");
  if (n >= 10) {
    src.nontrivial();
    double sum = 0;
    for (double x : va) sum += x;
    CHECK(fabs(sum / n - 0.5) < 8 * 0.2887 / sqrt((double)n), "mean of %zu pseudo-random values is %g", n, sum / n);
    std::set<double> u(va.begin(), va.end());
    CHECK(u.size() == n, "%zu of %zu pseudo-random values differ", u.size(), n);
  }
  Bytes all;
  for (int i = 0; i < 3; i++) { draw(src, a, 40, all); draw(src, b, 40, all); draw(src, d, 40, all); }
  judge(all);
  DestroyRandomInfo(a);
  DestroyRandomInfo(b);
  if (c) DestroyRandomInfo(c);
  DestroyRandomInfo(d);
}
