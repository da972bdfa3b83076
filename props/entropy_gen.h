#pragma once
#include "wt.h"
struct EK { EntropyType t; const char *name; };
static const EK coders[] = {{ZIPEntropy, "ZIP"}, {BZIPEntropy, "BZIP"}, {LZMAEntropy, "LZMA"}};
inline size_t gen_coder(Src &src) { return src.weighted({10, 6, 1}); }
inline size_t gen_level(Src &src, size_t c) {
  if (c == 2) return src.chance(1, 200) ? src.range(0, 9) : src.range(0, 2);
  if (c == 1) return src.chance(1, 10) ? src.range(1, 9) : src.range(1, 2);
  return src.range(0, 9);
}
inline Bytes gen_payload(Src &src) {
  switch (src.weighted({6, 4, 3, 1})) {
    case 0: return src.data(400, {0, 1, 2, 3, 255, 256});
    case 1: {  // repetitive with variations
      Bytes unit = src.bytes(src.range(1, 12)), b;
      size_t reps = src.size(400);
      for (size_t i = 0; i < reps; i++) { b.insert(b.end(), unit.begin(), unit.end()); if (src.chance(1, 6)) b.push_back(src.byte()); }
      return b;
    }
    case 2: return src.blob(src.size(6000, {4096}));
    default: return src.blob(src.size(src.chance(1, 10) ? 300000 : 60000, {32768, 65535, 65536, 100000, 262144}));
  }
}
