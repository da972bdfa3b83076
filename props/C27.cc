// C27: binary file primitives store integers and chunks portably and exactly.
#include "wt.h"
#include "hooks.h"
#include <filesystem>
extern "C" {
#include "wizard/file.h"
}
using namespace pbt;

static uint64_t gen_value(Src &src) {
  switch (src.weighted({3, 3, 2, 1})) {
    case 0: return src.u64();
    case 1: return (src.chance(1, 2) ? 0 : ~0ull) ^ (1ull << src.range(0, 63));
    case 2: return (uint64_t)src.byte() << (8 * src.pick(8));
    default: return src.of<uint64_t>({0, 1, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000ull, 0xffffffffull, ~0ull, 1ull << 63, 0x0102030405060708ull});
  }
}
struct Quiet {  // hooks on for the life of this object
  Quiet(bool eintr, size_t most) { hooks::armed = true; hooks::at = 0; hooks::calls = 0; hooks::kinds = 127; hooks::eintr = eintr; hooks::most = most; hooks::action = hooks::None; }
  ~Quiet() { hooks::armed = false; hooks::eintr = false; hooks::most = 0; }
};
static void put(Bytes &b, uint64_t v, int n) { for (int i = 0; i < n; i++) b.push_back((uint8_t)(v >> (8 * i))); }
static uint64_t get(const Bytes &b, size_t at, int n) { uint64_t v = 0; for (int i = n; i-- > 0;) v = v << 8 | b[at + i]; return v; }

static FileInfo *open_file(const std::string &path, FileMode mode) {
  Exc e;
  return AcquireFileInfo(path.c_str(), "unused", mode, e);
}

static bool any_lock(const std::string &path) {
  std::string dir = path.substr(0, path.rfind('/'));
  for (auto &x : std::filesystem::directory_iterator(dir)) if (x.path().extension() == ".lck") return true;
  return false;
}

PBT_TEST(values, {.quick = 60000, .thorough = 1000000,
  .rule = "up to 40 values of 16, 32 and 64 bits and chunks of 0..40 KB written into a new or existing file, with every call interrupted or moving only a few bytes at a time or not; the bytes on disk are compared and read back as other types and sizes through the end of the file, also after the file is cut; non-trivial: at least two items"}) {
  std::string path = fresh_dir() + "/data.bin";
  Bytes old, model;
  bool existed = src.chance(1, 4);
  if (existed) { old = src.data(60); write_file(path, old); }
  size_t n = src.size(40);
  bool eintr = src.chance(1, 3);
  size_t most = src.chance(1, 3) ? 1 + src.size(20) : 0;
  size_t zeros = 0;
  src.note("%zu items%s, at most %zu bytes at a time", n, eintr ? " interrupted" : "", most);
  {
    FileInfo *f = open_file(path, WriteFileMode);
    CHECK(f, "the file could not be opened for writing");
    CHECK(std::string(GetFilePath(f)) == path, "wrong path %s", GetFilePath(f));
    CHECK((size_t)GetFileProperties(f)->st_size == old.size(), "wrong size reported");
    Quiet q(eintr, most);
    for (size_t i = 0; i < n; i++) {
      uint64_t v = gen_value(src);
      errno = src.chance(1, 6) ? EINTR : 0;
      bool ok;
      switch (src.weighted({2, 2, 2, 2})) {
        case 0: ok = WriteFile16Bits(f, (unsigned short)v); put(model, v, 2); break;
        case 1: ok = WriteFile32Bits(f, (size_t)v); put(model, v, 4); break;
        case 2: ok = WriteFile64Bits(f, v); put(model, v, 8); break;
        default: {
          Bytes d = src.chance(1, 20) ? src.blob(src.size(40000, {8192, 16384, 4096})) : src.data(50, {0, 1});
          if (d.empty()) zeros++;
          ok = WriteFileChunk(f, d.data(), d.size());
          model.insert(model.end(), d.begin(), d.end());
        }
      }
      CHECK(ok, "item %zu was not written", i);
    }
    hooks::armed = false;
    Exc e;
    DestroyFileInfo(f, e);
  }
  if (model.size() < old.size()) model.insert(model.end(), old.begin() + (ssize_t)model.size(), old.end());
  Bytes disk = read_file(path);
  CHECK(disk == model, "the file holds %s, expected %s", hex(disk).c_str(), hex(model).c_str());
  if (!existed) {
    struct stat st;
    CHECK(stat(path.c_str(), &st) == 0 && (st.st_mode & 077) == 0, "the new file is open to others");
  }
  CHECK(!file_exists(path.substr(0, path.size() - 3) + "lck"), "lock left behind");
  if (src.chance(1, 3)) { model.resize(src.pick(model.size() + 1)); write_file(path, model); src.label("cut"); }
  if (n > 1) src.nontrivial();
  // read back
  FileInfo *f = open_file(path, ReadFileMode);
  CHECK(f, "the file could not be opened for reading");
  {
    Quiet q(src.chance(1, 3), src.chance(1, 3) ? 1 + src.size(20) : 0);
    size_t at = 0;
    int past = 1 + (int)src.pick(3);
    while (past > 0) {
      size_t left = model.size() - at, need;
      errno = src.chance(1, 6) ? EINTR : 0;
      bool ok, fits;
      switch (src.weighted({2, 2, 2, 2, 3})) {
        case 0: {
          unsigned short v = 0;
          need = 2, fits = left >= need, ok = ReadFile16Bits(f, &v);
          if (ok && fits) CHECK(v == get(model, at, 2), "16 bits at %zu are %x", at, v);
          break;
        }
        case 1: {
          size_t v = 0;
          need = 4, fits = left >= need, ok = ReadFile32Bits(f, &v);
          if (ok && fits) CHECK(v == get(model, at, 4), "32 bits at %zu are %zx", at, v);
          break;
        }
        case 2: {
          WizardSizeType v = 0;
          need = 8, fits = left >= need, ok = ReadFile64Bits(f, &v);
          if (ok && fits) CHECK(v == get(model, at, 8), "64 bits at %zu are %llx", at, (unsigned long long)v);
          break;
        }
        case 3: {
          int c = ReadFileByte(f);
          need = 1, fits = left >= need, ok = c != EOF;
          if (ok && fits) CHECK(c == model[at], "byte at %zu is %d", at, c);
          break;
        }
        default: {
          need = src.chance(1, 4) ? left : src.size(left > 3000 ? 9000 : 60, {0, 1});
          fits = left >= need;
          Bytes b(need + 8, 0xa5);
          ok = ReadFileChunk(f, b.data(), need);
          if (ok && fits) CHECK(std::equal(b.begin(), b.begin() + (ssize_t)need, model.begin() + (ssize_t)at), "wrong bytes at %zu", at);
          for (size_t i = 0; i < 8; i++) CHECK(b[need + i] == 0xa5, "bytes outside the buffer changed");
        }
      }
      CHECK(ok == fits, "reading %zu bytes at %zu of %zu %s", need, at, model.size(), ok ? "succeeded" : "failed");
      at = fits ? at + need : model.size();
      if (at == model.size()) past--;
    }
  }
  Exc e;
  DestroyFileInfo(f, e);
  CHECK(read_file(path) == model, "reading changed the file");
}

PBT_TEST(errors, {.quick = 40000, .thorough = 600000,
  .rule = "one read or write call of the system fails, possibly after moving some of the bytes: the primitive it belongs to reports failure and the ones before it success; non-trivial: the failing call was reached", .coverage = false}) {
  std::string path = fresh_dir() + "/data.bin";
  bool writing = src.chance(1, 2);
  Bytes model = src.blob(400);
  if (!writing) write_file(path, model);
  FileInfo *f = open_file(path, writing ? WriteFileMode : ReadFileMode);
  CHECK(f, "the file could not be opened");
  size_t at = 1 + src.pick(12);
  int error = src.of<int>({EIO, ENOSPC, EFBIG, EAGAIN, EBADF, EDQUOT});
  size_t most = src.chance(1, 2) ? 1 + src.pick(9) : 0;
  src.note("%s, call %zu fails with %d, at most %zu bytes at a time", writing ? "write" : "read", at, error, most);
  bool failed = false;
  size_t pos = 0;
  {
    Quiet q(src.chance(1, 4), most);
    hooks::kinds = hooks::Read | hooks::Write;
    hooks::at = (unsigned)at;
    hooks::action = hooks::Error;
    hooks::error = error;
    for (size_t i = 0; i < 12 && pos + 40 < model.size(); i++) {
      bool ok;
      size_t n;
      uint64_t v = gen_value(src);
      unsigned short v2 = 0; size_t v4 = 0; WizardSizeType v8 = 0;
      Bytes b(40);
      switch (src.pick(4)) {
        case 0: n = 2; ok = writing ? WriteFile16Bits(f, (unsigned short)v) : ReadFile16Bits(f, &v2); break;
        case 1: n = 4; ok = writing ? WriteFile32Bits(f, v) : ReadFile32Bits(f, &v4); break;
        case 2: n = 8; ok = writing ? WriteFile64Bits(f, v) : ReadFile64Bits(f, &v8); break;
        default: n = 1 + src.pick(39); ok = writing ? WriteFileChunk(f, b.data(), n) : ReadFileChunk(f, b.data(), n);
      }
      failed = hooks::calls >= at;
      if (failed) {
        CHECK(!ok, "a %s of %zu bytes that failed reported success", writing ? "write" : "read", n);
        break;
      }
      CHECK(ok, "a sound %s of %zu bytes reported failure", writing ? "write" : "read", n);
      pos += n;
    }
  }
  if (failed) src.nontrivial();
  Exc e;
  DestroyFileInfo(f, e);
}

PBT_TEST(places, {.quick = 6000, .thorough = 60000,
  .rule = "files opened by explicit path or by name under the wizard home or the home directory, existing or not, for reading or writing: the right file is opened, made only when writing, and removed only on request; non-trivial: the file did not exist or is under a home directory"}) {
  std::string dir = fresh_dir(), keep = getenv("WIZARD_HOME") ? getenv("WIZARD_HOME") : "", home = getenv("HOME") ? getenv("HOME") : "";
  std::string name = "n" + src.text(1 + src.size(8), "ab.c_-") + "z";
  size_t where = src.pick(3);
  std::string path;
  bool had_dir = src.chance(1, 2);
  if (where == 0) path = dir + "/" + name;
  else if (where == 1) { setenv("WIZARD_HOME", dir.c_str(), 1); path = dir + "/" + name; }
  else {
    unsetenv("WIZARD_HOME");
    setenv("HOME", dir.c_str(), 1);
    path = dir + "/.wizard/" + name;
    if (had_dir) mkdir((dir + "/.wizard").c_str(), 0700);
  }
  bool exists = src.chance(1, 2) && (where < 2 || had_dir), writing = src.chance(1, 2), destroy = src.chance(1, 3);
  Bytes content = src.data(40);
  if (exists) write_file(path, content);
  src.note("%s, %s, %s", path.c_str(), exists ? "exists" : "absent", writing ? "writing" : "reading");
  Exc e;
  FileInfo *f = AcquireFileInfo(where == 0 ? path.c_str() : nullptr, where == 0 ? "elsewhere" : name.c_str(), writing ? WriteFileMode : ReadFileMode, e);
  bool got = f != nullptr, right = false, removed = false;
  if (f) {
    right = path == GetFilePath(f) && GetFileDescriptor(f) >= 0;
    if (destroy) removed = DestroyFile(f, e);
    DestroyFileInfo(f, e);
  }
  setenv("WIZARD_HOME", keep.c_str(), 1);
  setenv("HOME", home.c_str(), 1);
  CHECK(got == (exists || writing), "opening a file that %s for %s %s", exists ? "exists" : "does not exist", writing ? "writing" : "reading", got ? "succeeded" : "failed");
  if (got) {
    CHECK(right, "another file was opened");
    CHECK(!destroy || removed, "removing the file failed");
    CHECK(file_exists(path) == !destroy, "the file is %s afterwards", destroy ? "still there" : "gone");
    if (exists && !destroy) CHECK(read_file(path) == content, "opening changed the file");
  } else CHECK(!file_exists(path), "a file was made by a failed open");
  CHECK(!got || !any_lock(path), "lock left behind");
  if (!exists || where) src.nontrivial();
}
