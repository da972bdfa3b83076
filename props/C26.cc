// C26: blob streams read back exactly what was written at every position.
#include "wt.h"
#include <fcntl.h>
#include <sys/wait.h>
#include <zlib.h>
#include <bzlib.h>
using namespace pbt;

static Bytes gen_content(Src &src) {
  switch (src.weighted({5, 3, 2, 1})) {
    case 0: return src.data(200, {0, 1, 2, 3, 4, 5});
    case 1: return src.blob(src.size(9000, {8191, 8192, 8193}));
    case 2: return src.blob(src.size(70000, {16384, 16385, 32768, 65536}));
    default: return src.blob(src.size(400000, {262144}));
  }
}
static size_t piece(Src &src) {
  return src.weighted({3, 3, 2, 1}) == 0 ? src.size(5) : src.size(src.chance(1, 8) ? 100000 : 600, {1, 2, 3, 4, 5, 8192, 16384});
}

// read a stream to its end in pieces, against the expected bytes
static void read_all(Src &src, BlobInfo *b, const Bytes &want, bool tell, const char *what) {
  size_t pos = 0;
  bool shortread = false;
  int tail = 1 + (int)src.pick(3);
  Bytes buf;
  while (tail > 0) {
    size_t left = want.size() - pos;
    if (tell) CHECK(TellBlob(b) == (WizardOffsetType)pos, "%s: position %lld reported as %lld", what, (long long)pos, (long long)TellBlob(b));
    switch (src.weighted({4, 3, 2})) {
      case 0: case 1: {
        size_t n = piece(src);
        if (want.size() > 3000 && pos < want.size() && n < 64) n *= 1 + want.size() / 64;
        if (src.chance(1, 8)) n = left;
        buf.assign(n + 16, 0xa5);
        bool chunk = src.chance(1, 2);
        errno = src.chance(1, 8) ? EINTR : 0;
        ssize_t c = chunk ? ReadBlobChunk(b, n, buf.data() + 8) : ReadBlob(b, n, buf.data() + 8);
        size_t e = std::min(n, left);
        CHECK(c == (ssize_t)e, "%s: %zd bytes read at %zu, asked for %zu of the %zu left", what, c, pos, n, left);
        CHECK(std::equal(want.begin() + pos, want.begin() + pos + e, buf.begin() + 8), "%s: wrong bytes at %zu", what, pos);
        for (size_t i = 0; i < 8; i++) CHECK(buf[i] == 0xa5 && buf[8 + n + i] == 0xa5, "%s: bytes outside the buffer changed", what);
        pos += e;
        if (e < n) shortread = true;
        break;
      }
      default: {
        int c = ReadBlobByte(b);
        CHECK(c == (left ? want[pos] : EOF), "%s: byte %d at %zu", what, c, pos);
        if (left) pos++; else shortread = true;
      }
    }
    if (shortread) CHECK(EOFBlob(b), "%s: end of file not reported after a short read", what);
    else if (pos < want.size()) CHECK(!EOFBlob(b), "%s: end of file reported at %zu of %zu", what, pos, want.size());
    if (pos == want.size()) tail--;
  }
}
static void write_all(Src &src, BlobInfo *b, const Bytes &data, bool tell, const char *what) {
  size_t pos = 0;
  while (pos < data.size()) {
    size_t n = std::min(piece(src), data.size() - pos);
    if (data.size() > 3000 && n < 64) n = std::min(n * (1 + data.size() / 64), data.size() - pos);
    switch (src.weighted({3, 3, 2, 2, 1})) {
      case 0: CHECK(WriteBlob(b, n, data.data() + pos) == (ssize_t)n, "%s: short write", what); break;
      case 1: CHECK(WriteBlobChunk(b, n, data.data() + pos) == (ssize_t)n, "%s: short write", what); break;
      case 2: n = 1; CHECK(WriteBlobByte(b, data[pos]) == 1, "%s: byte not written", what); break;
      case 3: {
        std::string s((const char *)data.data() + pos, n);
        s.resize(strlen(s.c_str()));
        n = s.size();
        CHECK(WriteBlobString(b, s.c_str()) == (ssize_t)n, "%s: text not written", what);
        if (!n && data[pos] == 0) { n = 1; CHECK(WriteBlobByte(b, 0) == 1, "%s: byte not written", what); }
        break;
      }
      default:
        n = 0;
        if (src.chance(1, 4)) CHECK(SyncBlob(b) == 0, "%s: flushing failed", what);
    }
    pos += n;
    if (tell) CHECK(TellBlob(b) == (WizardOffsetType)pos, "%s: position %lld reported as %lld", what, (long long)pos, (long long)TellBlob(b));
  }
}
static Bytes gunzip(const std::string &path) {
  gzFile g = gzopen(path.c_str(), "rb");
  Bytes out, buf(65536);
  int n;
  while ((n = gzread(g, buf.data(), (unsigned)buf.size())) > 0) out.insert(out.end(), buf.begin(), buf.begin() + n);
  CHECK(n == 0, "not a sound gzip file");
  gzclose(g);
  return out;
}
static Bytes bunzip(const std::string &path) {
  BZFILE *g = BZ2_bzopen(path.c_str(), "rb");
  Bytes out, buf(65536);
  int n;
  while ((n = BZ2_bzread(g, buf.data(), (int)buf.size())) > 0) out.insert(out.end(), buf.begin(), buf.begin() + n);
  CHECK(n == 0, "not a sound bzip2 file");
  BZ2_bzclose(g);
  return out;
}

PBT_TEST(streams, {.quick = 100000, .thorough = 1500000,
  .rule = "contents of 0..400 KB written to a plain, gzip or bzip2 file in pieces by every writing call, then read back in other pieces by every reading call through a plain or mapped file, with positions, size and end of file compared with a model; the compressed files are also decoded by their own libraries, and files made by those are read; non-trivial: more than one byte"}) {
  std::string dir = fresh_dir();
  SetWizardResourceLimit(MapResource, src.chance(2, 3) ? 1u << 30 : src.chance(1, 2) ? 0 : 30000);
  size_t kind = src.weighted({6, 3, 1});  // plain, gzip, bzip2
  static const char *ext[3][3] = {{"/f.txt", "/f", "/f.g"}, {"/f.gz", "/f.Z", "/a.b.GZ"}, {"/f.bz2", "/f.BZ2", "/x.y.bz2"}};
  std::string path = dir + ext[kind][src.pick(3)];
  bool compress = kind ? !src.chance(1, 6) : src.chance(1, 2);
  if (!compress) kind = 0;
  static const char *names[] = {"plain", "gzip", "bzip2"};
  const char *what = names[kind];
  Bytes data = gen_content(src);
  if (kind == 2 && data.size() > 30000) data.resize(30000);
  if (kind == 0 && data.size() >= 3 && ((data[0] == 0x1f && data[1] == 0x8b) || (data[0] == 'B' && data[1] == 'Z'))) data[0] = 0;
  src.note("%s, %zu bytes", what, data.size());
  src.label(what);
  if (data.size() > 8192 && !kind) src.label("mapped");
  Exc e;
  bool mine = !src.chance(1, 4);
  if (src.chance(1, 4)) write_file(path, src.blob(src.size(20000)));  // an older file in its place
  if (mine) {
    BlobInfo *b = OpenBlob(path.c_str(), src.chance(1, 2) ? WriteBinaryBlobMode : WriteBlobMode, compress ? WizardTrue : WizardFalse, e);
    CHECK(b, "cannot open for writing");
    CHECK(path == GetBlobFilename(b), "file name %s", GetBlobFilename(b));
    write_all(src, b, data, kind != 2, what);
    if (kind == 0) {
      CHECK(SyncBlob(b) == 0, "flushing failed");
      CHECK(GetBlobSize(b) == data.size(), "size %llu of %zu bytes written", (unsigned long long)GetBlobSize(b), data.size());
      CHECK(read_file(path) == data, "flushed file differs from what was written");
    }
    bool closed = src.chance(1, 2);
    if (closed) CHECK(CloseBlob(b), "closing failed");
    DestroyBlob(b);
  } else if (kind == 0) {
    write_file(path, data);
  } else if (kind == 1) {
    gzFile g = gzopen(path.c_str(), src.chance(1, 2) ? "wb1" : "wb9");
    if (!data.empty()) gzwrite(g, data.data(), (unsigned)data.size());
    gzclose(g);
  } else {
    BZFILE *g = BZ2_bzopen(path.c_str(), "wb1");
    if (!data.empty()) BZ2_bzwrite(g, data.data(), (int)data.size());
    BZ2_bzclose(g);
  }
  Bytes disk = read_file(path);
  CHECK((kind == 0 ? disk : kind == 1 ? gunzip(path) : bunzip(path)) == data, "%s: the file does not hold what was written", what);
  size_t rounds = 1 + src.pick(2);
  for (size_t r = 0; r < rounds; r++) {
    bool dec = kind ? !src.chance(1, 4) : src.chance(1, 2);
    BlobInfo *b = OpenBlob(path.c_str(), src.chance(1, 2) ? ReadBinaryBlobMode : ReadBlobMode, dec ? WizardTrue : WizardFalse, e);
    CHECK(b, "cannot open for reading");
    CHECK(GetBlobSize(b) == disk.size(), "size %llu of a file of %zu bytes", (unsigned long long)GetBlobSize(b), disk.size());
    CHECK((size_t)GetBlobProperties(b)->st_size == disk.size(), "properties give another size");
    bool raw = kind && !dec;
    read_all(src, b, raw ? disk : data, kind != 2 || raw, raw ? "compressed, not decoded" : what);
    if (src.chance(1, 2)) CHECK(CloseBlob(b), "closing failed");
    DestroyBlob(b);
  }
  if (data.size() > 1) src.nontrivial();
}

PBT_TEST(extent, {.quick = 50000, .thorough = 500000,
  .rule = "a file being written is given room (smaller, equal or larger than what it holds) at any point of the writing: what was written stays, writing goes on where it was, and the file has the larger of the two sizes; asking it of a blob being read leaves that readable and its file alone; non-trivial: something was written before"}) {
  std::string path = fresh_dir() + "/f";
  SetWizardResourceLimit(MapResource, src.chance(2, 3) ? 1u << 30 : 0);
  Exc e;
  Bytes data = gen_content(src);
  if (src.chance(1, 4)) {
    write_file(path, data);
    BlobInfo *b = OpenBlob(path.c_str(), ReadBinaryBlobMode, WizardFalse, e);
    Bytes buf(data.size() + 1);
    size_t first = src.pick(data.size() + 1);
    CHECK(ReadBlob(b, first, buf.data()) == (ssize_t)first, "reading failed");
    (void)SetBlobExtent(b, src.size(100000));
    if (data.size() > 8192) src.label("mapped");
    CHECK(ReadBlob(b, data.size() + 1 - first, buf.data() + first) == (ssize_t)(data.size() - first), "reading failed");
    CHECK(std::equal(data.begin(), data.end(), buf.begin()), "wrong bytes");
    DestroyBlob(b);
    CHECK(read_file(path) == data, "the file changed");
    return;
  }
  BlobInfo *b = OpenBlob(path.c_str(), WriteBinaryBlobMode, WizardFalse, e);
  CHECK(b, "cannot open for writing");
  size_t a = src.pick(data.size() + 1), total = 0;
  if (a) CHECK(WriteBlob(b, a, data.data()) == (ssize_t)a, "short write");
  if (a) src.nontrivial();
  total = a;
  size_t n = 1 + src.pick(3);
  size_t pos = a;
  for (size_t k = 0; k < n; k++) {
    size_t ext = src.chance(1, 3) ? src.pick(total + 1) : total + src.size(20000, {1});
    src.note("%zu written of %zu, room for %zu", pos, data.size(), ext);
    CHECK(SetBlobExtent(b, ext), "room for %zu bytes refused", ext);
    total = std::max(total, ext);
    CHECK(TellBlob(b) == (WizardOffsetType)pos, "making room moved the position from %zu to %lld", pos, (long long)TellBlob(b));
    size_t m = src.pick(data.size() - pos + 1);
    if (m) CHECK(WriteBlob(b, m, data.data() + pos) == (ssize_t)m, "short write");
    pos += m;
    total = std::max(total, pos);
  }
  CHECK(CloseBlob(b), "closing failed");
  DestroyBlob(b);
  Bytes f = read_file(path);
  CHECK(f.size() == total, "file of %zu bytes, expected %zu", f.size(), total);
  CHECK(std::equal(data.begin(), data.begin() + pos, f.begin()), "making room changed bytes written");
}

PBT_TEST(whole_files, {.quick = 30000, .thorough = 300000,
  .rule = "whole-file reading (as memory, text, byte string) of regular files and of FIFOs fed in pieces, with limits below, at and above the size: exactly the first bytes up to the limit, followed by a zero; FIFO streams read through a blob; non-trivial: more than one byte", .case_cpu = 60}) {
  std::string dir = fresh_dir(), path = dir + "/f";
  Bytes data = gen_content(src);
  bool fifo = src.chance(1, 4);
  size_t limit = src.weighted({2, 1, 1}) == 0 ? ~(size_t)0 : src.chance(1, 2) ? data.size() : src.pick(data.size() + 10);
  size_t how = src.pick(fifo ? 4 : 4);
  size_t step = 1 + src.size(20000, {4096, 8191, 8192});
  src.note("%s of %zu bytes, limit %zu, way %zu, pieces of %zu", fifo ? "fifo" : "file", data.size(), limit, how, step);
  if (data.size() > 1) src.nontrivial();
  Exc e;
  if (fifo && data.size() > 100000) data.resize(100000);
  Bytes want(data.begin(), data.begin() + std::min(limit, data.size()));
  pid_t pid = 0;
  if (fifo) {
    CHECK(mkfifo(path.c_str(), 0600) == 0, "mkfifo");
    pid = fork();
    if (pid == 0) {
      signal(SIGPIPE, SIG_IGN);
      int fd = open(path.c_str(), O_WRONLY);
      for (size_t p = 0; p < data.size();) {
        ssize_t c = write(fd, data.data() + p, std::min(step, data.size() - p));
        if (c <= 0) break;
        p += (size_t)c;
      }
      _exit(0);
    }
    src.label("fifo");
  } else
    write_file(path, data);
  Bytes got;
  bool ok = false;
  std::string err;
  size_t n = 0;
  if (how == 0) {
    unsigned char *p = (unsigned char *)FileToBlob(path.c_str(), limit, &n, e);
    ok = p;
    if (p) { got.assign(p, p + n); if (p[n]) err = "memory not ended by a zero"; RelinquishWizardMemory(p); }
  } else if (how == 1) {
    char *p = FileToString(path.c_str(), limit, e);
    ok = p;
    if (p) {
      got.assign(p, p + want.size());
      if (p[want.size()]) err = "text not ended by a zero";
      DestroyString(p);
    }
  } else if (how == 2) {
    StringInfo *p = FileToStringInfo(path.c_str(), limit, e);
    ok = p;
    if (p) { got = bytes_of(p); DestroyStringInfo(p); }
  } else if (fifo) {  // in a process of its own: the library leaves such streams open
    want = data;
    pid_t rd = fork();
    if (rd == 0) {
      BlobInfo *b = OpenBlob(path.c_str(), ReadBinaryBlobMode, WizardFalse, e);
      Bytes buf(data.size() + 10);
      bool good = b && ReadBlobChunk(b, buf.size(), buf.data()) == (ssize_t)data.size() && std::equal(data.begin(), data.end(), buf.begin()) && EOFBlob(b) && CloseBlob(b);
      _exit(good ? 0 : 7);
    }
    int st = 0;
    waitpid(rd, &st, 0);
    ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
    got = want;
  } else {
    StringInfo *p = ConfigureFileToStringInfo(path.c_str());
    want = data;
    ok = p;
    if (p) { got = bytes_of(p); DestroyStringInfo(p); }
  }
  if (pid) { int st; kill(pid, SIGKILL); waitpid(pid, &st, 0); }
  CHECK(ok, "reading failed");
  CHECK(err.empty(), "%s", err.c_str());
  CHECK(got.size() == want.size(), "%zu bytes read, expected %zu", got.size(), want.size());
  CHECK(got == want, "wrong bytes");
}

PBT_TEST(missing, {.quick = 4000, .thorough = 40000,
  .rule = "files that do not exist, directories and names in missing directories are refused by every opening call, for reading and (the latter two) writing; non-trivial: always"}) {
  std::string dir = fresh_dir(), path;
  size_t k = src.pick(3);
  path = k == 0 ? dir + "/none" : k == 1 ? dir + "/no/such" : dir;
  static const char *ext[] = {"", ".gz", ".bz2"};
  if (k < 2) path += ext[src.pick(3)];
  WizardBooleanType c = src.chance(1, 2) ? WizardTrue : WizardFalse;
  src.nontrivial();
  src.note("%s", path.c_str());
  Exc e;
  size_t n = 77;
  if (k < 2) {
    BlobInfo *b = OpenBlob(path.c_str(), ReadBinaryBlobMode, c, e);
    CHECK(!b, "a file that does not exist was opened");
    CHECK(GetExceptionSeverity(e) >= ErrorException, "no error reported");
    CHECK(!FileToBlob(path.c_str(), ~0UL, &n, e), "a file that does not exist was read");
    CHECK(!FileToStringInfo(path.c_str(), ~0UL, e), "a file that does not exist was read");
    CHECK(!ConfigureFileToStringInfo(path.c_str()), "a file that does not exist was read");
  }
  if (k > 0) {
    BlobInfo *b = OpenBlob(path.c_str(), WriteBinaryBlobMode, c, e);
    CHECK(!b, "a file that cannot exist was opened for writing");
    CHECK(GetExceptionSeverity(e) >= ErrorException, "no error reported");
  }
}
