// C14: a keyring file returns every key ever added to it, unchanged.
#include "keyring_gen.h"
#include <sys/wait.h>
using namespace pbt;

static void same(const Rec &a, const Rec &b) {
  CHECK(a.key == b.key, "key %s imported, %s exported", hex(a.key, 40).c_str(), hex(b.key, 40).c_str());
  CHECK(a.nonce == b.nonce, "nonce %s imported, %s exported", hex(a.nonce, 40).c_str(), hex(b.nonce, 40).c_str());
}
static size_t count(const std::string &s, const std::string &w) {
  size_t n = 0;
  for (size_t p = 0; (p = s.find(w, p)) != std::string::npos; p += w.size()) n++;
  return n;
}

PBT_TEST(history, {.quick = 12000, .thorough = 120000,
  .rule = "histories of importing (new ids, present ids, prefixes and extensions of present ids), exporting (present, absent), listing, and reading by another process, over up to two keyring files that start absent, empty, or as files written by an independent writer in either record version, with ids, keys and nonces of any bytes and of 0 bytes to 70 KB; objects are reused or new; non-trivial: at least two keys stored"}) {
  std::string dir = fresh_dir();
  std::string ring[2] = {dir + "/ring.xdm", dir + "/other"};
  std::vector<Rec> model[2];
  KeyringInfo *live[2] = {nullptr, nullptr};
  size_t nring = 1 + src.pick(2), ops = 1 + src.size(20);
  bool big = src.chance(1, 6);
  for (size_t r = 0; r < nring; r++) {
    size_t start = src.weighted({4, 1, 2});
    if (start == 1) write_file(ring[r], Bytes());
    if (start == 2) {
      Bytes f = ring_header();
      size_t n = src.size(4);
      for (size_t i = 0; i < n; i++) {
        Rec x{gen_field(src, big), gen_field(src, big), gen_field(src, big)};
        bool dup = false;
        for (auto &o : model[r]) dup |= o.id == x.id;
        if (dup) continue;
        ring_record(f, x, src.raw(4), src.chance(1, 3));
        model[r].push_back(x);
      }
      write_file(ring[r], f);
    }
  }
  for (size_t k = 0; k < ops; k++) {
    size_t r = src.pick(nring);
    KeyringInfo *use = nullptr;
    if (src.chance(1, 3)) {
      if (!live[r]) live[r] = AcquireKeyringInfo(ring[r].c_str());
      use = live[r];
    }
    auto pick_id = [&]() -> Bytes {
      if (model[r].empty() || src.chance(1, 2)) return gen_field(src, big);
      Bytes id = model[r][src.pick(model[r].size())].id;
      switch (src.weighted({3, 1, 1, 1, 1})) {
        case 0: break;
        case 1: id.push_back(src.byte()); break;
        case 2: if (!id.empty()) id.pop_back(); break;
        case 3: if (!id.empty()) id[src.pick(id.size())] ^= (uint8_t)(1 + src.pick(255)); break;
        default: if (!id.empty()) id.back() ^= 1; break;
      }
      return id;
    };
    size_t op = src.weighted({5, 5, 1, 1});
    if (op == 0) {
      Rec x{pick_id(), gen_field(src, big), gen_field(src, big)};
      bool present = false;
      for (auto &o : model[r]) present |= o.id == x.id;
      src.note("import id %s (%s), key of %zu, nonce of %zu bytes", hex(x.id, 12).c_str(), present ? "present" : "new", x.key.size(), x.nonce.size());
      Bytes before = read_file(ring[r]);
      bool ok = import_key(ring[r], x, use);
      if (present) {
        CHECK(!ok, "an id already in the keyring was imported again");
        CHECK(read_file(ring[r]) == before, "refused import changed the file");
        src.label("duplicate");
      } else {
        CHECK(ok, "import refused");
        model[r].push_back(x);
      }
    } else if (op == 1) {
      Bytes id = pick_id();
      const Rec *m = nullptr;
      for (auto &o : model[r]) if (o.id == id) m = &o;
      Rec x;
      src.note("export id %s (%s)", hex(id, 12).c_str(), m ? "present" : "absent");
      bool ok = export_key(ring[r], id, x, use);
      CHECK(ok == !!m, m ? "stored key not found" : "key returned for an id never imported");
      if (m) same(*m, x);
      else src.label("absent");
    } else if (op == 2) {
      if (!file_exists(ring[r]) || model[r].empty()) continue;
      std::string text;
      src.note("list");
      int ok = list_keys(ring[r], dir + "/list", text);
      CHECK(ok == 1, "listing failed");
      CHECK(count(text, "<keyring:Key ") == model[r].size() && count(text, "</keyring:Key>") == model[r].size(), "%zu keys listed, %zu stored", count(text, "<keyring:Key "), model[r].size());
      size_t at = 0;
      for (auto &o : model[r]) {  // in the order of the file, each with its nonce
        std::string w = "<keyring:Key rdf:about=\"" + hexs(o.id) + "\">";
        at = text.find(w, at);
        CHECK(at != std::string::npos, "id %s not listed", hex(o.id, 16).c_str());
        size_t n = text.find("<keyring:nonce>", at);
        CHECK(n != std::string::npos && text.compare(n + 15, 2 * o.nonce.size() + 16, hexs(o.nonce) + "</keyring:nonce>") == 0, "nonce not listed with its key");
      }
      src.label("list");
    } else {
      if (model[r].empty()) continue;
      const Rec m = model[r][src.pick(model[r].size())];
      pid_t pid = fork();
      if (pid == 0) {
        Rec x;
        bool ok = export_key(ring[r], m.id, x) && x.key == m.key && x.nonce == m.nonce;
        _exit(ok ? 0 : 9);
      }
      int st = 0;
      waitpid(pid, &st, 0);
      CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "another process did not get the key (status %x)", st);
    }
  }
  for (size_t r = 0; r < nring; r++) {
    for (auto &o : model[r]) {
      Rec x;
      CHECK(export_key(ring[r], o.id, x), "key lost");
      same(o, x);
    }
    std::vector<Rec> disk;
    CHECK(ring_parse(read_file(ring[r]), disk), "the keyring file is not well formed");
    CHECK(disk.size() == model[r].size(), "%zu records in the file, %zu imported", disk.size(), model[r].size());
    for (size_t i = 0; i < disk.size(); i++) {
      CHECK(disk[i].id == model[r][i].id, "record %zu has another id", i);
      same(model[r][i], disk[i]);
    }
    CHECK(!file_exists(dir + "/ring.lck") && !file_exists(dir + "/other.lck"), "a lock was left behind");
    if (live[r]) DestroyKeyringInfo(live[r]);
  }
  if (model[0].size() + model[1].size() >= 2) src.nontrivial();
}
