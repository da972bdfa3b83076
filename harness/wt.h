// The library under test, as seen from C++.
#pragma once
#include "pbt.h"
#include <errno.h>
#include <math.h>
#include <time.h>
#include <unistd.h>
#include <sys/stat.h>
extern "C" {
#include "wizard/studio.h"
#include "wizard/WizardsToolkit.h"
#include "wizard/blob-private.h"
#include "wizard/cipher.h"
#include "wizard/aes.h"
#include "wizard/chacha.h"
#include "wizard/crc64.h"
#include "wizard/hmac.h"
#include "wizard/md5.h"
#include "wizard/sha1.h"
#include "wizard/sha2224.h"
#include "wizard/sha2256.h"
#include "wizard/sha2384.h"
#include "wizard/sha2512.h"
#include "wizard/sha3.h"
#include "wizard/serpent.h"
#include "wizard/signature.h"
#include "wizard/twofish.h"
#include "wizard/random_.h"
#include "wizard/lzma.h"
#include "wizard/memory-private.h"
#include "wizard/xml-tree-private.h"
#include "wizard/exception-private.h"
#include "wizard/utility-private.h"
#include "wizard/string-private.h"
}
using pbt::Bytes;
using pbt::Src;
using pbt::fmt;

struct Exc {  // an exception object with RAII
  ExceptionInfo *e;
  Exc() : e(AcquireExceptionInfo()) {}
  ~Exc() { DestroyExceptionInfo(e); }
  operator ExceptionInfo *() { return e; }
};

inline StringInfo *si(const void *p, size_t n) {
  StringInfo *s = AcquireStringInfo(n);
  if (n) SetStringInfoDatum(s, (const unsigned char *)p);
  return s;
}
inline StringInfo *si(const Bytes &b) { return si(b.data(), b.size()); }
inline StringInfo *si(const std::string &b) { return si(b.data(), b.size()); }
inline Bytes bytes_of(const StringInfo *s) {
  if (!s) return Bytes();
  const unsigned char *p = GetStringInfoDatum(s);
  size_t n = GetStringInfoLength(s);
  return n ? Bytes(p, p + n) : Bytes();
}
struct SI {  // owning handle
  StringInfo *s;
  explicit SI(StringInfo *x = nullptr) : s(x) {}
  SI(const Bytes &b) : s(si(b)) {}
  SI(const SI &) = delete;
  SI &operator=(const SI &) = delete;
  ~SI() { if (s) DestroyStringInfo(s); }
  operator StringInfo *() { return s; }
  Bytes get() const { return bytes_of(s); }
};
