/* Linked into the instrumented utilities: entropy from PBT_ENTROPY, so that a
   case is a pure function of its choice bytes; the kernel's otherwise. */
#include <errno.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/syscall.h>
int getentropy(void *buf, size_t n)
{
  static uint64_t s, set;
  const char *e = getenv("PBT_ENTROPY");
  if (n > 256) { errno = EIO; return -1; }
  if (!e || !strcmp(e, "real"))
    return syscall(SYS_getrandom, buf, n, 0) == (long) n ? 0 : -1;
  if (!set) { s = strtoull(e, NULL, 10); set = 1; }
  for (size_t i = 0; i < n; i++) {
    uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    ((unsigned char *) buf)[i] = (unsigned char) ((z ^ (z >> 31)) >> 24);
  }
  return 0;
}
