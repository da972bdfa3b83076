# Random draws, containers, XML trees, files, strings, globs, paths.

seed('list-append-next', 'C21', [('wizard/hashmap.c',
 '''        if (index == list_info->elements)
          {
            if (list_info->next == (ElementInfo *) NULL)
              list_info->next=next;
            list_info->tail->next=next;
''', '''        if (index == list_info->elements)
          {
            list_info->tail->next=next;
''')],
     'an iteration that has reached the end of the list, followed by an insertion at the end and another step',
     'A value inserted at the end of a list after its iteration was exhausted is never reached by that iteration.',
     c='''
int main(void)
{
  LinkedListInfo *l;
  WizardsToolkitGenesis("demo");
  l = NewLinkedList(0);
  AppendValueToLinkedList(l, "a");
  ResetLinkedListIterator(l);
  if (strcmp(GetNextValueInLinkedList(l), "a") != 0) FAIL("first");
  if (InsertValueInLinkedList(l, 1, "b") == WizardFalse) FAIL("insert");
  {
    char *v = GetNextValueInLinkedList(l);
    if (v == NULL || strcmp(v, "b") != 0) FAIL("the value inserted at the end is not visited");
  }
  return 0;
}
''')

seed('hashmap-growth', 'C22', [('wizard/hashmap.c',
 '''    Copy entries to new hashmap with increased capacity.
  */
  for (i=0; i < (ssize_t) hashmap_info->capacity; i++)
''', '''    Copy entries to new hashmap with increased capacity.
  */
  for (i=0; i < (ssize_t) (hashmap_info->capacity-1); i++)
''')],
     'a map that grows past its capacity while its last bucket is occupied',
     'Entries in the last bucket are lost when a map grows: a later lookup does not find them.',
     c='''
int main(void)
{
  HashmapInfo *m;
  char *keys[400];
  int i;
  WizardsToolkitGenesis("demo");
  m = NewHashmap(17, HashStringType, CompareHashmapString, NULL, NULL);
  for (i = 0; i < 400; i++)
  {
    keys[i] = malloc(16);
    sprintf(keys[i], "key%d", i);
    if (PutEntryInHashmap(m, keys[i], keys[i]) == WizardFalse) FAIL("put %d", i);
  }
  for (i = 0; i < 400; i++)
  {
    char *v = (char *) GetValueFromHashmap(m, keys[i]);
    if (v == NULL || strcmp(v, keys[i]) != 0) FAIL("%s was lost", keys[i]);
  }
  return 0;
}
''')

seed('splay-balance', 'C23', [('wizard/splay-tree.c',
 '''  if ((bisect+1) > high)
''', '''  if ((bisect+1) >= high)
''')],
     'a tree deep enough to be rebalanced, more than a thousand keys added in order',
     'Rebalancing a deep tree drops a node, so a key that was added is no longer found.',
     c='''
int main(void)
{
  SplayTreeInfo *t;
  char *keys[3000];
  int i;
  WizardsToolkitGenesis("demo");
  t = NewSplayTree(CompareSplayTreeString, NULL, NULL);
  for (i = 0; i < 3000; i++)
  {
    keys[i] = malloc(16);
    sprintf(keys[i], "%06d", i);
    AddValueToSplayTree(t, keys[i], keys[i]);
  }
  for (i = 0; i < 3000; i++)
    if (GetValueFromSplayTree(t, keys[i]) != keys[i]) FAIL("%s was lost", keys[i]);
  return 0;
}
''')

seed('splay-iterate-delete', 'C23', [('wizard/splay-tree.c',
 '''  if ((low+1) > bisect)
''', '''  if ((low+1) >= bisect)
''')],
     'a tree deep enough to be rebalanced and a count for which a left subtree has a single node',
     'Rebalancing a deep tree drops single-node left subtrees.',
     c='''
int main(void)
{
  SplayTreeInfo *t;
  char *keys[3000];
  int i;
  WizardsToolkitGenesis("demo");
  t = NewSplayTree(CompareSplayTreeString, NULL, NULL);
  for (i = 0; i < 3000; i++)
  {
    keys[i] = malloc(16);
    sprintf(keys[i], "%06d", 3000-i);
    AddValueToSplayTree(t, keys[i], keys[i]);
  }
  for (i = 0; i < 3000; i++)
    if (GetValueFromSplayTree(t, keys[i]) != keys[i]) FAIL("%s was lost", keys[i]);
  return 0;
}
''')

seed('xml-cdata-charref', 'C24', [('wizard/xml-tree.c',
 '''    if ((state != 'c') && (strncmp(xml,"&#",2) == 0))
''', '''    if (strncmp(xml,"&#",2) == 0)
''')],
     'a CDATA section that contains text that looks like a character reference',
     'Character references inside CDATA sections are expanded, so the text the document carries verbatim is changed.',
     c='''
int main(void)
{
  ExceptionInfo *e;
  XMLTreeInfo *x;
  WizardsToolkitGenesis("demo");
  e = AcquireExceptionInfo();
  x = NewXMLTree("<a><![CDATA[x &#65; y]]></a>", e);
  if (x == NULL) FAIL("not parsed");
  if (strcmp(GetXMLTreeContent(x), "x &#65; y") != 0) FAIL("content is '%s'", GetXMLTreeContent(x));
  return 0;
}
''')

seed('file-eintr', 'C27', [('wizard/file.c',
 '''    count=write(file_info->file,(unsigned char *) data+i,length-i);
    if (count == 0)
      break;
    if (count < 0)
      {
        count=0;
        if (errno != EINTR)
''', '''    count=write(file_info->file,(unsigned char *) data+i,length-i);
    if (count == 0)
      break;
    if (count < 0)
      {
        count=0;
        if (errno == EINTR)
''')],
     'a write interrupted by a signal',
     'A write interrupted before it transfers anything is given up instead of being continued, and other errors are retried for ever.',
     c='''
#include <errno.h>
#include <unistd.h>
#include <dlfcn.h>
#include <sys/syscall.h>
static int left = 0;
ssize_t write(int fd, const void *p, size_t n)
{
  if (left > 0 && fd > 2) { left--; errno = EINTR; return -1; }
  return syscall(SYS_write, fd, p, n);
}
int main(void)
{
  ExceptionInfo *e;
  FileInfo *f;
  WizardBooleanType ok;
  WizardsToolkitGenesis("demo");
  e = AcquireExceptionInfo();
  f = AcquireFileInfo("./interrupted.dat", "x", WriteFileMode, e);
  if (f == NULL) FAIL("open");
  left = 2;
  ok = WriteFileChunk(f, "0123456789", 10);
  if (ok == WizardFalse) FAIL("an interrupted write is reported as a failure");
  DestroyFileInfo(f, e);
  return 0;
}
''')

seed('file-sign', 'C27', [('wizard/file.c',
 '''  *value|=((WizardSizeType) buffer[3]) << 24;
''', '''  *value|=(WizardSizeType) (buffer[3] << 24);
''')],
     'a 64-bit value whose fourth byte has its top bit set',
     'A 64-bit value read back from a file has its upper word overwritten by a sign extension.',
     c='''
int main(void)
{
  ExceptionInfo *e;
  FileInfo *f;
  WizardSizeType v = 0;
  WizardsToolkitGenesis("demo");
  e = AcquireExceptionInfo();
  f = AcquireFileInfo("./value.dat", "x", WriteFileMode, e);
  if (f == NULL) FAIL("open");
  if (WriteFile64Bits(f, 0x0000000180000001ULL) == WizardFalse) FAIL("write");
  lseek(GetFileDescriptor(f), 0, SEEK_SET);
  if (ReadFile64Bits(f, &v) == WizardFalse) FAIL("read");
  if (v != 0x0000000180000001ULL) FAIL("read back %llx", (unsigned long long) v);
  DestroyFileInfo(f, e);
  return 0;
}
''')

seed('lock-thread', 'C16', [('wizard/file.c',
 '''            if ((pid == (ssize_t) getpid()) && (tid == GetWizardThreadId()))
''', '''            if (pid == (ssize_t) getpid())
''')],
     'two threads of a process that open the same file at the same time',
     'A thread gets the lock on a file while another thread of the same process holds it.',
     c='''
#include <pthread.h>
static volatile int got = 0;
static void *other(void *p)
{
  ExceptionInfo *e = AcquireExceptionInfo();
  FileInfo *f = AcquireFileInfo("./shared.dat", "x", WriteFileMode, e);
  if (f != NULL) { got = 1; DestroyFileInfo(f, e); }
  return NULL;
}
int main(void)
{
  ExceptionInfo *e;
  FileInfo *f;
  pthread_t t;
  WizardsToolkitGenesis("demo");
  e = AcquireExceptionInfo();
  f = AcquireFileInfo("./shared.dat", "x", WriteFileMode, e);
  if (f == NULL) FAIL("open");
  pthread_create(&t, NULL, other, NULL);
  pthread_join(t, NULL);
  if (got) FAIL("both threads hold the lock");
  DestroyFileInfo(f, e);
  return 0;
}
''')

seed('secret-digest', 'C13', [('wizard/secret.c',
 '''  if (CompareStringInfo(secret_info->id,digest) != 0)
''', '''  if (GetStringInfoLength(secret_info->id) != GetStringInfoLength(digest))
''')],
     'a wrong passphrase for a key that exists',
     'Any passphrase authenticates a key: the digest of the deciphered key is not compared with its identifier.',
     c='''
static void put(const char *f, const char *t) { FILE *o = fopen(f, "wb"); fputs(t, o); fclose(o); }
int main(void)
{
  ExceptionInfo *e;
  SecretInfo *s, *t;
  WizardsToolkitGenesis("demo");
  e = AcquireExceptionInfo();
  put("right", "the right phrase, the right phrase");
  put("wrong", "a wrong phrase, a wrong phrase 123");
  s = AcquireSecretInfo("./ring.xdm", SHA2256Hash, 256);
  SetSecretPassphrase(s, "right");
  if (GenerateSecretKey(s, e) == WizardFalse) FAIL("generate");
  t = AcquireSecretInfo("./ring.xdm", SHA2256Hash, 256);
  SetSecretId(t, GetSecretId(s));
  SetSecretPassphrase(t, "right");
  if (AuthenticateSecretKey(t, e) == WizardFalse) FAIL("the right passphrase is refused");
  t = AcquireSecretInfo("./ring.xdm", SHA2256Hash, 256);
  SetSecretId(t, GetSecretId(s));
  SetSecretPassphrase(t, "wrong");
  if (AuthenticateSecretKey(t, e) != WizardFalse) FAIL("a wrong passphrase is accepted");
  return 0;
}
''')

seed('copy-string-end', 'C19', [('wizard/string.c',
 '''  for (n=length; n > 4; n-=4)
''', '''  for (n=length; n >= 4; n-=4)
''')],
     'a copy into a buffer whose size is a multiple of four, of a string at least that long',
     'A bounded string copy writes its terminator one byte beyond the destination.',
     c='''
int main(void)
{
  char b[9];
  WizardsToolkitGenesis("demo");
  memset(b, 'z', sizeof(b));
  CopyWizardString(b, "0123456789", 8);
  if (b[8] != 'z' || b[7] != 0) FAIL("the copy does not fit its bound");
  return 0;
}
''')

seed('substitute-empty', 'C19', [('wizard/string.c',
 '''    p+=replace_extent-1;
  }
  return(status);
''', '''    if (replace_extent != 0)
      p+=replace_extent-1;
  }
  return(status);
''')],
     'removing a text that occurs twice in a row',
     'Replacing with nothing leaves every second of adjacent occurrences in place.',
     c='''
int main(void)
{
  char *s;
  WizardsToolkitGenesis("demo");
  s = AcquireString("aXXXb");
  SubstituteString(&s, "X", "");
  if (strcmp(s, "ab") != 0) FAIL("got %s", s);
  return 0;
}
''')

seed('base64-tail', 'C20', [('wizard/utility.c',
 '''  for (p=blob; p < (blob+blob_length-2); p+=3)
''', '''  for (p=blob; p < (blob+blob_length-3); p+=3)
''')],
     'any blob whose length is a multiple of three',
     'The last three bytes of a blob whose length is a multiple of three are left out of its base64 encoding.',
     c='''
int main(void)
{
  size_t n = 0;
  char *e;
  WizardsToolkitGenesis("demo");
  e = Base64Encode((const unsigned char *) "abcdef", 6, &n);
  if (n != 8 || strcmp(e, "YWJjZGVm") != 0) FAIL("encoded as %s", e);
  return 0;
}
''')

seed('base64-padding', 'C20', [('wizard/utility.c',
 '''          if ((int) decode[i] != 0)
            {
              decode=(unsigned char *) RelinquishWizardMemory(decode);
              return((unsigned char *) NULL);
            }
''', '''          (void) i;
''')],
     'padded base64 text whose unused low bits are not zero',
     'Two different base64 texts decode to the same bytes: left-over bits before the padding are ignored.',
     c='''
int main(void)
{
  size_t n = 0;
  WizardsToolkitGenesis("demo");
  if (Base64Decode("YR==", &n) != NULL) FAIL("left-over bits are accepted");
  if (Base64Decode("YQ==", &n) == NULL || n != 1) FAIL("valid text refused");
  return 0;
}
''')

seed('glob-range', 'C29', [('wizard/token.c',
 '''              if ((*expression < c) || (*expression > *pattern))
''', '''              if ((*expression < c) || (*expression >= *pattern))
''')],
     'a character at the upper end of a bracketed range',
     'The last character of a range in a glob pattern does not match.',
     c='''
int main(void)
{
  WizardsToolkitGenesis("demo");
  if (GlobExpression("filez", "file[a-z]", WizardFalse) == WizardFalse) FAIL("z is not in [a-z]");
  if (GlobExpression("file0", "file[a-z]", WizardFalse) != WizardFalse) FAIL("0 is in [a-z]");
  return 0;
}
''')

seed('path-subnode', 'C31', [('wizard/utility.c',
 '''      for (q=p-1; q > component; q--)
''', '''      for (q=component; q < p; q++)
''')],
     'a path with more than one opening bracket and a subnode at its end',
     'The subnode of a path starts at its first bracket instead of its last, so the file name loses a bracketed part.',
     c='''
int main(void)
{
  char c[WizardPathExtent];
  WizardsToolkitGenesis("demo");
  GetPathComponent("/nowhere/a[1]b.txt[2]", SubnodePath, c);
  if (strcmp(c, "2") != 0) FAIL("subnode '%s'", c);
  GetPathComponent("/nowhere/a[1]b.txt[2]", BasePath, c);
  if (strcmp(c, "a[1]b") != 0) FAIL("base '%s'", c);
  return 0;
}
''')

seed('memory-overlap', 'C34', [('wizard/memory.c',
 '''  if (((q+size) < p) || (q > (p+size)))
''', '''  if (((q+size) < p) || (q > (p+size/2)))
''')],
     'an overlapping copy whose destination starts in the second half of its source',
     'An overlapping copy takes the non-overlap path.',
     c='''
int main(void)
{
  unsigned char b[512], m[512];
  int i, d, n;
  WizardsToolkitGenesis("demo");
  for (n = 1; n <= 200; n++)
    for (d = 1; d < 256; d++)
    {
      for (i = 0; i < 512; i++) b[i] = m[i] = (unsigned char) (i*7+d);
      CopyWizardMemory(b+d, b, n);
      memmove(m+d, m, n);
      if (memcmp(b, m, 512) != 0) FAIL("%d bytes by %d", n, d);
    }
  return 0;
}
''')

seed('time-day', 'C28', [('wizard/string.c',
 '''    local_time.tm_mon+1,local_time.tm_mday,local_time.tm_hour,
''', '''    local_time.tm_mon+1,gm_time.tm_mday,local_time.tm_hour,
''')],
     'a zone and a moment at which the local day differs from the day in UTC',
     'A time stamp is a day off for part of the day outside UTC.',
     c='''
int main(void)
{
  char t[WizardPathExtent];
  setenv("TZ", "EST5", 1);
  tzset();
  WizardsToolkitGenesis("demo");
  FormatWizardTime((time_t) 1000000000+3600*2, sizeof(t), t);   /* 2001-09-08T22:46:40 EST */
  if (strncmp(t, "2001-09-08T22:46:40", 19) != 0) FAIL("%s", t);
  return 0;
}
''')

