# Utilities, blobs, resources, exceptions, log, configuration, options, MIME.

seed('chunksize-digits', 'C01', [('utilities/encipher.c',
 '''    "    <cipher:chunksize>%.20g</cipher:chunksize>\\n",(double)
''', '''    "    <cipher:chunksize>%g</cipher:chunksize>\\n",(double)
''')],
     'a chunk size of a million bytes or more, not a round number',
     'The content records a rounded chunk size, so deciphering reads chunks of another size and cannot restore the file.',
     sh='''
printf 'a passphrase that is long enough' > "$tmp/p"
head -c 3000000 /dev/urandom > "$tmp/plain"
"$bin/encipher" -passphrase "$tmp/p" -chunksize 1234567 "$tmp/plain" "$tmp/cipher" || exit 97
"$bin/decipher" -passphrase "$tmp/p" "$tmp/cipher" "$tmp/back" || { echo "FAIL: decipher"; exit 1; }
cmp "$tmp/plain" "$tmp/back" || { echo "FAIL: not restored"; exit 1; }
''')

seed('hmac-first-chunk', 'C02', [('utilities/decipher.c',
 '''        if (CompareStringInfo(hmac,GetHMACDigest(content_info->hmac_info)) != 0)
''', '''        if ((chunk < 2) &&
            (CompareStringInfo(hmac,GetHMACDigest(content_info->hmac_info)) != 0))
''')],
     'a change in the third or a later chunk of a ciphertext',
     'Only the first two chunks of a content are authenticated; altered later chunks are written out as plaintext.',
     sh='''
printf 'a passphrase that is long enough' > "$tmp/p"
head -c 1000 /dev/urandom > "$tmp/plain"
"$bin/encipher" -passphrase "$tmp/p" -entropy None -chunksize 100 "$tmp/plain" "$tmp/cipher" || exit 97
n=$(stat -c %s "$tmp/cipher")
python3 - "$tmp/cipher" <<'PY'
import sys
d=bytearray(open(sys.argv[1],'rb').read())
d[-400]^=1
open(sys.argv[1],'wb').write(d)
PY
"$bin/decipher" -passphrase "$tmp/p" "$tmp/cipher" "$tmp/back" && { echo "FAIL: altered content accepted"; exit 1; }
exit 0
''')

seed('passphrase-extent', 'C03', [('wizard/secret.c',
 '''    phrase=GetPassphrase(exception);
  else
    phrase=FileToStringInfo(secret_info->passphrase,~0,exception);
  if (phrase == (StringInfo *) NULL)
    return(WizardFalse);
  SetCipherKey(''', '''    phrase=GetPassphrase(exception);
  else
    phrase=FileToStringInfo(secret_info->passphrase,64,exception);
  if (phrase == (StringInfo *) NULL)
    return(WizardFalse);
  SetCipherKey('''), ('wizard/secret.c',
 '''    phrase=FileToStringInfo(secret_info->passphrase,~0,exception);
  if (phrase == (StringInfo *) NULL)
    return(WizardFalse);
  sans=''', '''    phrase=FileToStringInfo(secret_info->passphrase,64,exception);
  if (phrase == (StringInfo *) NULL)
    return(WizardFalse);
  sans=''')],
     'two passphrases longer than 64 bytes that share their first 64 bytes',
     'Only the first 64 bytes of a passphrase count, so a different long passphrase opens the content.',
     sh='''
head -c 64 /dev/zero | tr '\\0' 'x' > "$tmp/common"
{ cat "$tmp/common"; printf 'the right ending'; } > "$tmp/right"
{ cat "$tmp/common"; printf 'another ending'; } > "$tmp/wrong"
printf 'some text to keep' > "$tmp/plain"
"$bin/encipher" -passphrase "$tmp/right" "$tmp/plain" "$tmp/cipher" || exit 97
"$bin/decipher" -passphrase "$tmp/right" "$tmp/cipher" "$tmp/ok" || exit 96
"$bin/decipher" -passphrase "$tmp/wrong" "$tmp/cipher" "$tmp/bad" && { echo "FAIL: opened with another passphrase"; exit 1; }
exit 0
''')

seed('digest-extent', 'C05', [('utilities/digest.c',
 '''      if (count <= 0)
        break;
      length=(size_t) count;
      SetStringInfoLength(content,length);
      UpdateHash(hash_info,content);
      extent+=length;
''', '''      if (count <= 0)
        break;
      length=(size_t) count;
      SetStringInfoLength(content,length);
      if ((extent == 0) || (length == WizardMaxBufferExtent))
        UpdateHash(hash_info,content);
      extent+=length;
''')],
     'a file longer than the read buffer whose last, partial block changes',
     'The last partial block of a long file is left out of its digest, so changes there go unnoticed.',
     sh='''
head -c 300007 /dev/urandom > "$tmp/file"
"$bin/digest" -hash SHA2-256 "$tmp/file" "$tmp/doc.rdf" || exit 97
want=$(sha256sum < "$tmp/file" | cut -d' ' -f1)
grep -qi "$want" "$tmp/doc.rdf" || { echo "FAIL: the document does not hold the file's digest"; exit 1; }
''')

seed('blob-map-offset', 'C26', [('wizard/blob.c',
 '''      count=(ssize_t) WizardMin(length,blob_info->length-blob_info->offset);
      blob_info->offset+=count;
      if (count != (ssize_t) length)
''', '''      count=(ssize_t) WizardMin(length,blob_info->length-blob_info->offset);
      blob_info->offset+=length;
      if (count != (ssize_t) length)
''')],
     'a file large enough to be mapped, read past its end',
     'The position of a mapped blob runs past the end of the file after a short read.',
     c='''
int main(void)
{
  ExceptionInfo *e;
  BlobInfo *b;
  FILE *f;
  char *p = malloc(1 << 20);
  size_t n = WizardMaxBufferExtent+1000;
  WizardsToolkitGenesis("demo");
  e = AcquireExceptionInfo();
  f = fopen("big", "wb");
  memset(p, 'q', n);
  fwrite(p, 1, n, f);
  fclose(f);
  b = OpenBlob("big", ReadBinaryBlobMode, WizardFalse, e);
  if (b == NULL) FAIL("open");
  if (ReadBlob(b, n-10, p) != (ssize_t) (n-10)) FAIL("read");
  if (ReadBlob(b, 100, p) != 10) FAIL("short read");
  if (TellBlob(b) != (WizardOffsetType) n) FAIL("position %ld of %ld", (long) TellBlob(b), (long) n);
  return 0;
}
''')

seed('blob-eof-byte', 'C26', [('wizard/blob.c',
 '''        case 3:
        {
          c=getc(blob_info->file_info.file);
          if (c == EOF)
            break;
          *q++=(unsigned char) c;
          count++;
        }
        case 2:
        {
          c=getc(blob_info->file_info.file);
          if (c == EOF)
            break;
          *q++=(unsigned char) c;
          count++;
        }
''', '''        case 3:
        {
          c=getc(blob_info->file_info.file);
          if (c == EOF)
            break;
          *q++=(unsigned char) c;
          count++;
        }
        case 2:
        {
          c=getc(blob_info->file_info.file);
          if ((signed char) c == EOF)
            break;
          *q++=(unsigned char) c;
          count++;
        }
''')],
     'a two to four byte read whose next to last byte is 0xff',
     'A short read stops at a byte of value 255 as if the file ended there.',
     c='''
int main(void)
{
  ExceptionInfo *e;
  BlobInfo *b;
  FILE *f;
  unsigned char p[4];
  WizardsToolkitGenesis("demo");
  e = AcquireExceptionInfo();
  f = fopen("small", "wb");
  fwrite("ab\\377defgh", 1, 8, f);
  fclose(f);
  b = OpenBlob("small", ReadBinaryBlobMode, WizardFalse, e);
  if (b == NULL) FAIL("open");
  if (ReadBlob(b, 4, p) != 4) FAIL("read stopped early");
  return 0;
}
''')

seed('resource-file-leak', 'C33', [('wizard/resource.c',
 '''      resource_info.map-=size;
''', '''      resource_info.map-=(size & 0xffffffffUL);
''')],
     'a mapping of 4 GiB or more that is acquired and released',
     'Releasing a resource of 4 GiB or more leaves most of it accounted for.',
     c='''
int main(void)
{
  WizardSizeType before, n = (WizardSizeType) 5 << 30;
  WizardsToolkitGenesis("demo");
  SetWizardResourceLimit(MapResource, (WizardSizeType) 100 << 30);
  before = GetWizardResource(MapResource);
  if (AcquireWizardResource(MapResource, n) == WizardFalse) FAIL("acquire");
  RelinquishWizardResource(MapResource, n);
  if (GetWizardResource(MapResource) != before) FAIL("%llu bytes are still accounted for", (unsigned long long) GetWizardResource(MapResource));
  return 0;
}
''')

seed('exception-inherit', 'C35', [('wizard/exception.c',
 '''  if ((p != (ExceptionInfo *) NULL) && (p->severity == severity) &&
      (LocaleCompare(exception->reason,reason) == 0) &&
''', '''  if ((p != (ExceptionInfo *) NULL) && (p->severity >= severity) &&
      (LocaleCompare(exception->reason,reason) == 0) &&
''')],
     'two exceptions with the same text, the second of a lower severity',
     'An exception is dropped when a more severe one with the same text was recorded just before it.',
     c='''
static int warnings = 0, errors = 0;
static void w(const ExceptionType s, const char *r, const char *d) { warnings++; }
static void x(const ExceptionType s, const char *r, const char *d) { errors++; }
int main(void)
{
  ExceptionInfo *e;
  WizardsToolkitGenesis("demo");
  SetWarningHandler(w);
  SetErrorHandler(x);
  e = AcquireExceptionInfo();
  ThrowException(e, FileError, "same", "text");
  ThrowException(e, FileWarning, "same", "text");
  CatchException(e);
  if (errors != 1 || warnings != 1) FAIL("%d errors and %d warnings delivered", errors, warnings);
  return 0;
}
''')

seed('log-percent-end', 'C40', [('wizard/log.c',
 '''  text=(char  *) RelinquishWizardMemory(text);
  (void) ContinueTimer(log_info->timer);
  UnlockSemaphoreInfo(log_info->event_semaphore);
  return(WizardTrue);
''', '''  text=(char  *) RelinquishWizardMemory(text);
  (void) ContinueTimer(log_info->timer);
  log_info->handler_mask&=(~StdoutHandler);
  UnlockSemaphoreInfo(log_info->event_semaphore);
  return(WizardTrue);
''')],
     'two enabled events written to standard output',
     'Only the first event reaches standard output.',
     sh='''
mkdir "$tmp/conf" && cp "$repo"/config/*.xml "$tmp/conf/" || exit 97
cat > "$tmp/conf/log.xml" <<'XML'
<?xml version="1.0" encoding="UTF-8"?>
<logmap>
  <log events="None"/>
  <log output="stdout"/>
  <log format="%d %e"/>
</logmap>
XML
cat > "$tmp/d.c" <<'C'
#include "wizard/studio.h"
#include "wizard/WizardsToolkit.h"
int main(void)
{
  WizardsToolkitGenesis("demo");
  SetLogEventMask("User");
  SetLogFormat("%d %e");
  LogWizardEvent(UserEvent, GetWizardModule(), "event %d", 1);
  LogWizardEvent(UserEvent, GetWizardModule(), "event %d", 2);
  LogWizardEvent(UserEvent, GetWizardModule(), "event %d", 3);
  return 0;
}
C
gcc -g -w -DHAVE_CONFIG_H -I"$obj" -I"$repo" "$tmp/d.c" -o "$tmp/d" "$obj/wizard/.libs/libWizardsToolkit.so" -lm || exit 98
cd "$tmp" && WIZARD_CONFIGURE_PATH=$tmp/conf ./d > "$tmp/out"
cat "$tmp/out"
[ "$(grep -c 'event [123]' "$tmp/out")" = 3 ] || { echo "FAIL: $(grep -c 'event' "$tmp/out") of 3 events"; exit 1; }
''')

seed('option-negate', 'C32', [('wizard/option.c',
 '''            option_types=option_types | option_info[i].type;
          break;
        }
    }
''', '''            option_types=option_info[i].type;
          break;
        }
    }
''')],
     'a list of several options',
     'A list of options is read as its last element only.',
     c='''
int main(void)
{
  ssize_t a, b, c;
  WizardsToolkitGenesis("demo");
  a = ParseWizardOption(WizardLogEventOptions, WizardTrue, "Blob");
  b = ParseWizardOption(WizardLogEventOptions, WizardTrue, "Trace");
  c = ParseWizardOption(WizardLogEventOptions, WizardTrue, "Blob,Trace");
  if (a < 0 || b < 0 || c != (a | b)) FAIL("Blob,Trace is %ld, not %ld", (long) c, (long) (a | b));
  return 0;
}
''')

seed('mime-long-msb', 'C30', [('wizard/mime.c',
 '''        for (i=0; i <= (ssize_t) p->extent; i++)
''', '''        for (i=0; (i == 0) || (i < (ssize_t) p->extent); i++)
''')],
     'a string magic with an extent, found exactly at the end of it',
     'A magic string at the last position its extent allows is not recognized.',
     sh='''
mkdir "$tmp/conf" && cp "$repo"/config/*.xml "$tmp/conf/" || exit 97
cat > "$tmp/conf/mime.xml" <<'XML'
<?xml version="1.0" encoding="UTF-8"?>
<mimemap>
  <mime type="demo/type" acronym="X" description="demo" data-type="string" offset="0:4" magic="MAGIC" priority="50"/>
</mimemap>
XML
cat > "$tmp/d.c" <<'C'
#include "wizard/studio.h"
#include "wizard/WizardsToolkit.h"
int main(void)
{
  ExceptionInfo *e;
  const MimeInfo *m;
  int i, ok = 1;
  WizardsToolkitGenesis("demo");
  e = AcquireExceptionInfo();
  for (i = 0; i <= 4; i++)
  {
    char t[32] = "....................";
    memcpy(t+i, "MAGIC", 5);
    m = GetMimeInfo(NULL, (unsigned char *) t, 20, e);
    if (m == NULL || strcmp(GetMimeType(m), "demo/type") != 0) { printf("FAIL: not recognized at %d\\n", i); ok = 0; }
  }
  return ok ? 0 : 1;
}
C
gcc -g -w -DHAVE_CONFIG_H -I"$obj" -I"$repo" "$tmp/d.c" -o "$tmp/d" "$obj/wizard/.libs/libWizardsToolkit.so" -lm || exit 98
cd "$tmp" && WIZARD_CONFIGURE_PATH=$tmp/conf ./d
''')

seed('configure-include', 'C41', [('wizard/configure.c',
 '''    if (strcasecmp(name,p->name) == 0)
''', '''    if (strncasecmp(name,p->name,strlen(name)) == 0)
''')],
     'a lookup of a name that is a prefix of a name defined earlier',
     'A configuration value is looked up by prefix, so a shorter name gets the value of a longer one.',
     sh='''
mkdir "$tmp/conf" && cp "$repo"/config/*.xml "$tmp/conf/" || exit 97
cat > "$tmp/conf/configure.xml" <<'XML'
<?xml version="1.0" encoding="UTF-8"?>
<configuremap>
  <configure name="VERSION_LONG" value="long one"/>
  <configure name="VERSION" value="short one"/>
</configuremap>
XML
cat > "$tmp/d.c" <<'C'
#include "wizard/studio.h"
#include "wizard/WizardsToolkit.h"
int main(void)
{
  ExceptionInfo *e;
  const ConfigureInfo *c;
  WizardsToolkitGenesis("demo");
  e = AcquireExceptionInfo();
  c = GetConfigureInfo("VERSION", e);
  if (c == NULL || strcmp(GetConfigureValue(c), "short one") != 0) { printf("FAIL: VERSION is %s\\n", c ? GetConfigureValue(c) : "-"); return 1; }
  return 0;
}
C
gcc -g -w -DHAVE_CONFIG_H -I"$obj" -I"$repo" "$tmp/d.c" -o "$tmp/d" "$obj/wizard/.libs/libWizardsToolkit.so" -lm || exit 98
cd "$tmp" && WIZARD_CONFIGURE_PATH=$tmp/conf ./d
''')

seed('token-escaped-backslash', 'C36', [('wizard/token.c',
 '''        if ((*p == '\\\\') && ((*(p+1) == escape) || (*(p+1) == '\\\\')))
''', '''        if ((*p == '\\\\') && (*(p+1) == escape))
''')],
     'a quoted token that holds an escaped backslash',
     'An escaped backslash in a quoted token is not undone, and one before the closing quote runs the token into what follows.',
     c='''
int main(void)
{
  const char *end;
  char t[WizardPathExtent];
  WizardsToolkitGenesis("demo");
  GetNextToken("\\"a\\\\\\\\\\" next", &end, sizeof(t), t);
  if (strcmp(t, "a\\\\") != 0) FAIL("token '%s'", t);
  return 0;
}
''')

seed('size-prefix', 'C39', [('wizard/string.c',
 '''            case 'P': e=15.0; break;
            case 'E': e=18.0; break;
''', '''            case 'P': e=15.0; break;
            case 'E': e=16.0; break;
''')],
     'a value with the exa prefix',
     'The exa prefix multiplies by the wrong power.',
     c='''
int main(void)
{
  char *q;
  WizardsToolkitGenesis("demo");
  if (InterpretSiPrefixValue("2EB", &q) != 2e18) FAIL("2EB is %g", InterpretSiPrefixValue("2EB", &q));
  return 0;
}
''')

seed('keyring-utility-protocol', 'C42', [('wizard/keyring.c',
 '''    hex=StringInfoToHexString(nonce);
    (void) ConcatenateString(&keyring_rdf,hex);
''', '''    hex=StringInfoToHexString(GetStringInfoLength(nonce) > 16 ? id : nonce);
    (void) ConcatenateString(&keyring_rdf,hex);
''')],
     'a key with a nonce longer than 16 bytes',
     'The keyring report shows the identifier in place of a long nonce.',
     sh='''
cat > "$tmp/d.c" <<'C'
#include "wizard/studio.h"
#include "wizard/WizardsToolkit.h"
static StringInfo *s(const char *p) { StringInfo *x = AcquireStringInfo(strlen(p)); memcpy(GetStringInfoDatum(x), p, strlen(p)); return x; }
int main(void)
{
  ExceptionInfo *e;
  KeyringInfo *k;
  WizardsToolkitGenesis("demo");
  e = AcquireExceptionInfo();
  k = AcquireKeyringInfo("./ring.xdm");
  SetKeyringId(k, s("identifier")); SetKeyringKey(k, s("the key")); SetKeyringNonce(k, s("a nonce of more than sixteen"));
  return ImportKeyringKey(k, e) == WizardFalse;
}
C
gcc -g -w -DHAVE_CONFIG_H -I"$obj" -I"$repo" "$tmp/d.c" -o "$tmp/d" "$obj/wizard/.libs/libWizardsToolkit.so" -lm || exit 98
cd "$tmp" && ./d || exit 97
"$bin/keyring" ring.xdm out.rdf || exit 96
want=$(printf 'a nonce of more than sixteen' | od -An -tx1 | tr -d ' \\n')
grep -qi "$want" out.rdf || { echo "FAIL: the nonce is not reported"; exit 1; }
''')

seed('keyring-nonce-stale', 'C14', [('wizard/keyring.c',
 '''  if (keyring_info->nonce != (StringInfo *) NULL)
    keyring_info->nonce=DestroyStringInfo(keyring_info->nonce);
  keyring_info->nonce=CloneStringInfo(nonce);
''', '''  if (keyring_info->nonce == (StringInfo *) NULL)
    keyring_info->nonce=CloneStringInfo(nonce);
''')],
     'one keyring object used to look up two keys one after the other',
     'The second lookup through a keyring object returns the nonce of the first.',
     c='''
static StringInfo *s(const char *p) { StringInfo *x = AcquireStringInfo(strlen(p)); memcpy(GetStringInfoDatum(x), p, strlen(p)); return x; }
static void add(const char *id, const char *nonce)
{
  ExceptionInfo *e = AcquireExceptionInfo();
  KeyringInfo *k = AcquireKeyringInfo("./ring.xdm");
  SetKeyringId(k, s(id)); SetKeyringKey(k, s("the key")); SetKeyringNonce(k, s(nonce));
  if (ImportKeyringKey(k, e) == WizardFalse) FAIL("import");
}
int main(void)
{
  ExceptionInfo *e;
  KeyringInfo *k;
  WizardsToolkitGenesis("demo");
  e = AcquireExceptionInfo();
  add("one", "nonce-1");
  add("two", "nonce-2");
  k = AcquireKeyringInfo("./ring.xdm");
  SetKeyringId(k, s("one"));
  if (ExportKeyringKey(k, e) == WizardFalse || CompareStringInfo(GetKeyringNonce(k), s("nonce-1"))) FAIL("one");
  SetKeyringId(k, s("two"));
  if (ExportKeyringKey(k, e) == WizardFalse || CompareStringInfo(GetKeyringNonce(k), s("nonce-2"))) FAIL("two has the nonce of one");
  return 0;
}
''')

seed('cbc-chained', 'C09', [('wizard/cipher.c',
 '''    for (i=0; i < blocksize; i++)
      p[i]^=input_block[i];
    cipher_info->encipher_block(cipher_info->handle,p,p);
    for (i=0; i < blocksize; i++)
      input_block[i]=p[i];
  }
  /*
    Reset registers.
  */
  (void) ResetWizardMemory(input_block,0,sizeof(input_block));
''', '''    for (i=0; i < blocksize; i++)
      p[i]^=input_block[i];
    cipher_info->encipher_block(cipher_info->handle,p,p);
    for (i=0; i < blocksize; i++)
      input_block[i]=p[i];
  }
  /*
    Reset registers.
  */
  (void) memcpy(GetStringInfoDatum(cipher_info->nonce),input_block,blocksize);
''')],
     'one cipher context in CBC mode that enciphers and then deciphers without a new nonce, or enciphers twice',
     'Enciphering in CBC mode changes the nonce of the context, so what it enciphered does not decipher with that context.',
     c='''
int main(void)
{
  ExceptionInfo *e;
  CipherInfo *c;
  StringInfo *key, *t, *copy;
  WizardsToolkitGenesis("demo");
  e = AcquireExceptionInfo();
  c = AcquireCipherInfo(AESCipher, CBCMode);
  key = StringToStringInfo("0123456789abcdef");
  SetCipherKey(c, key);
  t = StringToStringInfo("the quick brown fox jumps over the lazy dog");
  copy = CloneStringInfo(t);
  t = EncipherCipher(c, t);
  t = DecipherCipher(c, t);
  if (CompareStringInfo(t, copy) != 0) FAIL("not restored");
  return 0;
}
''')

seed('xml-same-tag-order', 'C24', [('wizard/xml-tree.c',
 '''             (node->next->offset <= offset))
''', '''             (node->next->offset < offset))
''')],
     'three or more elements of the same name in a row with no text between them',
     'Walking the elements of one name visits them in another order than the document has them.',
     c='''
int main(void)
{
  ExceptionInfo *e;
  XMLTreeInfo *x, *n;
  char got[16] = "";
  WizardsToolkitGenesis("demo");
  e = AcquireExceptionInfo();
  x = NewXMLTree("<r><a>1</a><a>2</a><a>3</a><a>4</a></r>", e);
  if (x == NULL) FAIL("parse");
  for (n = GetXMLTreeChild(x, "a"); n != NULL; n = GetNextXMLTreeTag(n))
    strcat(got, GetXMLTreeContent(n));
  if (strcmp(got, "1234") != 0) FAIL("visited %s", got);
  return 0;
}
''')

seed('xml-instruction-room', 'C25', [('wizard/xml-tree.c',
 '''    root->processing_instructions[i],(size_t) (j+3),
''', '''    root->processing_instructions[i],(size_t) (j+2),
''')],
     'a document with several processing instructions of one target',
     'Parsing writes past the end of an allocation.',
     sh='''
cat > "$tmp/d.c" <<'C'
#include "wizard/studio.h"
#include "wizard/WizardsToolkit.h"
int main(void)
{
  ExceptionInfo *e;
  XMLTreeInfo *x;
  WizardsToolkitGenesis("demo");
  e = AcquireExceptionInfo();
  x = NewXMLTree("<?a b?><?a c?><?a d?><?a e?><?a f?><r/>", e);
  if (x != NULL) x = DestroyXMLTree(x);
  return 0;
}
C
gcc -g -w -DHAVE_CONFIG_H -I"$obj" -I"$repo" "$tmp/d.c" -o "$tmp/d" "$obj/wizard/.libs/libWizardsToolkit.so" -lm || exit 98
cd "$tmp" && valgrind -q --error-exitcode=1 ./d
''')

seed('splay-early-unlock', 'C38', [('wizard/splay-tree.c',
 '''  if (compare != 0)
    {
      UnlockSemaphoreInfo(splay_tree->semaphore);
      return((void *) NULL);
    }
  value=splay_tree->root->value;
  UnlockSemaphoreInfo(splay_tree->semaphore);
  return(value);
''', '''  UnlockSemaphoreInfo(splay_tree->semaphore);
  if (compare != 0)
    return((void *) NULL);
  value=splay_tree->root->value;
  return(value);
''')],
     'two threads that look up different keys of one splay tree at the same time',
     'A lookup may return the value of another key.',
     c='''
#include <pthread.h>
static SplayTreeInfo *t;
static long wrong = 0;
static void *work(void *a)
{
  unsigned long x = (unsigned long) a*2654435761UL+1;
  long i;
  for (i = 0; i < 3000000 && !wrong; i++)
  {
    x = x*6364136223846793005UL+1442695040888963407UL;
    {
      unsigned long k = 1+(x >> 33) % 50;
      const void *v = GetValueFromSplayTree(t, (void *) k);
      if ((unsigned long) v != k*1000) __sync_fetch_and_add(&wrong, 1);
    }
  }
  return 0;
}
int main(void)
{
  pthread_t id[6];
  unsigned long k;
  int i;
  WizardsToolkitGenesis("demo");
  t = NewSplayTree(NULL, NULL, NULL);
  for (k = 1; k <= 50; k++) AddValueToSplayTree(t, (void *) k, (void *) (k*1000));
  for (i = 0; i < 6; i++) pthread_create(&id[i], 0, work, (void *) (long) (i+1));
  for (i = 0; i < 6; i++) pthread_join(id[i], 0);
  if (wrong) FAIL("a lookup returned the value of another key");
  return 0;
}
''')
