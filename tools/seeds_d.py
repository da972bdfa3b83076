# Storage faults, random keys, damaged keyrings, key maps, leaks, repetition.

seed('keyring-short-write', 'C04', [('wizard/file.c',
 '''    count=write(file_info->file,(unsigned char *) data+i,length-i);
    if (count == 0)
      break;
    if (count < 0)
      {
        count=0;
        if (errno != EINTR)
          break;
      }
  }
  if (i < (ssize_t) length)
    return(WizardFalse);
  return(WizardTrue);
}
''', '''    count=write(file_info->file,(unsigned char *) data+i,length-i);
    if (count == 0)
      break;
    if (count < 0)
      {
        count=0;
        if (errno != EINTR)
          break;
      }
  }
  if ((i == 0) && (length != 0))
    return(WizardFalse);
  return(WizardTrue);
}
''')],
     'a file size limit or full device that cuts the record of the new key in the keyring short',
     'A key that was stored only in part counts as stored: encipher exits with status 0 and the content can never be opened.',
     sh='''
printf 'a passphrase that is long enough' > "$tmp/p"
printf 'tiny' > "$tmp/plain"
for i in 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30; do
  "$bin/encipher" -keyring "$tmp/ring" -passphrase "$tmp/p" "$tmp/plain" "$tmp/c0" || exit 97
done
n=$(stat -c %s "$tmp/ring")
for extra in 20 60 100; do
  cp "$tmp/ring" "$tmp/ring2"
  python3 - "$bin/encipher" "$tmp" $((n+extra)) <<'PY'
import os,resource,signal,subprocess,sys
exe,tmp,limit=sys.argv[1],sys.argv[2],int(sys.argv[3])
def pre():
    signal.signal(signal.SIGXFSZ,signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE,(limit,limit))
r=subprocess.run([exe,'-keyring',tmp+'/ring2','-passphrase',tmp+'/p',tmp+'/plain',tmp+'/c1'],preexec_fn=pre,restore_signals=False,stderr=subprocess.DEVNULL)
sys.exit(3 if r.returncode == 0 else 0)
PY
  [ $? = 3 ] || continue
  "$bin/decipher" -keyring "$tmp/ring2" -passphrase "$tmp/p" "$tmp/c1" "$tmp/back" 2>/dev/null && cmp -s "$tmp/plain" "$tmp/back" || { echo "FAIL: success reported, content lost"; exit 1; }
done
exit 0
''')

seed('random-exact-block', 'C12', [('wizard/random.c',
 '''    FinalizeHMAC(hmac_info);
    IncrementRandomNonce(random_info->nonce);
    (void) CopyWizardMemory(''', '''    FinalizeHMAC(hmac_info);
    if ((i != GetHMACDigestsize(hmac_info)) || (p != key))
      IncrementRandomNonce(random_info->nonce);
    (void) CopyWizardMemory(''')],
     'two draws in a row of exactly one digest, with nothing left over from an earlier draw',
     'The second of two keys of exactly one digest repeats the first.',
     c=r'''
int main(void)
{
  RandomInfo *random_info;
  StringInfo *a,*b;

  WizardsToolkitGenesis("demo");
  random_info=AcquireRandomInfo(SHA2256Hash);
  a=GetRandomKey(random_info,32);
  b=GetRandomKey(random_info,32);
  if (CompareStringInfo(a,b) == 0)
    FAIL("two random keys are equal");
  return(0);
}
''')

seed('file-short-read', 'C15', [('wizard/file.c',
 '''      WizardMaxBufferExtent));
    if (count == 0)
      break;
    if (count < 0)
      {
        count=0;
        if (errno != EINTR)
          break;
      }
  }
  if (i < (ssize_t) length)
    return(WizardFalse);
  return(WizardTrue);
}
''', '''      WizardMaxBufferExtent));
    if (count == 0)
      break;
    if (count < 0)
      {
        count=0;
        if (errno != EINTR)
          break;
      }
  }
  if ((i < (ssize_t) length) && (i < 8))
    return(WizardFalse);
  return(WizardTrue);
}
''')],
     'a keyring cut within the last field of a record, eight or more bytes into it',
     'A record that was cut off still yields a key, with a nonce of which only a part was stored.',
     c=r'''
#include <unistd.h>
#include <sys/stat.h>
int main(void)
{
  ExceptionInfo *exception;
  KeyringInfo *keyring_info;
  StringInfo *id,*key,*nonce;
  struct stat st;

  WizardsToolkitGenesis("demo");
  exception=AcquireExceptionInfo();
  keyring_info=AcquireKeyringInfo("ring.xdm");
  id=StringToStringInfo("an id");
  key=StringToStringInfo("a key that is kept");
  nonce=StringToStringInfo("a nonce of some more bytes");
  SetKeyringId(keyring_info,id);
  SetKeyringKey(keyring_info,key);
  SetKeyringNonce(keyring_info,nonce);
  if (ImportKeyringKey(keyring_info,exception) == WizardFalse)
    return(97);
  if (stat("ring.xdm",&st) != 0)
    return(96);
  if (truncate("ring.xdm",st.st_size-5) != 0)
    return(95);
  keyring_info=AcquireKeyringInfo("ring.xdm");
  SetKeyringId(keyring_info,id);
  if (ExportKeyringKey(keyring_info,exception) != WizardFalse)
    FAIL("a key was returned from a record that was cut off");
  return(0);
}
''')

seed('keymap-prefix-id', 'C17', [('wizard/splay-tree.c',
 '''  return(CompareStringInfo(p,q));
''', '''  if (GetStringInfoLength(p) > GetStringInfoLength(q))
    return(-CompareSplayTreeStringInfo(source,target));
  return(memcmp(GetStringInfoDatum(p),GetStringInfoDatum(q),
    GetStringInfoLength(p)));
''')],
     'two ids of which one is the beginning of the other',
     'An id that begins with another id gets and replaces the key of that other id.',
     c=r'''
int main(void)
{
  KeyInfo *key_info;
  StringInfo *a,*b,*x,*y,*key;

  WizardsToolkitGenesis("demo");
  key_info=AcquireKeyInfo();
  a=StringToStringInfo("backup");
  b=StringToStringInfo("backup-2");
  x=StringToStringInfo("the first key...");
  y=StringToStringInfo("the second key..");
  SetKeyInfo(key_info,a,x);
  SetKeyInfo(key_info,b,y);
  key=GetKeyInfo(key_info,a);
  if (CompareStringInfo(key,x) != 0)
    FAIL("the key of one id was replaced by that of another");
  return(0);
}
''')

seed('properties-value-room', 'C37', [('utilities/content.c',
 '''                if ((size_t) (p-options+1) >= length)
                  {
                    *p='\\0';
                    length<<=1;
                    options=''', '''                if (((size_t) (p-options+1) >= length) &&
                    (length <= WizardPathExtent))
                  {
                    *p='\\0';
                    length<<=1;
                    options=''')],
     'a value of more than 12288 bytes in the processing instruction that starts the content properties',
     'The buffer for such a value grows only once; longer values are written past its end.',
     sh='''
printf 'a passphrase that is long enough' > "$tmp/p"
python3 - "$tmp/bad" <<'PY'
import sys
open(sys.argv[1],'wb').write(b'<?cipherpacket digest='+b'0'*3000000+b' bytes="10"?>\\n0123456789')
PY
"$bin/decipher" -passphrase "$tmp/p" "$tmp/bad" "$tmp/out" 2>/dev/null
r=$?
[ $r -le 1 ] || { echo "FAIL: ended with status $r"; exit 1; }
exit 0
''')

seed('keyring-search-leak', 'C43', [('wizard/keyring.c',
 '''        return(WizardTrue);
      }
    nonce=DestroyStringInfo(nonce);
    key=DestroyStringInfo(key);
    id=DestroyStringInfo(id);
    if (status''', '''        return(WizardTrue);
      }
    if (status == WizardFalse)
      nonce=DestroyStringInfo(nonce);
    key=DestroyStringInfo(key);
    id=DestroyStringInfo(id);
    if (status''')],
     'looking up a key that is not the first of its keyring',
     'Every record passed over in a keyring leaves its nonce allocated, so a process that looks up keys grows without end.',
     c=r'''
#include <malloc.h>
int main(void)
{
  ExceptionInfo *exception;
  KeyringInfo *keyring_info;
  StringInfo *a,*b,*key;
  size_t before,after;
  int i;

  WizardsToolkitGenesis("demo");
  exception=AcquireExceptionInfo();
  a=StringToStringInfo("id one");
  b=StringToStringInfo("id two");
  key=StringToStringInfo("some key or other");
  keyring_info=AcquireKeyringInfo("ring.xdm");
  SetKeyringKey(keyring_info,key);
  SetKeyringNonce(keyring_info,key);
  SetKeyringId(keyring_info,a);
  if (ImportKeyringKey(keyring_info,exception) == WizardFalse)
    return(97);
  SetKeyringId(keyring_info,b);
  if (ImportKeyringKey(keyring_info,exception) == WizardFalse)
    return(96);
  for (i=0; i < 20; i++)
    ExportKeyringKey(keyring_info,exception);
  before=mallinfo2().uordblks+mallinfo2().hblkhd;
  for (i=0; i < 500; i++)
    if (ExportKeyringKey(keyring_info,exception) == WizardFalse)
      return(95);
  after=mallinfo2().uordblks+mallinfo2().hblkhd;
  if (after > before+500*64)
    FAIL("500 lookups left %lu bytes in use",(unsigned long) (after-before));
  return(0);
}
''')

seed('ofb-restart', 'C44', [('wizard/cipher.c',
 '''  q=GetStringInfoDatum(ciphertext)+GetStringInfoLength(ciphertext);
  for (p=GetStringInfoDatum(ciphertext); p < q; p+=blocksize)
  {
    cipher_info->encipher_block(cipher_info->handle,input_block,input_block);
    for (i=0; i < blocksize; i++)
      p[i]^=input_block[i];
  }
''', '''  q=GetStringInfoDatum(ciphertext)+GetStringInfoLength(ciphertext);
  for (p=GetStringInfoDatum(ciphertext); p < q; p+=blocksize)
  {
    if (((p-GetStringInfoDatum(ciphertext)) % 4096) == 0)
      for (i=0; i < blocksize; i++)
        input_block[i]=GetStringInfoDatum(cipher_info->nonce)[i];
    cipher_info->encipher_block(cipher_info->handle,input_block,input_block);
    for (i=0; i < blocksize; i++)
      p[i]^=input_block[i];
  }
'''), ('wizard/cipher.c',
 '''  for (p=GetStringInfoDatum(plaintext); p < q; p+=blocksize)
  {
    cipher_info->encipher_block(cipher_info->handle,input_block,input_block);
    for (i=0; i < blocksize; i++)
      p[i]^=input_block[i];
  }
''', '''  for (p=GetStringInfoDatum(plaintext); p < q; p+=blocksize)
  {
    if (((p-GetStringInfoDatum(plaintext)) % 4096) == 0)
      for (i=0; i < blocksize; i++)
        input_block[i]=GetStringInfoDatum(cipher_info->nonce)[i];
    cipher_info->encipher_block(cipher_info->handle,input_block,input_block);
    for (i=0; i < blocksize; i++)
      p[i]^=input_block[i];
  }
''')],
     'output feedback mode and a content with chunks of more than 4096 bytes',
     'The keystream starts anew every 4096 bytes, so repetitions in the plaintext show in the ciphertext; deciphering agrees.',
     sh='''
printf 'a passphrase that is long enough' > "$tmp/p"
head -c 20000 /dev/zero > "$tmp/plain"
"$bin/encipher" -passphrase "$tmp/p" -mode OFB -entropy None -chunksize 20000 "$tmp/plain" "$tmp/cipher" || exit 97
python3 - "$tmp/cipher" <<'PY'
import sys
b=open(sys.argv[1],'rb').read()[-19000:]
s=set(b[i:i+16] for i in range(0,len(b)-4096-16,16))
if any(b[i:i+16]==b[i+4096:i+4112] for i in range(0,len(b)-4112)):
    print('FAIL: the ciphertext repeats itself after 4096 bytes'); sys.exit(1)
PY
''')

TTY = """
import os, pty, signal, sys, termios, time, select
def start(argv):
    pid, fd = pty.fork()
    if pid == 0:
        os.execv(argv[0], argv)
    return pid, fd
def wait(fd, text, limit=60):
    got = b''
    end = time.time()+limit
    while text not in got and time.time() < end:
        if select.select([fd], [], [], 0.2)[0]:
            try: got += os.read(fd, 4096)
            except OSError: break
    return got
def echo(fd): return bool(termios.tcgetattr(fd)[3] & termios.ECHO)
"""

seed('phrase-signal-echo', 'C45', [('wizard/passphrase.c',
 '''  if (memcmp(&attributes,&save_attributes,sizeof(attributes)) != 0)
    (void) tcsetattr(input,_T_FLUSH,&save_attributes);
''', '''  if ((signal_number == 0) &&
      (memcmp(&attributes,&save_attributes,sizeof(attributes)) != 0))
    (void) tcsetattr(input,_T_FLUSH,&save_attributes);
''')],
     'a signal that ends the process while it waits for a passphrase at the terminal',
     'The terminal is left without echo when the prompt is interrupted.',
     files={'demo.py': TTY + '''
master, slave = pty.openpty()
pid = os.fork()
if pid == 0:
    os.setsid()
    fd = os.open(os.ttyname(slave), os.O_RDWR)
    for i in (0, 1, 2): os.dup2(fd, i)
    os.execv(sys.argv[1], [sys.argv[1], sys.argv[2], sys.argv[3]])
if b'passphrase: ' not in wait(master, b'passphrase: '): sys.exit(97)
if echo(slave): sys.exit(96)
for i in range(60):
    os.kill(pid, signal.SIGINT)
    time.sleep(0.5)
    if os.waitpid(pid, os.WNOHANG)[0] == pid: break
else: sys.exit(95)
if not echo(slave):
    print('FAIL: the terminal is left without echo'); sys.exit(1)
'''}, sh='''
echo text > "$tmp/plain"
timeout 200 python3 "$here/demo.py" "$bin/encipher" "$tmp/plain" "$tmp/cipher"
''')

seed('phrase-prefix-agrees', 'C45', [('wizard/passphrase.c',
 '''    if (CompareStringInfo(phrase,rephrase) == 0)
      break;
''', '''    if (memcmp(GetStringInfoDatum(phrase),GetStringInfoDatum(rephrase),
        GetStringInfoLength(phrase)) == 0)
      break;
''')],
     'a second line that starts with the first one and goes on',
     'Two different lines are taken as agreeing when the first is the beginning of the second.',
     files={'demo.py': TTY + '''
pid, fd = start(sys.argv[1:4])
if b'passphrase: ' not in wait(fd, b'passphrase: '): sys.exit(97)
os.write(fd, b'secret of mine\\n')
if b'again: ' not in wait(fd, b'again: '): sys.exit(96)
os.write(fd, b'secret of mine, and more\\n')
got = wait(fd, b'passphrase: ')
if b'passphrase: ' not in got:
    print('FAIL: two different lines were taken as the passphrase'); sys.exit(1)
os.kill(pid, signal.SIGKILL)
'''}, sh='''
echo text > "$tmp/plain"
timeout 200 python3 "$here/demo.py" "$bin/encipher" "$tmp/plain" "$tmp/cipher"
''')
