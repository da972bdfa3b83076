# Hashes, HMAC, ciphers, entropy, StringInfo.

seed('sha1-carry', 'C06', [('wizard/sha1.c', '''  if (length < sha_info->low_order)
    sha_info->high_order++;
''', '''  if (length < sha_info->low_order)
    sha_info->high_order+=0;
''')],
     'a message of 512 MiB or more fed in several updates',
     'The SHA-1 bit counter loses the carry into its upper word, so the digest of a message longer than 2^32 bits is wrong.',
     c='''
int main(void)
{
  /* SHA-1 of 512 MiB + 64 bytes of zeros, in 4 MiB updates. */
  static const unsigned char expect[20] = {0};
  HashInfo *h;
  StringInfo *m = AcquireStringInfo(4 << 20), *t = AcquireStringInfo(64);
  char line[256];
  char got[64] = "", want[64] = "";
  size_t i;
  FILE *p;
  WizardsToolkitGenesis("demo");
  memset(GetStringInfoDatum(m), 0, GetStringInfoLength(m));
  memset(GetStringInfoDatum(t), 0, 64);
  h = AcquireHashInfo(SHA1Hash);
  InitializeHash(h);
  for (i = 0; i < 128; i++)
    UpdateHash(h, m);
  UpdateHash(h, t);
  FinalizeHash(h);
  for (i = 0; i < 20; i++)
    sprintf(got + 2*i, "%02x", GetStringInfoDatum(GetHashDigest(h))[i]);
  p = popen("head -c 536870976 /dev/zero | sha1sum", "r");
  if (fgets(line, sizeof(line), p) == NULL) return 97;
  pclose(p);
  memcpy(want, line, 40);
  if (strcmp(got, want) != 0) FAIL("sha1 %s, expected %s", got, want);
  return 0;
}
''')

seed('ctr-carry', 'C08', [('wizard/cipher.c', '''  for (i=(ssize_t) (length-1); i >= 0; i--)
  {
    nonce[i]++;
    if (nonce[i] != 0)
      return;
  }
  ThrowFatalException''', '''  for (i=(ssize_t) (length-1); i >= 0; i--)
  {
    nonce[i]++;
    if ((nonce[i] != 0) || (i == (ssize_t) (length-4)))
      return;
  }
  ThrowFatalException''')],
     'a counter-mode nonce whose last four bytes are close to all ones and a message that crosses the carry',
     'The CTR counter is only 32 bits wide, so the key stream differs from the standard mode after the low word wraps.',
     c='''
int main(void)
{
  unsigned char key[16], nonce[16], ctr[16];
  CipherInfo *a, *e;
  StringInfo *k, *n, *t, *b;
  int i, j;
  WizardsToolkitGenesis("demo");
  for (i = 0; i < 16; i++) { key[i] = i * 7 + 1; nonce[i] = i; }
  nonce[12] = nonce[13] = nonce[14] = 0xff; nonce[15] = 0xfe;
  k = AcquireStringInfo(16); SetStringInfoDatum(k, key);
  n = AcquireStringInfo(16); SetStringInfoDatum(n, nonce);
  a = AcquireCipherInfo(AESCipher, CTRMode); SetCipherKey(a, k); SetCipherNonce(a, n);
  e = AcquireCipherInfo(AESCipher, ECBMode); SetCipherKey(e, k);
  t = AcquireStringInfo(64); memset(GetStringInfoDatum(t), 0, 64);
  t = EncipherCipher(a, t);
  memcpy(ctr, nonce, 16);
  for (j = 0; j < 4; j++)
  {
    b = AcquireStringInfo(16);
    SetStringInfoDatum(b, ctr);
    b = EncipherCipher(e, b);
    if (memcmp(GetStringInfoDatum(b), GetStringInfoDatum(t) + 16*j, 16) != 0)
      FAIL("block %d is not E(counter)", j);
    for (i = 15; i >= 0 && ++ctr[i] == 0; i--) ;
  }
  return 0;
}
''')

seed('hmac-blockkey', 'C07', [('wizard/hmac.c', '''GetStringInfoLength(key) <= GetStringInfoLength(hmac_info->initial_nonce)''',
 '''GetStringInfoLength(key) < GetStringInfoLength(hmac_info->initial_nonce)''')],
     'a key of exactly the block size',
     'A key exactly as long as the hash block is hashed first, which RFC 2104 reserves for longer keys.',
     c='''
static const unsigned char *sha(const unsigned char *a, size_t na, const unsigned char *b, size_t nb)
{
  static unsigned char out[32];
  HashInfo *h = AcquireHashInfo(SHA2256Hash);
  StringInfo *x = AcquireStringInfo(na), *y = AcquireStringInfo(nb);
  SetStringInfoDatum(x, a); SetStringInfoDatum(y, b);
  InitializeHash(h); UpdateHash(h, x); UpdateHash(h, y); FinalizeHash(h);
  memcpy(out, GetStringInfoDatum(GetHashDigest(h)), 32);
  return out;
}

int main(void)
{
  unsigned char key[64], ipad[64], opad[64], inner[32];
  StringInfo *k, *m;
  HMACInfo *h;
  int i;
  WizardsToolkitGenesis("demo");
  for (i = 0; i < 64; i++) { key[i] = i + 1; ipad[i] = key[i] ^ 0x36; opad[i] = key[i] ^ 0x5c; }
  k = AcquireStringInfo(64); SetStringInfoDatum(k, key);
  m = AcquireStringInfo(3); SetStringInfoDatum(m, (unsigned char *) "abc");
  h = AcquireHMACInfo(SHA2256Hash);
  ConstructHMAC(h, k, m);
  memcpy(inner, sha(ipad, 64, (unsigned char *) "abc", 3), 32);
  if (memcmp(GetStringInfoDatum(GetHMACDigest(h)), sha(opad, 64, inner, 32), 32) != 0)
    FAIL("HMAC with a 64-byte key is not H(opad,H(ipad,m))");
  return 0;
}
''')

seed('zip-truncated', 'C11', [('wizard/zip.c', '''  status=inflate(&stream,Z_FINISH);
  if (status != Z_STREAM_END)
''', '''  status=inflate(&stream,Z_SYNC_FLUSH);
  if ((status != Z_STREAM_END) && (status != Z_OK))
''')],
     'a Zip stream cut before its end',
     'A truncated Zip stream is restored without an error.',
     c='''
int main(void)
{
  ExceptionInfo *e;
  EntropyInfo *z;
  StringInfo *m, *c;
  int i, n;
  WizardsToolkitGenesis("demo");
  e = AcquireExceptionInfo();
  m = AcquireStringInfo(300);
  for (i = 0; i < 300; i++) GetStringInfoDatum(m)[i] = (i * i) >> 3;
  z = AcquireEntropyInfo(ZIPEntropy, 6);
  if (IncreaseEntropy(z, m, e) == WizardFalse) return 97;
  c = CloneStringInfo(GetEntropyChaos(z));
  n = GetStringInfoLength(c);
  SetStringInfoLength(c, n - 6);
  if (RestoreEntropy(z, 300, c, e) != WizardFalse) FAIL("truncated stream restored");
  return 0;
}
''')

seed('bzip-extent', 'C10', [('wizard/bzip.c', '''    (GetStringInfoLength(message)+GetStringInfoLength(message)/100+600));''',
 '''    (GetStringInfoLength(message)+(GetStringInfoLength(message) < 4096 ? 600 :
    GetStringInfoLength(message)/100)));''')],
     'an incompressible message of just over 4 KiB',
     'There is no room for the stream overhead, so an incompressible message of a few KiB cannot be enciphered with BZip.',
     c='''
int main(void)
{
  ExceptionInfo *e;
  EntropyInfo *z;
  StringInfo *m, *c;
  unsigned int x = 12345;
  int i, n = 5000;
  WizardsToolkitGenesis("demo");
  e = AcquireExceptionInfo();
  m = AcquireStringInfo(n);
  for (i = 0; i < n; i++) { x = x * 1664525u + 1013904223u; GetStringInfoDatum(m)[i] = x >> 23; }
  z = AcquireEntropyInfo(BZIPEntropy, 6);
  if (IncreaseEntropy(z, m, e) == WizardFalse) FAIL("cannot compress");
  c = CloneStringInfo(GetEntropyChaos(z));
  if (RestoreEntropy(z, n, c, e) == WizardFalse) FAIL("cannot restore");
  if (CompareStringInfo(m, GetEntropyChaos(z)) != 0) FAIL("differs");
  return 0;
}
''')

seed('compare-nul', 'C18', [('wizard/string.c', '''  status=memcmp(target->datum,source->datum,WizardMin(target->length,
    source->length));
''', '''  status=strncmp((const char *) target->datum,(const char *) source->datum,
    WizardMin(target->length,source->length));
''')],
     'two equally long byte strings that differ only after a zero byte',
     'Comparison stops at a zero byte, so different byte strings compare equal.',
     c='''
int main(void)
{
  StringInfo *a, *b;
  WizardsToolkitGenesis("demo");
  a = AcquireStringInfo(4); SetStringInfoDatum(a, (unsigned char *) "a" "\\0" "bc");
  b = AcquireStringInfo(4); SetStringInfoDatum(b, (unsigned char *) "a" "\\0" "bd");
  if (CompareStringInfo(a, b) >= 0 || CompareStringInfo(b, a) <= 0) FAIL("order");
  return 0;
}
''')
