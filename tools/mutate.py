#!/usr/bin/env python3
"""mutate.py FILE N [--seed S] [--props C21,C22] [--lines A-B]

Measures how sensitive the checks are: makes N small random changes of FILE one
at a time in a scratch copy of /repo, runs the checks of the properties the file
anchors against the copy, and prints the changes no check reports.  Changes that
do not compile or give the same object code are skipped."""
import hashlib, json, os, random, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = {
 'wizard/aes.c': 'C08', 'wizard/serpent.c': 'C08', 'wizard/twofish.c': 'C08', 'wizard/chacha.c': 'C08 C09', 'wizard/cipher.c': 'C08 C09',
 'wizard/crc64.c': 'C06', 'wizard/md5.c': 'C06', 'wizard/sha1.c': 'C06', 'wizard/sha2224.c': 'C06', 'wizard/sha2256.c': 'C06',
 'wizard/sha2384.c': 'C06', 'wizard/sha2512.c': 'C06', 'wizard/sha3.c': 'C06', 'wizard/hash.c': 'C06', 'wizard/hmac.c': 'C07',
 'wizard/entropy.c': 'C10 C11', 'wizard/zip.c': 'C10 C11', 'wizard/bzip.c': 'C10 C11', 'wizard/lzma.c': 'C10 C11',
 'wizard/random.c': 'C12 C15', 'wizard/secret.c': 'C13', 'wizard/authenticate.c': 'C13', 'wizard/keyring.c': 'C14 C15 C16', 'wizard/key.c': 'C17',
 'wizard/string.c': 'C18 C19 C20 C39', 'wizard/hashmap.c': 'C21 C22 C38', 'wizard/splay-tree.c': 'C23 C38', 'wizard/xml-tree.c': 'C24 C25',
 'wizard/blob.c': 'C26', 'wizard/file.c': 'C27 C16', 'wizard/timer.c': 'C28', 'wizard/mime.c': 'C30', 'wizard/token.c': 'C36 C29',
 'wizard/utility.c': 'C31 C20', 'wizard/option.c': 'C32', 'wizard/resource.c': 'C33 C38', 'wizard/memory.c': 'C34', 'wizard/exception.c': 'C35 C38',
 'wizard/locale.c': 'C39 C41', 'wizard/log.c': 'C40', 'wizard/semaphore.c': 'C38', 'wizard/configure.c': 'C41', 'wizard/passphrase.c': 'C45',
 'utilities/encipher.c': 'C01 C04 C37 C44', 'utilities/decipher.c': 'C01 C02 C03 C04 C37', 'utilities/digest.c': 'C05 C04 C37',
 'utilities/content.c': 'C01 C02 C37 C42', 'utilities/keyring.c': 'C37 C42', 'utilities/cipher-info.c': 'C37 C42', 'utilities/utility.c': 'C01 C37',
}
RULES = [(r'<=', ['<']), (r'>=', ['>']), (r'(?<![<=>!-])<(?![<=])', ['<=']), (r'(?<![->=])>(?![>=])', ['>=']), (r'==', ['!=']), (r'!=', ['==']),
 (r'&&', ['||']), (r'\|\|', ['&&']), (r'\+1\b', ['', '+2']), (r'-1\b', ['', '-2']), (r'\+\+', ['']), (r'--', ['']), (r'\+=', ['=', '-=']), (r'-=', ['+=']),
 (r'\^=', ['=', '|=']), (r'\|=', ['=']), (r'&=', ['=', '|=']), (r'(?<![\w.])(\d+)(?![\w.])', ['N+1', 'N-1']), (r'0x[0-9a-fA-F]+', ['H^1']),
 (r'WizardTrue', ['WizardFalse']), (r'WizardFalse', ['WizardTrue']), (r'<<', ['>>']), (r'>>', ['<<']), (r'(?<=[\w)])\+(?=[\w(])', ['-']), (r'(?<=[\w)])-(?=[\w(])', ['+']),
 (r'\bbreak;', [';']), (r'\bcontinue;', [';'])]
def code_lines(text):
    """Line numbers that are code: not comments, directives or declarations."""
    out, comment, depth = [], False, 0
    for i, l in enumerate(text):
        s = l.strip()
        if comment:
            comment = '*/' not in s
            continue
        if s.startswith('/*'):
            comment = '*/' not in s
            continue
        if s.startswith('#') or s.startswith('*') or not s: continue
        if l.startswith('{'): depth = 1; continue
        if l.startswith('}'): depth = 0; continue
        if depth and not re.search(r'assert|LogWizardEvent|ThrowFatalException|WizardFatalError', s, re.I): out.append(i)
    return out
def mutate(text, rng, lines):
    i = rng.choice(lines)
    l = text[i]
    if rng.random() < .3 and re.match(r'^\s+[\w(*].*;\s*$', l) and not re.match(r'^\s+(const |static )?\w+( \*?\w+)?;$', l) and text[i-1].rstrip().endswith((';', '}', '{')):
        return i, re.match(r'^\s*', l).group() + ';\n'
    ops = [(m, r) for p, rs in RULES for m in re.finditer(p, l) for r in rs]
    ops = [(m, r) for m, r in ops if l[:m.start()].count('"') % 2 == 0]
    if not ops: return None
    m, r = rng.choice(ops)
    if r == 'N+1': r = str(int(m.group(1)) + 1)
    elif r == 'N-1':
        if int(m.group(1)) == 0: return None
        r = str(int(m.group(1)) - 1)
    elif r == 'H^1': r = hex(int(m.group(), 16) ^ (1 << rng.randrange(8)))
    return i, l[:m.start()] + r + l[m.end():]
def main():
    f, n = sys.argv[1], int(sys.argv[2])
    opt = dict(zip(sys.argv[3::2], sys.argv[4::2]))
    props = opt.get('--props', PROPS[f].replace(' ', ',')).split(',')
    props = [p for p in props if os.path.exists('%s/props/%s.cc' % (V, p))]
    rng = random.Random(opt.get('--seed', '1') + f)
    scratch = '/tmp/mut/repo-' + opt.get('--slot', '0')
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    subprocess.check_call('git -C /repo archive HEAD | tar -x -C ' + scratch, shell=True)
    text = open(scratch + '/' + f).read().splitlines(True)
    lines = code_lines(text)
    if '--lines' in opt:
        a, b = map(int, opt['--lines'].split('-'))
        lines = [i for i in lines if a <= i + 1 <= b]
    cc = 'clang -g0 -O1 -w -DHAVE_CONFIG_H -I%s/config/gen -I%s -c %s/%s -o ' % (V, scratch, scratch, f)
    def obj():
        o = scratch + '/x.o'
        if subprocess.call(cc + o, shell=True, stderr=subprocess.DEVNULL): return None
        return hashlib.sha256(open(o, 'rb').read()).hexdigest()
    base = obj()
    seen, done, caught = {base, None}, 0, 0
    env = dict(os.environ, VERIF_REPO=scratch)
    while done < n:
        for _ in range(400):
            m = mutate(text, rng, lines)
            if not m: continue
            t = list(text); t[m[0]] = m[1]
            open(scratch + '/' + f, 'w').writelines(t)
            h = obj()
            if h not in seen: break
        else: break
        seen.add(h); done += 1
        by = None
        for p in props:
            try: r = subprocess.run([V + '/check', p, '--seed', '1'], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=1500)
            except subprocess.TimeoutExpired: by = p + ' TIMEOUT'; break
            if r.returncode == 1 and b'VIOLATION property=' + p.encode() in r.stdout: by = p; break
            if r.returncode: by = '%s exit %d: %s' % (p, r.returncode, r.stdout.decode(errors='replace')[-300:]); break
        caught += by is not None
        if by is None or ' ' in by:
            print('%s %s:%d\n- %s\n+ %s' % ('MISSED' if by is None else by, f, m[0] + 1, text[m[0]].strip(), m[1].strip()), flush=True)
    print('%s: %d of %d changes caught by %s' % (f, caught, done, ','.join(props)), flush=True)
    shutil.rmtree(scratch, ignore_errors=True)
main()
