#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ (patch.diff, demo.sh, demo.c, meta.json) from the
tables in tools/seeds_*.py, against the current /repo HEAD.

  mkseeds.py               write all
  mkseeds.py --confirm ID  also confirm: builds a scratch copy with the change,
                           runs the stable tests and the demonstration on both
  mkseeds.py --catch ID    apply to /repo, run the property's quick check, undo
  mkseeds.py --confirm-new every seed with no "confirmed" mark in .build
"""
import glob, importlib.util, json, os, shutil, subprocess, sys, hashlib, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
BASE = '7441800'
SEEDS = []


def seed(id, prop, edits, needs, breaks, c=None, sh=None, files=None):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs,
                      breaks=breaks, c=c, sh=sh, files=files or {}))


HEAD_SH = '''#!/bin/bash
# Run with the current directory at /repo, after /opt/vp/build.sh.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
obj=$repo/_build/obj
tmp=$(mktemp -d) || exit 99
trap 'rm -rf "$tmp"' EXIT
export HOME=$tmp WIZARD_HOME=$tmp/ WIZARD_CONFIGURE_PATH=$repo/config
export LD_LIBRARY_PATH=$obj/wizard/.libs
bin=$obj/utilities/.libs
'''
C_SH = HEAD_SH + '''gcc -g -w -DHAVE_CONFIG_H -I"$obj" -I"$repo" "$here/demo.c" -o "$tmp/demo" \\
  "$obj/wizard/.libs/libWizardsToolkit.so" -lm -lpthread || exit 98
cd "$tmp" && timeout 250 ./demo
'''
C_HEAD = '''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "wizard/studio.h"
#include "wizard/WizardsToolkit.h"
#include "wizard/blob.h"
#include "wizard/blob-private.h"

#define FAIL(...) do { printf("FAIL: " __VA_ARGS__); printf("\\n"); fflush(stdout); _exit(1); } while (0)

'''


def load():
    for f in sorted(glob.glob(V + '/tools/seeds_*.py')):
        src = open(f).read()
        exec(compile(src, f, 'exec'), {'seed': seed})
    ids = [s['id'] for s in SEEDS]
    assert len(ids) == len(set(ids)), 'duplicate ids'


def patched(s):
    out = {}
    for (f, old, new) in s['edits']:
        t = out.get(f) or subprocess.check_output(
            ['git', '-C', R, 'show', 'HEAD:' + f]).decode('latin-1')
        if t.count(old) != 1:
            raise SystemExit('%s: %d matches in %s of\n%s' % (s['id'], t.count(old), f, old))
        base = subprocess.check_output(['git', '-C', R, 'show', BASE + ':' + f]).decode('latin-1').splitlines()
        after = t.replace(old, new).splitlines()
        own = [l for l in t.splitlines() if l not in after and l not in base]
        if own:
            raise SystemExit('%s: not lines of the original repository: %s' % (s['id'], own))
        out[f] = t.replace(old, new)
    return out


def write(s):
    d = V + '/seeded/' + s['id']
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(d):
        os.remove(os.path.join(d, f))
    diff = ''
    with tempfile.TemporaryDirectory() as t:
        for f, text in patched(s).items():
            for side, body in (('a', subprocess.check_output(
                    ['git', '-C', R, 'show', 'HEAD:' + f])),
                    ('b', text.encode('latin-1'))):
                p = os.path.join(t, side, f)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, 'wb').write(body)
        r = subprocess.run(['diff', '-ruN', 'a', 'b'], cwd=t, stdout=subprocess.PIPE)
        for line in r.stdout.decode('latin-1').splitlines(True):
            if line.startswith('diff -ruN'):
                continue
            if line.startswith('--- ') or line.startswith('+++ '):
                line = line.split('\t')[0].rstrip('\n') + '\n'
            diff += line
    open(d + '/patch.diff', 'w', encoding='latin-1').write(diff)
    if s['c']:
        open(d + '/demo.c', 'w').write(C_HEAD + s['c'].strip('\n') + '\n')
        open(d + '/demo.sh', 'w').write(C_SH)
    else:
        open(d + '/demo.sh', 'w').write(HEAD_SH + s['sh'].strip('\n') + '\n')
    for name, body in s['files'].items():
        open(d + '/' + name, 'w').write(body)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['prop'], 'needs': s['needs'],
               'what_it_breaks': s['breaks']},
              open(d + '/meta.json', 'w'), indent=1)
    open(d + '/meta.json', 'a').write('\n')


def demo(d, repo_dir):
    t = tempfile.mkdtemp(prefix='demo')
    try:
        for f in os.listdir(d):
            if f not in ('patch.diff', 'meta.json'):
                shutil.copy2(os.path.join(d, f), t)
        r = subprocess.run(['bash', t + '/demo.sh'], cwd=repo_dir, timeout=300,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return r.returncode, r.stdout.decode('latin-1')[-300:]
    finally:
        shutil.rmtree(t)


def confirm(s):
    """Apply in /repo, build, test, demo; undo; build; demo."""
    d = V + '/seeded/' + s['id']
    assert not subprocess.check_output(['git', '-C', R, 'status', '--short']).strip()
    ok = True
    msg = []
    try:
        subprocess.check_call(['git', '-C', R, 'apply', d + '/patch.diff'])
        b = subprocess.run(['bash', '/opt/vp/build.sh'], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT)
        if b.returncode:
            msg.append('BUILD FAILS ' + b.stdout.decode()[-800:]); ok = False
        else:
            code, out = demo(d, R)
            msg.append('demo patched: %d %s' % (code, out.strip().splitlines()[-1:] ))
            ok &= code != 0 and code < 98
            if ok:
                subprocess.run(['bash', '/opt/vp/test.sh', '/tmp/seed_t.json'],
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                t = json.load(open('/tmp/seed_t.json'))
                miss = [x for x in json.load(open('/opt/vp/BASELINE.json'))['stable']
                        if x not in t['passed']]
                if miss:
                    ok = False
                    msg.append('TESTS FAIL: %s' % miss[:4])
    finally:
        subprocess.check_call(['git', '-C', R, 'checkout', '--', '.'])
        subprocess.run(['bash', '/opt/vp/build.sh'], stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL)
    code, out = demo(d, R)
    msg.append('demo clean: %d %s' % (code, out.strip().splitlines()[-1:] if code else ''))
    ok &= code == 0
    return ok, '; '.join(msg)


def catch(s):
    d = V + '/seeded/' + s['id']
    assert not subprocess.check_output(['git', '-C', R, 'status', '--short']).strip()
    try:
        subprocess.check_call(['git', '-C', R, 'apply', d + '/patch.diff'])
        env = dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick')
        r = subprocess.run(['./check', s['prop']], cwd=V, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    finally:
        subprocess.check_call(['git', '-C', R, 'checkout', '--', '.'])
    out = r.stdout.decode('latin-1')
    got = r.returncode == 1 and ('VIOLATION property=%s ' % s['prop']) in out
    return got, out


def main():
    load()
    a = sys.argv[1:]
    mark = V + '/.build/seeds.json'
    marks = json.load(open(mark)) if os.path.exists(mark) else {}
    sel = SEEDS
    ids = [x for x in a if not x.startswith('--')]
    if ids:
        sel = [s for s in SEEDS if any(s['id'].startswith(i) for i in ids)]
    for s in SEEDS:
        write(s)
    if not ids:
        for x in os.listdir(V + '/seeded'):
            if x not in [s['id'] for s in SEEDS]:
                shutil.rmtree(os.path.join(V, 'seeded', x))
    for s in sel:
        key = hashlib.sha1(json.dumps([s['edits'], s['c'], s['sh'], s['files'], C_SH]).encode()).hexdigest()
        m = marks.get(s['id'])
        if '--confirm' in a or ('--confirm-new' in a and (not m or m.get('key') != key or not m['ok'])):
            ok, msg = confirm(s)
            print(s['id'], s['prop'], 'CONFIRMED' if ok else 'NOT CONFIRMED', msg, flush=True)
            marks[s['id']] = {'key': key, 'ok': ok}
            json.dump(marks, open(mark, 'w'))
        if '--catch' in a or ('--catch-new' in a and not (marks.get(s['id'], {}).get('caught'))):
            got, out = catch(s)
            print(s['id'], s['prop'], 'caught' if got else 'MISSED', flush=True)
            if '-v' in a or not got:
                print(out[-1500:])
            marks.setdefault(s['id'], {'key': key, 'ok': False})['caught'] = got
            json.dump(marks, open(mark, 'w'))
    known = V + '/tools/caught.json'
    old = json.load(open(known)) if os.path.exists(known) else {}
    new = {s['id']: marks.get(s['id'], {}).get('caught', old.get(s['id'])) for s in SEEDS}
    json.dump({k: v for k, v in sorted(new.items()) if v is not None}, open(known, 'w'), indent=1)


main()
