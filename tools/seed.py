#!/usr/bin/env python3
"""Plants bugs: turns a list S of dict(id, prop, edits, needs, breaks, prog, ...) into /verif/seeded/<id>/, after confirming each in a scratch copy
of /repo (applies, touches original lines, builds, stable tests pass, demo 0 on the clean tree and nonzero on the patched one).
usage: seed.py specs.py [id...] (environment SHOW=1 prints both outputs)"""
import sys, os, shutil, subprocess, json, importlib.util, re
import multiprocessing as mp
BASE = '9b7bedc'
REPO = '/repo'; OUT = '/verif/seeded'; SC = '/tmp/sc'
BASEL = json.load(open('/opt/vp/BASELINE.json'))
def sh(c, cwd=None, t=600):
    p = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t); return p.returncode, p.stdout.decode('latin1')
DEMO = '''#!/bin/bash
# Runs prog.pseudo with the interpreter built in ./_build and compares everything it prints with expected.txt.
D="$(cd "$(dirname "$0")" && pwd)"; BIN="$PWD/_build/PseudoEngine2"
S="$(mktemp -d)"; trap 'rm -r -- "$S"' EXIT
cp "$D"/* "$S"/; cd "$S" || exit 2
touch in.txt
%s
diff expected.txt out.txt
'''
RUN = 'timeout 60 "$BIN"%s prog.pseudo < in.txt > out.txt 2>&1; echo "exit $?" >> out.txt%s'
def blame_ok(diff):
    """every removed line of the patch must be a line of the original repository"""
    bad = []
    f = None; ln = 0
    cache = {}
    for l in diff.split('\n'):
        m = re.match(r'--- a/(.*)', l)
        if m: f = m.group(1); continue
        m = re.match(r'@@ -(\d+)', l)
        if m: ln = int(m.group(1)); continue
        if f is None or l.startswith('+++') : continue
        if l.startswith('-') or l.startswith(' '):
            if l.startswith('-') and l[1:].strip():
                if f not in cache: cache[f] = [x.split()[0].lstrip('^') for x in sh('git -C %s blame -s %s..HEAD -- %s' % (REPO, BASE, f))[1].split('\n') if x] and sh('git -C %s blame -s --abbrev=12 HEAD -- %s' % (REPO, f))[1].split('\n')
                c = cache[f][ln-1].split()[0].lstrip('^')
                if not ANC(c): bad.append(l[:80])
            ln += 1
    return bad
_anc = {}
def ANC(c):
    if c not in _anc: _anc[c] = sh('git -C %s merge-base --is-ancestor %s %s' % (REPO, c, BASE))[0] == 0
    return _anc[c]
def one(s):
    d = SC + '/' + s['id']; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    log = []
    try:
        sh('cp -a %s/. %s/r' % (REPO, d)); r = d + '/r'
        shutil.rmtree(r + '/_build', ignore_errors=True)
        for f, o, n in s['edits']:
            p = r + '/src/' + f; t = open(p, encoding='latin1', newline='').read()
            if '\r\n' in t: o = o.replace('\n', '\r\n'); n = n.replace('\n', '\r\n')
            if t.count(o) != 1: return s['id'], False, 'edit: %s occurs %d times: %r' % (f, t.count(o), o[:60])
            open(p, 'w', encoding='latin1', newline='').write(t.replace(o, n))
        rc, diff = sh('git diff HEAD', r)
        bad = blame_ok(diff)
        if bad: log.append('removes fix lines: %s' % bad)
        b = r + '/_build'
        rc, o = sh('cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_CXX_FLAGS=-Wno-error && ninja -C _build -j3', r)
        if rc: return s['id'], False, 'build: ' + o[-600:]
        if not s.get('notest'):
            rc, o = sh('cd _build && ctest -j4 --timeout 60 < /dev/null', r)
            m = re.search(r'(\d+) tests failed out of (\d+)', o)
            if not m or m.group(1) != '0': return s['id'], False, 'tests: ' + o[-700:]
        e = d + '/e'; os.makedirs(e)
        for n, t in s.get('files', {}).items(): open(e + '/' + n, 'wb').write(t if isinstance(t, bytes) else t.encode('latin1'))
        if 'prog' in s: open(e + '/prog.pseudo', 'wb').write(s['prog'] if isinstance(s['prog'], bytes) else s['prog'].encode('latin1'))
        if 'stdin' in s: open(e + '/in.txt', 'wb').write(s['stdin'] if isinstance(s['stdin'], bytes) else s['stdin'].encode('latin1'))
        run = s.get('run') or RUN % (s.get('args', ''), ''.join('; ' + x for x in s.get('after', ())))
        open(e + '/demo.sh', 'w').write(s.get('demo') or DEMO % run)
        os.chmod(e + '/demo.sh', 0o755)
        def out(where):
            return sh('S=$(mktemp -d); cp %s/* $S; cp %s/_build/PseudoEngine2 $S/../pe.%s; cd $S; touch in.txt; BIN=%s/_build/PseudoEngine2; %s; cat out.txt; rm -r $S' % (e, where, s['id'], where, run), None, 100)[1]
        if not s.get('demo'):
            open(e + '/expected.txt', 'wb').write(b'')
            exp = None
            S = d + '/s'; shutil.copytree(e, S); 
            sh('touch in.txt; BIN=%s/_build/PseudoEngine2; %s' % (REPO, run), S); exp = open(S + '/out.txt', 'rb').read()
            open(e + '/expected.txt', 'wb').write(exp)
            S = d + '/s2'; shutil.copytree(e, S)
            sh('touch in.txt; BIN=%s/_build/PseudoEngine2; %s' % (r, run), S); got = open(S + '/out.txt', 'rb').read()
        else: exp = got = b''
        rc1, o1 = sh(e + '/demo.sh', REPO); rc2, o2 = sh(e + '/demo.sh', r)
        if rc1 != 0: return s['id'], False, 'demo fails on the clean tree: ' + o1[-500:]
        if rc2 == 0: return s['id'], False, 'demo passes on the patched tree: ' + exp.decode('latin1')[-500:]
        t = OUT + '/' + s['id']; shutil.rmtree(t, ignore_errors=True)
        if bad: return s['id'], False, '\n'.join(log)
        shutil.copytree(e, t)
        open(t + '/patch.diff', 'w', encoding='latin1', newline='').write(diff)
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(t + '/meta.json', 'w'), indent=1)
        return s['id'], not bad, '\n'.join(log) + ('\n--- clean\n' + exp.decode('latin1') + '--- patched\n' + (got.decode('latin1') or o2) if os.environ.get('SHOW') else '')
    except Exception as x: return s['id'], False, 'error %r' % x
    finally: shutil.rmtree(d, ignore_errors=True)
if __name__ == '__main__':
    fs = [a for a in sys.argv[1:] if a.endswith('.py')]; sel = [a for a in sys.argv[1:] if not a.endswith('.py')]
    S = []
    for f in fs:
        sp = importlib.util.spec_from_file_location('t', f); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m); S += m.S
    S = [s for s in S if not sel or any(s['id'].startswith(x) for x in sel)]
    with mp.Pool(4) as p:
        for id, ok, t in p.imap(one, S, 1): print('OK  ' if ok else 'FAIL', id, t[:int(os.environ.get('W', '700'))])
