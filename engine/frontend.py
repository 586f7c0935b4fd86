"""Front end: builds tools/astx when missing, parses every translation unit CMakeLists.txt lists with the
build's own flags and merges the resolved syntax trees into one Program."""
import os, re, json, subprocess, sys, hashlib, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PSE_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
L = '/usr/lib/llvm-18/lib'

class AnalysisBroken(Exception):
    """the analysis itself cannot run (vanished anchor, parse failure, ...): error exit, not a verdict"""

def build_astx():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, 'tools', 'astx.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    exe = os.path.join(BUILD, 'astx-' + h)
    if os.path.exists(exe):
        return exe
    tmp = exe + '.%d.tmp' % os.getpid()
    cmd = ['g++', '-std=c++17', '-O1', '-fno-exceptions', '-fno-rtti', '-I/usr/lib/llvm-18/include',
           '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', src, '-o', tmp,
           L + '/libclang-cpp.so.18.1', L + '/libLLVM-18.so']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken('cannot build astx: ' + r.stderr[-2000:])
    os.replace(tmp, exe)
    return exe

def cmake_info(repo):
    t = open(os.path.join(repo, 'CMakeLists.txt')).read()
    t = re.sub(r'#[^\n]*', '', t)
    srcs = []
    for m in re.finditer(r'(?:target_sources|add_executable)\s*\(([^)]*)\)', t):
        for w in m.group(1).split():
            if re.search(r'\.(cpp|cc|cxx)$', w):
                w = w.replace('${CMAKE_CURRENT_LIST_DIR}/', '').replace('${CMAKE_SOURCE_DIR}/', '')
                srcs.append(w)
    srcs = list(dict.fromkeys(srcs))
    if len(srcs) < 20:
        raise AnalysisBroken('CMakeLists.txt lists only %d sources' % len(srcs))
    m = re.search(r'CMAKE_CXX_STANDARD\s+(\d+)', t)
    std = 'c++' + (m.group(1) if m else '20')
    return srcs, std

def stable(text):
    '''names of static locals without the offset of the function they are declared in (they must not change when the text above does)'''
    return re.sub(r'"c:([\w.]+)@\d+@((?:[NSE]@\w+@)*F@[^"]*@\w+)"', r'"c:\1@\2"', text)

class Program:
    pass

def tree_hash(repo, exe):
    h = hashlib.sha256(exe.encode()); h.update(open(os.path.abspath(__file__), 'rb').read())
    for base, ds, fs in os.walk(os.path.join(repo, 'src')):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(base, f)
            h.update(p.encode()); h.update(b'\0'); h.update(open(p, 'rb').read()); h.update(b'\0')
    for f in ('CMakeLists.txt', 'PsConfig.h.in'):
        h.update(open(os.path.join(repo, f), 'rb').read())
    return h.hexdigest()[:24]

def load(repo=None, cache=True):
    """parse result, cached by content hash of every source below src/ (the hash is recomputed on every run)"""
    import pickle
    repo = os.path.abspath(repo or REPO)
    exe = build_astx()
    key = os.path.join(BUILD, 'ast-' + tree_hash(repo, exe) + '.pkl')
    if cache and os.path.exists(key):
        try:
            return pickle.load(open(key, 'rb'))
        except Exception:
            pass
    prog = _load(repo, exe)
    if cache:
        old = sorted((os.path.join(BUILD, f) for f in os.listdir(BUILD) if f.startswith('ast-')), key=os.path.getmtime)
        for f in old[:-8]:
            os.unlink(f)
        tmp = key + '.%d' % os.getpid()
        pickle.dump(prog, open(tmp, 'wb'), protocol=4); os.replace(tmp, key)
    return prog

def _load(repo, exe):
    srcs, std = cmake_info(repo)
    tmp = tempfile.mkdtemp(prefix='pse-astx-')
    try:
        cfg = open(os.path.join(repo, 'PsConfig.h.in')).read()
        open(os.path.join(tmp, 'PsConfig.h'), 'w').write(re.sub(r'@[^@\n]*@', '1', cfg))
        flags = ['-std=' + std, '-I' + os.path.join(repo, 'src'), '-I' + tmp, '-DREADLINE',
                 '-resource-dir', '/usr/lib/llvm-18/lib/clang/18', '-w']
        if os.path.exists(os.path.join(repo, 'src/pch.h')):
            flags += ['-include', os.path.join(repo, 'src/pch.h')]
        hh = hashlib.sha256((exe + ' '.join(f for f in flags if tmp not in f and repo not in f)).encode())
        for base, ds, fs in os.walk(os.path.join(repo, 'src')):
            ds.sort()
            for f in sorted(fs):
                if not f.endswith(('.cpp', '.cc', '.cxx')):
                    q = os.path.join(base, f); hh.update(os.path.relpath(q, repo).encode()); hh.update(open(q, 'rb').read())
        hh.update(cfg.encode())
        tu = os.environ.get('PSE_TUCACHE')       # development only: reuse of unchanged translation units between scratch trees
        def one(s):
            p = os.path.join(repo, s)
            if tu:
                h2 = hh.copy(); h2.update(s.encode()); h2.update(open(p, 'rb').read()); key = os.path.join(tu, h2.hexdigest()[:32])
                if os.path.exists(key): return s, json.loads(stable(open(key).read()))
                r = subprocess.run([exe, repo, p, '--'] + flags, capture_output=True, text=True, cwd=tmp)
                if r.returncode or not r.stdout.strip(): raise AnalysisBroken('cannot parse %s: %s' % (s, r.stderr[-1500:]))
                open(key + '.tmp%d' % os.getpid(), 'w').write(r.stdout); os.replace(key + '.tmp%d' % os.getpid(), key)
                return s, json.loads(stable(r.stdout))
            r = subprocess.run([exe, repo, p, '--'] + flags, capture_output=True, text=True, cwd=tmp)
            if r.returncode or not r.stdout.strip():
                raise AnalysisBroken('cannot parse %s: %s' % (s, r.stderr[-1500:]))
            return s, json.loads(stable(r.stdout))
        prog = Program()
        prog.repo = repo; prog.sources = srcs
        prog.functions = {}; prog.records = {}; prog.enums = {}; prog.globals = {}
        with ThreadPoolExecutor(8) as ex:
            for s, d in ex.map(one, srcs):
                for u, f in d['functions'].items():
                    f['usr'] = u
                    o = prog.functions.get(u)
                    if u.startswith('?') or '@aN@' in u or (f['kind'] == 'func' and '@F@' in u and u.startswith('c:' + os.path.basename(f['file']))):
                        f['tu'] = s
                    if o is None or ('body' in f and 'body' not in o):
                        prog.functions[u] = f
                for n, r in d['records'].items():
                    o = prog.records.get(n)
                    if o is None or len(json.dumps(r)) > len(json.dumps(o)):
                        prog.records[n] = r
                prog.enums.update(d['enums'])
                for n, g in d['globals'].items():
                    if n not in prog.globals or ('init' in g and 'init' not in prog.globals[n]):
                        prog.globals[n] = g
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return prog

if __name__ == '__main__':
    import time
    t = time.time()
    p = load(sys.argv[1] if len(sys.argv) > 1 else None)
    print(len(p.functions), 'functions', len(p.records), 'records', len(p.globals), 'globals', time.time() - t)
