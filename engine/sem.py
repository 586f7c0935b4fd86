"""Whole-program facts used to keep summaries modular: normalised syntax hashes, per-function effect closure
(fields written / read, exceptions), which functions are inlined and which are summarised as cuts."""
import hashlib, json, re
from .interp import Hier, unq

def norm(f):
    """function body and signature with positions removed and locals renamed by first occurrence"""
    ids = {}; names = {}
    def go(o):
        if isinstance(o, dict):
            r = {}
            for k, v in o.items():
                if k == 'l' or k == 'usr' or k == 'tu' or k == 'col': continue
                if k == 'id' or k == 'cap_id':
                    r[k] = ids.setdefault(v, len(ids)) if not isinstance(v, (dict, list)) else go(v); continue
                if k == 'n' and 'id' in o: continue
                if k == 'fn' and isinstance(v, str) and ('@aN' in v or 'lambda' in v or '@Sa@' in v): v = 'lambda'
                r[k] = go(v)
            return r
        if isinstance(o, list): return [go(x) for x in o]
        return o
    if 'params' not in f: return json.dumps(go(f), sort_keys=True)
    keys = ('params', 'ret', 'body', 'inits', 'kind', 'cls', 'static', 'const')
    return json.dumps(go({k: f[k] for k in keys if k in f}), sort_keys=True)
LOOPS = ('for', 'while', 'do', 'rfor')
def loophash(s):
    """one loop statement, the loops nested in it left out"""
    def cut(o, top=False):
        if isinstance(o, dict):
            if not top and o.get('k') in LOOPS: return {'k': 'loop'}
            return {k: cut(v) for k, v in o.items()}
        if isinstance(o, list): return [cut(x) for x in o]
        return o
    return hashlib.sha1(norm(cut(s, True)).encode()).hexdigest()
def loophashes(prog, u):
    """the loops of a function, each by its normalised syntax"""
    c = prog.__dict__.setdefault('_loops', {})
    if u not in c:
        r = set()
        def walk(o):
            if isinstance(o, dict):
                if o.get('k') in LOOPS: r.add(loophash(o))
                for v in o.values(): walk(v)
            elif isinstance(o, list):
                for v in o: walk(v)
        f = prog.functions.get(u, {}); walk(f.get('body')); walk(f.get('inits'))
        c[u] = frozenset(r)
    return c[u]
def envhash(prog, f):
    """what a function uses besides its own text: the classes it makes (bases, members and their initialisers) and, for its virtual calls,
    the implementations they reach"""
    h = getattr(prog, '_hier', None) or Hier(prog); prog._hier = h
    cls = set(); virt = set()
    def types(t):
        for n in re.findall(r'[A-Za-z_][\w:]*', t or ''):
            if n in prog.records: cls.add(n)
    def walk(o):
        if isinstance(o, dict):
            k = o.get('k')
            if k in ('ctor', 'inhctor', 'new', 'call', 'init', 'ilist'): types(o.get('t'))
            elif k in ('var', 'decl'): types(o.get('t'))
            if k == 'mcall' and o.get('virt') and not o.get('novirt'): virt.add(o.get('fn'))
            for v in o.values(): walk(v)
        elif isinstance(o, list):
            for v in o: walk(v)
    walk(f.get('body')); walk(f.get('inits'))
    c = prog.__dict__.setdefault('_clsenv', {})
    def env(n):
        if n not in c:
            c[n] = None
            r = prog.records[n]; sub = set()
            for x in r.get('fields', ()):
                for q in re.findall(r'[A-Za-z_][\w:]*', x['t']):
                    if q in prog.records and '*' not in x['t'] and q != n: sub.add(q)
            c[n] = hashlib.sha1(json.dumps([r.get('bases'), norm({'f': [[x['n'], x['t'], x.get('init')] for x in r.get('fields', ())]}),
                                sorted(str(env(q)) for q in sub | {b for b in r.get('bases', ()) if b in prog.records})]).encode()).hexdigest()
        return c[n]
    if not f.get('implicit') and not f.get('defaulted'):
        return [sorted((n, env(n)) for n in cls), sorted((u, sorted(h.overriders(u))) for u in virt)]
    return []
def nhash(f): return hashlib.sha1(norm(f).encode()).hexdigest()

CALLK = ('call', 'mcall', 'ocall', 'ctor', 'inhctor', 'new')
class Sem:
    def __init__(self, prog):
        self.p = prog; self.F = prog.functions
        self.h = getattr(prog, '_hier', None) or Hier(prog); prog._hier = self.h
        self.dw = {}; self.dr = {}; self.calls = {}; self.thr = {}; self.size = {}; self.loops = {}; self.branches = {}; self.virt = {}
        for u, f in self.F.items(): self._direct(u, f)
        self._closure()
        self._trivial()
        self._callers()
    def _direct(self, u, f):
        self.h.mutated, keep = set(), self.h.mutated
        self.dw[u] = set(); self.dr[u] = set(); self.calls[u] = set(); self.thr[u] = False; self.size[u] = 0; self.loops[u] = False; self.branches[u] = 0
        self.virt[u] = False
        parts = [f.get('body'), f.get('inits')]
        if 'body' in f and not f.get('implicit') and not f.get('defaulted'):
            self.h._scan_fn(f)
        self.dw[u] = {k if '::' in k and not k.startswith('c:') else 'g:' + k for k in self.h.mutated}
        self.h.mutated = keep
        def walk(o):
            if isinstance(o, dict):
                k = o.get('k')
                if k: self.size[u] += 1
                if k in ('if', 'cond', 'switch') or k == 'bin' and o.get('op') in ('&&', '||'): self.branches[u] += 1
                if k == 'mem' and o.get('mk') == 'field': self.dr[u].add(o['fcls'] + '::' + o['n'])
                elif k == 'ref' and o.get('rk') in ('global', 'static'): self.dr[u].add('g:' + o['g'])
                elif k == 'throw': self.thr[u] = True
                elif k in ('for', 'while', 'do', 'rfor'): self.loops[u] = True
                if k in CALLK or k == 'inhctor':
                    fn = o.get('fn')
                    if fn:
                        if o.get('virt') and not o.get('novirt') and not o.get('qualified') and len(self.h.overriders(fn)) > 1:
                            self.virt[u] = True
                            self.calls[u] |= self.h.overriders(fn)
                        else: self.calls[u].add(fn)
                    if o.get('noret'): self.thr[u] = True
                if k == 'mem' and o.get('mk') == 'method' and o.get('fn'): self.calls[u].add(o['fn'])
                if k == 'ref' and o.get('rk') == 'fn' and o.get('fn'): self.calls[u].add(o['fn'])
                if k == 'delete':
                    pass
                for v in o.values():
                    if isinstance(v, (dict, list)): walk(v)
            elif isinstance(o, list):
                for v in o: walk(v)
        for x in parts: walk(x)
        if f['kind'] == 'dtor' or f['kind'] == 'ctor': pass
    def _closure(self):
        self.writes = {u: set(s) for u, s in self.dw.items()}
        self.reads = {u: set(s) for u, s in self.dr.items()}
        self.throws = dict(self.thr)
        F = self.F
        ch = True
        while ch:
            ch = False
            for u in F:
                w = self.writes[u]; r = self.reads[u]; a, b, c = len(w), len(r), self.throws[u]
                for v in self.calls[u]:
                    if v in F and v != u:
                        # RUNFILE lexes and parses into Lexer/Parser/Node objects of its own: no existing object is touched
                        if F[u]['name'] == 'runFile' and F[v].get('cls') in ('Lexer', 'Parser'):
                            r |= self.reads[v]; self.throws[u] |= self.throws[v]; continue
                        w |= self.writes[v]; r |= self.reads[v]
                        if self.throws[v]: self.throws[u] = True
                    elif v not in F and self.h.over.get(v): pass
                if (len(w), len(r), self.throws[u]) != (a, b, c): ch = True
    def _callers(self):
        self.callers = {}
        for u, cs in self.calls.items():
            for v in cs: self.callers.setdefault(v, set()).add(u)
        # the branching ones that change state (reading the next token or character) multiply the paths of their callers
        self.soft = {u for u in self.triv if self.writes.get(u) and self.branches[u] and self.F[u]['kind'] != 'ctor' and len({v for v in self.callers.get(u, ())}) > 2}
    def _trivial(self):
        """small loop-free functions without calls to anything but trivial functions: always inlined"""
        self.triv = set()
        F = self.F
        ch = True
        while ch:
            ch = False
            for u, f in F.items():
                if u in self.triv: continue
                if 'body' not in f and f['kind'] != 'ctor' and not f.get('defaulted') and not f.get('implicit'): continue
                if self.loops[u] or self.virt[u] or self.branches[u] > 2: continue
                if self.size[u] > (60 if f['kind'] != 'ctor' else 120): continue
                if all(v not in F or v in self.triv for v in self.calls[u]): self.triv.add(u); ch = True
    def mode(self, u):
        w = self.writes.get(u)
        if w is None: return {}
        th = self.throws[u]
        if not w: return dict(pure=not th, writes=frozenset(), reads=frozenset(self.reads[u]), nothrow=not th)
        return dict(writes=frozenset(w), reads=frozenset(self.reads[u]), nothrow=not th)

    def vmode(self, u):
        w = set(); r = set(); th = False
        for v in self.h.overriders(u):
            w |= self.writes.get(v, set()); r |= self.reads.get(v, set()); th |= self.throws.get(v, False)
        if not w: return dict(pure=not th, writes=frozenset(), reads=frozenset(r), nothrow=not th)
        return dict(writes=frozenset(w), reads=frozenset(r), nothrow=not th)
