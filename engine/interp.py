"""Path-partitioned abstract interpreter over the resolved syntax tree.

analyse(function) -> list of Path(kind, state, value): kind in ret/throw/abort.  Repo-internal callees are
analysed in place, loops are abstracted by one generic iteration over a havocked state, calls whose target
is not statically known are opaque effects.  Nothing is executed; no solver is involved."""
import sys
from .terms import *
sys.setrecursionlimit(20000)

INTS = {'int','long','unsigned int','unsigned long','short','unsigned short','char','signed char','unsigned char',
        'long long','unsigned long long','wchar_t','char8_t','char16_t','char32_t','size_t'}
WIDTH = {'char':8,'signed char':8,'unsigned char':8,'short':16,'unsigned short':16,'int':32,'unsigned int':32,
         'long':64,'unsigned long':64,'long long':64,'unsigned long long':64,'bool':1,'wchar_t':32,'char32_t':32,'char16_t':16,'char8_t':8}
UW = {'unsigned int': 32, 'unsigned long': 64, 'unsigned short': 16, 'unsigned char': 8, 'unsigned long long': 64}
def wrapu(v, t):
    """unsigned arithmetic on known values wraps around"""
    if isc(v) and isinstance(v.a[0], int) and not isinstance(v.a[0], bool):
        w = UW.get(unq(t))
        if w and not 0 <= v.a[0] < 1 << w: return C(v.a[0] & ((1 << w) - 1))
    return v
UNS = {'unsigned int','unsigned long','unsigned short','unsigned char','unsigned long long','char8_t','char16_t','char32_t'}
FLOATS = {'double','float','long double'}
NPOS = T('sym', 'npos')

class Undecided(Exception): pass

# versions of a field: low part counts the path's own stores, high part counts calls and loops that may have written it
CLOB = 1 << 20
class St:
    __slots__ = ('store','facts','eff','epoch','fep','esc','nheap','dyn','notes','obl','asm')
    def __init__(self):
        self.store = {}; self.facts = Facts(); self.eff = (); self.epoch = 0; self.fep = {}; self.esc = frozenset()
        self.nheap = 0; self.dyn = {}; self.notes = (); self.obl = (); self.asm = ()
    def copy(self):
        s = St.__new__(St)
        s.store = dict(self.store); s.facts = self.facts; s.eff = self.eff; s.epoch = self.epoch; s.fep = self.fep
        s.esc = self.esc; s.nheap = self.nheap; s.dyn = self.dyn; s.notes = self.notes; s.obl = self.obl; s.asm = self.asm
        return s

OPENMODE = {'app': 1, 'ate': 2, 'binary': 4, 'in': 8, 'out': 16, 'trunc': 32}      # libstdc++
class Path:
    __slots__ = ('kind','st','val')
    def __init__(self, kind, st, val): self.kind = kind; self.st = st; self.val = val

def unq(t):
    t = t.strip()
    while True:
        if t.startswith('const '): t = t[6:]
        elif t.startswith('volatile '): t = t[9:]
        elif t.endswith(' const'): t = t[:-6]
        elif t.endswith('&'): t = t[:-1].strip()
        else: return t
def isptr(t): t = unq(t); return t.endswith('*') or t == 'std::nullptr_t' or t.endswith('*const')
def isuptr(t): t = unq(t); return t.startswith('std::unique_ptr<') or t.startswith('std::shared_ptr<')
def isstr(t): return unq(t).startswith('std::basic_string<')
def isvec(t): return unq(t).startswith('std::vector<') or unq(t).startswith('std::initializer_list<') or unq(t).startswith('std::deque<') or unq(t).startswith('std::array<')
def isstream(t):
    t = unq(t); return any(t.startswith('std::basic_' + x) for x in ('ostream<','istream<','iostream<','ifstream<','ofstream<','fstream<','ostringstream<','istringstream<','stringstream<','ios<')) or t=='std::ios_base'
def isiter(t): t = unq(t); return t.startswith('__gnu_cxx::__normal_iterator<') or t.startswith('std::_Bit_iterator') or t.startswith('std::_Bit_const_iterator')
def telem(t):
    """first template argument"""
    t = unq(t); i = t.index('<'); d = 0
    for j in range(i, len(t)):
        c = t[j]
        if c == '<': d += 1
        elif c == '>':
            d -= 1
            if d == 0: return t[i+1:j].strip()
        elif c == ',' and d == 1: return t[i+1:j].strip()
    return ''

class Hier:
    """class hierarchy, overriders and field stability of a program"""
    def __init__(self, prog):
        self.p = prog
        self.recs = prog.records
        self.sub = {}
        for n, r in self.recs.items():
            for b in r['bases']: self.sub.setdefault(b, set()).add(n)
        self.over = {}      # method usr -> set of overriding usrs (direct)
        self.mcls = {}
        for n, r in self.recs.items():
            for m in r.get('methods', ()):
                self.mcls[m['fn']] = n
                for o in m['over']: self.over.setdefault(o, set()).add(m['fn'])
        self.local = False; self.mutated = set(); self._scan(); self.local = True
    def isa(self, c, b):
        if c == b: return True
        r = self.recs.get(c)
        return bool(r) and any(self.isa(x, b) for x in r['bases'])
    def mine(self, t):
        r = self.recs.get(unq(t)); return bool(r) and r['mine']
    def subs(self, c):
        r = set([c]); w = [c]
        while w:
            for x in self.sub.get(w.pop(), ()):
                if x not in r: r.add(x); w.append(x)
        return r
    def overriders(self, u):
        r = set([u]); w = [u]
        while w:
            for x in self.over.get(w.pop(), ()):
                if x not in r: r.add(x); w.append(x)
        return r
    def resolve(self, u, cls):
        """implementation of virtual method u for dynamic class cls"""
        names = self.overriders(u)
        w = [cls]
        while w:
            c = w.pop(0); r = self.recs.get(c)
            if not r: continue
            for m in r.get('methods', ()):
                if m['fn'] in names: return m['fn']
            w += r['bases']
        return None
    def allfields(self, cls):
        r = self.recs.get(cls) or {}
        for b in r.get('bases', ()): yield from self.allfields(b)
        for f in r.get('fields', ()):
            if 'n' in f and not f.get('static'): yield cls, f
    def fields(self, cls):
        r = self.recs.get(cls)
        if not r: return []
        out = []
        for b in r['bases']: out += self.fields(b)
        for f in r.get('fields', ()): out.append((cls + '::' + f['n'], f))
        return out
    def _scan(self):
        for u, f in self.p.functions.items():
            if f.get('implicit') or f.get('defaulted'): continue
            self._scan_fn(f)
    def _scan_fn(self, f0):
        def strip(e):
            while isinstance(e, dict) and (e['k'] == 'cast' or e['k'] == 'idx' or (e['k'] == 'ocall' and (e['op'] == '[]' or e['op'] in ('*', '->') and not self.mine(e.get('t', '').rstrip('* ')))) or (e['k']=='mcall' and e.get('fname') in ('back','front','at'))):
                e = e['e'] if e['k'] == 'cast' else e['b'] if e['k'] == 'idx' else e['obj'] if e['k']=='mcall' else e['a'][0]
            return e
        alias = {}
        def local(e):
            """storage of a by-value local of this function"""
            while isinstance(e, dict):
                if e['k'] == 'ref': return e.get('rk') in ('local', 'param') and not e.get('isref')
                if e['k'] == 'mem' and not e.get('arrow'): e = e['b']
                elif e['k'] == 'cast': e = e['e']
                else: return False
            return False
        def mark(e, f, d=0):
            e = strip(e)
            if isinstance(e, dict):
                if e['k'] == 'mem' and e.get('mk') == 'field':
                    if e.get('isref') or e.get('fconst'): return
                    if not e['arrow'] and local(e['b']): return
                    self.mutated.add(e['fcls'] + '::' + e['n'])
                    b = e['b']
                    if not e['arrow']: mark(b, f, d)
                elif e['k'] == 'ref' and e.get('rk') in ('global', 'static') and f['name'] != 'main': self.mutated.add(e['g'])
                elif e['k'] == 'ref' and e.get('id') in alias and d < 6: mark(alias[e['id']], f, d + 1)
        def walk(o, f):
            if isinstance(o, dict):
                k = o.get('k')
                if k == 'bin' and o['op'] == '=': mark(o['a'], f)
                elif k == 'cassign': mark(o['a'], f)
                elif k == 'un' and o['op'] in ('++', '--', '&'):
                    if o['op'] != '&' or not (o.get('t', '').startswith('const ') or '(' in o.get('t', '')): mark(o['e'], f)
                elif k == 'decl':
                    for d in o['d']:
                        if d.get('ref') and not d['t'].startswith('const ') and d.get('init') is not None: alias[d['id']] = d['init']
                elif k == 'rfor' and o['var'].get('ref') and not o['var']['t'].startswith('const '):
                    if 'bindings' in o['var']: mark(o['range'], f)
                    else: alias[o['var']['id']] = o['range']
                elif k == 'return' and not self.local and o.get('e') and f.get('ret', '').endswith('&') and not f['ret'].startswith('const '): mark(o['e'], f)
                elif k == 'ocall' and o['op'] in ('=', '+=', '-=', '++', '--', '<<', '>>', '*=', '/=') and not o.get('cm'): mark(o['a'][0], f)
                elif k == 'mcall' and not o.get('cm') and not o.get('sm') and (not o.get('arrow') or o.get('cls') and not self.mine(o['cls'])) and o.get('fname') not in ('begin', 'end', 'front', 'back', 'data'): mark(o['obj'], f)
                if k in ('call', 'mcall', 'ctor', 'ocall') and o.get('pt'):
                    a = o['a']
                    if k == 'ocall' and 'cls' in o: a = a[1:]
                    for x, pt in zip(a, o['pt']):
                        if pt.endswith('&') and not pt.startswith('const ') and not pt.endswith('&&'): mark(x, f)
                for v in o.values():
                    if isinstance(v, (dict, list)): walk(v, f)
            elif isinstance(o, list):
                for v in o: walk(v, f)
        walk(f0.get('body'), f0)

HANDED = {}
def handed(x):
    """the loaded and returned values a term passes on (not the ones it was only loaded through)"""
    r = HANDED.get(x)
    if r is None:
        r = set(); seen = set(); w = [x]
        while w:
            y = w.pop()
            if isinstance(y, T):
                if y in seen: continue
                seen.add(y)
                if y.op in ('init', 'ret'): r.add(y)
                if y.op != 'init': w.extend(y.a)
            elif isinstance(y, (tuple, frozenset)): w.extend(y)
        HANDED[x] = r
    return r
class Interp:
    def __init__(self, prog, opaque=None, maxpaths=6000, maxdepth=40, events=False, maxsteps=400000):
        self.maxsteps = maxsteps
        self.p = prog
        self.h = getattr(prog, '_hier', None) or Hier(prog)
        prog._hier = self.h
        self.F = prog.functions
        self.uid = 0
        self.opaque_fn = opaque or (lambda u, f: None)
        self.stack = []
        self.thr = []
        self.trydepth = 0
        self.lambdas = {}
        self.maxpaths = maxpaths; self.maxdepth = maxdepth
        self.events = [] if events else None
        self.unknown = {}
        self.steps = 0
        self.analysed = set()
        self.callers = {}
        self.loopkey = []
        self.ctorcache = {}
        self.ownedret = set()

    # ---------------------------------------------------------------- utilities
    def note(self, st, what):
        self.unknown[what] = self.unknown.get(what, 0) + 1
        return T('?', what)
    def ev_note(self, kind, e, st, **d):
        # what the program relies on here: an index within bounds, a pointer that is not null
        if kind == 'index': o = cmp_int('<', d['i'], d['size']())
        elif kind == 'deref' and isinstance(d['p'], T): o = NOT(eq_ptr(d['p'], NULL))
        else: o = None
        if o is not None and o.op != 'const' and o not in st.obl: st.obl = st.obl + (o,)
        if self.events is not None and not self.silent:
            self.events.append((kind, self.where(e), st.facts, d, st))
    silent = 0
    def where(self, e):
        f = self.stack[-1] if self.stack else None
        fn = self.F.get(f) if f else None
        return (fn['file'] if fn else '?', e.get('l', 0) if isinstance(e, dict) else 0, fn['qn'] if fn else '?')
    def stable(self, loc):
        """memory that no statement modifies after construction"""
        l = loc
        while True:
            if l.op == 'fld':
                if l.a[1] in self.h.mutated: return False
                l = l.a[0]
            elif l.op == 'elem': l = l.a[0]
            elif l.op == 'deref': return loc is not l
            elif l.op == 'glob': return l.a[0] not in self.h.mutated
            else: return True
    def fieldkey(self, loc):
        l = loc
        while l.op == 'elem': l = l.a[0]
        return l.a[1] if l.op == 'fld' else 'g:' + str(l.a[0]) if l.op == 'glob' else None
    def isfresh(self, st, loc):
        r = root(loc); return fresh_root(r) and r not in st.esc
    def owned(self, st, loc):
        """memory reached from the unique_ptr an opaque call returned, as long as it has not been handed on"""
        r = root(loc)
        while r.op == 'deref':
            p = r.a[0]
            if p.op == 'ret':
                return p in self.ownedret and r not in st.esc
            if p.op == 'init':
                if r in st.esc: return False
                r = root(p.a[0])
            else: return False
        return False
    def init(self, st, loc):
        if self.stable(loc): return T('init', loc, 0)
        if self.isfresh(st, loc) or self.owned(st, loc): return T('init', loc, 0)
        ep = (st.epoch, st.fep.get(self.fieldkey(loc), 0))
        return T('init', loc, 0 if ep == (0, 0) else ep)
    def load(self, st, loc):
        v = st.store.get(loc)
        if v is not None: return v
        if loc.op == 'fld':
            b = st.store.get(loc.a[0])
            if b is None:
                a = loc.a[0]
                while a.op == 'fld' and a not in st.store: a = a.a[0]
                if a.op == 'heap' and a in st.store: b = self.load(st, loc.a[0])
            if b is not None and b.op != 'bind': return self.proj(b, loc.a[1])
        if loc.op == 'elem':
            if loc.a[0].op == 'deref' and loc.a[0].a[0].op == 'ret' and loc.a[0].a[0].a[0] == 'readline': return self.at(st, loc.a[0].a[0], loc.a[1])
            if loc.a[0].op == 'deref' and loc.a[0].a[0].op == 'cstr' and isinstance(loc.a[1], T) and loc.a[1].op == 'const' and isinstance(loc.a[0].a[0].a[0], T) and loc.a[0].a[0].a[0].op == 'str':
                x = loc.a[0].a[0].a[0].a[0]; k = loc.a[1].a[0]
                if isinstance(x, str) and 0 <= k <= len(x): return C(ord(x[k]) if k < len(x) else 0)
            b = self.load(st, loc.a[0])
            if not (b.op == 'init' and b.a[0] is loc.a[0]): return self.at(st, b, loc.a[1])
        return self.init(st, loc)
    def proj(self, v, f):
        if v.op == 'struct':
            for k, x in v.a[1]:
                if k == f: return x
        if v.op == 'init': return T('init', T('fld', v.a[0], f), v.a[1])
        if v.op == 'pair': return v.a[0] if f.endswith('first') else v.a[1]
        return T('proj', v, f)
    def at(self, st, v, i):
        if v.op == 'vec' and i.op == 'const' and 0 <= i.a[0] < len(v.a[0]): return v.a[0][i.a[0]]
        if v.op == 'str' and i.op == 'const' and 0 <= i.a[0] < len(v.a[0]): return C(ord(v.a[0][i.a[0]]))
        if v.op == 'push':
            if i is self.size(v.a[0]): return v.a[1]
        if v.op == 'setat':
            if v.a[1] is i: return v.a[2]
            if st.facts.query(cmp_int('==', v.a[1], i)) is False: return self.at(st, v.a[0], i)
        if v.op == 'init': return T('init', T('elem', v.a[0], i), v.a[1])
        return T('at', v, i)
    def size(self, v):
        if v.op == 'vec': return C(len(v.a[0]))
        if v.op == 'str': return C(len(v.a[0]))
        if v.op == 'push': return add(self.size(v.a[0]), C(1))
        if v.op == 'setat': return self.size(v.a[0])
        if v.op == 'cat':
            r = C(0)
            for x in v.a: r = add(r, self.size(x))
            return r
        if v.op == 'chr2s': return C(1)
        return T('size', v)
    def put(self, st, loc, val, log=True):
        """strong update (st is modified in place: caller owns it)"""
        fresh = self.isfresh(st, loc)
        if loc.op == 'elem' and loc.a[0] in st.store and st.store[loc.a[0]].op in ('vec', 'push', 'setat'):
            # the contents of the container are known: its new contents are, too
            whole = (loc.a[0], self.setat(st, st.store[loc.a[0]], loc.a[1], val))
        else: whole = None
        if not fresh:
            k = self.fieldkey(loc)
            if k is not None:
                for key in [x for x in st.store if x is not loc and x.op in ('fld', 'elem') and self.fieldkey(x) == k and not distinct(x, loc) and not self.owned(st, x)]:
                    del st.store[key]
                st.fep = dict(st.fep); st.fep[k] = st.fep.get(k, 0) + 1
            if log: st.eff = st.eff + (T('store', loc, self.snap(st, val)),)
            self.escape(st, val)
        for key in [x for x in st.store if x is not loc and x.op in ('fld', 'elem') and self.under(x, loc)]:
            del st.store[key]
        st.store[loc] = val
        if whole is not None: st.store[whole[0]] = whole[1]
    def setat(self, st, v, i, val):
        if v.op == 'vec' and i.op == 'const' and 0 <= i.a[0] < len(v.a[0]): return T('vec', v.a[0][:i.a[0]] + (val,) + v.a[0][i.a[0] + 1:])
        if v.op == 'push' and i is self.size(v.a[0]): return T('push', v.a[0], val)
        if v.op == 'push' and st.facts.query(cmp_int('<', i, self.size(v.a[0]))) is True: return T('push', self.setat(st, v.a[0], i, val), v.a[1])
        if v.op == 'setat' and v.a[1] is i: return T('setat', v.a[0], i, val)
        return T('setat', v, i, val)
    def under(self, x, loc):
        while x.op in ('fld', 'elem'):
            x = x.a[0]
            if x is loc: return True
        return False
    def escape(self, st, v):
        """fresh objects reachable from v become shared"""
        new = set()
        w = [v]
        while w:
            x = w.pop(); bare = handed(x)
            for s in subterms(x):
                if s.op in ('init', 'ret') and s in bare and st.eff is not None:
                    d = T('deref', s)
                    if d not in st.esc and d not in new and (s in self.ownedret or s.op == 'init' and self.owned(st, d)): new.add(d)
                if s.op in ('loc', 'heap') and s not in st.esc and s not in new:
                    new.add(s)
                    for k, y in st.store.items():
                        if k is s or (k.op in ('fld', 'elem') and root(k) is s): w.append(y)
        if new: st.esc = st.esc | new
    def havockeys(self, st, keys):
        """a callee may have written the fields in keys, nothing else"""
        if not keys: return
        st.fep = dict(st.fep)
        for k in keys: st.fep[k] = st.fep.get(k, 0) + CLOB
        for k in [k for k in st.store if k.op in ('fld', 'elem', 'glob') and self.fieldkey(k) in keys and not self.isfresh(st, k) and not self.stable(k) and not self.owned(st, k)]:
            del st.store[k]
    def havoc(self, st, keys=None):
        if keys is not None: return self.havockeys(st, keys)
        st.epoch += 1
        for k in [k for k in st.store if k.op != 'bind' and not self.isfresh(st, k) and not self.stable(k) and not self.owned(st, k)]:
            r = root(k)
            if r.op == 'loc' and r in st.esc and r in self.constpassed: continue
            del st.store[k]
    constpassed = (); recdepth = 0
    def snap(self, st, v, d=0, seen=()):
        """resolve fresh heap objects in a value to their contents"""
        if not isinstance(v, T): return v
        if d > 8: return v
        if v.op == 'addr' and v.a[0].op == 'heap' and v.a[0] not in seen:
            return T('new', self.snapobj(st, v.a[0], d+1, seen + (v.a[0],)))
        if v.op in ('loc', 'heap'):
            return self.snapobj(st, v, d+1, seen + (v,))
        if v.op in ('vec', 'push', 'cat', 'pair', 'setat', 'call', 'sscat', 'struct', 'obj', 'fdiv', 'f+', 'f-', 'f*', 'f/', 'i2f', 'f2i', 'fdiv', 'upd', 'get', 'ctor'):
            return T(v.op, *[self.snapa(st, x, d, seen) for x in v.a])
        return v
    def snapa(self, st, x, d, seen):
        if isinstance(x, T): return self.snap(st, x, d, seen)
        if isinstance(x, tuple): return tuple(self.snapa(st, y, d, seen) for y in x)
        return x
    def snapobj(self, st, loc, d=0, seen=()):
        if loc in st.store: return self.snap(st, st.store[loc], d, seen)
        cls = st.dyn.get(loc)
        fs = []
        for k in st.store:
            if k.op == 'fld' and k.a[0] is loc: fs.append((k.a[1], self.snap(st, st.store[k], d, seen)))
            elif k.op == 'fld' and self.under(k, loc) and k.a[0].op == 'fld' and k.a[0].a[0] is loc and k.a[0] not in st.store:
                fs.append((k.a[0].a[1] + '/' + k.a[1], self.snap(st, st.store[k], d, seen)))
        fs.sort(key=lambda x: x[0])
        if cls is None and not fs: return T('init', loc, 0)
        return T('struct', cls or '?', tuple(fs))
    def alloc(self, st, cls):
        st.nheap += 1
        h = T('heap', st.nheap, cls)
        st.dyn = dict(st.dyn); st.dyn[h] = cls
        return h
    def tmp(self):
        self.uid += 1
        return T('loc', self.uid, 0, 'tmp%d' % self.uid)
    def classval(self, st, loc, cls):
        """rvalue of a class object used as opaque argument"""
        return self.snapobj(st, loc) if root(loc).op in ('loc', 'heap') and (st.dyn.get(loc) or any(k.op == 'fld' and k.a[0] is loc for k in st.store)) else T('val', loc)

    # ---------------------------------------------------------------- facts
    def split(self, st, c):
        """[(st, bool)]"""
        if c.op == 'ite':
            out = []
            for s, b in self.split(st, c.a[0]): out += self.split(s, c.a[1] if b else c.a[2])
            return out
        q = st.facts.query(c)
        if q is not None: return [(st, q)]
        r = []
        f = st.facts.assume(c, True)
        if f is not None:
            s = st.copy(); s.facts = f; r.append((s, True))
        f = st.facts.assume(c, False)
        if f is not None:
            s = st.copy(); s.facts = f; r.append((s, False))
        return r
    def truth(self, v):
        """condition term for a bool value term"""
        if v.op in ('const',): return TRUE if v.a[0] else FALSE
        return v
    def cond(self, e, st):
        k = e['k']
        if k == 'un' and e['op'] == '!':
            return [(s, not b) for s, b in self.cond(e['e'], st)]
        if k == 'bin' and e['op'] in ('&&', '||'):
            out = []
            for s, b in self.cond(e['a'], st):
                if b == (e['op'] == '||'): out.append((s, b))
                else: out += self.cond(e['b'], s)
            return out
        if k == 'cond':
            out = []
            for s, b in self.cond(e['c'], st): out += self.cond(e['a'] if b else e['b'], s)
            return out
        if k == 'bool': return [(st, e['v'])]
        if k == 'cast' and e['ck'] in ('NoOp',): return self.cond(e['e'], st)
        out = []
        for s, v in self.ev(e, st): out += self.split(s, self.truth(v))
        return out

    # ---------------------------------------------------------------- expressions
    def evs(self, es, st):
        res = [(st, ())]
        for e in es:
            nr = []
            for s, vs in res:
                for s2, v in self.ev(e, s): nr.append((s2, vs + (v,)))
            res = nr
        return res
    unroll = 0; undepth = 0
    def lim(self, n):
        if n > self.maxpaths: raise Undecided('more than %d paths in %s' % (self.maxpaths, self.F[self.stack[0]]['qn'] if self.stack else '?'))
    def ev(self, e, st):
        self.steps += 1
        if self.steps > self.maxsteps: raise Undecided('more than %d steps in %s' % (self.maxsteps, self.F[self.stack[0]]['qn'] if self.stack else '?'))
        m = getattr(self, 'x_' + e['k'].replace('?', 'unk'), None)
        if m is None: return [(st, self.note(st, 'expr ' + e['k']))]
        r = m(e, st)
        self.lim(len(r))
        return r
    def x_unkexpr(self, e, st):
        cn = e.get('cn')
        if cn == 'BinaryConditionalOperator' or cn == 'OpaqueValueExpr': pass
        return [(st, self.note(st, 'expr ' + str(cn)))]
    def x_int(self, e, st): return [(st, C(int(e['v'])))]
    def x_float(self, e, st): return [(st, C(float(e['v'])))]
    def x_bool(self, e, st): return [(st, TRUE if e['v'] else FALSE)]
    def x_str(self, e, st): return [(st, T('str', e['v']))]
    def x_null(self, e, st): return [(st, NULL)]
    def x_zero(self, e, st): return [(st, self.zero(e['t']))]
    def zero(self, t):
        t = unq(t)
        if t == 'bool': return FALSE
        if isptr(t) or isuptr(t): return NULL
        if isstr(t): return T('str', '')
        if isvec(t): return T('vec', ())
        if t in FLOATS: return C(0.0)
        return C(0)
    def x_sizeof(self, e, st): return [(st, C(int(e['v'])) if 'v' in e else self.note(st, 'sizeof'))]
    def x_this(self, e, st):
        t = self.frame_this(st)
        return [(st, t.a[0] if t.op == 'deref' else T('addr', t))]
    def frame_this(self, st): return self.frames[-1][1]
    frames = []
    def bindkey(self, vid): return T('bind', self.frames[-1][0], vid)
    def lookup(self, st, vid, name):
        for fr in (self.frames[-1][0],) + self.frames[-1][2]:
            b = st.store.get(T('bind', fr, vid))
            if b is not None: return b
        return None
    def declare(self, st, vid, loc): st.store[self.bindkey(vid)] = loc
    def x_ref(self, e, st):
        rk = e['rk']
        if rk == 'enumc': return [(st, C(int(e['v'])))]
        if rk == 'fn': return [(st, T('fn', e['fn'], e['qn']))]
        if rk in ('local', 'binding'):
            b = self.lookup(st, e['id'], e['n'])
            if b is None: return [(st, T('loc', 'unbound', e['n'], e['n']))]
            return [(st, b)]
        if rk in ('global', 'static'):
            g = self.p.globals.get(e['g'])
            if e['n'] == 'npos':
                l = T('glob', 'npos', 'npos'); st = st.copy(); st.store[l] = NPOS; return [(st, l)]
            l = T('glob', e['g'], e['n'])
            if e.get('qn', '').startswith('std::ios_base::') and e['n'] in OPENMODE:
                st = st.copy(); st.store[l] = C(OPENMODE[e['n']]); return [(st, l)]
            if g and g.get('const') and 'init' in g and l not in st.store and g['t'].split('[')[0].strip().replace('const ','') in INTS | FLOATS | {'bool','const char *','char *const'}:
                r = []
                for s, v in self.ev(g['init'], st):
                    s = s.copy(); s.store[l] = v; r.append((s, l))
                return r
            return [(st, l)]
        return [(st, self.note(st, 'ref ' + rk))]
    def x_mat(self, e, st):
        r = []
        for s, v in self.ev(e['e'], st):
            if self.h.mine(e['t']): r.append((s, v)); continue
            s = s.copy(); l = self.tmp(); s.store[l] = v; r.append((s, l))
        return r
    def x_mem(self, e, st):
        r = []
        for s, b in self.ev(e['b'], st):
            if e.get('mk') == 'method': r.append((s, T('bound', e['fn'], b))); continue
            if e['arrow']: b = self.deref(e, s, b)
            l = T('fld', b, e['fcls'] + '::' + e['n'])
            if e.get('isref'): l = self.deref(e, s, self.load(s, l), False)
            if not e.get('lv') and not e.get('xv') and not e.get('isref'):
                r.append((s, self.load(s, l) if not self.h.mine(e['t']) else l)); continue
            r.append((s, l))
        return r
    def deref(self, e, st, p, chk=True):
        if p.op == 'addr': return p.a[0]
        if p.op == 'iter': return T('elem', p.a[0], p.a[1])
        if chk:
            self.ev_note('deref', e, st, p=p)
            if p.op not in ('null', 'sym'):
                c = eq_ptr(p, NULL)
                if c.op == 'eq' and c not in st.facts.tv:
                    st.asm = st.asm + ((c, st.facts),)
                    st.facts = st.facts.copy(); st.facts.tv[c] = False
        return T('deref', p)
    def x_idx(self, e, st):
        r = []
        for s, (b, i) in self.evs((e['b'], e['i']), st):
            if b.op == 'addr': b = b.a[0]; r.append((s, T('elem', b, i)))
            elif b.op == 'str':
                l = self.tmp(); s = s.copy(); s.store[l] = self.at(s, b, i); r.append((s, l))
            else: r.append((s, T('elem', T('deref', b), i)))
        return r
    def x_cond(self, e, st):
        r = []
        for s, b in self.cond(e['c'], st): r += self.ev(e['a'] if b else e['b'], s)
        return r
    def x_cast(self, e, st):
        ck = e['ck']; sub = e['e']
        if e['t'] == 'bool' and ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'):
            r = []
            for s, v in self.ev(sub, st):
                if v.op == 'ite' or v is TRUE or v is FALSE: r.append((s, v))
                elif ck == 'PointerToBoolean': r.append((s, NOT(eq_ptr(v, NULL))))
                elif ck == 'IntegralToBoolean': r.append((s, cmp_int('!=', v, C(0))))
                else: r.append((s, cmp_any('!=', v, C(0.0))))
            return r
        if ck == 'ArrayToPointerDecay':
            r = []
            for s, v in self.ev(sub, st):
                r.append((s, v if v.op == 'str' else T('addr', v)))
            return r
        if ck in ('FunctionToPointerDecay', 'BuiltinFnToFnPtr'): return self.ev(sub, st)
        if ck == 'LValueToRValue':
            r = []
            for s, l in self.ev(sub, st):
                r.append((s, self.load(s, l) if l.op != 'str' else l))
            return r
        if ck == 'NullToPointer': return [(s, NULL) for s, _ in self.ev(sub, st)]
        if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BitCast', 'LValueBitCast', 'ConstructorConversion', 'UserDefinedConversion', 'AddressSpaceConversion', 'LValueToRValueBitCast'):
            if e.get('ex') and ck == 'BitCast': pass
            return self.ev(sub, st)
        if ck == 'BaseToDerived':
            r = []
            for s, v in self.ev(sub, st):
                self.ev_note('down', e, s, v=v, to=unq(e['t']), frm=unq(sub['t']))
                r.append((s, v))
            return r
        if ck == 'Dynamic':
            r = []
            tgt = unq(e['t']); ptr = tgt.endswith('*')
            if ptr: tgt = unq(tgt[:-1].strip())
            for s, v in self.ev(sub, st):
                obj = v.a[0] if v.op == 'addr' else None
                d = s.dyn.get(obj) if obj is not None else None
                if d:
                    r.append((s, v if self.h.isa(d, tgt) else NULL)); continue
                if v.op == 'null': r.append((s, NULL)); continue
                c = T('isa', v, tgt)
                for s2, b in self.split(s, c):
                    if b: r.append((s2, v))
                    elif ptr: r.append((s2, NULL))
                    else: self.throw(s2, T('exc', 'std::bad_cast', ()), 'std::bad_cast')
            return r
        if ck == 'IntegralCast':
            r = []
            for s, v in self.ev(sub, st): r += self.icast(s, v, sub['t'], e['t'])
            return r
        if ck == 'IntegralToFloating':
            r = []
            for s, v in self.ev(sub, st):
                if sub['t'] == 'bool' and v.op != 'const':
                    for s2, b in self.split(s, v): r.append((s2, C(1.0 if b else 0.0)))
                else: r.append((s, C(float(v.a[0])) if v.op == 'const' else T('i2f', v)))
            return r
        if ck == 'FloatingToIntegral':
            r = []
            for s, v in self.ev(sub, st):
                self.ev_note('f2i', e, s, v=v, to=e['t'])
                r.append((s, C(int(v.a[0])) if v.op == 'const' else T('f2i', v)))
            return r
        if ck == 'FloatingCast':
            r = []
            for s, v in self.ev(sub, st):
                if unq(e['t']) == 'float' and unq(sub['t']) != 'float' and v.op != 'const': v = T('f32', v)
                r.append((s, v))
            return r
        if ck == 'ToVoid': return [(s, C(0)) for s, _ in self.ev(sub, st)]
        if ck in ('PointerToIntegral', 'IntegralToPointer'): return self.ev(sub, st)
        return [(s, self.note(s, 'cast ' + ck)) for s, _ in self.ev(sub, st)]
    def icast(self, st, v, frm, to):
        frm, to = unq(frm), unq(to)
        if v.op == 'const':
            x = v.a[0]
            if isinstance(x, bool): return [(st, C(int(x)))]
            w = WIDTH.get(to)
            if w and to != 'bool' and isinstance(x, int):
                x &= (1 << w) - 1
                if to not in UNS and x >> (w-1): x -= 1 << w
            return [(st, C(x))]
        if frm == 'bool':
            return [(s, C(1 if b else 0)) for s, b in self.split(st, v)]
        wf, wt = WIDTH.get(frm, 32), WIDTH.get(to, 32)
        uf, ut = frm in UNS, to in UNS
        if wt < wf: return [(st, T('trunc', to, v))]
        if ut and not uf:
            if nonneg(v) or st.facts.query(cmp_int('>=', v, C(0))): return [(st, v)]
            return [(st, T('u', v, wf, wt))]
        if uf and not ut and wt == wf:
            if v.op == 'u' and v.a[1] == wt: return [(st, v.a[0])]
            if v.op in ('size', 'iv') or nonneg(v): return [(st, v)]
            return [(st, T('s', v, wt))]
        return [(st, v)]
    def numkind(self, t):
        t = unq(t)
        if t == 'bool': return 'b'
        if t in INTS or t in self.p.enums: return 'i'
        if t in FLOATS: return 'f'
        if isptr(t): return 'p'
        return '?'
    def arith(self, op, a, b, t, st, e):
        k = self.numkind(t)
        if k == 'f':
            if isc(a) and isc(b):
                x, y = a.a[0], b.a[0]
                if op in '+-*' : return C({'+': x+y, '-': x-y, '*': x*y}[op])
            if op in ('+', '*'): a, b = sorted((a, b), key=skey)
            return T('f' + op, a, b)
        if k == 'b' : k = 'i'
        if k == 'p': return T('p' + op, a, b)
        if op in ('+', '-', '*'): return wrapu(add(a, b) if op == '+' else sub(a, b) if op == '-' else mul(a, b), t)
        if isc(a) and isc(b) and op in ('/', '%') and b.a[0] != 0:
            x, y = a.a[0], b.a[0]
            q = abs(x) // abs(y) * (1 if (x >= 0) == (y >= 0) else -1)
            return C(q if op == '/' else x - q*y)
        if op in ('/', '%'):
            self.ev_note('idiv', e, st, a=a, b=b, t=t)
            c = cmp_int('==', b, C(0))
            if c.op == 'ieq' and st.facts.query(c) is None:
                st.asm = st.asm + ((c, st.facts),)
                f = st.facts.assume(c, False)
                if f is not None: st.facts = f
            return T('idiv' if op == '/' else 'imod', a, b, 'u' if unq(t) in UNS else 's')
        return T('i' + op, a, b)
    def isenum(self, v, t):
        """a value of enumeration type is one of the enumerators"""
        if v.op in ('init', 'ret', 'sym', 'proj', 'at'):
            r = self.p.enums.get(unq(t))
            if r:
                r = [int(x) for x in r.values()]; ENUM[v] = (min(r), max(r))
    def compare(self, op, a, b, ta, st):
        k = self.numkind(ta)
        if k == 'i': self.isenum(a, ta); self.isenum(b, ta)
        if k == 'b':
            if isc(a) and isc(b): return [(st, TRUE if (bool(a.a[0]) == bool(b.a[0])) == (op == '==') else FALSE)] if op in ('==', '!=') else [(st, cmp_int(op, C(int(a.a[0])), C(int(b.a[0]))))]
            r = []
            for s, x in self.split(st, self.truth(a)):
                for s2, y in self.split(s, self.truth(b)):
                    r.append((s2, TRUE if {'==': x == y, '!=': x != y, '<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op] else FALSE))
            return r
        if k == 'i':
            if a is NPOS or b is NPOS: return [(st, cmp_any(op, a, b))]
            return [(st, cmp_int(op, a, b))]
        if k == 'p':
            if op == '==': return [(st, eq_ptr(a, b))]
            if op == '!=': return [(st, NOT(eq_ptr(a, b)))]
        return [(st, cmp_any(op, a, b))]
    def x_bin(self, e, st):
        op = e['op']
        if op in ('&&', '||'): return [(s, TRUE if b else FALSE) for s, b in self.cond(e, st)]
        if op == ',':
            r = []
            for s, _ in self.ev(e['a'], st): r += self.ev(e['b'], s)
            return r
        if op == '=':
            r = []
            for s, v in self.ev(e['b'], st):
                for s2, l in self.ev(e['a'], s):
                    s2 = s2.copy(); self.put(s2, l, v); r.append((s2, l))
            return r
        r = []
        for s, (a, b) in self.evs((e['a'], e['b']), st):
            if op in ('<', '>', '<=', '>=', '==', '!='): r += self.compare(op, a, b, e['a']['t'], s)
            elif op == '<=>': r.append((s, T('spaceship', a, b)))
            else:
                if isptr(e['t']) : r.append((s, self.parith(op, a, b))); continue
                r.append((s, self.arith(op, a, b, e['t'], s, e)))
        return r
    def parith(self, op, a, b):
        if a.op == 'iter': return T('iter', a.a[0], add(a.a[1], b) if op == '+' else sub(a.a[1], b))
        return T('p' + op, a, b)
    def x_cassign(self, e, st):
        r = []
        for s, v in self.ev(e['b'], st):
            for s2, l in self.ev(e['a'], s):
                old = self.load(s2, l)
                ta = unq(e['a']['t']); ct = unq(e.get('clt', ta))
                if self.numkind(ct) == 'f' and self.numkind(ta) == 'i': old = T('i2f', old)
                elif self.numkind(ct) == 'i' and self.numkind(ta) == 'i' and ct != ta: s2, old = self.icast(s2, old, ta, ct)[0]
                nv = self.parith(e['op'], old, v) if isptr(ta) else self.arith(e['op'], old, v, ct, s2, e)
                if self.numkind(ct) == 'i' and self.numkind(ta) == 'i' and ct != ta: s2, nv = self.icast(s2, nv, ct, ta)[0]
                if self.numkind(ct) == 'f' and self.numkind(ta) == 'i': nv = T('f2i', nv)
                s2 = s2.copy(); self.put(s2, l, nv); r.append((s2, l))
        return r
    def x_un(self, e, st):
        op = e['op']; sub = e['e']
        if op == '!': return [(s, NOT(self.truth(v))) for s, v in self.ev(sub, st)]
        if op == '&':
            r = []
            for s, l in self.ev(sub, st):
                if l.op in ('fn', 'bound'): r.append((s, l))
                elif l.op == 'deref': r.append((s, l.a[0]))
                else: r.append((s, T('addr', l)))
            return r
        if op == '*': return [(s, self.deref(e, s, p)) for s, p in self.ev(sub, st)]
        if op in ('++', '--'):
            r = []
            for s, l in self.ev(sub, st):
                old = self.load(s, l)
                nv = T('iter', old.a[0], add(old.a[1], C(1 if op == '++' else -1))) if old.op == 'iter' else T('pinc', old, op) if isptr(sub['t']) else wrapu(add(old, C(1 if op == '++' else -1)), sub['t']) if self.numkind(sub['t']) != 'f' else T('f+', old, C(1.0 if op == '++' else -1.0))
                s = s.copy(); self.put(s, l, nv)
                r.append((s, old if e['post'] else l))
            return r
        r = []
        for s, v in self.ev(sub, st):
            if op == '-': r.append((s, (C(-v.a[0]) if isc(v) else T('fneg', v)) if self.numkind(e['t']) == 'f' else neg(v)))
            elif op == '+': r.append((s, v))
            elif op == '__extension__': r.append((s, v))
            else: r.append((s, T('un' + op, v)))
        return r
    def x_lambda(self, e, st):
        key = (e['fn'])
        fr = self.frames[-1]
        self.lambdas[key] = e
        return [(st, T('lambda', e['fn'], fr[0], fr[1] if fr[1] is not None else NULL, fr[2]))]
    def x_ilist(self, e, st):
        t = unq(e['t'])
        if self.h.mine(t):
            l = self.tmp(); r = []
            fs = [f for f in self.h.fields(t)]
            for s, vs in self.evs(e['a'], st):
                s = s.copy(); s.dyn = dict(s.dyn); s.dyn[l] = t
                for (fn, f), v, ee in zip(fs, vs, e['a']): self.setfield(s, T('fld', l, fn), f['t'], v, f.get('ref'))
                r.append((s, l))
            return r
        if len(e['a']) == 1 and self.numkind(t) != '?': return self.ev(e['a'][0], st)
        if not e['a'] and self.numkind(t) != '?': return [(st, self.zero(t))]
        return [(s, T('vec', vs)) for s, vs in self.evs(e['a'], st)]
    def setfield(self, st, floc, ft, v, isref):
        """initialise a field with an evaluated initialiser (st owned)"""
        if isref: st.store[floc] = T('addr', v) if v.op != 'deref' else v.a[0]
        elif self.h.mine(ft): self.copyobj(st, v, floc, unq(ft))
        else: st.store[floc] = v
    def copyobj(self, st, src, dst, cls):
        """move the contents of a temporary/class object into dst (field by field, no user code)"""
        if src is dst: return
        if src.op in ('struct', 'val', 'ret', 'at', '?', 'proj', 'call', 'get') :
            st.store[dst] = src; return
        if src in st.store and not any(k.op == 'fld' and k.a[0] is src for k in st.store):
            st.store[dst] = st.store[src]; return
        fs = self.h.fields(cls)
        d = st.dyn.get(src)
        if d: st.dyn = dict(st.dyn); st.dyn[dst] = d
        for fn, f in fs:
            a, b = T('fld', src, fn), T('fld', dst, fn)
            if self.h.mine(f['t']) and not f.get('ref'): self.copyobj(st, a, b, unq(f['t']))
            else: st.store[b] = self.load(st, a)
    def x_throw(self, e, st):
        if e['e'] is None:
            cur = self.frames[-1][3] if len(self.frames[-1]) > 3 else None
            x = self.cexc[-1] if self.cexc else (T('exc', '?', ()), '?')
            self.throw(st, x[0], x[1], e); return []
        tt = unq(e['tt'])
        for s, v in self.ev(e['e'], st):
            s2 = s
            if v.op in ('loc', 'heap'): v2 = s.store.get(v) or self.snapobj(s, v)
            elif v.op == 'deref' or v.op == 'fld': v2 = s.store.get(v) or T('excof', v)
            else: v2 = v
            dy = tt
            if v2.op == 'exc' and self.h.isa(v2.a[0], tt): dy = v2.a[0] if e['e'].get('k') != 'ctor' or not e['e'].get('copy') else v2.a[0]
            self.throw(s2, v2, dy, e)
        return []
    cexc = []
    def throw(self, st, val, cls, e=None):
        if self.thr: self.thr[-1].append((st, val, cls, self.where(e) if e else None))
    # ---------------------------------------------------------------- object construction
    def x_new(self, e, st):
        at = unq(e['at']); ini = e.get('init')
        if e.get('arr'):
            h_ = self.alloc(st := st.copy(), 'arr'); return [(st, T('addr', h_))]
        if ini is not None and ini['k'] == 'ctor' and self.is_opaque_cls(at):
            return self.opaque_new(e, at, ini['a'], st)
        st = st.copy(); h = self.alloc(st, at)
        if ini is None:
            return [(st, T('addr', h))]
        if self.h.mine(at):
            return [(s, T('addr', h)) for s in self.init_into(ini, h, at, st)]
        r = []
        for s, v in self.ev(ini, st):
            s = s.copy(); s.store[h] = v; r.append((s, T('addr', h)))
        return r
    opaque_roots = ('Node', 'AbstractVariableResolver', 'PSC::Error', 'PSC::Block')
    def is_opaque_cls(self, c):
        return any(self.h.isa(c, r) for r in self.opaque_roots)
    def opaque_new(self, e, at, args, st):
        r = []
        for s, vs in self.evs(args, st):
            s, vs = libmodel.byvalue(self, s, at, args, vs)
            s = s.copy(); h = self.alloc(s, at)
            s.store[h] = T('obj', at, tuple(self.argterm(s, a, v) for a, v in zip(args, vs)))
            r.append((s, T('addr', h)))
        return r
    def argterm(self, st, a, v):
        """argument as recorded in an effect: class objects by content, plain lvalues of library types by value"""
        t = a['t'] if isinstance(a, dict) else a
        u = unq(t)
        if a_is_lv(a):
            if isstr(u) or self.numkind(u) in 'ibf': return self.snap(st, self.load(st, v))
            if isuptr(u) or self.numkind(u) == 'p': return self.snap(st, self.load(st, v))
            if self.h.mine(u):
                if v.op in ('loc', 'heap'): return self.classval(st, v, u)
                return v
            if isvec(u) or u.startswith('std::chrono'): return self.snap(st, self.load(st, v))
            return v
        if self.h.mine(u) and v.op in ('loc', 'heap'): return self.classval(st, v, u)
        return self.snap(st, v)
    def init_into(self, ini, loc, cls, st):
        """run initialiser expression constructing a class object at loc -> [st]"""
        k = ini['k']
        if k == 'ctor' and not ini.get('elide') and self.h.mine(ini['cls']):
            r = []
            for s, vs in self.evs(ini['a'], st):
                r += self.construct(ini, loc, unq(ini['t']), vs, s)
            return r
        if k == 'ctor' and len(ini['a']) >= 1 and (ini.get('copy') or ini.get('move')):
            return self.init_into(ini['a'][0], loc, cls, st)
        if k in ('mat',) or (k == 'cast' and ini['ck'] in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'DerivedToBase')):
            return self.init_into(ini['e'], loc, cls, st)
        r = []
        for s, v in self.ev(ini, st):
            s = s.copy()
            if v.op in ('loc', 'heap', 'fld', 'deref', 'elem'): self.copyobj(s, v, loc, cls)
            else: s.store[loc] = v
            r.append(s)
        return r
    def x_ctor(self, e, st):
        t = unq(e['t'])
        if not self.h.mine(t): return self.libctor(e, t, st)
        if self.is_opaque_cls(t):
            if (e.get('copy') or e.get('move')):
                r = []
                for s, (v,) in self.evs(e['a'][:1], st): r.append((s, v))
                return r
            r = []
            for s, vs in self.evs(e['a'], st):
                if self.h.isa(t, 'PSC::Error'):
                    x = T('exc', t, tuple(self.argterm(s, a, v) for a, v in zip(e['a'], vs)))
                else: x = T('obj', t, tuple(self.argterm(s, a, v) for a, v in zip(e['a'], vs)))
                l = self.tmp(); s = s.copy(); s.store[l] = x; s.dyn = dict(s.dyn); s.dyn[l] = t
                r.append((s, l))
            return r
        l = self.tmp()
        return [(s, l) for s in self.init_into(dict(e, elide=False), l, t, st)]
    def x_inhctor(self, e, st): return [(st, T('?', 'inhctor'))]
    def construct(self, e, loc, cls, vs, st):
        """-> [st] ; e gives fn and pt"""
        st = st.copy()
        st.dyn = dict(st.dyn); st.dyn[loc] = cls if loc not in st.dyn or not self.h.isa(st.dyn[loc], cls) else st.dyn[loc]
        f = self.F.get(e['fn'])
        if f is None or ('inits' not in f and 'body' not in f):
            if e.get('copy') or e.get('move'):
                src = vs[0]; self.copyobj(st, src, loc, cls); return [st]
            if not vs:
                r = [st]
                return self.defaults(cls, loc, r)
            # inherited or external constructor
            u = self.find_ctor_by_args(cls, e, vs)
            if u: return self.construct(dict(e, fn=u), loc, cls, vs, st)
            st.store[loc] = T('obj', cls, tuple(self.argterm(st, a, v) for a, v in zip(e['a'], vs)))
            return [st]
        if self.opaque_fn(e['fn'], f):
            st.store[loc] = T('obj', cls, tuple(self.argterm(st, a, v) for a, v in zip(e['a'], vs)))
            self.constparts(f, loc, vs, st)
            return [st]
        return self.run_ctor(f, loc, cls, vs, st)
    def defaults(self, cls, loc, sts):
        for fn, fd in self.h.fields(cls):
            ns = []
            for s in sts: ns += self.default_field(s, T('fld', loc, fn), fd)
            sts = ns
        return sts
    def default_field(self, st, floc, fd):
        if fd.get('init') is not None:
            r = []
            self.frames.append((self.newframe(), root(floc) if floc.a[0].op != 'fld' else floc.a[0], ()))
            try:
                for s, v in self.ev(fd['init'], st):
                    s = s.copy(); self.setfield(s, floc, fd['t'], v, fd.get('ref')); r.append(s)
            finally: self.frames.pop()
            return r
        t = unq(fd['t'])
        if isuptr(t) or isstr(t) or isvec(t):
            st = st.copy(); st.store[floc] = self.zero(t)
        elif self.h.mine(t):
            u = self.default_ctor(t)
            if u: return self.run_ctor(self.F[u], floc, t, (), st)
            return self.defaults(t, floc, [st])
        elif self.numkind(t) in 'ibfp':
            st = st.copy(); st.store[floc] = T('uninit', floc)
        return [st]
    def constparts(self, f, loc, vs, st):
        """the const members an opaque constructor copies from its parameters"""
        ids = {p['id']: k for k, p in enumerate(f['params'])}
        for i in f.get('inits', ()):
            t = i.get('ft', '')
            if not i.get('f') or i['ref'] or not (t.startswith('const ') and not t.endswith('*') or t.endswith('*const')): continue
            x = i['e']
            while x.get('k') == 'cast' and x.get('ck') in ('NoOp', 'LValueToRValue') or x.get('k') == 'ctor' and (x.get('copy') or x.get('move')) and len(x['a']) == 1:
                x = x['e'] if x['k'] == 'cast' else x['a'][0]
            if x.get('k') != 'ref' or x.get('rk') != 'local' or x.get('id') not in ids: continue
            k = ids[x['id']]
            if k >= len(vs): continue
            floc = T('fld', loc, f['cls'] + '::' + i['f'])
            if self.h.mine(unq(t)): self.copyobj(st, vs[k], floc, unq(t))
            elif f['params'][k].get('ref'): st.store[floc] = self.load(st, vs[k])
            else: st.store[floc] = vs[k]
    def default_ctor(self, cls):
        for m in self.h.recs[cls].get('methods', ()):
            f = self.F.get(m['fn'])
            if f and f['kind'] == 'ctor' and not f['params'] : return m['fn']
        return None
    def newframe(self):
        self.uid += 1; return self.uid
    def run_ctor(self, f, loc, cls, vs, st):
        if f['usr'] in self.stack and self.stack.count(f['usr']) > 1 or len(self.stack) > self.maxdepth:
            st = st.copy(); st.store[loc] = T('obj', cls, ('recursive',)); return [st]
        self.analysed.add(f['usr'])
        self.stack.append(f['usr'])
        self.frames.append((self.newframe(), loc, ()))
        try:
            sts = [self.bindparams(f, vs, st.copy())]
            own = f['cls']
            done = set()
            for i in f.get('inits', ()):
                ns = []
                if i.get('f'):
                    floc = T('fld', loc, own + '::' + i['f']); done.add(i['f'])
                    for s in sts:
                        if i['ref']:
                            for s2, v in self.ev(i['e'], s):
                                s2 = s2.copy(); s2.store[floc] = v.a[0] if v.op == 'deref' else T('addr', v); ns.append(s2)
                        elif self.h.mine(i['ft']): ns += self.init_into(i['e'], floc, unq(i['ft']), s)
                        else:
                            for s2, v in self.ev(i['e'], s):
                                s2 = s2.copy(); self.initput(s2, floc, v); ns.append(s2)
                elif i.get('base'):
                    for s in sts: ns += self.init_base(i['e'], loc, unq(i['base']), s)
                else:   # delegating
                    for s in sts: ns += self.init_into(i['e'], loc, own, s)
                    done = None
                sts = ns
                if done is None: break
            if done is not None:
                for fd in self.h.recs[own].get('fields', ()):
                    if fd['n'] in done: continue
                    ns = []
                    for s in sts: ns += self.default_field(s, T('fld', loc, own + '::' + fd['n']), fd)
                    sts = ns
            out = []
            for s in sts:
                if f.get('body'):
                    for k, s2, v in self.block(f['body'], s): out.append(s2)
                else: out.append(s)
            return out
        finally:
            self.frames.pop(); self.stack.pop()
    def initput(self, st, floc, v):
        st.store[floc] = v
        if not self.isfresh(st, floc):
            st.eff = st.eff + (T('store', floc, self.snap(st, v)),)
    def init_base(self, ini, loc, cls, st):
        if not self.h.mine(cls): return [st]
        if ini['k'] == 'inhctor':
            fr = self.frames[-1]
            f = self.F.get(self.stack[-1])
            vs = []
            for p in f['params']: vs.append(self.lookup(st, p['id'], p['n']) if p.get('ref') else self.load(st, self.lookup(st, p['id'], p['n'])))
            g = self.F.get(ini['fn'])
            if g: return self.run_ctor(g, loc, cls, vs, st)
            return [st]
        if ini['k'] == 'ctor':
            r = []
            for s, vs in self.evs(ini['a'], st):
                d = s.dyn.get(loc)
                for s2 in self.construct(ini, loc, cls, vs, s):
                    if d: s2.dyn = dict(s2.dyn); s2.dyn[loc] = d
                    r.append(s2)
            return r
        return [st]
    def bindparams(self, f, vs, st):
        for i, p in enumerate(f['params']):
            if i < len(vs): v = vs[i]
            elif p.get('def') is not None:
                r = self.ev(p['def'], st); st, v = r[0][0].copy(), r[0][1]
                if len(r) > 1: self.note(st, 'split default argument')
            else: v = T('sym', 'defparam')
            if p.get('ref'): self.declare(st, p['id'], v)
            elif self.h.mine(p['t']) and v.op in ('loc', 'heap'): self.declare(st, p['id'], v)
            else:
                l = T('loc', self.frames[-1][0], p['id'], p['n'])
                self.declare(st, p['id'], l); st.store[l] = v
        return st
    # ---------------------------------------------------------------- calls
    def x_call(self, e, st):
        if 'fn' not in e:
            out = []
            for s, c in self.ev(e['cal'], st):
                for s2, vs in self.evs(e['a'], s): out += self.call_value(e, c, vs, s2)
            return out
        from . import libmodel
        r = libmodel.call(self, e, st)
        if r is not None: return r
        out = []
        for s, vs in self.evs(e['a'], st): out += self.invoke(e, e['fn'], None, vs, s)
        return out
    def call_value(self, e, c, vs, st):
        if c.op == 'fn': return self.invoke(dict(e, fn=c.a[0], qn=c.a[1]), c.a[0], None, vs, st)
        if c.op == 'lambda': return self.call_lambda(c, vs, st)
        return self.opaque_call(e, 'indirect', None, (c,) + tuple(self.argterm(st, a, v) for a, v in zip(e['a'], vs)), st)
    def call_lambda(self, c, vs, st):
        e = self.lambdas.get(c.a[0])
        if e is None or 'b' not in e:
            f = self.F.get(c.a[0])
            return [(st, self.note(st, 'generic lambda'))]
        if len(self.stack) > self.maxdepth: return [(st, self.note(st, 'depth'))]
        this = c.a[2] if c.a[2] is not NULL else None
        self.frames.append((self.newframe(), this, (c.a[1],) + tuple(c.a[3])))
        self.stack.append(self.stack[-1])
        try:
            st = st.copy()
            for p, v in zip(e['p'], vs):
                if p.get('ref'): self.declare(st, p['id'], v)
                elif self.h.mine(p['t']) and v.op in ('loc', 'heap'): self.declare(st, p['id'], v)
                else:
                    l = T('loc', self.frames[-1][0], p['id'], p['n']); self.declare(st, p['id'], l); st.store[l] = v
            return [(s, v if v is not None else C(0)) for k, s, v in self.block(e['b'], st)]
        finally: self.frames.pop(); self.stack.pop()
    def x_ocall(self, e, st):
        from . import libmodel
        if 'fn' in e and (e['fn'] in self.F or e.get('cls') and self.h.mine(e['cls'])):
            f = self.F.get(e['fn'])
            out = []
            if 'cls' in e and not e.get('sm'):
                if self.h.recs.get(unq(e['cls']), {}).get('lambda'):
                    for s, vs in self.evs(e['a'], st):
                        c = self.load(s, vs[0]) if vs[0].op != 'lambda' else vs[0]
                        if c.op == 'lambda': out += self.call_lambda(c, vs[1:], s)
                        else: out.append((s, self.note(s, 'lambda value')))
                    return out
                order = (e['a'][1:] + e['a'][:1]) if e['op'] in ('=', '+=', '-=', '*=', '/=') else e['a']
                for s, vs in self.evs(order, st):
                    if order is not e['a']: vs = vs[-1:] + vs[:-1]
                    out += self.invoke(e, e['fn'], vs[0], vs[1:], s, novirt=False)
                return out
            for s, vs in self.evs(e['a'], st): out += self.invoke(e, e['fn'], None, vs, s)
            return out
        return libmodel.ocall(self, e, st)
    def x_mcall(self, e, st):
        from . import libmodel
        if e.get('cls') and not self.h.mine(e['cls']): return libmodel.mcall(self, e, st)
        out = []
        for s, o in self.ev(e['obj'], st):
            if e['arrow']: o = self.deref(e, s, o)
            if e.get('sm'): o = None
            for s2, vs in self.evs(e['a'], s): out += self.invoke(e, e['fn'], o, vs, s2, novirt=bool(e.get('novirt') or e.get('qualified')))
        return out
    def x_mpcall(self, e, st): return [(st, self.note(st, 'member pointer call'))]
    def x_delete(self, e, st):
        r = []
        for s, p in self.ev(e['e'], st):
            s = s.copy()
            if not (p.op == 'addr' and self.isfresh(s, p.a[0])) and p.op != 'null':
                s.eff = s.eff + (T('delete', self.snap(s, p)),)
            r.append((s, C(0)))
        return r
    def invoke(self, e, u, this, vs, st, novirt=False):
        f = self.F.get(u)
        virt = e.get('virt') and not novirt
        if virt:
            d = st.dyn.get(this) if this is not None else None
            if d is None and this is not None:
                d = self.known_class(st, this)
            if d:
                u2 = self.h.resolve(u, d)
                if u2: u = u2; f = self.F.get(u)
            else:
                cands = [x for x in self.h.overriders(u) if x in self.F]
                if len(cands) == 1 and not self.pure(u, cands[0]): u = cands[0]; f = self.F[u]
                elif len(cands) == 1: u = cands[0]; f = self.F[u]
                else:
                    cv = self.const_virtual(cands)
                    if cv is not None and not e['a']: return [(st, cv)]
                    return self.opaque_call(e, e['qn'], this, tuple(self.argterm(st, a, v) for a, v in zip(self.callargs(e), vs)), st, virt=True, mode=self.vmode(u), rawargs=vs)
        op = self.opaque_fn(u, f)
        # the base's own implementation, not what dynamic dispatch selects
        direct = '!' if not virt and f is not None and len((self.dynh or self.h).overriders(u)) > 1 else ''
        if op: return self.opaque_call(e, f['qn'] + direct if f else e['qn'], this, tuple(self.argterm(st, a, v) for a, v in zip(self.callargs(e), vs)), st, mode=op, rawargs=vs)
        if f is None or 'body' not in f:
            if f is not None and f.get('defaulted') or (e.get('fname') == 'operator=' and this is not None and vs):
                if vs and this is not None:
                    st = st.copy(); self.assign_fields(st, vs[0], this, unq(e['cls'])); return [(st, this)]
                return [(st, C(0))]
            return self.opaque_call(e, e['qn'], this, tuple(self.argterm(st, a, v) for a, v in zip(self.callargs(e), vs)), st, rawargs=vs)
        if u in self.stack and self.recdepth:
            # recursion followed a bounded number of times, deeper runs are left out
            return self.run_fn(f, this, vs, st) if self.stack.count(u) <= self.recdepth else []
        if u in self.stack or len(self.stack) > self.maxdepth:
            return self.opaque_call(e, f['qn'], this, tuple(self.argterm(st, a, v) for a, v in zip(self.callargs(e), vs)), st, rawargs=vs)
        return self.run_fn(f, this, vs, st)
    def callargs(self, e):
        if e['k'] == 'ocall' and 'cls' in e and not e.get('sm'): return e['a'][1:]
        return e['a']
    dynh = None
    def pure(self, u, c): return u == c
    def const_virtual(self, cands): return None
    def vmode(self, u): return None
    def known_class(self, st, loc):
        """dynamic class forced by facts (isa) or unique concrete subclass"""
        return None
    def assign_fields(self, st, src, dst, cls):
        for fn, f in self.h.fields(cls):
            a, b = T('fld', src, fn), T('fld', dst, fn)
            if self.h.mine(f['t']) and not f.get('ref'): self.assign_fields(st, a, b, unq(f['t']))
            else: self.put(st, b, self.load(st, a) if src.op not in ('struct', 'val', 'ret', 'obj') else self.proj(src, fn))
    def run_fn(self, f, this, vs, st):
        self.analysed.add(f['usr'])
        if len(self.stack) and self.stack[-1]: self.callers.setdefault(f['usr'], set()).add(self.stack[-1])
        self.stack.append(f['usr'])
        self.frames.append((self.newframe(), this, ()))
        try:
            st = self.bindparams(f, vs, st.copy())
            out = []
            for k, s, v in self.block(f['body'], st):
                out.append((s, v if v is not None else C(0)))
            # drop bindings of the dead frame
            fr = self.frames[-1][0]
            res = []
            for s, v in out:
                dead = [k for k in s.store if (k.op == 'bind' and k.a[0] == fr)]
                if dead:
                    s = s.copy()
                    for k in dead: del s.store[k]
                keep = root(v) if isinstance(v, T) else None
                dl = [k for k in s.store if k.op in ('loc', 'fld', 'elem') and root(k).op == 'loc' and root(k).a[0] == fr and root(k) not in s.esc]
                if dl and not (isinstance(v, T) and any(x.op == 'loc' and x.a[0] == fr for x in subterms(v))):
                    s = s.copy() if not dead else s
                    for k in dl: s.store.pop(k, None)
                res.append((s, v))
            self.lim(len(res))
            return res
        finally:
            self.frames.pop(); self.stack.pop()
    def opaque_call(self, e, qn, this, args, st, virt=False, mode=None, rawargs=()):
        """call whose body is not analysed: effect + fresh result + havoc of shared memory"""
        if e.get('noret'):
            s = st.copy(); s.eff = s.eff + (T('call', qn, (), 0),); self.throw(s, T('exc', 'noreturn', ()), 'noreturn', e); return []
        mode = mode or {}
        if mode is True: mode = {}
        recv = (this if this is None or this.op not in ('loc', 'heap') else self.classval(st, this, None),) if this is not None else ()
        a = recv + tuple(args)
        if mode.get('pure'):
            return [(st, self.mkret(st, e, T('ret', qn, a, 0 if mode.get('const') else self.epid(st, mode.get('reads')))))]
        st = st.copy()
        st.fep = dict(st.fep); n = st.fep['#'] = st.fep.get('#', 0) + 1
        a = tuple(self.snap(st, x) if x.op in ('loc', 'heap') else x for x in a)
        r = T('ret', qn, a, ('c', n))
        st.eff = st.eff + (T('call', qn, a, ('c', n)),)
        for x in rawargs:
            if isinstance(x, T) and x.op in ('loc', 'addr', 'heap'): self.escape(st, x)
        if this is not None: self.escape(st, this)
        for x in args: self.escape(st, x)
        self.havoc(st, mode.get('writes'))
        if self.trydepth and not mode.get('nothrow'):
            s2 = st.copy()
            s2.facts = s2.facts.assume(T('threw', r), True); st.facts = st.facts.assume(T('threw', r), False)
            self.throw(s2, T('exc', 'ANY', (r,)), 'ANY', e)
        return [(st, self.mkret(st, e, r))]
    def epid(self, st, reads=None):
        if reads is None: return st.epoch if not st.fep else (st.epoch,) + tuple(sorted((k, v) for k, v in st.fep.items() if k[0] != '#'))
        r = tuple(sorted((k, st.fep[k]) for k in reads if st.fep.get(k)))
        return (st.epoch,) + r if r or st.epoch else 0
    def mkret(self, st, e, r):
        t = e['t']
        if e.get('lv') or e.get('xv'): return T('deref', r)
        if isuptr(t): self.ownedret.add(r)
        if self.h.mine(t):
            return T('deref', T('addrof', r))
        return r
    def analyse(self, usr, this_cls=None):
        """entry point with symbolic arguments"""
        f = self.F[usr]
        st = St()
        this = None
        if f['kind'] in ('method', 'dtor', 'conv') and not f.get('static'):
            this = T('deref', T('sym', 'this'))
            st.dyn = {this: this_cls or f['cls']}
        elif f['kind'] == 'ctor':
            this = T('deref', T('sym', 'this')); st.dyn = {this: f['cls']}
        vs = []
        for i, p in enumerate(f['params']):
            s = T('sym', 'arg%d' % i)
            t = p['t']
            if p.get('ref'): vs.append(T('deref', s))
            elif self.h.mine(t) : vs.append(T('deref', s)); 
            else: vs.append(s)
        for i, p in enumerate(f['params']):
            pass
        self.thr.append([])
        try:
            if f['kind'] == 'ctor':
                out = [(s, C(0)) for s in self.run_ctor(f, this, f['cls'], self.paramlocs(f, vs, st), st)]
            else:
                out = self.run_fn(f, this, self.paramlocs(f, vs, st), st)
        finally:
            thr = self.thr.pop()
        res = [Path('ret', s, v) for s, v in out]
        for s, v, c, w in thr:
            res.append(Path('abort' if c == 'noreturn' else 'throw', s, (c, v, w)))
        return res
    def paramlocs(self, f, vs, st):
        out = []
        for p, v in zip(f['params'], vs):
            if not p.get('ref') and self.h.mine(p['t']) and v.op == 'deref':
                l = T('loc', 'param', p['n'], p['n'])
                st.store[l] = T('init', v, 0); v = l
            out.append(v)
        return out
    # ---------------------------------------------------------------- statements
    def block(self, s, st):
        """run a function body: [(ret, st, val)]"""
        out = []
        for k, s2, v in self.stmt(s, st):
            if k in ('n', 'ret'): out.append(('ret', s2, v))
        return out
    def stmt(self, s, st):
        if s is None: return [('n', st, None)]
        m = getattr(self, 's_' + s['k'].replace('?', 'unk'), None)
        if m is None:
            self.note(st, 'stmt ' + s['k']); return [('n', st, None)]
        return m(s, st)
    def s_unkstmt(self, s, st):
        self.note(st, 'stmt ' + str(s.get('cls'))); return [('n', st, None)]
    def seq(self, ss, st):
        cur = [st]; out = []
        for s in ss:
            nc = []
            for x in cur:
                for k, s2, v in self.stmt(s, x):
                    if k == 'n': nc.append(s2)
                    else: out.append((k, s2, v))
            cur = nc
            self.lim(len(cur) + len(out))
            if not cur: break
        return out + [('n', x, None) for x in cur]
    def s_block(self, s, st): return self.seq(s['b'], st)
    def s_null(self, s, st): return [('n', st, None)]
    def s_expr(self, s, st): return [('n', s2, None) for s2, _ in self.ev(s['e'], st)]
    def s_decl(self, s, st):
        cur = [st]
        for d in s['d']:
            nc = []
            for x in cur: nc += self.vardecl(d, x)
            cur = nc
        return [('n', x, None) for x in cur]
    def vardecl(self, d, st):
        t = d['t']
        if d.get('static'):
            st = st.copy(); return [st]
        if 'bindings' in d: return self.decomp(d, st)
        if d.get('ref'):
            r = []
            for s, l in self.ev(d['init'], st):
                s = s.copy(); self.declare(s, d['id'], l); r.append(s)
            return r
        l = T('loc', self.frames[-1][0], d['id'], d['n'])
        st = st.copy(); self.declare(st, d['id'], l)
        for k in [k for k in st.store if k is l or (k.op in ('fld', 'elem') and root(k) is l)]: del st.store[k]
        if l in st.esc: st.esc = st.esc - {l}
        if 'init' not in d:
            if self.numkind(t) in 'ibfp': st.store[l] = T('uninit', d['n'])
            return [st]
        if self.h.mine(t) and not self.h.recs[unq(t)].get('lambda'): return self.init_into(d['init'], l, unq(t), st)
        r = []
        for s, v in self.ev(d['init'], st):
            s = s.copy(); s.store[l] = v; r.append(s)
        return r
    def decomp(self, d, st):
        r = []
        for s, v in self.ev(d['init'], st):
            s = s.copy()
            l = v if (d.get('ref') or self.h.mine(d['t'])) else T('loc', self.frames[-1][0], d['id'], 'dec')
            if l is not v: s.store[l] = v
            self.declare(s, d['id'], l)
            for i, b in enumerate(d['bindings']):
                be = b.get('e')
                if be and be['k'] == 'mem': self.declare(s, b['id'], T('fld', l, be['fcls'] + '::' + be['n']))
                else: self.declare(s, b['id'], T('fld', l, 'std::pair::' + ('first' if i == 0 else 'second')))
            r.append(s)
        return r
    def s_return(self, s, st):
        if s['e'] is None: return [('ret', st, None)]
        e = s['e']
        return [('ret', s2, v) for s2, v in self.ev(e, st)]
    def s_break(self, s, st): return [('brk', st, None)]
    def s_continue(self, s, st): return [('cont', st, None)]
    def s_if(self, s, st):
        sts = [st]
        if s.get('init'): sts = [x for k, x, _ in self.stmt(s['init'], st) if k == 'n']
        if s.get('var'):
            ns = []
            for x in sts: ns += self.vardecl(s['var'], x)
            sts = ns
        out = []
        for x in sts:
            for s2, b in self.cond(s['c'], x):
                out += self.stmt(s['t'] if b else s['f'], s2)
        return out
    def s_label(self, s, st): return self.stmt(s['b'], st)
    def s_case(self, s, st): return self.stmt(s['b'], st)
    def s_default(self, s, st): return self.stmt(s['b'], st)
    def s_switch(self, s, st):
        items = []   # flat list of ('label', value-or-None) / ('stmt', s)
        def flat(b):
            if b['k'] in ('case', 'default'):
                items.append(('label', b)); flat(b['b'])
            else: items.append(('stmt', b))
        body = s['b']
        for b in (body['b'] if body['k'] == 'block' else [body]): flat(b)
        out = []
        sts = [st]
        if s.get('init'): sts = [x for k, x, _ in self.stmt(s['init'], st) if k == 'n']
        if s.get('var'): sts = [y for x in sts for y in self.vardecl(s['var'], x)]
        for x in sts:
            for s1, v in self.ev(s['c'], x):
                self.isenum(v, s['c']['e']['t'] if s['c']['k'] == 'cast' and unq(s['c']['e']['t']) in self.p.enums else s['c']['t'])
                rest = s1; starts = []; dflt = None
                i = 0
                states = [(s1, v)]
                cur = s1
                for idx, (k, b) in enumerate(items):
                    if k != 'label': continue
                    if b['k'] == 'default': dflt = idx; continue
                    if cur is None: continue
                    cv = self.ev(b['v'], cur)[0][1]
                    ct = cmp_int('==', v, cv)
                    q = cur.facts.query(ct)
                    if q is True: starts.append((cur, idx)); cur = None; continue
                    if q is False: continue
                    f = cur.facts.assume(ct, True)
                    if f is not None: y = cur.copy(); y.facts = f; starts.append((y, idx))
                    f = cur.facts.assume(ct, False)
                    if f is None: cur = None
                    else: cur = cur.copy(); cur.facts = f
                if cur is not None:
                    if self.enum_exhausted(cur, v, s['c'], items): cur = None
                if cur is not None:
                    if dflt is not None: starts.append((cur, dflt))
                    else: out.append(('n', cur, None))
                for y, idx in starts:
                    for k, z, val in self.seq([b for kk, b in items[idx:] if kk == 'stmt'], y):
                        out.append(('n' if k == 'brk' else k, z, val))
        return out
    def enum_exhausted(self, st, v, e, items):
        t = unq(e['t'])
        if e['k'] == 'cast': t = unq(e['e']['t']) if unq(e['e']['t']) in self.p.enums else t
        en = self.p.enums.get(t)
        if not en: return False
        vals = set(int(x) for x in en.values())
        return all(st.facts.query(cmp_int('==', v, C(k))) is False for k in vals)
    def s_goto(self, s, st):
        self.note(st, 'goto'); return [('n', st, None)]
    def s_try(self, s, st):
        self.thr.append([]); self.trydepth += 1
        try: out = self.stmt(s['b'], st)
        finally: self.trydepth -= 1; thrown = self.thr.pop()
        for (x, val, cls, w) in thrown:
            excl = ()
            handled = False
            for h in s['h']:
                ht = h.get('t')
                if cls == 'noreturn': break
                if ht is None:
                    out += self.handler(h, x, val, cls); handled = True; break
                if cls == 'ANY':
                    y = x.copy()
                    cv = T('exc', ht, val.a[1])
                    y.eff = y.eff + (T('raised', ht, val.a[1]),)
                    f = self.excfacts(y.facts, val, ht, excl)
                    if f is None: continue
                    y.facts = f
                    out += self.handler(h, y, cv, ht)
                    excl = excl + (ht,)
                elif self.h.isa(cls, ht) or cls == ht or (ht == 'std::exception' and cls.startswith('std::')):
                    out += self.handler(h, x, val, cls); handled = True; break
            if not handled:
                if cls == 'ANY':
                    y = x.copy(); f = self.excfacts(y.facts, val, None, excl)
                    if f is None: continue
                    y.facts = f
                    if excl: val = T('exc', 'ANY', val.a[1], tuple(sorted(set((val.a[2] if len(val.a) > 2 else ()) + excl))))
                    self.thr[-1].append((y, val, 'ANY', w)) if (self.trydepth or True) and self.thr else None
                else: self.thr[-1].append((x, val, cls, w)) if self.thr else None
        return out
    def excfacts(self, f, val, ht, excl):
        r = val.a[1][0] if len(val.a) > 1 and val.a[1] else None
        if not isinstance(r, T): return f
        if ht is not None:
            for c in self.excclasses():
                if self.h.isa(ht, c): f = f.assume(T('isexc', r, c), True)
                elif not self.h.isa(c, ht): f = f.assume(T('isexc', r, c), False)
                if f is None: return None
        for c in excl:
            f = f.assume(T('isexc', r, c), False)
            if f is None: return None
        return f
    def excclasses(self):
        if not hasattr(self.h, 'excs'):
            self.h.excs = sorted(c for c in self.h.recs if self.h.isa(c, 'PSC::Error') or c.endswith('Signal'))
        return self.h.excs
    def handler(self, h, st, val, cls):
        st = st.copy()
        if h.get('var'):
            l = T('loc', self.frames[-1][0], h['var']['id'], h['var']['n'])
            st.store[l] = val; self.declare(st, h['var']['id'], l)
            st.dyn = dict(st.dyn); st.dyn[l] = cls if cls != 'ANY' else h.get('t')
        self.cexc.append((val, cls))
        try: return self.stmt(h['b'], st)
        finally: self.cexc.pop()
    # ---------------------------------------------------------------- loops
    def s_for(self, s, st):
        out = []
        sts = [('n', st, None)]
        if s.get('init'): sts = self.stmt(s['init'], st)
        for k, x, v in sts:
            if k != 'n': out.append((k, x, v)); continue
            out += self.loop(s, x, s.get('c'), s.get('inc'), s['b'])
        return out
    def s_while(self, s, st): return self.loop(s, st, s['c'], None, s['b'], var=s.get('var'))
    def s_do(self, s, st): return self.loop(s, st, s['c'], None, s['b'], post=True)
    def s_rfor(self, s, st):
        out = []
        sts = [('n', st, None)]
        if s.get('init'): sts = self.stmt(s['init'], st)
        for k0, x0, v0 in sts:
            for x, r in self.ev(s['range'], x0):
                rt = s['range']['t']
                if not (s['range'].get('lv') or s['range'].get('xv')) and not self.h.mine(rt):
                    l = self.tmp(); x = x.copy(); x.store[l] = r; r = l
                x = x.copy()
                il = self.tmp(); x.store[il] = C(0)
                out += self.loop(s, x, None, None, s['b'], rng=(r, il, s['var'], rt))
        return out
    def vals(self, st): return st.store
    def loop(self, s, st, cond, inc, body, post=False, rng=None, var=None):
        nloop = st.fep.get('#L', 0)
        key = T('lk', self.loopkey[-1] if self.loopkey else 0, nloop)
        st = st.copy(); st.fep = dict(st.fep); st.fep['#L'] = 0
        pre_eff = st.eff
        def after(y):
            y.fep = dict(y.fep); y.fep['#L'] = nloop + 1
            return y
        def body_once(x):
            """one iteration starting in x (condition not yet tested): list of (kind, st, val) with kind n/cont merged to 'n' after inc,
            'exit' for the normal loop exit"""
            res = []
            entry = [x]
            def test(y, res):
                if rng is not None:
                    r, il, v, rt = rng
                    sz = self.contsize(y, r, rt)
                    out = []
                    for z, b in self.split(y, cmp_int('<', self.load(y, il), sz)):
                        if not b: res.append(('exit', z, None)); continue
                        z = z.copy()
                        el = T('elem', r, self.load(z, il))
                        if v.get('ref'): self.declare(z, v['id'], el)
                        elif 'bindings' in v: pass
                        elif self.h.mine(v['t']):
                            l = T('loc', self.frames[-1][0], v['id'], v['n']); self.copyobj(z, el, l, unq(v['t'])); self.declare(z, v['id'], l)
                        else:
                            l = T('loc', self.frames[-1][0], v['id'], v['n']); z.store[l] = self.load(z, el); self.declare(z, v['id'], l)
                        if 'bindings' in v:
                            for i, b_ in enumerate(v['bindings']): self.declare(z, b_['id'], T('fld', el, b_['e']['fcls'] + '::' + b_['e']['n'] if b_.get('e') and b_['e']['k'] == 'mem' else 'std::pair::' + ('first' if i == 0 else 'second')))
                        out.append(z)
                    return out
                if cond is None: return [y]
                ys = [y]
                if var: ys = self.vardecl(var, y)
                out = []
                for y in ys:
                    for z, b in self.cond(cond, y):
                        if b: out.append(z)
                        else: res.append(('exit', z, None))
                return out
            if not post: entry = [z for y in entry for z in test(y, res)]
            for y in entry:
                for k, z, v in self.stmt(body, y):
                    if k in ('n', 'cont'):
                        if post:
                            for w in test(z, res): res.append(('n', w, None))
                            continue
                        if rng is not None:
                            z = z.copy(); z.store[rng[1]] = add(self.load(z, rng[1]), C(1)); res.append(('n', z, None)); continue
                        if inc is not None:
                            for w, _ in self.ev(inc, z): res.append(('n', w, None))
                        else: res.append(('n', z, None))
                    else: res.append((k, z, v))
            return res
        only = self.unroll[2] if isinstance(self.unroll, tuple) and len(self.unroll) > 2 else None
        if only is not None:
            c = self.p.__dict__.setdefault('_lh', {})
            if id(s) not in c:
                from .sem import loophash
                c[id(s)] = loophash(s)
            only = c[id(s)] in only
        if self.unroll and only is not False:
            out = []; front = [st]
            d = self.undepth
            for it in range((self.unroll[min(d, 1)] if isinstance(self.unroll, tuple) else self.unroll) + 1):
                nxt = []
                for x in front:
                    self.undepth = d + 1
                    try: res = body_once(x)
                    finally: self.undepth = d
                    for k, y, v in res:
                        if k == 'n': nxt.append(y)
                        else:
                            y = after(y.copy()); out.append(('n' if k in ('exit', 'brk') else k, y, v))
                self.lim(len(out) + len(nxt))
                front = nxt
            return out
        # 1. discover what an iteration modifies
        mod = {}
        eph = False; ephk = set()
        base = st
        start_uid = self.uid
        for rnd in range(4):
            x = self.havocked(base, mod, None, eph, ephk=ephk)
            self.thr.append([]); self.silent += 1
            try: res = body_once(x)
            finally: self.silent -= 1; self.thr.pop()
            changed = False; seen = set()
            for k, y, v in res:
                if k != 'n': continue
                if y.epoch != x.epoch and not eph: eph = True; changed = True
                if y.fep is not x.fep:
                    nk = {q for q, n in y.fep.items() if x.fep.get(q, 0) != n and q != '#L'} - ephk
                    if nk: ephk |= nk; changed = True
                for loc, val in y.store.items():
                    if loc.op == 'bind': continue
                    r0 = root(loc)
                    if r0.op == 'loc' and loc not in x.store and r0 not in x.store and not any(root(q) is r0 for q in x.store) and self.bornin(r0, x, start_uid): continue
                    if loc not in x.store:
                        if r0.op == 'heap' and r0.a[0] > x.nheap: continue
                        iv = self.load(x, loc)
                        if val is iv: continue
                        seen.add(loc)
                        if loc not in mod: mod[loc] = None; changed = True
                    elif x.store[loc] is not val:
                        seen.add(loc)
                        if loc not in mod: mod[loc] = None; changed = True
                for loc in x.store:
                    if loc.op != 'bind' and loc not in y.store and not (eph and not self.isfresh(base, loc)):
                        seen.add(loc)
                        if loc not in mod: mod[loc] = None; changed = True
            if not changed:
                # written only while less was known to vary, or a place that depends on the iteration: no carried value of its own
                for loc in [l for l in mod if l not in seen or any(z.op in ('lv', 'lk') and z.a[0] == -1 or z.op == 'lv' and z.a[0] is LK1 for z in subterms(l))]:
                    if not self.isfresh(base, loc):
                        fk = self.fieldkey(loc)
                        if fk is not None: ephk.add(fk)
                    del mod[loc]
                break
        # 2. induction variables
        if len(mod) > 1:
            mod = dict(sorted(mod.items(), key=lambda kv: skey(base.store.get(kv[0]) or self.load(base, kv[0]))))
        ivs = {}
        if mod:
            x = self.havocked(base, mod, None, eph, key=key, ephk=ephk)
            self.thr.append([]); self.silent += 1
            try: res = body_once(x)
            finally: self.silent -= 1; self.thr.pop()
            for loc in mod:
                init = base.store.get(loc)
                if init is None: init = self.load(base, loc)
                d = None; ok = True
                for k, y, v in res:
                    if k != 'n': continue
                    a, b = self.load(y, loc), self.load(x, loc)
                    if a.op == 'iter' and b.op == 'iter' and a.a[0] is b.a[0]: a, b = a.a[1], b.a[1]
                    if a.op in ('str', 'null', 'addr', 'vec', 'obj') or b.op in ('str', 'null', 'addr', 'vec', 'obj'): ok = False; break
                    if isc(a) and not isinstance(a.a[0], int): ok = False; break
                    try: df = sub(a, b)
                    except Exception: ok = False; break
                    if df.op != 'const' or not isinstance(df.a[0], int) or df.a[0] == 0 or isinstance(df.a[0], bool) or (d is not None and d != df.a[0]): ok = False; break
                    d = df.a[0]
                if ok and d is not None:
                    ivs[loc] = (init, d)
        # 3. the generic iteration
        self.loopkey.append(key)
        try:
            x = self.havocked(base, mod, ivs, eph, key=key, ephk=ephk)
            x.eff = ()
            pre_facts = x.facts
            self.thr.append([])
            try: res = body_once(x)
            finally: thrown = self.thr.pop()
        finally: self.loopkey.pop()
        cont = []
        for k, y, v in res:
            if k == 'n': cont.append(y)
        interesting = False
        summ = []
        for y in cont:
            ch = []
            for loc in mod:
                if loc in ivs: continue
                a = self.load(y, loc)
                if a is not self.load(x, loc): ch.append((self.locname(loc, mod), self.snap(y, a)))
            ch.sort(key=skey)
            if y.eff or ch: interesting = True
            summ.append((tuple(sorted(self.newfacts(pre_facts, y.facts), key=skey)), y.eff, tuple(ch)))
        early = []
        for k, y, v in res:
            if k in ('brk', 'ret', 'exit'): early.append((k, tuple(sorted(self.newfacts(pre_facts, y.facts), key=skey)), y.eff))
        for (y, val, cls, w) in thrown: early.append((cls, tuple(sorted(self.newfacts(pre_facts, y.facts), key=skey)), y.eff))
        early = tuple(sorted(set(early), key=skey))
        real = any(k != 'exit' for k, _, _ in early)
        if real: interesting = True
        L = T('loop', key, tuple(sorted(set(summ), key=skey)), early) if interesting else None
        if L is not None:
            wr = {k for k in ephk if not (isinstance(k, str) and k[0] == '#')} | {self.fieldkey(l) for l in mod if not self.isfresh(base, l)}
            LOOPV[L] = (x.epoch if eph else None, tuple(sorted((k, x.fep.get(k, 0) >> 20) for k in wr if k)))
        eff0 = pre_eff + ((L,) if L is not None else ())
        et = T('exits', key) if real else None
        out = []
        def mark(y, b):
            if et is not None:
                f = y.facts.assume(et, b)
                if f is not None: y.facts = f
        for k, y, v in res:
            if k == 'n': continue
            y = after(y.copy()); y.eff = eff0 + y.eff
            mark(y, k != 'exit')
            if k == 'exit':
                for loc, (init, d) in ivs.items():
                    pass
                out.append(('n', y, None))
            elif k == 'brk': out.append(('n', y, None))
            else: out.append((k, y, v))
        for (y, val, cls, w) in thrown:
            y = after(y.copy()); y.eff = eff0 + y.eff; mark(y, True)
            self.thr[-1].append((y, val, cls, w))
        self.lim(len(out))
        return out
    def bornin(self, r, x, start):
        return isinstance(r.a[0], int) and (r.a[0] > start or True)
    def locname(self, loc, mod):
        if root(loc).op == 'loc':
            ls = [l for l in mod if root(l).op == 'loc']
            return T('lvar', ls.index(loc))
        return loc
    def newfacts(self, a, b):
        out = []
        for L, v in b.lin.items():
            if a.lin.get(L) != v: out.append(T('F', L, v[0] if v[0] is not None else '-inf', v[1] if v[1] is not None else 'inf', tuple(sorted(v[2]))))
        for k, v in b.ord.items():
            if a.ord.get(k) != v: out.append(T('Fo', k[0], k[1], ''.join(sorted(v))))
        for k, v in b.tv.items():
            if a.tv.get(k) != v: out.append(T('Ft', k, v))
        return out
    def havocked(self, st, mod, ivs, eph, key=None, ephk=()):
        s = st.copy()
        if ephk: self.havockeys(s, ephk)
        if eph:
            for x in []: pass
            self.havoc(s)
        n = 0
        for loc in mod:
            init = st.store.get(loc)
            if init is None: init = self.load(st, loc)
            if ivs and loc in ivs:
                ini, d = ivs[loc]
                if ini.op == 'iter': s.store[loc] = T('iter', ini.a[0], self.mkiv(s, key, ini.a[1], d))
                else: s.store[loc] = self.mkiv(s, key, ini, d)
            elif init.op == 'iter': s.store[loc] = T('iter', init.a[0], T('lv', key or T('lk', -1), n, init.a[1] if key else 0))
            else: s.store[loc] = T('lv', key or T('lk', -1), n, init if key and isinstance(init, T) else 0)
            for k2 in [q for q in s.store if q is not loc and q.op in ('fld', 'elem') and self.under(q, loc)]: del s.store[k2]
            n += 1
        if mod:
            fk = [self.fieldkey(l) for l in mod if not self.isfresh(st, l)]
            if fk:
                s.fep = dict(s.fep)
                for k in fk: s.fep[k] = s.fep.get(k, 0) + CLOB
        return s
    def mkiv(self, s, key, ini, d):
        t = T('iv', key, ini, d)
        f = s.facts.assume(cmp_int('>=' if d > 0 else '<=', t, ini), True)
        if f is not None: s.facts = f
        return t
    def contsize(self, st, r, t):
        return self.size(self.load(st, r))

LK1 = T('lk', -1)
def a_is_lv(a): return isinstance(a, dict) and (a.get('lv') or a.get('xv') or (a['k'] == 'mat'))

from . import libmodel
