"""Contract comparison: path summaries of a function in the current tree against those of the reviewed reference tree.

A difference is reported only when it is *decided*: two paths, one of each tree, whose conditions are jointly satisfiable
and expressed in the same vocabulary, yet whose outcomes (result, kind of exception, calls made, memory written, output)
are terms that cannot denote the same behaviour.  Everything else is either equal or undecided (quiet)."""
import time
from .terms import *
from . import interp, rand

CAT = {'PSC::BreakErrSignal': 'signal:break', 'PSC::ContinueErrSignal': 'signal:continue', 'PSC::ReturnErrSignal': 'signal:return'}
def category(h, cls):
    if cls in ('ANY', 'noreturn'): return cls
    for base in ('PSC::SyntaxError', 'PSC::PedanticError', 'PSC::RuntimeError', 'PSC::Error'):
        if h.isa(cls, base): return base
    return cls

class CPath:
    __slots__ = ('facts', 'kind', 'exc', 'tok', 'val', 'eff', 'where', 'raw', 'enum', 'obl', 'asm')
    def atoms(self):
        return set(self.facts.lin) | set(self.facts.ord) | set(self.facts.tv)

def cep(e):
    """the canonical version of a location counts the calls and loops that may have written it, not the path's own stores"""
    if not isinstance(e, tuple): return e
    if len(e) == 2 and isinstance(e[1], int): r = (e[0], e[1] >> 20)
    else: r = (e[0],) + tuple((k, v >> 20) for k, v in e[1:] if v >> 20)
    return r if any(r[:1]) or len(r) > 1 and r[1] != 0 else 0

class Canon:
    """alpha-renaming of everything that depends on analysis order"""
    def __init__(self, h):
        self.h = h
        self.ren = {}; self.occ = {}; self.locs = {}; self.cnt = {}; self.memo = {}; self.depth = 0
    def locno(self, x):
        """locals and allocations are numbered in the order in which the path mentions them, per class"""
        n = self.locs.get(x)
        if n is None:
            k = x.a[-1] if x.op == 'heap' else ''
            n = self.locs[x] = self.cnt.get(k, 0); self.cnt[k] = n + 1
        return n
    GLOB = {}; DEP = {}
    @staticmethod
    def dep(x):
        """does the canonical form depend on the path (call numbering, names of locals)?"""
        if isinstance(x, T):
            r = Canon.DEP.get(x)
            if r is None:
                o = x.op
                r = o in ('loc', 'heap', 'loop') or o == 'ret' and isinstance(x.a[2], tuple) and bool(x.a[2]) and x.a[2][0] == 'c' or any(Canon.dep(y) for y in x.a)
                Canon.DEP[x] = r
            return r
        if isinstance(x, (tuple, frozenset)): return any(Canon.dep(y) for y in x)
        return False
    LEAF = {}; BYREN = {}
    @staticmethod
    def leaf(x):
        """what the canonical form of a term depends on: the numbered calls and the named locals it mentions"""
        if isinstance(x, T):
            r = Canon.LEAF.get(x)
            if r is None:
                if not Canon.dep(x): r = ()
                elif x.op in ('loc', 'heap'): r = (x,)
                elif x.op == 'loop':
                    i = Canon.inner(x); r = tuple(i[0]) + tuple(i[1])
                else:
                    r = Canon.leaf(x.a)
                    if x.op == 'ret' and isinstance(x.a[2], tuple) and x.a[2] and x.a[2][0] == 'c' and x not in r: r += (x,)
                Canon.LEAF[x] = r
            return r
        if isinstance(x, (tuple, frozenset)):
            out = []; seen = set()
            for y in x if isinstance(x, tuple) else sorted(x, key=skey):
                for z in Canon.leaf(y):
                    if z not in seen: seen.add(z); out.append(z)
            return tuple(out)
        return ()
    def leafkey(self, x, lf):
        k = [self.depth]
        for z in lf:
            n = self.ren.get(z, 0) if z.op == 'ret' else self.locs.get(z)
            if n is None: return None
            k.append(n)
        return (x, tuple(k))
    def term(self, t):
        mine = self.memo; glob = Canon.GLOB; dep = Canon.dep
        def go(x):
            if isinstance(x, T):
                r = glob.get(x)
                if r is not None: return r
                m = mine if dep(x) else glob
                r = m.get(x)
                if r is not None: return r
                lf = None
                if m is mine and x.op not in ('ret', 'loc', 'heap'):
                    lf = Canon.leaf(x); kr = self.leafkey(x, lf)
                    if kr is not None:
                        r = Canon.BYREN.get(kr)
                        if r is not None:
                            m[x] = r; return r
                o = x.op
                if o == 'init': r = T('init', go(x.a[0]), cep(x.a[1]))
                elif o == 'ret':
                    a = go(x.a[1])
                    ep = x.a[2]
                    if isinstance(ep, tuple) and ep and ep[0] == 'c': k = self.ren.get(x, 0)
                    else: k = cep(ep) or 'p'
                    r = T('ret', x.a[0], a, k)
                elif o == 'stream': r = T('stream', x.a[0], go(x.a[1]))
                elif o in ('loc', 'heap'):
                    n = self.locno(x)
                    r = T('loc' if o == 'loc' else 'heap', '#%d' % n, x.a[-1] if o == 'heap' else '')
                elif o == 'uninit': r = T('uninit')
                elif o == 'loop': r = self.loop(x)
                elif o == 'fn': r = T('fn', x.a[1] if len(x.a) > 1 else x.a[0])
                elif o == 'lambda': r = T('lambda')
                elif o == 'poly': r = rebuild_poly(go(x.a))
                elif o in ('ord', 'eq') and len(x.a) >= 2:
                    a, b = go(x.a[0]), go(x.a[1])
                    r = cmp_any({'=': '==', '<': '<', '<=': '<=', '>': '>', '=>': '>='}[x.a[2]], a, b) if o == 'ord' else eq_ptr(a, b)
                elif o == 'le': r = cmp_int('<=', go(x.a[0]), C(x.a[1]))
                elif o == 'ieq': r = cmp_int('==', go(x.a[0]), C(x.a[1]))
                elif o == 'not': r = NOT(go(x.a[0]))
                elif o == 'struct' and len(x.a) == 2 and x.a[1] and x.a[0] in self.h.recs: r = self.eta(T('struct', x.a[0], go(x.a[1])))
                elif o == 'F':
                    r = T('F', go(x.a[0]), *x.a[1:])
                else:
                    na = tuple(go(z) for z in x.a)
                    r = x if na == x.a else T(o, *na)
                m[x] = r
                if lf is not None: Canon.BYREN[self.leafkey(x, lf)] = r
                return r
            if isinstance(x, tuple): return tuple([go(z) for z in x])
            if isinstance(x, frozenset): return frozenset([go(z) for z in x])
            return x
        return go(t)
    def eta(self, t):
        """a copy made member by member is the original"""
        whole = None
        for k, v in t.a[1]:
            w = T('init', v.a[0].a[0], v.a[1]) if v.op == 'init' and v.a[0].op == 'fld' and v.a[0].a[1] == k else v.a[0] if v.op == 'proj' and v.a[1] == k else None
            if w is None or whole is not None and w is not whole: return t
            whole = w
        return whole if {k for k, v in t.a[1]} == {c + '::' + f['n'] for c, f in self.h.allfields(t.a[0])} else t
    def number(self, effs, occ):
        """occurrence numbers of effectful calls along the path; calls inside a loop are numbered within their iteration"""
        for e in effs:
            if e.op == 'call':
                a = self.term(e.a[1])
                k = (e.a[0], a); n = occ.get(k, 0); occ[k] = n + 1
                self.ren[T('ret', e.a[0], e.a[1], e.a[2])] = n if not self.depth else 'L%d.%d' % (self.depth, n)
    CACHE = {}; INNER = {}
    @staticmethod
    def inner(x):
        inner = Canon.INNER.get(x)
        if inner is None:
            rs = [y for y in subterms(x) if y.op in ('ret', 'loc', 'heap')]
            made = {T('ret', *y.a) for y in subterms(x) if y.op == 'call' and len(y.a) > 2}
            inner = Canon.INNER[x] = ([y for y in rs if y.op == 'ret' and y not in made and Canon.dep(y)], sorted((y for y in rs if y.op != 'ret'), key=skey), made)
        return inner
    def loop(self, x):
        inner = Canon.inner(x)
        for l in inner[1]:
            self.locno(l)
        k = (x, self.depth, tuple(self.ren.get(r) for r in inner[0]), tuple(self.locs[l] for l in inner[1]))
        r = Canon.CACHE.get(k)
        if r is None: r = Canon.CACHE[k] = self.loop_(x)
        return r
    def loop_(self, x):
        key, alts, exits = x.a; made = Canon.INNER[x][2]
        def sub(eff):
            c = Canon(self.h); c.ren = {k: v for k, v in self.ren.items() if k not in made}; c.locs = self.locs; c.cnt = self.cnt; c.depth = self.depth + 1
            c.number(eff, {}); c.memo = {}
            return c
        A = set(); E = set()
        for fs, eff, ch in alts:
            c = sub(eff); A.add((tuple(sorted(c.term(fs), key=skey)), c.term(eff), tuple(sorted(c.term(ch), key=skey))))
        for k, fs, eff in exits:
            c = sub(eff); E.add((k, tuple(sorted(c.term(fs), key=skey))))
        r = T('loop', self.term(key), tuple(sorted(A, key=skey)), tuple(sorted(E, key=skey)))
        if x in LOOPV: LOOPV[r] = LOOPV[x]
        return r
    def facts(self, f):
        g = Facts(); ex = {}
        def asm(t, v):
            nonlocal g
            if g is not None: g = g.assume(t, v)
        for t, v in f.tv.items():
            if t.op == 'exits': continue
            asm(self.term(t), v)
        for L, (lo, hi, exs) in f.lin.items():
            L = self.term(L)
            if lo is not None: asm(cmp_int('>=', L, C(lo)), True)
            if hi is not None: asm(cmp_int('<=', L, C(hi)), True)
            for e in exs: asm(cmp_int('!=', L, C(e)), True)
        for (a, b), s in f.ord.items():
            a, b = self.term(a), self.term(b)
            if a is b:
                if '=' not in s: g = None
                continue
            if skey(a) > skey(b): a, b = b, a; s = frozenset({'<': '>', '>': '<', '=': '='}[c] for c in s)
            if isc(a) and isc(b): continue
            if g is None: break
            s2 = g.ord.get((a, b), ALLORD) & s
            if not s2: g = None; break
            if s2 != ALLORD: g = g.copy(); g.ord[(a, b)] = s2
        return g, ex

def lfacts(ts):
    """Facts (None: contradictory) from the F/Fo/Ft tuples stored in loop summaries"""
    g = Facts()
    for t in ts:
        if g is None: break
        if t.op == 'F':
            L, lo, hi, exs = t.a
            if lo != '-inf': g = g.assume(cmp_int('>=', L, C(lo)), True)
            if g is not None and hi != 'inf': g = g.assume(cmp_int('<=', L, C(hi)), True)
            for e in exs:
                if g is not None: g = g.assume(cmp_int('!=', L, C(e)), True)
        elif t.op == 'Fo':
            a, b, s = t.a; s = frozenset(s)
            if skey(a) > skey(b): a, b = b, a; s = frozenset({'<': '>', '>': '<', '=': '='}[c] for c in s)
            s2 = g.ord.get((a, b), ALLORD) & s
            if not s2: g = None
            else: g = g.copy(); g.ord[(a, b)] = s2
        elif t.op == 'Ft':
            if isinstance(t.a[0], T) and t.a[0].op == 'exits': pass
            else: g = g.assume(t.a[0], t.a[1])
    return g

def fkey(loc):
    l = loc
    while l.op == 'elem': l = l.a[0]
    return l.a[1] if l.op == 'fld' else 'g:' + str(l.a[0]) if l.op == 'glob' else None

class Effects:
    """ordered events plus order-insensitive stores; each call carries the pending stores it can observe"""
    __slots__ = ('ev', 'st', 'con')
    def __init__(self, effs, reads):
        ev = []; st = {}; con = {}
        for e in effs:
            o = e.op
            if o == 'store': st[e.a[0]] = e.a[1]
            elif o in ('push!', 'pop!', 'erase!'): con.setdefault(e.a[0], []).append(e)
            elif o == 'out':
                if ev and ev[-1][0] == 'out' and ev[-1][1] is e.a[0]: ev[-1] = ('out', e.a[0], ev[-1][2] + (e.a[1],))
                else: ev.append(('out', e.a[0], (e.a[1],)))
            elif o == 'call':
                rd = reads(e.a[0])
                pend = tuple(sorted(((k, v) for k, v in st.items() if rd is None or fkey(k) in rd or fkey(k) is None), key=skey))
                pc = tuple(sorted(((k, tuple(v)) for k, v in con.items() if rd is None or fkey(k) in rd or fkey(k) is None), key=skey))
                ev.append(('call', e.a[0], e.a[1], pend, pc))
            else: ev.append((o,) + tuple(e.a))
        self.ev = ev; self.st = st; self.con = con

# state that only the statement completing normally hands on: unwinding an error discards the object that carries it (reviewed)
DEAD_ON_ERROR = {'PSC::Context::returnValue'}
def private(I, p):
    """effects on objects the path received ownership of and never handed on: they end with the path"""
    if not any(e.op == 'store' and isinstance(e.a[0], T) and I.owned(p.st, e.a[0]) for e in p.st.eff): return p.st.eff
    out = interp.handed(p.val) if p.val is not None else ()
    dead = set()
    for e in p.st.eff:
        if e.op == 'store' and isinstance(e.a[0], T) and I.owned(p.st, e.a[0]):
            r = root(e.a[0]); ok = True
            while r.op == 'deref':
                if r.a[0] in out: ok = False
                if r.a[0].op == 'ret': break
                r = root(r.a[0].a[0])
            if ok: dead.add(e)
    return tuple(e for e in p.st.eff if e not in dead)
def canon_path(I, h, p, tokens):
    p.st.eff = private(I, p)
    c = Canon(h)
    for e in p.st.eff:
        for l in Canon.leaf(e):
            if l.op == 'heap': c.locno(l)
    c.number(p.st.eff, {})
    c.memo = {}
    q = CPath()
    q.raw = p
    effs = tuple(I.snap(p.st, e) if False else e for e in p.st.eff)
    q.eff = tuple(c.term(e) for e in effs)
    q.kind = p.kind
    q.exc = q.tok = None
    if p.kind == 'ret':
        v = p.val
        if isinstance(v, T): v = I.snap(p.st, v)
        q.val = c.term(v) if isinstance(v, T) else v
        q.where = None
    else:
        q.val = None
        q.exc = category(h, p.val[0]); q.where = p.val[2]
        if q.exc != 'ReturnErrSignal': q.eff = tuple(e for e in q.eff if not (e.op == 'store' and isinstance(e.a[0], T) and e.a[0].op == 'fld' and e.a[0].a[1] in DEAD_ON_ERROR))
        x = p.val[1]
        q.tok = c.term(x.a[1]) if isinstance(x, T) and len(x.a) > 1 else None
    q.obl = tuple({c.term(o) for o in p.st.obl if not any(x.op in ('iv', 'lv', 'loc', 'heap') for x in subterms(o))})
    q.asm = [(c.term(o), h, i) for i, (o, f) in enumerate(p.st.asm) if not any(x.op in ('iv', 'lv', 'loc', 'heap', 'uninit') for x in subterms(o))]
    q.enum = {c.term(L): ENUM[L] for L in p.st.facts.lin if L in ENUM}
    q.facts, _ = c.facts(p.st.facts)
    return q

# --------------------------------------------------------------------------------------------------- decided inequality of terms
FREE = {'init', 'fld', 'deref', 'elem', 'sym', 'const', 'str', 'size', 'iv', 'lk', 'ret', 'at', 'poly', 'addr', 'get', 'proj', 'glob', 'addrof',
        'chr2s', 'intout', 'without', 'io', 'null', 'struct', 'new', 'i2f', 'cstr', 'not', 'le', 'ieq', 'eq', 'ord', 'line', 'rd', 'sok', 'threw', 'isexc', 'lv',
        'i2f', 'f2i', 'trunc', 'u', 's', 'idiv', 'imod', 'f+', 'f-', 'f*', 'f/', 'fneg', 'i|', 'i&', 'i^', 'i<<', 'i>>', 'cat', 'substr', 'call', 'isa', 'upd', 'stream', 'num2s', 'f32', 'obj', 'vec', 'erased', 'resized', 'rep'}
DISTINCT = [{'floor', 'ceil', 'round', 'trunc', 'f2i', 'lround', 'rint'}, {'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'exp', 'log', 'log10', 'sqrt'},
            {'tolower', 'toupper'}, {'min', 'max'}, {'f+', 'f-', 'f*', 'f/'}, {'imod', 'idiv'}, {'isdigit', 'isalpha', 'isalnum', 'isspace', 'isupper', 'islower'},
            {'i|', 'i&', 'i^'}, {'i<<', 'i>>'}, {'localtime', 'gmtime'}]
COMM = {'f+', 'f*', 'i|', 'i&', 'i^'}
class Voc:
    """what the reference knows: its functions, fields and, per function, the atoms it branches on"""
    def __init__(self, functions, fields, types=None, rts=None, lib=()):
        self.fn = functions; self.fld = fields; self.sorts = rand.Sorts(types or {}, rts or {}); self.lib = lib; self.lvok = False
_op = {}; _lv = {}
def opaque(t, voc=None):
    r = _op.get(t)
    if r is None:
        r = _op[t] = any(x.op in ('?', 'uninit', 'lambda') for x in subterms(t))
    if not r and not (voc is not None and voc.lvok):
        r = _lv.get(t)
        if r is None: r = _lv[t] = any(x.op in ('lv', 'lvar') for x in subterms(t))
    return r
def free(t, voc):
    for x in subterms(t):
        if x.op not in FREE and not (x.op == 'ctor' and x.a[0] in CALCTOR): return False
        if x.op == 'ret' and x.a[0] not in voc.fn: return False
        if x.op == 'call' and not ('call:' + x.a[0] in rand.SEM or x.a[0] in voc.lib or x.a[0] in voc.fn): return False
        if x.op == 'lv' and not voc.lvok: return False
        if x.op == 'fld' and x.a[1] not in voc.fld: return False
    return True
def anyd(it):
    u = False
    for x in it:
        if x is True: return True
        if x is None: u = True
    return None if u else False
def fixed(t, F):
    if F is None or not isinstance(t, T): return t
    v = F.lin.get(t)
    if v and v[0] is not None and v[0] == v[1]: return C(v[0])
    if t.op in ('init', 'ret', 'at', 'proj'):
        q = F.tv.get(t)
        if q is not None: return C(q)
        if F.tv.get(T('eq', t, NULL)): return NULL
    if t.op in ('le', 'ieq', 'ord', 'eq', 'not'):
        q = F.query(t)
        if q is not None: return C(q)
    return t
def name(t): return t.a[0] if t.op == 'call' else t.op
def catseq(t):
    if t.op == 'cat': return [y for x in t.a for y in catseq(x)]
    if t.op == 'chr2s' and t.a[0].op == 'const' and isinstance(t.a[0].a[0], int): return [T('str', chr(t.a[0].a[0] & 255))]
    if t.op == 'str' and t.a[0] == '': return []
    return [t]
def merge(seq):
    out = []
    for x in seq:
        if x.op == 'str' and out and out[-1].op == 'str': out[-1] = T('str', out[-1].a[0] + x.a[0])
        else: out.append(x)
    return out
def seqdiff(A, B, F, voc):
    A = merge(A); B = merge(B)
    while A and B and A[0] is B[0]: A = A[1:]; B = B[1:]
    while A and B and A[-1] is B[-1]: A = A[:-1]; B = B[:-1]
    if not A and not B: return False
    if not A or not B:
        X = A or B
        return True if any(x.op == 'str' and x.a[0] for x in X) or any(x.op == 'manip' for x in X) or all(not opaque(x, voc) for x in X) else None
    if len(A) == len(B) == 1:
        x, y = A[0], B[0]
        if x.op == 'str' and y.op == 'str': return True
        for p, q in ((x, y), (y, x)):
            if p.op == 'chr2s' and q.op == 'str':
                return True if len(q.a[0]) != 1 else sdiffers(p.a[0], C(ord(q.a[0])), F, voc)
        return sdiffers(x, y, F, voc)
    if A[0].op == 'str' and B[0].op == 'str':
        n = min(len(A[0].a[0]), len(B[0].a[0]))
        if A[0].a[0][:n] != B[0].a[0][:n]: return True
    if len(A) == len(B):
        r = [sdiffers(x, y, F, voc) for x, y in zip(A, B)]
        if r.count(True) >= 1 and all(x.op == y.op for x, y in zip(A, B)): return True
        if all(x is False for x in r): return False
    # constants differ in total although the variable parts are the same
    va = [x for x in A if x.op != 'str']; vb = [x for x in B if x.op != 'str']
    if len(va) == len(vb) and all(x is y for x, y in zip(va, vb)) and ''.join(x.a[0] for x in A if x.op == 'str') != ''.join(x.a[0] for x in B if x.op == 'str'):
        return True
    return None

def sdiffers(a, b, F, voc):
    """True: cannot denote the same value for all inputs of this path; False: equal; None: not decided"""
    if a is b: return False
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b): return True
        return anyd(sdiffers(x, y, F, voc) for x, y in zip(a, b))
    if not isinstance(a, T) or not isinstance(b, T):
        if isinstance(a, (T, tuple)) or isinstance(b, (T, tuple)): return None
        return a != b
    a, b = fixed(a, F), fixed(b, F)
    if a is b: return False
    ao, bo = a.op, b.op
    if ao in ('cat', 'str', 'chr2s') and bo in ('cat', 'str', 'chr2s') and not (ao == bo == 'chr2s'):
        return seqdiff(catseq(a), catseq(b), F, voc)
    if opaque(a, voc) or opaque(b, voc):
        if ao == bo and len(a.a) == len(b.a) and ao in ('struct', 'new', 'obj'): pass
        else: return None
    if ao == 'const' and bo == 'const':
        return bool(a.a[0] != b.a[0])
    if ao in ('loc', 'heap') or bo in ('loc', 'heap'): return None
    if ao == 'addr' and bo == 'addr' and distinct(a.a[0], b.a[0]): return True      # a new object against an existing one
    if intlike(a) and intlike(b) and (ao == 'poly' or bo == 'poly' or 'const' in (ao, bo)):
        if F is not None:
            q = F.query(cmp_int('==', a, b))
            if q is not None: return not q
        sa, sb = atoms_of(a), atoms_of(b)
        if sa == sb: return True
        return True if all(free(x, voc) for x in sa ^ sb) else None if ao != bo or len(sa) != 1 or len(sb) != 1 else sdiffers(sa.pop(), sb.pop(), F, voc)
    if ao == bo:
        if ao in ('struct', 'obj'):
            if a.a[0] != b.a[0]: return True
            if ao == 'struct':
                da, db = dict(a.a[1]), dict(b.a[1])
                r = anyd(sdiffers(da[k], db[k], F, voc) for k in da if k in db)
                if set(da) != set(db): return True if r else None
                return r
        if ao == 'ret':
            if a.a[0] != b.a[0]: return True if a.a[0] in voc.fn and b.a[0] in voc.fn else None
            r = sdiffers(a.a[1], b.a[1], F, voc)
            if a.a[2] != b.a[2] and not r: return None
            return r
        if ao == 'call' and a.a[0] != b.a[0]:
            return True if any(a.a[0] in g and b.a[0] in g for g in DISTINCT) else None
        if len(a.a) != len(b.a): return None
        if ao in COMM and len(a.a) == 2:
            x, y = sorted(a.a, key=skey), sorted(b.a, key=skey)
            return anyd(sdiffers(p, q, F, voc) for p, q in zip(x, y))
        if ao in ('le', 'ieq', 'eq', 'ord', 'not'):
            return True if free(a, voc) and free(b, voc) else None
        return anyd(sdiffers(p, q, F, voc) for p, q in zip(a.a, b.a))
    if any(name(a) in g and name(b) in g for g in DISTINCT): return True
    # lossy round trips: a value against the same value narrowed or routed through floating point
    for x, y in ((a, b), (b, a)):
        if x.op in ('trunc', 'f2i', 'u', 's') and any(z is y for z in subterms(x)) and x is not y:
            return True
    if ao == 'null' or bo == 'null':
        o = b if ao == 'null' else a
        if o.op in ('addr', 'new', 'str', 'obj'): return True
        if o.op in ('init', 'ret') and free(o, voc):
            return None if F is not None and F.query(T('eq', o, NULL)) is True else True
        return None
    if free(a, voc) and free(b, voc): return True
    return None
def sampler(F, voc, terms=()):
    if F.smp is None: F.smp = (tuple(terms), None)
    if isinstance(F.smp, tuple): F.smp = rand.Sampler(F, voc.sorts, F.smp[0] + tuple(terms))
    return F.smp
def differs(a, b, F, voc):
    """structural verdict, settled by random interpretation under the joint path condition"""
    s = sdiffers(a, b, F, voc)
    if s is False or F is None: return s
    if not isinstance(a, (T, tuple)) or not isinstance(b, (T, tuple)): return s
    if opaque(a, voc) or opaque(b, voc): return s if s is None or not isinstance(a, T) else s
    m = sampler(F, voc, (a, b))
    if not m.stores: return s if F.trust else None      # the same condition on both sides: a path of the contract
    d = m.decide(a, b)
    if d is not True:
        for p, q in boolpairs(a, b):
            for u, v in ((True, False), (False, True)):
                G = F.assume(p, u)
                if G is not None: G = G.assume(q, v)
                if G is None: continue
                m2 = rand.Sampler(G, voc.sorts, (a, b), tries=30, want=4)
                if m2.stores and m2.decide(p, q) is not False: d = True
            if d is True: break
    if d is False and deeper(a, b, F, voc, m): d = True
    if d is False: return False
    if d is True: return True if s or known(a, voc) and known(b, voc) else None
    return None if m.opq else s
def intconsts(t, out):
    if isinstance(t, T):
        if t.op == 'const':
            v = t.a[0]
            if isinstance(v, int) and not isinstance(v, bool): out.update((v - 1, v, v + 1))
            elif isinstance(v, float) and v == v and abs(v) < 1e9: out.update((int(v), int(v) + 1))
            return
        if t.op == 'poly':
            for m, c in t.a[0]:
                if len(m) < 2 and isinstance(c, int): out.update((c, -c))
        for x in t.a: intconsts(x, out)
    elif isinstance(t, (tuple, list, frozenset)):
        for x in t: intconsts(x, out)
    elif isinstance(t, int) and not isinstance(t, bool): out.update((t - 1, t, t + 1))
def deeper(a, b, F, voc, m):
    """equal in every store of the ordinary sample: look further, with the constants of both terms as values"""
    k = 'deep', a, b
    if F.deep is None: F.deep = {}
    if k not in F.deep:
        pool = set(); intconsts((a, b), pool)
        F.deep[k] = rand.Sampler(F, voc.sorts, (a, b), seed=7, want=150, tries=220, limit=60000, pool=sorted(pool)).decide(a, b)
    return F.deep[k] is True
BOOLOPS = {'ord', 'eq', 'ieq', 'le', 'not', 'isa', 'threw'}
def boolpairs(a, b, out=None, depth=0):
    """aligned pairs of differing conditions inside two terms"""
    if out is None: out = []
    if a is b or depth > 12 or len(out) > 8: return out
    if isinstance(a, T) and isinstance(b, T):
        if a.op in BOOLOPS or b.op in BOOLOPS:
            if all(x.op in BOOLOPS or isc(x) or x.op in ('init', 'ret') for x in (a, b)): out.append((a, b))
            return out
        if a.op == b.op: boolpairs(a.a, b.a, out, depth + 1)
    elif isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for p, q in zip(a, b): boolpairs(p, q, out, depth + 1)
    return out
CALCTOR = {'day', 'month', 'year', 'weekday', 'year_month_day', 'sys_days', 'time_point', 'local_days'}
def known(t, voc):
    """every operator has a known meaning or belongs to the vocabulary of the contract"""
    for x in subterms(t):
        if x.op in ('call', 'ret'):
            if not ('call:' + x.a[0] in rand.SEM or x.a[0] in voc.fn or x.op == 'ret' and x.a[0] == 'readline'): return False
        elif x.op == 'lv':
            if not voc.lvok: return False
        elif x.op == 'ctor':
            if x.a[0] not in CALCTOR: return False
        elif x.op not in FREE and x.op not in ('struct', 'obj', 'new', 'vec', 'push', 'null', 'get', 'chr2s', 'cstr', 'capacity', 'exc'): return False
    return True
def intlike(t): return t.op in ('poly', 'size', 'iv', 'init', 'sym', 'at', 'imod', 'idiv') or t.op == 'const' and isinstance(t.a[0], int)
def atoms_of(t): return {x for m in poly_of(t)[0] for x in m}

# --------------------------------------------------------------------------------------------------- path comparison
INEV = {'extract', 'ignore', 'get', 'peek', 'getline', 'clear'}
def streamruns(a, b, F, voc):
    """what both sides first do to an input stream: another sequence of reads is a difference when it leaves the stream elsewhere"""
    i = 0
    while i < len(a.ev) and i < len(b.ev) and a.ev[i] == b.ev[i]: i += 1
    if any(x[0] != 'io' for x in a.ev[:i]): return False
    def run(ev):
        j = i
        while j < len(ev) and ev[j][0] == 'io' and ev[j][1] in INEV: j += 1
        return j
    ja, jb = run(a.ev), run(b.ev)
    if ja == i and jb == i: return False
    ls = {x[2] for x in a.ev[:ja] + b.ev[:jb]}
    if len(ls) != 1: return False
    l = ls.pop()
    def final(ev):
        t = T('init', l, 0)
        for x in ev:
            if x[1] == 'extract': t = T('upd', 'extract:' + x[3][0], t, ())
            else: t = T('upd', x[1], t, x[3])
        return t
    d = differs(final(a.ev[:ja]), final(b.ev[:jb]), F, voc)
    if d: return 'reads the stream %s instead of %s' % (', '.join(x[1] for x in a.ev[:ja])[:80], ', '.join(x[1] for x in b.ev[:jb])[:80])
    # the same place is reached by other reads: leave them out of the comparison
    del a.ev[i:ja]; del b.ev[i:jb]
    return d
def effdiff(n, r, F, voc, reads, aspects, depth=0):
    """(verdict, text) for two effect sequences on jointly satisfiable paths"""
    a, b = Effects(n, reads), Effects(r, reads)
    und = False; why = None
    d = streamruns(a, b, F, voc)
    if d: return True, d
    if d is None: und = True; why = 'stream state'
    for i in range(max(len(a.ev), len(b.ev))):
        x = a.ev[i] if i < len(a.ev) else None
        y = b.ev[i] if i < len(b.ev) else None
        if x == y: continue
        if x is None or y is None:
            z = x or y; who = 'missing' if x is None else 'additional'
            if z[0] == 'call' and z[1] in voc.fn: return True, '%s call of %s' % (who, z[1])
            if z[0] == 'call' and z[1].startswith('open:'): return True, '%s %s' % (who, z[1])
            if z[0] == 'out': return True, '%s output %s' % (who, show(z[2])[:80])
            if z[0] == 'io': return True, '%s stream operation %s' % (who, z[2] if len(z) > 2 else '')
            if z[0] == 'loop': return None, 'loop'
            return None, z[0]
        if x[0] != y[0]:
            if x[0] == 'loop' or y[0] == 'loop': return None, 'loop'
            if x[0] in ('call', 'out', 'io') and y[0] in ('call', 'out', 'io') and all(z[0] != 'call' or z[1] in voc.fn for z in (x, y)):
                return True, '%s where the contract has %s' % (evs(x), evs(y))
            return None, x[0]
        if x[0] == 'call':
            if x[1] != y[1]:
                if x[1] in voc.fn and y[1] in voc.fn: return True, 'calls %s where the contract calls %s' % (x[1], y[1])
                return None, 'call'
            d = differs(x[2], y[2], F, voc)
            if d: return True, 'arguments of %s: %s instead of %s' % (x[1], show(x[2])[:120], show(y[2])[:120])
            if d is None: und = True; why = 'args of ' + x[1]
            da, db = dict(x[3]), dict(y[3])
            for k in (set(da) | set(db) if not x[1].startswith('open:') else ()):      # the library does not look at the program's objects
                if k in da and k in db:
                    d = differs(da[k], db[k], F, voc)
                    if d: return True, '%s is %s instead of %s when %s is called' % (show(k)[:60], show(da[k])[:60], show(db[k])[:60], x[1])
                    if d is None: und = True; why = 'pending store'
                else:
                    if not known_loc(k, voc): und = True; continue
                    v = da.get(k, db.get(k))
                    if noop(k, v): continue
                    return True, '%s %s before %s is called' % (show(k)[:60], 'is written' if k in da else 'is not yet written', x[1])
            if x[4] != y[4] and not x[1].startswith('open:'): und = True; why = why or 'pending container'
        elif x[0] == 'out':
            if x[1] is not y[1]:
                return (True if x[1].op == y[1].op == 'glob' else None), 'output stream'
            qa, qb = [z for q in x[2] for z in catseq(q)], [z for q in y[2] for z in catseq(q)]
            d = seqdiff(qa, qb, F, voc)
            if d is not False and not any(z.op == 'manip' for z in qa + qb):
                d2 = differs(T('cat', T('str', ''), T('str', ''), *qa), T('cat', T('str', ''), T('str', ''), *qb), F, voc)
                if d is None or d2 is False: d = d2
            if d: return True, 'outputs %s instead of %s' % (show(x[2])[:120], show(y[2])[:120])
            if d is None: und = True; why = 'output'
        elif x[0] == 'loop':
            d, t = loopdiff(x, y, F, voc, reads, aspects, depth)
            if d: return True, 'in a loop: ' + t
            if d is None: und = True; why = 'loop ' + str(t)
        else:
            d = anyd(differs(p, q, F, voc) for p, q in zip(x[1:], y[1:])) if len(x) == len(y) else None
            if d and x[0] == 'io': return True, 'stream operation %s instead of %s' % (show(x[1:])[:80], show(y[1:])[:80])
            if d and x[0] == 'raised': return True, 'handler for %s where the contract handles %s' % (x[1], y[1])
            if d is not False: und = True; why = x[0]
    for k in set(a.st) | set(b.st):
        if k in a.st and k in b.st:
            d = differs(a.st[k], b.st[k], F, voc)
            if d and any(isc(p) and q.op == 'init' and q.a[0].op == 'fld' and k.op == 'fld' and q.a[0].a[1] == k.a[1] and k.a[1] in voc.sorts.types.get('#const', ())
                         for p, q in ((a.st[k], b.st[k]), (b.st[k], a.st[k]))):
                # a constant member of the new object: the one it is copied from may well have that value in all objects of the class
                und = True; why = 'constant member'; continue
            if d: return True, 'stores %s instead of %s to %s' % (show(a.st[k])[:100], show(b.st[k])[:100], show(k)[:80])
            if d is None: und = True; why = 'store'
        else:
            v = a.st.get(k, b.st.get(k))
            if noop(k, v): continue
            if F is not None and k.op in ('fld', 'deref', 'elem') and fixed(T('init', k, 0), F) is v: continue
            if not known_loc(k, voc): und = True; why = 'store'; continue
            # the other side may write the same object under another name or as part of a whole
            o = b.st if k in a.st else a.st
            if any(related(k, j) for j in o): und = True; why = 'store'; continue
            # which object names a stream that is opened and closed here does not matter
            if v.op == 'new' and v.a and isinstance(v.a[0], T) and v.a[0].op == 'stream' and all(any(e.op == 'io' and e.a[0] == 'close' for e in p) for p in (n, r)): und = True; why = 'stream'; continue
            return True, ('additional' if k in a.st else 'missing') + ' store to ' + show(k)[:80]
    for k in set(a.con) | set(b.con):
        x, y = a.con.get(k), b.con.get(k)
        if x == y: continue
        if x is None or y is None:
            if not known_loc(k, voc): und = True; why = 'container'; continue
            return True, ('missing' if x is None else 'additional') + ' change of ' + show(k)[:80]
        if len(x) != len(y):
            return (True, 'different number of changes of ' + show(k)[:80]) if known_loc(k, voc) and {e.op for e in x} == {e.op for e in y} else (None, 'container')
        d = anyd(True if p.op != q.op else differs(*((p.a[1:], q.a[1:]) if p.a and q.a and p.a[0] is q.a[0] else (p.a, q.a)), F, voc) for p, q in zip(x, y))
        if d: return True, 'changes %s by %s instead of %s' % (show(k)[:60], show(x[-1].a)[:80], show(y[-1].a)[:80])
        if d is None: und = True; why = 'container'
    return (None, why) if und else (False, None)
def evs(e): return e[0] + ' ' + (str(e[1]) if e[0] == 'call' else show(e[2])[:60] if len(e) > 2 else '')
def related(k, j):
    if k.op != j.op: return k.op in ('fld', 'elem') and j in list(subterms(k)) or j.op in ('fld', 'elem') and k in list(subterms(j))
    return k.op in ('fld', 'elem') and k.a[1] is j.a[1] and k.a[1] == j.a[1] or k.op == 'fld' and (j in set(subterms(k)) or k in set(subterms(j))) or k.op == 'deref'
def noop(k, v): return isinstance(v, T) and v.op == 'init' and v.a[0] is k
def known_loc(k, voc):
    if opaque(k, voc): return False
    for x in subterms(k):
        if x.op == 'fld' and x.a[1] not in voc.fld: return False
        if x.op in ('loc', 'heap'): return False
        if x.op == 'ret' and x.a[0] not in voc.fn: return False
    return True

_lp = {}
def loopparts(alts, ex):
    k = (id(alts), id(ex)); r = _lp.get(k)
    if r is None:
        A = []; X = []; rv = set()
        for fs, effs, ch in alts:
            g = lfacts(fs)
            if g is not None: A.append((g, effs, ch, fs)); rv |= set(g.lin) | set(g.ord) | set(g.tv)
        for q, fs in ex:
            g = lfacts(fs)
            if g is not None: X.append((g, q, fs)); rv |= set(g.lin) | set(g.ord) | set(g.tv)
        r = _lp[k] = ((A, X, rv), alts, ex)
    return r[0]
_iv = {}
def ivs_of_(alts, ex):
    k = (id(alts), id(ex)); r = _iv.get(k)
    if r is None: r = _iv[k] = (ivs_of(alts, ex), alts, ex)
    return r[0]
def inloop(z, ev):
    """was this version of a location written by the loop (or later)?"""
    ep, ks = LOOPV.get(T(*ev), (None, ()))
    v = z.a[-1]
    if v[0] in ('c', 'p') or not isinstance(v[0], int): return False
    if ep is not None and v[0] >= ep: return True
    if z.op == 'init': 
        k = fkey(z.a[0])
        return any(k == q and v[1] >= n for q, n in ks)
    return any(kv[0] == q and kv[1] >= n for kv in v[1:] for q, n in ks)
APPENDS = 'the number of elements appended differs: '
def appends(x, p, q, F, voc):
    """a counting loop that appends or prints something in every iteration; with these starts it runs, and not equally often"""
    if F is None or len(x[2]) != 1 or len(x[3]) != 1: return False
    fs, effs, ch = x[2][0]
    if any(t.op != 'Fo' and any(z.op == 'lv' for z in subterms(t)) for t in fs): return False
    grow = any(e.op == 'out' for e in effs)
    for k, v in ch:
        if v.op == 'cat': grow |= v.a[0].op == 'lv' and any(t.op in ('chr2s', 'str') and t.a[0] != '' for t in v.a[1:])
        elif v.op == 'push': grow |= isinstance(v.a[0], T) and v.a[0].op == 'lv'
    if not grow: return False
    g = lfacts(fs)
    if g is None or g.ord or g.tv: return False
    for st in sampler(F, voc, (p.a[1], q.a[1])).stores:
        try:
            a, b = st.ev(p.a[1]), st.ev(q.a[1])
            if a == b: continue
            for s0 in (p.a[1], q.a[1]):
                if all((lo is None or lo <= v) and (hi is None or v <= hi) and v not in ex for L, (lo, hi, ex) in g.lin.items()
                       for v in [st.ev(rewrite(L, lambda t: s0 if t is p else None))]): return True
        except (rand.Unk, rand.Bad, OverflowError, TypeError, ValueError, RecursionError): continue
    return False
def loopdiff(x, y, F, voc, reads, aspects, depth):
    """two loops in the same position: every pair of compatible generic iterations must agree"""
    if depth > 3: return None, 'depth'
    outer = F is None or F.trust
    # same iteration structure: the conditions range over the same generic index
    ia, ib = ivs_of_(x[2], x[3]), ivs_of_(y[2], y[3])
    if ia != ib:
        if len(ia) == len(ib) == 1:
            (p,), (q,) = ia, ib
            z = rewrite(T('L', x[2], x[3]), lambda t: q if t is p else None)
            if (frozenset(z.a[0]), frozenset(z.a[1])) == (frozenset(y[2]), frozenset(y[3])):
                d = differs(p.a[1], q.a[1], F, voc)
                if d and appends(x, p, q, F, voc): return True, APPENDS + 'the index starts at %s instead of %s' % (show(p.a[1])[:60], show(q.a[1])[:60])
                if d: return True, 'the index starts at %s instead of %s' % (show(p.a[1])[:60], show(q.a[1])[:60])
                if d is False and p.a[2] != q.a[2]: return True, 'the index advances by %s instead of %s' % (p.a[2], q.a[2])
        return None, 'iteration variable'
    (A, XA, rva), (B, XB, rvb) = loopparts(x[2], x[3]), loopparts(y[2], y[3])
    # the two loops have something in common: a condition on the generic iteration, or what an iteration does
    if not any(any(z.op in ('iv', 'lv') for z in subterms(k)) for k in rva & rvb) and not {p[1:3] for p in A if p[1] or p[2]} & {q[1:3] for q in B if q[1] or q[2]}:
        return None, 'unrelated loops'
    # iterations under literally the same condition correspond to each other
    cB = {}; cA = {p[3] for p in A}; xA = {p[2] for p in XA}; xB = {p[2] for p in XB}
    for q in B: cB.setdefault(q[3], []).append(q)
    bothc = {p[3] for p in A} & set(cB); bothx = xA & xB
    if F is not None:
        # what is known before the loop: nothing about its own index and carried values
        own = lambda t: any(z.op in ('iv', 'lv') and z.a[0] is x[1] or z.op in ('init', 'ret') and isinstance(z.a[-1], tuple) and (inloop(z, x) or inloop(z, y)) for z in subterms(t))
        F = Facts({k: v for k, v in F.lin.items() if not own(k)}, {k: v for k, v in F.ord.items() if not own(k)}, {k: v for k, v in F.tv.items() if not own(k)})
    rv = set(rvb)
    if F is not None: rv |= voc.atoms
    und = None
    def joint(g1, g2, terms=(), trust=False):
        J = g1.conj(g2)
        if J is None: return None
        if F is not None:
            J2 = J.conj(F)
            if J2 is None: return None
            J = J2
        if J is F: J = J.copy()
        J.smp = (tuple(terms), None); J.trust = trust
        return J
    # an iteration after which one side goes on and the other one leaves
    for P, Q, t in ((A, XB, 'goes on iterating where the contract leaves the loop'), (XA, B, 'leaves the loop where the contract goes on iterating')):
        # first the pairs whose conditions are most alike
        pairs = [(p, q) for p in P if p[-1] not in bothc and p[-1] not in bothx for q in Q if q[-1] not in bothc and q[-1] not in bothx]
        if len(pairs) > 1: pairs.sort(key=lambda pq: len(p_atoms(pq[0]) ^ p_atoms(pq[1])))
        for p, q in pairs:
                gn, gr = (p[0], q[0])
                J = joint(gn, gr)
                if J is None: continue
                if compat(gn, gr, rv, voc, None) is True and not anyopaque(J, voc) and sampler(J, voc).stores: return True, t + ' when ' + '; '.join(gr.items()[:4])[:160]
                und = 'loop exit'
    for gn, en, cn, fsn in A:
        for gr, er, cr, fsr in cB[fsn] if fsn in bothc else B:
            if en == er and cn == cr: continue
            if fsn not in bothc and fsr in bothc: continue
            J = joint(gn, gr, en + er, outer and fsn == fsr)
            if J is None: continue
            d, t = effdiff(en, er, J, voc, reads, aspects, depth + 1)
            if d is False:
                if cn == cr: continue
                if len(cn) != len(cr):
                    und = 'changes'
                    if voc.lvok and {p[0] for p in cn} != {p[0] for p in cr}:
                        un = [p for p in cn + cr if p[0] not in {q[0] for q in (cr if p in cn else cn)}]
                        if all(not opaque(p[1], voc) for p in un): d, t = True, 'loop-carried value changed on one side only'
                else:
                    q = anyd(True if p[0] is not q_[0] and not (opaque(p[0], voc) or opaque(q_[0], voc)) else differs(p[1], q_[1], J, voc) for p, q_ in zip(cn, cr))
                    if q is False: continue
                    d, t = (q, 'loop-carried value') if q and not any(opaque(p[1], voc) for p in cn + cr) else (None, 'changes')
            if d and compat(gn, gr, rv, voc, None) is True and not anyopaque(J, voc) and (J.trust or sampler(J, voc).stores): return True, t
            und = t or 'iteration'
    return (None, und) if und else (False, None)
def p_atoms(p): return p[-1] if isinstance(p[-1], frozenset) else frozenset(p[-1])
def anyopaque(J, voc):
    return any(opaque(x, voc) for x in J.atoms())
def ivs_of(alts, ex=()):
    r = set()
    for alt in alts:
        for s in subterms(alt[0]):
            if s.op == 'iv': r.add(s)
    for k, fs in ex:
        for s in subterms(fs):
            if s.op == 'iv': r.add(s)
    return r

def compat(fn, fr, V, voc, outcome):
    """are the two conditions certainly satisfiable together?  True / None.  (Their conjunction was not refuted.)"""
    At = set(fn.lin) | set(fn.ord) | set(fn.tv)
    new = At - V
    for a in new:
        ts = a if isinstance(a, tuple) else (a,)
        if not all(free(t, voc) for t in ts): return None
        if isinstance(a, T) and a.op == 'eq' and NULL in a.a and fn.tv.get(a): return None
        if isinstance(a, T) and a.op == 'isa': return None
        if isinstance(a, T) and a in fn.lin and any(t.op == 'size' for t in subterms(a)) and outcome in ('throw', 'abort'): return None
    return True

def factkey(f): return (frozenset(f.lin.items()), frozenset(f.ord.items()), frozenset(f.tv.items()))
def same(n, r): return n.kind == r.kind and n.exc == r.exc and n.eff == r.eff and n.val is r.val and n.tok is r.tok and factkey(n.facts) == factkey(r.facts)
class Diff:
    def __init__(self, n, r, text, verdict): self.n = n; self.r = r; self.text = text; self.verdict = verdict
    def loopy(self):
        """does either behaviour pass through a loop?"""
        if APPENDS in self.text: return False
        for p in (self.n, self.r):
            if any(e.op == 'loop' for e in p.eff): return True
            ts = list(p.facts.atoms()) + ([p.val] if isinstance(p.val, T) else [])
            if any(x.op in ('lv', 'iv', 'loop') for t in ts for x in subterms(t)): return True
        return False

def origin(o):
    """the objects a condition is about: the call results or first loaded values it starts from"""
    out = set()
    def go(x, above):
        if not isinstance(x, T): return
        if x.op == 'ret': out.add(x)
        elif x.op == 'sym': out.add(above if above is not None else x)
        elif x.op == 'init': go(x.a[0], x)
        else:
            for y in x.a:
                for z in y if isinstance(y, (tuple, frozenset)) else (y,): go(z, above)
    go(o, None)
    return out
def asmfacts(q, h, i):
    """what the path had established when it relied on its i-th assumption"""
    p = q.raw; c = Canon(h)
    for e in p.st.eff:
        for l in Canon.leaf(e):
            if l.op == 'heap': c.locno(l)
    c.number(p.st.eff, {}); c.memo = {}
    return c.facts(p.st.asm[i][1])[0]
def undefined(N, R, voc, V):
    """a null dereference or division by zero on the current side, under conditions for which the contract defines what happens"""
    cases = {}          # assumption -> paths of the contract on which it does not hold
    mine = {o for n in N for o, h, i in n.asm}
    for r in R:
        if r.facts is None or r.kind == 'abort': continue
        relied = {o for o, h, i in r.asm}
        for t, v in r.facts.tv.items():
            if v is True and t in mine and t not in relied: cases.setdefault(t, []).append((r, r.facts))
    zero = {o.a[0]: o for o in mine if o.op == 'ieq'}
    if zero:
        for r in R:
            if r.facts is None or r.kind == 'abort': continue
            for L in r.facts.lin:
                o = zero.get(L)
                if o is None or any(q is o for q, h, i in r.asm) or r.facts.query(o) is False: continue
                rf = r.facts.assume(o, True)
                if rf is not None: cases.setdefault(o, []).append((r, rf))
    if not cases: return []
    old = set()
    for r in R:
        for o, h, i in r.asm:
            if o in cases:
                f = asmfacts(r, h, i)
                if f is not None: old.add((o, factkey(f)))
    out = []; seen = set(); end = time.time() + 10
    for n in N:
        if n.facts is None: continue
        for o, h, i in n.asm:
            if o not in cases: continue
            if time.time() > end: return out
            f = asmfacts(n, h, i)
            if f is None: continue
            k = (o, factkey(f))
            if k in old or k in seen: continue
            seen.add(k)
            base = origin(o)
            for r, rf in cases[o]:
                if time.time() > end: return out
                J = f.conj(rf)
                if J is None or any(J.query(x) is False for x in r.obl): continue
                # what else the current side has established by then must hold in the contract's case or be about something else
                if any(rf.tv.get(t) is not v for t, v in f.tv.items() if base & set(subterms(t))): continue
                if any(rf.lin.get(L) is None for L in f.lin if base & set(subterms(L))) or any((a, b) not in rf.ord for a, b in f.ord if base & set(subterms((a, b)))): continue
                if compat(f, r.facts, V, voc, n.kind) is not True or not sampler(J, voc).stores: continue
                q = CPath(); q.facts = f; q.kind = 'abort'; q.exc = q.tok = q.val = None; q.eff = (); q.where = n.where; q.raw = n.raw; q.enum = n.enum; q.obl = (); q.asm = []
                out.append(Diff(q, r, '%s where the contract %s (abnormal termination)' % ('dereferences a null pointer' if o.op == 'eq' else 'divides by zero', outcome(r)), True))
                break
            if len(out) >= 5: return out
    return out
def compare(N, R, voc, reads, aspects=frozenset()):
    """all differences between two path sets: [] when equal"""
    ENUM.clear()
    for p in list(N) + list(R): ENUM.update(p.enum)
    V = set()
    for r in R:
        if r.facts is not None: V |= r.atoms()
    loopatoms = set()
    for r in R:
        for e in walk_eff(r.eff):
            if e.op == 'loop':
                for fs in [alt[0] for alt in e.a[1]] + [x[1] for x in e.a[2]]:
                    for t in fs: loopatoms.add((t.a[0], t.a[1]) if t.op == 'Fo' else t.a[0])
    voc.atoms = V | loopatoms
    V = voc.atoms
    voc.lvok = lvs(N) == lvs(R)
    out = undefined(N, R, voc, V); nt = 0
    byk = {}
    for r in R:
        if r.facts is not None: byk.setdefault(factkey(r.facts), []).append(r)
    for n in N:
        if n.facts is None: continue
        fk = factkey(n.facts)
        for r in byk.get(fk, R):
            if r.facts is None: continue
            if same(n, r): continue
            J = n.facts.conj(r.facts)
            if J is None: continue
            if any(J.query(o) is False for o in r.obl): continue      # the contract has no defined behaviour there
            if J is n.facts or J is r.facts: J = J.copy()
            J.trust = fk in byk
            J.smp = (n.eff + r.eff + tuple(x.val for x in (n, r) if isinstance(x.val, T)), None)
            v, t = obsdiff(n, r, J, voc, reads, aspects)
            if v is False: continue
            if v is True and compat(n.facts, r.facts, V, voc, n.kind) is not True: v = None; t = 'conditions outside the vocabulary: ' + t
            if v is True and not J.trust and not sampler(J, voc).stores: v = None; t = 'conditions not jointly satisfiable: ' + t
            if v is True and n.kind == 'abort' and r.kind != 'abort': t += ' (abnormal termination)'
            out.append(Diff(n, r, t, v))
            if v is True:
                nt += 1
                if nt >= 40: return out
    return out

LVS = Collect(lambda x: x if x.op == 'lv' else None)
def lvs(P):
    r = set()
    for p in P:
        r |= LVS(p.eff) | (LVS(p.val) if isinstance(p.val, T) else EMPTY)
        if p.facts is not None:
            for a in p.facts.atoms(): r |= LVS(a)
    return r
def threwset(f): return {t.a[0]: v for t, v in f.tv.items() if t.op == 'threw'}
def obsdiff(n, r, J, voc, reads, aspects):
    tn, tr = threwset(n.facts), threwset(r.facts)
    if tn or tr:
        # a call protected by a handler on one side only: the other side lets the exception propagate
        for a, b, p, q in ((tn, tr, n, r), (tr, tn, r, n)):
            for c, v in a.items():
                if v and c not in b:
                    if any(t.a[0] == c.a[0] for t in b): continue       # protected on both sides, on other arguments
                    if not any(e.op == 'call' and e.a[0] == c.a[0] for e in walk_eff(q.eff)): return None, 'handler'
                    if p.kind == 'throw' and p.exc == 'ANY': return False, None
                    return True, ('catches' if p is n else 'does not catch') + ' what %s raises' % c.a[0]
    if n.kind != r.kind:
        if r.kind == 'abort': return False, None        # the contract leaves that case undefined
        return True, '%s where the contract requires %s' % (outcome(n), outcome(r))
    if n.kind != 'ret':
        if n.exc != r.exc: return True, 'raises %s where the contract requires %s' % (n.exc, r.exc)
        if 'token' in aspects and n.tok is not None and r.tok is not None:
            for x, y in zip(n.tok[:2], r.tok[:2]):
                if isinstance(x, T) and isinstance(y, T) and x.op != 'str' and y.op != 'str':
                    if x.op == 'deref' and y.op == 'deref': x, y = x.a[0], y.a[0]
                    d = differs(x, y, J, voc)
                    if d: return True, 'diagnostic refers to %s instead of %s' % (show(x)[:80], show(y)[:80])
    v, t = effdiff(n.eff, r.eff, J, voc, reads, aspects)
    if v: return v, t
    if n.kind == 'ret' and isinstance(n.val, T) and isinstance(r.val, T):
        d = differs(n.val, r.val, J, voc)
        if d: return True, 'yields %s instead of %s' % (show(n.val)[:160], show(r.val)[:160])
        if d is None: return None, 'value'
    return v, t
def walk_eff(effs):
    for e in effs:
        yield e
        if e.op == 'loop':
            for alt in e.a[1]: yield from walk_eff(alt[1])
def outcome(p): return 'returns' if p.kind == 'ret' else 'terminates abnormally' if p.kind == 'abort' else 'raises ' + str(p.exc)
