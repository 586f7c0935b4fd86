"""Hash-consed terms, linear normal form of integer terms, and the fact domain
(intervals with holes on linear forms, orderings of pairs, truth values of opaque conditions)."""

class T:
    __slots__ = ('op', 'a', 'h', 'id', '__weakref__')
    table = {}
    def __new__(cls, op, *a):
        k = (op, a, a[0].__class__) if op == 'const' else (op, a)
        t = T.table.get(k)
        if t is None:
            t = object.__new__(cls)
            t.op = op; t.a = a; t.h = hash(k); t.id = len(T.table)
            T.table[k] = t
        return t
    def __hash__(self): return self.h
    def __eq__(self, o): return self is o
    def __reduce__(self): return (T, (self.op,) + self.a)
    def __repr__(self): return show(self)

_order = {}
def skey(t, _memo={}):
    """a run-independent total order on terms"""
    if isinstance(t, T):
        r = _memo.get(t)
        if r is None:
            r = '(' + t.op + ' ' + ' '.join(skey(x) for x in t.a) + ')'
            if len(r) > 400:
                import hashlib
                r = r[:200] + hashlib.sha1(r.encode()).hexdigest()
            _memo[t] = r
        return r
    if isinstance(t, tuple):
        return '[' + ' '.join(skey(x) for x in t) + ']'
    return repr(t)

def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple): return '[' + ', '.join(show(x, d+1) for x in t) + ']'
        return repr(t) if isinstance(t, str) else str(t)
    if d > 14: return '…'
    o = t.op; a = t.a
    s = lambda x: show(x, d+1)
    if o == 'const': return str(a[0])
    if o == 'str': return repr(a[0])
    if o == 'null': return 'null'
    if o == 'sym': return str(a[0])
    if o == 'init': return s(a[0]) + ('' if a[1] == 0 else '@%s' % (a[1],))
    if o == 'fld': return s(a[0]) + '.' + a[1].split('::')[-1]
    if o == 'deref': return '*' + s(a[0])
    if o == 'addr': return '&' + s(a[0])
    if o == 'elem': return s(a[0]) + '[' + s(a[1]) + ']'
    if o == 'loc': return '%' + str(a[-1])
    if o == 'poly':
        r = []
        for m, c in a[0]:
            r.append(('' if c == 1 else '%s*' % c) + '*'.join(s(x) for x in m))
        if a[1] or not r: r.append(str(a[1]))
        return '(' + ' + '.join(r) + ')'
    if o == 'le': return s(a[0]) + ' <= ' + str(a[1])
    if o == 'ieq': return s(a[0]) + ' == ' + str(a[1])
    if o == 'not': return '!(' + s(a[0]) + ')'
    if o == 'eq': return s(a[0]) + ' == ' + s(a[1])
    if o == 'ret': return a[0].split('::')[-1] + '(' + ', '.join(s(x) for x in a[1]) + ')' + ('#%s' % (a[2],) if a[2] else '')
    return o + '(' + ', '.join(s(x) for x in a) + ')'

def C(v): return T('const', v)
NULL = T('null')
TRUE = T('const', True); FALSE = T('const', False)
def isc(t): return t.op == 'const'

# ---- polynomials over integer atoms ------------------------------------------------------------
def poly_of(t):
    """term -> (dict monomial->coef, const)"""
    if t.op == 'const': return {}, int(t.a[0])
    if t.op == 'poly': return dict(t.a[0]), t.a[1]
    return {(t,): 1}, 0
def mk_poly(d, c):
    items = sorted(((m, k) for m, k in d.items() if k != 0), key=lambda x: tuple(skey(y) for y in x[0]))
    if not items: return C(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1 and len(items[0][0]) == 1: return items[0][0][0]
    return T('poly', tuple(items), c)
def add(x, y, sx=1, sy=1):
    dx, cx = poly_of(x); dy, cy = poly_of(y)
    d = {m: k*sx for m, k in dx.items()}
    for m, k in dy.items(): d[m] = d.get(m, 0) + k*sy
    return mk_poly(d, cx*sx + cy*sy)
def sub(x, y): return add(x, y, 1, -1)
def mul(x, y):
    dx, cx = poly_of(x); dy, cy = poly_of(y)
    dx = dict(dx); dy = dict(dy)
    if cx: dx[()] = cx
    if cy: dy[()] = cy
    d = {}
    for m, k in dx.items():
        for n, j in dy.items():
            mm = tuple(sorted(m + n, key=skey))
            d[mm] = d.get(mm, 0) + k*j
    c = d.pop((), 0)
    return mk_poly(d, c)
def neg(x): return add(C(0), x, 1, -1)

def canon_lin(p):
    """p (int term) -> (L, const, sign) with p = sign*L + const, L without constant and with positive leading coef"""
    d, c = poly_of(p)
    if not d: return None, c, 1
    L = mk_poly(d, 0)
    items = sorted(d.items(), key=lambda x: tuple(skey(y) for y in x[0]))
    s = 1 if items[0][1] > 0 else -1
    if s < 0: L = mk_poly({m: -k for m, k in d.items()}, 0)
    # divide by gcd when const allows is not needed
    return L, c, s

def cmp_int(op, x, y):
    """condition term for x op y over mathematical integers"""
    p = sub(x, y)
    L, c, s = canon_lin(p)
    if L is None:
        v = {'<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0, '==': c == 0, '!=': c != 0}[op]
        return TRUE if v else FALSE
    if c == 0 and L.op == 'call' and L.a[0] in ('strcmp', 'compare') and len(L.a[1]) == 2:
        # three-way comparisons of strings against zero
        if s < 0: op = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}.get(op, op)
        return cmp_any(op, *L.a[1])
    # s*L + c op 0
    if op in ('==', '!='):
        k = -c*s
        if k == 0 and L.op == 'at' and L.a[0].op == 'ret' and L.a[1].op == 'const' and L.a[1].a[0] == 0:
            # the first character of a C string
            return cmp_any(op, L.a[0], T('str', ''))
        t = T('ieq', L, k)
        return t if op == '==' else NOT(t)
    if s < 0:
        # -L + c op 0  <=> L flip(op) c
        op = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}[op]; k = c
    else: k = -c
    # L op k
    if op == '<=': return T('le', L, k)
    if op == '<': return T('le', L, k-1)
    if op == '>': return NOT(T('le', L, k))
    if op == '>=': return NOT(T('le', L, k-1))

def NOT(t):
    if t.op == 'not': return t.a[0]
    if t.op == 'const': return FALSE if t.a[0] else TRUE
    return T('not', t)

def cmp_any(op, x, y):
    """ordering of two non-integer values (floats, strings, dates...)"""
    if x.op == 'call' and x.a[0] == 'op<=>' and y.op == 'ctor' and y.a[0] == '__unspec': x, y = x.a[1]      # (x <=> y) op 0
    elif y.op == 'call' and y.a[0] == 'op<=>' and x.op == 'ctor' and x.a[0] == '__unspec': x, y = y.a[1]
    if op in ('==', '!='):
        if x is y: r = TRUE
        elif isc(x) and isc(y): r = TRUE if x.a == y.a else FALSE
        elif x.op == 'str' and y.op == 'str': r = TRUE if x.a == y.a else FALSE
        else:
            for a, b in ((x, y), (y, x)):
                if b.op == 'str' and b.a[0] == '' and a.op in ('init', 'ret', 'sym', 'lv', 'proj', 'at', 'get', 'line', 'without'): return cmp_int(op, T('size', a), C(0))
            a, b = sorted((x, y), key=skey)
            r = T('ord', a, b, '=')
        return r if op == '==' else NOT(r)
    if isc(x) and isc(y):
        v = {'<': x.a[0] < y.a[0], '<=': x.a[0] <= y.a[0], '>': x.a[0] > y.a[0], '>=': x.a[0] >= y.a[0]}[op]
        return TRUE if v else FALSE
    a, b = sorted((x, y), key=skey)
    if a is not x: op = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}[op]
    # a op b
    return T('ord', a, b, {'<': '<', '<=': '<=', '>': '>', '>=': '=>'}[op])
ORD = {'=': frozenset('='), '<': frozenset('<'), '<=': frozenset('<='), '>': frozenset('>'), '=>': frozenset('=>')}
ALLORD = frozenset('<=>')

def eq_ptr(x, y):
    if x is y: return TRUE
    if x.op == 'null' or y.op == 'null':
        o = y if x.op == 'null' else x
        if o.op in ('addr', 'fn', 'lambda', 'str', 'iter'): return FALSE
        if o.op == 'const': return TRUE if not o.a[0] else FALSE
        return T('eq', o, NULL)
    if x.op == 'addr' and y.op == 'addr':
        if distinct(x.a[0], y.a[0]): return FALSE
    a, b = sorted((x, y), key=skey)
    return T('eq', a, b)

def root(l):
    while l.op in ('fld', 'elem'): l = l.a[0]
    return l
def fresh_root(r): return r.op in ('loc', 'heap')
def distinct(l1, l2):
    r1, r2 = root(l1), root(l2)
    if r1 is not r2 and (fresh_root(r1) or fresh_root(r2)): return True
    if r1 is r2 and fresh_root(r1):
        # same object, different plain fields
        if l1.op == 'fld' and l2.op == 'fld' and l1.a[0] is l2.a[0] and l1.a[1] != l2.a[1]: return True
    if r1.op == 'glob' and r2.op == 'glob' and r1 is not r2: return True
    return False

LOOPV = {}      # loop summaries -> the versions of the locations an iteration may have written
ENUM = {}       # terms of enumeration type -> (least, greatest enumerator)
EQS = frozenset('=')
class Facts:
    __slots__ = ('lin', 'ord', 'tv', 'smp', 'trust', 'deep')
    def __init__(self, lin=None, ord=None, tv=None):
        self.lin = lin or {}; self.ord = ord or {}; self.tv = tv or {}; self.smp = None; self.trust = False; self.deep = None
    def copy(self): return Facts(dict(self.lin), dict(self.ord), dict(self.tv))
    NOB = (None, None, frozenset())
    def bounds(self, L):
        lo, hi, ex = self.lin.get(L, Facts.NOB)
        # non-negativity by shape
        if lo is None or lo < 0:
            if nonneg(L): lo = 0 if lo is None or lo < 0 else lo
        if ENUM and L in ENUM:
            a, b = ENUM[L]
            if lo is None or lo < a: lo = a
            if hi is None or hi > b: hi = b
        return lo, hi, ex
    def query(self, t):
        if t.op == 'const': return bool(t.a[0])
        if t.op == 'not':
            r = self.query(t.a[0]); return None if r is None else not r
        if t.op == 'le':
            lo, hi, ex = self.bounds(t.a[0]); k = t.a[1]
            if hi is not None and hi <= k: return True
            if lo is not None and lo > k: return False
            return self._diff(t.a[0], k)
        if t.op == 'ieq':
            lo, hi, ex = self.bounds(t.a[0]); k = t.a[1]
            if k in ex: return False
            if lo is not None and lo > k: return False
            if hi is not None and hi < k: return False
            if lo is not None and lo == hi == k: return True
            return None
        if t.op == 'ord':
            s = self.ord.get((t.a[0], t.a[1]), ALLORD); w = ORD[t.a[2]]
            if s is ALLORD: s = self.strord(t.a[0], t.a[1])
            if s <= w: return True
            if not (s & w): return False
            return None
        v = self.tv.get(t)
        if v is None and t.op == 'call' and t.a[0] == 'starts_with' and len(t.a[1]) == 2 and t.a[1][1].op == 'str':
            x, l = t.a[1][0], t.a[1][1].a[0]
            e = self.streq(x)
            if e is not None: return e.startswith(l)
            b = self.lin.get(T('size', x))
            if b and b[1] is not None and b[1] < len(l): return False
        return v
    def streq(self, x):
        """the literal a string is known to equal"""
        for (p, q), s in self.ord.items():
            if s == EQS and (p is x and q.op == 'str' or q is x and p.op == 'str'): return (q if p is x else p).a[0]
        return None
    def _strlen(self, x):
        """what is known about a string: its length, a prefix, the literal it equals, what remains without a character"""
        if x.op in ('without', 'cstr'): x = x.a[0]
        e = self.streq(x); pre = ''
        b = self.lin.get(T('size', x), Facts.NOB); lo, hi = b[0] or 0, b[1]
        for t, v in self.tv.items():
            if t.op == 'call' and t.a[0] == 'starts_with' and len(t.a[1]) == 2 and t.a[1][0] is x and t.a[1][1].op == 'str':
                l = t.a[1][1].a[0]
                if v:
                    if e is not None and not e.startswith(l) or not (l.startswith(pre) or pre.startswith(l)): return False
                    if len(l) > len(pre): pre = l
                elif e is not None and e.startswith(l): return False
        for (p, q), o in self.ord.items():
            if '=' in o: continue
            for f, z in ((p, q), (q, p)):
                if f.op == 'call' and f.a[0] == 'find' and z.op == 'sym' and z.a[0] == 'npos' and len(f.a[1]) == 2 and f.a[1][0] is x:
                    # it contains that
                    w = f.a[1][1]
                    w = w.a[0] if w.op == 'str' else chr(w.a[0] & 255) if w.op == 'const' and isinstance(w.a[0], int) else ''
                    if e is not None and w not in e: return False
                    if len(w) > len(pre): pre = w
        if e is not None:
            if not lo <= len(e) or hi is not None and len(e) > hi or len(e) in b[2]: return False
        if hi is not None and hi < len(pre): return False
        for L, (l2, h2, _) in self.lin.items():
            if L.op == 'size' and L.a[0].op == 'without' and L.a[0].a[0] is x and L.a[0].a[1].op == 'const':
                if l2 is not None and l2 > 0 and (hi == 0 or hi is not None and l2 > hi): return False
                if h2 == 0 and (e or pre).replace(chr(L.a[0].a[1].a[0] & 255), ''): return False
        return True
    def strord(self, a, b):
        """order of a string known to equal a literal against another literal"""
        for x, c, flip in ((a, b, False), (b, a, True)):
            if c.op == 'str' and x.op != 'str':
                for (p, q), s in self.ord.items():
                    if s == EQS and (p is x and q.op == 'str' or q is x and p.op == 'str'):
                        v = (q if p is x else p).a[0]
                        r = '=' if v == c.a[0] else '<' if v < c.a[0] else '>'
                        return frozenset({'<': '>', '>': '<', '=': '='}[r] if flip else r)
        return ALLORD
    def _strcheck(self, k):
        """a string equal to one literal: its recorded relations to other literals"""
        x, c = (k[0], k[1]) if k[1].op == 'str' else (k[1], k[0])
        if c.op != 'str': return True
        for (p, q), s in self.ord.items():
            if (p, q) == k: continue
            for y, d, flip in ((p, q, False), (q, p, True)):
                if y is x and d.op == 'str':
                    r = '=' if c.a[0] == d.a[0] else '<' if c.a[0] < d.a[0] else '>'
                    if flip: r = {'<': '>', '>': '<', '=': '='}[r]
                    if r not in s: return False
        return True
    def _diff(self, L, k):
        """interval arithmetic: bound L from bounds of its monomials"""
        if L.op != 'poly': return None
        lo = 0; hi = 0
        for m, c in L.a[0]:
            if len(m) != 1: return None
            l, h, _ = self.bounds(m[0])
            if c < 0: l, h = h, l
            lo = None if lo is None or l is None else lo + c*l
            hi = None if hi is None or h is None else hi + c*h
        if hi is not None and hi <= k: return True
        if lo is not None and lo > k: return False
        return None
    def assume(self, t, v=True):
        """returns new Facts or None when contradictory"""
        while t.op == 'not': t = t.a[0]; v = not v
        q = self.query(t)
        if q is not None: return self if q == v else None
        f = self.copy()
        if t.op in ('le', 'ieq'):
            L, k = t.a
            lo, hi, ex = self.bounds(L)
            if t.op == 'le':
                if v: hi = k
                else: lo = k+1
            elif v: lo = hi = k; ex = frozenset()
            else: ex = ex | {k}
            while lo is not None and lo in ex: ex = ex - {lo}; lo += 1
            while hi is not None and hi in ex: ex = ex - {hi}; hi -= 1
            if lo is not None and hi is not None and lo > hi: return None
            ex = frozenset(e for e in ex if (lo is None or e > lo) and (hi is None or e < hi))
            f.lin[L] = (lo, hi, ex)
            if L.op == 'size' and not f._strlen(L.a[0]): return None
            if lo == hi and lo is not None: return f._propagate()
        elif t.op == 'ord':
            k = (t.a[0], t.a[1]); s = self.ord.get(k, ALLORD); w = ORD[t.a[2]]
            s = s & w if v else s - w
            if not s: return None
            f.ord[k] = s
            if s == EQS and (not f._strcheck(k) or k[1].op == 'str' and not f._strlen(k[0]) or k[0].op == 'str' and not f._strlen(k[1])): return None
            for x in k:
                if x.op == 'call' and x.a[0] == 'find' and '=' not in s and x.a[1] and not f._strlen(x.a[1][0]): return None
        else:
            f.tv[t] = v
            if t.op == 'call' and t.a[0] == 'starts_with' and not f._strlen(t.a[1][0]): return None
        return f
    def _propagate(self):
        # check polys whose monomials are all fixed
        for L, (lo, hi, ex) in list(self.lin.items()):
            if L.op == 'poly':
                tot = 0
                for m, c in L.a[0]:
                    p = c
                    for x in m:
                        b = self.lin.get(x)
                        if not b or b[0] is None or b[0] != b[1]: p = None; break
                        p *= b[0]
                    if p is None: tot = None; break
                    tot += p
                if tot is not None:
                    if (lo is not None and tot < lo) or (hi is not None and tot > hi) or tot in ex: return None
        return self
    def value(self, t):
        """constant value of an int term if fixed"""
        if t.op == 'const': return t.a[0]
        b = self.lin.get(t)
        if b and b[0] is not None and b[0] == b[1]: return b[0]
        return None
    def conj(self, o):
        """conjunction with another Facts; None if contradictory"""
        f = self
        for L, (lo, hi, ex) in o.lin.items():
            if lo is not None:
                f = f.assume(T('le', L, lo-1), False)
                if f is None: return None
            if hi is not None:
                f = f.assume(T('le', L, hi), True)
                if f is None: return None
            for e in ex:
                f = f.assume(T('ieq', L, e), False)
                if f is None: return None
        for k, s in o.ord.items():
            s2 = f.ord.get(k, ALLORD) & s
            if not s2: return None
            if s2 != f.ord.get(k):
                if not s2 & f.strord(*k): return None
                f = f.copy(); f.ord[k] = s2
                if s2 == EQS and (not f._strcheck(k) or k[1].op == 'str' and not f._strlen(k[0]) or k[0].op == 'str' and not f._strlen(k[1])): return None
        for t, v in o.tv.items():
            f = f.assume(t, v)
            if f is None: return None
        return f._propagate()
    def items(self):
        r = []
        for L, (lo, hi, ex) in self.lin.items():
            if lo is not None and lo == hi: r.append('%s == %d' % (show(L), lo))
            else:
                if lo is not None: r.append('%s >= %d' % (show(L), lo))
                if hi is not None: r.append('%s <= %d' % (show(L), hi))
                for e in sorted(ex): r.append('%s != %d' % (show(L), e))
        for (a, b), s in self.ord.items(): r.append('%s %s %s' % (show(a), '/'.join(sorted(s)), show(b)))
        for t, v in self.tv.items(): r.append(('' if v else '!') + show(t))
        return r
    def atoms(self):
        for L in self.lin: yield L
        for a, b in self.ord: yield a; yield b
        for t in self.tv: yield t

def nonneg(t):
    if t.op in ('size',): return True
    if t.op == 'iv': return True if t.a[1].op == 'const' and t.a[1].a[0] >= 0 and t.a[2] > 0 else False
    if t.op == 'const': return t.a[0] >= 0
    if t.op == 'u': return True
    if t.op == 'poly': return t.a[1] >= 0 and all(c > 0 and all(nonneg(x) for x in m) for m, c in t.a[0])
    return False

def subterms(t, seen=None):
    if seen is None: seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x in seen: continue
            seen.add(x); yield x
            st.extend(x.a)
        elif isinstance(x, (tuple, frozenset)): st.extend(x)

class Collect:
    """the subterms with a property, remembered per term"""
    def __init__(self, pick): self.pick = pick; self.memo = {}
    def __call__(self, t):
        if isinstance(t, T):
            r = self.memo.get(t)
            if r is None:
                r = self(t.a); x = self.pick(t)
                if x is not None and x not in r: r = r | {x}
                self.memo[t] = r
            return r
        r = EMPTY
        if isinstance(t, (tuple, frozenset)):
            for y in t:
                if isinstance(y, (T, tuple, frozenset)):
                    z = self(y)
                    if z and z is not r: r = r | z if r else z
        return r
EMPTY = frozenset()

def rewrite(t, f, memo=None):
    """bottom-up rewriting; f(term)->term or None"""
    if memo is None: memo = {}
    def go(x):
        if isinstance(x, T):
            r = memo.get(x)
            if r is None:
                y = f(x)
                if y is not None and y is not x:
                    memo[x] = y; return y
                na = tuple(go(z) for z in x.a)
                if na != x.a:
                    if x.op == 'poly': r = rebuild_poly(na)
                    else: r = T(x.op, *na)
                else: r = x
                memo[x] = r
            return r
        if isinstance(x, tuple): return tuple(go(z) for z in x)
        if isinstance(x, frozenset): return frozenset(go(z) for z in x)
        return x
    return go(t)
def rebuild_poly(na):
    d = {}
    cst = na[1]
    r = C(cst)
    for m, c in na[0]:
        p = C(c)
        for x in m: p = mul(p, x)
        r = add(r, p)
    return r
