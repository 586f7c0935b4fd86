"""Random interpretation of path summaries (Gulwani & Necula): terms and path conditions are evaluated in an abstract store that
assigns values to their free symbols; operators with a known meaning are computed, everything else is an uninterpreted function.
Two terms that evaluate differently in a store satisfying both path conditions denote different values; nothing of /repo is run."""
import math, random, re
from .terms import *

class Unk(Exception): pass
class Bad(Exception): pass

IPOOL = [0, 1, 2, 3, 4, 5, 7, 10, 12, 13, 31, 32, 59, 60, 64, 65, 90, 97, 100, 122, 127, 255, 1000, -1, -2, -3, -5, -7, -64, 2**31 - 1, 2**31, -2**31, 2**53 + 1, 2**63 - 1, -2**63, 1 << 40]
FPOOL = [0.0, 1.0, 0.5, -0.5, 1.5, 2.5, -2.5, 3.0, -1.0, 7.25, 100.0, 1e10, -1e10, 1e300, 9007199254740993.0, 0.1, 2.999999999, 1e19]
SPOOL = ['', 'a', 'A', 'ab', 'Ab1', '12', '-3', '1.5', 'TRUE', 'x y', ' ', 'zz', 'hello', '1/2/2020', '\n', 'a,b', '"q"', 'Hello World']
NUMS = ['0', '7', '-3', '12', '010', '0x1F', '1.5', '-2.25', '.5', '5.', '1e3', '+4', ' 8', '8 ', '12ab', '1.5.2', '-', '99999999999999999999', '1e400', 'nan', 'inf', '--1', '-0', '007', '1,5', '1 2', 'x1']
INTT = {'int', 'long', 'short', 'unsigned int', 'unsigned long', 'unsigned short', 'long long', 'unsigned long long', 'signed char', 'unsigned char', 'char', '__int64_t'}

SEM = {}
def sem(*names):
    def d(f):
        for n in names: SEM[n] = f
        return f
    return d
def isint(x): return isinstance(x, int)
def num(x):
    if isinstance(x, bool): return int(x)
    if isinstance(x, (int, float)): return x
    raise Unk()
def flt(x):
    if isinstance(x, (int, float)): return float(x)
    raise Unk()
def wrap(x, bits, signed):
    x &= (1 << bits) - 1
    if signed and x >> (bits - 1): x -= 1 << bits
    return x

def strelem(st, t):
    """the value of an element of a string is a character of that string's value"""
    b = t.a[0].a[0]
    if b.op == 'deref' and isinstance(t.a[0].a[1], T) and (b.a[0].op == 'cstr' or b.a[0].op in ('init', 'ret') and st.sorts(b.a[0]) == 's'): return T('at', b.a[0], t.a[0].a[1])
    if b.op == 'deref' and b.a[0].op == 'call' and b.a[0].a[0] in ENDFN: return T('endchar', b.a[0], t.a[0].a[1] if isinstance(t.a[0].a[1], T) else C(t.a[0].a[1]))
    if b.op != 'elem' and isinstance(t.a[0].a[1], T) and st.sorts(T('init', b, t.a[1])) == 's': return T('at', T('init', b, t.a[1]), t.a[0].a[1])

NUMFN = {'strtol', 'strtod', 'strtoll', 'strtof', 'strtoul', 'strtold', 'strtoull', 'stol', 'stod', 'stoul', 'stoi', 'stoll', 'stoull', 'stof', 'stold', 'atoi', 'atol', 'atoll', 'atof'}
ENDFN = {x + '.end' for x in NUMFN}
class Store:
    pool = (); templ = (); nums = False
    def __init__(self, rng, sorts, forced=None):
        self.rng = rng; self.sorts = sorts; self.mem = {}; self.memo = {}; self.np = 0; self.deps = None
    # -------------------------------------------------------------------- free symbols and uninterpreted functions
    def fresh(self, t):
        if t.op in ('fld', 'deref', 'elem', 'glob', 'obj', 'struct', 'new', 'vec', 'push', 'addr', 'addrof'):
            self.np += 1
            return ('#', self.np)
        s = self.sorts(t); r = self.rng
        if t in ENUM: return r.randint(*ENUM[t])
        if self.pool and r.random() < .35:
            v = r.choice(self.pool)
            if s == 'n' or s in 'ue' and 0 <= v < 2 ** 31 or s == 'c' and -128 <= v < 128: return v
            if s == 'f': return float(v)
            if s == 'd': return r.choice([('ymd', v & 32767, r.randrange(1, 13), r.randrange(1, 29)), ('ymd', 2021, v & 15, 7), ('ymd', 2021, 3, v & 31)])
        if s == 'b': return r.random() < .5
        if s == 'n': return r.choice(IPOOL) if r.random() < .8 else r.randrange(-1000, 1000)
        if s == 'c': return r.choice([0, 32, 48, 57, 65, 66, 90, 97, 98, 122, 10, 34, 46, 95, 127]) if r.random() < .85 else r.randrange(128) if r.random() < .6 else r.choice([-1, -23, -61, -128])
        if s == 'u': return r.choice([0, 1, 2, 3, 4, 5, 7, 12, 31, 100])
        if s == 'e': return r.randrange(0, 60) if r.random() < .5 else r.randrange(0, 6)
        if s == 'f': return r.choice(FPOOL) if r.random() < .8 else r.uniform(-50, 50)
        if s == 's': return r.choice(NUMS if self.nums and r.random() < .8 else SPOOL)
        if s == 'd': return ('ymd',) + r.choice(DPOOL) if r.random() < .7 else ('ymd', r.randrange(1990, 2030), r.randrange(1, 13), r.randrange(1, 32))
        self.np += 1
        return ('#', self.np)
    def unint(self, t, args):
        k = (t.op,) + args
        if k not in self.mem: self.mem[k] = self.fresh(t)
        return self.mem[k]
    def key(self, t): return (t.op,) + tuple(self.arg(x) for x in t.a)
    def arg(self, x):
        if isinstance(x, T): return self.ev(x)
        if isinstance(x, (tuple, list)): return tuple(self.arg(y) for y in x)
        if isinstance(x, frozenset): return frozenset(self.arg(y) for y in x)
        return x
    def ev(self, t):
        m = self.memo.get(t)
        if m is None:
            m = self._ev(t)
            self.memo[t] = m
        return m
    def _ev(self, t):
        o = t.op; a = t.a
        if o == 'const': return a[0]
        if o == 'str': return a[0]
        if o == 'null': return None
        if o == 'poly':
            tot = a[1]
            for m, c in a[0]:
                p = c
                for x in m:
                    v = num(self.ev(x))
                    p *= v
                tot += p
            return tot
        if o == 'le':
            return num(self.ev(a[0])) <= a[1]
        if o == 'ieq': return num(self.ev(a[0])) == a[1]
        if o == 'not':
            return not self.truth(self.ev(a[0]))
        if o == 'ord':
            x, y = self.ev(a[0]), self.ev(a[1])
            c = self.cmp(x, y)
            return c in ORD[a[2]]
        if o == 'eq':
            x, y = self.ev(a[0]), self.ev(a[1])
            if x is None or y is None: return x is y
            return x == y
        if o in ('?', 'uninit', 'lambda'): raise Unk()
        if o == 'sym' and a[0] == 'npos': return 2**64 - 1
        if o == 'init' and a[0].op == 'elem':
            n = strelem(self, t)
            if n is not None: return self.ev(n)
        f = SEM.get(o)
        if f is not None:
            args = tuple(self.arg(x) for x in a)
            r = f(self, t, args)
            if r is not None: return r
            return self.unint(t, args)
        if o == 'call':
            args = tuple(self.arg(x) for x in a[1])
            f = SEM.get('call:' + a[0])
            if f is not None:
                r = f(self, t, args)
                if r is not None: return r
            return self.unint(t, (a[0], args))
        return self.unint(t, tuple(self.arg(x) for x in a))
    def truth(self, v):
        if isinstance(v, bool): return v
        if isinstance(v, (int, float)): return v != 0
        if v is None: return False
        if isinstance(v, tuple): return True
        raise Unk()
    def cmp(self, x, y):
        if isinstance(x, (bool, int, float)) and isinstance(y, (bool, int, float)) or isinstance(x, str) and isinstance(y, str):
            return '<' if x < y else '>' if x > y else '='
        if x == y: return '='
        if isinstance(x, tuple) and isinstance(y, tuple):
            if x[:1] == y[:1] and x[0] in ('ymd', 'year', 'month', 'day'): return '<' if x < y else '>'
            k = ('cmp', x, y) if repr(x) < repr(y) else ('cmp', y, x)
            v = self.mem.get(k)
            if v is None: v = self.mem[k] = self.rng.choice('<>')
            return v if k[1] is x or k[1] == x else {'<': '>', '>': '<'}[v]
        raise Unk()

# ------------------------------------------------------------------------------------------------------ input streams
WS = ' \t\n\v\f\r'
STMPOOL = ['', ' ', '\n', 'a', 'ab c', 'abc\ndef\n', 'abc\ndef', '\n\nx', '5', '-12 7 x', '12', '3 a\n#b', '3 abc', '2 a', '4 a#b\n', '1.5', '2.', '1e3 4', '0 0 0', '29 2 2023',
           '29 2 2024', '31 12 1999 5', '40 1 2000', '1 13 2000', '12 12 99999', 'Season 2', 'Season 9', 'Rec INTEGER 5', '3 INTEGER 1 INTEGER 2 INTEGER 3', '\n# x', '\n#', '#', ' a', ' \n#z',
           'TRUE', '1', '0', 'REAL 2.5 CHAR x', '#a\nb', 'x\r\ny\n', '99999999999999999999', '-1', '1 -2 3']
INOPS = ('ignore', 'get', 'peek', 'getline', 'clear', 'unget')
def templates(J, terms):
    """what the terms read from a stream, in order: content for which these reads succeed"""
    best = {}
    eqs = {}
    for (x, y), o in J.ord.items():
        for p, q in ((x, y), (y, x)):
            if p.op == 'rd' and q.op == 'str' and o == EQS_: eqs[p] = q.a[0]
    for t in terms:
        for u in subterms(t):
            if u.op not in ('upd', 'rd', 'line'): continue
            ops = []; b = u
            if u.op == 'rd': ops.append(('x', u.a[0], eqs.get(u))); b = u.a[1]
            elif u.op == 'line': ops.append(('l', None, None)); b = u.a[0]
            while isinstance(b, T) and b.op == 'upd' and isinstance(b.a[0], str):
                f = b.a[0]; b = b.a[1]
                if f.startswith('extract:'): ops.append(('x', f[8:], eqs.get(T('rd', f[8:], b))))
                elif f == 'getline': ops.append(('l', None, None))
                elif f in ('get', 'ignore'): ops.append(('g', None, None))
            if ops and len(ops) > len(best.get(b, ())): best[b] = ops[::-1]
    return list(best.values())
EQS_ = frozenset('=')
def wanted(st, ops):
    r = st.rng; out = ''
    for o, k, fx in ops:
        if o == 'l': out += r.choice(['', 'abc', 'x y', '12', 'a b c']) + '\n'
        elif o == 'g': out += r.choice([' ', '\n', ' ', 'x'])
        else:
            if out and out[-1] not in WS: out += r.choice([' ', ' ', '\n'])
            if fx is not None: out += fx
            elif k == 'string': out += r.choice(['ab', 'x', 'INTEGER', 'REAL', 'STRING', 'CHAR', 'BOOLEAN', 'DATE', 'TRUE', 'FALSE', '7', 'Season'])
            elif 'char' in k: out += r.choice('xA0"\'#')
            elif k in ('double', 'float', 'PSC::real_t', 'real_t', 'long double'): out += r.choice(['0', '1.5', '-2.25', '1e3', '7', '100'])
            elif k in RANGE:
                v = r.choice(st.pool) if st.pool and r.random() < .4 else r.choice([0, 1, 2, 3, 5, 7, 12, 13, 28, 29, 30, 31, 32, 100, 1999, 2000, 2024])
                if RANGE[k][0] < 0 and r.random() < .15: v = -v
                out += str(v)
    if r.random() < .5: out += r.choice(['\n', ' ', ' x', '\n5', ' 3'])
    return out
def newstm(st):
    r = st.rng
    if st.templ and r.random() < .75: return (wanted(st, r.choice(st.templ)), r.random() < .03)
    x = r.choice(STMPOOL) if r.random() < .7 else ' '.join(r.choice(['5', 'x', '-3', '1.5', 'Season', '\n', '#', 'INTEGER', 'STRING', '3', 'ab', '0']) for _ in range(r.randrange(1, 6)))
    return (x, r.random() < .06)
def stm(st, v):
    """state of an input stream: ('stm', content, position, eof, fail, source)"""
    if isinstance(v, tuple) and v and v[0] == 'stm': return v
    if v is None: raise Bad()
    k = ('stm', v)
    if k not in st.mem: st.mem[k] = newstm(st)
    x, f = st.mem[k]
    return ('stm', x, 0, False, f, v)
INTRE = re.compile(r'[+-]?\d+'); FLTRE = re.compile(r'[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?')
RANGE = {'long': (-2**63, 2**63 - 1), 'int': (-2**31, 2**31 - 1), 'short': (-2**15, 2**15 - 1), 'unsigned long': (0, 2**64 - 1), 'size_t': (0, 2**64 - 1), 'std::size_t': (0, 2**64 - 1), 'unsigned int': (0, 2**32 - 1),
         'long long': (-2**63, 2**63 - 1), 'unsigned long long': (0, 2**64 - 1), 'PSC::int_t': (-2**63, 2**63 - 1), 'int_t': (-2**63, 2**63 - 1)}
def extract(v, k):
    """(value or None when the target is left alone, new state)"""
    _, x, p, eof, fail, src = v
    if eof or fail: return None, ('stm', x, p, eof, True, src)
    while p < len(x) and x[p] in WS: p += 1
    if p >= len(x): return None, ('stm', x, p, True, True, src)
    if k == 'string':
        q = p
        while q < len(x) and x[q] not in WS: q += 1
        return x[p:q], ('stm', x, q, q >= len(x), False, src)
    if k in ('char', 'unsigned char', 'signed char'): return ord(x[p]), ('stm', x, p + 1, False, False, src)
    if k in ('double', 'float', 'PSC::real_t', 'real_t', 'long double'):
        m = FLTRE.match(x, p)
        if not m: return 0.0, ('stm', x, p + (x[p] in '+-.'), p + (x[p] in '+-.') >= len(x), True, src)
        q = m.end()
        if q < len(x) and x[q] in 'eE': return 0.0, ('stm', x, q + 1, q + 1 >= len(x), True, src)
        return float(m.group()), ('stm', x, q, q >= len(x), False, src)
    if k in RANGE:
        m = INTRE.match(x, p)
        if not m: return 0, ('stm', x, p + (x[p] in '+-'), p + (x[p] in '+-') >= len(x), True, src)
        n = int(m.group()); lo, hi = RANGE[k]; q = m.end()
        if lo == 0 and n < 0 and n >= -hi: n += hi + 1
        if not lo <= n <= hi: return (hi if n > 0 else lo), ('stm', x, q, q >= len(x), True, src)
        return n, ('stm', x, q, q >= len(x), False, src)
    raise Unk()
def unformatted(v, fn, a):
    """(result, new state)"""
    _, x, p, eof, fail, src = v
    if fn == 'clear': return None, ('stm', x, p, False, False, src)
    good = not eof and not fail
    if fn == 'peek':
        if not good: return -1, v
        if p >= len(x): return -1, ('stm', x, p, True, fail, src)
        return ord(x[p]), v
    if not good: return -1, ('stm', x, p, eof, fail if fn == 'ignore' else True, src)
    if fn == 'get':
        if p >= len(x): return -1, ('stm', x, p, True, True, src)
        return ord(x[p]), ('stm', x, p + 1, False, False, src)
    if fn == 'unget': return None, ('stm', x, max(0, p - 1), False, p == 0, src)
    if fn == 'ignore':
        n = num(a[0]) if a else 1; d = num(a[1]) if len(a) > 1 else None
        while n > 0:
            if p >= len(x): return None, ('stm', x, p, True, False, src)
            p += 1; n -= 1
            if d is not None and ord(x[p - 1]) == d: break
        return None, ('stm', x, p, False, False, src)
    raise Unk()
def getline(v, d):
    _, x, p, eof, fail, src = v
    if eof or fail: return None, ('stm', x, p, eof, True, src)
    if p >= len(x): return '', ('stm', x, p, True, True, src)
    q = x.find(chr(d & 255), p)
    if q < 0: return x[p:], ('stm', x, len(x), True, False, src)
    return x[p:q], ('stm', x, q + 1, False, False, src)
@sem('rd')
def _(s, t, a):
    if a[0] == 'bytes': return None
    r = extract(stm(s, a[1]), a[0])[0]
    if r is None: raise Unk()
    return r
@sem('line')
def _(s, t, a):
    r = getline(stm(s, a[0]), num(a[1]))[0]
    if r is None: raise Unk()
    return r
@sem('upd')
def _(s, t, a):
    f = a[0]
    if not isinstance(f, str): return None
    if f.startswith('extract:'): return extract(stm(s, a[1]), f[8:])[1]
    if f == 'getline': return getline(stm(s, a[1]), num(a[2][0]))[1] if len(a[2]) == 1 else None
    if f in INOPS and (f != 'get' or len(a[2]) < 2): return unformatted(stm(s, a[1]), f, a[2])[1]
    if f == 'manip': return a[1]
    if isinstance(a[1], str) and f in ('insert', 'replace') and all(isinstance(x, (str, int)) for x in a[2]):
        x = a[1]; q = a[2]
        if f == 'insert' and len(q) in (2, 3) and isint(num(q[0])):
            p = num(q[0])
            if not 0 <= p <= len(x): raise Bad()
            y = q[1] if len(q) == 2 and isinstance(q[1], str) else chr(num(q[2]) & 255) * num(q[1]) if len(q) == 3 and isint(num(q[1])) and not isinstance(q[2], str) and 0 <= num(q[1]) < 4096 else None
            if y is not None: return x[:p] + y + x[p:]
        if f == 'replace' and len(q) == 3 and isint(num(q[0])) and isint(num(q[1])) and isinstance(q[2], str):
            p, n = num(q[0]), num(q[1])
            if not 0 <= p <= len(x): raise Bad()
            return x[:p] + q[2] + (x[p + n:] if n >= 0 else '')
@sem('io')
def _(s, t, a):
    if a[0] in ('get', 'peek') and len(a[2]) < 1: return unformatted(stm(s, a[1]), a[0], a[2])[0]
    if a[0] == 'getline': raise Unk()
@sem('sok')
def _(s, t, a):
    if isinstance(a[0], tuple) and a[0][:1] == ('stm',): return not a[0][4]
@sem('get')
def _(s, t, a):
    if len(a) == 2 and a[0] in ('eof', 'good', 'fail', 'bad') and isinstance(a[1], tuple) and a[1][:1] == ('stm',):
        v = a[1]
        return v[3] if a[0] == 'eof' else v[4] if a[0] == 'fail' else False if a[0] == 'bad' else not (v[3] or v[4])

    if len(a) == 2 and isinstance(a[1], tuple) and a[1][:1] and a[1][0] in CHRONO: return chrono(a[0], a[1])
# ------------------------------------------------------------------------------------------------------ text to numbers
def cint(x, base, lo, hi):
    """strtol: (value, characters used)"""
    x = x.split('\0')[0]; p = 0
    while p < len(x) and x[p] in WS: p += 1
    q = p; neg = False
    if q < len(x) and x[q] in '+-': neg = x[q] == '-'; q += 1
    hexa = re.match(r'0[xX][0-9a-fA-F]', x[q:])
    if base == 0: base = 16 if hexa else 8 if x[q:q + 1] == '0' else 10
    if base == 16 and hexa: q += 2
    k = q; n = 0
    while k < len(x):
        d = '0123456789abcdefghijklmnopqrstuvwxyz'.find(x[k].lower())
        if d < 0 or d >= base: break
        n = n * base + d; k += 1
    if k == q: return 0, 0
    n = -n if neg else n
    if lo == 0 and neg: return (n + hi + 1 if -n <= hi else hi), k
    return min(max(n, lo), hi), k
CFLT = re.compile(r'[ \t\n\v\f\r]*([+-]?)(?:(0[xX](?:[0-9a-fA-F]+\.?[0-9a-fA-F]*|\.[0-9a-fA-F]+)(?:[pP][+-]?\d+)?)|((?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?)|(infinity|inf)|(nan(?:\([A-Za-z0-9_]*\))?))', re.I)
def cflt(x):
    x = x.split('\0')[0]; m = CFLT.match(x)
    if not m: return 0.0, 0
    if m.group(2):
        try: v = float.fromhex(m.group(2))
        except (OverflowError, ValueError): v = math.inf
    elif m.group(3): v = float(m.group(3))
    elif m.group(4): v = math.inf
    else: v = math.nan
    return (-v if m.group(1) == '-' else v), m.end()
CINT = {'strtol': (-2**63, 2**63 - 1), 'strtoll': (-2**63, 2**63 - 1), 'strtoul': (0, 2**64 - 1), 'strtoull': (0, 2**64 - 1), 'stol': (-2**63, 2**63 - 1), 'stoll': (-2**63, 2**63 - 1),
        'stoul': (0, 2**64 - 1), 'stoull': (0, 2**64 - 1), 'stoi': (-2**31, 2**31 - 1), 'atoi': (-2**31, 2**31 - 1), 'atol': (-2**63, 2**63 - 1), 'atoll': (-2**63, 2**63 - 1)}
def tonum(f, a):
    if not a or not isinstance(a[0], str): return None
    if f in CINT:
        base = num(a[-1]) if len(a) > 1 and isint(num(a[-1])) else 10
        if base and not 2 <= base <= 36: return None
        return cint(a[0], base, *CINT[f])
    v, k = cflt(a[0])
    if f in ('strtof', 'stof'):
        import struct
        try: v = struct.unpack('f', struct.pack('f', v))[0]
        except OverflowError: v = math.inf if v > 0 else -math.inf
    return v, k
def _num(f):
    def g(s, t, a):
        r = tonum(f, a)
        if r is None: return None
        if r[1] == 0 and f.startswith('sto'): raise Bad()      # throws
        return r[0]
    return g
def _end(f):
    def g(s, t, a):
        r = tonum(f, a)
        return None if r is None else ('cp', a[0].split('\0')[0], r[1])
    return g
for _f in sorted(NUMFN):
    SEM['call:' + _f] = _num(_f)
    if _f.startswith('strto'): SEM['call:' + _f + '.end'] = _end(_f)
@sem('endchar')
def _(s, t, a):
    p, k = a[0], num(a[1])
    if not isinstance(p, tuple) or p[0] != 'cp': raise Unk()
    k += p[2]
    if k < 0 or k > len(p[1]): raise Bad()
    return ord(p[1][k]) if k < len(p[1]) else 0
@sem('throws')
def _(s, t, a):
    """of std::stoi and the like"""
    c = t.a[1]
    if not isinstance(c, T) or c.op != 'call' or c.a[0] not in NUMFN: return None
    args = tuple(s.arg(x) for x in c.a[1])
    r = tonum(c.a[0], args)
    if r is None: return None
    if 'invalid_argument' in a[0]: return r[1] == 0
    if 'out_of_range' in a[0]:
        if r[1] == 0: return False
        if c.a[0] in CINT: return abs(int(re.match(r'\s*([+-]?\d*)', args[0]).group(1) or 0)) > CINT[c.a[0]][1]
        return math.isinf(r[0]) and 'inf' not in args[0].lower()
    return None
# ------------------------------------------------------------------------------------------------------ calendar dates
CHRONO = ('ymd', 'year', 'month', 'day', 'wd')
DPOOL = [(2024, 2, 29), (2023, 2, 28), (2023, 3, 1), (2024, 3, 1), (2024, 12, 31), (2025, 1, 1), (2024, 1, 7), (2024, 1, 6), (2024, 1, 8), (2000, 2, 29), (1900, 3, 1), (1900, 2, 28),
         (1999, 12, 31), (2020, 1, 31), (2020, 2, 1), (2020, 3, 31), (2020, 4, 1), (2021, 4, 30), (2021, 5, 1), (1, 1, 1), (0, 0, 0), (-5, 6, 7), (2023, 2, 29), (2021, 6, 31), (12, 11, 10),
         (32767, 12, 31), (2022, 10, 9), (2022, 9, 10)]
def leap(y): return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
def mdays(y, m): return 29 if m == 2 and leap(y) else (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)[m - 1]
def serial(y, m, d):
    """days since 1970-01-01 (proleptic Gregorian)"""
    y -= m <= 2; e = y // 400; yo = y - e * 400
    return e * 146097 + yo * 365 + yo // 4 - yo // 100 + (153 * (m + (-3 if m > 2 else 9)) + 2) // 5 + d - 1 - 719468
def civil(z):
    z += 719468; e = z // 146097; o = z - e * 146097
    yo = (o - o // 1460 + o // 36524 - o // 146096) // 365; dy = o - (365 * yo + yo // 4 - yo // 100); mp = (5 * dy + 2) // 153
    m = mp + (3 if mp < 10 else -9)
    return ('ymd', yo + e * 400 + (m <= 2), m, dy - (153 * mp + 2) // 5 + 1)
def valid(v): return -32767 <= v[1] <= 32767 and 1 <= v[2] <= 12 and 1 <= v[3] <= mdays(v[1], v[2])
def chrono(f, v):
    k = v[0]
    if k == 'ymd':
        if f == 'ok': return valid(v)
        if f.startswith('operator'):
            if not 1 <= v[2] <= 12: raise Bad()
            return ('sd', serial(v[1], v[2], 1) + v[3] - 1)      # time_point
        if f in ('year', 'month', 'day'): return (f, v[{'year': 1, 'month': 2, 'day': 3}[f]])
    elif k == 'wd':
        if f == 'c_encoding': return v[1]
        if f == 'iso_encoding': return v[1] or 7
    else:
        if f in ('operator int', 'operator unsigned int'): return v[1]
        if f == 'is_leap' and k == 'year': return leap(v[1])
        if f == 'ok': return {'year': -32767 <= v[1] <= 32767, 'month': 1 <= v[1] <= 12, 'day': 1 <= v[1] <= 31}[k]
@sem('ctor')
def _(s, t, a):
    if len(a) != 2: return None
    n, b = a
    if len(b) == 1 and isinstance(b[0], (int, bool)):
        x = int(b[0])
        if n in ('day', 'month'): return (n, x & 255)
        if n == 'year': return (n, (x + 32768) % 65536 - 32768)
        if n == 'weekday': return ('wd', 0 if x & 255 == 7 else x & 255)
    if n in ('day', 'month', 'year') and len(b) == 1 and isinstance(b[0], tuple) and b[0][:1] == (n,): return b[0]
    if n == 'year_month_day' and len(b) == 3 and [x[:1] if isinstance(x, tuple) else 0 for x in b] == [('year',), ('month',), ('day',)]: return ('ymd', b[0][1], b[1][1], b[2][1])
    if n == 'weekday' and len(b) == 1 and isinstance(b[0], tuple) and b[0][:1] == ('ymd',):
        y = b[0]
        if not 1 <= y[2] <= 12: raise Bad()
        return ('wd', (serial(y[1], y[2], 1) + y[3] - 1 + 4) % 7)
    if n in ('weekday', 'year_month_day') and len(b) == 1 and isinstance(b[0], tuple) and b[0][:1] == ('sd',): return ('wd', (b[0][1] + 4) % 7) if n == 'weekday' else civil(b[0][1])
    if n in ('sys_days', 'time_point', 'local_days') and len(b) == 1 and isinstance(b[0], tuple) and b[0][:1] == ('ymd',):
        y = b[0]
        if not 1 <= y[2] <= 12: raise Bad()
        return ('sd', serial(y[1], y[2], 1) + y[3] - 1)

@sem('i2f')
def _(s, t, a): return flt(a[0])
@sem('f2i')
def _(s, t, a):
    x = flt(a[0])
    if math.isnan(x) or math.isinf(x) or not -2**63 <= x < 2**63: raise Bad()
    return int(x)
@sem('f32')
def _(s, t, a): 
    import struct
    try: return struct.unpack('f', struct.pack('f', flt(a[0])))[0]
    except OverflowError: raise Bad()
@sem('f+')
def _(s, t, a): return flt(a[0]) + flt(a[1])
@sem('f-')
def _(s, t, a): return flt(a[0]) - flt(a[1])
@sem('f*')
def _(s, t, a): return flt(a[0]) * flt(a[1])
@sem('f/')
def _(s, t, a):
    if flt(a[1]) == 0: raise Bad()
    return flt(a[0]) / flt(a[1])
@sem('fneg')
def _(s, t, a): return -flt(a[0])
@sem('idiv')
def _(s, t, a):
    x, y = num(a[0]), num(a[1])
    if not isint(x) or not isint(y): raise Unk()
    if y == 0: raise Bad()
    q = abs(x) // abs(y)
    return q if (x < 0) == (y < 0) else -q
@sem('imod')
def _(s, t, a):
    x, y = num(a[0]), num(a[1])
    if not isint(x) or not isint(y): raise Unk()
    if y == 0: raise Bad()
    r = abs(x) % abs(y)
    return r if x >= 0 else -r
def bits(f):
    def g(s, t, a):
        x, y = num(a[0]), num(a[1])
        if not isint(x) or not isint(y): raise Unk()
        return f(x, y)
    return g
SEM['i|'] = bits(lambda x, y: x | y); SEM['i&'] = bits(lambda x, y: x & y); SEM['i^'] = bits(lambda x, y: x ^ y)
SEM['i<<'] = bits(lambda x, y: x << y if 0 <= y < 64 else 0); SEM['i>>'] = bits(lambda x, y: x >> y if 0 <= y < 64 else 0)
@sem('u')
def _(s, t, a):
    if not isint(num(a[0])): raise Unk()
    return wrap(num(a[0]), a[2] if len(a) > 2 else a[1], False)
@sem('s')
def _(s, t, a):
    if not isint(num(a[0])): raise Unk()
    return wrap(num(a[0]), a[1], True)
@sem('trunc')
def _(s, t, a):
    ty, v = a[0], num(a[1])
    if not isint(v): raise Unk()
    b = {'char': (8, 1), 'signed char': (8, 1), 'unsigned char': (8, 0), 'short': (16, 1), 'unsigned short': (16, 0), 'int': (32, 1), 'unsigned int': (32, 0), 'long': (64, 1), 'unsigned long': (64, 0)}.get(ty)
    if b is None: return None
    return wrap(v, b[0], b[1])
@sem('cat')
def _(s, t, a):
    r = ''
    for x in a:
        if not isinstance(x, str): raise Unk()
        r += x
    return r
@sem('chr2s')
def _(s, t, a):
    if not isint(num(a[0])): raise Unk()
    return chr(num(a[0]) & 255)
@sem('cstr')
def _(s, t, a): return a[0] if isinstance(a[0], str) else None
@sem('size')
def _(s, t, a):
    return len(a[0]) if isinstance(a[0], str) else None
@sem('substr')
def _(s, t, a):
    if len(a) != 3 or not isinstance(a[0], str): return None
    p, n = num(a[1]), num(a[2])
    if p < 0 or p > len(a[0]): raise Bad()
    if n < 0 or n > 1 << 40: n = len(a[0])
    return a[0][p:p + n]
@sem('at')
def _(s, t, a):
    if isinstance(a[0], str):
        i = num(a[1])
        if i >= 1 << 63: i -= 1 << 64
        if i == len(a[0]): return 0
        if not 0 <= i < len(a[0]): raise Bad()
        c = ord(a[0][i])
        return c - 256 if c > 127 else c
@sem('num2s', 'intout', 'call:to_string')
def _(s, t, a):
    x = a[0]
    if isinstance(x, bool): return str(int(x))
    if isint(x): return str(x)
    if isinstance(x, float) and t.op == 'call': return '%f' % x if x == x and not math.isinf(x) else str(x).replace('nan', 'nan')
def lib(n, f):
    def g(s, t, a):
        if len(a) != 1: return None
        x = flt(a[0])
        try: return f(x)
        except (ValueError, OverflowError): raise Bad()
    for m in (n, 'std::' + n): SEM['call:' + m] = g
for n, f in dict(floor=lambda x: float(math.floor(x)), ceil=lambda x: float(math.ceil(x)), trunc=lambda x: float(math.trunc(x)), sqrt=math.sqrt, sin=math.sin, cos=math.cos, tan=math.tan,
                 exp=math.exp, log=math.log, log10=math.log10, asin=math.asin, acos=math.acos, atan=math.atan, fabs=abs, modf=lambda x: math.modf(x)[0],
                 isinf=math.isinf, isnan=math.isnan, isfinite=math.isfinite, round=lambda x: float(math.floor(x + .5) if x >= 0 else math.ceil(x - .5))).items(): lib(n, f)
def clib(n, f):
    def g(s, t, a):
        if len(a) != 1: return None
        x = num(a[0])
        if not isint(x): raise Unk()
        c = chr(x & 127) if -128 <= x < 256 and (x & 255) < 128 else '\x80'
        return f(c)
    for m in (n, 'std::' + n): SEM['call:' + m] = g
for n, f in dict(isdigit=str.isdigit, isalpha=str.isalpha, isalnum=str.isalnum, isupper=str.isupper, islower=str.islower, isspace=lambda c: c in ' \t\n\v\f\r').items():
    clib(n, (lambda f: lambda c: c < '\x80' and f(c))(f))
for n, f in dict(toupper=str.upper, tolower=str.lower).items(): clib(n, (lambda f: lambda c: ord(f(c)))(f))
@sem('call:min', 'call:std::min')
def _(s, t, a):
    if len(a) == 2: return min(num(a[0]), num(a[1]))
    if not a: return ('year', -32767)         # std::chrono::year::min
@sem('call:max', 'call:std::max')
def _(s, t, a):
    if len(a) == 2: return max(num(a[0]), num(a[1]))
    if not a: return ('year', 32767)
@sem('call:abs', 'call:std::abs')
def _(s, t, a):
    return abs(num(a[0])) if len(a) == 1 else None
@sem('call:pow', 'call:std::pow')
def _(s, t, a):
    try:
        r = math.pow(flt(a[0]), flt(a[1]))
    except (ValueError, OverflowError, ZeroDivisionError): raise Bad()
    return r
@sem('call:fmod', 'call:std::fmod')
def _(s, t, a):
    if flt(a[1]) == 0: raise Bad()
    try: return math.fmod(flt(a[0]), flt(a[1]))
    except ValueError: raise Bad()
NP = 2**64 - 1
def strs(a, n):
    """(string, needle as string, position) of a search call; None when it is not about strings"""
    x = a[0]; y = a[1]
    if isint(y) and not isinstance(y, bool): y = chr(y & 255)
    if not isinstance(x, str) or not isinstance(y, str): return None
    return x, y, (num(a[2]) if len(a) > 2 else n)
def search(n, dflt, f):
    def g(s, t, a):
        if not 2 <= len(a) <= 3: return None
        q = strs(a, dflt)
        if q is None: return None
        x, y, p = q
        if p == -1: p = NP
        r = f(x, y, p)
        return NP if r is None or r < 0 else r
    SEM['call:' + n] = g
search('find', 0, lambda x, y, p: x.find(y, p) if p <= len(x) else -1)
search('rfind', NP, lambda x, y, p: x.rfind(y, 0, min(p, len(x)) + len(y)))
search('find_first_of', 0, lambda x, y, p: next((i for i in range(p, len(x)) if x[i] in y), -1) if p <= len(x) else -1)
search('find_first_not_of', 0, lambda x, y, p: next((i for i in range(p, len(x)) if x[i] not in y), -1) if p <= len(x) else -1)
search('find_last_of', NP, lambda x, y, p: next((i for i in range(min(p, len(x) - 1), -1, -1) if x[i] in y), -1))
search('find_last_not_of', NP, lambda x, y, p: next((i for i in range(min(p, len(x) - 1), -1, -1) if x[i] not in y), -1))
def pred(n, f):
    def g(s, t, a):
        if len(a) != 2: return None
        q = strs(a, 0)
        return None if q is None else f(q[0], q[1])
    SEM['call:' + n] = g
pred('starts_with', lambda x, y: x.startswith(y)); pred('ends_with', lambda x, y: x.endswith(y)); pred('contains', lambda x, y: y in x)
@sem('call:compare', 'call:strcmp')
def _(s, t, a):
    if len(a) == 2 and isinstance(a[0], str) and isinstance(a[1], str): return (a[0] > a[1]) - (a[0] < a[1])
@sem('rep')
def _(s, t, a):
    n = num(a[0]); c = a[1]
    if isint(c) and 0 <= n <= 4096: return chr(c & 255) * n
    if not 0 <= n <= 4096: raise Bad()
@sem('without')
def _(s, t, a):
    if not isinstance(a[0], str): return None
    c = a[1] if isinstance(a[1], str) else chr(num(a[1]) & 255)
    return a[0].replace(c, '')
@sem('erased')
def _(s, t, a):
    if not isinstance(a[0], str): return None
    i, n = num(a[1]), num(a[2])
    if not 0 <= i <= len(a[0]): raise Bad()
    if n < 0: n = NP
    return a[0][:i] + a[0][i + n:]
@sem('resized')
def _(s, t, a):
    if not isinstance(a[0], str): return None
    n = num(a[1])
    if not 0 <= n <= 4096: raise Bad()
    return a[0][:n] + '\0' * (n - len(a[0]))
@sem('vec')
def _(s, t, a): return ('vec', a[0])
@sem('push')
def _(s, t, a):
    if isinstance(a[0], tuple) and a[0] and a[0][0] == 'vec': return ('vec', a[0][1] + (a[1],))
    return ('push',) + a
@sem('struct', 'obj')
def _(s, t, a): return (t.op,) + a
@sem('bool2i')
def _(s, t, a): return int(a[0])
@sem('addr')
def _(s, t, a): return a[0] if isinstance(a[0], tuple) else None
@sem('deref')
def _(s, t, a):
    if a[0] is None: raise Bad()
    return None

def lvset(t): return {x for x in subterms(t) if x.op == 'lv'}

def inner(ty, ptr):
    """pointee / element type"""
    ty = ty.strip()
    if ty.startswith('const '): ty = ty[6:]
    ty = ty.rstrip('&').strip()
    if ty.endswith('const'): ty = ty[:-5].strip()
    if ty.endswith('*'): return ty[:-1].strip()
    for p in (('std::unique_ptr<', 'std::shared_ptr<') if ptr else ('std::vector<', 'std::span<', 'std::array<', 'std::deque<')):
        if ty.startswith(p):
            d = 0
            for i, ch in enumerate(ty[len(p):]):
                if ch == '<': d += 1
                elif ch == '>':
                    if d == 0: return ty[len(p):len(p) + i].strip()
                    d -= 1
                elif ch == ',' and d == 0: return ty[len(p):len(p) + i].strip()
    if not ptr and 'basic_string' in ty.split('<')[0]: return 'char'
    return None

class Sorts:
    """sort of a free symbol: declared type of the field / function it stands for, else its use in the given terms"""
    def __init__(self, types, rts): self.types = types; self.rts = rts; self.cache = {}
    def ofname(self, ty):
        if ty is None: return None
        ty = ty.replace('const ', '').replace(' const', '').replace('&', '').strip()
        if ty == 'bool': return 'b'
        if ty == 'std::chrono::year_month_day': return 'd'
        if ty in ('double', 'float', 'long double'): return 'f'
        if ty == 'char': return 'c'
        if ty in ('char *', 'char*'): return 's'
        if ty.startswith('unsigned') or ty == 'size_t': return 'u'
        if ty in INTT: return 'n'
        if ty.startswith('std::basic_string<') or ty.startswith('std::string') or ty.startswith('std::basic_string_view'): return 's'
        if ty in self.types.get('#enums', ()): return 'e'
        if ty.endswith('*') or ty.startswith('std::unique_ptr') or ty.startswith('std::shared_ptr'): return 'p'
        return 'o'
    def typeof(self, t):
        """declared type of a location or value, as far as it is known"""
        o = t.op
        if o == 'init': return self.typeof(t.a[0])
        if o == 'fld': return self.types.get(t.a[1])
        if o == 'proj': return self.types.get(t.a[1]) if len(t.a) > 1 else None
        if o == 'ret': return self.rts.get(t.a[0]) or ('char *' if t.a[0] == 'readline' else None)
        if o in ('deref', 'elem', 'at') and isinstance(t.a[0], T):
            b = self.typeof(t.a[0])
            return None if b is None else inner(b, o == 'deref')
        return None
    def declared(self, t):
        o = t.op
        if o == 'init': return self.declared(t.a[0])
        if o in ('fld', 'ret'): return self.ofname(self.typeof(t))
        if o in ('deref', 'elem'): return self.ofname(self.typeof(t))
        if o == 'at':
            ty = self.typeof(t)
            if ty is not None: return self.ofname(ty)
        if o in ('size', 'capacity', 'iv', 'find'): return 'u' if o != 'iv' else ('u' if isc(t.a[1]) and num_ok(t.a[1]) and t.a[2] > 0 else 'n')
        if o in ('threw', 'isexc', 'isa', 'sok', 'throws', 'eqdef'): return 'b'
        if o == 'at': return 'c'
        if o == 'proj': return self.ofname(self.types.get(t.a[1])) if len(t.a) > 1 else None
        if o in ('line', 'without', 'map', 'rep', 'fltout', 'intout', 'sscat', 'ss'): return 's'
        if o == 'get': return 'n' if str(t.a[0]).startswith('operator') else None
        if o == 'call':
            n = t.a[0].split('::')[-1]
            if n in ('find', 'find_first_of', 'find_first_not_of', 'find_last_not_of', 'rfind', 'strlen', 'length'): return 'u'
            if n in ('strtod', 'stod', 'atan2'): return 'f'
            if n in ('strtol', 'stol', 'stoi', 'strcmp', 'compare', 'time'): return 'n'
        return None
    def use(self, terms):
        """sorts implied by use"""
        u = {}
        def put(x, s):
            if isinstance(x, T) and x.op not in ('const', 'str', 'null', 'poly'): u.setdefault(x, s)
        for x in subterms(tuple(terms)):
            o = x.op
            if o == 'poly':
                for m, c in x.a[0]:
                    for y in m: put(y, 'n')
            elif o in ('le', 'ieq'): put(x.a[0], 'n')
            elif o == 'F':
                put(x.a[0], 'n')
            elif o == 'Ft': put(x.a[0], 'b')
            elif o in ('i2f', 'u', 's', 'chr2s', 'idiv', 'imod', 'i|', 'i&', 'i<<', 'i>>'):
                for y in x.a: put(y, 'n')
            elif o in ('f2i', 'f+', 'f-', 'f*', 'f/', 'fneg', 'f32', 'fltout'):
                for y in x.a: put(y, 'f')
            elif o in ('cat', 'cstr', 'substr', 'at'):
                put(x.a[0], 's')
                if o == 'cat':
                    for y in x.a: put(y, 's')
                else:
                    for y in x.a[1:]: put(y, 'n')
            elif o == 'not': put(x.a[0], 'b')
            elif o in ('eq', 'ord') and len(x.a) > 1:
                a, b = x.a[:2]
                for p, q in ((a, b), (b, a)):
                    if q.op == 'null': put(p, 'p')
                    elif q.op == 'str' or q.op == 'cat': put(p, 's')
                    elif isc(q): put(p, 'f' if isinstance(q.a[0], float) else 'n')
                    elif q.op in ('f+', 'f-', 'f*', 'f/', 'i2f'): put(p, 'f')
                    elif q.op != 'addr' and self.declared(q) in ('s', 'f'): put(p, self.declared(q))
            elif o == 'Fo':
                a, b = x.a[:2]
                for p, q in ((a, b), (b, a)):
                    if q.op == 'str' or q.op == 'cat': put(p, 's')
                    elif q.op in ('f+', 'f-', 'f*', 'f/', 'i2f') or isc(q) and isinstance(q.a[0], float): put(p, 'f')
                    elif self.declared(q) in ('s', 'f'): put(p, self.declared(q))
            elif o == 'call':
                n = x.a[0].split('::')[-1]
                if n in ('floor', 'ceil', 'trunc', 'sqrt', 'pow', 'sin', 'cos', 'tan', 'exp', 'log', 'log10', 'fabs', 'modf', 'round'):
                    for y in x.a[1]: put(y, 'f')
                elif n in ('isdigit', 'isalpha', 'isalnum', 'toupper', 'tolower', 'isspace', 'isupper', 'islower'):
                    for y in x.a[1]: put(y, 'c')
        return u
    def make(self, terms):
        u = self.use(terms)
        def f(t):
            d = self.declared(t)
            if d is None or d == 'o': d = u.get(t, d)
            if d == 'n' and u.get(t) == 'b': d = 'b'
            return d or 'p'
        return f
def num_ok(t): return isinstance(t.a[0], int)

def factterms(f):
    for L in f.lin: yield T('F', L)
    for (a, b) in f.ord: yield T('Fo', a, b)
    for t in f.tv: yield T('Ft', t)

class Sampler:
    """stores satisfying the conjunction J of two path conditions"""
    def __init__(self, J, sorts, terms, seed=1, want=16, tries=60, limit=25000, pool=()):
        self.J = J; self.stores = []; self.tried = 0; self.work = 0; self.limit = limit + 5000
        sf = sorts.make(tuple(terms) + tuple(factterms(J)))
        nums = any(u.op == 'call' and u.a[0].split('.')[0] in NUMFN for t in tuple(terms) + tuple(factterms(J)) if isinstance(t, T) for u in subterms(t))
        templ = templates(J, tuple(terms) + tuple(factterms(J)))
        rng = random.Random(seed)
        cons = [('lin', L, b) for L, b in J.lin.items()] + [('ord', k, s) for k, s in J.ord.items()] + [('tv', t, v) for t, v in J.tv.items()]
        cons.sort(key=lambda c: skey(c[1])); stuck = None
        for i in range(tries):
            st = Store(rng, sf); st.pool = pool if i % 3 else (); st.templ = templ; st.nums = nums
            try:
                if self.solve(st, cons, rng): self.stores.append(st)
                elif not self.stores:
                    # stuck on the same condition again and again
                    stuck = self.left if stuck is None else stuck & self.left
                    if i >= 3 and stuck and self.work > 6000: break
            except (Unk, Bad, OverflowError, TypeError, ValueError, RecursionError): pass
            self.tried += 1
            if len(self.stores) >= want: break
            if i >= 25 and not self.stores or self.work > limit: break
    def ok(self, st, c):
        k, x, b = c
        if k == 'lin':
            v = num(st.ev(x)); lo, hi, ex = b
            return (lo is None or v >= lo) and (hi is None or v <= hi) and v not in ex
        if k == 'ord': return st.cmp(st.ev(x[0]), st.ev(x[1])) in b
        v = st.truth(st.ev(x))
        return v == b
    def solve(self, st, cons, rng):
        nb = 0; self.left = frozenset()
        for rnd in range(80):
            bad = None; n = 0; left = []; self.work += len(cons)
            if self.work > self.limit: return False
            for c in cons:
                try: o = self.ok(st, c)
                except Bad: o = False
                if not o:
                    n += 1; left.append(c[1])
                    if rng.random() < 1.0 / n: bad = c
            if bad is None: return True
            self.left = frozenset(left)
            try:
                if not self.fix(st, bad, rng): return False
            except Bad:
                nb += 1
                if nb > 12: return False
        return False
    def setv(self, st, t, v):
        """make the free symbol or uninterpreted application t take value v"""
        if t.op in ('const', 'str', 'null') or t.op == 'sym' and t.a[0] == 'npos': return False
        if t.op == 'init' and t.a[0].op == 'elem': t = strelem(st, t) or t
        if t.op == 'get' and str(t.a[0]).startswith('operator') and isinstance(v, int) and isinstance(t.a[1], T) and t.a[1].op == 'get' and t.a[1].a[0] in ('year', 'month', 'day'):
            # one component of a date
            try: x = st.ev(t.a[1].a[1])
            except Bad: x = None
            if isinstance(x, tuple) and x[:1] == ('ymd',):
                i = ('ymd', 'year', 'month', 'day').index(t.a[1].a[0])
                return self.setv(st, t.a[1].a[1], x[:i] + (v & 255 if i > 1 else (v + 32768) % 65536 - 32768,) + x[i + 1:])
        if t.op in ('size', 'at') and len(t.a) >= 1 and isinstance(t.a[0], T) and (t.op == 'size' or len(t.a) == 2):
            try: x = st.ev(t.a[0])
            except Bad: x = None
            if isinstance(x, str):
                # choose the string such that it has that length / that character there
                n = num(v)
                if t.op == 'size':
                    if not 0 <= n <= 1 << 17: return False
                    y = x[:n] + 'k' * (n - len(x))
                else:
                    i = num(st.ev(t.a[1]))
                    if not 0 <= i < 4096: return False
                    y = x[:i] + 'k' * (i - len(x)) + chr(n & 255) + x[i + 1:]
                return y == x or self.setv(st, t.a[0], y)
        if t.op == 'without' and isinstance(v, str) and isc(t.a[1]):
            c = chr(t.a[1].a[0] & 255)
            return c not in v and self.setv(st, t.a[0], v + (c if st.rng.random() < .5 else ''))
        if t.op == 'substr' and isinstance(v, str) and len(t.a) == 3:
            # a part of a string: of that length, then those characters there
            try:
                n = num(st.ev(t.a[2]))
                if n != len(v) and (n < 1 << 40 or t.a[2].op != 'sym') and not self.fix(st, ('lin', t.a[2], (len(v), len(v), ())), st.rng): return False
                x = st.ev(t.a[0]); p = num(st.ev(t.a[1])); n = num(st.ev(t.a[2]))
            except Bad: return False
            if not isinstance(x, str) or not 0 <= p < 4096: return False
            y = x[:p] + 'k' * (p - len(x)) + v + ('' if n > 1 << 40 else x[p + len(v):])
            return y == x or self.setv(st, t.a[0], y)
        if t.op in ('rd', 'line', 'io', 'sok') or t.op == 'get' and len(t.a) == 2: 
            r = self.setstream(st, t, v)
            if r is not None: return r
        if t.op == 'poly' or t.op in ('le', 'ieq', 'ord', 'not', 'eq'): return False
        if t.op == 'call':
            args = tuple(st.arg(x) for x in t.a[1]); k = (t.op, t.a[0], args)
            if ('call:' + t.a[0]) in SEM and k not in st.mem: return False
        else:
            args = tuple(st.arg(x) for x in t.a); k = (t.op,) + args
            if t.op in SEM and k not in st.mem: return False
        st.mem[k] = v; st.memo = {}
        return True
    def setstream(self, st, t, v):
        """choose what the stream holds such that reading it there gives v"""
        old = t.a[0] if t.op in ('line', 'sok') else t.a[1]
        try: x = st.ev(old)
        except Bad: return False
        if not (isinstance(x, tuple) and x[:1] == ('stm',)):
            if t.op in ('sok', 'get') : return None
            x = stm(st, x)
        _, c, p, eof, fail, src = x
        rng = st.rng
        def put(y, f=False):
            if ('stm', src) not in st.mem or st.mem[('stm', src)] == (y, f): return False
            st.mem[('stm', src)] = (y, f); st.memo = {}
            return True
        tail = rng.choice([c[p:], '', ' ' + newstm(st)[0], '\n' + newstm(st)[0], newstm(st)[0]])
        if t.op == 'rd':
            if isinstance(v, str):
                if not v or any(z in WS for z in v): return False
                w = v
            elif isinstance(v, bool) or not isinstance(v, (int, float)): return False
            elif t.a[0] == 'char': w = chr(v & 255)
            else: w = repr(v)
            return put(c[:p] + (' ' if p and c[p - 1:p] not in WS else '') + w + (tail if not tail or tail[0] in WS else ' ' + tail))
        if t.op == 'line':
            if not isinstance(v, str) or '\n' in v: return False
            return put(c[:p] + v + '\n' + tail)
        if t.op == 'io' and t.a[0] in ('get', 'peek') and isinstance(v, int):
            if v == -1: return put(c[:p])
            return put(c[:p] + chr(v & 255) + tail)
        if t.op == 'sok' or t.a[0] in ('good', 'eof', 'fail'):
            if t.op == 'get' and t.a[0] != 'good': v = not v
            if rng.random() < .3: y = newstm(st); return put(*y)
            return put(c[:rng.randrange(len(c) + 1)] if not v else c + newstm(st)[0], False)
        return None
    def leaf(self, st, t, rng):
        """re-draw some free symbol below t"""
        xs = [x for x in subterms(t) if x.op in ('init', 'ret', 'sym', 'lv', 'iv', 'size', 'at', 'get', 'proj', 'call', 'line', 'rd', 'io', 'sok')]
        rng.shuffle(xs)
        for x in xs:
            if x.op in ('init',) and any(z.op == 'deref' and z.a[0] is x for z in subterms(t)) and rng.random() < .8: continue
            if self.setv(st, x, st.fresh(x)): return True
        return False
    def fix(self, st, c, rng):
        k, x, b = c
        if k == 'tv':
            if x.op == 'call' and x.a[0] in ('starts_with', 'ends_with', 'contains') and b:
                try: y = st.ev(x.a[1][1])
                except Bad: y = None
                if isinstance(y, int): y = chr(y & 255)
                if isinstance(y, str):
                    z = rng.choice(['', 'q', 'EGERS', '3', ' '])
                    return self.setv(st, x.a[1][0], y + z if x.a[0] == 'starts_with' else z + y if x.a[0] == 'ends_with' else z + y + z) or self.leaf(st, x, rng)
            if x.op == 'eq':
                p, q = x.a
                if q.op == 'null' or p.op == 'null':
                    if p.op == 'null': p, q = q, p
                    if b: return self.setv(st, p, None)
                    st.np += 1
                    return self.setv(st, p, ('#', st.np))
                if b:
                    try:
                        if rng.random() < .5: return self.setv(st, p, st.ev(q)) or self.setv(st, q, st.ev(p))
                        return self.setv(st, q, st.ev(p)) or self.setv(st, p, st.ev(q))
                    except Bad: return self.leaf(st, x, rng)
                return self.leaf(st, x, rng)
            s = st.sorts(x)
            if s in ('n', 'u', 'c', 'e'): return self.setv(st, x, (1 if b else 0)) or self.leaf(st, x, rng)
            if s == 'p' and not b: return self.setv(st, x, None) or self.leaf(st, x, rng)
            return self.setv(st, x, b) or self.leaf(st, x, rng)
        if k == 'ord':
            p, q = x
            for f, z in ((p, q), (q, p)):
                if f.op == 'call' and f.a[0] == 'find' and z.op == 'sym' and z.a[0] == 'npos' and len(f.a[1]) == 2:
                    # found / not found
                    y, w = st.ev(f.a[1][0]), st.ev(f.a[1][1])
                    if isint(w): w = chr(w & 255)
                    if isinstance(y, str) and isinstance(w, str) and w: return self.setv(st, f.a[1][0], y.replace(w, '') if b == {'='} else y + w) or self.leaf(st, f, rng)
            if '=' in b and (b == {'='} or rng.random() < .4):
                try:
                    if rng.random() < .5 and self.setv(st, p, st.ev(q)): return True
                    return self.setv(st, q, st.ev(p)) or self.setv(st, p, st.ev(q)) or self.leaf(st, T('Fo', p, q), rng)
                except Bad: pass
            return self.leaf(st, T('Fo', p, q), rng)
        lo, hi, ex = b
        def target():
            a = lo if lo is not None else (hi - 50 if hi is not None else -50)
            z = hi if hi is not None else a + 100
            for _ in range(6):
                v = rng.choice([a, z, rng.randint(a, min(z, a + 200)), a + 1 if a < z else a])
                if v not in ex: return v
            return None
        v = target()
        if v is None: return self.leaf(st, x, rng)
        if x.op != 'poly':
            if st.sorts(x) == 'b' and v in (0, 1): v = bool(v)
            return self.setv(st, x, v) or self.leaf(st, x, rng)
        ms = [(m[0], cf) for m, cf in x.a[0] if len(m) == 1]
        rng.shuffle(ms)
        for a, cf in ms:
            try:
                cur = num(st.ev(x)); av = num(st.ev(a))
            except Bad: break
            d = v - cur
            if d % cf: continue
            nv = av + d // cf
            s = st.sorts(a)
            if s == 'b':
                if nv not in (0, 1): continue
                nv = bool(nv)
            if s in ('u', 'e') and nv < 0: continue
            if s == 'c' and not -128 <= nv < 128: continue
            if self.setv(st, a, nv): return True
            # atoms with a meaning: re-draw inside
        return self.leaf(st, x, rng)
    def decide(self, a, b):
        """True: evaluated differently in some satisfying store; False: equal in all (enough) of them; None"""
        eq = 0; self.opq = False
        for st in self.stores:
            try:
                x = st.arg(a); y = st.arg(b)
                if opaque(x, y) and isinstance(a, T) and isinstance(b, T) and (a.op == 'vec') != (b.op == 'vec'):
                    # a container by name against one by its elements: at least the sizes can be compared
                    v, o = (a, b) if a.op == 'vec' else (b, a)
                    k = st.ev(T('size', o))
                    if k != len(v.a[0]): return True
                    if k == 0: eq += 1; continue
            except (Unk, Bad, OverflowError, TypeError, ValueError, RecursionError): continue
            if not same(x, y):
                if opaque(x, y): self.opq = True; continue
                return True
            eq += 1
        return False if eq >= min(5, len(self.stores)) and eq else None
BUILT = {'vec', 'push', 'setat', 'struct', 'obj', 'ctor', 'pair', 'upd'}
def opaque(x, y):
    """an aggregate known by name only against one given by its parts: they may well be equal"""
    if isinstance(x, str) and isinstance(y, tuple) or isinstance(y, str) and isinstance(x, tuple): return True      # a container taken for a string
    if isinstance(x, tuple) and isinstance(y, tuple) and x and y:
        if x[0] == '#' and y[0] in BUILT or y[0] == '#' and x[0] in BUILT: return True
        if x[0] == y[0] and len(x) == len(y): 
            d = [(p, q) for p, q in zip(x, y) if not same(p, q)]
            return bool(d) and all(opaque(p, q) for p, q in d)
    return False
def same(x, y):
    if isinstance(x, float) and isinstance(y, float):
        return x == y or math.isnan(x) and math.isnan(y)
    if isinstance(x, (bool, int)) and isinstance(y, (bool, int)): return int(x) == int(y)
    if isinstance(x, tuple) and isinstance(y, tuple): return len(x) == len(y) and all(same(p, q) for p, q in zip(x, y))
    return x == y and (x is None) == (y is None)

def explain(m, a, b):
    """the innermost aligned pair of subterms that evaluate differently, with the values (for reports)"""
    for st in m.stores:
        try:
            x, y = st.arg(a), st.arg(b)
        except (Unk, Bad, OverflowError, TypeError, ValueError, RecursionError): continue
        if same(x, y): continue
        while True:
            nxt = None
            pa = a.a if isinstance(a, T) else a; pb = b.a if isinstance(b, T) else b
            if isinstance(a, T) and isinstance(b, T) and a.op != b.op: break
            if isinstance(pa, (tuple, list)) and isinstance(pb, (tuple, list)) and len(pa) == len(pb):
                for p, q in zip(pa, pb):
                    if p is q or p == q: continue
                    if not isinstance(p, (T, tuple)) or not isinstance(q, (T, tuple)): continue
                    try:
                        if not same(st.arg(p), st.arg(q)): nxt = (p, q); break
                    except Exception: continue
            if nxt is None: break
            a, b = nxt
        vals = {}
        def leaves(t):
            for s in subterms(t):
                if s.op in ('init', 'ret', 'lv', 'iv', 'size', 'sym') and not any(z.op == 'deref' and s in z.a for z in subterms((a, b))):
                    try: vals[show(s)[-60:]] = st.ev(s)
                    except Exception: pass
        leaves((a, b))
        try: return '%s = %r, %s = %r  with %s' % (show(a)[:120], st.arg(a), show(b)[:120], st.arg(b), list(vals.items())[:5])
        except Exception: return None
