"""Models of the C++ standard library pieces the sources use (values are functional terms)."""
from .terms import *
from .interp import (isstr, isvec, isuptr, isptr, isstream, isiter, unq, telem, NPOS, INTS, FLOATS)

FLOATFN = {'acos','asin','atan','cos','exp','floor','ceil','log','log10','pow','sin','sqrt','tan','fabs','trunc','round','fmod'}
PURE = {'acos','asin','atan','atan2','cos','exp','floor','ceil','log','log10','pow','sin','sqrt','tan','fabs','abs','trunc','round','fmod',
        'isalnum','isalpha','isdigit','isspace','isupper','islower','isxdigit','ispunct','tolower','toupper','strcmp','strlen','isnan','isinf','isfinite','std::to_string','std::min','std::max','std::abs','std::floor','std::ceil','std::fmod','std::pow','std::trunc','std::isdigit','std::isalpha','std::tolower','std::toupper','std::isalnum','std::isspace','std::fabs','std::isfinite','std::isnan','std::round','std::signbit','std::gcd','std::swap_'}
BOOLPRED = {'isalnum','isalpha','isdigit','isspace','isupper','islower','isxdigit','ispunct'}

def val(I, s, e, v):
    """value of an argument given as lvalue or prvalue"""
    if isinstance(e, dict) and (e.get('lv') or e.get('xv') or e['k'] == 'mat'):
        if v.op in ('str', 'const', 'fn', 'lambda') : return v
        return I.load(s, v)
    return v

def strval(I, s, e, v):
    x = val(I, s, e, v)
    return x

def iter_eq(a, b):
    if a.op == 'iter' and b.op == 'iter' and a.a[0] is b.a[0]: return cmp_int('==', a.a[1], b.a[1])
    return eq_ptr(a, b)

def cat(*xs):
    out = []
    for x in xs:
        if x.op == 'cat': out += x.a
        else: out.append(x)
    r = []
    for x in out:
        if x.op == 'str' and x.a[0] == '': continue
        if r and x.op == 'str' and r[-1].op == 'str': r[-1] = T('str', r[-1].a[0] + x.a[0])
        elif x.op == 'chr2s' and x.a[0].op == 'const' and r and r[-1].op == 'str': r[-1] = T('str', r[-1].a[0] + chr(x.a[0].a[0]))
        elif x.op == 'chr2s' and x.a[0].op == 'const': r.append(T('str', chr(x.a[0].a[0] % 256)))
        else: r.append(x)
    if not r: return T('str', '')
    if len(r) == 1: return r[0]
    return T('cat', *r)

def chr2s(c):
    return T('str', chr(c.a[0] % 256)) if c.op == 'const' else T('chr2s', c)

def tostr(e, v):
    """operand of string + : char or string"""
    t = unq(e['t'])
    if t == 'char': return chr2s(v)
    return v

# ------------------------------------------------------------------------------------- construction
def libctor(I, e, t, st):
    args = e['a']
    real = [a for a in args if not a.get('defarg')]
    r = []
    for s, vs in I.evs(real, st):
        if isuptr(t):
            if not real: r.append((s, NULL)); continue
            v = vs[0]; a = real[0]
            if isuptr(a['t']) and (a.get('xv') or a.get('lv') or a['k'] == 'mat'):
                src = v; v = I.load(s, src)
                if e.get('move') or not e.get('copy'):
                    s = s.copy(); move_from(I, s, src)
            elif a.get('lv') or a.get('xv'): v = I.load(s, v)
            r.append((s, v)); continue
        if isstr(t):
            if not real: r.append((s, T('str', ''))); continue
            if e.get('copy') or e.get('move') or isstr(real[0]['t']) and len(real) == 1:
                v = val(I, s, real[0], vs[0])
                if e.get('move') and (real[0].get('xv')) and vs[0].op != 'str': pass
                r.append((s, v)); continue
            if len(real) == 1: r.append((s, val(I, s, real[0], vs[0]))); continue
            if len(real) == 2 and unq(real[1]['t']) in ('char', 'int') and unq(real[0]['t']) in INTS:
                n, c = vs
                if n.op == 'const' and n.a[0] == 1: r.append((s, chr2s(c)))
                else: r.append((s, T('rep', n, c)))
                continue
            if isiter(real[0]['t']) and len(real) == 2:
                b, en = vs[0], vs[1]
                b = val(I, s, real[0], b); en = val(I, s, real[1], en)
                if b.op == 'iter' and en.op == 'iter' and b.a[0] is en.a[0]:
                    r.append((s, T('substr', I.load(s, b.a[0]), b.a[1], sub(en.a[1], b.a[1])))); continue
            if isstr(real[0]['t']):
                v = val(I, s, real[0], vs[0])
                I.ev_note('substr', e, s, v=v, pos=vs[1])
                r.append((s, T('substr', v, vs[1], vs[2] if len(vs) > 2 else NPOS))); continue
            if vs and vs[0].op == 'str' and isptr(real[0]['t']): r.append((s, vs[0])); continue
            r.append((s, T('ctor', 'string', tuple(vs)))); continue
        if isvec(t):
            if not real: r.append((s, T('vec', ()))); continue
            if e.get('move') or e.get('copy'):
                v = val(I, s, real[0], vs[0])
                if e.get('move') and real[0].get('xv') and isinstance(vs[0], T) and vs[0].op in ('loc', 'heap', 'fld', 'deref', 'elem'):
                    s = s.copy(); s.store[vs[0]] = T('vec', ())
                r.append((s, v)); continue
            if real[0]['k'] in ('ilist',) or vs[0].op == 'vec': r.append((s, vs[0] if vs[0].op == 'vec' else val(I, s, real[0], vs[0]))); continue
            if len(real) == 2 and isiter(real[0]['t']): 
                r.append((s, T('ctor', 'vector', tuple(vs)))); continue
            if len(real) <= 2 and unq(real[0]['t']) in INTS:
                r.append((s, T('filled', vs[0], vs[1] if len(vs) > 1 else T('default')))); continue
            r.append((s, T('ctor', 'vector', tuple(vs)))); continue
        if isiter(t):
            r.append((s, val(I, s, real[0], vs[0]) if real else T('iter0'))); continue
        if t.startswith('std::optional<') or t.startswith('std::reference_wrapper<') or t.startswith('std::basic_string_view<') or t.startswith('std::function<'):
            if not real: r.append((s, NULL)); continue
            v = val(I, s, real[0], vs[0])
            if unq(real[0]['t']) == 'std::nullopt_t': v = NULL
            r.append((s, v)); continue
        if t.startswith('std::pair<') and len(real) == 2:
            r.append((s, T('pair', val(I, s, real[0], vs[0]), val(I, s, real[1], vs[1])))); continue
        if (e.get('copy') or e.get('move')) and real:
            v = val(I, s, real[0], vs[0]); r.append((s, v)); continue
        name = t.split('<')[0].split('::')[-1]
        if isstream(t):
            s = s.copy()
            a = tuple(I.argterm(s, x, v) for x, v in zip(real, vs))
            if 'stringstream' in name: r.append((s, T('ss', a[0] if a else T('str', '')))); continue
            a = openargs(name, a)
            if a: s.eff = s.eff + (T('call', 'open:' + name, a, s.epoch),)
            r.append((s, T('stream', name, a, s.epoch))); continue
        r.append((s, T('ctor', name, tuple(I.argterm(s, x, v) for x, v in zip(real, vs)))))
    return r

def move_from(I, s, src):
    if isinstance(src, T) and src.op in ('loc', 'heap', 'fld', 'deref', 'elem', 'glob'):
        if I.isfresh(s, src): s.store[src] = NULL
        elif src.op == 'loc': s.store[src] = NULL
        else: s.store[src] = NULL

# ------------------------------------------------------------------------------------- free functions
def withdefaults(I, cls, args):
    """arguments of an in-place construction completed with the constructor's default arguments"""
    args = [a for a in args if not a.get('defarg')]
    if not I.h.mine(cls): return args
    u = pick_ctor(I, cls, args)
    return args + [p['def'] for p in I.F[u]['params'][len(args):]] if u else args
def byvalue(I, s, cls, args, vs):
    """class objects handed to parameters taken by value are copied"""
    u = pick_ctor(I, cls, args) if I.h.mine(cls) else None
    if not u: return s, vs
    out = []
    for a, v, p in zip(args, vs, I.F[u]['params']):
        t = unq(p['t'])
        if not p.get('ref') and I.h.mine(t) and v.op not in ('loc', 'heap') and I.h.fields(t):
            l = I.tmp(); s = s.copy(); s.dyn = dict(s.dyn); s.dyn[l] = t
            I.copyobj(s, v, l, t); v = l
        out.append(v)
    return s, out
def make_obj(I, e, cls, args, st, argtypes=None):
    """new cls(args...) through make_unique/emplace: overload chosen by the front end's types"""
    out = []
    args = withdefaults(I, cls, args)
    if I.is_opaque_cls(cls):
        return I.opaque_new(e, cls, args, st)
    for s, vs in I.evs(args, st):
        s = s.copy(); h = I.alloc(s, cls)
        if not I.h.mine(cls):
            k = {'k': 'ctor', 't': cls, 'a': args, 'copy': False}
            # re-evaluate as library ctor on already evaluated values
            for s2, v in libctor_vals(I, cls, args, vs, s): 
                s2 = s2.copy(); s2.store[h] = v; out.append((s2, T('addr', h)))
            continue
        for s2 in construct_vals(I, e, h, cls, args, vs, s): out.append((s2, T('addr', h)))
    return out

def construct_vals(I, e, loc, cls, args, vs, s):
    if (len(args) == 1 and I.h.mine(args[0]['t']) and unq(args[0]['t']) == cls):
        u = copy_ctor(I, cls, args[0].get('xv') or not args[0].get('lv') )
        if u is None or 'inits' not in I.F.get(u, {}):
            s = s.copy(); s.dyn = dict(s.dyn); s.dyn[loc] = cls
            I.copyobj(s, vs[0], loc, cls); return [s]
        return I.run_ctor(I.F[u], loc, cls, vs, mark(s, loc, cls))
    u = pick_ctor(I, cls, args)
    if u is None:
        s = s.copy(); s.dyn = dict(s.dyn); s.dyn[loc] = cls
        if not args: return I.defaults(cls, loc, [s])
        # aggregate
        fs = I.h.fields(cls)
        if len(fs) == len(args):
            for (fn, f), v, a in zip(fs, vs, args):
                I.setfield(s, T('fld', loc, fn), f['t'], v if I.h.mine(f['t']) or f.get('ref') else val(I, s, a, v), f.get('ref'))
            return [s]
        s.store[loc] = T('obj', cls, tuple(I.argterm(s, a, v) for a, v in zip(args, vs))); return [s]
    f = I.F[u]
    if I.opaque_fn(u, f):
        s, vs = byvalue(I, s, cls, args, vs)
        s = s.copy(); s.dyn = dict(s.dyn); s.dyn[loc] = cls
        s.store[loc] = T('obj', cls, tuple(I.argterm(s, a, v) for a, v in zip(args, vs))); return [s]
    s = mark(s, loc, cls)
    nv = []
    for p, a, v in zip(f['params'], args, vs):
        if p.get('ref'):
            if not (a.get('lv') or a.get('xv') or a['k'] == 'mat'):
                if not (I.h.mine(a['t'])): l = I.tmp(); s.store[l] = v; v = l
            nv.append(v)
        elif I.h.mine(p['t']):
            if unq(a['t']) != unq(p['t']):   # converting constructor, e.g. DataType(Type)
                l = I.tmp(); x = val(I, s, a, v) if not I.h.mine(a['t']) else v
                cu = pick_ctor(I, unq(p['t']), [a])
                if cu:
                    rs = I.run_ctor(I.F[cu], l, unq(p['t']), [x], mark(s, l, unq(p['t'])))
                    s = rs[0]; nv.append(l); continue
            nv.append(v)
        else:
            x = val(I, s, a, v)
            if isuptr(p['t']) and (a.get('xv')): move_from(I, s, v)
            nv.append(x)
    for p in f['params'][len(args):]:
        if p.get('def') is not None:
            rs = I.ev(p['def'], s); s, v = rs[0]; nv.append(v)
    return I.run_ctor(f, loc, cls, nv, s)

def openargs(name, a):
    """open flags with what the stream class adds"""
    if not a: return a
    m = a[1] if len(a) > 1 else C(16 if 'ofstream' in name else 8 if 'ifstream' in name else 24)
    if isc(m):
        m = m.a[0]
        if 'ofstream' in name:
            m |= 16
            if not m & 9: m |= 32
        elif 'ifstream' in name: m |= 8
        m = C(m)
    return (a[0], m) + tuple(a[2:])
def mark(s, loc, cls):
    s = s.copy(); s.dyn = dict(s.dyn); s.dyn[loc] = cls; return s

def libctor_vals(I, cls, args, vs, s):
    name = cls.split('<')[0].split('::')[-1]
    a = tuple(I.argterm(s, x, v) for x, v in zip(args, vs))
    if isstr(cls) and len(a) == 1: return [(s, a[0])]
    if isstr(cls) and not a: return [(s, T('str', ''))]
    if isvec(cls) and not a: return [(s, T('vec', ()))]
    if isstream(cls) and 'stringstream' not in name:
        a = openargs(name, a)
        s = s.copy()
        if a: s.eff = s.eff + (T('call', 'open:' + name, a, s.epoch),)
        return [(s, T('stream', name, a, s.epoch))]
    return [(s, T('ctor', name, a))]

def copy_ctor(I, cls, move):
    ms = I.h.recs[cls].get('methods', ())
    if move:
        for m in ms:
            if m.get('movector') and not m['deleted'] and m['fn'] in I.F: return m['fn']
    for m in ms:
        if m.get('copyctor') and not m['deleted'] and m['fn'] in I.F: return m['fn']
    return None

def conv_score(I, at, a, pt, ref):
    x, y = unq(at), unq(pt)
    if x == y: return 3
    if isptr(x) and isptr(y):
        bx, by = unq(x.rstrip('*').strip()), unq(y.rstrip('*').strip())
        if bx == by: return 2.9
        if x == 'std::nullptr_t': return 2.5
        if I.h.isa(bx, by): return 2
        return None
    if I.h.mine(x) and I.h.mine(y) and I.h.isa(x, y): return 2.5
    num = lambda t: t in INTS or t in FLOATS or t == 'bool' or t in I.p.enums
    if num(x) and num(y): return 1 + (0.5 if (x in FLOATS) == (y in FLOATS) else 0)
    if isstr(y) and (x.startswith('char[') or x.startswith('char *') or x == 'char *' or 'char' in x and ('*' in x or '[' in x)): return 1
    if isuptr(y) and (isptr(x) or isuptr(x)):
        if isuptr(x):
            bx, by = unq(telem(x)), unq(telem(y))
            return 2 if I.h.isa(bx, by) or bx == by else None
        return 1
    if I.h.mine(y):
        for m in I.h.recs[y].get('methods', ()):
            f = I.F.get(m['fn'])
            if f and f['kind'] == 'ctor' and len(f['params']) >= 1 and all('def' in p for p in f['params'][1:]):
                if unq(f['params'][0]['t']) == x: return 0.5
                if x in I.p.enums and unq(f['params'][0]['t']) == x: return 0.5
    if isvec(y) and isvec(x): return 1
    return None

def pick_ctor(I, cls, args):
    best = None
    key = (cls, tuple((a['t'], bool(a.get('lv'))) for a in args))
    if key in I.ctorcache: return I.ctorcache[key]
    n = len(args)
    c = cls; tried = set()
    cands = []
    w = [cls]
    for m in I.h.recs.get(cls, {}).get('methods', ()):
        f = I.F.get(m['fn'])
        if not f or f['kind'] != 'ctor' or m['deleted']: continue
        ps = f['params']
        if len(ps) < n or any('def' not in p for p in ps[n:]): continue
        sc = 0
        for a, p in zip(args, ps):
            x = conv_score(I, a['t'], a, p['t'], p.get('ref'))
            if x is None: sc = None; break
            sc += x
        if sc is not None and (best is None or sc > best[0]): best = (sc, m['fn'])
    r = best[1] if best else None
    I.ctorcache[key] = r
    return r

def call(I, e, st):
    qn = e.get('qn', ''); fn = e.get('fname', '')
    if e['fn'] in I.F: return None
    if fn in ('move', 'forward', 'as_const', 'ref', 'cref', 'to_underlying', 'move_if_noexcept') and qn.startswith('std::'):
        return I.ev(e['a'][0], st)
    if qn.startswith('std::make_unique') or qn.startswith('std::make_shared'):
        return make_obj(I, e, unq(telem(e['t'])), e['a'], st)
    if fn == 'abort' or fn == 'terminate' or fn in ('exit', '_exit', 'quick_exit'):
        for s, vs in I.evs(e['a'], st):
            I.ev_note('abort', e, s)
            I.throw(s, T('exc', fn, tuple(vs)), 'noreturn', e)
        return []
    if fn == 'addressof': return [(s, T('addr', l)) for s, l in I.ev(e['a'][0], st)]
    if fn in ('begin', 'end', 'cbegin', 'cend', 'size', 'ssize', 'empty', 'data') and qn.startswith('std::'):
        r = []
        for s, l in I.ev(e['a'][0], st): r += container(I, e, fn, l, e['a'][0]['t'], (), s)
        return r
    if fn in ('get',) and qn.startswith('std::get'):
        r = []
        for s, l in I.ev(e['a'][0], st): r.append((s, T('fld', l, 'std::pair::first')))
        return r
    if fn == 'swap' and qn == 'std::swap':
        r = []
        for s, (a, b) in I.evs(e['a'], st):
            s = s.copy(); x, y = I.load(s, a), I.load(s, b); I.put(s, a, y); I.put(s, b, x); r.append((s, C(0)))
        return r
    if fn == 'make_pair':
        r = []
        for s, vs in I.evs(e['a'], st): r.append((s, T('pair', val(I, s, e['a'][0], vs[0]), val(I, s, e['a'][1], vs[1]))))
        return r
    if fn == 'exchange' and qn == 'std::exchange':
        r = []
        for s, (a, b) in I.evs(e['a'], st):
            s = s.copy(); old = I.load(s, a); I.put(s, a, val(I, s, e['a'][1], b)); r.append((s, old))
        return r
    if fn in ('min', 'max', 'clamp') and qn.startswith('std::') and len(e['a']) == 2 and I.numkind(e['a'][0]['t']) == 'i':
        r = []
        for s, (a, b) in I.evs(e['a'], st):
            x, y = I.load(s, a), I.load(s, b)
            c = cmp_int('<', y, x) if fn == 'min' else cmp_int('<', x, y)
            for s2, t in I.split(s, c):
                r.append((s2, b if t else a))
        return r
    if fn == 'getline' and qn.startswith('std::'):
        r = []
        for s, vs in I.evs(e['a'], st):
            s = s.copy(); strm, dst = vs[0], vs[1]
            delim = vs[2] if len(vs) > 2 else C(10)
            old = I.load(s, strm)
            s.eff = s.eff + (T('io', 'getline', strm, (delim,)),) if not ss_local(I, s, strm) else s.eff
            I.put(s, strm, T('upd', 'getline', old, (delim,)), log=False)
            I.put(s, dst, T('line', old, delim), log=True)
            r.append((s, strm))
        return r
    if fn in ('any_of', 'all_of', 'none_of', 'find_if', 'find_if_not', 'for_each', 'find', 'count_if', 'accumulate', 'transform', 'copy', 'equal', 'count', 'replace', 'reverse', 'sort', 'remove', 'remove_if', 'erase_if', 'fill', 'iota') and qn.startswith('std::') :
        r = algorithm(I, e, fn, st)
        if r is not None: return r
    if fn == 'setprecision' or fn in ('setw', 'setfill', 'fixed', 'left', 'right', 'hex', 'boolalpha', 'defaultfloat'):
        return [(s, T('manip', fn, vs)) for s, vs in I.evs(e['a'], st)]
    if fn == 'modf':
        r = []
        for s, (x, p) in I.evs(e['a'], st):
            s = s.copy(); l = I.deref(e, s, p); I.put(s, l, T('call', 'trunc', (x,))); r.append((s, T('call', 'modf', (x,))))
        return r
    if fn in ('strtol', 'strtod', 'strtoll', 'strtof', 'strtoul', 'strtold', 'strtoull'):
        r = []
        for s, vs in I.evs(e['a'], st):
            s = s.copy()
            if len(vs) > 1 and vs[1].op != 'null':
                l = I.deref(e, s, vs[1]); I.put(s, l, T('call', fn + '.end', (vs[0],) + tuple(vs[2:])))
            r.append((s, T('call', fn, (vs[0],) + tuple(vs[2:]))))
        return r
    if fn in ('stol', 'stod', 'stoul', 'stoi', 'stoll', 'stoull', 'stof', 'stold'):
        r = []
        for s, vs in I.evs([a for a in e['a'] if not a.get('defarg')], st):
            a = val(I, s, e['a'][0], vs[0])
            I.ev_note('sto', e, s, v=a, fn=fn)
            t = T('call', fn, (a,) + tuple(vs[1:]))
            if I.trydepth:
                s2 = s.copy(); f = s2.facts.assume(T('throws', 'std::invalid_argument', t), True)
                if f is not None: s2.facts = f; I.throw(s2, T('exc', 'std::invalid_argument', (t,)), 'std::invalid_argument', e)
                s2 = s.copy(); f = s2.facts.assume(T('throws', 'std::out_of_range', t), True)
                if f is not None: s2.facts = f; I.throw(s2, T('exc', 'std::out_of_range', (t,)), 'std::out_of_range', e)
                s = s.copy()
                f = s.facts.assume(T('throws', 'std::invalid_argument', t), False)
                if f: f = f.assume(T('throws', 'std::out_of_range', t), False)
                if f is None: continue
                s.facts = f
            r.append((s, t))
        return r
    if fn in ('from_chars',):
        return None
    if fn[-1:] in 'fl' and fn[:-1] in FLOATFN:
        # the single and extended precision variants
        r = []
        for s, vs in I.evs(e['a'], st):
            t = T('call', fn[:-1], tuple(I.snap(s, val(I, s, a, v)) for a, v in zip(e['a'], vs)))
            r.append((s, T('f32', t) if fn[-1] == 'f' else t))
        return r
    if qn in PURE or fn in PURE:
        r = []
        for s, vs in I.evs(e['a'], st):
            t = T('call', fn, tuple(I.snap(s, val(I, s, a, v)) for a, v in zip(e['a'], vs)))
            if fn in ('isdigit', 'isalpha', 'isalnum', 'isspace') and t.a[1][0].op == 'trunc': pass
            if fn in ('floor','ceil','trunc','round') and t.a[1][0].op == 'i2f': t = t.a[1][0]
            if fn in ('isdigit', 'isspace', 'isalpha', 'isalnum', 'isupper', 'islower') and t.a[1][0].op == 'const':
                c = t.a[1][0].a[0]
                ch = chr(c) if 0 <= c < 128 else '\x80'
                v = {'isdigit': ch.isdigit(), 'isspace': ch in ' \t\n\r\v\f', 'isalpha': ch.isalpha() and c < 128, 'isalnum': ch.isalnum() and c < 128, 'isupper': ch.isupper(), 'islower': ch.islower()}[fn]
                t = C(1 if v else 0)
            if fn in ('tolower', 'toupper') and t.a[1][0].op == 'const':
                c = t.a[1][0].a[0]; t = C(ord(getattr(chr(c), fn[2:])()) if 0 <= c < 128 else c)
            r.append((s, t))
        return r
    if fn in ('rand', 'random'):
        s = st.copy(); s.eff = s.eff + (T('call', 'rand', (), s.epoch),); t = T('ret', 'rand', (), (s.epoch, len(s.eff)))
        return [(s, t)]
    if qn.startswith('std::filesystem::'):
        r = []
        real = [a for a in e['a'] if not a.get('defarg')]
        for s, vs in I.evs(real, st):
            a = tuple(I.argterm(s, x, v) for x, v in zip(real, vs))
            ro = fn in ('exists', 'is_regular_file', 'is_directory', 'file_size', 'status', 'is_empty', 'absolute', 'canonical')
            t = T('ret', qn, a[:1], s.epoch)
            if not ro:
                s = s.copy(); s.eff = s.eff + (T('call', qn, a, s.epoch),); s.epoch += 1
            r.append((s, t))
        return r
    if qn.startswith('std::chrono') or fn in ('localtime', 'time', 'gmtime', 'mktime', 'localtime_r'):
        r = []
        for s, vs in I.evs(e['a'], st):
            r.append((s, T('call', fn, tuple(I.snap(s, val(I, s, a, v)) for a, v in zip(e['a'], vs)))))
        return r
    if qn.startswith('std::') and not e.get('noret'):
        # unknown library function: opaque, may modify non-const reference arguments
        I.note(st, 'lib ' + qn)
        r = []
        for s, vs in I.evs(e['a'], st):
            s = s.copy()
            a = tuple(I.argterm(s, x, v) for x, v in zip(e['a'], vs))
            t = T('ret', qn, a, 0)
            for pt, v in zip(e.get('pt', ()), vs):
                if pt.endswith('&') and not pt.startswith('const') and not pt.endswith('&&') and v.op in ('loc', 'heap', 'fld', 'deref', 'elem'):
                    I.put(s, v, T('upd', qn, I.load(s, v), a))
            r.append((s, I.mkret(s, e, t)))
        return r
    return None

def ss_local(I, s, l):
    return I.load(s, l).op in ('ss', 'upd') and I.isfresh(s, l) and 'stringstream' in str(l) or root(l).op == 'loc' and I.isfresh(s, l) and base(I.load(s, l)).op == 'ss'
def base(v):
    while v.op in ('upd', 'sscat') : v = v.a[1] if v.op == 'upd' else v.a[0]
    return v

def iter_range(I, s, b, en):
    if b.op == 'iter' and en.op == 'iter' and b.a[0] is en.a[0]: return b.a[0], b.a[1], en.a[1]
    return None

def algorithm(I, e, fn, st):
    """std algorithms on whole containers as synthesised loops"""
    if len(e['a']) < 3 or not isiter(e['a'][0]['t']): return None
    out = []
    for s, vs in I.evs(e['a'], st):
        xs = [val(I, s, a, v) if isiter(a['t']) else v for a, v in zip(e['a'], vs)]
        rg = iter_range(I, s, xs[0], xs[1])
        if rg is None or rg[1] is not C(0): return None
        cont, lo, hi = rg
        f = xs[2]
        if fn == 'transform' and len(xs) == 4:
            # dst may be begin() of the same or of another container
            g = xs[3] if xs[3].op in ('fn', 'lambda') else None
            if g is None or xs[2].op != 'iter': return None
            s = s.copy()
            src = I.load(s, cont)
            name = g.a[1] if g.op == 'fn' else skey(T('lam', lam_body(I, g, s)))
            I.put(s, xs[2].a[0], T('map', name, src))
            out.append((s, T('iter', xs[2].a[0], hi))); continue
        if fn in ('any_of', 'all_of', 'none_of', 'find_if', 'find_if_not', 'find', 'for_each', 'count_if'):
            if fn != 'find' and f.op not in ('fn', 'lambda'): return None
            out += synth_loop(I, e, fn, cont, f, s)
            continue
        return None
    return out

def lam_body(I, g, s):
    x = T('sym', 'x')
    try: r = I.call_lambda(g, (x,), s)
    except Exception: return T('?')
    return r[0][1] if len(r) == 1 else T('?')

def synth_loop(I, e, fn, cont, f, st):
    """for (auto &x : cont) if (f(x)) return ...;"""
    l = I.tmp(); st = st.copy(); st.store[l] = cont if False else C(0)
    I.uid += 1
    vid = -I.uid
    elt = {'id': vid, 'n': 'x', 't': 'auto', 'ref': True}
    node = {'k': 'rfor', 'l': e.get('l', 0), 'range': {'k': 'hook_loc', 'loc': cont, 't': 'c', 'lv': True, 'l': e.get('l', 0)}, 'var': elt,
            'b': {'k': 'if', 'l': e.get('l', 0), 'c': {'k': 'hook_app', 'f': f, 'vid': vid, 'fn': fn, 't': 'bool', 'l': e.get('l', 0)}, 't': {'k': 'hook_ret', 'l': 0, 'vid': vid}, 'f': None}}
    if fn == 'for_each':
        node['b'] = {'k': 'expr', 'l': e.get('l', 0), 'e': node['b']['c']}
    if fn == 'count_if': return [(st, I.note(st, 'count_if'))]
    out = []
    for k, s, v in I.s_rfor(node, st):
        if k == 'n':
            out.append((s, {'any_of': FALSE, 'all_of': TRUE, 'none_of': TRUE, 'for_each': C(0)}.get(fn) or T('iter', cont, I.size(I.load(s, cont)))))
        elif k == 'ret':
            out.append((s, {'any_of': TRUE, 'all_of': FALSE, 'none_of': FALSE}.get(fn) or T('iter', cont, v)))
    return out

def _hook_loc(I, e, st): return [(st, e['loc'])]
def _hook_app(I, e, st):
    b = I.lookup(st, e['vid'], 'x')
    f = e['f']
    if e['fn'] == 'find':
        a = I.load(st, b); x = f
        x = I.load(st, f) if f.op in ('loc', 'fld', 'deref', 'elem', 'heap') else f
        return [(st, cmp_any('==', a, x) if not isinstance(a, int) else FALSE)]
    if f.op == 'lambda':
        le = I.lambdas.get(f.a[0])
        arg = b
        if le and le.get('p') and not le['p'][0].get('ref') and not I.h.mine(le['p'][0]['t']): arg = I.load(st, b)
        r = I.call_lambda(f, (arg,), st)
    else:
        g = I.F.get(f.a[0])
        r = I.invoke({'k': 'call', 'a': [], 'qn': f.a[1], 't': 'bool', 'fname': f.a[1].split('::')[-1]}, f.a[0], None, (b if g and g['params'] and g['params'][0].get('ref') else I.load(st, b),), st)
    if e['fn'] in ('all_of', 'find_if_not'): r = [(s, NOT(I.truth(v))) for s, v in r]
    return r
def _hook_ret(I, s, st):
    b = I.lookup(st, s['vid'], 'x')
    return [('ret', st, b.a[1])]

# ------------------------------------------------------------------------------------- operators
def ocall(I, e, st):
    op = e['op']; A = e['a']; qn = e.get('qn', '')
    t0 = unq(A[0]['t'])
    if op == '<<' and isstream(t0): return stream_out(I, e, A[0], A[1], st)
    if op == '>>' and isstream(t0): return stream_in(I, e, A[0], A[1], st)
    if op == '!' and isstream(t0):
        return [(s, NOT(T('sok', I.load(s, v)))) for s, v in I.ev(A[0], st)]
    if op in ('*', '->') and (isuptr(t0) or isiter(t0) or t0.startswith('std::optional') or t0.startswith('std::shared_ptr')):
        r = []
        for s, l in I.ev(A[0], st):
            p = val(I, s, A[0], l)
            if t0.startswith('std::optional'):
                r.append((s, l if op == '*' else T('addr', l))); continue
            if op == '->': 
                r.append((s, p if p.op != 'iter' else T('addr', T('elem', p.a[0], p.a[1]))))
            else: r.append((s, I.deref(e, s, p)))
        return r
    if op in ('|', '&', '^') and 'Openmode' in t0:
        r = []
        for s, (a, b) in I.evs(A, st):
            a, b = val(I, s, A[0], a), val(I, s, A[1], b)
            r.append((s, C({'|': a.a[0] | b.a[0], '&': a.a[0] & b.a[0], '^': a.a[0] ^ b.a[0]}[op]) if isc(a) and isc(b) else T('i' + op, a, b)))
        return r
    if op == '[]' and len(A) == 2:
        r = []
        for s, (c, i) in I.evs(A, st):
            i = val(I, s, A[1], i)
            if isuptr(t0): r.append((s, T('elem', I.deref(e, s, val(I, s, A[0], c)), i))); continue
            I.ev_note('index', e, s, c=c, i=i, size=lambda s=s, c=c: I.size(I.load(s, c)))
            r.append((s, T('elem', c, i)))
        return r
    if op == '=':
        r = []
        for s, v in I.ev(A[1], st):
            for s2, l in I.ev(A[0], s):
                s2 = s2.copy()
                x = val(I, s2, A[1], v)
                if isuptr(t0):
                    if unq(A[1]['t']) == 'std::nullptr_t': x = NULL
                    elif A[1].get('xv') or (A[1]['k'] == 'mat' and False): move_from(I, s2, v)
                if isstr(t0) and unq(A[1]['t']) == 'char': x = chr2s(x)
                I.put(s2, l, x); r.append((s2, l))
        return r
    if op == '+=' and isstr(t0):
        r = []
        for s, v in I.ev(A[1], st):
            for s2, l in I.ev(A[0], s):
                s2 = s2.copy(); x = tostr(A[1], val(I, s2, A[1], v))
                I.put(s2, l, cat(I.load(s2, l), x)); r.append((s2, l))
        return r
    if op == '+' and (isstr(e['t'])):
        r = []
        for s, vs in I.evs(A, st):
            r.append((s, cat(*[tostr(a, val(I, s, a, v)) for a, v in zip(A, vs)])))
        return r
    if op in ('==', '!=', '<', '>', '<=', '>=') and len(A) == 2:
        r = []
        for s, vs in I.evs(A, st):
            a, b = [val(I, s, x, v) for x, v in zip(A, vs)]
            t1 = unq(A[1]['t'])
            if isiter(t0) or a.op == 'iter':
                if op == '==': c = iter_eq(a, b)
                elif op == '!=': c = NOT(iter_eq(a, b))
                elif a.op == 'iter' and b.op == 'iter' and a.a[0] is b.a[0]: c = cmp_int(op, a.a[1], b.a[1])
                else: c = cmp_any(op, a, b)
            elif isuptr(t0) or isuptr(t1): c = eq_ptr(a, b) if op == '==' else NOT(eq_ptr(a, b))
            elif isvec(t0):
                c = vec_eq(I, s, A[0], vs[0], vs[1], op, r, e)
                if c is None: continue
            else:
                # strings compared with "" are emptiness tests
                if op in ('==', '!=') and (a.op == 'str' and a.a[0] == '' or b.op == 'str' and b.a[0] == ''):
                    o = b if a.op == 'str' and a.a[0] == '' else a
                    c = cmp_int(op, I.size(o), C(0))
                else: c = cmp_any(op, a, b)
            r.append((s, c))
        return r
    if op in ('++', '--'):
        r = []
        for s, l in I.ev(A[0], st):
            old = I.load(s, l); d = 1 if op == '++' else -1
            nv = T('iter', old.a[0], add(old.a[1], C(d))) if old.op == 'iter' else T('pinc', old, op)
            s = s.copy(); I.put(s, l, nv); r.append((s, old if len(A) > 1 else l))
        return r
    if op in ('+', '-') and isiter(t0):
        r = []
        for s, vs in I.evs(A, st):
            a, b = [val(I, s, x, v) for x, v in zip(A, vs)]
            if b.op == 'iter' and a.op == 'iter': r.append((s, sub(a.a[1], b.a[1])))
            elif a.op == 'iter': r.append((s, T('iter', a.a[0], add(a.a[1], b) if op == '+' else sub(a.a[1], b))))
            else: r.append((s, T('p' + op, a, b)))
        return r
    if op in ('+=', '-=') and isiter(t0):
        r = []
        for s, vs in I.evs(A, st):
            a = I.load(s, vs[0]); b = val(I, s, A[1], vs[1]); s = s.copy()
            I.put(s, vs[0], T('iter', a.a[0], add(a.a[1], b) if op == '+=' else sub(a.a[1], b)) if a.op == 'iter' else T('p' + op, a, b)); r.append((s, vs[0]))
        return r
    if op == '()':
        r = []
        for s, vs in I.evs(A, st):
            c = val(I, s, A[0], vs[0])
            r += I.call_value(dict(e, a=A[1:]), c, vs[1:], s)
        return r
    # anything else: opaque value
    r = []
    for s, vs in I.evs(A, st):
        a = tuple(I.snap(s, val(I, s, x, v)) for x, v in zip(A, vs))
        if op in ('==', '!=') and all('chrono::' in str(x.get('t')) for x in A[:2]): r.append((s, cmp_any(op, a[0], a[1])))
        elif op in ('-', '+', '*', '/', '%', '==', '<', '!=', '<=>') : r.append((s, calendar(op, a) or T('call', 'op' + op, a)))
        else:
            I.note(s, 'op ' + qn); r.append((s, I.mkret(s, e, T('call', 'op' + op, a))))
    return r

def vec_eq(I, s, A0, l1, l2, op, r, e):
    a, b = I.load(s, l1), I.load(s, l2)
    et = unq(telem(A0['t']))
    # element equality is the element type's operator== (analysed as its own obligation); the vectors as wholes
    c = cmp_any('==', T('seq', a, eqop(I, et, e)), T('seq', b, eqop(I, et, e)))
    return c if op == '==' else NOT(c)

def eqop(I, et, e=None):
    """summary term of the element type's operator=="""
    if not I.h.mine(et): return T('sym', 'builtin==')
    cache = I.__dict__.setdefault('_eqop', {})
    if et in cache: return cache[et]
    cache[et] = T('sym', 'eq:' + et)
    u = None
    for x, f in I.F.items():
        if f['name'] == 'operator==' and (f.get('cls') == et or (f['params'] and unq(f['params'][0]['t']) == et)) and unq(f['params'][-1]['t']) == et: u = x
    if u is None: return cache[et]
    from .interp import St
    f = I.F[u]
    try:
        st = St(); a = T('deref', T('sym', 'L')); b = T('deref', T('sym', 'R'))
        if f.get('cls'): rs = I.run_fn(f, a, [b], st) if 'body' in f else None
        else: rs = I.run_fn(f, None, [a, b], st)
        if rs is None:
            t = T('fieldwise', et)
        else:
            ps = []
            for s2, v in rs:
                for s3, bo in I.split(s2, I.truth(v)):
                    if bo: ps.append(tuple(sorted((T('F', L, x[0] if x[0] is not None else '-', x[1] if x[1] is not None else '-', tuple(sorted(x[2]))) for L, x in s3.facts.lin.items()), key=skey)) + tuple(sorted((T('Fo', k[0], k[1], ''.join(sorted(v))) for k, v in s3.facts.ord.items()), key=skey)) + tuple(sorted((T('Ft', k, v) for k, v in s3.facts.tv.items()), key=skey)))
            t = T('eqdef', tuple(sorted(set(ps), key=skey)))
    except RecursionError: raise
    except Exception as ex:
        t = T('sym', 'eq?' + et)
    cache[et] = t
    return t

def stream_out(I, e, a0, a1, st):
    r = []
    for s, l in I.ev(a0, st):
        t1 = unq(a1['t'])
        for s2, v in I.ev(a1, s):
            x = val(I, s2, a1, v)
            if x.op == 'fn': x = T('manip', x.a[1].split('::')[-1].split('<')[0], ())
            if t1 == 'char': x = chr2s(x)
            elif t1 == 'bool': x = T('boolout', x)
            elif t1 in FLOATS: x = T('fltout', x)
            elif t1 in INTS: x = T('intout', x)
            s2 = s2.copy()
            x = I.snap(s2, x)
            emit(I, s2, l, x)
            r.append((s2, l))
    return r

def emit(I, s, l, x):
    old = I.load(s, l)
    if base(old).op == 'ss' and I.isfresh(s, l):
        s.store[l] = T('sscat', old, x); return
    s.eff = s.eff + (T('out', l, x),)
    s.store[l] = T('upd', 'out', old, ())

def stream_in(I, e, a0, a1, st):
    r = []
    for s, (l, d) in I.evs((a0, a1), st):
        s = s.copy(); old = I.load(s, l)
        t1 = unq(a1['t'])
        if d.op == 'fn' or t1.startswith('std::ios_base &(') or '(' in t1:
            s.store[l] = T('upd', 'manip', old, (d,)); r.append((s, l)); continue
        if not (base(old).op == 'ss' and I.isfresh(s, l)): s.eff = s.eff + (T('io', 'extract', l, (t1 if not isstr(t1) else 'string',)),)
        k = t1 if not isstr(t1) else 'string'
        I.put(s, d, T('rd', k, old))
        s.store[l] = T('upd', 'extract:' + k, old, ())
        r.append((s, l))
    return r

# ------------------------------------------------------------------------------------- methods
def mcall(I, e, st):
    fn = e['fname']; t0 = e.get('cls', '')
    r = []
    for s, o in I.ev(e['obj'], st):
        ot = e['obj']['t']
        if e['arrow']: o = I.deref(e, s, o)
        elif not (e['obj'].get('lv') or e['obj'].get('xv') or e['obj']['k'] == 'mat'):
            if not I.h.mine(ot):
                l = I.tmp(); s = s.copy(); s.store[l] = o; o = l
        args = [a for a in e['a'] if not a.get('defarg')]
        if fn in ('emplace_back', 'push_back', 'emplace', 'push') and isvec(t0):
            r += push(I, e, o, t0, args, s); continue
        for s2, vs in I.evs(args, s):
            r += container(I, e, fn, o, t0, tuple(zip(args, vs)), s2)
    return r

def push(I, e, o, t0, args, st):
    et = unq(telem(t0)); r = []
    if isuptr(et):
        for s, vs in I.evs(args, st):
            s = s.copy()
            a, v = args[0], vs[0]
            x = val(I, s, a, v)
            if isuptr(a['t']) and a.get('xv'): move_from(I, s, v)
            r.append(pushv(I, e, s, o, x))
        return r
    if I.h.mine(et):
        if not (len(args) == 1 and unq(args[0]['t']) == et): args = withdefaults(I, et, args)
        if I.is_opaque_cls(et):
            for s, vs in I.evs(args, st):
                s, vs = byvalue(I, s, et, args, vs)
                s = s.copy(); r.append(pushv(I, e, s, o, T('obj', et, tuple(I.argterm(s, a, v) for a, v in zip(args, vs)))))
            return r
        for s, vs in I.evs(args, st):
            l = I.tmp()
            for s2 in construct_vals(I, e, l, et, args, vs, s):
                s2 = s2.copy(); r.append(pushv(I, e, s2, o, I.classval(s2, l, et)))
        return r
    for s, vs in I.evs(args, st):
        s = s.copy()
        if len(args) == 1:
            x = val(I, s, args[0], vs[0])
            if isstr(et) and unq(args[0]['t']) == 'char': x = chr2s(x)
        elif isstr(et) and not args: x = T('str', '')
        else: x = T('ctor', et, tuple(val(I, s, a, v) for a, v in zip(args, vs)))
        r.append(pushv(I, e, s, o, x))
    return r
def pushv(I, e, s, o, x):
    old = I.load(s, o)
    nv = T('vec', old.a[0] + (x,)) if old.op == 'vec' else T('push', old, x)
    if not I.isfresh(s, o):
        s.eff = s.eff + (T('push!', o, I.snap(s, x)),)
        I.escape(s, x)
        I.put(s, o, nv, log=False)
    else: I.put(s, o, nv)
    n = I.size(old)
    return (s, T('elem', o, n)) if e.get('lv') else (s, C(0))

def container(I, e, fn, o, t0, av, s):
    """library method on object location o; av = ((argexpr, value)...)"""
    args = tuple(v for a, v in av)
    avs = lambda i: val(I, s, av[i][0], av[i][1])
    cls = unq(t0).split('<')[0].split('::')[-1]
    if isuptr(t0):
        p = I.load(s, o)
        if fn == 'get': return [(s, p)]
        if fn == 'operator bool': return [(s, NOT(eq_ptr(p, NULL)))]
        if fn == 'release':
            s = s.copy(); I.put(s, o, NULL, log=False); return [(s, p)]
        if fn == 'reset':
            s = s.copy(); I.put(s, o, avs(0) if av else NULL); return [(s, C(0))]
        if fn == 'swap':
            s = s.copy(); q = I.load(s, args[0]); I.put(s, o, q); I.put(s, args[0], p); return [(s, C(0))]
        if fn == 'operator*': return [(s, I.deref(e, s, p))]
        if fn == 'operator->': return [(s, p)]
    if unq(t0).startswith('std::optional'):
        v = I.load(s, o)
        if fn in ('has_value', 'operator bool'): return [(s, NOT(eq_ptr(v, NULL)))]
        if fn in ('value', 'operator*'): return [(s, o)]
        if fn == 'reset': s = s.copy(); I.put(s, o, NULL); return [(s, C(0))]
    seq = isstr(t0) or isvec(t0)
    if seq or unq(t0).startswith('std::basic_string_view'):
        v = I.load(s, o)
        if fn in ('size', 'length', 'ssize'): return [(s, I.size(v))]
        if fn == 'empty': return [(s, cmp_int('==', I.size(v), C(0)))]
        if fn in ('begin', 'cbegin'): return [(s, T('iter', o, C(0)))]
        if fn in ('end', 'cend'): return [(s, T('iter', o, I.size(v)))]
        if fn in ('rbegin', 'rend', 'crbegin', 'crend'): return [(s, T('riter', o, fn[-3:]))]
        if fn == 'back':
            I.ev_note('index', e, s, c=o, i=sub(I.size(v), C(1)), size=lambda: I.size(v), back=True)
            return [(s, T('elem', o, sub(I.size(v), C(1))))]
        if fn == 'front':
            I.ev_note('index', e, s, c=o, i=C(0), size=lambda: I.size(v), front=True)
            return [(s, T('elem', o, C(0)))]
        if fn == 'at':
            I.ev_note('at', e, s, c=o, i=avs(0), size=lambda: I.size(v))
            return [(s, T('elem', o, avs(0)))]
        if fn in ('reserve', 'shrink_to_fit'): 
            I.ev_note('reserve', e, s, n=args[0] if args else None)
            if fn == 'reserve' and not isstr(t0):
                s = s.copy(); I.put(s, T('capof', o), avs(0), log=False)      # an empty vector gets exactly the capacity asked for
            return [(s, C(0))]
        if fn == 'capacity': return [(s, s.store[T('capof', o)] if T('capof', o) in s.store else T('capacity', v))]
        if fn in ('c_str', 'data'): return [(s, T('cstr', v) if isstr(t0) else T('addr', T('elem', o, C(0))))]
        if fn == 'pop_back':
            s = s.copy()
            if v.op == 'vec' and v.a[0]: nv = T('vec', v.a[0][:-1])
            elif v.op == 'push': nv = v.a[0]
            elif isstr(t0): nv = T('substr', v, C(0), sub(I.size(v), C(1)))
            else: nv = T('init_', v, sub(I.size(v), C(1)))
            I.ev_note('index', e, s, c=o, i=sub(I.size(v), C(1)), size=lambda: I.size(v), back=True)
            if not I.isfresh(s, o): s.eff = s.eff + (T('pop!', o),)
            I.put(s, o, nv, log=False); return [(s, C(0))]
        if fn == 'clear':
            s = s.copy(); I.put(s, o, T('str', '') if isstr(t0) else T('vec', ())); return [(s, C(0))]
        if fn == 'resize':
            s = s.copy(); n = avs(0)
            I.ev_note('reserve', e, s, n=n)
            I.put(s, o, T('resized', v, n)); return [(s, C(0))]
        if isstr(t0) or unq(t0).startswith('std::basic_string_view'):
            if fn == 'operator basic_string_view': return [(s, v)]
            if fn == 'substr':
                pos = avs(0) if av else C(0); n = avs(1) if len(av) > 1 else NPOS
                I.ev_note('substr', e, s, v=v, pos=pos)
                return [(s, substr(I, v, pos, n))]
            if fn in ('append', 'operator+='):
                s = s.copy()
                if len(av) == 1: x = tostr(av[0][0], avs(0))
                elif len(av) == 2 and unq(av[1][0]['t']) == 'char': x = T('rep', avs(0), avs(1))
                else: x = T('ctor', 'string', tuple(avs(i) for i in range(len(av))))
                I.put(s, o, cat(v, x)); return [(s, o)]
            if fn == 'push_back':
                s = s.copy(); I.put(s, o, cat(v, chr2s(avs(0)))); return [(s, C(0))]
            if fn in ('assign', 'operator='):
                s = s.copy(); x = tostr(av[0][0], avs(0)); I.put(s, o, x); return [(s, o)]
            if fn == 'compare': return [(s, T('call', 'compare', (v,) + tuple(avs(i) for i in range(len(av)))))]
            if fn in ('find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of', 'find_last_not_of', 'starts_with', 'ends_with', 'contains', 'at_'):
                a = tuple(tostr(av[i][0], avs(i)) if unq(av[i][0]['t']) == 'char' else avs(i) for i in range(len(av)))
                return [(s, T('call', fn, (v,) + a))]
            if fn == 'erase':
                s = s.copy()
                a = tuple(avs(i) for i in range(len(av)))
                if a and a[0].op == 'iter':
                    i = a[0].a[1]; n = C(1) if len(a) == 1 else sub(a[1].a[1], i) if a[1].op == 'iter' else None
                    nv = T('erased', v, i, n if n is not None else T('?'))
                    I.put(s, o, nv); return [(s, T('iter', o, i))]
                rm = a[0] if len(a) == 2 and a[0].op in ('ret', 'call') and a[0].a[0] in ('remove', 'std::remove') else None
                if rm is not None and len(rm.a[1]) == 3 and rm.a[1][0] is T('iter', o, C(0)) and rm.a[1][1] is a[1] is T('iter', o, I.size(v)):
                    # the erase-remove idiom
                    I.put(s, o, T('without', v, rm.a[1][2])); return [(s, o)]
                nv = T('erased', v, a[0] if a else C(0), a[1] if len(a) > 1 else NPOS)
                I.ev_note('substr', e, s, v=v, pos=a[0] if a else C(0))
                I.put(s, o, nv); return [(s, o)]
            if fn == 'insert':
                s = s.copy(); I.put(s, o, T('upd', 'insert', v, tuple(avs(i) for i in range(len(av))))); return [(s, o)]
        if isvec(t0):
            if fn == 'erase':
                s = s.copy(); a = tuple(avs(i) for i in range(len(av)))
                i = a[0].a[1] if a[0].op == 'iter' else a[0]
                nv = T('erased', v, i, C(1) if len(a) == 1 else (sub(a[1].a[1], i) if a[1].op == 'iter' else a[1]))
                if not I.isfresh(s, o): s.eff = s.eff + (T('erase!', o, i, nv.a[2]),)
                I.put(s, o, nv, log=False); return [(s, T('iter', o, i))]
            if fn in ('insert', 'assign', 'operator=', 'swap'):
                s = s.copy(); a = tuple(I.snap(s, avs(i)) for i in range(len(av)))
                I.put(s, o, T('upd', fn, v, a)); return [(s, o)]
    if isiter(t0):
        v = I.load(s, o)
        if fn == 'operator*': return [(s, I.deref(e, s, v))]
    if isstream(t0):
        v = I.load(s, o)
        if fn in ('operator<<',) and av:
            a, x = av[0]
            return stream_out(I, e, {'k': 'hook_loc', 'loc': o, 't': t0, 'lv': True}, a, s)
        if fn == 'operator bool': return [(s, T('sok', v))]
        if fn == 'operator!': return [(s, NOT(T('sok', v)))]
        if fn == 'fail': return [(s, NOT(T('sok', v)))]
        if fn == 'is_open':
            w = v
            while w.op == 'upd' and w.a[0] not in ('close', 'open'): w = w.a[1]
            if w.op == 'upd' and w.a[0] == 'close': return [(s, C(False))]
            if w.op == 'stream': return [(s, T('sok', w) if w.a[1] else C(False))]
            return [(s, T('get', fn, w))]
        if v.op == 'stream' and v.a[1] and fn in ('good', 'eof', 'bad'):      # just opened
            return [(s, T('sok', v) if fn == 'good' else C(False))]
        if fn in ('good', 'eof', 'bad', 'is_open', 'str', 'rdbuf', 'peek_', 'tellg', 'gcount', 'fail', 'rdstate') and not (fn == 'str' and av):
            if fn == 'str': return [(s, ssval(v))]
            return [(s, T('get', fn, v))]
        if fn == 'precision' and not av: return [(s, T('get', 'precision', v))]
        s = s.copy()
        a = tuple(I.argterm(s, x, y) for x, y in av)
        if fn == 'open':
            name = t0.split('<')[0].split('::')[-1]
            a = openargs(name, a)
            if v.op == 'stream' and not v.a[1]:
                # opening a stream made without a file: as if made with it
                s.eff = s.eff + (T('call', 'open:' + name, a, s.epoch),)
                s.store[o] = n = T('stream', v.a[0], a, s.epoch)
                old = T('new', v)
                s.eff = tuple(T('store', x.a[0], T('new', n)) if x.op == 'store' and x.a[1] is old else x for x in s.eff)
                return [(s, C(0))]
        if fn == 'str' and av:
            s.store[o] = T('ss', a[0]); return [(s, C(0))]
        local = base(v).op == 'ss' and I.isfresh(s, o)
        if fn == 'get' and len(av) == 1 and unq(av[0][0].get('t', '')) == 'char' and av[0][0].get('lv'):
            # get(c): c is left alone at the end of the stream
            if not local: s.eff = s.eff + (T('io', 'get', o, ()),)
            s.store[o] = n = T('upd', 'get', v, ()); r = []
            for s2, ok in I.split(s, T('sok', n)):
                if ok: s2 = s2.copy(); I.put(s2, av[0][1], T('trunc', 'char', T('io', 'get', v, ())))
                r.append((s2, o))
            return r
        if not local: s.eff = s.eff + (T('io', fn, o, a),)
        s.store[o] = T('upd', fn, v, a)
        if fn == 'read' and av:
            p = av[0][1]
            if p.op == 'addr': 
                l = p.a[0]
                while l.op == 'elem': l = l.a[0]
                s.store[l] = T('rd', 'bytes', v, a[1:])
        return [(s, o if e.get('lv') else T('io', fn, v, a))]
    # chrono and everything else
    v = I.load(s, o)
    a = tuple(I.snap(s, avs(i)) for i in range(len(av)))
    if e.get('cm') or unq(t0).startswith('std::chrono'):
        if fn == 'operator=':
            s = s.copy(); I.put(s, o, a[0]); return [(s, o)]
        if v.op == 'ctor' and v.a[0] in ('day', 'month', 'year', 'weekday') and fn in ('operator unsigned int', 'operator int'): return [(s, T('call', v.a[0] + '_num', v.a[1]))]
        t = T('get', fn, v) if not a else T('get', fn, v, a)
        return [(s, t)]
    if fn == 'operator=':
        s = s.copy(); I.put(s, o, a[0]); return [(s, o)]
    s = s.copy()
    I.note(s, 'method ' + cls + '::' + fn)
    I.put(s, o, T('upd', fn, v, a))
    return [(s, I.mkret(s, e, T('get', fn, v, a)))]

def calendar(op, a):
    """dates composed by `year / month / day` and `day / month / year`"""
    if op != '/' or len(a) != 2: return None
    parts = []
    for x in a:
        if x.op == 'call' and x.a[0] == 'op/': parts += list(x.a[1])
        else: parts.append(x)
    if len(parts) != 3 or not all(isinstance(x, T) for x in parts): return None
    def kind(x):
        if x.op == 'ctor' and x.a[0] in ('year', 'month', 'day'): return x.a[0]
        if x.op == 'get' and x.a[0] in ('year', 'month', 'day'): return x.a[0]
    k = [kind(x) for x in parts]
    n = lambda x, w: x if kind(x) else T('ctor', w, (x,))
    for order in (('year', 'month', 'day'), ('day', 'month', 'year'), ('month', 'day', 'year')):
        if all(k[i] in (order[i], None) for i in range(3)) and any(k[:2]):
            d = {w: n(x, w) for w, x in zip(order, parts)}
            return T('ctor', 'year_month_day', (d['year'], d['month'], d['day']))

def ssval(v):
    parts = []
    while v.op == 'sscat': parts.append(v.a[1]); v = v.a[0]
    b = [v.a[0]] if v.op == 'ss' else [T('get', 'str', v)]
    out = b + parts[::-1]
    if any(p.op == 'manip' for p in out):
        return T('fmt', *out)
    return cat(*[T('num2s', p.a[0]) if p.op == 'intout' else p for p in out])

def substr(I, v, pos, n):
    if v.op == 'str' and pos.op == 'const' and (n is NPOS or n.op == 'const'):
        if 0 <= pos.a[0] <= len(v.a[0]): return T('str', v.a[0][pos.a[0]:] if n is NPOS else v.a[0][pos.a[0]:pos.a[0]+n.a[0]])
    return T('substr', v, pos, n)

def install(cls):
    cls.libctor = lambda self, e, t, st: libctor(self, e, t, st)
    cls.x_hook_loc = lambda self, e, st: _hook_loc(self, e, st)
    cls.x_hook_app = lambda self, e, st: _hook_app(self, e, st)
    cls.s_hook_ret = lambda self, s, st: _hook_ret(self, s, st)
    cls.find_ctor_by_args = lambda self, c, e, vs: pick_ctor(self, c, e['a'])
from . import interp as _i
install(_i.Interp)
