"""Differential contract analysis of the current tree against the reviewed reference tree stored in spec/."""
import os, gzip, json, signal, time, multiprocessing as mp
from . import frontend, interp, sem, modular, diff
from .terms import *

VERIF = frontend.VERIF
REF = os.path.join(VERIF, 'spec', 'reference.json.gz')

def save_reference(prog, path=REF):
    d = dict(functions=prog.functions, records=prog.records, enums=prog.enums, globals=prog.globals, sources=prog.sources)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'wb') as fh:
        with gzip.GzipFile(fileobj=fh, mode='wb', mtime=0) as g: g.write(json.dumps(d, sort_keys=True).encode())
def load_reference(path=REF):
    d = json.loads(frontend.stable(gzip.open(path, "rb").read().decode()))
    p = frontend.Program()
    p.repo = '<reference>'; p.sources = d['sources']
    p.functions = d['functions']; p.records = d['records']; p.enums = d['enums']; p.globals = d['globals']
    return p

class Timeout(Exception): pass
def _alarm(*a): raise Timeout()

def sig(f): return (f['qn'], f['kind'], tuple(p['t'] for p in f['params']), bool(f.get('const')))
def replace_strings(o, m):
    if isinstance(o, dict): return {k: replace_strings(v, m) for k, v in o.items()}
    if isinstance(o, list): return [replace_strings(v, m) for v in o]
    if isinstance(o, str): return m.get(o, o)
    return o

def renamed_fields(cur, ref):
    """members of a class that only changed their name: as many gone as new of one type, in the same order"""
    m = {}
    for c, r in ref.records.items():
        n = cur.records.get(c)
        if n is None: continue
        rn = {x['n'] for x in r.get('fields', ())}; nn = {x['n'] for x in n.get('fields', ())}
        gone = [x for x in r.get('fields', ()) if x['n'] not in nn]; new = [x for x in n.get('fields', ()) if x['n'] not in rn]
        if not gone or len(gone) != len(new): continue
        for t in {x['t'] for x in gone}:
            a = [x['n'] for x in gone if x['t'] == t]; b = [x['n'] for x in new if x['t'] == t]
            if len(a) == len(b): m.update({(c, y): x for x, y in zip(a, b)})
    return m
def rename_fields(prog, m):
    pref = {c + '::' + y: c + '::' + x for (c, y), x in m.items()}
    def go(o):
        if isinstance(o, dict):
            for k, v in list(o.items()):
                if isinstance(v, str):
                    if v in pref:
                        o[k] = pref[v]
                        if o.get('n') == v.split('::')[-1]: o['n'] = pref[v].split('::')[-1]
                elif isinstance(v, (dict, list)): go(v)
        elif isinstance(o, list):
            for v in o: go(v)
    for f in prog.functions.values():
        go(f)
        for i in f.get('inits') or ():
            if 'f' in i: i['f'] = m.get((f.get('cls'), i['f']), i['f'])
    for g in prog.globals.values(): go(g)
    for c, r in prog.records.items():
        go(r)
        for x in r.get('fields', ()): x['n'] = m.get((c, x['n']), x['n'])

def inherit(a, b):
    """a class of a that overrides a virtual method it inherits in b: b gets the inherited body as an override of its own"""
    for c, r in a.records.items():
        q = b.records.get(c)
        if q is None: continue
        have = {m['fn'] for m in q.get('methods', ()) if 'fn' in m}
        for m in r.get('methods', ()):
            u = m.get('fn')
            if u in have or not m.get('over') or m.get('pure') or u in b.functions or 'body' not in a.functions.get(u, ()): continue
            # the implementation class c had in b
            w = list(q.get('bases', ())); src = None; roots = set(m['over'])
            while w and src is None:
                k = w.pop(0); rk = b.records.get(k)
                if rk is None: continue
                for x in rk.get('methods', ()):
                    if x.get('fn') in roots or set(x.get('over') or ()) & roots:
                        f = b.functions.get(x['fn'])
                        if f is not None and 'body' in f: src = x, f; break
                w += rk.get('bases', ())
            if src is None: continue
            f = dict(src[1]); f['usr'] = u; f['cls'] = c; f['qn'] = a.functions[u]['qn']; f['over'] = list(m['over'])
            b.functions[u] = f
            e = dict(src[0]); e['fn'] = u; e['over'] = list(m['over']); e['pure'] = False
            q['methods'] = list(q['methods']) + [e]

def align(cur, ref):
    """same function under another linker name (moved between files): use the reference's name; same enumerators under other
    values: use the reference's values"""
    extra = {}
    for u, f in cur.functions.items():
        if u not in ref.functions and 'body' in f: extra.setdefault(sig(f), []).append(u)
    gone = {}
    for u, f in ref.functions.items():
        if u not in cur.functions and 'body' in f: gone.setdefault(sig(f), []).append(u)
    m = {us[0]: gone[s][0] for s, us in extra.items() if len(us) == 1 and len(gone.get(s, ())) == 1}
    if m:
        cur.functions = {m.get(u, u): replace_strings(f, m) for u, f in cur.functions.items()}
        for u, f in cur.functions.items(): f['usr'] = u
        cur.records = replace_strings(cur.records, m)
    m = renamed_fields(cur, ref)
    if m: rename_fields(cur, m)
    inherit(cur, ref); inherit(ref, cur)
    # enumerators
    ch = {}
    for en, vals in cur.enums.items():
        rv = ref.enums.get(en)
        if rv is None or rv == vals: continue
        nv = {}; nxt = 1000
        for k in vals:
            if k in rv: nv[k] = rv[k]
            else: nv[k] = str(nxt); nxt += 1
        ch[en] = {}
        for k, v in vals.items(): ch[en][(k, v)] = nv[k]
        cur.enums[en] = nv
    if ch:
        def go(o):
            if isinstance(o, dict):
                if o.get('rk') == 'enumc' and o.get('en') in ch:
                    k = (o.get('n'), o.get('v'))
                    if k in ch[o['en']]: o['v'] = ch[o['en']][k]
                for v in o.values(): go(v)
            elif isinstance(o, list):
                for v in o: go(v)
        for f in cur.functions.values(): go(f)
        for g in cur.globals.values(): go(g)
        for r in cur.records.values(): go(r)

CALLED = Collect(lambda x: x.a[0] if x.op in ('call', 'ret') and x.a else None)
class Contract:
    def __init__(self, cur, ref):
        self.cur = cur; self.ref = ref
        align(cur, ref)
        self.S = sem.Sem(ref)
        self.C = sem.Sem(cur)
        R, N = ref.functions, cur.functions
        self.common = {u for u in R if u in N and 'body' in R[u] and 'body' in N[u]}
        self.names = self.common | {u for u in R if u in N}
        self.byq = {}
        for u, f in R.items():
            self.byq.setdefault(f['qn'], set()).add(u)
            if len(self.S.h.overriders(u)) > 1: self.byq.setdefault(f['qn'] + '!', set()).add(u)
        self.voc = diff.Voc({f['qn'] for f in R.values()} | {q for q in self.byq if q.endswith('!')} | {c + '::' + m['n'] for c, r in ref.records.items() for m in r.get('methods', ()) if 'n' in m}, {c + '::' + x['n'] for c, r in ref.records.items() for x in r.get('fields', ())},
                            dict([(c + '::' + x['n'], x['t']) for c, r in ref.records.items() for x in r.get('fields', ())] + [('#enums', set(ref.enums)), ('#const', {c + '::' + x['n'] for c, r in ref.records.items() for x in r.get('fields', ()) if x.get('const')})]),
                            {f['qn'] + x: f['ret'] for f in R.values() if f.get('ret') for x in ('', '!')})
        self.MN = modular.Summ(cur, self.S, self.names); self.MR = modular.Summ(ref, self.S, self.names)
        self.rd = {}
        self.changed = {u for u in self.common if (sem.nhash(R[u]) != sem.nhash(N[u]) or sem.envhash(ref, R[u]) != sem.envhash(cur, N[u])) and not (N[u].get('implicit') or N[u].get('defaulted'))}
        self.soft = frozenset(u for u in self.S.soft if u in self.common and u not in self.changed)
        self.MN2 = modular.Summ(cur, self.S, self.names, soft=self.soft); self.MR2 = modular.Summ(ref, self.S, self.names, soft=self.soft)
        self.softq = {self.ref.functions[u]['qn'] for u in self.soft}
        self.added = {u for u in N if u not in R and 'body' in N[u] and not N[u].get('implicit')}
        self.removed = {u for u in R if u not in N and 'body' in R[u] and not R[u].get('implicit')}
    def reads(self, qn):
        r = self.rd.get(qn, 0)
        if r == 0:
            if qn not in self.byq: r = None
            else:
                r = set()
                for u in self.byq[qn]: r |= self.S.vmode(u)['reads']
            self.rd[qn] = r
        return r
    def cmp(self, u, inline, aspects, unroll=0, budget=None):
        """(verdict, [Diff]) at one granularity"""
        inline = frozenset(inline)
        old = signal.signal(signal.SIGALRM, _alarm); signal.alarm(max(1, int(min(budget or getattr(self, 'budget', 60), getattr(self, 'deadline', time.time() + 1e6) - time.time()))))
        try:
            un, ur = unroll[1:] if isinstance(unroll, tuple) and unroll[0] == 'split' else (unroll, unroll)
            N = self.MN.paths(u, inline, un); R = self.MR.paths(u, inline, ur)
            soft = False
            if self.soft and any(isinstance(P, str) and P.startswith('more than') for P in (N, R)) and u not in self.soft:
                # too many paths: the steps over one token or character are kept as calls
                N = self.MN2.paths(u, inline, un); R = self.MR2.paths(u, inline, ur); soft = True
            if isinstance(N, str): return None, N
            if isinstance(R, str): return None, R
            D = diff.compare(N, R, self.voc, self.reads, aspects)
            if soft:
                for d in D:
                    if d.verdict and (any(q in (d.text or '') for q in self.softq) or self.softcalls(d.n) != self.softcalls(d.r)): d.verdict = None
        except Timeout: return None, 'time budget'
        except RecursionError: return None, 'recursion'
        finally: signal.alarm(0); signal.signal(signal.SIGALRM, old)
        if not D: return False, []
        me = self.ref.functions[u]['qn']; mine = [me in self.calls(P) for P in (N, R)]
        if mine[0] != mine[1]:
            # recursion on one side only: its value is not known on the other
            for d in D:
                if d.verdict and (me in self.calls([d.n]) or me in self.calls([d.r])): d.verdict = None
        T1 = [d for d in D if d.verdict]
        return (True, T1) if T1 else (None, D)
    def softcalls(self, p): return [e.a[0] for e in p.eff if e.op == 'call' and e.a[0] in self.softq]
    def called(self, paths): return {q for q in self.calls(paths) if q in self.byq}
    def calls(self, paths, facts=True):
        r = set()
        if isinstance(paths, str): return r
        for p in paths:
            for t in list(p.eff) + (list(p.facts.atoms()) if facts else []) + ([p.val] if isinstance(p.val, T) else []): r |= CALLED(t)
        return r
    def virtual(self, u):
        """reached through dynamic dispatch"""
        return any(u in self.S.h.over.get(b, ()) for b in self.S.h.over) or len(self.S.h.overriders(u)) > 1
    def inlinable(self, qns):
        r = set()
        for q in qns:
            for u in self.byq.get(q, ()):
                if (u in self.common or u in self.removed) and not self.virtual(u): r.add(u)
        return r
    def verdict(self, u, aspects=frozenset(), base=frozenset()):
        """EQ / DIFF / UNDEC with witnesses; when loops cannot be matched, runs of at most two iterations per loop are compared, and
        a difference that rests on a loop must show up among those runs as well"""
        r = self.verdict_(u, aspects, base)
        fs = {u} | set(r[2])
        loops = any(self.C.loops.get(x) or self.S.loops.get(x) for x in fs)
        if r[0] is None and not isinstance(r[1], str) and u not in base:
            me = self.ref.functions[u]['qn']
            if (me in self.calls(self.MN.paths(u, frozenset(r[2]), 0))) != (me in self.calls(self.MR.paths(u, frozenset(r[2]), 0))):
                # recursion on one side only: runs of at most two nested calls
                new = me in self.calls(self.MN.paths(u, frozenset(r[2]), 0))
                for k in (2, ('split', 1, 2) if new else ('split', 2, 1), 1):
                    q = self.verdict_(u, aspects, base | {u}, k)
                    if os.environ.get('PSE_DEBUG'): print('recursion', u, k, '->', q[0], q[1] if isinstance(q[1], str) else '')
                    if q[0] is True: return True, q[1], q[2] - {u}
                    if not isinstance(q[1], str) and not isinstance(k, tuple): break
        if not loops or r[0] is False: return r
        if r[0] is True and any(not d.loopy() for d in r[1]): return r
        # loops written differently on the two sides: only they are unrolled, the others keep their summaries
        fs |= {x for x in self.added if self.C.loops.get(x)}
        a = set().union(*(sem.loophashes(self.cur, x) for x in fs)); b = set().union(*(sem.loophashes(self.ref, x) for x in fs))
        own = frozenset(a ^ b)
        if not own and r[0] is True: return r
        for k in ([(2, 2, own), (2, 1, own)] if own and a & b else []) + [2, (2, 1), 1]:
            q = self.verdict_(u, aspects, base, k)
            if os.environ.get('PSE_DEBUG'): print('unrolled', u, k[:2] if isinstance(k, tuple) else k, r[0], '->', q[0], q[1] if isinstance(q[1], str) else '')
            if q[0] is True: return q
            if not isinstance(q[1], str):
                if r[0] is True: return None, r[1], r[2]
                if not isinstance(k, tuple) or len(k) == 2: break
        return r
    def verdict_(self, u, aspects, base, unroll=0):
        v, D = self.cmp(u, base, aspects, unroll)
        if v is not True: return v, D, base
        inl = set(base); best = D
        for rnd in range(3):
            un, ur = unroll[1:] if isinstance(unroll, tuple) and unroll[0] == 'split' else (unroll, unroll)
            a, b = self.called(self.MN.paths(u, frozenset(inl), un)), self.called(self.MR.paths(u, frozenset(inl), ur))
            more = self.inlinable((a ^ b)) | {x for x in self.inlinable(a & b) if x in self.changed}
            more -= inl | {u}
            if not more: break
            inl |= more
            v2, D2 = self.cmp(u, inl, aspects, unroll)
            if v2 is False: return False, D2, frozenset(inl)
            if v2 is True: best = D2
            else:
                # functions with effects called on one side only may make up for the difference: what does not involve them stands
                qns = {self.cur.functions[x]['qn'] if x in self.cur.functions else self.ref.functions[x]['qn'] for x in more}
                pure = {self.ref.functions[x]['qn'] for x in more if x in self.common and not self.S.writes[x]}
                clean = [d for d in best if not self.calls((d.n, d.r)) & (qns - pure)]
                if os.environ.get('PSE_DEBUG'): print('inlining', u, 'undecided:', D2 if isinstance(D2, str) else [d.text[:150] for d in D2[:3]], sorted(qns), len(best), len(clean), [(d.text[:150], self.calls((d.n,)) & qns, self.calls((d.r,)) & qns) for d in best[:3]])
                if not clean: return None, D2 if not isinstance(D2, str) else [diff.Diff(d.n, d.r, 'calls not comparable: ' + d.text, None) for d in best], frozenset(inl - more)
                best = clean; inl -= more
                break
        # conditions on the result of a predicate: what the predicate computes may contradict the other conditions
        pr = self.predicates(best) - inl - {u}
        if pr:
            v2, D2 = self.cmp(u, inl | pr, aspects, unroll)
            if v2 is False: return False, D2, frozenset(inl | pr)
            if not isinstance(D2, str): return v2, D2, frozenset(inl | pr)
        return True, best, frozenset(inl)
    def predicates(self, D):
        r = set()
        for d in D:
            for t in list(d.n.facts.atoms()) + list(d.r.facts.atoms()):
                for x in subterms(t):
                    if x.op in ('call', 'ret') and x.a:
                        for u in self.byq.get(x.a[0], ()):
                            f = self.ref.functions[u]
                            if f.get('ret') == 'bool' and u in self.common and not self.virtual(u) and not self.S.loops[u] and self.S.size[u] <= 150 and not self.S.writes[u]: r.add(u)
        return r
    def confirm(self, u, aspects, inl):
        """is the difference visible to some caller?  (True, caller) / (False, None)"""
        if self.virtual(u): return True, 'dynamic dispatch'
        callers = [g for g in self.C.callers.get(u, ()) if g != u]
        live = [g for g in callers if g in self.common]
        if not callers or len(live) != len(callers): return True, 'entry point' if not callers else 'new caller'
        live.sort(key=lambda g: self.C.size[g])
        eq = und = 0
        for g in live[:16]:
            v, D, _ = self.verdict(g, aspects, frozenset({u}) | {x for x in inl if x != g})
            if v is True: return True, self.cur.functions[g]['qn']
            if v is False: eq += 1
            else: und += 1
        if und == 0: return False, None
        if any(g in self.changed for g in live) and eq + und == len(live) and eq: return False, None
        return True, None
    def judge(self, u, aspects=frozenset(), accept=None, budget=60):
        self.budget = budget
        self.accept = accept or (lambda d: True)
        v, D, inl = self.verdict(u, aspects)
        if v is True and accept is not None:
            D = [d for d in D if accept(d)]
            if not D: return 'EQ*', [], 'other properties only'
        if v is True:
            ok, who = self.confirm(u, aspects, inl)
            if not ok: return 'EQ*', D, 'not visible to any caller'
            return 'DIFF', D, who
        return ('EQ' if v is False else 'UNDEC'), D, None

    def globaldiffs(self):
        """tables and constants whose initialiser changed"""
        out = []
        def strip(o):
            if isinstance(o, dict): return {k: strip(v) for k, v in o.items() if k not in ('l', 'id', 'usr', 'tu', 'col')}
            if isinstance(o, list): return [strip(x) for x in o]
            return o
        for g, r in self.ref.globals.items():
            n = self.cur.globals.get(g)
            if n is None: continue
            a, b = strip(n.get('init')), strip(r.get('init'))
            if a == b: continue
            users = {u for u in self.C.dr if 'g:' + g in self.C.dr[u]}
            v, t = jsondiff(a, b)
            out.append(dict(name=g.split('@')[-1], file=n.get('file', ''), line=n.get('l', 0), users=users, verdict=v, text='initialiser: ' + t))
        return out
def jsondiff(a, b):
    if a == b: return False, ''
    if isinstance(a, dict) and isinstance(b, dict) and a.get('k') == b.get('k') and set(a) == set(b):
        u = None
        for k in a:
            v, t = jsondiff(a[k], b[k])
            if v: return v, t
            if v is None: u = t
        return (None, u) if u else (False, '')
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b): return (True, '%d elements instead of %d' % (len(a), len(b))) if {json.dumps(x, sort_keys=True) for x in a} != {json.dumps(x, sort_keys=True) for x in b} else (None, 'elements')
        for x, y in zip(a, b):
            v, t = jsondiff(x, y)
            if v is not False: return v, t
        return False, ''
    if isinstance(a, (str, int, float)) and isinstance(b, (str, int, float)): return True, '%r instead of %r' % (a, b)
    return None, 'shape'
