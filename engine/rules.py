"""Absolute rules: obligations every version of the program must meet, whatever the reference says.

escape      (C01, C11, C12)  exception-escape analysis over the call graph (virtual calls go to every override): no diagnostic
                              (type derived from PSC::Error) leaves startREPL, runFile or main; no loop signal leaves
                              MainBlock::run or Procedure::run
throwtype   (C01, C11)        everything thrown is a PSC::Error or one of the control signals some handler names
pedantic    (C20)             a path that raises PedanticError has established that the pedantic flag is set
constguard  (C08)             a path that stores into a variable found by name (or resolved) has established that it is not constant
"""
import re
from .terms import *

def nodes(x):
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, dict):
            if isinstance(y.get('k'), str): yield y
            st.extend(v for v in y.values() if isinstance(v, (dict, list)))
        elif isinstance(y, list): st.extend(y)

class Escape:
    def __init__(self, prog):
        self.P = prog; F = prog.functions
        self.over = {}
        for u, f in F.items():
            for o in f.get('over') or ():
                self.over.setdefault(o, set()).add(u)
        for r in prog.records.values():
            for m in r.get('methods') or ():
                for o in m.get('over') or (): self.over.setdefault(o, set()).add(m['fn'])
        self.ctors = {}
        for u, f in F.items():
            if f.get('cls') and f['qn'].split('::')[-1] == f['cls'].split('::')[-1]: self.ctors.setdefault(f['cls'], set()).add(u)
        self.esc = {u: {} for u in F}
        self.sites = 0; self.throws = {}; self.handled = set()
        self.bases = {}
        for u, f in F.items():
            for n in nodes([f.get('body'), f.get('inits')]):
                if n['k'] == 'throw' and n.get('tt'): self.throws.setdefault(n['tt'], []).append((f['qn'], f['file'], n.get('l')))
                if n['k'] == 'try':
                    for h in n['h']: self.handled.add(h.get('t') or '...')
        ch = True
        while ch:
            ch = False
            for u, f in F.items():
                if 'body' not in f: continue
                new = self.of([f.get('inits'), f['body']], f)
                if set(new) - set(self.esc[u]): self.esc[u] = {**new, **self.esc[u]}; ch = True
    def derives(self, t, b):
        if t == b: return True
        r = self.P.records.get(t)
        return bool(r) and any(self.derives(x, b) for x in r.get('bases') or ())
    def targets(self, n):
        fn = n.get('fn'); r = set()
        if fn in self.esc: r.add(fn)
        if n['k'] == 'mcall' and not n.get('novirt') and not n.get('qualified'):
            st = [fn]; seen = set()
            while st:
                x = st.pop()
                for o in self.over.get(x, ()):
                    if o not in seen: seen.add(o); st.append(o)
            r |= {x for x in seen if x in self.esc}
        q = n.get('qn') or n.get('fname') or ''
        if 'make_unique' in q or 'emplace' in q:
            m = re.search(r'(?:unique_ptr|vector)<([\w:]+)', (n.get('t') or '') + ' ' + (n.get('cls') or ''))
            if m: r |= {g for g in self.ctors.get(m.group(1), ()) if self.fits(m.group(1), self.P.functions[g], n.get('a') or [])}
        return r
    def fits(self, cls, g, args):
        ps = g.get('params') or []
        if len(args) > len(ps): return False
        if ps and args:
            bare = lambda t: re.sub(r'\b(const|class|struct)\b|[&\s]', '', str(t or ''))
            if bare(ps[0].get('t')) == cls and bare(args[0].get('t')) != cls: return False
        return True
    def of(self, x, f):
        """types that leave the code x -> where"""
        out = {}
        st = [x]
        while st:
            y = st.pop()
            if isinstance(y, list): st.extend(y); continue
            if not isinstance(y, dict): continue
            k = y.get('k')
            if k == 'try':
                inner = self.of(y['b'], f)
                for h in y['h']:
                    ht = h.get('t')
                    caught = {t for t in inner if ht is None or ht == '...' or self.derives(t, ht)}
                    body = self.of(h.get('b'), f)
                    re_ = any(n['k'] == 'throw' and not n.get('tt') for n in nodes(h.get('b')))
                    if not re_:
                        for t in caught: inner.pop(t)
                    for t, w in body.items(): out.setdefault(t, w)
                for t, w in inner.items(): out.setdefault(t, w)
                continue
            if k == 'throw' and y.get('tt'): out.setdefault(y['tt'], '%s line %s' % (f['qn'], y.get('l')))
            if k in ('call', 'mcall', 'ctor', 'ocall'):
                for g in self.targets(y):
                    for t, w in self.esc[g].items(): out.setdefault(t, w)
            st.extend(v for v in y.values() if isinstance(v, (dict, list)))
        return out

SIGNAL = ('BreakErrSignal', 'ContinueErrSignal')
def treerules(pid, prog):
    out = []
    if pid not in ('C01', 'C11', 'C12', 'C03'): return out
    E = Escape(prog)
    n = 0
    if pid in ('C01', 'C11', 'C12'):
        for u, f in prog.functions.items():
            if f['qn'] not in ('startREPL', 'runFile', 'main') or 'body' not in f: continue
            bad = {t: w for t, w in E.esc[u].items() if E.derives(t, 'PSC::Error')}
            n += len(E.throws)
            for t, w in sorted(bad.items())[:1]:
                out.append(dict(rule='escape', ok=False, function=f['qn'], file=f['file'], line=f['line'], sites=1, text='%s raised in %s is not caught before it leaves %s' % (t, w, f['qn'])))
        out.append(dict(rule='escape', ok=True, sites=n, text='exception types x entry points'))
    if pid in ('C03', 'C12'):
        for u, f in prog.functions.items():
            if f['qn'] not in ('PSC::MainBlock::run', 'PSC::Procedure::run') or 'body' not in f: continue
            for t in SIGNAL:
                if t in E.esc[u]: out.append(dict(rule='escape', ok=False, function=f['qn'], file=f['file'], line=f['line'], sites=1, text='%s raised in %s leaves %s' % (t, E.esc[u][t], f['qn'])))
                else: out.append(dict(rule='escape', ok=True, sites=1, text='%s does not leave %s' % (t, f['qn'])))
    if pid in ('C01', 'C11'):
        n = 0
        for t, ws in E.throws.items():
            ok = E.derives(t, 'PSC::Error') or any(E.derives(t, h) for h in E.handled if h != '...')
            n += len(ws)
            if not ok: out.append(dict(rule='throwtype', ok=False, function=ws[0][0], file=ws[0][1], line=ws[0][2], sites=1, text='%s is thrown, which no handler names' % t))
        out.append(dict(rule='throwtype', ok=True, sites=n, text='throw sites'))
    return out

def flagset(p, name):
    """does the path establish that the global flag is set"""
    for t, v in p.facts.tv.items():
        if v is True and any(x.op == 'glob' and name in str(x.a) for x in subterms((t,))): return True
    for t, v in p.facts.lin.items():
        if any(x.op == 'glob' and name in str(x.a) for x in subterms((t,))): return True
    return False
PATHRULES = ('C08', 'C20')
FOUND = re.compile(r'getVariable|resolve|getElement|getMember')
def target(l):
    """the variable whose value the location belongs to"""
    x = l
    while isinstance(x, T):
        if x.op == 'fld' and x.a[1] == 'PSC::Variable::data': return x.a[0]
        x = next((y for y in x.a if isinstance(y, T)), None)
    return None
def bare(t): return re.sub(r"@\(\d+, \d+\)|#p|#\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)", "", show(t))
def found(x):
    """the variable comes from a lookup by name or a resolver"""
    y = x
    while isinstance(y, T) and y.op in ('deref', 'fld'): y = y.a[0]
    return isinstance(y, T) and y.op == 'ret' and bool(FOUND.search(str(y.a[0])))
def written(e):
    """variables whose value the effect replaces"""
    if e.op == 'store': return [target(e.a[0])]
    if e.op == 'call':
        n = str(e.a[0]); args = [x for x in e.a[1] if isinstance(x, T)] if len(e.a) > 1 else []
        if re.search(r'PSC::Variable::(assign|set|load)$', n): return args[:1]
        if n.endswith('operator='): return [target(args[0])] if args else []
        if n.endswith('File::getRecord'): return args[1:2]
    return []
def pathrules(pid, f, paths):
    """[(rule, ok, text)] for the summary of one function"""
    out = []
    if pid == 'C20':
        for p in paths:
            if p.kind == 'throw' and p.exc == 'PSC::PedanticError':
                out.append(('pedantic', flagset(p, 'pedantic'), 'PedanticError is raised on a path that has not established the pedantic flag'))
    if pid == 'C08' and '/nodes/' in f['file']:
        for p in paths:
            for e in p.eff:
                for x in written(e):
                    if x is None or not found(x): continue
                    b = bare(x)
                    ok = any(v is False and t.op != 'not' and any(y.op == 'fld' and y.a[1].endswith('isConstant') and bare(y.a[0]) == b for y in ([t] + [y for y in t.a if isinstance(y, T)])) for t, v in p.facts.tv.items())
                    out.append(('constguard', ok, 'stores into %s without having established that it is not a constant' % show(x)[:120]))
    return out
def aggregate(pid, f, paths):
    r = {}
    for rule, ok, text in pathrules(pid, f, paths):
        a = r.setdefault(rule, dict(rule=rule, ok=True, sites=0, text=text, function=f['qn'], file=f['file'], line=f.get('line', 0)))
        a['sites'] += 1
        if not ok and a['ok']: a['ok'] = False; a['text'] = text
    for a in r.values():
        if a['ok']: a['text'] = a['function']
    return list(r.values())

def run(pid, c, tier): return treerules(pid, c.cur)
