"""Which functions carry which property, and which differences are differences *of that property*."""
import re
from .terms import *

def F(*pats): return re.compile('|'.join('(?:%s)' % p for p in pats))
TYPES = r'psc/types/'
P = {
 'C01': dict(files=F(r'.*')),
 'C02': dict(files=F('parser/evalExprParser', r'parser/parser\.', 'nodes/eval/', r'psc/types/(numeric|boolean|character|types|datatypes|date)', 'nodes/io/io', 'lexer/', 'nodes/nodeResult', r'nodes/variable/variable\.cpp', 'nodes/base', r'nodes/functions/function\.cpp')),
 'C03': dict(files=F('nodes/selection/', 'nodes/loop/', 'parser/(selection|loop)Parser', r'parser/parser\.', 'psc/scope/block', 'nodes/functions/', r'psc/error', 'nodes/eval/(comparison|logic)', 'nodes/nodeResult')),
 'C04': dict(files=F('nodes/functions/', 'parser/(procedure|function)Parser', 'psc/scope/', r'psc/variable', 'nodes/variable/', r'psc/procedure', 'parser/(evalExpr|variableExpr)Parser', r'parser/parser\.', r'psc/array', r'psc/types/(userType|types|datatypes)', 'nodes/nodeResult')),
 'C05': dict(files=F('nodes/variable/', 'nodes/nodeResult', 'nodes/functions/', 'nodes/io/', r'psc/types/', r'psc/variable', r'psc/array', 'psc/scope/context', 'parser/variableExprParser', r'psc/file', 'nodes/cast', 'nodes/loop/for')),
 'C06': dict(files=F(r'psc/array', 'nodes/variable/', 'parser/(arrayOperation|variableExpr)Parser', 'psc/scope/context', r'psc/variable', 'nodes/nodeResult', r'psc/types/(userType|types|datatypes)', 'nodes/functions/', 'nodes/io/file')),
 'C07': dict(files=F(r'psc/types/(userType|types|datatypes)', 'psc/scope/', r'psc/array', r'psc/variable', 'nodes/variable/', r'parser/(userType|variableExpr)', 'nodes/functions/', 'nodes/nodeResult', 'nodes/io/file')),
 'C08': dict(files=F('nodes/variable/', r'psc/variable', 'nodes/loop/for', 'nodes/io/', 'parser/variableExprParser', 'nodes/functions/', 'psc/scope/context', r'psc/array', r'psc/types/userType', r'psc/error', 'parser/(parser|ioParser|loopParser)'), filter='const'),
 'C09': dict(files=F('nodes/variable/', r'psc/types/(userType|types|datatypes)', 'psc/scope/', 'nodes/functions/', r'psc/array', r'psc/variable', 'parser/(variableExpr|evalExpr)Parser', r'parser/userType', 'nodes/nodeResult')),
 'C10': dict(files=F('lexer/', 'parser/', 'launch/')),
 'C11': dict(files=F('.*'), aspects={'token'}, filter='diag'),
 'C12': dict(files=F('launch/', r'src/main\.cpp', 'psc/scope/', 'line_util', r'lexer/lexer', r'lexer/tokens', r'parser/parser\.', r'psc/error', 'nodes/variable/', 'nodes/io/', r'psc/file', r'psc/types/userType', 'nodes/base', 'nodes/functions/')),
 'C13': dict(files=F(TYPES, r'psc/array', r'psc/variable', r'psc/file', 'nodes/io/file', 'psc/scope/context', 'nodes/variable/resolver')),
 'C14': dict(files=F(r'psc/file', 'nodes/io/file', 'parser/ioParser', 'psc/scope/context')),
 'C15': dict(files=F(r'psc/file', 'nodes/io/file', 'psc/builtinFunctions/string', 'psc/scope/context', 'parser/ioParser', r'psc/types/(numeric|boolean|character|date)', 'nodes/nodeResult'), names=r'(?!.*::dump$)(?!.*::load$)'),
 'C16': dict(files=F('nodes/io/file', r'psc/file', 'psc/scope/context', 'launch/', 'parser/ioParser', r'src/main\.cpp', 'psc/builtinFunctions/string', r'psc/error')),
 'C17': dict(files=F('psc/builtinFunctions/(string|char|numeric|builtin)', r'psc/types/(character|numeric|boolean|types|datatypes)', 'nodes/cast', 'psc/scope/context', r'nodes/functions/function\.', 'nodes/nodeResult', r'psc/procedure')),
 'C18': dict(files=F('psc/builtinFunctions/date', 'nodes/eval/(arithmetic|comparison)', r'psc/types/(date|types)', 'lexer/', 'nodes/io/', 'nodes/cast', 'nodes/selection/case', 'psc/scope/context')),
 'C19': dict(files=F('nodes/eval/(arithmetic|comparison)', 'nodes/variable/', r'psc/types/(userType|types|datatypes)', 'psc/scope/', r'parser/userType', 'nodes/io/', 'nodes/nodeResult', 'nodes/functions/', r'nodes/selection/case', r'psc/variable', r'psc/array', r'nodes/cast')),
 'C20': dict(files=F('.*'), filter='pedantic'),
}

def involves(d, pred):
    """does the difference concern terms satisfying pred: in the conditions that separate the two paths or in the text"""
    ts = []
    for p in (d.n, d.r):
        ts += list(p.facts.atoms()) + list(p.eff) + ([p.val] if isinstance(p.val, T) else [])
    return any(pred(x) for x in subterms(tuple(ts)))
def exc(d): return {x for x in (d.n.exc, d.r.exc) if x}
def only(d):
    """atoms of the conditions and effects present on one side only"""
    def s(p): return set(subterms(tuple(p.facts.atoms()) + tuple(p.eff) + ((p.val,) if isinstance(p.val, T) else ())))
    a, b = s(d.n), s(d.r)
    return a ^ b

def f_const(d, f):
    if d.n.raw is not None:
        for p in (d.n, d.r):
            if p.raw.kind == 'throw' and 'ConstAssign' in str(p.raw.val[0]): return True
    if 'ConstDeclare' in f['qn'] or 'isConstant' in d.text or 'ConstAssign' in d.text: return True
    isc_ = lambda x: x.op == 'fld' and x.a[1].endswith('::isConstant')
    if any(isc_(x) for x in only(d)): return True
    # construction of a variable with another constness
    if any(x.op in ('obj', 'new') and 'PSC::Variable' in str(x.a[0]) for x in only(d)): return 'Variable' in d.text
    return False
DIAGF = re.compile(r'launch/|psc/error|lexer/|parser/')
def f_diag(d, f):
    if 'diagnostic refers to' in d.text: return True
    if DIAGF.search(f['file']): return True
    if 'switchToken' in d.text or any(x.op == 'fld' and x.a[1].endswith('::switchToken') for x in only(d)): return True
    if f['file'].endswith('psc/scope/context.h') or f['file'].endswith('psc/scope/context.cpp'): return 'token' in d.text.lower() or 'parent' in d.text
    return False
def f_pedantic(d, f):
    if f['file'].endswith('main.cpp'): return True
    if 'PSC::PedanticError' in exc(d) or 'PedanticError' in d.text: return True
    ped = lambda x: x.op == 'glob' and 'pedantic' in str(x.a)
    return involves(d, ped)
FATAL = {'noreturn'}
def f_crash(d, f):
    """a diagnosed input is no longer diagnosed, or ends abnormally"""
    if d.n.kind == 'abort': return True
    if d.n.kind == 'throw' and d.n.exc and not d.n.exc.startswith('PSC::') and not d.n.exc.startswith('signal') and d.n.exc not in ('ANY',) and not d.n.exc.endswith('Signal'): return True
    if d.r.kind == 'throw' and str(d.r.exc).startswith('PSC::') and not (d.n.kind == 'throw' and str(d.n.exc).startswith('PSC::')): return True
    if 'catch' in d.text and ('raises' in d.text): return True
    if d.n.kind == 'throw' and str(d.n.exc).endswith('Signal') and d.r.exc != d.n.exc: return True
    if re.search(r'launch/|src/main\.cpp|psc/error|line_util', f['file']): return True
    if re.search(r'delete|dangling', d.text): return True
    return False
FILTERS = {'const': f_const, 'diag': f_diag, 'pedantic': f_pedantic, 'crash': f_crash}
P['C01']['filter'] = 'crash'

def relevant(pid, f):
    c = P[pid]
    if not c['files'].search('src/' + f['file'].split('src/')[-1]): return False
    if 'names' in c and not re.match(c['names'], f['qn']): return False
    return True
def accepts(pid, d, f):
    k = P[pid].get('filter')
    if not k: return True
    try: return bool(FILTERS[k](d, f))
    except AttributeError: return True
