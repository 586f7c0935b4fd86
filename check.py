#!/usr/bin/env python3
"""check.py Cxx [quick|thorough]: decide one property of /repo statically (see DESIGN.md)."""
import sys, os, json, time, re, traceback, multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from engine import frontend, contract, props, diff
try: from engine import rules
except ImportError: rules = None

VERIF = os.path.dirname(os.path.abspath(__file__))
EVID = os.environ.get('PSE_EVIDENCE', os.path.join(VERIF, 'evidence'))
G = {}
def pathob(c, u, pid):
    """path rules on the summary of one function (functions the reference does not have are judged inside their callers)"""
    if not rules or pid not in rules.PATHRULES or u not in c.common: return []
    p = c.MN.paths(u)
    return [] if isinstance(p, str) else rules.aggregate(pid, c.cur.functions[u], p)
def job(a):
    kind, u, pid = a
    c = G['c']; t = time.time()
    try:
        if kind == 'judge':
            v, D, who = c.judge(u, frozenset(props.P[pid].get('aspects', ())), lambda d: props.accepts(pid, d, c.cur.functions[u]), G['budget'])
            out = []
            if isinstance(D, list):
                for d in D[:6]: out.append((d.text, d.verdict, '; '.join(d.n.facts.items()[:8])[:600], d.n.kind, d.n.where))
            else: out = str(D)
            return kind, u, v, out, who, time.time() - t, pathob(c, u, pid)
        if kind == 'sum':
            p = c.MN.paths(u)
            return kind, u, (p if isinstance(p, str) else len(p)), None if isinstance(p, str) else sum(len(x.eff) for x in p), None, time.time() - t, pathob(c, u, pid)
    except RecursionError: return kind, u, 'UNDEC', 'recursion', None, time.time() - t, []
    except Exception:
        e = traceback.format_exc()[-1500:]
        print('internal error while analysing %s: %s' % (c.cur.functions[u]['qn'], e), file=sys.stderr)
        if kind == 'sum': return kind, u, 'internal error: ' + e[-200:], None, None, time.time() - t, []
        return kind, u, 'UNDEC', 'internal error: ' + e[-200:], None, time.time() - t, []

def known():
    r = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(C\d\d) key=(\S+) (.*)', l.strip())
            if m: r.append(m.groups())
    return r

def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    repo = os.environ.get('PSE_REPO', '/repo')
    cur = frontend.load(repo)
    ref = contract.load_reference()
    c = G['c'] = contract.Contract(cur, ref)
    G['budget'] = 40 if tier == 'quick' else 240
    c.deadline = t0 + (420 if tier == 'quick' else 780)
    rel = [u for u, f in cur.functions.items() if 'body' in f and not f.get('implicit') and props.relevant(pid, f)]
    changed = [u for u in c.changed if props.relevant(pid, cur.functions[u])]
    findings = []; undecided = []; equal = []
    jobs = [('judge', u, pid) for u in sorted(changed)] + [('sum', u, pid) for u in rel if u in c.common and u not in c.changed]
    res = []
    with mp.Pool(min(8, max(1, len(jobs)))) as pool:
        for r in pool.imap_unordered(job, jobs, 1): res.append(r)
    npaths = neff = nfun = 0; undsum = []
    ob = []
    for kind, u, v, D, who, dt, obs in res:
        ob += obs
        f = cur.functions.get(u)
        if kind == 'sum':
            if isinstance(v, str): undsum.append(f['qn'] + ': ' + v)
            else: npaths += v; neff += D; nfun += 1
            continue
        if v == 'DIFF':
            findings.append(dict(rule='contract', function=f['qn'], file=f['file'], line=f.get('line', f.get('l', 0)), text=D[0][0], when=D[0][2], site=D[0][4], visible=str(who)))
        elif v == 'UNDEC': undecided.append((f['qn'], str(D[0][0] if isinstance(D, list) and D else D)[:200]))
        else: equal.append((f['qn'], v))
    for g in c.globaldiffs():
        if any(props.relevant(pid, cur.functions[u]) for u in g['users'] if u in cur.functions) and g['verdict']:
            findings.append(dict(rule='table', function=g['name'], file=g['file'], line=g['line'], text=g['text'], when='', site=None, visible=''))
    if rules:
        for o in ob + list(rules.run(pid, c, tier)):
            if o not in ob: ob.append(o)
            if o['ok'] is False: findings.append(dict(rule=o['rule'], function=o.get('function', ''), file=o.get('file', ''), line=o.get('line', 0), text=o['text'], when='', site=None, visible=''))
    kn = known(); new = []; old = []
    for f in findings:
        m = [k for k in kn if k[0] == pid and k[1] == f['rule'] + ':' + f['function'].replace(' ', '')]
        (old if m else new).append((f, m))
    os.makedirs(EVID, exist_ok=True)
    samples = ['%s: %d functions' % (pid, len(rel))] + [cur.functions[u]['qn'] for u in sorted(rel)[:6]]
    cov = dict(
        explanation='Path-partitioned abstract interpretation of every function that carries the property, compared with the reviewed contract (path summaries of the reference tree) under joint path conditions; differences are decided by normal forms and random interpretation. Absolute rules are checked on the summaries of the current tree.',
        functions_analysed=len(rel), functions_identical_to_contract=len(rel) - len(changed) , functions_changed=len(changed),
        changed_equal=[e[0] for e in equal], changed_undecided=[list(x) for x in undecided], changed_different=[f['function'] for f, _ in new + old],
        paths_summarised=npaths, effects_on_paths=neff, functions_summarised=nfun, summaries_undecided=undsum,
        rules=[dict(rule=o['rule'], ok=o['ok'], sites=o.get('sites'), text=o.get('text', '')[:200]) for o in ob], obligations=sum(o.get('sites') or 1 for o in ob) + len(rel),
        added_functions=[cur.functions[u]['qn'] for u in sorted(c.added)][:20], removed_functions=[ref.functions[u]['qn'] for u in sorted(c.removed)][:20], samples=samples)
    ev = dict(property=pid, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other', coverage=cov,
              assumptions=['semantics of the C++ standard library as modelled in engine/libmodel.py', 'integer arithmetic without overflow', 'the reference tree in spec/ was reviewed against the property'],
              wall_s=round(time.time() - t0, 2), violations=len(new))
    json.dump(ev, open(os.path.join(EVID, pid + '.json'), 'w'), indent=1)
    for k in kn:
        if k[0] == pid: print('KNOWN-FINDING: property=%s %s' % (pid, k[2]))
    for f, _ in new[:20]:
        print('%s:%s: %s: [%s] %s' % (f['file'], f['line'], f['function'], f['rule'], f['text']))
        if f['when']: print('    when ' + f['when'])
        if f['site']: print('    at %s' % (f['site'],))
    print('%s: %d functions, %d changed (%d equal, %d undecided), %d paths, %d findings, %.1fs' % (pid, len(rel), len(changed), len(equal), len(undecided), npaths, len(new), time.time() - t0))
    if new:
        rp = os.path.join(EVID, pid + '.violation.json')
        json.dump([f for f, _ in new], open(rp, 'w'), indent=1)
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        sys.exit(1)
if __name__ == '__main__':
    try: main()
    except frontend.AnalysisBroken as e:
        print('analysis not possible: %s' % e, file=sys.stderr); sys.exit(3)
