"""Loads a spec module, verifies its functions and lemmas, returns results."""
import sys, os, time, importlib.util, re
sys.path.insert(0, os.path.dirname(__file__))
sys.setrecursionlimit(20000)
import cfront, vexec, smt
from terms import *

_units = {}
def unit(rel, extra=()):
    k = (rel, tuple(extra))
    if k not in _units: _units[k] = cfront.load(rel, extra)
    return _units[k]

class Result:
    def __init__(self): self.fns = {}; self.errors = {}; self.lemmas = {}; self.wall = 0

def load_spec(path):
    s = importlib.util.spec_from_file_location('spec_' + os.path.basename(path)[:-3], path)
    m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
    return m

def verify_spec(mod, only=None, plan=None, jobs=8, verbose=False, deadline=None, max_fail=None):
    sp = mod.S
    res = Result()
    t0 = time.time()
    todo = []
    fl = sp.options.get('defines', ()); ulist = [unit(r, fl) for r in sp.units]
    for name, f in sp.fns.items():
        if f['trusted'] or f.get('inline') or name.startswith('ptr:'): continue
        if only and name not in only: continue
        src = f.get('file') or next((u.path for u in ulist if name in u.fns and hasattr(u.fns[name], 'low')), None)
        if src is None:
            res.errors[name] = 'function not found'; continue
        u = unit(src, fl)
        v = vexec.Verifier(sp, u, [x for x in ulist if x is not u])
        try:
            obls = v.verify(name)
        except (vexec.SpecError, cfront.FrontError, TypeError, KeyError) as e:
            if verbose:
                import traceback; traceback.print_exc()
            res.errors[name] = '%s: %s' % (type(e).__name__, e); continue
        todo.append((name, v, obls))
    for name in sp.lemmas:
        if only and name not in only: continue
        v = vexec.Verifier(sp, ulist[0] if ulist else None, ulist[1:])
        try: obls = v.verify_lemma(name)
        except vexec.SpecError as e:
            if verbose:
                import traceback; traceback.print_exc()
            res.errors['lemma ' + name] = str(e); continue
        todo.append(('lemma ' + name, v, obls))
    allo = []
    from concurrent.futures import ThreadPoolExecutor
    tasks = []
    for name, v, obls in todo:
        em = smt.Emitter(sp, v)
        pl = plan or (sp.fns.get(name, {}).get('plan')) or sp.options.get('plan') or smt.DEFAULT_PLAN
        for o in obls:
            if o.status != 'valid':
                try: tasks.append((o, em.query(o), pl))
                except vexec.SpecError as e: res.errors[name] = str(e); break
    seen = set()
    fails = [0]
    def go(x):
        o, text, pl = x
        if (deadline and time.time() > deadline) or (max_fail and fails[0] >= max_fail):
            o.status = 'not attempted'; return o
        if o.kind.startswith('cover'): smt.cover_check(o, text)
        else: smt.discharge(o, text, pl)
        if o.kind == 'prove' and o.status != 'valid':
            fails[0] += 1; o.query = text
        if verbose and o.status not in ('valid', 'reachable') and (o.fn, o.name) not in seen: 
            seen.add((o.fn, o.name))
            print('   ', o.fn, o.name, o.status, o.sub, '%.1fs' % o.time, 'line', o.line, o.trace, flush=True)
        return o
    # identical queries are discharged once
    with ThreadPoolExecutor(jobs) as ex: list(ex.map(go, tasks))
    for name, v, obls in todo:
        res.fns[name] = (v, obls)
    res.wall = time.time() - t0
    return res

def vacuous(obls):
    """points that no path reaches (one infeasible path to a point is no fault)"""
    by = {}
    for o in obls:
        if o.kind == 'cover': by.setdefault(o.name, []).append(o)
    return [os_[0] for os_ in by.values() if all(o.status == 'vacuous' for o in os_)]
def summarize(res):
    ok = True
    for name, (v, obls) in res.fns.items():
        pr = [o for o in obls if o.kind == 'prove']
        bad = [o for o in pr if o.status != 'valid']
        vac = vacuous(obls)
        ca = [o for o in obls if o.kind == 'cover-any']
        if ca and all(o.status == 'vacuous' for o in ca): vac += ca[:1]
        tm = sum(o.time for o in obls)
        mx = max([o.time for o in pr] or [0])
        print('%-34s %4d obligations, %3d failed, %d vacuous  solver %.1fs (max %.1f) %s' % (name, len(pr), len(bad), len(vac), tm, mx, '' if not (bad or vac) else '<<<<'))
        for o in vac: print('     VACUOUS', o.name)
        ok = ok and not bad and not vac
    for n, e in res.errors.items(): print('ERROR', n, e); ok = False
    print('wall %.1f' % res.wall)
    return ok

if __name__ == '__main__':
    m = load_spec(sys.argv[1])
    only = set(a for a in sys.argv[2:] if not a.startswith('-')) or None
    plan = None
    for a in sys.argv[2:]:
        if a.startswith('-t'): plan = [('z3', int(a[2:]))]
    r = verify_spec(m, only, plan, verbose=True)
    if '-d' in sys.argv:
        for name, (v, obls) in r.fns.items():
            em = smt.Emitter(m.S, v)
            k = 0
            for o in obls:
                if o.kind == 'prove' and o.status != 'valid':
                    open('/tmp/q_%s_%d.smt2' % (re.sub(r'\W', '_', o.fn + '_' + o.name), k), 'w').write(em.query(o)); k += 1
    sys.exit(0 if summarize(r) else 1)
