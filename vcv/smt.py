"""SMT-LIB emission and solver portfolio."""
import atexit, shutil, os, re, subprocess, tempfile, time, hashlib, signal
from concurrent.futures import ThreadPoolExecutor
from terms import *
import vexec

BUILTIN_AX = {
 # name: (declaration, axiom text)
 'pos31': ('(declare-fun pos31 (Int) Int)',
   ['(forall ((x Int)) (! (and (<= 0 (pos31 x)) (< (pos31 x) 2147483648) (=> (and (<= 0 x) (< x 2147483648)) (= (pos31 x) x)) (=> (and (<= 2147483648 x) (< x 4294967296)) (= (pos31 x) (- x 2147483648)))) :pattern ((pos31 x))))']),
 'flip31': ('(declare-fun flip31 (Int) Int)\n(declare-fun pos31 (Int) Int)',
   ['(forall ((x Int)) (! (and (=> (and (<= 0 x) (< x 2147483648)) (= (flip31 x) (+ x 2147483648))) (=> (and (<= 2147483648 x) (< x 4294967296)) (= (flip31 x) (- x 2147483648))) (=> (and (<= 0 x) (< x 4294967296)) (and (= (pos31 (flip31 x)) (pos31 x)) (<= 0 (flip31 x)) (< (flip31 x) 4294967296)))) :pattern ((flip31 x))))']),
 'pow2': ('(declare-fun pow2 (Int) Int)', ['(= (pow2 0) 1)', '(forall ((k Int)) (! (=> (<= 0 k) (and (>= (pow2 k) 1) (= (pow2 (+ k 1)) (* 2 (pow2 k))))) :pattern ((pow2 k))))']),
}
_TAG = ('(declare-fun bit2 (Int) Int)\n(declare-fun pos2 (Int) Int)\n(declare-fun flip2 (Int) Int)',      # x & 4, x & ~4, x ^ 4 of a 64-bit word
   ['(forall ((x Int)) (! (and (or (= (bit2 x) 0) (= (bit2 x) 4)) (=> (= x 0) (= (bit2 x) 0))) :pattern ((bit2 x))))',
    '(forall ((x Int)) (! (and (= (pos2 x) (- x (bit2 x))) (= (bit2 (pos2 x)) 0)) :pattern ((pos2 x))))',
    '(forall ((x Int)) (! (and (= (flip2 x) (- (+ x 4) (* 2 (bit2 x)))) (= (bit2 (flip2 x)) (- 4 (bit2 x))) (= (pos2 (flip2 x)) (pos2 x)) (= (flip2 (flip2 x)) x)) :pattern ((flip2 x))))'])
for _n in ('bit2', 'pos2', 'flip2'): BUILTIN_AX[_n] = _TAG
def builtin(fn, sorts, ret):
    if fn in BUILTIN_AX: return BUILTIN_AX[fn]
    if fn.startswith('at') and fn[2:].isdigit():
        n = int(fn[2:])
        return ('(declare-fun %s (Int Int) Int)' % fn, ['(forall ((b Int) (i Int)) (! (= (%s b i) (+ b (* %d i))) :pattern ((%s b i))))' % (fn, n, fn)])
    return None

class Emitter:
    def __init__(self, spec, verifier):
        self.sp, self.v = spec, verifier
        self.axcache = None
    def axioms(self):
        if self.axcache is None:
            out = []
            for name, body, why, on in self.sp.axioms:
                env = vexec.Env(self.v, vexec.State(), None, {})
                t = env.boolean(body)
                syms = set(x.a[0] for x in collect([t]).values() if x.op == 'app')
                out.append((name, t, set(on) or syms))
            self.axcache = out
        return self.axcache
    def strip(self, goal):
        """negated goal as hypotheses + residual goal + terms to keep visible to the matcher"""
        hyps, touch = [], []
        while True:
            if goal.op == 'forall':
                vs, body, pats = q_parts(goal)
                m = {v: fresh('sk!' + v.a[0].split('!')[0], v.sort) for v in vs}
                goal = subst(body, m)
                for ps in pats: touch += [subst(p, m) for p in ps]
            elif goal.op == '=>': hyps.append(goal.a[0]); goal = goal.a[1]
            elif goal.op == 'or' and any(x.op in ('forall', '=>') for x in goal.a):
                q = [x for x in goal.a if x.op in ('forall', '=>')][0]
                hyps += [Not(x) for x in goal.a if x is not q]; goal = q
            else: return hyps, goal, touch
    def query(self, o, extra=''):
        hyps, goal, touch = self.strip(o.goal)
        facts = list(o.facts)
        for rx, keep in self.sp.options.get('needs', ()):       # (obligation name, formulas it may use): the others are left out of the query
            if re.search(rx, o.name):
                al = set(self.sp.options.get('tagged', ()))
                facts = [x for x in facts if not (self.v.tags.get(x.id, set()) & al) or (self.v.tags[x.id] & set(keep))]
                break
        facts += hyps
        roots = facts + [goal] + touch
        births = []
        seen = {}
        done_ax = set()
        frontier = roots
        axs = []
        while frontier:
            new = {}
            before = set(seen)
            collect(frontier, seen)
            frontier = []
            syms = set()
            for tid, t in seen.items():
                if tid in before:
                    continue
                if t.op == 'var':
                    for f in (o.birth or {}).get(tid, ()):
                        births.append(f); frontier.append(f)
            allsyms = set(t.a[0] for t in seen.values() if t.op == 'app')
            for name, t, on in self.axioms():
                if name not in done_ax and on & allsyms:
                    done_ax.add(name); axs.append(t); frontier.append(t)
        bound = set()
        for t in seen.values():
            if t.op == 'forall':
                for q in q_parts(t)[0]: bound.add(q.id)
        decl = []; bax = []
        usersorts = set(); fdone = {}
        for t in seen.values():
            if t.op == 'var' and t.id not in bound:
                decl.append('(declare-fun %s () %s)' % (sym(t.a[0]), t.sort))
            if t.op == 'app' and t.a[0] not in fdone:
                fdone[t.a[0]] = t
        bdecl = {}
        for fn, t in sorted(fdone.items()):
            bi = builtin(fn, None, None)
            if bi:
                for d in bi[0].split('\n'): bdecl[d] = 1
                bax += bi[1]
            else:
                bdecl['(declare-fun %s (%s) %s)' % (sym(fn), ' '.join(x.sort for x in t.a[1:]), t.sort)] = 1
        decl = sorted(set(decl))
        lines = ['(declare-sort %s 0)' % x for x in self.sp.sorts]
        lines += list(bdecl) + decl
        lines += ['(assert %s)' % a for a in bax]
        lines += ['(assert %s)' % show(a) for a in axs]
        seenb = set()
        for f in births:
            if f.id not in seenb:
                seenb.add(f.id); lines.append('(assert %s)' % show(f))
        for f in facts: lines.append('(assert %s)' % show(f))
        for i, srt in enumerate(sorted(set('Int' if t.sort == 'Bool' else t.sort for t in touch))):
            lines.append('(declare-fun touch$%d (%s) Bool)' % (i, srt))
            for t in touch:
                if t.sort == 'Bool' and srt == 'Int': lines.append('(assert (touch$%d (ite %s 1 0)))' % (i, show(t)))
                elif t.sort == srt: lines.append('(assert (touch$%d %s))' % (i, show(t)))
        if goal is not FALSE: lines.append('(assert (not %s))' % show(goal))
        lines.append('(check-sat)')
        text = '\n'.join(lines) + '\n'
        return NLDEF + text if '(nlmul ' in text or '(nldiv ' in text or '(nlmod ' in text else text

# products of two non-constants; as a first attempt they are left uninterpreted (a valid result then holds for the product too)
NLDEF = ''.join('(define-fun nl%s ((a Int) (b Int)) Int (%s a b))\n' % x for x in (('mul', '*'), ('div', 'div'), ('mod', 'mod')))
NLUF = ''.join('(declare-fun nl%s (Int Int) Int)\n' % x for x in ('mul', 'div', 'mod'))
Z3N = ['z3-new', '-smt2', 'smt.mbqi=false', 'auto_config=false', 'smt.relevancy=0']
SOLVERS = {
 'z3': lambda f, t: Z3N + ['-T:%d' % t, f],
 'z3-seed': lambda f, t: Z3N + ['smt.random_seed=17', 'smt.phase_selection=0', '-T:%d' % t, f],
 'z3-arith2': lambda f, t: Z3N + ['smt.arith.solver=2', '-T:%d' % t, f],
 'z3-4.8': lambda f, t: ['z3', '-smt2', 'smt.mbqi=false', 'auto_config=false', '-T:%d' % t, f],
 'z3-mbqi': lambda f, t: ['z3-new', '-smt2', '-T:%d' % t, f],
 'cvc5': lambda f, t: ['cvc5', '--lang=smt2', '--tlimit=%d' % (t * 1000), f],
 'cvc5-nl': lambda f, t: ['cvc5', '--lang=smt2', '--nl-ext-tplanes', '--tlimit=%d' % (t * 1000), f],
}
DEFAULT_PLAN = [('z3', 3), ('cvc5', 6), ('z3-4.8', 6), ('z3', 20), ('cvc5', 30), ('z3-arith2', 20), ('z3-mbqi', 10)]
NLPLAN = [('z3', 5), ('cvc5', 5)]
QUICK_PLAN = [('z3', 2)]
_dir = None
def workdir():
    global _dir
    if _dir is None: _dir = tempfile.mkdtemp(prefix='vcv'); atexit.register(shutil.rmtree, _dir, True)
    return _dir
def run_solver(name, text, to):
    f = tempfile.NamedTemporaryFile('w', suffix='.smt2', dir=workdir(), delete=False)
    if name.startswith('cvc5'): f.write('(set-logic ALL)\n')
    f.write(text); f.close()
    try:
        p = subprocess.run(SOLVERS[name](f.name, to), capture_output=True, text=True, timeout=to + 5)
        out = p.stdout.strip().split('\n')[0].strip() if p.stdout.strip() else ''
        if out not in ('sat', 'unsat', 'unknown', 'timeout'):
            if 'error' in (p.stdout + p.stderr).lower(): return 'error: ' + (p.stdout + p.stderr)[:300]
            out = 'unknown'
        return out
    except subprocess.TimeoutExpired: return 'timeout'
    finally:
        try: os.unlink(f.name)
        except OSError: pass

def discharge(o, text, plan):
    t0 = time.time()
    last = None
    if text.startswith(NLDEF):
        uf = NLUF + text[len(NLDEF):]
        for s, to in NLPLAN:
            if run_solver(s, uf, to) == 'unsat':
                o.status = 'valid'; o.solver = s; o.time = time.time() - t0; return o
    for s, to in plan:
        r = run_solver(s, text, to)
        if r.startswith('error'): o.status = 'error'; o.sub = r; last = r; continue
        if r == 'unsat':
            o.status = 'valid'; o.solver = s; o.time = time.time() - t0; return o
        last = r
        if r == 'sat': o.status = 'invalid'; o.solver = s; o.time = time.time() - t0; return o
    if o.status != 'error': o.status = 'unknown'
    o.sub = last; o.time = time.time() - t0
    return o

def cover_check(o, text, to=1):
    t0 = time.time()
    r = run_solver('z3', text, to)
    o.status = 'vacuous' if r == 'unsat' else ('error' if r.startswith('error') else 'reachable')
    o.sub = r; o.time = time.time() - t0
    return o

def run_all(spec, verifier, obls, plan=None, jobs=8, cover_to=1):
    em = Emitter(spec, verifier)
    tasks = []
    for o in obls:
        if o.status == 'valid': continue
        tasks.append((o, em.query(o)))
    def go(x):
        o, text = x
        if o.kind.startswith('cover'): return cover_check(o, text, cover_to)
        return discharge(o, text, plan or DEFAULT_PLAN)
    with ThreadPoolExecutor(jobs) as ex: list(ex.map(go, tasks))
    return obls
