#!/usr/bin/env python3
"""Runs one property check: contract verification of the current source plus the concrete replay harness.
usage: check.py ID [quick|thorough]      exit 0: held on everything explored; exit 1: VIOLATION line printed"""
import sys, os, json, time, subprocess, tempfile, shutil, re, traceback, fcntl
HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/veriftools/pyvenv/bin/python3'
if os.path.exists(PY) and os.path.realpath(sys.prefix) != os.path.realpath('/opt/veriftools/pyvenv') and not os.environ.get('VCV_REEXEC'):
    os.environ['VCV_REEXEC'] = '1'; os.execv(PY, [PY] + sys.argv)
sys.dont_write_bytecode = True
sys.path[:0] = [HERE + '/vcv', HERE + '/harness']
import driver, smt, hbuild, cfront, vexec
from concurrent.futures import ThreadPoolExecutor
from props import PROPS

def known_findings():
    p = HERE + '/known_findings.json'
    return json.load(open(p)) if os.path.exists(p) else {'findings': [], 'fixed': []}

WORK = [None]
def run_harness(exe, seed, secs):
    try:
        cmd = exe if isinstance(exe, list) else [exe]; exe = cmd[1] if len(cmd) > 1 else exe
        p = subprocess.run(cmd + [str(seed), str(secs)], stdin=subprocess.DEVNULL, capture_output=True, text=True, errors='replace', timeout=secs * 3 + 120, cwd=WORK[0])
        out = p.stdout
    except subprocess.TimeoutExpired as e:
        return {'exe': os.path.basename(exe), 'seed': seed, 'fail': 'no termination within the time limit', 'known': [], 'cases': 0, 'samples': []}
    r = {'exe': os.path.basename(exe), 'seed': seed, 'fail': None, 'known': [], 'cases': 0, 'samples': []}
    done = False
    for l in out.split('\n'):
        if l.startswith('FAIL '): r['fail'] = r['fail'] or l[5:].strip()
        elif l.startswith('KNOWN '): r['known'].append(l[6:].split(' ', 1))
        elif l.startswith('SAMPLE '): r['samples'].append(l[7:])
        elif l.startswith('OK cases='): r['cases'] = int(l[9:].split()[0]); done = True
    if not done and not r['fail']: r['fail'] = 'the harness ended abnormally (exit %d): %s' % (p.returncode, (out + p.stderr)[-400:])
    return r

def howto(r, secs):
    if r['exe'].endswith('.py'): return 'replay: hbuild.Build(DIR).link_fl() builds the interpreter; run harness/%s INTERPRETER %d %d, or give the phrase below to fl\ncase: %s\n' % (r['exe'], r['seed'], secs, r['fail'])
    return 'replay: build %s with harness/hbuild.py and run it with arguments: %d %d\ncase: %s\n' % (r['exe'] + '.c', r['seed'], secs, r['fail'])
def main():
    pid = sys.argv[1]; tier = (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = PROPS[pid]; t0 = time.time()
    rdir = HERE + '/replay/' + pid
    shutil.rmtree(rdir, ignore_errors=True); os.makedirs(rdir, exist_ok=True); os.makedirs(HERE + '/evidence', exist_ok=True)
    work = tempfile.mkdtemp(prefix='vcv_%s_' % pid); WORK[0] = work
    log = lambda *a: print(*a, flush=True)
    violations = []; notes = []; known_hit = []; kf = [k for k in known_findings()['findings'] if k['property'] == pid]
    hres = []; exes = []; ev_fns = []; degraded = []
    quick = tier == 'quick'
    try:
        # ---- 1. the program under test, and the replay harnesses -------------------------------
        hs = P.get('harness', [])
        if hs:
            try:
                b = hbuild.Build(work + '/b')
                flbin = None
                for h in hs:
                    src = HERE + '/harness/' + h
                    if h.endswith('.py'):      # drives the whole interpreter
                        try: flbin = flbin or b.link_fl(); exes.append([PY if os.path.exists(PY) else 'python3', src, flbin])
                        except hbuild.BuildError as e: notes.append('the interpreter does not link: %s' % str(e)[-600:])
                        continue
                    try: exes.append(b.link(src, without=re.findall(r'#include "(\w+)\.c"', open(src).read()), extra=P.get('hflags', ())))
                    except hbuild.BuildError as e: notes.append('harness %s does not link against the current source: %s' % (h, str(e)[-600:]))
            except hbuild.BuildError as e: notes.append('the sources do not compile: ' + str(e)[-800:])
        secs = P.get('secs', (20, 200))[0 if quick else 1]
        def sweep(seeds, secs):
            with ThreadPoolExecutor(8) as ex:
                rs = list(ex.map(lambda a: run_harness(a[0], a[1], secs), [(e, s) for e in exes for s in seeds]))
            hres.extend(rs)
            for r in rs:
                for k in r['known']:
                    m = [f for f in kf if f.get('key') == k[0]]
                    if m:
                        if m[0] not in known_hit: known_hit.append(m[0])
                    elif not r['fail']: r['fail'] = 'deviation %s not in the known-findings file: %s' % (k[0], k[1] if len(k) > 1 else '')
            return [r for r in rs if r['fail']]
        nseeds = max(1, 8 // max(1, len(exes)))
        bad = sweep([seed * 1000 + i for i in range(min(nseeds, 4))], secs) if exes else []
        for r in bad[:3]:
            p = '%s/harness-%d.txt' % (rdir, len(violations))
            open(p, 'w').write(howto(r, secs))
            violations.append((p, r['fail'], True)); log('counterexample on the compiled code:', r['fail'][:1500])
        # ---- 2. the verifier -------------------------------------------------------------------
        nob = nd = 0; by = {}; stime = 0.0; trusted = []; failed = []; vac = []; fnlist = []
        deadline = time.time() + (P.get('cap', 480) if quick else 2400)
        if violations: deadline = time.time() + 90
        for spec, only, *exc in P.get('specs', []):
            mod = driver.load_spec(HERE + '/specs/' + spec)
            if only is None and exc: only = [n for n in list(mod.S.fns) + list(mod.S.lemmas) if n not in exc[0]]
            if not quick: mod.S.options['plan'] = smt.DEFAULT_PLAN + [('cvc5', 120), ('z3', 120)]
            try: res = driver.verify_spec(mod, set(only) if only else None, deadline=deadline, max_fail=12 if not violations else 3)
            except (cfront.FrontError, vexec.SpecError) as e:
                degraded.append('%s: %s' % (spec, e)); continue
            except Exception as e:
                degraded.append('%s: %s' % (spec, ''.join(traceback.format_exception_only(type(e), e)).strip())); continue
            for n, e in res.errors.items(): degraded.append('%s: the annotations do not bind to the current code (%s)' % (n, e))
            for n, (v, obls) in res.fns.items():
                pr = [o for o in obls if o.kind == 'prove']
                ok = [o for o in pr if o.status == 'valid']
                nob += len(pr); nd += len(ok); tm = sum(o.time for o in obls); stime += tm
                for o in ok: by[o.solver or 'simplifier'] = by.get(o.solver or 'simplifier', 0) + 1
                fnlist.append({'function': n, 'spec': spec, 'obligations': len(pr), 'discharged': len(ok), 'solver_s': round(tm, 2)})
                failed += [o for o in pr if o.status != 'valid']
                vac += ['%s: %s' % (n, o.name) for o in driver.vacuous(obls)]
                ca = [o for o in obls if o.kind == 'cover-any']
                if ca and all(o.status == 'vacuous' for o in ca): vac.append('%s: no path reaches the end' % n)
                if not pr: vac.append('%s: no obligation was generated' % n)
            used = set().union(*[v.used_contracts for v, _ in res.fns.values()]) if res.fns else set()
            for n, f in mod.S.fns.items():
                if f['trusted'] and n in used: trusted.append('assumed contract %s: %s' % (n, f['trusted']))
            for a in mod.S.axioms: trusted.append('axiom %s: %s' % (a[0], a[2]))
            if mod.S.options.get('ignore_calls'): trusted.append('calls treated as having no effect on the verified state: ' + ', '.join(mod.S.options['ignore_calls']))
            trusted += list(getattr(mod, 'ASSUME', ()))
        # obligations on which every solver gave up are tried once more, alone and with more time
        for o in [o for o in failed if o.status == 'unknown' and getattr(o, 'query', None)][:16]:
            left = t0 + (800 if quick else 3300) - time.time()
            if left < 60 or violations or sum(o.status == 'unknown' for o in failed) > 16: break
            smt.discharge(o, o.query, [('z3', min(60, int(left / 4))), ('cvc5', min(60, int(left / 4))), ('z3-seed', 30)])
            if o.status == 'valid': nd += 1; by[o.solver] = by.get(o.solver, 0) + 1
        failed = [o for o in failed if o.status != 'valid']
        kob = set(x for f in kf for x in f.get('obligations', ()))
        new = [o for o in failed if '%s %s' % (o.fn, o.name) not in kob]
        for f in kf:
            if any('%s %s' % (o.fn, o.name) in f.get('obligations', ()) for o in failed) and f not in known_hit: known_hit.append(f)
        real = [o for o in new if o.status != 'not attempted']
        if real or (new and not violations):
            byname = {}
            for o in (real or new): byname.setdefault((o.fn, o.name), o)
            found = [v for v in violations]
            if not violations and exes:
                log('obligations failed; searching for a failing input on the compiled code')
                bad = sweep([seed * 1000 + 100 + i for i in range(nseeds)], 60 if quick else 300)
                for r in bad[:1]: found.append((None, r['fail'], True)); log('counterexample on the compiled code:', r['fail'][:1500])
            p = '%s/obligations.txt' % rdir
            with open(p, 'w') as f:
                for (fn, name), o in byname.items():
                    f.write('failed obligation: %s :: %s   (source line %s, path %s)\n  verifier: %s %s\n' % (fn, name, o.line, o.trace, o.status, o.sub))
                for v in found: f.write('failing input on the compiled code: %s\n' % v[1])
                for k, ((fn, name), o) in enumerate(byname.items()):
                    if k < 3 and getattr(o, 'query', None): f.write('\n---- query of %s :: %s ----\n%s\n' % (fn, name, o.query[:400000]))
            for (fn, name), o in list(byname.items())[:12]: log('obligation not discharged: %s :: %s (line %s): %s' % (fn, name, o.line, o.status))
            violations.append((p, 'obligation', bool(found)))
        for x in vac:
            degraded.append('vacuous: ' + x)
        for d in degraded: log('UNDECIDED by the verifier:', d[:600])
        if degraded and not violations and exes:
            bad = sweep([seed * 1000 + 200 + i for i in range(nseeds)], 60 if quick else 300)
            for r in bad[:3]:
                p = '%s/harness-%d.txt' % (rdir, len(violations))
                open(p, 'w').write(howto(r, 60))
                violations.append((p, r['fail'], True)); log('counterexample on the compiled code:', r['fail'][:1500])
        for n in notes: log('note:', n)
        # ---- 3. evidence -------------------------------------------------------------------------
        proved = nob and nob == nd and not degraded
        cov = {'obligations': nob, 'discharged': nd, 'checker_cmd': 'python3-vt vcv/driver.py ' + ' '.join('specs/' + s for s, *_ in P.get('specs', [])),
               'trusted_base': ['vcv (contract verifier in /verif/vcv: clang 18 AST, weakest-precondition style symbolic execution)', 'z3 5.3.2 / 4.8.12, cvc5 1.1.2'] + sorted(set(trusted)),
               'functions_under_contract': fnlist, 'discharged_by': by, 'solver_s': round(stime, 1), 'undecided': degraded,
               'bounded_stand_in': {'what': P.get('bounded', ''), 'evaluations': sum(r['cases'] for r in hres), 'runs': [{k: r[k] for k in ('exe', 'seed', 'cases')} for r in hres],
                    'label': 'bounded: randomised replay of the compiled code against an independent oracle; not counted as proved'},
               'samples': [x for r in hres for x in r['samples']][:4]}
        ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': P.get('level', 'proof'), 'coverage': cov, 'wall_s': round(time.time() - t0, 2),
              'assumptions': sorted(set(trusted)) + list(P.get('assumptions', ())), 'violations': len(violations)}
        json.dump(ev, open(HERE + '/evidence/%s.json' % pid, 'w'), indent=1)
        for f in known_hit: log('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
        log('%s %s: %d/%d obligations discharged in %d functions and lemmas, %d concrete cases, %.0f s%s' % (pid, tier, nd, nob, len(fnlist), sum(r['cases'] for r in hres), time.time() - t0, '' if proved else ' (not fully proved)'))
        if violations:
            inp = any(v[2] for v in violations)
            log('VIOLATION property=%s replay=%s%s' % (pid, violations[0][0], '' if inp else ' no-failing-input-found'))
            return 1
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)
if __name__ == '__main__': sys.exit(main())
