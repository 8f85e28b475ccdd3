"""fl Boolean expressions (bexpr) against truth tables over five variables."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from flrun import *
# two pairs of names whose variables get the same signature
POOL = ['xsoazy', 'sivnae', 'p', 'q[0]', 'a/b', 'x1', 'zz', 'v.w']
K = 5; NA = 1 << K; ALL = (1 << NA) - 1
MASK = [sum(1 << a for a in range(NA) if a >> i & 1) for i in range(K)]
def cof(t, i, v):
    r = 0
    for a in range(NA):
        b = a | 1 << i if v else a & ~(1 << i)
        if t >> b & 1: r |= 1 << a
    return r
def supp(t): return [i for i in range(K) if cof(t, i, 0) != cof(t, i, 1)]
def compose(t, sub):
    """t with variable i replaced by the table sub[i]"""
    r = 0
    for a in range(NA):
        b = 0
        for i in range(K):
            if (sub[i] if i in sub else MASK[i]) >> a & 1: b |= 1 << i
        if t >> b & 1: r |= 1 << a
    return r
class S: pass
st = S(); st.fl = None
def bdd(t, i=K - 1):
    if t == ALL: return 'T'
    if t == 0: return 'F'
    while cof(t, i, 0) == cof(t, i, 1): i -= 1
    return '(fite v%d %s %s)' % (i, bdd(cof(t, i, 1), i - 1), bdd(cof(t, i, 0), i - 1))
def table(e, t): return ('(base_bexpr2bdd [] (%s)) == %s' % (e, bdd(t)), is_('T'))
def start(r, fl):
    st.fl = fl; st.n = 0; st.names = r.sample(POOL[2:], K - 2) + POOL[:2]; r.shuffle(st.names)
    cs = ['let fite c a b = (c AND a) OR ((NOT c) AND b)']
    for i, n in enumerate(st.names): cs += ['let v%d = variable "%s"' % (i, n), 'let w%d = bvariable "%s"' % (i, n)]
    cs += ['letrec junk n = n = 0 => bF | (bITE (bvariable (sprintf "j%d" (n % 13))) (junk (n-1)) ((bvariable (sprintf "k%d" (n % 7))) bXOR (bvariable (sprintf "j%d" (n % 5)))))',
           'letrec junkl n = n = 0 => [] | (n:(junkl (n-1)))',
           'letrec junkb n = n = 0 => F | ((variable (sprintf "g%d" (n % 11))) AND (variable (sprintf "h%d" (n % 17)))) XOR (junkb (n-1))']
    for o, p in (('BEXPR-ORDER-AND-ARGS', .3), ('BEXPR-ADD-REDUNDANT-TERMS', .3)):
        cs.append('update_vossrc "%s" "%s"' % (o, 'YES' if r.random() < p else 'NO'))
    cs.append('update_vossrc "BEXPR-SAT-TIME-LIMIT" "%d"' % r.choice([0, 5, 5]))
    st.e = [('w%d' % i, MASK[i]) for i in range(K)] + [('bT', ALL), ('bF', 0)]
    return [(c, None) for c in cs]
def pick(r):      # few, recent expressions: keeps the SAT instance small
    if len(st.e) > 60: del st.e[K + 2:len(st.e) - 30]
    if r.random() < .4: return st.e[r.randrange(K)]
    return r.choice(st.e[-12:] if r.random() < .7 else st.e)
def ex(r, d):
    """a bexpr text and its table"""
    if d == 0 or r.random() < .2:
        e, t = pick(r); return (e, t) if r.random() < .7 else ('(bNOT %s)' % e, t ^ ALL)
    k = r.randrange(8); a, ta = ex(r, d - 1); b, tb = ex(r, d - 1)
    if k == 0: return '(%s bAND %s)' % (a, b), ta & tb
    if k == 1: return '(%s bOR %s)' % (a, b), ta | tb
    if k == 2: return '(%s bXOR %s)' % (a, b), ta ^ tb
    if k == 3: return '(%s bXNOR %s)' % (a, b), ta ^ tb ^ ALL
    if k == 4: return '(bNOT %s)' % a, ta ^ ALL
    if k in (5, 6):
        c, tc = ex(r, d - 1); return '(bITE %s %s %s)' % (c, a, b), (tc & ta) | (~tc & tb & ALL)
    return '(bEqual %s %s)' % (a, b), ta ^ tb ^ ALL
def new(e, t, cs):
    n = 'e%d' % st.n; st.n += 1; st.e.append((n, t)); cs.append(('let %s = %s' % (n, e), None))
    cs.append(table(n, t))
    return n
def gen(r, fl):
    cs = []
    if st.fl is not fl or r.random() < .01: cs = start(r, fl)
    for _ in range(25):
        k = r.randrange(19)
        if k <= 3: new(*ex(r, r.randrange(1, 5)), cs)
        elif k == 4:    # simultaneous substitution, over a structure
            vs = r.sample(range(K), r.randrange(0, 4)); sub = {}; l = []
            for i in vs: e, t = ex(r, r.randrange(0, 3)); sub[i] = t; l.append('("%s",%s)' % (st.names[i], e))
            (a, ta), (b, tb) = pick(r), ex(r, 2); n = 'p%d' % st.n; st.n += 1
            cs.append(('let %s = bsubstitute [%s] (%s,[%s],3)' % (n, ','.join(l), a, b), None))
            new('fst %s' % n, compose(ta, sub), cs); new('hd (fst (snd %s))' % n, compose(tb, sub), cs)
            cs.append(('snd (snd %s)' % n, is_('3')))
        elif k == 5:    # BDD with a substitution, then without: no substitution must survive
            i = r.randrange(K); a, ta = pick(r) if r.random() < .6 else ex(r, 3); _, tv = ex(r, 2); j = r.randrange(K)
            sub = {i: tv}; l = ['("%s",%s)' % (st.names[i], bdd(tv))]
            if j != i and r.random() < .5: sub[j] = MASK[i]; l.append('("%s",v%d)' % (st.names[j], i))
            if r.random() < .5: cs.append(table(a, ta))
            cs.append(('(base_bexpr2bdd [%s] (%s)) == %s' % (','.join(l), a, bdd(compose(ta, sub))), is_('T')))
            cs.append(table(a, ta))
        elif k == 6:
            ts = [r.getrandbits(NA) if r.random() < .5 else pick(r)[1] for _ in range(r.randrange(1, 4))]; n = 'l%d' % st.n; st.n += 1
            cs.append(('let %s = bool2bexpr [%s]' % (n, ','.join(bdd(t) for t in ts)), None))
            for j, t in enumerate(ts): new('el %d %s' % (j + 1, n), t, cs)
        elif k == 7:
            es = [pick(r) if r.random() < .7 else ex(r, 2) for _ in range(r.randrange(1, 3))]
            need = set(st.names[i] for _, t in es for i in supp(t))
            def chk(v, ty, need=need):
                got = re.findall(r'"([^"]*)"', v)
                if not need <= set(got): return 'the dependencies %s miss %s' % (got, need - set(got))
                if not set(got) <= set(st.names) or got != sorted(set(got)): return 'the dependencies are %s' % got
            cs.append(('bdepends [%s]' % ','.join(e for e, _ in es), chk))
        elif k == 8:
            e, t = ex(r, 3)
            if r.random() < .3: e, t = '(%s bXOR %s)' % (e, e) if r.random() < .5 else '((%s) bAND (bNOT (%s)))' % (e, e), 0
            cs.append(('bexpr_is_unsat (%s) 5' % e, is_('T' if t == 0 else 'F')))
        elif k == 9:
            es = [pick(r) if r.random() < .5 else ex(r, 3) for _ in range(r.randrange(1, 4))]; con = ALL
            for _, t in es: con &= t
            def chk(v, ty, con=con, es=es, names=list(st.names)):
                if v == '!': return 'failure ' + ty
                m = dict(re.findall(r'\("([^"]*)", *b?([TF])\)', v)); 
                if not m:
                    return 'no model, but there is one: table %x' % con if con else None
                if not con: return 'model %s of an unsatisfiable list' % v
                t = con
                for n, b in m.items():
                    if n == '': continue
                    if n not in names: return 'unknown variable %s' % n
                    t &= MASK[names.index(n)] ^ (0 if b == 'T' else ALL)
                if t == 0: return 'the model %s does not satisfy the list (table %x)' % (v, con)
                # variables left out may have any value
                fixed = [names.index(n) for n in m if n]
                for i in range(K):
                    if i not in fixed and cof(t, i, 0) != cof(t, i, 1): return 'the model %s leaves %s open' % (v, names[i])
                q = con
                for n, b in m.items():
                    if n: q = cof(q, names.index(n), 1 if b == 'T' else 0)
                if q != ALL: return 'the model %s does not satisfy the list (table %x)' % (v, con)
            cs.append(('bget_model [%s] 5' % ','.join(e for e, _ in es), chk))
        elif k == 10:
            es = [pick(r) if r.random() < .7 else ex(r, 3) for _ in range(r.randrange(1, 6))]; n = 'l%d' % st.n; st.n += 1; f = '%s/s%s' % (fl.dir, n)
            cs.append(('bexpr_save "%s" [%s]' % (f, ','.join(e for e, _ in es)), None)); cs.append(('let %s = bexpr_load "%s"' % (n, f), None))
            cs.append(('length %s' % n, is_(len(es))))
            for j, (_, t) in enumerate(es): new('el %d %s' % (j + 1, n), t, cs)
        elif k == 11:
            a, ta = pick(r) if r.random() < .6 else ex(r, 3); n = 'a%d' % st.n; st.n += 1
            q = '(base_bexpr2bdd [] (fst %s)) AND (base_bexpr2bdd [] (snd %s))' % (n, n)
            cs.append(('let %s = %s' % (n + 'x', a), None)); m = bdd(ta)
            cs.append(('let %s = let t = bget_type %sx in ((t = "and") OR (t = "not-and")) => bget_arguments %sx | (bT,bT)' % (n, n, n), None))
            cs.append(('let t = bget_type %sx in (t = "and") => ((%s) == %s) | (t = "not-and") => ((%s) == (NOT %s)) | (t = "variable") => ((variable (bget_variable %sx)) == %s) | (t = "not-variable") => ((NOT (variable (bget_variable %sx))) == %s) | (t = "const_1") => (T == %s) | (t = "const_0") => (F == %s) | F' % (n, q, m, q, m, n, m, n, m, m, m), is_('T')))
        elif k in (12, 13):     # structured conditionals, with conditionals inside the branches
            c, tc = ex(r, 2); (a, ta), (b, tb), (x, tx), (y, ty) = [ex(r, 3) for _ in range(4)]; n = 'p%d' % st.n; st.n += 1
            cs.append(('let %s = bITE %s (%s,[%s]) (%s,[%s])' % (n, c, a, b, x, y), None))
            new('fst %s' % n, (tc & ta) | (~tc & tx & ALL), cs); new('hd (snd %s)' % n, (tc & tb) | (~tc & ty & ALL), cs)
        elif k == 14:
            (a, ta), (b, tb), (x, tx), (y, ty) = [ex(r, 2) for _ in range(4)]
            new('bEqual (%s,[%s]) (%s,[%s])' % (a, b, x, y), (ta ^ tx ^ ALL) & (tb ^ ty ^ ALL), cs)
        elif k == 15:
            (a, ta), (b, tb), (x, tx), (y, ty) = [ex(r, 2) for _ in range(4)]; n = 'p%d' % st.n; st.n += 1; o = r.randrange(3)
            if o == 0: cs.append(('let %s = gen_bNOT (%s,[%s])' % (n, a, b), None)); res = (ta ^ ALL, tb ^ ALL)
            elif o == 1: cs.append(('let %s = gen_bAND (%s,[%s]) (%s,[%s])' % (n, a, b, x, y), None)); res = (ta & tx, tb & ty)
            else: cs.append(('let %s = gen_bOR (%s,[%s]) (%s,[%s])' % (n, a, b, x, y), None)); res = (ta | tx, tb | ty)
            new('fst %s' % n, res[0], cs); new('hd (snd %s)' % n, res[1], cs)
        elif k == 16:   # identity is sound
            (a, ta), (b, tb) = pick(r), pick(r)
            if ta != tb: cs.append(('(%s) == (%s)' % (a, b), is_('F')))
            else: cs.append(('bexpr_is_unsat ((%s) bXOR (%s)) 5' % (a, b), is_('T')))
        elif k == 17:
            bits = [r.randrange(2) for _ in range(r.randrange(1, 90))]
            cs.append(('bev2num [%s]' % ','.join('bT' if b else 'bF' for b in bits), is_(int(''.join(map(str, bits)), 2))))
        elif r.random() < .12:  # garbage, to get collections going
            cs.append(('bsize [junk %d] > 0' % r.randrange(5, 12), None)); cs.append(('length (junkl %d)' % r.choice([3000, 40000]), None))
            cs.append(('(junkb %d) == F' % r.randrange(20, 190), None))
            for e, t in r.sample(st.e, 5): cs.append(table(e, t))
    return cs
gen.fresh = 8
if __name__ == '__main__': sys.exit(main(gen))
