"""Symbolic trajectory evaluation in fl against a reference simulator that works on tables over all assignments of three variables."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from flrun import *
VARS = ['v1', 'v2', 'v3']; K = len(VARS); ALL = (1 << (1 << K)) - 1
MASK = [sum(1 << a for a in range(1 << K) if a >> i & 1) for i in range(K)]
X = (ALL, ALL)
def bdd(m, i=K - 1):
    """fl text of the Boolean function with table m"""
    if m == ALL: return 'T'
    if m == 0: return 'F'
    def half(m, v):
        r = 0
        for a in range(1 << K):
            b = a | 1 << i if v else a & ~(1 << i)
            if m >> b & 1: r |= 1 << a
        return r
    while half(m, 0) == half(m, 1): i -= 1
    return '((%s AND %s) OR ((NOT %s) AND %s))' % (VARS[i], bdd(half(m, 1), i - 1), VARS[i], bdd(half(m, 0), i - 1))
def be(m, i=K - 1):
    if m == ALL: return 'bT'
    if m == 0: return 'bF'
    def half(m, v):
        r = 0
        for a in range(1 << K):
            b = a | 1 << i if v else a & ~(1 << i)
            if m >> b & 1: r |= 1 << a
        return r
    while half(m, 0) == half(m, 1): i -= 1
    return '((b%s bAND %s) bOR ((bNOT b%s) bAND %s))' % (VARS[i], be(half(m, 1), i - 1), VARS[i], be(half(m, 0), i - 1))
def AND(a, b): return (a[0] & b[0], a[1] | b[1])
def OR(a, b): return (a[0] | b[0], a[1] & b[1])
def NOT(a): return (a[1], a[0])
def ITE(c, a, b): return ((a[0] & b[0]) | (c[0] & a[0]) | (c[1] & b[0]), (a[1] | b[1]) & (c[1] | a[1]) & (c[0] | b[1]))       # ACCURATE-ITE-COMP, on by default
class Ckt:
    def __init__(s, r):
        s.r = r; s.vec = {}; s.order = []; s.regs = []; s.fns = []; s.inst = []; s.inps = []; n = 0
        s.ins = []
        for i in range(r.randrange(1, 4)): s.new('a%d' % i); s.ins.append('a%d' % i)
        nr = r.randrange(0, 4)
        for i in range(nr): s.new('r%d' % i)
        avail = list(s.vec); s.new('n', 1); s.order.append(('n', ('not', ('var', [v for v in avail][0]) if s.vec[avail[0]] == 1 else ('slice', [0], ('var', avail[0]))))); s.fns.append('W_UPDATE_FN %s %s' % (s.var('n'), s.text(s.order[-1][1]))); avail.append('n')
        for i in range(r.randrange(1, 6)):
            if r.random() < .25: avail += s.instance('h%d' % i, avail); continue
            nm = 'n%d' % i; s.new(nm); e = s.expr(s.vec[nm], avail, 3)
            s.order.append((nm, e)); s.fns.append('W_UPDATE_FN %s %s' % (s.var(nm), s.text(e))); avail.append(nm)
        for i in range(nr):
            nm = 'r%d' % i; src = [v for v in avail if s.vec[v] == s.vec[nm]]
            if src and r.random() < .7: e = ('var', r.choice(src))
            else:       # a register is fed by a named vector
                d = 'd%d' % i; s.new(d, s.vec[nm]); e0 = s.expr(s.vec[nm], avail, 2); s.order.append((d, e0)); s.fns.append('W_UPDATE_FN %s %s' % (s.var(d), s.text(e0))); e = ('var', d)
            s.regs.append((nm, e[1])); s.fns.append('W_PHASE_DELAY %s %s' % (s.var(nm), s.text(e)))
        r.shuffle(s.fns)
        outs = [v for v in s.vec if v not in s.ins]; k = r.randrange(1, len(outs) + 1); r.shuffle(outs)
        io = lambda vs: '[%s]' % ','.join('("%s",["%s"])' % (s.name(v), s.name(v)) for v in vs)
        body = 'P_LEAF [%s]' % ','.join(s.fns)
        leaf = 'PINST "core" [] T %s %s [%s] (%s)' % (io(s.ins), io(outs[:k]), ','.join('"%s"' % s.name(v) for v in outs[k:]), body)
        if s.inst:      # leaf and instances side by side under a hierarchical top
            used = set(v for _, _, _, ins, outs_ in s.inst for v in ins + outs_)
            lo = [v for v in outs if v not in sum([i[4] for i in s.inst], [])]; li = s.ins + sum([i[4] for i in s.inst], [])
            ch = ['PINST "core" [] T %s %s [] (%s)' % (io(li), io(lo), body)] if s.fns else []
            for nm, op, n, ins, os_ in s.inst: ch.append('PINST "%s" [] T [%s] [("z",["%s"])] [] (P_LEAF [W_UPDATE_FN (W_VAR 1 "z") %s])' % (nm, ','.join('("%s",["%s"])' % (f, s.name(v)) for f, v in zip('xyw', ins)), s.name(os_[0]), op[0]))
            r.shuffle(ch)
            s.pexlif = 'PINST "top" [] F %s %s [%s] (P_HIER [%s])' % (io(s.ins), io(outs[:k]), ','.join('"%s"' % s.name(v) for v in outs[k:]), ','.join(ch))
        else: s.pexlif = leaf
    def instance(s, nm, avail):
        one = [v for v in avail if s.vec[v] == 1]
        if not one: return []
        r = s.r; op = r.choice([('(W_AND (W_VAR 1 "x") (W_NOT (W_VAR 1 "y")))', 2, lambda e, a: AND(a[0], NOT(a[1]))), ('(W_OR (W_VAR 1 "x") (W_VAR 1 "y"))', 2, lambda e, a: OR(a[0], a[1])),
            ('(W_NOT (W_VAR 1 "x"))', 1, lambda e, a: NOT(a[0])), ('(W_ITE (W_VAR 1 "w") (W_VAR 1 "x") (W_VAR 1 "y"))', 3, lambda e, a: ITE(a[2], a[0], a[1]))])
        ins = [r.choice(one) for _ in range(op[1])]; s.new(nm, 1)
        s.inst.append((nm, op, 1, ins, [nm])); s.order.append((nm, ('fn', op[2], [('var', v) for v in ins])))
        return [nm]
    def new(s, v, w=None): s.vec[v] = w or s.r.choice([1, 1, 2, 3])
    def name(s, v): return v if s.vec[v] == 1 else '%s[%d:0]' % (v, s.vec[v] - 1)
    def var(s, v): return '(W_VAR %d "%s")' % (s.vec[v], v)
    def bits(s, v): return [v] if s.vec[v] == 1 else ['%s[%d]' % (v, i) for i in reversed(range(s.vec[v]))]
    def expr(s, w, avail, d):
        r = s.r; k = r.randrange(8) if d else 0
        if k <= 1:
            c = [v for v in avail if s.vec[v] == w]
            if c and r.random() < .9: return ('var', r.choice(c))
            c = [v for v in avail if s.vec[v] > w]
            if c: v = r.choice(c); return ('slice', [r.randrange(s.vec[v]) for _ in range(w)], ('var', v))
            return ('const', w, r.randrange(1 << w)) if r.random() < .8 else ('x', w)
        if k == 2: return ('not', s.expr(w, avail, d - 1))
        if k <= 4: return ('and', s.expr(w, avail, d - 1), s.expr(w, avail, d - 1))
        if k == 5: return ('or', s.expr(w, avail, d - 1), s.expr(w, avail, d - 1))
        if k == 6: return ('ite', s.expr(1, avail, d - 1), s.expr(w, avail, d - 1), s.expr(w, avail, d - 1))
        if w == 1: return ('slice', [r.randrange(2)], s.expr(2, avail, d - 1))
        c = r.randrange(1, w); return ('cat', s.expr(c, avail, d - 1), s.expr(w - c, avail, d - 1))
    def text(s, e):
        k = e[0]; t = s.text
        if k == 'var': return s.var(e[1])
        if k == 'slice': return '(W_SLICE [%s] %s)' % (','.join(map(str, e[1])), t(e[2]))
        if k == 'const': return '(W_CONST %d %d)' % e[1:]
        if k == 'x': return '(W_X %d)' % e[1]
        if k == 'not': return '(W_NOT %s)' % t(e[1])
        if k in ('and', 'or'): return '(W_%s %s %s)' % (k.upper(), t(e[1]), t(e[2]))
        if k == 'ite': return '(W_ITE %s %s %s)' % (t(e[1]), t(e[2]), t(e[3]))
        if k == 'cat': return '(W_CAT [%s,%s])' % (t(e[1]), t(e[2]))
    def ev(s, e, st):
        k = e[0]; f = lambda x: s.ev(x, st)
        if k == 'var': return [st[b] for b in s.bits(e[1])]
        if k == 'slice': v = f(e[2])[::-1]; return [v[i] for i in e[1]]
        if k == 'const': return [(ALL, 0) if e[2] >> i & 1 else (0, ALL) for i in reversed(range(e[1]))]
        if k == 'x': return [X] * e[1]
        if k == 'not': return [NOT(a) for a in f(e[1])]
        if k == 'and': return [AND(a, b) for a, b in zip(f(e[1]), f(e[2]))]
        if k == 'or': return [OR(a, b) for a, b in zip(f(e[1]), f(e[2]))]
        if k == 'ite': c = f(e[1])[0]; return [ITE(c, a, b) for a, b in zip(f(e[2]), f(e[3]))]
        if k == 'cat': return f(e[1]) + f(e[2])
        if k == 'fn': return [e[1](None, [f(a)[0] for a in e[2]])]
    def nodes(s): return [b for v in s.vec for b in s.bits(v)]
def simulate(c, wl, ant, cons, late):
    """late: constraints on registers act one phase late (see known_findings.json)"""
    live = [(f, t) for _, _, f, t in wl if f < t] + [(f, t) for _, _, _, f, t in ant + cons if f < t]
    if not live: return None
    t0 = min(f for f, _ in live); t1 = max(t for _, t in live) + 1
    regbits = set(b for rg, _ in c.regs for b in c.bits(rg))
    def A(n, t):
        h = l = ALL; on = False
        for w, nd, v, f, e in ant:
            if nd == n and f <= t < e: h &= (ALL ^ w) | v; l &= (ALL ^ w) | (ALL ^ v); on = True
        return h, l, on
    def W(n, t):
        x = 0
        for w, nd, f, e in wl:
            if nd == n and f <= t < e: x |= w
        return x
    st = {n: X for n in c.nodes()}; valid = [ALL]
    def put(n, val, t):
        if t is not None:
            w = W(n, t); h, l, on = A(n, t)
            val = ((val[0] | w) & h, (val[1] | w) & l)
            if on: valid[0] &= val[0] | val[1]
        st[n] = val
    def comb(t):
        for nm, e in c.order:
            for b, v in zip(c.bits(nm), c.ev(e, st)): put(b, v, t)
    def clock(t):
        nx = [(b, st[d]) for rg, src in c.regs for b, d in zip(c.bits(rg), c.bits(src))]
        for b, v in nx: put(b, v, t)
    while True:
        comb(None); before = {b: st[b] for b in regbits}; clock(None)
        if all(st[b] == before[b] for b in regbits): break
    check = ALL; hist = {}
    raw = {b: st[b] for b in regbits}
    for t in range(t0, t1 + 1):
        if not late:
            for b in regbits: put(b, raw[b], t)
        for v in c.ins:
            for b in c.bits(v): put(b, X, t)
        comb(t)
        for w, nd, v, f, e in cons:
            if f <= t < e: check &= ((ALL ^ st[nd][0]) | (ALL ^ w) | v) & ((ALL ^ st[nd][1]) | (ALL ^ w) | (ALL ^ v))
        hist[t] = dict(st)
        if late: clock(t)
        else: raw = {b: st[d] for rg, src in c.regs for b, d in zip(c.bits(rg), c.bits(src))}
    return check, valid[0], hist, t0, t1
def rm(r): return r.choice([ALL, ALL, 0] + MASK + [ALL ^ m for m in MASK] + [r.getrandbits(1 << K)])
# the variables of the first two names get the same signature in bexpr.c
PRE = ['VARS "xsoazy sivnae v3"', 'let v1 = xsoazy', 'let v2 = sivnae', 'let bv1 = bvariable "xsoazy"', 'let bv2 = bvariable "sivnae"', 'let bv3 = bvariable "v3"', 'let tf c = (c == T) => "T" | "F"', 'let be_same a b = (bexpr2bdd [] a) = b',
       'let chk l = sprintf "R%s." (itlist (\\x.\\y. (tf x)^y) l "")']
PROBE = ['let pfsm = pexlif2fsm (PINST "top" [] T [("a",["a"])] [("r",["r"])] ["n"] (P_LEAF [W_UPDATE_FN (W_VAR 1 "n") (W_NOT (W_VAR 1 "r")), W_PHASE_DELAY (W_VAR 1 "r") (W_VAR 1 "n")]))',
         'chk [(get_trace_val (STE "-e -s" pfsm [] [(T,"r",v1,0,1)] [] []) "r" 0) = (v1, NOT v1), (get_trace_val (STE "-e -s" pfsm [] [(T,"r",v1,0,1)] [] []) "r" 1) = (v1, NOT v1)]']
PROBE2 = 'chk [(get_trace_val (STE "-s" pfsm [] [(T,"a",v1,0,6)] [] [("a",0,5),("a",0,2)]) "a" 3) = (v1, NOT v1)]'
state = {}
def gen(r, fl):
    if 'late' not in state:
        fl.batch(PRE)
        out = fl.batch(PROBE)[-1]; m = re.search(r'"R([TF]*)\."', out)
        if not m: raise Died('probe: ' + out[-500:])
        state['late'] = m.group(1) == 'FT'
        if state['late']: print('KNOWN ste-register-constraints-late a constraint on a register output takes effect one phase late')
        m = re.search(r'"R([TF]*)\."', fl.batch([PROBE2])[-1])
        if m and m.group(1) == 'F': print('KNOWN ste-overlapping-traces a node stops being traced when the first of two overlapping trace intervals ends')
    cs = []
    for _ in range(3):
        c = Ckt(r); nodes = c.nodes(); inb = [b for v in c.ins for b in c.bits(v)]
        def iv():
            f = r.randrange(0, 6); return f, f + r.choice([0, 1, 1, 2, 3, 5]) if r.random() < .95 else max(0, f - 1)
        ant = []
        for _ in range(r.randrange(1, 9)):
            n = r.choice(inb if r.random() < .7 else nodes); ant.append((r.choice([ALL, ALL, rm(r)]), n, rm(r)) + iv())
        wl = [(rm(r), r.choice(nodes)) + iv() for _ in range(r.choice([0, 0, 1, 2]))]
        cons = []
        for _ in range(r.randrange(0, 6)): cons.append([r.choice([ALL, rm(r)]), r.choice(nodes), rm(r)] + list(iv()))
        res = simulate(c, wl, ant, [tuple(x) for x in cons], state['late'])
        if res is None: continue
        if r.random() < .6:     # make the consequent mostly true
            for x in cons:
                vals = [res[2][t][x[1]] for t in range(x[3], x[4]) if t in res[2]]
                if vals: x[2] = vals[0][0]; x[0] &= r.choice([ALL, ALL ^ (vals[0][0] & vals[0][1])])
            res = simulate(c, wl, ant, [tuple(x) for x in cons], state['late'])
        cons = [tuple(x) for x in cons]; check, valid, hist, t0, t1 = res
        bx = r.random() < .3
        T = be if bx else bdd
        five = lambda l: '[%s]' % ','.join('(%s,"%s",%s,%d,%d)' % (T(w), n, T(v), f, e) for w, n, v, f, e in l)
        four = '[%s]' % ','.join('(%s,"%s",%d,%d)' % (T(w), n, f, e) for w, n, f, e in wl)
        opt = '-a -e -s' if check == valid == ALL and r.random() < .5 else '-e -s'      # -a stops at the first failure; there is none
        st = '%s "%s" ck %s %s %s []' % ('bSTE' if bx else 'STE', opt, four, five(ant), five(cons))
        exp = [('checkOK', check), ('trajOK', valid), ('antOK', ALL), ('consOK', ALL), ('implies', (ALL ^ valid) | check), ('strong', valid & check), ('', valid & check)]
        eq = (lambda a, m: 'be_same (%s) %s' % (a, bdd(m))) if bx else (lambda a, m: '(%s) = %s' % (a, bdd(m)))
        items = [(k, eq('%s st "%s"' % ('bget_ste_result' if bx else 'get_ste_result', k), m)) for k, m in exp]
        for _ in range(12):
            t = r.randrange(t0, t1 + 1); n = r.choice(nodes); g = '(%sget_trace_val st "%s" %d)' % ('b' if bx else '', n, t)
            items.append(('%s at %d (H)' % (n, t), eq('fst ' + g, hist[t][n][0]))); items.append(('%s at %d (L)' % (n, t), eq('snd ' + g, hist[t][n][1])))
        desc = 'pexlif %s | %s' % (c.pexlif, st)
        def chk(v, t, items=items, desc=desc):
            m = re.search(r'"?R([TF]*)\.', v if v != '!' else t)
            if not m: return 'no answer: %s | %s' % (t[-300:] if v == '!' else v[-300:], desc)
            bad = [it for it, x in zip(items, m.group(1)) if x != 'T']
            return 'wrong: %s expected %s | %s' % (bad[0][0], bad[0][1], desc) if bad or len(m.group(1)) != len(items) else None
        cs.append(('let ck = pexlif2fsm (%s)' % c.pexlif, None)); cs.append(('let st = %s' % st, None))
        cs.append(('chk [%s]' % ','.join(i[1] for i in items), chk))
    return cs
if __name__ == '__main__': sys.exit(main(gen))
