"""Symbolic executor / verification-condition generator over the typed AST of cfront,
against contracts held in a Spec.  Every obligation is recorded by name."""
import ast, itertools
from terms import *
import terms
import cfront
from cfront import N, Ty, FrontError, sizeof, layout

class SpecError(Exception): pass          # annotation cannot be bound / unsupported construct
class Unsupported(SpecError): pass

NATIVE_SORT = {'Int': INT, 'Bool': BOOL, 'Map': MAP, 'Set': arr(INT, BOOL), 'Map2': arr(INT, MAP), 'Set2': arr(INT, arr(INT, BOOL))}
def sort_of(s):
    if s in NATIVE_SORT: return NATIVE_SORT[s]
    if s.startswith('Array '):
        # "Array A B" with B possibly "(Array C D)" written out
        a, b = s[6:].split(' ', 1)
        return arr(sort_of(a), sort_of(b))
    if s.startswith('('): return s
    return s

class Agg:
    """struct rvalue: leaf path -> term"""
    def __init__(self, key, leaves): self.key, self.leaves = key, leaves

class Spec:
    def __init__(self):
        self.fns = {}; self.macros = {}; self.ufs = {}; self.axioms = []; self.lemmas = {}; self.ghosts = {}
        self.consts = {}; self.units = []; self.ptrcalls = {}; self.recdefs = {}; self.assumptions = []
        self.options = {}; self.alias = {}; self.sorts = []
    # --- declarations used by spec files
    def ghost(self, name, sort): self.ghosts[name] = sort_of(sort)
    def define(self, name, params, body): self.macros[name] = (params, ast.parse(body.strip().replace('\n', ' '), mode='eval').body)
    def uf(self, name, args, ret): self.ufs[name] = ([sort_of(a) for a in args], sort_of(ret))
    def recfun(self, name, params, ret, body):
        self.ufs[name] = ([sort_of(s) for _, s in params], sort_of(ret))
        self.recdefs[name] = ([(p, sort_of(s)) for p, s in params], ast.parse(body.strip().replace('\n', ' '), mode='eval').body)
    def axiom(self, name, body, why, on=()): self.axioms.append((name, body, why, on))
    def lemma(self, name, params, req, ens, measure=None, ih=(), use=(), cases=()):
        self.lemmas[name] = dict(params=[(p, sort_of(s)) for p, s in params], req=req, ens=ens, measure=measure, ih=ih, use=use, cases=cases)
    def fn(self, name, **kw):
        kw.setdefault('requires', []); kw.setdefault('ensures', []); kw.setdefault('modifies', []); kw.setdefault('loops', {})
        kw.setdefault('at', {}); kw.setdefault('trusted', None)
        kw['name'] = name
        self.fns[name] = kw
        return kw

_hf = {}
def has_forall(t):
    r = _hf.get(t.id)
    if r is None:
        r = _hf[t.id] = t.op == 'forall' or any(has_forall(x) for x in t.a if isinstance(x, T))
    return r
class State:
    __slots__ = ('v', 'facts', 'fset', 'scope', 'trace', 'frame')
    def __init__(self):
        self.v = {}; self.facts = []; self.fset = set(); self.scope = {}; self.trace = (); self.frame = ()
    def fork(self):
        s = State(); s.v = dict(self.v); s.facts = list(self.facts); s.fset = set(self.fset)
        s.scope = dict(self.scope); s.trace = self.trace; s.frame = self.frame
        return s
    def assume(self, f):
        if f is TRUE: return True
        if f is FALSE: return False
        if f.op == 'and':
            ok = True
            for x in f.a: ok = self.assume(x) and ok
            return ok
        if Not(f).id in self.fset: return False
        if f.id not in self.fset:
            self.fset.add(f.id); self.facts.append(f)
        return True

class Obl:
    __slots__ = ('fn', 'name', 'facts', 'goal', 'line', 'trace', 'birth', 'kind', 'status', 'time', 'solver', 'sub', 'query')
    def __init__(self, fn, name, facts, goal, line=0, trace=(), kind='prove'):
        self.fn, self.name, self.facts, self.goal, self.line, self.trace, self.kind = fn, name, facts, goal, line, trace, kind
        self.status = None; self.time = 0; self.solver = None; self.sub = None

class Ctl:   # result of statement execution
    def __init__(self): self.norm = []; self.brk = []; self.cont = []; self.ret = []; self.goto = []
    def absorb(self, o, norm=True):
        if norm: self.norm += o.norm
        self.brk += o.brk; self.cont += o.cont; self.ret += o.ret; self.goto += o.goto

class Verifier:
    def __init__(self, spec, unit, others=()):
        self.sp = spec; self.u = unit; self.others = list(others)
        self.tags = {}         # term id -> names of the spec formulas it came from
        self.birth = {}        # var term id -> [facts]
        self.obls = []
        self.cur = None
        self.stkn = 0
        self.warn = []
        self.used_contracts = set(); self.inlined = set(); self.used_lemmas = set(); self.havoced_calls = set()
        self.gaddr_taken = None
        self.strlits = {}
        self.maps_ty = {}
        self.noovf = False
    # ------------------------------------------------------------ helpers
    def rng(self, ty, bw=None):
        if ty is None: return None
        if ty.k == 'int':
            n = bw or ty.a
            return (0, 2**n - 1) if ty.b else (-2**(n-1), 2**(n-1) - 1)
        if ty.k in ('ptr', 'fun'): return (0, 2**64 - 1)
        return None
    def newval(self, name, ty, bw=None):
        v = fresh(name, INT)
        r = self.rng(ty, bw)
        if r: self.birth.setdefault(v.id, []).append(And(le(I(r[0]), v), le(v, I(r[1])))); self.gbounds[v.id] = r
        return v
    def map_birth(self, m, key):
        """type-range axiom for a fresh int-valued memory map"""
        ti = self.maps_ty.get(key)
        if not ti: return
        r = self.rng(*ti)
        if not r: return
        x = fresh('a', INT)
        s = select(m, x)
        self.maprng[m.id] = r
        self.birth.setdefault(m.id, []).append(forall([x], And(le(I(r[0]), s), le(s, I(r[1]))), [(s,)]))
    def keysort(self, key):
        if key in self.sp.ghosts: return self.sp.ghosts[key]
        if key in self.maps_ty: return MAP
        return INT
    def get(self, st, key):
        v = st.v.get(key)
        if v is None:
            v = V(str(key) + '@0', self.keysort(key))
            if v.id not in self.birth:
                self.birth[v.id] = []
                if key in self.maps_ty: self.map_birth(v, key)
                elif isinstance(key, str) and key.startswith('g:'):
                    g = self.glob(key[2:])
                    if g:
                        r = self.rng(g[0])
                        if r: self.birth[v.id].append(And(le(I(r[0]), v), le(v, I(r[1]))))
            # initial value is shared by all states of this verification
        return v
    def havoc(self, st, key):
        s = self.keysort(key)
        v = fresh(str(key), s)
        if key in self.maps_ty: self.map_birth(v, key)
        elif isinstance(key, str) and key.startswith('g:'):
            g = self.glob(key[2:])
            if g:
                r = self.rng(g[0])
                if r: self.birth.setdefault(v.id, []).append(And(le(I(r[0]), v), le(v, I(r[1]))))
        st.v[key] = v
        return v
    def named(self, t, hint='t'):
        if t.op == 'var' or t.size <= 40: return t
        v = fresh(hint, t.sort)
        self.birth.setdefault(v.id, []).append(eq(v, t))
        b = self.bounds(t) if t.sort == INT else None
        if b: self.gbounds[v.id] = b
        return v
    def glob(self, name):
        g = self.u.globals.get(name)
        if g is None:
            for o in self.others:
                if name in o.globals: return o.globals[name]
        return g
    def addr_taken_globals(self):
        if self.gaddr_taken is None:
            s = set()
            def w(n):
                if n.op == 'addr' and n.a[0].op == 'gvar': s.add(n.a[0].x)
                for c in n.a: 
                    if isinstance(c, N): w(c)
            for f in self.u.fns.values():
                try:
                    b = f.low.body(f) if hasattr(f, 'low') else None
                except Exception: b = None
                if b: w(b)
            self.gaddr_taken = s
        return self.gaddr_taken
    def addr_taken_locals(self, body):
        s = set()
        def base(n):
            while n.op == 'member': n = n.a[0]
            return n
        def w(n):
            if n.op == 'addr':
                b = base(n.a[0])
                if b.op == 'lvar': s.add(b.x[0])
            if n.op == 'decay':
                b = base(n.a[0])
                if b.op == 'lvar': s.add(b.x[0])
            for c in n.a:
                if isinstance(c, N): w(c)
        w(body)
        return s
    def memkey(self, ty):
        if ty.k == 'int': k = 'mem.%s%d' % ('u' if ty.b else 's', ty.a)
        elif ty.k in ('ptr', 'fun'): k = 'mem.p'
        elif ty.k == 'float': k = 'mem.f%d' % (ty.a or 32)
        elif ty.k == 'void': k = 'mem.void'
        else: raise Unsupported('memory of type %r' % ty)
        if k not in self.maps_ty: self.maps_ty[k] = (ty, None)
        return k
    def fieldkey(self, rk, fn):
        k = rk + '.' + fn
        if k not in self.maps_ty:
            for f in self.u.records[rk]:
                if f[0] == fn: self.maps_ty[k] = (f[1], f[2])
        return k
    def taken_fields(self):
        """scalar fields (named in the spec) that are also reached through pointers: they live in the memory of their type"""
        return self.sp.options.get('by_address', ())
    def fmap(self, rk, fn):
        """(memory component, offset) holding a field"""
        if (rk, fn) in self.taken_fields():
            layout(self.u, rk)
            fd = [f for f in self.u.records[rk] if f[0] == fn][0]
            return self.memkey(fd[1]), fd[3] or 0
        return self.fieldkey(rk, fn), 0
    def at(self, base, idx, size):
        if size == 0: size = 1
        if base.op == 'app' and base.a[0] == 'at%d' % size:
            return app('at%d' % size, [base.a[1], add(base.a[2], idx)], INT)
        if size == 1: return add(base, idx)
        return app('at%d' % size, [base, idx], INT)
    # ------------------------------------------------------------ machine integers
    def wrap(self, ty, t, bw=None):
        if ty.k in ('ptr', 'fun', 'void', 'float', 'valist'): return t
        if ty.k != 'int': return t
        n = bw or ty.a
        if isint(t):
            x = val(t) % (2**n)
            if not ty.b and x >= 2**(n-1): x -= 2**n
            return I(x)
        if t.op == 'ite' and isint(t.a[1]) and isint(t.a[2]): return ite(t.a[0], self.wrap(ty, t.a[1], bw), self.wrap(ty, t.a[2], bw))
        bd = self.bounds(t); r = self.rng(ty, bw)
        if bd and r[0] <= bd[0] and bd[1] <= r[1]: return t
        if ty.b and n == 32 and t.op == 'sum' and len(t.a) == 3 and t.a[0] == -2**31 and t.a[2] == 1:
            b = self.bounds(t.a[1])
            if b and 0 <= b[0] and b[1] < 2**31: return app('flip31', [t.a[1]], INT)
        if ty.b: return mod(t, I(2**n))
        return sub(mod(add(t, I(2**(n-1))), I(2**n)), I(2**(n-1)))
    def fits(self, src, dst, bw=None):
        a, b = self.rng(src), self.rng(dst)
        return a and b and b[0] <= a[0] and a[1] <= b[1]
    def bounds(self, t):
        """constant interval of a term, from the function's preconditions and types"""
        if t.op == 'int': return (val(t), val(t))
        if t.op == 'sum':
            lo = hi = t.a[0]
            for i in range(1, len(t.a), 2):
                b = self.bounds(t.a[i]); k = t.a[i+1]
                if b is None: return None
                lo += min(k*b[0], k*b[1]); hi += max(k*b[0], k*b[1])
            return (lo, hi)
        if t.id in self.gbounds: return self.gbounds[t.id]
        if t.op == 'mod' and isint(t.a[1]) and val(t.a[1]) > 0: return (0, val(t.a[1]) - 1)
        if t.op == 'div' and isint(t.a[1]) and val(t.a[1]) > 0:
            b = self.bounds(t.a[0])
            return b and (b[0] // val(t.a[1]), b[1] // val(t.a[1]))
        if t.op == 'ite':
            a, b = self.bounds(t.a[1]), self.bounds(t.a[2])
            return a and b and (min(a[0], b[0]), max(a[1], b[1]))
        if t.id in self.gbounds: return self.gbounds[t.id]
        if t.op == '*':
            a, b = self.bounds(t.a[0]), self.bounds(t.a[1])
            ps = a and b and [x*y for x in a for y in b]
            return ps and (min(ps), max(ps))
        if t.op == 'app' and t.a[0] == 'pos31': return (0, 2**31 - 1)
        if t.op == 'app' and t.a[0] == 'flip31': return (0, 2**32 - 1)
        if t.op == 'app' and t.a[0] == 'bit2': return (0, 4)
        if t.op == 'app' and t.a[0] in ('pos2', 'flip2'): return (0, 2**64 - 1)
        if t.op == 'select' and t.a[0].op == 'var':
            return self.maprng.get(t.a[0].id)
        return None
    def note_bounds(self, f, since=None):
        """records constant bounds; since: only for variables created after that point (facts about them hold wherever they occur)"""
        if f.op == 'and':
            for x in f.a: self.note_bounds(x, since)
            return
        if f.op not in ('<', '<='): return
        a, b = f.a
        if since is not None:
            t = a if isint(b) else b
            while t.op in ('select', 'div', 'mod') : t = t.a[0]
            if t.op != 'var' or '!' not in t.a[0]: return
            n = t.a[0].rsplit('!', 1)[1]
            if not n.isdigit() or int(n) <= since: return
        if isint(a) and b.op in ('var', 'select', 'div', 'mod', 'app'):
            lo, hi = self.bounds(b) or (-2**70, 2**70)
            self.gbounds[b.id] = (max(lo, val(a) + (f.op == '<')), hi)
        elif isint(b) and a.op in ('var', 'select', 'div', 'mod', 'app'):
            lo, hi = self.bounds(a) or (-2**70, 2**70)
            self.gbounds[a.id] = (lo, min(hi, val(b) - (f.op == '<')))
    def addwrap(self, ty, t):
        """wrap a sum/difference of two in-range values (at most one over/underflow)"""
        if isint(t): return self.wrap(ty, t)
        if ty.k != 'int': return t
        n = 2**ty.a
        lo, hi = self.rng(ty)
        bd = self.bounds(t)
        if bd and lo <= bd[0] and bd[1] <= hi: return t
        t = self.named(t)
        mode = self.ovf_mode(ty)
        if mode == 'math': return t
        return ite(lt(I(hi), t), sub(t, I(n)), ite(lt(t, I(lo)), add(t, I(n)), t))
    def ovf_mode(self, ty):
        m = self.cur['spec'].get('overflow', self.sp.options.get('overflow', 'wrap')) if self.cur else 'wrap'
        if m == 'signed-math': return 'math' if not ty.b else 'wrap'
        if m == 'signed-math32': return 'math' if (not ty.b) else 'wrap'
        return m
    def bitand_const(self, x, c, ty):
        w = ty.a
        bd = self.bounds(x)
        if w > 32 and bd and 0 <= bd[0] and bd[1] < 2**32: return self.bitand_const(x, c % 2**32, Ty('int', 32, True))
        full = 2**w
        cc = c % full
        if cc == 0: return I(0)
        if isint(x):
            r = (val(x) % full) & cc
            return self.wrap(ty, I(r))
        runs = []; i = 0
        while i < w:
            if (cc >> i) & 1:
                j = i
                while j < w and (cc >> j) & 1: j += 1
                runs.append((i, j)); i = j
            else: i += 1
        parts = []
        for lo, hi in runs:
            top = x if hi == w else self.mod2(x, hi, ty)   # signed top run: two's complement, sign kept
            parts.append(sub(top, self.mod2(x, lo, ty)) if lo else top)
        return add(*parts)
    def mod2(self, x, k, ty):
        bd = self.bounds(x)
        if bd and 0 <= bd[0] and bd[1] < 2**k: return x
        if k == 31 and ty.b and ty.a == 32: return app('pos31', [x], INT)
        return mod(x, I(2**k))
    def binop(self, op, ty, a, b, at=None, bt=None, st=None):
        if ty.k == 'float' : return fresh('flt', INT)
        if op in ('+', '-'):
            return self.addwrap(ty, add(a, b) if op == '+' else sub(a, b))
        if op == '*':
            r = mul(a, b)
            if isint(r): return self.wrap(ty, r)
            if self.ovf_mode(ty) == 'math': return r
            return self.wrap(ty, r)
        if op in ('/', '%'):
            r = self.rng(at or ty)
            if isint(b) and val(b) > 0 and (ty.b): return div(a, b) if op == '/' else mod(a, b)
            if isint(a) and isint(b) and val(b) != 0:
                q = abs(val(a)) // abs(val(b)); q = q if (val(a) < 0) == (val(b) < 0) else -q
                return I(q) if op == '/' else I(val(a) - q * val(b))
            if st is not None and self.cur['spec'].get('guess_div'): self.sp.assumptions.append('%s: no division traps (its divisors are estimates)' % self.cur['name']); st = None
            if st is not None: self.oblig(st, 'division by zero', Not(eq(b, I(0))), kindname='div0')
            if ty.b: return div(a, b) if op == '/' else mod(a, b)
            # C truncating division
            if isint(b) and val(b) > 0:
                q = ite(le(I(0), a), div(a, b), neg(div(neg(a), b)))
                if op == '/': return q
                return ite(le(I(0), a), mod(a, b), neg(mod(neg(a), b)))
            if st is not None and isint(r and I(r[0])): self.oblig(st, 'division overflow', Not(And(eq(a, I(r[0])), eq(b, I(-1)))), kindname='divovf')
            q = app('cdiv', [a, b], INT)
            return q if op == '/' else sub(a, mul(q, b))
        if op == '<<':
            if isint(b): return self.wrap(ty, scale(a, 2**val(b)))
            return self.wrap(ty, mul(a, app('pow2', [b], INT)))
        if op == '>>':
            if isint(b): return div(a, I(2**val(b)))
            return div(a, app('pow2', [b], INT))
        if op in ('&', '|', '^'):
            if isint(a) and not isint(b): a, b = b, a
            if isint(b):
                c = val(b)
                if isint(a):
                    m = 2**ty.a
                    x, y = val(a) % m, c % m
                    return self.wrap(ty, I({'&': x & y, '|': x | y, '^': x ^ y}[op]))
                if op == '&' and not (self.tagged2() and ty.b and ty.a == 64 and c % 2**64 in (4, 2**64 - 5)): return self.bitand_const(a, c, ty)
                if op == '^' and ty.b and ty.a == 32 and c == 2**31: return app('flip31', [a], INT)
                if ty.b and ty.a == 64 and op == '^' and c == 4 and self.tagged2(): return app('flip2', [a], INT)
                if ty.b and ty.a == 64 and op == '&' and c % 2**64 in (4, 2**64 - 5) and self.tagged2(): return app('bit2' if c == 4 else 'pos2', [a], INT)
                x = self.bitand_const(a, c, ty)
                if op == '|': return sub(add(a, b), x)
                return sub(add(a, b), scale(x, 2))
            if a.op == 'ite' and b.op == 'ite' and all(isint(x) for x in (a.a[1], a.a[2], b.a[1], b.a[2])):
                f = lambda x, y: self.binop(op, ty, x, y)
                return ite(a.a[0], ite(b.a[0], f(a.a[1], b.a[1]), f(a.a[1], b.a[2])), ite(b.a[0], f(a.a[2], b.a[1]), f(a.a[2], b.a[2])))
            if op in ('|', '^'):       # disjoint bits
                for x, y in ((a, b), (b, a)):
                    bx = self.bounds(x)
                    if bx and 0 <= bx[0]:
                        k = bx[1].bit_length()
                        if self.multiple(y, 2**k): return self.wrap(ty, add(x, y))
            if a.id > b.id: a, b = b, a
            return app({'&': 'bvand', '|': 'bvor', '^': 'bvxor'}[op] + str(ty.a) + ('u' if ty.b else 's'), [a, b], INT)
        raise Unsupported('binop ' + op)
    def tagged2(self): return self.sp.options.get('tag2')
    def multiple(self, t, m):
        if t.op == 'int': return val(t) % m == 0
        if t.op == 'sum': return t.a[0] % m == 0 and all(t.a[i+1] % m == 0 or self.multiple(t.a[i], m) for i in range(1, len(t.a), 2))
        if t.op == 'mod' and isint(t.a[1]) and val(t.a[1]) % m == 0: return self.multiple(t.a[0], m)
        for f in self.birth.get(t.id, ()) if t.op == 'var' else ():
            if f.op == '=' and t in f.a: return self.multiple(f.a[0] if f.a[1] is t else f.a[1], m)
        return False
    def truth(self, t):
        return Not(eq(t, I(0)))
    def cast(self, src, dst, t):
        if isinstance(t, Agg): return t
        if dst.k == 'void': return t
        if dst.k == 'float' or (src is not None and src.k == 'float'): 
            if dst.k == 'float' and src.k == 'float': return t
            return self.newval('flt', dst)
        if dst.k in ('ptr', 'fun', 'other', 'rec', 'arr', 'valist'):
            if src is not None and src.k == 'int' and not isint(t):
                if src.b or False: return t
                return self.wrap(Ty('int', 64, True), t)
            if isint(t) and val(t) < 0: return I(val(t) % 2**64)
            return t
        if src is not None and src.k == 'int' and self.fits(src, dst): return t
        return self.wrap(dst, t)
    # ------------------------------------------------------------ lvalues
    def leaves(self, ty, addr_off=0, path=()):
        """scalar leaves of a record type: (path, ty, bw, reckey, fname, offset-of-owner)"""
        layout(self.u, ty.name)
        out = []
        for f in self.u.records[ty.name]:
            if f[1].k == 'rec':
                out += self.leaves(f[1], addr_off + (f[3] or 0), path + (f[0],))
            elif f[1].k == 'arr':
                raise Unsupported('array inside copied struct ' + ty.name)
            else: out.append((path + (f[0],), f[1], f[2], ty.name, f[0], addr_off))
        return out
    def lv(self, st, e):
        op = e.op
        if op == 'lvar':
            id_, name = e.x
            key = self.lkey(st, id_)
            addr = st.v.get(('addr',) + key)
            if addr is None:
                if e.ty.k in ('rec',): return [(st, ('lagg', key, (), e.ty))]
                if e.ty.k == 'arr': raise Unsupported('local array not in memory ' + name)
                return [(st, ('var', key, e.ty, None))]
            if e.ty.k in ('rec', 'arr'): return [(st, ('obj', addr, e.ty))]
            return [(st, ('map', self.memkey(e.ty), addr, e.ty, None))]
        if op == 'gvar':
            if e.ty.k in ('rec', 'arr'): return [(st, ('obj', self.gaddr(e.x), e.ty))]
            if e.x in self.addr_taken_globals(): return [(st, ('map', self.memkey(e.ty), self.gaddr(e.x), e.ty, None))]
            return [(st, ('var', 'g:' + e.x, e.ty, None))]
        if op == 'deref':
            return [(s, self.mem_lv(t, e.ty)) for s, t in self.ev(st, e.a[0])]
        if op == 'index':
            out = []
            for s, b in self.ev_base(st, e.a[0]):
                for s2, i in self.ev(s, e.a[1]):
                    out.append((s2, self.mem_lv(self.at(b, i, sizeof(self.u, e.ty)), e.ty)))
            return out
        if op == 'member':
            rk, fn = e.x
            out = []
            for s, l in self.lv(st, e.a[0]):
                layout(self.u, rk)
                fd = [f for f in self.u.records[rk] if f[0] == fn][0]
                if l[0] == 'lagg':
                    if fd[1].k == 'rec': out.append((s, ('lagg', l[1], l[2] + (fn,), fd[1])))
                    elif fd[1].k == 'arr': raise Unsupported('array member of local struct')
                    else: out.append((s, ('var', ('leaf', l[1], l[2] + (fn,)), fd[1], fd[2])))
                elif l[0] == 'obj':
                    if fd[1].k in ('rec', 'arr'): out.append((s, ('obj', add(l[1], I(fd[3])), fd[1])))
                    else:
                        mk_, o_ = self.fmap(rk, fn)
                        out.append((s, ('map', mk_, add(l[1], I(o_)) if o_ else l[1], fd[1], fd[2])))
                elif l[0] == 'aggval':
                    a = l[1]
                    pth = l[2] + (fn,)
                    if fd[1].k == 'rec': out.append((s, ('aggval', a, pth, fd[1])))
                    else: out.append((s, ('val', a.leaves[pth], fd[1])))
                else: raise Unsupported('member of %s' % l[0])
            return out
        if op in ('call', 'stmtexpr', 'cond', 'load', 'assign', 'cast', 'complit'):
            return [(s, ('aggval', t, (), e.ty)) if isinstance(t, Agg) else (s, ('val', t, e.ty)) for s, t in self.ev(st, e)]
        raise Unsupported('lvalue ' + op)
    def mem_lv(self, addr, ty):
        if ty.k in ('rec', 'arr'): return ('obj', addr, ty)
        return ('map', self.memkey(ty), addr, ty, None)
    def gaddr(self, name):
        v = V('&' + name, INT)
        if v.id not in self.birth:
            self.birth[v.id] = [And(lt(I(0), v), lt(v, V('$heap0', INT)))] + [Not(eq(v, u)) for u, _ in self.gaddrs]
            self.gaddrs.append((v, name))
        return v
    def lkey(self, st, id_):
        # innermost frame owning this declaration
        return ('l', st.frame, id_)
    def ev_base(self, st, e):
        """base address of an array-subscript"""
        return self.ev(st, e)
    def rd(self, st, l):
        k = l[0]
        if k == 'var':
            key = l[1]
            v = st.v.get(key)
            if v is None:
                if isinstance(key, tuple):
                    v = self.newval('uninit', l[2], l[3]); st.v[key] = v
                else: v = self.get(st, key)
            return v
        if k == 'map': return select(self.get(st, l[1]), l[2])
        if k == 'obj':
            if l[2].k == 'arr': return l[1]
            return Agg(l[2].name, {p: select(self.get(st, self.fmap(rk, fn)[0]), add(l[1], I(off + self.fmap(rk, fn)[1]))) for p, t, bw, rk, fn, off in self.leaves(l[2])})
        if k == 'lagg':
            out = {}
            for p, t, bw, rk, fn, off in self.leaves(l[3]):
                out[p] = self.rd(st, ('var', ('leaf', l[1], l[2] + p), t, bw))
            return Agg(l[3].name, out)
        if k == 'val': return l[1]
        if k == 'aggval':
            if not l[2]: return l[1]
            n = len(l[2])
            return Agg(l[3].name, {p[n:]: t for p, t in l[1].leaves.items() if p[:n] == l[2]})
        raise Unsupported('read ' + k)
    def wr(self, st, l, t):
        k = l[0]
        if k == 'var':
            if l[3]: t = self.wrap(l[2], t, l[3])
            if isinstance(t, T): t = self.named(t)
            st.v[l[1]] = t
            return t
        if k == 'map':
            if l[4] and not (isint(t) and 0 <= val(t) < 2**l[4]): t = self.wrap(l[3], t, l[4])
            self.mstore(st, l[1], l[2], t)
            return t
        if k == 'obj':
            for p, ty, bw, rk, fn, off in self.leaves(l[2]):
                self.mstore(st, self.fmap(rk, fn)[0], add(l[1], I(off + self.fmap(rk, fn)[1])), t.leaves[p])
            return t
        if k == 'lagg':
            for p, ty, bw, rk, fn, off in self.leaves(l[3]):
                st.v[('leaf', l[1], l[2] + p)] = t.leaves[p]
            return t
        raise Unsupported('write ' + k)
    def mstore(self, st, key, addr, t):
        m = self.get(st, key)
        v = fresh(key, m.sort)
        self.birth.setdefault(v.id, []).append(eq(v, mk('store', (m, addr, self.named(t)), m.sort)))
        self.defs[v.id] = (m, addr, t)
        st.v[key] = v
    def load(self, st, l):
        t = self.rd(st, l)
        if isinstance(t, T) and t.op == 'select':
            # read over recorded stores, syntactically
            m, i = t.a
            n = 0
            while m.id in self.defs and n < 100:
                m0, a, x = self.defs[m.id]
                if a is i: return x
                c, d = lin(sub(a, i))
                if not d and c != 0: m = m0; n += 1; continue
                if a.op == 'app' and i.op == 'app' and a.a[0] == i.a[0] and a.a[0].startswith('at') and a.a[1] is i.a[1]:
                    c, d = lin(sub(a.a[2], i.a[2]))
                    if not d and c != 0: m = m0; n += 1; continue
                break
        return t
    # ------------------------------------------------------------ expressions
    def ev(self, st, e):
        op = e.op
        if op == 'const': return [(st, I(e.x))]
        if op == 'flit': return [(st, fresh('flt', INT))]
        if op == 'str':
            key = e.x
            v = self.strlits.get(key)
            if v is None:
                v = V('str!%d' % len(self.strlits), INT); self.strlits[key] = v
                self.birth[v.id] = [And(lt(I(0), v), lt(v, V('$heap0', INT)))]
            return [(st, v)]
        if op == 'fun': return [(st, self.funaddr(e.x))]
        if op == 'load': return [(s, self.load(s, l)) for s, l in self.lv(st, e.a[0])]
        if op in ('lvar', 'gvar', 'deref', 'member', 'index'):
            # rvalue use of an lvalue node without an explicit load: struct copy
            return [(s, self.load(s, l)) for s, l in self.lv(st, e)]
        if op == 'decay' or op == 'addr':
            out = []
            for s, l in self.lv(st, e.a[0]):
                if l[0] == 'obj': out.append((s, l[1]))
                elif l[0] == 'map':
                    # address of a scalar: fields get owner address + offset
                    out.append((s, self.addr_of_map(l, e.a[0])))
                else: raise Unsupported('address of ' + l[0])
            return out
        if op == 'cast':
            if e.x == 'ToVoid':
                return [(s, I(0)) for s, _ in self.ev(st, e.a[0])]
            if e.x in ('PointerToBoolean', 'IntegralToBoolean'):
                return [(s, ite(self.truth(t), I(1), I(0))) for s, t in self.ev(st, e.a[0])]
            return [(s, self.cast(e.a[0].ty, e.ty, t)) for s, t in self.ev(st, e.a[0])]
        if op == 'un':
            out = []
            for s, t in self.ev(st, e.a[0]):
                if e.x == '!': r = ite(self.truth(t), I(0), I(1))
                elif e.x == '-': r = self.addwrap(e.ty, neg(t)) if e.ty.k == 'int' else fresh('flt', INT)
                elif e.x == '~': r = self.wrap(e.ty, sub(I(-1), t)) if not e.ty.b else sub(I(2**e.ty.a - 1), t)
                else: raise Unsupported('unary ' + e.x)
                out.append((s, r))
            return out
        if op == 'bin':
            if e.x in ('&&', '||'): return self.ev_logic(st, e)
            out = []
            for s, a in self.ev(st, e.a[0]):
                for s2, b in self.ev(s, e.a[1]):
                    out.append((s2, self.ev_bin(s2, e, a, b)))
            return out
        if op == 'cond': return self.ev_cond(st, e)
        if op == 'comma':
            out = []
            for s, _ in self.ev(st, e.a[0]): out += self.ev(s, e.a[1])
            return out
        if op == 'assign':
            out = []
            # evaluate rhs first (calls), then lvalue
            for s, t in self.ev(st, e.a[1]):
                for s2, l in self.lv(s, e.a[0]):
                    r = self.wr(s2, l, t)
                    out.append((s2, r))
            return out
        if op == 'opassign':
            o, lt_, ct = e.x
            out = []
            for s, b in self.ev(st, e.a[1]):
                for s2, l in self.lv(s, e.a[0]):
                    a = self.load(s2, l)
                    if e.ty.k == 'ptr':
                        sz = sizeof(self.u, e.ty.a) if e.ty.a.k != 'void' else 1
                        r = self.at(a, b if o == '+' else neg(b), sz)
                    else:
                        a2 = self.cast(e.ty, lt_, a)
                        r = self.binop(o, ct, a2, b, st=s2)
                        r = self.cast(ct, e.ty, r)
                    out.append((s2, self.wr(s2, l, r)))
            return out
        if op == 'incdec':
            o, post = e.x
            out = []
            for s, l in self.lv(st, e.a[0]):
                a = self.load(s, l)
                if e.ty.k == 'ptr':
                    sz = sizeof(self.u, e.ty.a) if e.ty.a.k != 'void' else 1
                    r = self.at(a, I(1 if o == '++' else -1), sz)
                elif e.ty.k == 'int' and e.ty.a < 32:
                    r = self.cast(Ty('int', 32, False), e.ty, add(a, I(1 if o == '++' else -1)))
                elif e.ty.k == 'float': r = fresh('flt', INT)
                else: r = self.addwrap(e.ty, add(a, I(1 if o == '++' else -1)))
                r = self.wr(s, l, r)
                out.append((s, a if post else r))
            return out
        if op == 'call': return self.ev_call(st, e)
        if op == 'stmtexpr':
            blk = e.a[0]
            body = N('block', None, blk.a[:-1], blk.line)
            c = self.ex(st, body)
            if c.brk or c.cont or c.ret or c.goto: raise Unsupported('control flow out of statement expression')
            out = []
            last = blk.a[-1]
            for s in c.norm:
                if last.op == 'expr': out += self.ev(s, last.a[0])
                else:
                    for s2 in self.ex(s, last).norm: out.append((s2, I(0)))
            return out
        if op == 'init':
            raise Unsupported('initializer list in expression')
        if op == 'havoc': return [(st, self.newval('va', e.ty))]
        raise Unsupported('expr ' + op)
    def addr_of_map(self, l, e):
        if e.op == 'member' and tuple(e.x) not in self.taken_fields():
            # &p->scalar_field : only supported through contracts that treat it opaquely
            self.warn.append('address of scalar field %s.%s' % e.x)
            return app('fieldaddr$' + e.x[0] + '.' + e.x[1], [l[2]], INT)
        return l[2]
    def funaddr(self, name):
        v = V('fn&' + name, INT)
        if v.id not in self.birth: self.birth[v.id] = [lt(I(0), v)]
        return v
    def ev_bin(self, st, e, a, b):
        o = e.x; ta, tb = e.a[0].ty, e.a[1].ty
        if isinstance(a, Agg) or isinstance(b, Agg): raise Unsupported('struct operand')
        if o in ('==', '!=', '<', '>', '<=', '>='):
            if ta.k == 'float' or tb.k == 'float':
                c = fresh('fcmp', BOOL); return ite(c, I(1), I(0))
            c = {'==': lambda: eq(a, b), '!=': lambda: ne(a, b), '<': lambda: lt(a, b), '>': lambda: lt(b, a),
                 '<=': lambda: le(a, b), '>=': lambda: le(b, a)}[o]()
            return ite(c, I(1), I(0))
        if ta.k in ('ptr', 'arr') and tb.k in ('ptr', 'arr') and o == '-':
            sz = sizeof(self.u, ta.a) if ta.a.k != 'void' else 1
            d = sub(a, b)
            if a.op == 'app' and a.a[0] == 'at%d' % sz:
                if a.a[1] is b: return a.a[2]
                if b.op == 'app' and b.a[0] == a.a[0] and b.a[1] is a.a[1]: return sub(a.a[2], b.a[2])
            return div(d, I(sz))
        if ta.k in ('ptr', 'arr') and o in ('+', '-'):
            sz = sizeof(self.u, ta.a) if ta.a.k not in ('void', 'fun') else 1
            return self.at(a, b if o == '+' else neg(b), sz)
        if tb.k in ('ptr', 'arr') and o == '+':
            sz = sizeof(self.u, tb.a) if tb.a.k != 'void' else 1
            return self.at(b, a, sz)
        return self.binop(o, e.ty, a, b, ta, tb, st)
    def branch(self, st, c):
        """-> (state-if-true or None, state-if-false or None)"""
        if c is TRUE: return st, None
        if c is FALSE: return None, st
        a = st.fork(); b = st
        ra = a.assume(c); rb = b.assume(Not(c))
        return (a if ra else None), (b if rb else None)
    def pure(self, e):
        if e.op in ('assign', 'opassign', 'incdec', 'call', 'stmtexpr', 'havoc'): 
            return False
        return all(self.pure(c) for c in e.a if isinstance(c, N))
    def ev_logic(self, st, e):
        conj = e.x == '&&'
        out = []
        for s, a in self.ev(st, e.a[0]):
            ca = self.truth(a)
            if self.pure(e.a[1]):
                self.guards.append(ca if conj else Not(ca))
                rhs = self.ev(s, e.a[1]); self.guards.pop()
                for s2, b in rhs:
                    cb = self.truth(b)
                    r = And(ca, cb) if conj else Or(ca, cb)
                    out.append((s2, ite(r, I(1), I(0))))
            else:
                t, f = self.branch(s, ca)
                go, stop = (t, f) if conj else (f, t)
                if stop is not None: out.append((stop, I(0 if conj else 1)))
                if go is not None:
                    for s2, b in self.ev(go, e.a[1]): out.append((s2, ite(self.truth(b), I(1), I(0))))
        return out
    def ev_cond(self, st, e):
        out = []
        for s, c in self.ev(st, e.a[0]):
            c = self.truth(c)
            if self.pure(e.a[1]) and self.pure(e.a[2]):
                self.guards.append(c); ra = self.ev(s, e.a[1]); self.guards.pop()
                for s2, a in ra:
                    self.guards.append(Not(c)); rb = self.ev(s2, e.a[2]); self.guards.pop()
                    for s3, b in rb:
                        if isinstance(a, Agg): out.append((s3, Agg(a.key, {p: ite(c, a.leaves[p], b.leaves[p]) for p in a.leaves})))
                        else: out.append((s3, ite(c, a, b)))
            else:
                t, f = self.branch(s, c)
                if t is not None: out += self.ev(t, e.a[1])
                if f is not None: out += self.ev(f, e.a[2])
        return out
    def evc(self, st, e):
        """evaluate as condition -> [(state, Bool)]"""
        return [(s, self.truth(t)) for s, t in self.ev(st, e)]
    # ------------------------------------------------------------ calls
    def find_body(self, name):
        f = self.u.fns.get(name)
        if f is not None and (f.body is not None or getattr(f, 'raw', None) is not None): return f
        return None
    def callkey(self, f):
        if f.op == 'fun': return f.x
        n = f
        while n.op in ('load', 'deref', 'cast') and n.a: n = n.a[0]
        if n.op == 'member': return 'ptr:%s.%s' % n.x
        if n.op == 'lvar': return 'ptr:' + n.x[1]
        if n.op == 'gvar': return 'ptr:' + n.x
        if n.op == 'index':
            b = n.a[0]
            while b.op in ('load', 'decay') and b.a: b = b.a[0]
            if b.op == 'gvar': return 'ptr:' + b.x
        return 'ptr:?'
    def ev_args(self, st, args):
        outs = [(st, [])]
        for a in args:
            nx = []
            for s, vs in outs:
                for s2, t in self.ev(s, a): nx.append((s2, vs + [t]))
            outs = nx
        return outs
    def ev_call(self, st, e):
        key = self.callkey(e.a[0])
        args = e.a[1:]
        outs = []
        sp = self.sp.fns.get(self.sp.alias.get(key, key))
        if key.startswith('ptr:'):
            for s, ft in self.ev(st, e.a[0]):
                for s2, vs in self.ev_args(s, args):
                    k2 = key
                    if ft.op == 'var' and ft.a[0].startswith('fn&'):
                        outs += self.do_call(s2, ft.a[0][3:], vs, e)
                        continue
                    outs += self.do_call(s2, k2, vs, e, ft)
            return outs
        for s2, vs in self.ev_args(st, args): outs += self.do_call(s2, key, vs, e)
        return outs
    def do_call(self, st, key, vs, e, ft=None):
        key = self.sp.alias.get(key, key)
        sp = self.sp.fns.get(key)
        if sp is None and key.startswith('ptr:') and 'ptr:*' in self.sp.fns: key = 'ptr:*'; sp = self.sp.fns[key]
        self.anchor(st, 'before:' + key, dict(zip(['arg%d' % i for i in range(len(vs))], vs)))
        if sp is not None and not (sp.get('inline')):
            outs = self.contract(st, sp, key, vs, e, ft)
        else:
            f = None if key in self.sp.options.get('ignore_calls', ()) else self.find_body(key)
            if f is None:
                if key in self.sp.options.get('ignore_calls', ()):
                    self.havoced_calls.add(key)
                    return [(st, self.newval('ret_' + key, e.ty) if e.ty.k != 'void' else I(0))]
                raise Unsupported('call to %s without contract or body' % key)
            outs = self.inline(st, f, vs, e)
        for s, r in outs:
            d = dict(zip(['arg%d' % i for i in range(len(vs))], vs)); d['ret'] = r
            self.anchor(s, 'call:' + key, d)
        return outs
    def contract(self, st, sp, key, vs, e, ft=None):
        self.used_contracts.add(key)
        f = self.u.fns.get(key)
        names = sp.get('params') or ([p[1] for p in f.params] if f else ['arg%d' % i for i in range(len(vs))])
        binds = dict(zip(names, vs))
        if ft is not None: binds['fptr'] = ft
        pre = st.fork()
        env = Env(self, pre, None, binds)
        for gname, gexpr in sp.get('ghost_params', {}).items(): pass
        for nm, r in norm_items(sp['requires'], 'pre'):
            self.oblig(st, 'call.%s.%s' % (key, nm), env.boolean(r), e.line)
        since = terms._fresh[0]
        for k in sp['modifies']:
            self.havoc(st, self.reskey(k))
        if sp.get('noreturn'): return []
        rty = f.ret if f is not None and f.ret is not None else e.ty
        if sp.get('pure_result') is not None:
            res = Env(self, pre, None, binds).term(sp['pure_result'])
        elif rty.k == 'rec':
            res = Agg(rty.name, {l[0]: self.newval('ret', l[1], l[2]) for l in self.leaves(rty)})
        else: res = self.newval('ret_' + key.replace(':', '_'), rty)
        env2 = Env(self, st, pre, binds, res)
        for nm, r in norm_items(sp['ensures'], 'post'):
            f_ = env2.boolean(r)
            if not st.assume(f_): return []
            self.note_bounds(f_, since)
        return [(st, res)]
    def inline(self, st, f, vs, e):
        if f.name in [x[0] for x in st.frame] or len(st.frame) > 6: raise Unsupported('recursion without contract: ' + f.name)
        self.inlined.add(f.name)
        body = f.low.body(f)
        s = st
        old_scope, old_frame = s.scope, s.frame
        s.frame = s.frame + ((f.name, id(e)),)
        s.scope = dict(old_scope)
        taken = self.addr_taken_locals(body)
        if len(vs) < len(f.params): raise Unsupported('arity')
        for (pid, pname, pty), t in zip(f.params, vs):
            self.declare(s, pid, pname, pty, t, taken)
        self.taken_stack.append(taken)
        try:
            c = self.ex(s, body)
        finally: self.taken_stack.pop()
        outs = []
        for s2 in c.norm: outs.append((s2, I(0)))
        for s2, r in c.ret: outs.append((s2, r if r is not None else I(0)))
        for s2, _ in outs: s2.scope = dict(old_scope); s2.frame = old_frame
        if c.goto: raise Unsupported('goto in inlined function')
        return outs
    def stackaddr(self, size):
        self.stkn += 1
        a = add(V('$sp', INT), I(self.stkn * 2**20))
        self.uses_stack = True
        return a
    def declare(self, st, id_, name, ty, t, taken):
        key = ('l', st.frame, id_)
        if ty.k == 'arr' or id_ in taken:
            a = self.stackaddr(0)
            st.v[('addr',) + key] = a
            if ty.k not in ('arr',) and t is not None:
                l = ('obj', a, ty) if ty.k == 'rec' else ('map', self.memkey(ty), a, ty, None)
                self.wr(st, l, t)
        elif ty.k == 'rec':
            if t is not None: self.wr(st, ('lagg', key, (), ty), t)
        else:
            st.v[key] = self.named(t) if t is not None else self.newval(name, ty)
        st.scope[name] = (key, ty)
        self.decl_log.setdefault(name, ty)
    # ------------------------------------------------------------ statements
    def ex(self, st, n):
        c = Ctl()
        op = n.op
        if op == 'block':
            states = [st]
            for s in n.a:
                nxt = []
                for x in states:
                    r = self.ex(x, s)
                    nxt += r.norm; c.absorb(r, norm=False)
                states = nxt
                # forward gotos to a label in this block
                if c.goto and s.op == 'label': pass
                lim = self.cur['spec'].get('maxpaths', 64)
                if len(states) > lim: states = [self.merge(states)]
                if c.goto:
                    states = states
                if not states and not (c.goto and any(x.op == 'label' for x in n.a)): break
                idx = n.a.index(s)
                if idx + 1 < len(n.a) and n.a[idx+1].op == 'label' and c.goto:
                    tgt = n.a[idx+1].x
                    states += [g for g, t in c.goto if t == tgt]
                    c.goto = [(g, t) for g, t in c.goto if t != tgt]
            c.norm = states
            return c
        if op == 'decl':
            id_, name = n.x
            taken = self.taken_stack[-1]
            if n.a:
                init = n.a[0]
                if init.op == 'init':
                    self.declare(st, id_, name, n.ty, None, taken)
                    c.norm = self.init_list(st, n, init)
                    return c
                for s, t in self.ev(st, init):
                    self.declare(s, id_, name, n.ty, t, taken); c.norm.append(s)
            else:
                self.declare(st, id_, name, n.ty, None, taken); c.norm.append(st)
            return c
        if op == 'expr':
            c.norm = [s for s, _ in self.ev(st, n.a[0])]
            return c
        if op == 'if':
            mg = self.cur['spec'].get('merge'); base = st.fork() if mg and not (mg == 'small' and self.has_big(n)) else None
            conds = self.evc(st, n.a[0])
            for s, cd in conds:
                t, f = self.branch(s, cd)
                if t is not None:
                    t.trace = t.trace + ('%d+' % n.line,)
                    c.absorb(self.ex(t, n.a[1]))
                tn = len(c.norm)
                if f is not None:
                    f.trace = f.trace + ('%d-' % n.line,)
                    c.absorb(self.ex(f, n.a[2]))
            if base is not None and len(c.norm) > 1: c.norm = [self.merge(c.norm)]
            elif len(c.norm) > 1 and self.cur['spec'].get('merge_locals') and all(x.v.get(k) is c.norm[0].v.get(k) for x in c.norm for k in set(x.v) | set(c.norm[0].v) if not isinstance(k, tuple)):
                c.norm = [self.merge(c.norm, conds[0][1] if len(conds) == 1 and len(c.norm) == 2 and tn == 1 else None)]
            elif len(c.norm) == 2 and c.norm[0].v == c.norm[1].v:     # the branches did not change anything
                c.norm = [self.merge(c.norm)]
            return c
        if op == 'return':
            if n.a:
                for s, t in self.ev(st, n.a[0]):
                    if not s.frame: self.anchor(s, 'return', {'result': t} if isinstance(t, T) else {})
                    c.ret.append((s, t))
            else:
                if not st.frame: self.anchor(st, 'return', {})
                c.ret.append((st, None))
            return c
        if op == 'break': c.brk.append(st); return c
        if op == 'continue': c.cont.append(st); return c
        if op == 'goto': c.goto.append((st, n.x)); return c
        if op == 'label': return self.ex(st, n.a[0]) if n.a else self._n(st)
        if op == 'switch': return self.ex_switch(st, n)
        if op == 'case': return self.ex(st, n.a[0])
        if op == 'loop': return self.ex_loop(st, n)
        raise Unsupported('stmt ' + op)
    def has_big(self, n):
        if isinstance(n, (list, tuple)): return any(self.has_big(x) for x in n)
        return isinstance(n, cfront.N) and (n.op in ('loop', 'switch') or self.has_big(n.a))
    def _n(self, st):
        c = Ctl(); c.norm.append(st); return c
    def init_list(self, st, n, init):
        ty = n.ty
        key = ('l', st.frame, n.x[0])
        addr = st.v.get(('addr',) + key)
        if ty.k == 'rec' and all(x.op != 'init' for x in init.a):
            fl = self.u.records[ty.name]
            states = [st]
            for f, x in zip(fl, init.a):
                nx = []
                for s in states:
                    for s2, t in self.ev(s, x):
                        if addr is not None: self.mstore(s2, self.fmap(ty.name, f[0])[0], add(addr, I(self.fmap(ty.name, f[0])[1])), t)
                        else: s2.v[('leaf', key, (f[0],))] = t
                        nx.append(s2)
                states = nx
            return states
        if ty.k == 'arr' and ty.a.k in ('int', 'ptr') and len(init.a) <= 64:
            states = [st]
            for i in range(ty.b):
                nx = []
                for s in states:
                    if i < len(init.a): evs = self.ev(s, init.a[i])
                    else: evs = [(s, I(0))]
                    for s2, t in evs:
                        self.mstore(s2, self.memkey(ty.a), self.at(addr, I(i), sizeof(self.u, ty.a)), t); nx.append(s2)
                states = nx
            return states
        raise Unsupported('initializer')
    def ex_switch(self, st, n):
        c = Ctl()
        body = n.a[1]
        items = []   # flattened list of (labels, stmt)
        def flat(s):
            labs = []
            while s.op == 'case': labs.append(s.x); s = s.a[0]
            return labs, s
        for s in (body.a if body.op == 'block' else [body]): items.append(flat(s))
        allv = [v for labs, _ in items for v in labs if v != 'default']
        for s, t in self.ev(st, n.a[0]):
            entries = []
            hasdef = None
            for i, (labs, _) in enumerate(items):
                if not labs: continue
                if 'default' in labs: hasdef = (i, labs); continue
                entries.append((i, Or(*[eq(t, I(v)) for v in labs])))
            nd = And(*[ne(t, I(v)) for v in allv])
            if hasdef is not None: entries.append((hasdef[0], Or(nd, *[eq(t, I(v)) for v in hasdef[1] if v != 'default'])))
            else: entries.append((len(items), nd))
            for i, cond in entries:
                if cond is FALSE: continue
                s2 = s.fork()
                if not s2.assume(cond): continue
                s2.trace = s2.trace + ('%d#%d' % (n.line, i),)
                r = self.ex(s2, N('block', None, [x for _, x in items[i:]], n.line))
                c.norm += r.norm + r.brk; c.cont += r.cont; c.ret += r.ret; c.goto += r.goto
        return c
    # ------------------------------------------------------------ merging
    def merge(self, states, cd=None):
        if len(states) == 1: return states[0]
        k = 0
        f0 = [s.facts for s in states]
        m = min(len(f) for f in f0)
        while k < m and all(f[k] is f0[0][k] for f in f0): k += 1
        r = State(); r.scope = states[0].scope; r.frame = states[0].frame; r.trace = states[0].trace[:0] + ('merge',)
        for f in f0[0][:k]: r.assume(f)
        if all(s.v == states[0].v for s in states) and all(len(s.facts) == k + 1 for s in states):
            r.v = dict(states[0].v); r.assume(Or(*[s.facts[k] for s in states])); return r
        if cd is not None: gs = [cd, Not(cd)]
        else:
            gs = [fresh('path', BOOL) for _ in states]
            r.assume(Or(*gs))
        for g, s in zip(gs, states):
            r.assume(Imp(g, And(*s.facts[k:])))
        keys = set()
        for s in states: keys |= set(s.v)
        for key in keys:
            vals = []
            for s in states:
                if key in s.v: vals.append(s.v[key])
                elif isinstance(key, tuple): vals.append(None)
                else: vals.append(self.get(s, key))
            if any(x is None for x in vals):
                continue
            if isinstance(vals[0], State):
                if all(x is vals[0] for x in vals): r.v[key] = vals[0]
                continue
            if all(x is vals[0] for x in vals): r.v[key] = vals[0]; continue
            if cd is not None: r.v[key] = ite(cd, vals[0], vals[1]); continue
            nv = fresh(str(key) if isinstance(key, str) else 'm', vals[0].sort)
            for g, x in zip(gs, vals): r.assume(Imp(g, eq(nv, x)))
            r.v[key] = nv
        return r
    # ------------------------------------------------------------ loops
    def effects(self, n, acc, depth=0, frames=()):
        """syntactic over-approximation of what a statement may write"""
        op = n.op
        if op in ('assign', 'opassign', 'incdec'): self.eff_lv(n.a[0], acc, n.ty)
        if op == 'decl':
            acc.add(('lid', n.x[0], n.ty))
            if n.a and n.a[0].op == 'init':
                t = n.ty
                if t.k == 'arr': acc.add(('key', self.memkey(t.a)))
                elif t.k == 'rec':
                    for f in self.u.records[t.name]:
                        if f[1].k not in ('rec', 'arr'): acc.add(('key', self.fmap(t.name, f[0])[0]))
            elif n.a and n.x[0] in self.taken_stack[-1]: self.eff_type(n.ty, acc)
        if op == 'call':
            key = self.sp.alias.get(self.callkey(n.a[0]), self.callkey(n.a[0]))
            sp = self.sp.fns.get(key)
            if sp is not None and not sp.get('inline'):
                for k in sp['modifies']: acc.add(('key', self.reskey(k)))
            else:
                f = None if key in self.sp.options.get('ignore_calls', ()) else self.find_body(key)
                if f is not None:
                    if depth < 8 and f.name not in frames:
                        t = self.addr_taken_locals(f.low.body(f))
                        for pid, pn, pty in f.params:
                            if pid in t: self.eff_type(pty, acc)
                        self.taken_stack.append(t)
                        self.effects(f.low.body(f), acc, depth + 1, frames + (f.name,))
                        self.taken_stack.pop()
            for a in ('call:' + key, 'before:' + key): self.eff_anchor(a, acc)
        for c in n.a:
            if isinstance(c, N): self.effects(c, acc, depth, frames)
    def eff_anchor(self, name, acc):
        for act in self.cur['spec']['at'].get(name, ()):
            if act[0] in ('ghost', 'ghost_fun'): acc.add(('key', act[1]))
            if act[0] == 'cut':
                for k_ in act[2]: acc.add(('key', self.reskey(k_)))
    def eff_type(self, ty, acc):
        if ty.k == 'rec':
            for p, t, bw, rk, fn, off in self.leaves(ty): acc.add(('key', self.fmap(rk, fn)[0]))
        elif ty.k != 'arr': acc.add(('key', self.memkey(ty)))
    def eff_lv(self, l, acc, ty):
        if l.op == 'lvar':
            acc.add(('lid', l.x[0], l.ty)); 
            if any(l.x[0] in t for t in self.taken_stack): self.eff_type(l.ty, acc)
        elif l.op == 'gvar':
            if l.ty.k == 'rec': self.eff_type(l.ty, acc)
            elif l.x in self.addr_taken_globals(): acc.add(('key', self.memkey(l.ty)))
            else: acc.add(('key', 'g:' + l.x))
        elif l.op in ('deref', 'index'):
            if l.ty.k == 'rec': self.eff_type(l.ty, acc)
            else: acc.add(('key', self.memkey(l.ty)))
        elif l.op == 'member':
            b = l
            while b.op == 'member': b = b.a[0]
            if b.op == 'lvar':
                acc.add(('lid', b.x[0], b.ty))
            if l.ty.k == 'rec': self.eff_type(l.ty, acc)
            else: acc.add(('key', self.fmap(*l.x)[0]))
        else: raise Unsupported('effect on ' + l.op)
    def number_loops(self, body, frame=()):
        for n in self.preorder(body):
            if n.op == 'loop' and not self.trivial_do(n) and not self.fatal_loop(n):
                self.loopno[(frame, id(n))] = len(self.loopno)
            if n.op == 'call':
                key = self.callkey(n.a[0])
                key = self.sp.alias.get(key, key)
                sp = self.sp.fns.get(key)
                if sp is None or sp.get('inline'):
                    f = None if key in self.sp.options.get('ignore_calls', ()) else self.find_body(key)
                    if f is not None and len(frame) < 6 and f.name not in [x[0] for x in frame] and f.name != self.cur['name']:
                        self.number_loops(f.low.body(f), frame + ((f.name, id(n)),))
    def preorder(self, n):
        yield n
        for c in n.a:
            if isinstance(c, N): yield from self.preorder(c)
    def fatal_loop(self, n):
        """DIE(...): while(1) { print ...; exit(-1); } -- the program ends, no path continues"""
        if n.a[1] is None or n.a[1].op != 'const' or not n.a[1].x: return False
        b = n.a[3]
        while b.op == 'block' and b.a: b = b.a[-1]
        if b.op == 'expr': b = b.a[0]
        while b.op == 'cast' and b.a: b = b.a[0]
        return b.op == 'call' and b.a[0].op == 'fun' and b.a[0].x in ('exit', 'abort', '_exit')
    def trivial_do(self, n):
        return n.x == 'do' and n.a[1].op == 'const' and n.a[1].x == 0
    def ex_loop(self, st, n):
        init, cond, inc, body = n.a
        out = Ctl()
        if self.fatal_loop(n): return out
        if self.trivial_do(n):
            r = self.ex(st, body)
            out.norm = r.norm + r.brk + r.cont; out.ret = r.ret; out.goto = r.goto
            return out
        states = [st]
        if init.a:
            r = self.ex(st, init); states = r.norm
        no = self.loopno.get((st.frame, id(n)))
        lsp = self.cur['spec']['loops'].get(no)
        if lsp is None and 'unroll' in self.cur['spec']:
            lsp = {'unroll': self.cur['spec']['unroll']}
        if lsp is None: raise SpecError('loop %s of %s (line %d) has no invariant' % (no, self.cur['name'], n.line))
        if 'unroll' in lsp: return self.unroll(states, n, lsp['unroll'], out)
        self.seen_loops.add(no)
        if len(states) > 1: states = [self.merge(states)]
        st = states[0]
        nm = 'loop%d' % no
        inv = norm_items(lsp['inv'], 'inv')
        entry = st.fork()
        self.anchor(st, nm + '_pre', {}, entry)
        env = Env(self, st, self.cur['old'], self.locals_env(st), loop=entry)
        for name, r in inv: self.oblig(st, '%s.%s.init' % (nm, name), env.boolean(r), n.line)
        acc = set()
        for x in (cond, inc, body): self.effects(x, acc)
        for a in (nm, nm + '_end'): self.eff_anchor(a, acc)
        h = st
        for a in acc:
            if a[0] == 'key': self.havoc(h, a[1])
            else:
                key = ('l', h.frame, a[1])
                ty = a[2]
                if ('addr',) + key in h.v: continue
                if ty.k == 'rec':
                    for p, t, bw, rk, fn, off in self.leaves(ty):
                        lk = ('leaf', key, p)
                        if lk in h.v: h.v[lk] = self.newval(p[-1], t, bw)
                elif key in h.v:
                    nmv = [k for k, v in h.scope.items() if v[0] == key]
                    h.v[key] = self.newval(nmv[0] if nmv else 'v', ty)
        env = Env(self, h, self.cur['old'], self.locals_env(h), loop=entry)
        for name, r in inv: h.assume(env.boolean(r))
        self.anchor(h, nm, {}, entry)
        self.cover(h, nm + '.head')
        meas = None
        if lsp.get('decreases'):
            meas = Env(self, h, self.cur['old'], self.locals_env(h), loop=entry).term(lsp['decreases'])
        head = h.fork()
        work = []
        if n.x == 'do':
            r = self.ex(h, body)
            out.ret += r.ret; out.goto += r.goto
            ends = r.norm + r.cont
            brks = r.brk
            back = []
            for e in ends:
                for s, c in self.evc(e, cond):
                    t, f = self.branch(s, c)
                    if t is not None: back.append(t)
                    if f is not None: out.norm.append(f)
            out.norm += brks
        else:
            back = []
            for s, c in self.evc(h, cond):
                t, f = self.branch(s, c)
                if f is not None: out.norm.append(f)
                if t is not None:
                    r = self.ex(t, body)
                    out.ret += r.ret; out.goto += r.goto; out.norm += r.brk
                    for e in r.norm + r.cont:
                        if inc.a: back += self.ex(e, inc).norm
                        else: back.append(e)
        for b in back:
            self.anchor(b, nm + '_end', {}, entry, head)
            env = Env(self, b, self.cur['old'], self.locals_env(b), loop=entry, head=head)
            for name, r in inv: self.oblig(b, '%s.%s.preserved' % (nm, name), env.boolean(r), n.line)
            if meas is not None:
                m2 = env.term(lsp['decreases'])
                self.oblig(b, nm + '.decreases', And(le(I(0), meas), lt(m2, meas)), n.line)
        if lsp.get('after'):
            for s in out.norm:
                env = Env(self, s, self.cur['old'], self.locals_env(s), loop=entry)
                for name, r in norm_items(lsp['after'], 'after'):
                    g = env.boolean(r)
                    self.oblig(s, '%s.%s' % (nm, name), g, n.line)
                    s.assume(g)
        for s in out.norm: self.anchor(s, nm + '_exit', {}, entry)
        if lsp.get('merge_exit') and len(out.norm) > 1: out.norm = [self.merge(out.norm)]
        return out
    def unroll(self, states, n, k, out):
        init, cond, inc, body = n.a
        cur = states
        for it in range(k + 1):
            nxt = []
            for s0 in cur:
                if n.x == 'do':
                    r = self.ex(s0, body)
                    out.ret += r.ret; out.goto += r.goto; out.norm += r.brk
                    for e in r.norm + r.cont:
                        for s, c in self.evc(e, cond):
                            t, f = self.branch(s, c)
                            if f is not None: out.norm.append(f)
                            if t is not None: nxt.append(t)
                    continue
                for s, c in self.evc(s0, cond):
                    t, f = self.branch(s, c)
                    if f is not None: out.norm.append(f)
                    if t is not None:
                        if it == k: nxt.append(t); continue
                        r = self.ex(t, body)
                        out.ret += r.ret; out.goto += r.goto; out.norm += r.brk
                        for e in r.norm + r.cont:
                            if inc.a: nxt += self.ex(e, inc).norm
                            else: nxt.append(e)
            cur = nxt
            if not cur: break
        for s in cur: self.oblig(s, 'loop%s.unwind%d' % (self.loopno.get((s.frame, id(n))), k), FALSE, n.line)
        return out
    # ------------------------------------------------------------ obligations and anchors
    def locals_env(self, st):
        return {}
    def oblig(self, st, name, goal, line=0, kindname=None):
        if goal is TRUE:
            self.trivial += 1
            o = Obl(self.cur['name'], name, [], TRUE, line, st.trace); o.status = 'valid'; o.solver = 'simplifier'
            self.obls.append(o); return
        gs = goal.a if goal.op == 'and' else (goal,)
        for i, g in enumerate(gs):
            self.obls.append(Obl(self.cur['name'], name + ('' if len(gs) == 1 else '.%d' % i), list(st.facts) + [x for x in self.guards if x is not TRUE], g, line, st.trace))
    def cover(self, st, name):
        self.obls.append(Obl(self.cur['name'], name, list(st.facts), FALSE, 0, st.trace, kind='cover'))
    def anchor(self, st, name, extra, loop=None, head=None):
        for act in self.cur['spec']['at'].get(name, ()):
            try:
                self.action(st, act, extra, loop, head, name)
            except UnboundName:
                if len(act) > 2 and act[-1] == 'opt': continue
                raise
    def action(self, st, act, extra, loop, head, aname):
        env = Env(self, st, self.cur['old'], extra, extra.get('result'), loop=loop, head=head)
        k = act[0]
        if k == 'if':
            c = env.boolean(act[1])
            raise Unsupported('if action')
        if k == 'use':     # lemma instance / unfolding
            st.assume(env.boolean(act[1], lemma=True))
        elif k == 'touch':   # make terms visible to quantifier instantiation
            for x in act[1:]:
                t = env.term(x)
                st.assume(app('$touch' + t.sort[:4].strip('('), [t], BOOL))
        elif k == 'assert':
            g = env.boolean(act[1])
            self.oblig(st, '%s.assert.%s' % (aname, act[2] if len(act) > 2 else ''), g)
            st.assume(g)
        elif k == 'ghost':
            key = act[1]
            t = env.term(act[2])
            s = self.keysort(key)
            v = fresh(key, s)
            self.birth.setdefault(v.id, []).append(eq(v, t))
            st.v[key] = v
        elif k == 'ghost_fun':     # ('ghost_fun', key, ('i', ...), expr): key := the function i -> expr (expr over the current state)
            key, vs, ex_ = act[1:4]
            s = self.keysort(key); v = fresh(key, s)
            qs = []; b2 = dict(extra); t = v
            for nm in vs:
                nm, so = (nm, INT) if isinstance(nm, str) else (nm[0], sort_of(nm[1]))
                q = fresh(nm, so); qs.append(q); b2[nm] = q; t = select(t, q)
            e2 = Env(self, st, self.cur['old'], b2, extra.get('result'), loop=loop, head=head)
            val_ = e2.term(ex_)
            if t.sort == BOOL: val_ = e2.tobool(val_)
            self.birth.setdefault(v.id, []).append(forall(qs, eq(t, val_), [(t,)]))
            st.v[key] = v
        elif k == 'label':    # remember this state: at_label("name", e) evaluates e in it
            st.v[('label', act[1])] = st.fork()
        elif k == 'cut':      # ('cut', label, [modified keys], [(name, formula)]): once per label; prove the formulas, forget the keys' values, keep the formulas
            lk = ('label', act[1])
            if lk not in st.v: return
            fs = []
            for nm_, e_ in act[3]:
                g = env.boolean(e_); self.oblig(st, '%s.%s' % (act[1], nm_), g); fs.append(e_)
            for key in act[2]: self.havoc(st, self.reskey(key))
            env2 = Env(self, st, self.cur['old'], extra, extra.get('result'), loop=loop, head=head)
            for e_ in fs:
                f_ = env2.boolean(e_); st.assume(f_); self.note_bounds(f_)
            del st.v[lk]
        elif k == 'summarize':  # ('summarize', name, [(name, formula)]): prove the formulas, then forget every other quantified fact that was not a precondition
            fs = []
            for nm_, e_ in norm_items(act[2], 'sum'):
                f_ = env.boolean(e_)
                if f_.id not in st.fset: self.oblig(st, '%s.%s' % (act[1], nm_), f_)
                fs.append(f_)
            st.facts = [x for x in st.facts if x.id in self.entry_fids or not has_forall(x)]
            st.fset = set(x.id for x in st.facts)
            for f_ in fs: st.assume(f_)
        elif k == 'assume':
            self.sp.assumptions.append('%s@%s: %s' % (self.cur['name'], aname, act[1]))
            st.assume(env.boolean(act[1]))
        else: raise SpecError('action ' + k)
    def reskey(self, k):
        """resolve a modifies entry to a state key"""
        if k in self.sp.ghosts: return k
        if '.' in k:
            if k.startswith('mem.'):
                if k not in self.maps_ty:
                    r = k[4:]
                    ty = {'p': Ty('ptr', cfront.VOID), 'f64': Ty('float', 64), 'f32': Ty('float'), 'void': cfront.VOID}.get(r)
                    if ty is None: ty = Ty('int', int(r[1:]), r[0] == 'u')
                    self.maps_ty[k] = (ty, None)
                return k
            rk, fn = k.split('.', 1)
            if rk not in self.u.records: raise SpecError('no record %s' % rk)
            if (rk, fn) in self.taken_fields(): raise SpecError('the address of field %s is taken: use %s at its offset' % (k, self.fmap(rk, fn)[0]))
            self.fieldkey(rk, fn)
            if k not in self.maps_ty: raise SpecError('no field ' + k)
            return k
        g = self.glob(k)
        if g is not None:
            if k in self.addr_taken_globals(): return self.memkey(g[0])
            return 'g:' + k
        raise SpecError('modifies: unknown ' + k)
    # ------------------------------------------------------------ top level
    def reset(self, name, sp):
        self.cur = {'name': name, 'spec': sp, 'old': None}
        self.loopno = {}; self.seen_loops = set(); self.taken_stack = []; self.stkn = 0; self.uses_stack = False
        self.gaddrs = []; self.defs = {}; self.trivial = 0; self.decl_log = {} ; self.guards = []
        self.tags = {}; self.birth = {}; self.strlits = {}; self.gbounds = {}; self.maprng = {}
        self.obls = []
        h0 = V('$heap0', INT); sp_ = V('$sp', INT)
        self.birth[h0.id] = [And(lt(I(0), h0), lt(h0, I(2**60)))]
        self.birth[sp_.id] = [lt(I(2**61), sp_), lt(sp_, I(2**62))]
    def verify(self, name):
        sp = self.sp.fns[name]
        f = self.find_body(name)
        if f is None: raise SpecError('function %s not found in %s' % (name, self.u.path))
        self.reset(name, sp)
        body = f.low.body(f)
        self.number_loops(body)
        st = State()
        taken = self.addr_taken_locals(body)
        self.taken_stack.append(taken)
        names = sp.get('params')
        ptypes = []
        binds = {}
        for i, (pid, pname, pty) in enumerate(f.params):
            if pty.k == 'rec':
                t = Agg(pty.name, {l[0]: self.newval(pname, l[1], l[2]) for l in self.leaves(pty)})
            else: t = self.newval(pname, pty)
            self.declare(st, pid, pname, pty, t, taken)
            nm = names[i] if names and i < len(names) else pname
            binds[nm] = t
            if isinstance(t, T) and pty.k == 'ptr': st.assume(lt(t, V('$sp', INT)))
        if names and len(names) != len(f.params): raise SpecError('parameters of %s changed' % name)
        self.params = binds
        pre = st.fork()
        self.cur['old'] = pre
        env = Env(self, st, pre, binds)
        for nm, r in norm_items(sp['requires'], 'pre'):
            f_ = env.boolean(r); st.assume(f_); self.note_bounds(f_)
        self.entry_fids = set(st.fset)
        self.anchor(st, 'entry', binds)
        self.cover(st, 'requires')
        nreq = len(st.facts)
        # modifies of ghost state: allow
        c = self.ex(st, body)
        if c.brk or c.cont or c.goto: raise Unsupported('stray control flow')
        exits = [(s, None) for s in c.norm] + c.ret
        if sp.get('merge_exits') and len(exits) > 1: exits = self.merge_exits(exits)
        mods = set(self.reskey(k) for k in sp['modifies'])
        for k, (s, r) in enumerate(exits):
            eb = dict(binds)
            if r is not None: eb['result'] = r
            self.anchor(s, 'exit', eb)
            env = Env(self, s, pre, binds, r)
            for nm, p in norm_items(sp['ensures'], 'post'):
                self.oblig(s, nm, env.boolean(p), 0)
            for key, v in s.v.items():
                if isinstance(key, tuple) or key in mods: continue
                if key in self.sp.ghosts or key in self.maps_ty or key.startswith('g:'):
                    v0 = self.get(pre, key)
                    if v is v0: continue
                    self.oblig(s, 'frame.%s' % key, self.frame_goal(key, v, v0))
        if exits and not sp.get('no_exit_cover'):
            # at least one exit must not be refutable
            self.exit_cover([s for s, _ in exits])
        missing = set(sp['loops']) - self.seen_loops - set(k for k, v in sp['loops'].items() if 'unroll' in v)
        if missing and not sp.get('optional_loops'): raise SpecError('loop(s) %s of %s not found' % (sorted(missing), name))
        if self.uses_stack: self.stack_facts(pre)
        obls = self.obls
        for o in obls: o.birth = self.birth
        return obls
    def merge_exits(self, exits):
        for s, r in exits:
            if r is not None and isinstance(r, Agg): return exits
            s.v['$ret'] = r if r is not None else I(0)
        m = self.merge([s for s, _ in exits])
        return [(m, m.v['$ret'])]
    def frame_goal(self, key, v, v0):
        if v.sort.startswith('(Array Int'):
            # cells of this activation's own stack objects are invisible to the caller
            x = fresh('fa', INT)
            return forall([x], Imp(lt(x, V('$sp', INT)), eq(select(v, x), select(v0, x))), [(select(v, x),)])
        return eq(v, v0)
    def stack_facts(self, pre):
        """pointers stored in memory at entry cannot point into this activation's frame"""
        spv = V('$sp', INT)
        for key, (ty, bw) in list(self.maps_ty.items()):
            if ty.k == 'ptr':
                v = V(key + '@0', MAP)
                x = fresh('a', INT)
                self.birth.setdefault(v.id, []).append(forall([x], lt(select(v, x), spv), [(select(v, x),)]))
    def exit_cover(self, states):
        for s in states[:12]:
            o = Obl(self.cur['name'], 'some-exit', list(s.facts), FALSE, 0, s.trace, kind='cover-any')
            self.obls.append(o)
    def verify_lemma(self, name):
        lm = self.sp.lemmas[name]
        self.reset('lemma ' + name, {'at': {}, 'loops': {}})
        st = State()
        binds = {p: fresh(p, s) for p, s in lm['params']}
        env = Env(self, st, None, binds)
        for r in lm['req']: st.assume(env.boolean(r))
        self.cover(st, 'requires')
        for u in lm['use']: st.assume(env.boolean(u, lemma=True))
        for inst in lm['ih']:
            # inst: tuple of argument expressions (may start with 'forall x y:')
            self.apply_ih(st, env, lm, inst)
        for i, g in enumerate(lm['ens']): self.oblig(st, 'ens%d' % i, env.boolean(g))
        for o in self.obls: o.birth = self.birth
        return self.obls
    def apply_ih(self, st, env, lm, inst):
        qv = []
        if isinstance(inst, str): inst = (inst,)
        args = [env.term(x) for x in inst]
        b2 = {p: a for (p, s), a in zip(lm['params'], args)}
        e2 = Env(self, st, None, b2)
        m0 = env.term(lm['measure']); m1 = e2.term(lm['measure'])
        ok = And(le(I(0), m1), lt(m1, m0), *[e2.boolean(r) for r in lm['req']])
        st.assume(Imp(ok, And(*[e2.boolean(g) for g in lm['ens']])))

def norm_items(items, dflt):
    out = []
    for i, x in enumerate(items):
        if isinstance(x, (tuple, list)): out.append((x[0], x[1]))
        else: out.append(('%s%d' % (dflt, i), x))
    return out

class UnboundName(SpecError): pass

_parse_cache = {}
def parse(s):
    r = _parse_cache.get(s)
    if r is None:
        try: r = ast.parse('(' + s.strip() + ')', mode='eval').body
        except SyntaxError as e: raise SpecError('syntax: %s in %s' % (e, s))
        _parse_cache[s] = r
    return r

class Env:
    qdepth = 0      # bound variables are named by nesting depth, so equal formulas are equal terms
    """evaluates specification expressions (Python syntax) in a symbolic state"""
    def __init__(self, v, st, old, binds, result=None, loop=None, head=None):
        self.v, self.st, self.old, self.binds, self.result, self.loop, self.head = v, st, old, dict(binds or {}), result, loop, head
        self.lemma = False
    def boolean(self, s, lemma=False):
        self.lemma = lemma
        t = self.ev(parse(s) if isinstance(s, str) else s, self.st, self.binds)
        return self.tobool(t)
    def term(self, s): return self.ev(parse(s) if isinstance(s, str) else s, self.st, self.binds)
    def tobool(self, t):
        if isinstance(t, T) and t.sort == INT: return Not(eq(t, I(0)))
        if not isinstance(t, T): raise SpecError('not a formula')
        return t
    def name(self, id_, st, b):
        v = self.v
        if id_ in b: return b[id_]
        if id_ == 'result':
            if self.result is None: raise SpecError('no result here')
            return self.result
        if id_ in ('True', 'TRUE_'): return TRUE
        if id_ in ('False', 'FALSE_'): return FALSE
        if id_ == 'NULL': return I(0)
        if id_ in v.sp.consts: return I(v.sp.consts[id_])
        if id_ in v.sp.macros and not v.sp.macros[id_][0]: return self.ev(v.sp.macros[id_][1], st, {})
        sc = st.scope.get(id_) or st.scope.get(v.rename.get(id_, id_) if hasattr(v, 'rename') else id_)
        if sc is not None:
            key, ty = sc
            addr = st.v.get(('addr',) + key)
            if addr is not None:
                if ty.k in ('rec', 'arr'): return addr
                return select(v.get(st, v.memkey(ty)), addr)
            if ty.k == 'rec':
                return v.rd(st, ('lagg', key, (), ty))
            t = st.v.get(key)
            if t is None: t = v.newval('uninit', ty); st.v[key] = t
            return t
        if id_ in v.sp.ghosts: return v.get(st, id_)
        g = v.glob(id_)
        if g is not None:
            if g[0].k in ('rec', 'arr'): return v.gaddr(id_)
            if id_ in v.addr_taken_globals(): return select(v.get(st, v.memkey(g[0])), v.gaddr(id_))
            return v.get(st, 'g:' + id_)
        if id_ in v.u.enums: return I(v.u.enums[id_])
        if id_ in v.u.fns: return v.funaddr(id_)
        raise UnboundName('unbound name %s in spec of %s' % (id_, v.cur['name']))
    def ev(self, e, st, b):
        k = type(e).__name__
        v = self.v
        if k == 'Constant':
            if e.value is True: return TRUE
            if e.value is False: return FALSE
            return I(e.value)
        if k == 'Name': return self.name(e.id, st, b)
        if k == 'BoolOp':
            ts = [self.tobool(self.ev(x, st, b)) for x in e.values]
            return And(*ts) if type(e.op).__name__ == 'And' else Or(*ts)
        if k == 'UnaryOp':
            o = type(e.op).__name__
            t = self.ev(e.operand, st, b)
            if o == 'Not': return Not(self.tobool(t))
            if o == 'USub': return neg(t)
        if k == 'BinOp':
            x = self.ev(e.left, st, b); y = self.ev(e.right, st, b); o = type(e.op).__name__
            if o == 'Add': return add(x, y)
            if o == 'Sub': return sub(x, y)
            if o == 'Mult': return mul(x, y)
            if o == 'FloorDiv': return div(x, y)
            if o == 'Mod': return mod(x, y)
            if o == 'Pow': return I(val(x) ** val(y))
            if o == 'BitXor': return Not(eq(self.tobool(x), self.tobool(y)))
        if k == 'Compare':
            out = []
            l = self.ev(e.left, st, b)
            for o, r in zip(e.ops, e.comparators):
                r = self.ev(r, st, b); on = type(o).__name__
                if on in ('Eq', 'NotEq'):
                    if isinstance(l, Agg) and isinstance(r, Agg): q = And(*[eq(l.leaves[p], r.leaves[p]) for p in l.leaves])
                    else:
                        a1, a2 = l, r
                        if a1.sort == BOOL and a2.sort == INT: a2 = self.tobool(a2)
                        if a2.sort == BOOL and a1.sort == INT: a1 = self.tobool(a1)
                        q = eq(a1, a2)
                    out.append(q if on == 'Eq' else Not(q))
                else: out.append({'Lt': lambda: lt(l, r), 'LtE': lambda: le(l, r), 'Gt': lambda: lt(r, l), 'GtE': lambda: le(r, l)}[on]())
                l = r
            return And(*out)
        if k == 'IfExp':
            return ite(self.tobool(self.ev(e.test, st, b)), self.ev(e.body, st, b), self.ev(e.orelse, st, b))
        if k == 'Attribute':
            if isinstance(e.value, ast.Name):
                nm = e.value.id
                if nm not in b and (nm == 'mem' or (nm in v.u.records and nm not in st.scope)):
                    return v.get(st, v.reskey(nm + '.' + e.attr))
            x = self.ev(e.value, st, b)
            if isinstance(e.value, ast.Name) and isinstance(x, T) and e.value.id not in b:
                sc = st.scope.get(e.value.id) or v.glob(e.value.id)
                rty = sc and (sc[1] if not isinstance(sc[0], Ty) else sc[0])
                if rty is not None and getattr(rty, 'k', '') == 'rec' and any(f[0] == e.attr for f in v.u.records[rty.name]):
                    k_, o_ = v.fmap(rty.name, e.attr)
                    return select(v.get(st, k_), add(x, I(o_)))
            if isinstance(x, Agg):
                if (e.attr,) in x.leaves: return x.leaves[(e.attr,)]
                sub_ = {p[1:]: t for p, t in x.leaves.items() if p[0] == e.attr}
                if sub_: return Agg('?', sub_)
            raise SpecError('attribute ' + e.attr)
        if k == 'Subscript':
            m = self.ev(e.value, st, b)
            idx = e.slice
            if isinstance(idx, ast.Tuple):
                for i in idx.elts: m = self.sel(m, self.ev(i, st, b))
                return m
            return self.sel(m, self.ev(idx, st, b))
        if k == 'Call': return self.call(e, st, b)
        if k == 'Tuple': return tuple(self.ev(x, st, b) for x in e.elts)
        raise SpecError('spec expression ' + k)
    def sel(self, m, i):
        if isinstance(i, T) and i.sort == BOOL: i = ite(i, I(1), I(0))
        return select(m, i)
    def call(self, e, st, b):
        v = self.v; sp = v.sp
        f = e.func.id if isinstance(e.func, ast.Name) else None
        if f is None: raise SpecError('call')
        a = e.args
        if f == 'old':
            if self.old is None: raise SpecError('old() without pre-state')
            # parameters keep their entry values; locals in old() are those of entry
            return self.ev(a[0], self.old, dict(b, **{k: x for k, x in getattr(v, 'params', {}).items() if k not in b}) if self.old is v.cur.get('old') else b)
        if f == 'touch':     # true; makes the terms visible to quantifier instantiation (for 'use' facts)
            ts = [self.ev(x, st, b) for x in a]
            return And(*[app('$touch' + t.sort[:4].strip('('), [t], BOOL) for t in ts])
        if f == 'at_label':
            lab = st.v.get(('label', a[0].value))
            if lab is None: raise UnboundName('no label ' + a[0].value)
            return self.ev(a[1], lab, b)
        if f == 'entry':    # state at loop entry
            return self.ev(a[0], self.loop, b)
        if f == 'head':
            return self.ev(a[0], self.head, b)
        if f in ('forall', 'exists'):
            vs = []; b2 = dict(b)
            body = a[-1]
            for x in a[:-1]:
                if isinstance(x, ast.Name): n_, s_ = x.id, INT
                else: n_, s_ = x.func.id, sort_of(x.args[0].value if isinstance(x.args[0], ast.Constant) else x.args[0].id)
                q = V('q%d!%s' % (Env.qdepth + len(vs), s_.replace(' ', '_').replace('(', '').replace(')', '')), s_); vs.append(q); b2[n_] = q
            Env.qdepth += len(vs)
            pats = []
            for kw in e.keywords:
                if kw.arg == 'pat':
                    els = kw.value.elts if isinstance(kw.value, ast.List) else [kw.value]
                    for p in els:
                        p = self.ev(p, st, b2)
                        pats.append(p if isinstance(p, tuple) else (p,))
            bt = self.tobool(self.ev(body, st, b2))
            Env.qdepth -= len(vs)
            return forall(vs, bt, pats) if f == 'forall' else exists(vs, bt, pats)
        if f == 'implies':
            return Imp(self.tobool(self.ev(a[0], st, b)), self.tobool(self.ev(a[1], st, b)))
        if f == 'iff': return eq(self.tobool(self.ev(a[0], st, b)), self.tobool(self.ev(a[1], st, b)))
        if f == 'ite':
            x, y = self.ev(a[1], st, b), self.ev(a[2], st, b)
            return ite(self.tobool(self.ev(a[0], st, b)), x, y)
        if f == 'store': return store(*[self.ev(x, st, b) for x in a])
        if f == 'b2i': return ite(self.tobool(self.ev(a[0], st, b)), I(1), I(0))
        if f == 'b': return self.tobool(self.ev(a[0], st, b))
        if f == 'let':      # let(x, e, body)
            b2 = dict(b); b2[a[0].id] = self.ev(a[1], st, b); return self.ev(a[2], st, b2)
        if f == 'at':       # at(base, idx, size)
            return v.at(self.ev(a[0], st, b), self.ev(a[1], st, b), val(self.ev(a[2], st, b)))
        if f == 'idx':      # idx(pointer, base, size): pointer difference in elements
            x, y, n = self.ev(a[0], st, b), self.ev(a[1], st, b), val(self.ev(a[2], st, b))
            if x.op == 'app' and x.a[0] == 'at%d' % n and x.a[1] is y: return x.a[2]
            return div(sub(x, y), I(n))
        if f == 'pos31': return v.mod2(self.ev(a[0], st, b), 31, Ty('int', 32, True))
        if f in ('bit2', 'pos2', 'flip2'): return app(f, [self.ev(a[0], st, b)], INT)
        if f == 'flip31': return app(f, [self.ev(a[0], st, b)], INT)
        if f in ('pow2', 'cdiv'): return app(f, [self.ev(x, st, b) for x in a], INT)
        if f == 'addr': return v.gaddr(a[0].id)
        if f == 'offs':     # offs(rec.field)
            rk, fn = a[0].value.id, a[0].attr
            layout(v.u, rk)
            return I([x for x in v.u.records[rk] if x[0] == fn][0][3])
        if f == 'sizeof': return I(sizeof(v.u, Ty('rec', name=a[0].id)))
        if f == 'sp': return V('$sp', INT)
        if f == 'heap0': return V('$heap0', INT)
        if f == 'unfold':   # unfold(f(args)) : f(args) == its definition
            c = a[0]
            nm = c.func.id
            args = [self.ev(x, st, b) for x in c.args]
            ps, body = sp.recdefs[nm]
            lhs = app(nm, args, sp.ufs[nm][1])
            rhs = self.ev(body, st, {p: t for (p, s), t in zip(ps, args)})
            if rhs.sort != lhs.sort: rhs = self.tobool(rhs)
            return eq(lhs, rhs)
        if f in sp.lemmas:
            lm = sp.lemmas[f]; v.used_lemmas.add(f)
            args = [self.ev(x, st, b) for x in a]
            b2 = {p: t for (p, s), t in zip(lm['params'], args)}
            if len(args) != len(lm['params']): raise SpecError('lemma arity ' + f)
            req = []
            for r in lm['req']:
                ast_ = parse(r); d0 = Env.qdepth
                if not any(isinstance(x, ast.Name) and x.id in b2 for x in ast.walk(ast_)): Env.qdepth = 0    # closed: named as it would be outside the quantifier
                try: t_ = self.tobool(self.ev(ast_, st, b2))
                finally: Env.qdepth = d0
                req += [x for x in (t_.a if t_.op == 'and' else (t_,)) if x.id not in st.fset]
            ens = [self.tobool(self.ev(parse(r), st, b2)) for r in lm['ens']]
            return Imp(And(*req), And(*ens))
        if f in sp.macros:
            ps, body = sp.macros[f]
            if len(ps) != len(a): raise SpecError('macro arity ' + f)
            b2 = dict((p, self.ev(x, st, b)) for p, x in zip(ps, a))
            r = self.ev(body, st, b2)
            if not a and f in (v.cur.get('spec') or {}).get('hide', ()):     # opaque here: the formula is one propositional atom
                r = self.tobool(r)
                return r if r.op in ('true', 'false') else V('opaque!%s!%d' % (f, r.id), BOOL)
            if not a and isinstance(r, T) and r.sort == BOOL:
                for x in (r.a if r.op == 'and' else (r,)): v.tags.setdefault(x.id, set()).add(f)
            return r
        if f in sp.ufs:
            ss, r = sp.ufs[f]
            args = [self.ev(x, st, b) for x in a]
            if [x.sort for x in args] != ss: raise SpecError('sorts of %s: %s' % (f, [x.sort for x in args]))
            return app(f, args, r)
        if f == 'constmap': 
            x = self.ev(a[0], st, b)
            return mk('constarr', (x,), arr(INT, x.sort))
        raise SpecError('unknown spec function ' + f)
