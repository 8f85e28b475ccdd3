"""Hash-consed first-order terms with light simplification, printed as SMT-LIB 2."""
_tab = {}
class T:
    __slots__ = ('op', 'a', 'sort', 'id', 'fv', 'size')
    def __repr__(self): return show(self)
_n = [0]
def mk(op, a, sort):
    key = (op, tuple(x.id if isinstance(x, T) else ('#', x) for x in a), sort)
    t = _tab.get(key)
    if t is None:
        t = T(); t.op = op; t.a = tuple(a); t.sort = sort; _n[0] += 1; t.id = _n[0]; t.fv = None
        t.size = 1 + sum(x.size for x in a if isinstance(x, T))
        _tab[key] = t
    return t
INT, BOOL = 'Int', 'Bool'
def arr(a, b): return '(Array %s %s)' % (a, b)
MAP = arr(INT, INT)
def split_arr(s):
    # "(Array A B)" -> A, B
    assert s.startswith('(Array '), s
    body = s[7:-1]; d = 0
    for i, c in enumerate(body):
        if c == '(': d += 1
        elif c == ')': d -= 1
        elif c == ' ' and d == 0: return body[:i], body[i+1:]
    raise ValueError(s)
def I(n): return mk('int', (int(n),), INT)
TRUE = mk('true', (), BOOL); FALSE = mk('false', (), BOOL)
def B(b): return TRUE if b else FALSE
def V(name, sort): return mk('var', (name,), sort)
_fresh = [0]
def fresh(name, sort):
    _fresh[0] += 1
    return V('%s!%d' % (name, _fresh[0]), sort)
def isint(t): return t.op == 'int'
def val(t): return t.a[0]
# ---- arithmetic, kept as linear sums
def lin(t):
    """-> (const, {term: coeff})"""
    if t.op == 'int': return t.a[0], {}
    if t.op == 'sum':
        return t.a[0], {t.a[i]: t.a[i+1] for i in range(1, len(t.a), 2)}
    return 0, {t: 1}
def unlin(c, d):
    items = [(t, k) for t, k in d.items() if k != 0]
    if not items: return I(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1: return items[0][0]
    items.sort(key=lambda p: p[0].id)
    a = [c]
    for t, k in items: a += [t, k]
    return mk('sum', a, INT)
def add(*ts):
    c, d = 0, {}
    for t in ts:
        c2, d2 = lin(t)
        c += c2
        for x, k in d2.items(): d[x] = d.get(x, 0) + k
    return unlin(c, d)
def scale(t, k):
    c, d = lin(t)
    return unlin(c * k, {x: v * k for x, v in d.items()})
def sub(a, b): return add(a, scale(b, -1))
def neg(a): return scale(a, -1)
def mul(a, b):
    if isint(a): return scale(b, val(a))
    if isint(b): return scale(a, val(b))
    if a.id > b.id: a, b = b, a
    return mk('*', (a, b), INT)
def div(a, b):   # euclidean, smt div
    if isint(b) and val(b) == 1: return a
    if isint(a) and isint(b) and val(b) > 0: return I(val(a) // val(b))
    return mk('div', (a, b), INT)
def mod(a, b):
    if isint(b) and val(b) == 1: return I(0)
    if isint(a) and isint(b) and val(b) > 0: return I(val(a) % val(b))
    return mk('mod', (a, b), INT)
def cmp(op, a, b):
    c, d = lin(sub(a, b))
    if not d:
        return B({'<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0}[op])
    if op == '>': return mk('<', (b, a), BOOL)
    if op == '>=': return mk('<=', (b, a), BOOL)
    return mk(op, (a, b), BOOL)
def lt(a, b): return cmp('<', a, b)
def le(a, b): return cmp('<=', a, b)
def eq(a, b):
    if a is b: return TRUE
    if a.sort != b.sort: raise TypeError('eq %s:%s  %s:%s' % (show(a)[:200], a.sort, show(b)[:200], b.sort))
    if a.sort == BOOL:
        if a is TRUE: return b
        if b is TRUE: return a
        if a is FALSE: return Not(b)
        if b is FALSE: return Not(a)
    if a.sort == INT:
        c, d = lin(sub(a, b))
        if not d: return B(c == 0)
        # ite(c, k1, k2) == k
        for x, y in ((a, b), (b, a)):
            if x.op == 'ite' and isint(y) and isint(x.a[1]) and isint(x.a[2]):
                p, q = x.a[1] is y, x.a[2] is y
                if p and q: return TRUE
                if p: return x.a[0]
                if q: return Not(x.a[0])
                return FALSE
    if a.id > b.id: a, b = b, a
    return mk('=', (a, b), BOOL)
def ne(a, b): return Not(eq(a, b))
def Not(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == 'not': return a.a[0]
    if a.op == '<': return mk('<=', (a.a[1], a.a[0]), BOOL)
    if a.op == '<=': return mk('<', (a.a[1], a.a[0]), BOOL)
    return mk('not', (a,), BOOL)
def And(*ts):
    out = []
    for t in ts:
        if t is FALSE: return FALSE
        if t is TRUE: continue
        if t.op == 'and': out += [x for x in t.a if x not in out]
        elif t not in out: out.append(t)
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return mk('and', out, BOOL)
def Or(*ts):
    out = []
    for t in ts:
        if t is TRUE: return TRUE
        if t is FALSE: continue
        if t.op == 'or': out += [x for x in t.a if x not in out]
        elif t not in out: out.append(t)
    if not out: return FALSE
    if len(out) == 1: return out[0]
    return mk('or', out, BOOL)
def Imp(a, b):
    if a is TRUE: return b
    if a is FALSE or b is TRUE: return TRUE
    if b is FALSE: return Not(a)
    return mk('=>', (a, b), BOOL)
def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a.sort == BOOL:
        if a is TRUE and b is FALSE: return c
        if a is FALSE and b is TRUE: return Not(c)
        if a is TRUE: return Or(c, b)
        if b is FALSE: return And(c, a)
        if a is FALSE: return And(Not(c), b)
        if b is TRUE: return Or(Not(c), a)
    if a.sort != b.sort: raise TypeError('ite sorts')
    return mk('ite', (c, a, b), a.sort)
def select(m, i):
    t = m
    n = 0
    while t.op == 'store' and n < 200:
        j = t.a[1]
        if j is i: return t.a[2]
        if j.sort == INT and i.sort == INT and i.sort == INT:
            c, d = lin(sub(j, i))
            if not d and c == 0: return t.a[2]
            if not d and c != 0: t = t.a[0]; n += 1; continue
        break
    s1, s2 = split_arr(t.sort)
    if s1 != i.sort: raise TypeError('select index %s vs %s in %s' % (s1, i.sort, show(m)[:100]))
    return mk('select', (t, i), s2)
def store(m, i, v):
    s1, s2 = split_arr(m.sort)
    if s2 != v.sort: raise TypeError('store sort %s %s' % (s2, v.sort))
    return mk('store', (m, i, v), m.sort)
def app(f, args, sort): return mk('app', (f,) + tuple(args), sort)
def forall(vs, body, pats=()):
    if body is TRUE or body is FALSE: return body
    return mk('forall', (tuple(v.id for v in vs),) + tuple(vs) + (len(vs), body, len(pats)) + tuple(x for p in pats for x in ((len(p),) + tuple(p))), BOOL)
def q_parts(t):
    a = t.a[1:]
    i = 0
    vs = []
    while isinstance(a[i], T): vs.append(a[i]); i += 1
    n = a[i]; vs = vs[:n]; body = a[i+1]; np = a[i+2]; i += 3
    pats = []
    for _ in range(np):
        k = a[i]; pats.append(a[i+1:i+1+k]); i += 1 + k
    return vs, body, pats
def exists(vs, body, pats=()):
    return Not(forall(vs, Not(body), pats))
# ---- printing
import re
def sym(s):
    if re.match(r'^[A-Za-z_][A-Za-z0-9_!.$@]*$', s) and s not in ('select','store','and','or','not'): return s
    return '|' + s + '|'
def num(n): return str(n) if n >= 0 else '(- %d)' % -n
def show(t):
    o = t.op; a = t.a
    if o == 'int': return num(a[0])
    if o in ('true', 'false'): return o
    if o == 'var': return sym(a[0])
    if o == 'sum':
        parts = []
        for i in range(1, len(a), 2):
            x = show(a[i]); k = a[i+1]
            parts.append(x if k == 1 else '(* %s %s)' % (num(k), x))
        if a[0] != 0: parts.append(num(a[0]))
        if len(parts) == 1: return parts[0]
        return '(+ ' + ' '.join(parts) + ')'
    if o == 'app':
        if len(a) == 1: return sym(a[0])
        return '(%s %s)' % (sym(a[0]), ' '.join(show(x) for x in a[1:]))
    if o == 'forall':
        vs, body, pats = q_parts(t)
        b = show(body)
        if pats: b = '(! %s %s)' % (b, ' '.join(':pattern (%s)' % ' '.join(show(p) for p in ps) for ps in pats))
        return '(forall (%s) %s)' % (' '.join('(%s %s)' % (sym(v.a[0]), v.sort) for v in vs), b)
    if o == 'constarr': return '((as const %s) %s)' % (t.sort, show(a[0]))
    if o == '*': o = 'nlmul'
    elif o in ('div', 'mod') and not isint(a[1]): o = 'nl' + o
    return '(%s %s)' % (o, ' '.join(show(x) for x in a))
def kids(t): return [x for x in t.a if isinstance(x, T)]
def subst(t, m, cache=None):
    """m: {term: term}; rebuilds with simplification"""
    if cache is None: cache = {}
    def go(t):
        r = cache.get(t.id)
        if r is not None: return r
        if t in m: r = m[t]
        else:
            o = t.op
            if o in ('int', 'true', 'false', 'var'): r = t
            elif o == 'sum':
                r = I(t.a[0])
                parts = [r]
                for i in range(1, len(t.a), 2): parts.append(scale(go(t.a[i]), t.a[i+1]))
                r = add(*parts)
            elif o == 'app': r = app(t.a[0], [go(x) for x in t.a[1:]], t.sort)
            elif o == 'forall':
                vs, body, pats = q_parts(t)
                r = forall(vs, go(body), [tuple(go(p) for p in ps) for ps in pats])
            else:
                f = {'and': And, 'or': Or, 'not': Not, '=>': Imp, 'ite': ite, 'select': select, 'store': store,
                     '=': eq, '<': lt, '<=': le, '*': mul, 'div': div, 'mod': mod}.get(o)
                args = [go(x) if isinstance(x, T) else x for x in t.a]
                r = f(*args) if f else mk(o, args, t.sort)
        cache[t.id] = r
        return r
    return go(t)
def collect(ts, seen=None):
    """all sub terms"""
    if seen is None: seen = {}
    st = list(ts)
    while st:
        t = st.pop()
        if t.id in seen: continue
        seen[t.id] = t
        st += kids(t)
    return seen
