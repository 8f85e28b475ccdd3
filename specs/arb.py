"""Contracts for the arbitrary-precision integers of src/bin/fl/arb_prec.c.
A number is a sequence of LEN(x) 64-bit words, least significant first, in two's complement; AV(x) is its value."""
from vexec import Spec
S = Spec()
S.units = ['src/bin/fl/arb_prec.c']
S.options['ignore_calls'] = ('arbi_die', 'Eprintf', 'Wprintf')
S.ghost('live', 'Set')     # numbers that are allocated and not freed
S.ghost('ow', 'Map')       # word address -> the number it belongs to
S.uf('tr', ['Int'], 'Bool')   # always true; a handle on which the quantified facts about numbers are instantiated
S.axiom('tr', 'forall(o, tr(o), pat=tr(o))', 'trigger predicate, true everywhere')
S.define('LV', ['o'], 'live[o] and tr(o)')
S.define('W', ['a'], 'mem.s64[a]')
S.define('WD', ['x', 'i'], 'mem.s64[at(x, i, 8)]')
S.define('LEN', ['x'], 'mem.s16[x-2]')
S.define('U', ['w'], 'ite(w < 0, w + 2**64, w)')
# mp(w, n) = w * (2^64)^n
S.recfun('P', [('n', 'Int')], 'Int', 'ite(n <= 0, 1, 2**64 * P(n-1))')
S.recfun('mp', [('w', 'Int'), ('n', 'Int')], 'Int', 'w * P(n)')
S.recfun('uval', [('m', 'Map'), ('p', 'Int'), ('n', 'Int')], 'Int', 'ite(n <= 0, 0, uval(m, p, n-1) + mp(U(m[at(p, n-1, 8)]), n-1))')
S.define('sval', ['m', 'p', 'n'], 'uval(m, p, n) - ite(m[at(p, n-1, 8)] < 0, P(n), 0)')
S.define('AV', ['x'], 'sval(mem.s64, x, LEN(x))')
S.define('NORM', ['x'], 'LEN(x) == 1 or WD(x, LEN(x)-1) != ite(WD(x, LEN(x)-2) < 0, -1, 0)')
# ---- arithmetic facts
S.lemma('mp_add', [('a', 'Int'), ('b', 'Int'), ('n', 'Int')], [], ['mp(a + b, n) == mp(a, n) + mp(b, n)'], use=['unfold(mp(a+b,n))', 'unfold(mp(a,n))', 'unfold(mp(b,n))'])
S.lemma('mp_c', [('n', 'Int')], ['n >= 0'], ['mp(0, n) == 0', 'mp(1, n) == P(n)', 'mp(-1, n) == -P(n)', 'mp(2**64, n) == P(n+1)', 'mp(2**64-1, n) == P(n+1) - P(n)', 'P(n+1) == 2**64 * P(n)', 'mp(2, n) == 2*P(n)', 'mp(-2, n) == -2*P(n)'],
  use=['unfold(mp(0,n))', 'unfold(mp(1,n))', 'unfold(mp(-1,n))', 'unfold(mp(2**64,n))', 'unfold(mp(2**64-1,n))', 'unfold(P(n+1))', 'unfold(mp(2,n))', 'unfold(mp(-2,n))'])
S.lemma('P_pos', [('n', 'Int')], ['n >= 0'], ['P(n) >= 1', 'P(n+1) == 2**64 * P(n)'], measure='n', ih=[('n-1',)], use=['unfold(P(n))', 'unfold(P(n+1))'])
S.lemma('P_mono', [('k', 'Int'), ('n', 'Int')], ['0 <= k and k <= n'], ['P(k) <= P(n)', 'implies(k < n, 2**64 * P(k) <= P(n))'], measure='n', ih=[('k', 'n-1')], use=['unfold(P(n))', 'unfold(P(k))', 'P_pos(n)', 'P_pos(k)', 'P_pos(n-1)'])
S.lemma('mp_range', [('w', 'Int'), ('n', 'Int')], ['n >= 0', '0 <= w and w < 2**64'], ['0 <= mp(w,n)', 'mp(w,n) <= P(n+1) - P(n)', 'implies(w >= 1, mp(w,n) >= P(n))', 'implies(w >= 2**63, mp(w,n) >= 2**63 * P(n))', 'implies(w < 2**63, mp(w,n) <= 2**63*P(n) - P(n))'],
  use=['unfold(mp(w,n))', 'P_pos(n)', 'mul_lo(w, P(n), 0)', 'mul_lo(w, P(n), 1)', 'mul_lo(w, P(n), 2**63)', 'mul_hi(w, P(n), 2**64-1)', 'mul_hi(w, P(n), 2**63-1)'])
S.lemma('mul_lo', [('w', 'Int'), ('p', 'Int'), ('k', 'Int')], ['p >= 1', 'w >= k'], ['w * p >= k * p'])
S.lemma('mul_hi', [('w', 'Int'), ('p', 'Int'), ('k', 'Int')], ['p >= 1', 'w <= k'], ['w * p <= k * p'])
S.lemma('uval_range', [('m', 'Map'), ('p', 'Int'), ('n', 'Int')], ['n >= 0', 'forall(a, -2**63 <= m[a] and m[a] < 2**63, pat=m[a])'], ['0 <= uval(m,p,n)', 'uval(m,p,n) < P(n)'], measure='n', ih=[('m', 'p', 'n-1')],
  use=['unfold(uval(m,p,n))', 'mp_range(U(m[at(p,n-1,8)]), n-1)', 'unfold(P(n))', 'P_pos(n)', 'P_pos(n-1)'])
S.lemma('uval_same', [('m', 'Map'), ('m2', 'Map'), ('p', 'Int'), ('q', 'Int'), ('n', 'Int')], ['forall(i, implies(0 <= i and i < n, m[at(p,i,8)] == m2[at(q,i,8)]), pat=m[at(p,i,8)])'], ['uval(m,p,n) == uval(m2,q,n)'], measure='n', ih=[('m', 'm2', 'p', 'q', 'n-1')],
  use=['unfold(uval(m,p,n))', 'unfold(uval(m2,q,n))', 'touch(m[at(p,n-1,8)])'])
# one position: with words wx, wy, carry c in and d out
S.lemma('pos_add', [('x', 'Int'), ('y', 'Int'), ('c', 'Int'), ('z', 'Int'), ('d', 'Int'), ('n', 'Int')], ['n >= 0', 'x + y + c == z + 2**64 * d'], ['mp(x,n) + mp(y,n) + mp(c,n) == mp(z,n) + mp(d,n+1)'],
  use=['unfold(mp(x,n))', 'unfold(mp(y,n))', 'unfold(mp(c,n))', 'unfold(mp(z,n))', 'unfold(mp(d,n+1))', 'unfold(P(n+1))'])
# ---- storage
OI = [('own', 'forall((o), (i), implies(live[o] and 0 <= i and i < LEN(o), ow[at(o,i,8)] == o), pat=at(o,i,8))'), ('len', 'forall(o, implies(live[o], LEN(o) >= 1 and o > 0 and o < sp()), pat=tr(o))')]
FR = [('objs', 'forall(o, implies(old(live)[o], live[o] and LEN(o) == old(LEN(o)) and AV(o) == old(AV(o)) and NORM(o) == old(NORM(o))), pat=tr(o))'),
      ('words', 'forall(a, implies(old(live)[old(ow)[a]], ow[a] == old(ow)[a] and W(a) == old(W(a))), pat=[ow[a], W(a)])')]
FRW = FR[1:]
MODS = ['mem.s64', 'mem.s16', 'mem.s8', 'live', 'ow', 'arbi__errmsg']
RNG = 'forall(a, -2**63 <= m[a] and m[a] < 2**63, pat=m[a])'
S.lemma('one_word', [('m', 'Map'), ('p', 'Int')], [], ['sval(m,p,1) == m[at(p,0,8)]', 'uval(m,p,1) == U(m[at(p,0,8)])', 'P(1) == 2**64', 'P(0) == 1'], use=['unfold(uval(m,p,1))', 'unfold(uval(m,p,0))', 'unfold(mp(U(m[at(p,0,8)]),0))', 'unfold(P(0))', 'unfold(P(1))'])
# dropping a word that only repeats the sign does not change the value
S.lemma('drop_sign', [('m', 'Map'), ('p', 'Int'), ('n', 'Int')], ['n >= 1', 'm[at(p,n,8)] == ite(m[at(p,n-1,8)] < 0, -1, 0)'], ['sval(m,p,n+1) == sval(m,p,n)'],
  use=['unfold(uval(m,p,n+1))', 'mp_c(n)'])
OBJS = lambda m0='old(mem.s64)': ('use', 'forall(o, uval_same(%s, mem.s64, o, o, %s), pat=tr(o))' % (m0, 'old(LEN(o))' if m0.startswith('old') else 'LEN(o)'))
NEW = [('new', 'LV(result) and not old(live)[result] and result > 0'), ('live', 'forall(o, live[o] == (old(live)[o] or o == result), pat=tr(o))')]
STEP = ('assert', 'forall(o, implies(old(live)[o], live[o] and LEN(o) == old(LEN(o)) and AV(o) == old(AV(o)) and NORM(o) == old(NORM(o))), pat=tr(o))', 'objs')
def op(name, params, val, requires=(), ensures=(), norm=True, **kw):
    """a function that returns a new number with the given value"""
    S.fn(name, params=params, requires=OI + [('args', ' and '.join('LV(%s)' % p for p in params) or 'True')] + list(requires),
      ensures=([('value', 'AV(result) == ' + val)] if val else []) + NEW + ([('norm', 'NORM(result)')] if norm else []) + OI + FR + list(ensures), modifies=MODS, **kw)
S.fn('arbi_alloc', params=['nbytes'], trusted='storage manager: returns a chunk disjoint from every number in use; the size header is written by the caller',
  ensures=[('new', 'not old(live)[result] and live == store(old(live), result, True) and result > 0 and result < sp()'),
           ('words', 'forall(i, implies(0 <= i and 8*i < nbytes, ow[at(result,i,8)] == result), pat=at(result,i,8))'),
           ('others', 'forall(a, implies(old(live)[old(ow)[a]], ow[a] == old(ow)[a]), pat=ow[a])')], modifies=['live', 'ow', 'mem.s8'])
S.fn('arbi_free', params=['p'], trusted='storage manager: the chunk may be handed out again', requires=[('live', 'LV(p)')],
  ensures=[('freed', 'live == store(old(live), p, False)'), ('words', 'forall(a, implies(live[ow[a]], W(a) == old(W(a))), pat=W(a))')], modifies=['live', 'mem.s64', 'mem.s8'])
S.fn('arbi_collect', params=['p'], ensures=[('same', 'result == p')], modifies=['mem.s8'])
S.fn('allocate', params=['ndigits'], requires=OI,
  ensures=NEW + [('len', 'LEN(result) == ndigits')] + OI + [('objs', 'forall(o, implies(old(live)[o], live[o] and LEN(o) == old(LEN(o))), pat=tr(o))'), 
    ('words', 'forall(a, implies(old(live)[old(ow)[a]], ow[a] == old(ow)[a]), pat=ow[a])')],
  modifies=['live', 'ow', 'mem.s8', 'mem.s16'], at={'entry': [('assume', 'ndigits >= 1')]})
S.fn('ffree', params=['x'], requires=OI + [('args', 'LV(x)')], ensures=OI + [('freed', 'live == store(old(live), x, False)'),
    ('objs', 'forall(o, implies(live[o], old(live)[o] and AV(o) == old(AV(o)) and NORM(o) == old(NORM(o))), pat=tr(o))'), ('words', 'forall(a, implies(live[ow[a]], W(a) == old(W(a))), pat=W(a))')],
  modifies=['live', 'mem.s64', 'mem.s8'], at={'exit': [OBJS()]})
op('arbi__FromInt', ['v'], 'v', ensures=[('len', 'LEN(result) == 1')], at={'exit': [('use', 'one_word(mem.s64, result)'), OBJS()]})
S.fns['arbi__FromInt']['requires'] = OI
S.fn('cmp0', params=['x'], requires=OI + [('args', 'LV(x)'), ('norm', 'NORM(x)')], ensures=[('sign', 'result == ite(AV(x) == 0, 0, ite(AV(x) < 0, -1, 1))')],
  at={'exit': [('use', 'sign_of(mem.s64, x, LEN(x))'), ('use', 'P_pos(LEN(x)-1)'), ('use', 'one_word(mem.s64, x)')]})
S.lemma('sign_of', [('m', 'Map'), ('p', 'Int'), ('n', 'Int')], ['n >= 1', RNG], ['(sval(m,p,n) < 0) == (m[at(p,n-1,8)] < 0)', '-P(n) <= 2*sval(m,p,n)', '2*sval(m,p,n) < P(n)',
   'implies(n >= 2 and m[at(p,n-1,8)] != ite(m[at(p,n-2,8)] < 0, -1, 0), ite(m[at(p,n-1,8)] < 0, 2*sval(m,p,n) < -P(n-1), 2*sval(m,p,n) >= P(n-1)))'],
  use=['unfold(uval(m,p,n))', 'uval_range(m,p,n-1)', 'mp_range(U(m[at(p,n-1,8)]), n-1)', 'P_pos(n-1)', 'unfold(P(n))', 'implies(n >= 2, unfold(uval(m,p,n-1)))', 'implies(n>=2, uval_range(m,p,n-2))', 'implies(n >= 2, mp_range(U(m[at(p,n-2,8)]), n-2))', 'implies(n>=2, P_pos(n-2) and P_pos(n-1))', 'mp_c(n-1)',
       'mp_range(m[at(p,n-1,8)] + 2**63, n-1)', 'mp_add(m[at(p,n-1,8)] + 2**63, 2**63, n-1)', 'mp_add(m[at(p,n-1,8)], 2**64, n-1)', 'mp_63(n-1)', 'implies(n >= 2, unfold(P(n-1)))', 'mp_range(-2 - m[at(p,n-1,8)], n-1)', 'mp_add(-2 - m[at(p,n-1,8)], m[at(p,n-1,8)], n-1)'])
S.lemma('mp_63', [('n', 'Int')], ['n >= 0'], ['2*mp(2**63, n) == P(n+1)'], use=['unfold(mp(2**63,n))', 'unfold(P(n+1))'])
S.fn('trim', params=['x'], requires=OI + [('args', 'LV(x)')], ensures=OI + [('ext', 'forall(i, implies(i >= 0, ite(i < LEN(x), WD(x,i), ite(WD(x,LEN(x)-1) < 0, -1, 0)) == old(ite(i < LEN(x), WD(x,i), ite(WD(x,LEN(x)-1) < 0, -1, 0)))), pat=at(x,i,8))'),('value', 'AV(x) == old(AV(x))'), ('norm', 'NORM(x)'), ('len', 'LEN(x) <= old(LEN(x))'),
    ('objs', 'forall(o, implies(live[o] and o != x, LEN(o) == old(LEN(o))), pat=tr(o))')], modifies=['mem.s16'],
  loops={0: dict(inv=[('idx', '0 <= i and i < LEN(x)'), ('value', 'sval(mem.s64,x,i+1) == AV(x)'),
      ('ext', 'forall(k, implies(i < k and k < LEN(x), WD(x,k) == ite(WD(x,i) < 0, -1, 0)), pat=at(x,k,8))')])}, at={'loop0_end': [('use', 'drop_sign(mem.s64, x, head(i))')]})
S.define('CF', ['wx', 'wy', 'wz'], 'ite((wx < 0 and wy < 0) or ((wx < 0 or wy < 0) and wz >= 0), 1, 0)')
ZF = lambda z='z': ('frame', 'forall(a, implies(ow[a] != %s, W(a) == old(W(a))), pat=W(a))' % z)
M0 = 'old(mem.s64)'
op('arbi__add', ['x', 'y'], 'old(AV(x)) + old(AV(y))',
  loops={0: dict(inv=[('idx', '0 <= i and i <= ly'), ('sum', 'uval(mem.s64,z,i) + mp(carry,i) == uval(%s,x,i) + uval(%s,y,i)' % (M0, M0)), ('c', 'carry == 0 or carry == 1'),
       ('last', 'implies(i > 0, wx == old(mem.s64)[at(x,i-1,8)] and wy == old(mem.s64)[at(y,i-1,8)] and wz == WD(z,i-1) and carry == CF(wx,wy,wz))'), ZF()]),
     1: dict(inv=[('idx', 'ly <= i and i <= lx'), ('sum', 'uval(mem.s64,z,i) + mp(carry,i) == uval(%s,x,i) + uval(%s,y,ly) + ite(wy < 0, P(i) - P(ly), 0)' % (M0, M0)), ('c', 'carry == 0 or carry == 1'),
       ('last', 'wx == old(mem.s64)[at(x,i-1,8)] and wz == WD(z,i-1) and carry == CF(wx,wy,wz)'), ('wy', 'wy == ite(old(mem.s64)[at(y,ly-1,8)] < 0, -1, 0)'), ZF()])},
  at={'entry': [('use', 'one_word(mem.s64,x)'), ('use', 'one_word(mem.s64,y)')],
      'loop0_pre': [('use', 'unfold(uval(mem.s64,z,0))'), ('use', 'unfold(uval(old(mem.s64),x,0))'), ('use', 'unfold(uval(old(mem.s64),y,0))'), ('use', 'mp_c(0)')],
      'loop0_end': [('use', 'uval_same(head(mem.s64), mem.s64, z, z, head(i))'), ('use', 'unfold(uval(mem.s64,z,i))'), ('use', 'unfold(uval(old(mem.s64),x,i))'), ('use', 'unfold(uval(old(mem.s64),y,i))'),
                    ('use', 'pos_add(U(wx), U(wy), head(carry), U(wz), carry, head(i))')],
      'loop1_end': [('use', 'uval_same(head(mem.s64), mem.s64, z, z, head(i))'), ('use', 'unfold(uval(mem.s64,z,i))'), ('use', 'unfold(uval(old(mem.s64),x,i))'), ('use', 'mp_c(head(i))'),
                    ('use', 'pos_add(U(wx), U(wy), head(carry), U(wz), carry, head(i))')],
      'loop0_exit': [('label', 'L')], 'loop1_exit': [('label', 'L')],
      'exit': [('use', 'uval_same(at_label("L", mem.s64), mem.s64, z, z, lx)', 'opt'), ('use', 'unfold(uval(mem.s64, result, lx+1))'), ('use', 'mp_c(lx)'), ('use', 'mp_c(0)'), OBJS()]})
# ---- negation, subtraction, comparison
op('arbi__cpy', ['x'], 'old(AV(x))', norm=False, ensures=[('norm', 'implies(old(NORM(x)), NORM(result))'), ('len', 'LEN(result) == old(LEN(x))')],
  loops={0: dict(inv=[('idx', '0 <= i and i <= lx'), ('same', 'forall(k, implies(0 <= k and k < i, WD(y,k) == old(mem.s64)[at(x,k,8)]), pat=at(y,k,8))'), ZF('y')])},
  at={'exit': [('use', 'uval_same(mem.s64, old(mem.s64), result, x, lx)'), ('touch', 'WD(y,lx-1)', 'WD(y,lx-2)'), OBJS()]})
op('arbi__neg', ['x'], '-old(AV(x))',
  loops={0: dict(inv=[('idx', '0 <= i and i <= lx'), ('compl', 'uval(mem.s64,y,i) == P(i) - 1 - uval(old(mem.s64),x,i)'), ZF('y')])},
  at={'entry': [('use', 'one_word(mem.s64,x)')],
      'loop0_pre': [('use', 'unfold(uval(mem.s64,y,0))'), ('use', 'unfold(uval(old(mem.s64),x,0))'), ('use', 'unfold(P(0))')],
      'loop0_end': [('use', 'uval_same(head(mem.s64), mem.s64, y, y, head(i))'), ('use', 'unfold(uval(mem.s64,y,i))'), ('use', 'unfold(uval(old(mem.s64),x,i))'), ('use', 'mp_c(head(i))'), ('use', 'mp_add(U(WD(y,head(i))), U(old(mem.s64)[at(x,head(i),8)]), head(i))')],
      'loop0_exit': [('label', 'L')],
      'before:arbi__FromInt': [OBJS(), STEP],
      'before:arbi__add': [('use', 'uval_same(at_label("L", mem.s64), mem.s64, y, y, lx)'), ('use', 'unfold(uval(mem.s64,y,lx+1))'), ('use', 'mp_c(lx)'), ('assert', 'AV(y) == -old(AV(x)) - 1', 'compl')]})
op('arbi__abs', ['x'], 'ite(old(AV(x)) < 0, -old(AV(x)), old(AV(x)))', norm=False, ensures=[('norm', 'implies(old(NORM(x)), NORM(result))')], at={'entry': [('use', 'sign_of(mem.s64, x, LEN(x))')]})
op('arbi__sub', ['x', 'y'], 'old(AV(x)) - old(AV(y))', at={'entry': [('use', 'one_word(mem.s64,x)'), ('use', 'one_word(mem.s64,y)')]})
S.lemma('sval_top', [('m', 'Map'), ('p', 'Int'), ('n', 'Int')], ['n >= 1'], ['sval(m,p,n) == uval(m,p,n-1) + mp(m[at(p,n-1,8)], n-1)'], use=['unfold(uval(m,p,n))', 'mp_add(m[at(p,n-1,8)], 2**64, n-1)', 'mp_c(n-1)'])
S.lemma('lex', [('a', 'Int'), ('b', 'Int'), ('ua', 'Int'), ('ub', 'Int'), ('n', 'Int')], ['n >= 0', '0 <= ua and ua < P(n)', '0 <= ub and ub < P(n)', 'a < b', 'b - a < 2**64'], ['ua + mp(a,n) < ub + mp(b,n)'], use=['mp_add(a, b-a, n)', 'mp_range(b-a, n)'])
CMP = 'ite(AV(x) == AV(y), 0, ite(AV(x) < AV(y), -1, 1))'
def LEX(i): return [('use', s) for s in ['uval_range(mem.s64,x,%s)' % i, 'uval_range(mem.s64,y,%s)' % i]]
S.fn('Arbi_cmp', params=['x', 'y'], requires=OI + [('args', 'LV(x) and LV(y) and NORM(x) and NORM(y)')], ensures=[('cmp', 'result == ' + CMP)],
  loops={0: dict(inv=[('idx', '-1 <= i and i <= lx - 2 and lx == ly'), ('above', 'uval(mem.s64,x,lx-1) - uval(mem.s64,y,lx-1) == uval(mem.s64,x,i+1) - uval(mem.s64,y,i+1)')])},
  at={'entry': [('use', 'sign_of(mem.s64, x, LEN(x))'), ('use', 'sign_of(mem.s64, y, LEN(y))'), ('use', 'P_mono(LEN(x), LEN(y)-1)'), ('use', 'P_mono(LEN(y), LEN(x)-1)'), ('use', 'sval_top(mem.s64,x,LEN(x))'), ('use', 'sval_top(mem.s64,y,LEN(y))'),
       ('use', 'lex(WD(x,LEN(x)-1), WD(y,LEN(x)-1), uval(mem.s64,x,LEN(x)-1), uval(mem.s64,y,LEN(x)-1), LEN(x)-1)'), ('use', 'lex(WD(y,LEN(x)-1), WD(x,LEN(x)-1), uval(mem.s64,y,LEN(x)-1), uval(mem.s64,x,LEN(x)-1), LEN(x)-1)')] + LEX('LEN(x)-1'),
      'loop0': [('use', s) for s in ['unfold(uval(mem.s64,x,i+1))', 'unfold(uval(mem.s64,y,i+1))', 'unfold(uval(mem.s64,x,0))', 'unfold(uval(mem.s64,y,0))', 'lex(U(WD(x,i)), U(WD(y,i)), uval(mem.s64,x,i), uval(mem.s64,y,i), i)', 'lex(U(WD(y,i)), U(WD(x,i)), uval(mem.s64,y,i), uval(mem.s64,x,i), i)']] + LEX('i')})
ABS = lambda x: 'ite(AV(%s) < 0, -AV(%s), AV(%s))' % (x, x, x)
S.fn('cmpa', params=['x', 'y'], requires=OI + [('args', 'LV(x) and LV(y) and NORM(x) and NORM(y)')],
  ensures=OI + FR + [('live', 'forall(o, live[o] == old(live)[o], pat=tr(o))'), ('cmp', 'result == old(let(a, %s, let(b, %s, ite(a == b, 0, ite(a < b, -1, 1)))))' % (ABS('x'), ABS('y')))], modifies=MODS)
S.fn('Arbi_IsNegative', params=['x'], requires=OI + [('args', 'LV(x) and NORM(x)')], ensures=[('sign', 'b(result) == (AV(x) < 0)')])
# ---- multiplication: column sums of the schoolbook method
S.lemma('P_add', [('i', 'Int'), ('j', 'Int')], ['i >= 0 and j >= 0'], ['P(i+j) == P(i) * P(j)'], measure='i', ih=[('i-1', 'j')], use=['unfold(P(i+j))', 'unfold(P(i))'])
VP = [('m', 'Map'), ('a', 'Int'), ('b', 'Int'), ('l', 'Int'), ('n', 'Int')]
S.recfun('cv', VP + [('k', 'Int')], 'Int', 'ite(n <= 0, 0, cv(m,a,b,l,n-1,k) + ite(0 <= k-(n-1) and k-(n-1) < l, U(m[at(a,n-1,8)]) * U(m[at(b,k-(n-1),8)]), 0))')
S.recfun('cs', VP + [('k', 'Int')], 'Int', 'ite(k <= 0, 0, cs(m,a,b,l,n,k-1) + mp(cv(m,a,b,l,n,k-1), k-1))')
S.define('clamp', ['x', 'l'], 'ite(x < 0, 0, ite(x > l, l, x))')
S.lemma('cv_zero', VP + [('k', 'Int')], ['k-(n-1) >= l', 'l >= 0'], ['cv(m,a,b,l,n,k) == 0'], measure='n', ih=[('m', 'a', 'b', 'l', 'n-1', 'k')], use=['unfold(cv(m,a,b,l,n,k))'])
S.lemma('cv_end', VP + [('k', 'Int'), ('n2', 'Int')], ['n <= n2', 'k < n', 'n >= 0'], ['cv(m,a,b,l,n,k) == cv(m,a,b,l,n2,k)'], measure='n2', ih=[('m', 'a', 'b', 'l', 'n', 'k', 'n2-1')], use=['unfold(cv(m,a,b,l,n2,k))'])
S.lemma('mp_mp', [('b', 'Int'), ('i', 'Int'), ('j', 'Int')], ['i >= 0 and j >= 0'], ['mp(mp(b,i),j) == mp(b,i+j)'], use=['unfold(mp(mp(b,i),j))', 'unfold(mp(b,i))', 'unfold(mp(b,i+j))', 'P_add(i,j)', 'assoc(b,P(i),P(j))'])
S.lemma('assoc', [('a', 'Int'), ('b', 'Int'), ('c', 'Int')], [], ['(a*b)*c == a*(b*c)'])
S.lemma('dist', [('a', 'Int'), ('b', 'Int'), ('c', 'Int')], [], ['a*(b+c) == a*b + a*c'])
S.lemma('mp_mulc', [('a', 'Int'), ('b', 'Int'), ('n', 'Int')], [], ['a * mp(b,n) == mp(a*b,n)'], use=['unfold(mp(b,n))', 'unfold(mp(a*b,n))', 'assoc(a,b,P(n))'])
S.lemma('cs_step', VP + [('k', 'Int')], ['n >= 1 and k >= 0 and l >= 0'], ['cs(m,a,b,l,n,k) == cs(m,a,b,l,n-1,k) + U(m[at(a,n-1,8)]) * mp(uval(m,b,clamp(k-(n-1),l)), n-1)'], measure='k', ih=[('m', 'a', 'b', 'l', 'n', 'k-1')],
  use=['unfold(cs(m,a,b,l,n,k))', 'unfold(cs(m,a,b,l,n-1,k))', 'unfold(cv(m,a,b,l,n,k-1))', 'unfold(uval(m,b,clamp(k-(n-1),l)))', 'unfold(uval(m,b,0))', 'mp_c(n-1)',
       'mul0(U(m[at(a,n-1,8)]))', 'implies(0 <= k-n and k-n < l, let(A, U(m[at(a,n-1,8)]), let(B, U(m[at(b,k-n,8)]), mp_add(cv(m,a,b,l,n-1,k-1), A*B, k-1) and mp_add(uval(m,b,k-n), mp(B,k-n), n-1) and mp_mp(B,k-n,n-1) and dist(A, mp(uval(m,b,k-n),n-1), mp(B,k-1)) and mp_mulc(A,B,k-1))))'])
S.lemma('mul0', [('a', 'Int')], [], ['a*0 == 0'])
S.lemma('cs_zero', VP + [('k', 'Int')], ['n <= 0'], ['cs(m,a,b,l,n,k) == 0'], measure='k', ih=[('m', 'a', 'b', 'l', 'n', 'k-1')], use=['unfold(cs(m,a,b,l,n,k))', 'unfold(cv(m,a,b,l,n,k-1))', 'unfold(mp(0,k-1))'])
S.lemma('cs_full', VP + [('k', 'Int')], ['n >= 0', 'l >= 0', 'k >= n + l'], ['cs(m,a,b,l,n,k) == uval(m,a,n) * uval(m,b,l)'], measure='n', ih=[('m', 'a', 'b', 'l', 'n-1', 'k')],
  use=['implies(n >= 1, cs_step(m,a,b,l,n,k))', 'cs_zero(m,a,b,l,n,k)', 'unfold(uval(m,a,n))', 'unfold(mp(uval(m,b,l),n-1))', 'unfold(mp(U(m[at(a,n-1,8)]),n-1))'])
S.lemma('low_words', [('m', 'Map'), ('p', 'Int'), ('k', 'Int'), ('n', 'Int')], ['0 <= k and k <= n', 'uval(m,p,n) < P(k)', RNG], ['uval(m,p,k) == uval(m,p,n)'], measure='n', ih=[('m', 'p', 'k', 'n-1')],
  use=['unfold(uval(m,p,n))', 'uval_range(m,p,n-1)', 'mp_range(U(m[at(p,n-1,8)]), n-1)', 'P_mono(k,n-1)', 'mp_c(n-1)'])
S.axiom('cdiv', 'forall(x, y, implies(y != 0, cdiv(x,y) == ite(x >= 0, ite(y > 0, x // y, -(x // (-y))), ite(y > 0, -((-x) // y), (-x) // (-y)))), pat=cdiv(x,y))', 'definition of the truncating division of C')
S.lemma('ediv', [('a', 'Int'), ('b', 'Int')], ['b > 0'], ['a == b * (a // b) + a % b', '0 <= a % b', 'a % b < b'])
S.lemma('cdq', [('a', 'Int'), ('b', 'Int'), ('q', 'Int')], ['b != 0', 'q == cdiv(a, b)'], ['a - b*q < ite(b < 0, -b, b)', '-(a - b*q) < ite(b < 0, -b, b)', 'implies(a >= 0, a - b*q >= 0)', 'implies(a <= 0, a - b*q <= 0)'], use=['ediv(a,b)', 'ediv(a,-b)', 'ediv(-a,b)', 'ediv(-a,-b)'])
S.lemma('split_mul', [('a', 'Int'), ('b', 'Int'), ('c', 'Int'), ('d', 'Int')], ['0 <= a and a < 2**32', '0 <= b and b < 2**32', '0 <= c and c < 2**32', '0 <= d and d < 2**32'],
  ['(a + 2**32*b) * (c + 2**32*d) == a*c + 2**32*(a*d) + 2**32*(b*c) + 2**64*(b*d)'] + ['0 <= %s*%s and %s*%s <= (2**32-1)*(2**32-1)' % (p, q, p, q) for p, q in ('ac', 'ad', 'bc', 'bd')],
  use=['mul_hi32(%s, %s)' % (p, q) for p, q in ('ac', 'ad', 'bc', 'bd')])
S.lemma('mul_hi32', [('a', 'Int'), ('b', 'Int')], ['0 <= a and a < 2**32', '0 <= b and b < 2**32'], ['0 <= a*b', 'a*b <= (2**32-1)*(2**32-1)'])
S.lemma('quarter', [('a', 'Int'), ('b', 'Int'), ('p', 'Int'), ('q', 'Int')], ['0 <= a', '0 <= b', '2*a <= p', '2*b <= q'], ['4*(a*b) <= p*q', '0 <= a*b'])
S.lemma('signprod', [('u', 'Int'), ('v', 'Int'), ('a', 'Int'), ('b', 'Int')], ['u == ite(a < 0, -a, a)', 'v == ite(b < 0, -b, b)'], ['u*v == ite((a < 0) == (b < 0) or a == 0 or b == 0, a*b, -(a*b))', 'implies(a == 0 or b == 0, a*b == 0)'])
# |x| fits in the words of x, and its words beyond the first LEN(x) are zero
S.lemma('mag', [('m', 'Map'), ('m0', 'Map'), ('x', 'Int'), ('lx', 'Int'), ('ax', 'Int'), ('la', 'Int')], ['lx >= 1 and la >= 1', 'forall(a, -2**63 <= m[a] and m[a] < 2**63, pat=m[a])', 'forall(a, -2**63 <= m0[a] and m0[a] < 2**63, pat=m0[a])',
    'lx == 1 or m0[at(x,lx-1,8)] != ite(m0[at(x,lx-2,8)] < 0, -1, 0)', 'sval(m,ax,la) == ite(sval(m0,x,lx) < 0, -sval(m0,x,lx), sval(m0,x,lx))'],
  ['lx <= la', 'uval(m,ax,lx) == sval(m,ax,la)', '2*uval(m,ax,lx) <= P(lx)', '0 <= uval(m,ax,lx)'],
  use=['sign_of(m0,x,lx)', 'sign_of(m,ax,la)', 'P_mono(la,lx-1)', 'P_pos(lx)', 'P_pos(la)', 'implies(lx <= la, low_words(m,ax,lx,la))', 'uval_range(m,ax,lx)'])
S.lemma('col_step', [(x, 'Int') for x in 'p0 p1 p2 p3 q0 q1 q2 q3 ac ad bc bd e c uv'.split()], ['q0 == p0 + ac % 2**32', 'q1 == p1 + ac // 2**32 + ad % 2**32 + bc % 2**32', 'q2 == p2 + ad // 2**32 + bc // 2**32 + bd % 2**32', 'q3 == p3 + bd // 2**32',
   'p0 + 2**32*p1 + 2**64*p2 + 2**96*p3 == e + c', 'uv == ac + 2**32*ad + 2**32*bc + 2**64*bd'], ['q0 + 2**32*q1 + 2**64*q2 + 2**96*q3 == e + c + uv'], use=['ediv(ac,2**32)', 'ediv(ad,2**32)', 'ediv(bc,2**32)', 'ediv(bd,2**32)'])
S.lemma('no_carry', [('m', 'Map'), ('p', 'Int'), ('n', 'Int'), ('c', 'Int'), ('v', 'Int')], ['n >= 1 and c >= 0', RNG, 'uval(m,p,n) + mp(c,n) == v', '4*v <= P(n)'], ['sval(m,p,n) == v'],
   use=['uval_range(m,p,n)', 'uval_range(m,p,n-1)', 'unfold(uval(m,p,n))', 'mp_range(U(m[at(p,n-1,8)]),n-1)', 'P_pos(n-1)', 'P_pos(n)', 'unfold(mp(c,n))', 'implies(c >= 1, mul_lo(c,P(n),1))'])
E0 = 'at_label("E", p0 + 2**32*p1)'
MM = 'at_label("M", mem.s64)'
op('arbi__mlt', ['x', 'y'], 'old(AV(x)) * old(AV(y))', requires=[('norm', 'NORM(x) and NORM(y)')],
  loops={0: dict(inv=[('idx', '0 <= i and i <= lp'), ('acc', 'p0 < 2**50 and p1 < 2**50'), ('sum', 'uval(mem.s64,ap,i) + mp(p0 + 2**32*p1, i) == cs(%s,ax,ay,ly,lx,i)' % MM),
            ('frame', 'forall(a, implies(ow[a] != ap, W(a) == %s[a]), pat=W(a))' % MM)]),
         1: dict(inv=[('idx', 'i - kmax <= j and j <= jmax + 1'), ('col', 'p0 + 2**32*p1 + 2**64*p2 + 2**96*p3 == %s + cv(%s,ax,ay,ly,j,i)' % (E0, MM)),
            ('acc', 'p0 <= 2**50 + (j-(i-kmax))*2**32 and p1 <= 2**50 + (j-(i-kmax))*(3*2**32) and p2 <= (j-(i-kmax))*(3*2**32) and p3 <= (j-(i-kmax))*2**32')])},
  at={'entry': [('use', 'one_word(mem.s64,x)'), ('use', 'one_word(mem.s64,y)')],
      'loop0_pre': [('label', 'M'), ('touch', 'live[x]', 'live[y]', 'tr(x)', 'tr(y)'), ('assert', '(ax == x) == (old(AV(x)) >= 0) and (ay == y) == (old(AV(y)) >= 0)', 'signs'), ('use', 'unfold(uval(mem.s64,ap,0))'), ('use', 'unfold(cs(mem.s64,ax,ay,ly,lx,0))'), ('use', 'mp_c(0)'),
          ('use', 'mag(mem.s64,old(mem.s64),x,lx,ax,LEN(ax))'), ('use', 'mag(mem.s64,old(mem.s64),y,ly,ay,LEN(ay))')],
      'loop0': [('label', 'E')],
      'loop1_pre': [('use', 'implies(i < ly, unfold(cv(%s,ax,ay,ly,0,i)))' % MM), ('use', 'implies(i >= ly, cv_zero(%s,ax,ay,ly,i-ly+1,i))' % MM)],
      'loop1_end': [('use', 'unfold(cv(%s,ax,ay,ly,j,i))' % MM), ('use', 'split_mul(xl,xh,yl,yh)'), ('assert', 'U(WD(ax,head(j))) == xl + 2**32*xh and U(WD(ay,i-head(j))) == yl + 2**32*yh', 'halves'),
          ('assert', 'p0 == head(p0) + (xl*yl) % 2**32 and p3 == head(p3) + (xh*yh) // 2**32 and p1 == head(p1) + (xl*yl) // 2**32 + (xl*yh) % 2**32 + (xh*yl) % 2**32 and p2 == head(p2) + (xl*yh) // 2**32 + (xh*yl) // 2**32 + (xh*yh) % 2**32', 'accs'),
          ('assert', 'WD(ax,head(j)) == %s[at(ax,head(j),8)] and WD(ay,i-head(j)) == %s[at(ay,i-head(j),8)] and j == head(j) + 1' % (MM, MM), 'read'),
          ('assert', 'U(WD(ax,head(j)))*U(WD(ay,i-head(j))) == xl*yl + 2**32*(xl*yh) + 2**32*(xh*yl) + 2**64*(xh*yh)', 'prod'),
          ('assert', 'cv(%s,ax,ay,ly,j,i) == cv(%s,ax,ay,ly,head(j),i) + U(WD(ax,head(j)))*U(WD(ay,i-head(j)))' % (MM, MM), 'cv'),
          ('use', 'col_step(head(p0),head(p1),head(p2),head(p3),p0,p1,p2,p3,xl*yl,xl*yh,xh*yl,xh*yh,%s,cv(%s,ax,ay,ly,head(j),i),U(WD(ax,head(j)))*U(WD(ay,i-head(j))))' % (E0, MM))],
      'loop0_end': [('use', 'uval_same(head(mem.s64), mem.s64, ap, ap, head(i))'), ('use', 'unfold(uval(mem.s64,ap,i))'), ('use', 'unfold(cs(%s,ax,ay,ly,lx,i))' % MM),
          ('use', 'implies(head(i) < lx, cv_end(%s,ax,ay,ly,head(i)+1,head(i),lx))' % MM), ('use', 'mp_c(head(i))'),
          ('use', 'pos_add(%s, cv(%s,ax,ay,ly,lx,head(i)), 0, U(WD(ap,head(i))), p0 + 2**32*p1, head(i))' % (E0, MM))],
      'loop0_exit': [('use', 'cs_full(%s,ax,ay,ly,lx,lp)' % MM), ('use', 'quarter(uval(%s,ax,lx),uval(%s,ay,ly),P(lx),P(ly))' % (MM, MM)), ('use', 'P_add(lx,ly)'), ('use', 'no_carry(mem.s64,ap,lp,p0+2**32*p1,uval(%s,ax,lx) * uval(%s,ay,ly))' % (MM, MM)), ('assert', 'AV(ap) == uval(%s,ax,lx) * uval(%s,ay,ly)' % (MM, MM), 'product'),
          ('use', 'signprod(uval(%s,ax,lx),uval(%s,ay,ly),old(AV(x)),old(AV(y)))' % (MM, MM)), ('assert', 'AV(ap) == ite((old(AV(x)) < 0) == (old(AV(y)) < 0) or old(AV(x)) == 0 or old(AV(y)) == 0, old(AV(x))*old(AV(y)), -(old(AV(x))*old(AV(y))))', 'magnitude')],
      'call:ffree': [('assert', 'implies(LV(ap), AV(ap) == ite((old(AV(x)) < 0) == (old(AV(y)) < 0) or old(AV(x)) == 0 or old(AV(y)) == 0, old(AV(x))*old(AV(y)), -(old(AV(x))*old(AV(y)))))', 'kept')],
      'before:trim': [('assert', 'AV(p) == old(AV(x))*old(AV(y))', 'signed'), OBJS(), STEP],
      'exit': [OBJS()]})
# ---- bitwise operations: word by word on the sign-extended operands
S.uf('bw', ['Int', 'Int', 'Int'], 'Int')
S.define('EXT', ['m', 'x', 'l', 'i'], 'ite(i < l, m[at(x,i,8)], ite(m[at(x,l-1,8)] < 0, -1, 0))')
S.define('SG', ['w'], 'ite(w < 0, -1, 0)')
S.axiom('bw_sign', 'forall(f, a, b, bw(f, SG(a), SG(b)) == SG(bw(f, a, b)), pat=bw(f,a,b))', 'bitwise operations act on the sign bits like on all bits')
S.axiom('bw_swap', 'forall(f, a, b, bw(f, a, b) == bw(f, b, a), pat=bw(f,a,b))', 'bv_and, bv_or, bv_xor are commutative (bv_not is applied with equal operands)')
S.fn('ptr:*', params=['a', 'b'], trusted='the operation passed to arbi__bvop acts on single words', ensures=[('op', 'result == bw(fptr, a, b)')])
BW = 'EXT(mem.s64,%s,LEN(%s),i) == bw(operation, EXT(old(mem.s64),x,old(LEN(x)),i), EXT(old(mem.s64),y,old(LEN(y)),i))'
op('arbi__bvop', ['x', 'y', 'operation'], None, ensures=[('words', 'forall(i, implies(i >= 0, %s), pat=at(result,i,8))' % (BW % ('result', 'result')))],
  loops={0: dict(inv=[('idx', '0 <= i and i <= ly'), ('words', 'forall(k, implies(0 <= k and k < i, WD(z,k) == bw(operation, old(mem.s64)[at(x,k,8)], old(mem.s64)[at(y,k,8)])), pat=at(z,k,8))'), ZF()]),
         1: dict(inv=[('idx', 'ly <= i and i <= lx'), ('words', 'forall(k, implies(0 <= k and k < i, WD(z,k) == bw(operation, old(mem.s64)[at(x,k,8)], EXT(old(mem.s64),y,ly,k))), pat=at(z,k,8))'), ZF()])},
  at={'before:trim': [('touch', 'WD(z,lx-1)')], 'exit': [('use', 'one_word(mem.s64,result)'), OBJS(), ('touch', 'at(result,old(LEN(x))-1,8)', 'at(result,old(LEN(y))-1,8)')]})
S.fns['arbi__bvop']['requires'] = OI + [('args', 'LV(x) and LV(y)')]
# ---- division: the quotient is refined by guesses; what the guesses are does not matter for the result
S.lemma('shift_low', [('m', 'Map'), ('p', 'Int'), ('n', 'Int')], ['n >= 0'], ['uval(m,p,n+1) == U(m[p]) + 2**64*uval(m,p+8,n)'], measure='n', ih=[('m', 'p', 'n-1')],
  use=['unfold(uval(m,p,n+1))', 'unfold(uval(m,p+8,n))', 'unfold(mp(U(m[at(p,n,8)]),n))', 'unfold(mp(U(m[at(p+8,n-1,8)]),n-1))', 'unfold(P(n))', 'unfold(uval(m,p,n))', 'unfold(uval(m,p,0))', 'implies(n == 0, unfold(mp(U(m[p]),0)))', 'unfold(P(0))', 'scale_mul(P(n-1), U(m[at(p,n,8)]))'])
S.lemma('scale_mul', [('a', 'Int'), ('b', 'Int')], [], ['(2**64*a)*b == 2**64*(a*b)'])
S.lemma('hi_step', [('m', 'Map'), ('p', 'Int'), ('n', 'Int')], ['n >= 1'], ['sval(m,p,n+1) == U(m[p]) + 2**64*sval(m,p+8,n)', 'at(p,n,8) == at(p+8,n-1,8)'], use=['shift_low(m,p,n)', 'P_pos(n)'])
S.lemma('mul_eq', [('a', 'Int'), ('b', 'Int'), ('c', 'Int'), ('d', 'Int')], ['a == c', 'b == d'], ['a*b == c*d'])
S.lemma('distr', [('q', 'Int'), ('g', 'Int'), ('y', 'Int')], [], ['(q+g)*y == q*y + g*y', '(q-1)*y == q*y - y', '(2**64*q)*y == 2**64*(q*y)', '0*y == 0', '(-1)*y == -y'])
S.lemma('neg_top', [('m', 'Map'), ('m2', 'Map'), ('p', 'Int'), ('q', 'Int'), ('n', 'Int')], ['n >= 1', 'forall(i, implies(0 <= i and i < n, m[at(p,i,8)] == m2[at(q,i,8)]), pat=m[at(p,i,8)])'], ['sval(m,p,n) == sval(m2,q,n)'], use=['uval_same(m,m2,p,q,n)', 'touch(m[at(p,n-1,8)])'])
S.define('HI', ['m', 'x', 'j', 'l'], 'sval(m, x + 8*j, l-j)')
def TWO(q, r): return [('quot', 'old(AV(x)) == AV(%s) * old(AV(y)) + AV(%s)' % (q, r)), ('small', 'let(r, AV(%s), let(y, old(AV(y)), ite(r < 0, -r, r) < ite(y < 0, -y, y)))' % r), ('rsign', 'AV(%s) == 0 or (AV(%s) < 0) == (old(AV(y)) < 0)' % (r, r)),
    ('two', 'LV({0}) and LV({1}) and not old(live)[{0}] and not old(live)[{1}] and {0} != {1} and {0} > 0 and {1} > 0'.format(q, r)), ('live', 'forall(o, live[o] == (old(live)[o] or o == %s or o == %s), pat=tr(o))' % (q, r)), ('norm', 'NORM(%s) and NORM(%s)' % (q, r))] + OI + FR
QR = ('mem.p[qr]', 'mem.p[at(qr,1,8)]')
OM = 'old(mem.s64)'
INV = [('two', 'LV(q) and LV(r) and not old(live)[q] and not old(live)[r] and q != r and q > 0 and r > 0'), ('live', 'forall(o, live[o] == (old(live)[o] or o == q or o == r), pat=tr(o))'), ('norm', 'NORM(q) and NORM(r)'),
       ('acc', 'HI(%s,x,j,lx) == AV(q) * old(AV(y)) + AV(r)' % OM), ('j', '0 <= j and j <= lx - ly')] + OI + FR
def COPY(z, n, word): return dict(inv=[('idx', '0 <= i and i <= ' + n), ('copy', 'forall(k, implies(0 <= k and k < i, WD(%s,k) == %s), pat=at(%s,k,8))' % (z, word, z)), ('frame', 'forall(a, implies(ow[a] != %s, W(a) == at_label("C",W(a))), pat=W(a))' % z)])
def COPY1(z, n, src): return dict(inv=[('idx', '0 <= i and i <= ' + n), ('low', 'WD(%s,0) == at_label("C",WD(%s,0))' % (z, z)), ('copy', 'forall(k, implies(1 <= k and k <= i, WD(%s,k) == at_label("C",WD(%s,k-1))), pat=at(%s,k,8))' % (z, src, z)), ('frame', 'forall(a, implies(ow[a] != %s, W(a) == at_label("C",W(a))), pat=W(a))' % z)])
SH = [('m', 'Map'), ('m2', 'Map'), ('p', 'Int'), ('q', 'Int'), ('n', 'Int')]
SHR = ['forall(k, implies(1 <= k and k <= n, m[at(p,k,8)] == m2[at(q,k-1,8)]), pat=m[at(p,k,8)])']
S.lemma('shifted', SH, ['n >= 0'] + SHR, ['uval(m,p,n+1) == U(m[at(p,0,8)]) + 2**64*uval(m2,q,n)'], measure='n', ih=[('m', 'm2', 'p', 'q', 'n-1')],
  use=['unfold(uval(m,p,n+1))', 'unfold(uval(m2,q,n))', 'unfold(mp(U(m[at(p,n,8)]),n))', 'unfold(mp(U(m2[at(q,n-1,8)]),n-1))', 'unfold(P(n))', 'unfold(uval(m,p,0))', 'implies(n == 0, unfold(mp(U(m[at(p,0,8)]),0)))', 'unfold(P(0))', 'scale_mul(P(n-1), U(m[at(p,n,8)]))', 'touch(m[at(p,n,8)])'])
S.lemma('shifted_s', SH, ['n >= 1'] + SHR, ['sval(m,p,n+1) == U(m[at(p,0,8)]) + 2**64*sval(m2,q,n)'], use=['shifted(m,m2,p,q,n)', 'P_pos(n)', 'touch(m[at(p,n,8)])'])
def MID(q, t, r): return [('three', 'LV({0}) and LV({1}) and LV({2}) and not old(live)[{0}] and not old(live)[{1}] and not old(live)[{2}] and {0} != {1} and {0} != {2} and {1} != {2} and {0} > 0 and {1} > 0 and {2} > 0'.format(q, t, r)), ('live', 'forall(o, live[o] == (old(live)[o] or o == %s or o == %s or o == %s), pat=tr(o))' % (q, t, r)), ('j', '0 <= j and j < lx - ly')] + OI + FR
KEEP = lambda z, l='A': ('assert', 'forall(o, implies(live[o] and o != %s, LEN(o) == at_label("%s", LEN(o)) and AV(o) == at_label("%s", AV(o)) and NORM(o) == at_label("%s", NORM(o))), pat=tr(o))' % (z, l, l, l), 'kept')
S.fn('divmod', params=['x', 'y', 'qr'], requires=OI + [('args', 'LV(x) and LV(y) and NORM(x) and NORM(y)'), ('div0', 'AV(y) != 0'), ('qr', 'qr > 0')], ensures=TWO(*QR), modifies=MODS + ['mem.p'], merge_locals=True, guess_div=True,
  loops={0: COPY('r', 'ly', OM + '[at(x,j+k,8)]'), 1: dict(inv=[]), 2: dict(inv=INV), 3: COPY1('t', 'lq', 'q'), 4: COPY1('u', 'lr', 'r'), 5: dict(inv=[])},
  at={'entry': [('use', 'sign_of(mem.s64,x,LEN(x))'), ('use', 'sign_of(mem.s64,y,LEN(y))'), ('use', 'one_word(mem.s64,x)'), ('use', 'one_word(mem.s64,y)'), ('use', 'P_mono(LEN(x),LEN(y)-1)'), ('use', 'distr(0,0,AV(y))')],
      'loop0_pre': [('label', 'C')],
      'loop0_exit': [OBJS('at_label("C", mem.s64)'), ('use', 'neg_top(%s, mem.s64, x+8*j, r, ly)' % OM)],
      'loop2': [('summarize', 'head', INV), ('label', 'H')],
      'before:arbi__mlt': [('label', 'B')], 'call:arbi__mlt': [('use', 'mul_eq(at_label("B", AV(arg0)), at_label("B", AV(arg1)), AV(arg0), old(AV(y)))')],
      'before:arbi__sub': [('assert', 'implies(arg0 == r, AV(t) == AV(g)*old(AV(y)) and AV(q) == at_label("H", AV(q)) and AV(r) == at_label("H", AV(r)))', 'gmul'), ('label', 'G')],
      'before:arbi__add': [('assert', 'implies(arg0 == q, AV(r) == at_label("H", AV(r)) - AV(g)*old(AV(y)) and AV(q) == at_label("H", AV(q)))', 'gsub', 'opt')],
      'call:allocate': [('label', 'A')],
      'loop3_pre': [('label', 'C')], 'loop3_exit': [OBJS('at_label("A", mem.s64)'), KEEP('t'), ('use', 'neg_top(mem.s64, at_label("C", mem.s64), q, q, lq)'), ('use', 'shifted_s(mem.s64, at_label("C", mem.s64), t, q, lq)'), ('assert', 'AV(t) == 2**64*AV(q)', 'shifted'), ('summarize', 'qshift', MID('q', 't', 'r') + [('acc', 'HI(%s,x,j+1,lx) == AV(q) * old(AV(y)) + AV(r) and AV(t) == 2**64*AV(q) and lq == LEN(q) and lr == LEN(r)' % OM)])],
      'loop4_pre': [OBJS('at_label("A", mem.s64)'), ('summarize', 'rshift', MID('q', 'u', 'r') + [('acc', '2**64*HI(%s,x,j+1,lx) == AV(q) * old(AV(y)) + 2**64*AV(r) and lr == LEN(r) and WD(u,0) == %s[at(x,j,8)] and LEN(u) == lr+1' % (OM, OM)), ('norm', 'NORM(q)')]), ('label', 'C')],
      'loop4_exit': [OBJS('at_label("C", mem.s64)'), KEEP('u', 'C'), ('use', 'neg_top(mem.s64, at_label("C", mem.s64), r, r, lr)'), ('use', 'shifted_s(mem.s64, at_label("C", mem.s64), u, r, lr)'), ('assert', 'AV(u) == U(%s[at(x,j,8)]) + 2**64*AV(r)' % OM, 'shifted'), ('use', 'hi_step(%s, x+8*j, lx-(j+1))' % OM), ('summarize', 'ushift', MID('q', 'u', 'r') + [('acc', 'HI(%s,x,j,lx) == AV(q) * old(AV(y)) + AV(u)' % OM), ('norm', 'NORM(q)')])],
      'call:trim': [('use', 'distr(at_label("C", AV(q)),0,old(AV(y)))', 'opt')],
      'loop2_end': [('use', 'mul_eq(at_label("G", AV(g)), old(AV(y)), AV(q)-head(AV(q)), old(AV(y)))', 'opt'), ('use', 'distr(head(AV(q)),AV(q)-head(AV(q)),old(AV(y)))'), ('use', 'distr(head(AV(q)),0,old(AV(y)))')],
      'exit': [('use', 'distr(0,0,old(AV(y)))'), ('use', 'distr(AV(mem.p[qr])+1,0,old(AV(y)))')]})
# ---- quotient and remainder: rounding toward minus infinity
S.define('fdiv', ['x', 'y'], 'ite(y > 0, x // y, (-x) // (-y))')
S.lemma('fd', [('x', 'Int'), ('y', 'Int'), ('q', 'Int'), ('r', 'Int')], ['y != 0', 'x == q*y + r', 'ite(r < 0, -r, r) < ite(y < 0, -y, y)', 'r == 0 or (r < 0) == (y < 0)'], ['q == fdiv(x,y)', 'r == x - y*fdiv(x,y)'],
  use=['ediv(x,y)', 'ediv(-x,-y)', 'sub_mul(q, fdiv(x,y), y)', 'implies(y > 0, gap(q-fdiv(x,y), y))', 'implies(y < 0, gap(q-fdiv(x,y), -y))', 'neg_mul(q-fdiv(x,y), y)', 'neg_mul(fdiv(x,y), y)'])
S.lemma('sub_mul', [('a', 'Int'), ('b', 'Int'), ('y', 'Int')], [], ['(a-b)*y == a*y - b*y'])
S.lemma('neg_mul', [('a', 'Int'), ('y', 'Int')], [], ['a*(-y) == -(a*y)', '(-y)*a == -(y*a)'])
S.lemma('gap', [('k', 'Int'), ('y', 'Int')], ['y > 0'], ['implies(k >= 1, k*y >= y)', 'implies(k <= -1, k*y <= -y)', 'implies(k == 0, k*y == 0)'], use=['mul_lo(k,y,1)', 'mul_hi(k,y,-1)'])
S.lemma('cdsign', [('a', 'Int'), ('b', 'Int')], ['b > 0'], ['implies(a >= 0, cdiv(a,b) == a // b and 0 <= cdiv(a,b) and cdiv(a,b) <= a)', '0 <= a - b*cdiv(a,b) or a < 0', 'implies(a >= 0, a - b*cdiv(a,b) < b and a - b*cdiv(a,b) == a % b)'], use=['ediv(a,b)', 'implies(a // b >= 1, mul_lo(b, a // b, 1))'])
S.lemma('cdneg', [('a', 'Int'), ('b', 'Int')], ['b != 0'], ['implies(a < 0 and b < 0, cdiv(-a,-b) == fdiv(a,b))', 'implies(a >= 0 and b > 0, cdiv(a,b) == fdiv(a,b))',
   'implies(a < 0 and b > 0, fdiv(a,b) == ite(-a - b*cdiv(-a,b) == 0, -cdiv(-a,b), -cdiv(-a,b)-1))', 'implies(a >= 0 and b < 0, fdiv(a,b) == ite(a - (-b)*cdiv(a,-b) == 0, -cdiv(a,-b), -cdiv(a,-b)-1))'],
   use=['implies(a < 0 and b > 0, let(q, cdiv(-a,b), let(d, ite(-a - b*q == 0, -q, -q-1), fd(a,b,d,a-d*b) and sub_mul(-q,1,b) and neg_mul(q,b) and cdsign(-a,b)) and mulq(q,b)))',
        'implies(a >= 0 and b < 0, let(q, cdiv(a,-b), let(d, ite(a - (-b)*q == 0, -q, -q-1), fd(a,b,d,a-d*b) and sub_mul(-q,1,b) and neg_mul(q,b) and cdsign(a,-b)) and mulq(q,b)))'])
S.lemma('mulq', [('q', 'Int'), ('b', 'Int')], [], ['(-q)*b == -(q*b)', '(-q-1)*b == -(q*b) - b', 'q*(-b) == -(q*b)'])
DIVPRE = OI + [('args', 'LV(x) and LV(y) and NORM(x) and NORM(y)')]
WORDS = [('use', 'implies(%s[at(y,0,8)] != 0, %s(%s[at(x,0,8)], %s[at(y,0,8)]))' % (OM, l, OM, OM)) for l in ('cdneg',)] + [('use', 'implies(%s[at(y,0,8)] > 0, cdsign(%s[at(x,0,8)], %s[at(y,0,8)]) and cdsign(-%s[at(x,0,8)], %s[at(y,0,8)]))' % ((OM,)*5)), ('use', 'implies(%s[at(y,0,8)] < 0, cdsign(%s[at(x,0,8)], -%s[at(y,0,8)]) and cdsign(-%s[at(x,0,8)], -%s[at(y,0,8)]))' % ((OM,)*5))]
ENT = [('use', 'one_word(mem.s64,x)'), ('use', 'one_word(mem.s64,y)'), ('use', 'sign_of(mem.s64,y,LEN(y))'), ('use', 'P_pos(LEN(y)-1)'), ('use', 'P_pos(LEN(y))')]
S.fn('arbi__div', params=['x', 'y'], requires=DIVPRE, modifies=MODS + ['mem.p'],
  ensures=[('zero', 'implies(old(AV(y)) == 0, result == 0)'), ('value', 'implies(old(AV(y)) != 0, AV(result) == fdiv(old(AV(x)), old(AV(y))))'), ('new', 'implies(old(AV(y)) != 0, LV(result) and NORM(result) and result > 0 and not old(live)[result])')] + OI + FR,
  at={'entry': ENT, 'return': WORDS, 'exit': [('use', 'distr(AV(result),0,old(AV(y)))')], 'call:divmod': [('use', 'fd(old(AV(x)),old(AV(y)),AV(mem.p[arg2]),AV(mem.p[at(arg2,1,8)]))')]})
S.fn('arbi__mod', params=['x', 'y'], requires=DIVPRE, modifies=MODS + ['mem.p'],
  ensures=[('value', 'AV(result) == ite(old(AV(y)) == 0, old(AV(x)), old(AV(x)) - old(AV(y)) * fdiv(old(AV(x)), old(AV(y))))')] + NEW + [('norm', 'NORM(result)')] + OI + FR,
  at={'entry': ENT, 'return': WORDS, 'call:divmod': [('use', 'fd(old(AV(x)),old(AV(y)),AV(mem.p[arg2]),AV(mem.p[at(arg2,1,8)]))')]})
for w, ps, v in (('FromInt', ['v'], 'v'), ('cpy', ['x'], 'old(AV(x))'), ('neg', ['x'], '-old(AV(x))'), ('abs', ['x'], 'ite(old(AV(x)) < 0, -old(AV(x)), old(AV(x)))'), ('add', ['x', 'y'], 'old(AV(x)) + old(AV(y))'), ('sub', ['x', 'y'], 'old(AV(x)) - old(AV(y))'), ('mlt', ['x', 'y'], 'old(AV(x)) * old(AV(y))')):
    op('Arbi_' + w, ps, v, norm=w not in ('cpy', 'abs'), requires=[('norm', 'NORM(x) and NORM(y)')] if w == 'mlt' else [])
S.fns['Arbi_FromInt']['requires'] = OI
S.fn('Arbi_div', params=['x', 'y'], requires=DIVPRE, modifies=MODS + ['mem.p'], ensures=S.fns['arbi__div']['ensures'])
S.fn('Arbi_mod', params=['x', 'y'], requires=DIVPRE, modifies=MODS + ['mem.p'], ensures=S.fns['arbi__mod']['ensures'])
# ---- greatest common divisor
S.recfun('Gc', [('a', 'Int'), ('b', 'Int')], 'Int', 'ite(b <= 0, a, Gc(b, a % b))')
S.lemma('Gc_swap', [('a', 'Int'), ('b', 'Int')], ['0 <= a and a <= b'], ['Gc(a,b) == Gc(b,a)'], use=['unfold(Gc(a,b))', 'unfold(Gc(b,a))', 'implies(a == b and a > 0, unfold(Gc(b, 0)) and unfold(Gc(a,0)))', 'implies(b > 0, ediv(a,b) and gap(a // b, b))', 'unfold(Gc(0,0))'])
def GO(z): return 'AV(%s)' % z
S.fn('arbi__gcd', params=['x', 'y'], requires=DIVPRE, modifies=MODS + ['mem.p'],
  ensures=[('value', 'AV(result) == old(let(a, %s, let(b, %s, Gc(a, b))))' % (ABS('x'), ABS('y')))] + NEW + [('norm', 'NORM(result)')] + OI + FR,
  loops={0: dict(inv=[('two', 'LV(ax) and LV(ay) and not old(live)[ax] and not old(live)[ay] and ax != ay and ax > 0 and ay > 0'), ('live', 'forall(o, live[o] == (old(live)[o] or o == ax or o == ay), pat=tr(o))'), ('norm', 'NORM(ax) and NORM(ay)'),
      ('order', '0 <= AV(ay) and AV(ay) <= AV(ax)'), ('gcd', 'Gc(AV(ax), AV(ay)) == old(let(a, %s, let(b, %s, Gc(a, b))))' % (ABS('x'), ABS('y')))] + OI + FR),
    1: dict(inv=[('pos', '0 <= wy and 0 <= wx'), ('gcd', 'Gc(wx, wy) == old(let(a, %s, let(b, %s, Gc(a, b))))' % (ABS('x'), ABS('y'))), ('live', 'forall(o, live[o] == old(live)[o], pat=tr(o))')] + OI + FR)},
  at={'loop0_pre': [('use', 'Gc_swap(AV(ax),AV(ay))'), ('use', 'Gc_swap(AV(ay),AV(ax))')],
      'loop0': [('summarize', 'head', [('two', 'LV(ax) and LV(ay) and not old(live)[ax] and not old(live)[ay] and ax != ay and ax > 0 and ay > 0'), ('live', 'forall(o, live[o] == (old(live)[o] or o == ax or o == ay), pat=tr(o))')] + OI + FR),
         ('use', 'one_word(mem.s64,ax)'), ('use', 'one_word(mem.s64,ay)'), ('use', 'sign_of(mem.s64,ay,LEN(ay))'), ('use', 'sign_of(mem.s64,ax,LEN(ax))'), ('use', 'P_mono(LEN(ax),LEN(ay)-1)'), ('use', 'unfold(Gc(AV(ax),AV(ay)))'), ('use', 'ediv(AV(ax),AV(ay))'), ('use', 'neg_mul(AV(ay),AV(ax)//AV(ay))'),
         ('assert', 'implies(LEN(ax) == 1, LEN(ay) == 1 and AV(ax) == WD(ax,0) and AV(ay) == WD(ay,0))', 'short')],
      'loop1_pre': [('summarize', 'words', [('live', 'forall(o, live[o] == old(live)[o], pat=tr(o))')] + OI + FR)],
      'loop1': [('use', 'unfold(Gc(wx,wy))'), ('use', 'implies(wy > 0, cdsign(wx,wy) and ediv(wx,wy) and unfold(Gc(wy, wx % wy)) and implies(wx % wy > 0, cdsign(wy, wx % wy) and ediv(wy, wx % wy)))')],
      'loop1_exit': [('use', 'unfold(Gc(wx,wy))')],
      'exit': [('use', 'unfold(Gc(AV(result),0))')]})
