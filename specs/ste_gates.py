"""Contracts for the word-level gate evaluators of src/bin/fl/fsm.c (symbolic ternary simulation)."""
from vexec import Spec
S = Spec()
S.units = ['src/bin/fl/fsm.c']
S.options['ignore_calls'] = ('FP', 'print_ilist')
# T(g): Boolean value of a stored symbolic value under one arbitrary but fixed assignment of the variables.
S.uf('ix', ['Int'], 'Int')      # trigger marker
S.uf('T', ['Int'], 'Bool')
# XA, XB: arbitrary concrete operand bits; CR: the operands are two-valued (no X, no conflict)
for g in ('XA', 'XB'): S.ghost(g, 'Set')
S.ghost('XC', 'Bool'); S.ghost('CR', 'Bool')
S.define('bit', ['H', 'L', 'x'], 'implies(x, T(H)) and implies(not x, T(L)) and implies(CR, not (T(H) and T(L)))')
S.define('HI', ['p', 'i'], 'gbv.bp[at(p, 2*i, 8)]')
S.define('LO', ['p', 'i'], 'gbv.bp[at(p, 2*i+1, 8)]')
S.define('IN', ['i', 'x'], 'bit(HI(gbv_inps, i), LO(gbv_inps, i), x)')
S.define('OUT', ['i', 'x'], 'bit(HI(gbv_outs, i), LO(gbv_outs, i), x)')
S.define("K", [], "T(gbv.bp[addr(c_ONE)]) and not T(gbv.bp[addr(c_ZERO)])")
def iff2(a, b): return '(%s) == (%s)' % (a, b)
R2 = [('sem', 'T(result.bp) == (T(a.bp) and T(b.bp))')]
S.fn('ptr:c_AND', params=['a', 'b'], trusted='conjunction on the selected value domain', ensures=[('sem', 'T(result.bp) == (T(a.bp) and T(b.bp))')])
S.fn('ptr:c_OR', params=['a', 'b'], trusted='disjunction on the selected value domain', ensures=[('sem', 'T(result.bp) == (T(a.bp) or T(b.bp))')])
S.fn('ptr:c_NOT', params=['a'], trusted='negation on the selected value domain', ensures=[('sem', 'T(result.bp) == (not T(a.bp))')])
def pre(insz, outsz): return [
    ('const', 'K'), ('size', '0 <= ncomp_rec.size[op] and ncomp_rec.size[op] < 1000000'),
    ('mem', 'gbv_inps > 0 and gbv_outs > 0'),
    ('sep', 'gbv_inps + 16*(%s) <= gbv_outs or gbv_outs + 16*(%s) <= gbv_inps' % (insz, outsz)),
    ('sepc', 'heap0 () < gbv_outs'.replace(' ()', '()'))]
N = 'ncomp_rec.size[op]'
def ina(n=N, off='0'): return ('A', 'forall(j, implies(0 <= j and j < %s, IN(%s + j, XA[j])), pat=[ix(j), XA[j]])' % (n, off))
def inb(n=N, off=N): return ('B', 'forall(j, implies(0 <= j and j < %s, IN(%s + j, XB[j])), pat=[ix(j), XB[j]])' % (n, off))
def out(x, n=N, tr='[ix(j), XA[j]]'): return ('out', 'forall(j, implies(0 <= j and j < %s, OUT(j, %s)), pat=%s)' % (n, x('j'), tr))
MOD = ['gbv.bp', 'gbv.f', 'gbv.ai']
PRES = [('consts', 'K'), ('inputs', 'forall(j, implies(not (gbv_outs <= j and j < gbv_outs + 16*%s), gbv.bp[j] == old(gbv.bp)[j]), pat=gbv.bp[j])' % N)]
def up(x, tr='[ix(j), XA[j]]'): return [('done', 'forall(j, implies(0 <= j and j < i, OUT(j, %s)), pat=%s)' % (x('j'), tr)), ('idx', '0 <= i and i <= %s' % N)] + PRES
def down(x, tr='[ix(j), XA[j]]'): return [('done', 'forall(j, implies(i < j and j < %s, OUT(j, %s)), pat=%s)' % (N, x('j'), tr)), ('idx', '-1 <= i and i < %s' % N)] + PRES
def simple(name, x, two=True, d=up, extra=(), tr='[ix(j), XA[j]]', n=N, inv=(), **kw):
    S.fn(name, requires=pre('2*' + N if two else N, N) + [ina()] + ([inb()] if two else []) + list(extra),
         ensures=[out(x, tr=tr)], modifies=MOD, loops={0: dict(inv=d(x, tr) + list(inv))}, **kw)
simple('op_AND', lambda i: 'XA[%s] and XB[%s]' % (i, i))
simple('op_OR', lambda i: 'XA[%s] or XB[%s]' % (i, i))
simple('op_NOT', lambda i: 'not XA[%s]' % i, two=False)
simple('op_VAR', lambda i: 'XA[%s]' % i, two=False)
simple('op_WIRE', lambda i: 'XA[%s]' % i, two=False, d=down)
# ripple addition; cin(X,Y,n,c,i) is the carry into bit i (bit n-1 is the least significant)
S.recfun('cin', [('X', 'Set'), ('Y', 'Set'), ('n', 'Int'), ('c', 'Bool'), ('i', 'Int')], 'Bool',
   'ite(i >= n-1, c, (X[i+1] and Y[i+1]) or (X[i+1] and cin(X,Y,n,c,i+1)) or (Y[i+1] and cin(X,Y,n,c,i+1)))')
S.recfun('num', [('X', 'Set'), ('n', 'Int'), ('i', 'Int')], 'Int', 'ite(i >= n, 0, num(X,n,i+1) + ite(X[i], pow2(n-1-i), 0))')
S.define('sb', ['X', 'Y', 'n', 'c', 'i'], '(X[i] ^ Y[i]) ^ cin(X,Y,n,c,i)')
S.lemma('ripple_is_addition', [('X', 'Set'), ('Y', 'Set'), ('Z', 'Set'), ('n', 'Int'), ('c', 'Bool'), ('i', 'Int')],
   ['0 <= i and i <= n', 'forall(j, implies(0 <= j and j < n, Z[j] == sb(X,Y,n,c,j)), pat=Z[j])'],
   ['num(Z,n,i) + ite(cin(X,Y,n,c,i-1), pow2(n-i), 0) == num(X,n,i) + num(Y,n,i) + b2i(c)'],
   measure='n - i', ih=[('X','Y','Z','n','c','i+1')], use=['unfold(num(X,n,i))','unfold(num(Y,n,i))','unfold(num(Z,n,i))','unfold(cin(X,Y,n,c,i-1))',
   'pow2(n-i-1+1) == pow2(n-i)'])
addx = lambda i: 'sb(XA, XB, %s, False, %s)' % (N, i)
simple('op_ADD', addx, d=down, inv=[('carry', 'bit(cinH.bp, cinL.bp, cin(XA,XB,%s,False,i))' % N)],
    at={'loop0': [('use', 'unfold(cin(XA,XB,%s,False,i))' % N), ('use', 'unfold(cin(XA,XB,%s,False,i-1))' % N)], 'loop0_pre': [('use', 'unfold(cin(XA,XB,%s,False,i))' % N)]})

# subtraction: a + not b + 1; XN is the complement of XB
S.ghost('XN', 'Set')
compl = ('XN', 'forall(j, XN[j] == (not XB[j]), pat=[XN[j], XB[j]])')
S.lemma('complement', [('X', 'Set'), ('Y', 'Set'), ('n', 'Int'), ('i', 'Int')],
   ['0 <= i and i <= n', 'forall(j, X[j] == (not Y[j]), pat=[X[j], Y[j]])'], ['num(X,n,i) + num(Y,n,i) == pow2(n-i) - 1'],
   measure='n - i', ih=[('X', 'Y', 'n', 'i+1')], use=['unfold(num(X,n,i))', 'unfold(num(Y,n,i))', 'pow2(n-i-1+1) == pow2(n-i)'])
subx = lambda i: 'sb(XA, XN, %s, True, %s)' % (N, i)
simple('op_SUB', subx, d=down, extra=[compl], inv=[('carry', 'bit(cinH.bp, cinL.bp, cin(XA,XN,%s,True,i))' % N)],
    at={'loop0': [('use', 'unfold(cin(XA,XN,%s,True,i))' % N), ('use', 'unfold(cin(XA,XN,%s,True,i-1))' % N)], 'loop0_pre': [('use', 'unfold(cin(XA,XN,%s,True,i))' % N)]})
# comparison
S.recfun('gt', [('X', 'Set'), ('Y', 'Set'), ('n', 'Int'), ('c', 'Bool'), ('i', 'Int')], 'Bool',
   'ite(i >= n, c, ite(X[i] == Y[i], gt(X,Y,n,c,i+1), X[i]))')
S.lemma('num_range', [('X', 'Set'), ('n', 'Int'), ('i', 'Int')], ['0 <= i and i <= n'], ['0 <= num(X,n,i)', 'num(X,n,i) < pow2(n-i)'],
   measure='n - i', ih=[('X', 'n', 'i+1')], use=['unfold(num(X,n,i))', 'pow2(n-i-1+1) == pow2(n-i)'])
S.lemma('gt_is_order', [('X', 'Set'), ('Y', 'Set'), ('n', 'Int'), ('c', 'Bool'), ('i', 'Int')], ['0 <= i and i <= n'],
   ['gt(X,Y,n,c,i) == ite(c, num(X,n,i) >= num(Y,n,i), num(X,n,i) > num(Y,n,i))'], measure='n - i', ih=[('X', 'Y', 'n', 'c', 'i+1')],
   use=['unfold(num(X,n,i))', 'unfold(num(Y,n,i))', 'unfold(gt(X,Y,n,c,i))', 'num_range(X,n,i+1)', 'num_range(Y,n,i+1)'])
W = 'ncomp_args.extension_size[op + offs(ncomp_rec.arg)]'
wide = [('wide', '0 <= %s and %s < 1000000' % (W, W))]
def bitpre(insz): return pre(insz, '1') + wide
S.fn('op_EQ', requires=bitpre('2*' + W) + [ina(W), inb(W, W)], ensures=[('out', 'OUT(0, forall(j, implies(0 <= j and j < %s, XA[j] == XB[j]), pat=[ix(j), XA[j]]))' % W)],
   modifies=MOD, loops={0: dict(inv=[('acc', 'bit(eqH.bp, eqL.bp, forall(j, implies(0 <= j and j < i, XA[j] == XB[j]), pat=[ix(j), XA[j]]))'), ('idx', '0 <= i and i <= %s and sz == %s' % (W, W)), ('k', 'K')])},
   at={'loop0': [('touch', 'ix(i)')]})
S.fn('op_GR', requires=bitpre('2*' + W) + [ina(W), inb(W, W)], ensures=[('out', 'OUT(0, num(XA,%s,0) > num(XB,%s,0))' % (W, W))], modifies=MOD,
   loops={0: dict(inv=[('acc', 'bit(grH.bp, grL.bp, gt(XA,XB,sz,False,i+1))'), ('idx', '-1 <= i and i < sz and sz == %s' % W), ('k', 'K')])},
   at={'loop0': [('use', 'unfold(gt(XA,XB,sz,False,i))')], 'loop0_pre': [('use', 'unfold(gt(XA,XB,sz,False,i+1))')], 'exit': [('use', 'gt_is_order(XA,XB,%s,False,0)' % W)]})
S.fn('op_ITE', requires=pre('1+2*' + N, N) + [('C', 'IN(0, XC)'), ina(N, '1'), inb(N, '1+' + N)], ensures=[out(lambda i: 'ite(XC, XA[%s], XB[%s])' % (i, i))],
   modifies=MOD, loops={0: dict(inv=up(lambda i: 'ite(XC, XA[%s], XB[%s])' % (i, i)))})
S.fn('op_LAT_LEQ', requires=pre('2*' + N, N), ensures=[('out', """forall(j, implies(0 <= j and j < %s,
      T(HI(gbv_outs,j)) == (implies(T(HI(gbv_inps,j)), T(HI(gbv_inps,j+%s))) and implies(T(LO(gbv_inps,j)), T(LO(gbv_inps,j+%s)))) and T(LO(gbv_outs,j)) == (not T(HI(gbv_outs,j)))), pat=[ix(j), XA[j]])""" % (N, N, N))],
   modifies=MOD, loops={0: dict(inv=[('done', """forall(j, implies(0 <= j and j < i,
      T(HI(gbv_outs,j)) == (implies(T(HI(gbv_inps,j)), T(HI(gbv_inps,j+%s))) and implies(T(LO(gbv_inps,j)), T(LO(gbv_inps,j+%s)))) and T(LO(gbv_outs,j)) == (not T(HI(gbv_outs,j)))), pat=[ix(j), XA[j]])""" % (N, N)),
      ('idx', '0 <= i and i <= %s' % N)] + PRES)})
S.fn('op_X', requires=pre('0', N), ensures=[('out', 'forall(j, implies(0 <= j and j < %s, T(HI(gbv_outs,j)) and T(LO(gbv_outs,j))), pat=[ix(j), XA[j]])' % N)], modifies=MOD,
   loops={0: dict(inv=[('done', 'forall(j, implies(0 <= j and j < i, T(HI(gbv_outs,j)) and T(LO(gbv_outs,j))), pat=[ix(j), XA[j]])'), ('idx', '0 <= i and i <= %s' % N)] + PRES)})
# extension: input of width W, output of width N
def ext(name, x, fill):
    S.fn(name, requires=pre(W, N) + wide + [('nonempty', '%s > 0' % W), ina(W)], ensures=[out(x)], modifies=MOD,
      loops={0: dict(inv=down(x) + [('cnt', 'cnt == isz - (%s - i) and isz == %s' % (N, W))] + fill)},
      at={'entry': [('touch', 'ix(0)')], 'loop0': [('touch', 'ix(cnt)')]})
ext('op_SX', lambda j: 'ite(%s - %s + %s >= 0, XA[%s - %s + %s], XA[0])' % (W, N, j, W, N, j), [('msb', 'bit(msbH.bp, msbL.bp, XA[0])')])
ext('op_ZX', lambda j: 'ite(%s - %s + %s >= 0, XA[%s - %s + %s], False)' % (W, N, j, W, N, j), [])
# ---- helpers working on vectors in memory -----------------------------------
for g in ('GA', 'GB', 'CU', 'ACC', 'W'): S.ghost(g, 'Set')
S.ghost('GC', 'Bool'); S.ghost('ISZ', 'Int'); S.ghost('OSZ', 'Int'); S.ghost('Q', 'Int')
def region(p, n): return 'forall(j, implies(not (%s <= j and j < %s + 16*(%s)), gbv.bp[j] == old(gbv.bp)[j]), pat=gbv.bp[j])' % (p, p, n)
def sepr(p, n, q, m): return '%s + 16*(%s) <= %s or %s + 16*(%s) <= %s' % (p, n, q, q, m, p)
VEC = lambda p, n, X, tr=None: 'forall(j, implies(0 <= j and j < %s, bit(HI(%s,j), LO(%s,j), %s[j])), pat=[ix(j), %s[j]])' % (n, p, p, X, X)
SIZE = ('size', '0 < size and size < 1000000')
S.fn('ITE_fn', requires=[SIZE, ('const', 'K'), ('sep', '(bv == resv or %s) and (%s) and heap0() < resv' % (sepr('bv', 'size', 'resv', 'size'), sepr('av', 'size', 'resv', 'size'))),
      ('C', 'bit(cH.bp, cL.bp, GC)'), ('A', VEC('av', 'size', 'GA')), ('B', VEC('bv', 'size', 'GB'))],
     ensures=[('out', 'forall(j, implies(0 <= j and j < size, bit(HI(resv,j), LO(resv,j), ite(GC, GA[j], GB[j]))), pat=ix(j))'), ('frame', region('resv', 'size'))],
     modifies=MOD, loops={0: dict(inv=[('done', 'forall(j, implies(0 <= j and j < i, bit(HI(resv,j), LO(resv,j), ite(GC, GA[j], GB[j]))), pat=ix(j))'),
        ('rest', 'forall(j, implies(i <= j and j < size, HI(bv,j) == old(HI(bv,j)) and LO(bv,j) == old(LO(bv,j))), pat=ix(j))'),
        ('idx', '0 <= i and i <= size'), ('consts', 'K'), ('frame', region('resv', 'size'))])}, at={'loop0': [('touch', 'ix(i)')]})
S.fn('shift_left_by_1', requires=[SIZE, ('sep', '(vp == resp or %s)' % sepr('vp', 'size', 'resp', 'size'))],
     ensures=[('moved', 'forall(j, implies(0 <= j and j < size - 1, HI(resp,j) == old(HI(vp,j+1)) and LO(resp,j) == old(LO(vp,j+1))), pat=ix(j))'),
        ('last', 'HI(resp,size-1) == iH.bp and LO(resp,size-1) == iL.bp'), ('frame', region('resp', 'size'))], modifies=MOD,
     loops={0: dict(inv=[('idx', '1 <= i and i <= size'), ('done', 'forall(j, implies(0 <= j and j < i - 1, HI(resp,j) == old(HI(vp,j+1)) and LO(resp,j) == old(LO(vp,j+1))), pat=ix(j))'),
        ('rest', 'forall(j, implies(i <= j and j < size, HI(vp,j) == old(HI(vp,j)) and LO(vp,j) == old(LO(vp,j))), pat=ix(j))'), ('frame', region('resp', 'size'))])},
     at={'loop0': [('touch', 'ix(i)', 'ix(i-1)')]})
def shifter(name, src, fill, d):
    body = '''ite(0 <= {s} and {s} < size, HI(resp,j) == old(HI(vp,{s})) and LO(resp,j) == old(LO(vp,{s})), {f})'''.format(s=src, f=fill)
    S.fn(name, requires=[SIZE, ('const', 'K'), ('cnt', '0 <= cnt and cnt < 1000000000'), ('sep', '(%s) and heap0() < resp' % sepr('vp', 'size', 'resp', 'size'))],
      ensures=[('out', 'forall(j, implies(0 <= j and j < size, %s), pat=ix(j))' % body), ('frame', region('resp', 'size'))], modifies=MOD,
      loops={0: dict(inv=[('done', 'forall(j, implies(%s, %s), pat=ix(j))' % ('0 <= j and j < i' if d else 'i < j and j < size', body)), ('consts', 'K'),
         ('idx', '0 <= i and i <= size' if d else '-1 <= i and i < size'), ('frame', region('resp', 'size'))])}, at={'loop0': [('touch', 'ix(i)')]})
zf = 'HI(resp,j) == gbv.bp[addr(c_ZERO)] and LO(resp,j) == gbv.bp[addr(c_ONE)]'
shifter('sshl_fun', 'j+cnt', zf, True)
shifter('sshr_fun', 'j-cnt', zf, False)
shifter('sashr_fun', 'j-cnt', 'HI(resp,j) == old(HI(vp,0)) and LO(resp,j) == old(LO(vp,0))', False)
S.fn('reset_tmps', params=['cnt'], trusted='scratch buffer: resize_buf returns memory disjoint from the operand and result buffers',
     requires=[('cnt', '0 <= cnt and cnt < 100000000')],
     ensures=[('sep', '(%s) and (%s) and heap0() < gbv_tmps and gbv_tmps + 16*cnt < 18446744073709551616' % (sepr('gbv_inps', 'ISZ', 'gbv_tmps', 'cnt'), sepr('gbv_outs', 'OSZ', 'gbv_tmps', 'cnt'))),
        ('frame', region('gbv_tmps', 'cnt'))], modifies=MOD + ['gbv_tmps'])
# the stage invariant of the barrel shifters: after using the low bits of B the operand has been moved by num(B, low bits)
def shop(name, fn, moved):
    st = lambda amt: 'forall(j, implies(0 <= j and j < %s, CU[j] == %s), pat=[ix(j), CU[j]])' % (N, moved('j', amt))
    S.fn(name, requires=pre('2*' + N, N) + [('sz', 'ISZ == 2*%s and OSZ == %s and %s > 0' % (N, N, N)), ina(), inb()],
      ensures=[('out', 'forall(j, implies(0 <= j and j < %s, OUT(j, %s)), pat=[ix(j)])' % (N, moved('j', 'num(XB,%s,0)' % N)))], modifies=MOD + ['gbv_tmps', 'CU', 'GA', 'GB', 'GC'],
      loops={0: dict(inv=[('idx', '0 <= i and i <= %s' % N), ('copy', 'forall(j, implies(0 <= j and j < i, bit(HI(cur,j), LO(cur,j), XA[j])), pat=[ix(j), XA[j]])'), ('consts', 'K'),
                 ('frame', region('gbv_tmps', '2*' + N))]),
        1: dict(inv=[('idx', '-1 <= i and i < %s' % N), ('cur', VEC('cur', N, 'CU')), ('moved', st('num(XB,%s,i+1)' % N)), ('consts', 'K'), ('frame', region('gbv_tmps', '2*' + N)),
                 ('shift', '0 < shift and shift < 2*1000000 and (shift == pow2(%s-1-i) or (shift >= %s and pow2(%s-1-i) >= %s))' % (N, N, N, N))]),
        2: dict(inv=[('idx', '-1 <= i and i < %s' % N), ('done', 'forall(j, implies(i < j and j < %s, OUT(j, CU[j])), pat=[ix(j), CU[j]])' % N), ('cur', VEC('cur', N, 'CU')), ('consts', 'K')])},
      at={'loop0': [('touch', 'ix(i)')], 'loop2': [('touch', 'ix(i)')],
          'loop1_pre': [('ghost', 'CU', 'XA'), ('use', 'unfold(num(XB,%s,i+1))' % N)],
          'loop1': [('touch', 'ix(i)', 'pow2(%s-1-i)' % N), ('use', 'unfold(num(XB,%s,i))' % N), ('use', 'num_range(XB,%s,i+1)' % N), ('touch', 'ix(0)')],
          'before:' + fn: [],
          'call:' + fn: [('ghost_fun', 'GA', ('j',), moved('j', 'arg2').replace('XA', 'CU')), ('ghost', 'GB', 'CU'), ('ghost', 'GC', 'XB[i]')],
          'call:ITE_fn': [('ghost_fun', 'CU', ('j',), 'ite(GC, GA[j], GB[j])')],
          'loop1_end': [('use', 'pow2(%s-1-i-1+1) == 2*pow2(%s-1-i-1)' % (N, N))],
          })
n_ = N
shop('op_SHL', 'sshl_fun', lambda j, a: 'ite(%s + %s < %s, XA[%s + %s], False)' % (j, a, n_, j, a))
shop('op_SHR', 'sshr_fun', lambda j, a: 'ite(%s - %s >= 0, XA[%s - %s], False)' % (j, a, j, a))
shop('op_ASHR', 'sashr_fun', lambda j, a: 'ite(%s - %s >= 0, XA[%s - %s], XA[0])' % (j, a, j, a))
# ---- slices: the index list of the operator is the ghost sequence LP/IX of length LEN --------
S.ghost('LP', 'Map'); S.ghost('IX', 'Map'); S.ghost('LEN', 'Int')
LIST = 'forall(k, implies(0 <= k and k < LEN, LP[k] > 0 and idx_list_rec.idx[LP[k]] == IX[k] and idx_list_rec.next[LP[k]] == LP[k+1]), pat=[ix(k), LP[k]])'
ARGL = 'ncomp_args.idx_list[op + offs(ncomp_rec.arg)]'
S.fn('op_SLICE', requires=pre('ISZ', N) + [('list', LIST), ('head', 'LP[0] == %s and LEN == %s' % (ARGL, N)), ('bounds', 'ISZ < 1000000 and forall(k, implies(0 <= k and k < LEN, 0 <= IX[k] and IX[k] < ISZ), pat=ix(k))'), ina('ISZ')],
   ensures=[('out', 'forall(j, implies(0 <= j and j < %s, OUT(j, XA[IX[j]])), pat=ix(j))' % N)], modifies=MOD,
   loops={0: dict(inv=[('idx', '0 <= i and i <= %s' % N), ('il', 'il == LP[i]'), ('done', 'forall(j, implies(0 <= j and j < i, OUT(j, XA[IX[j]])), pat=ix(j))')] + PRES)}, at={'loop0': [('touch', 'ix(i)', 'ix(IX[i])')]})
S.recfun('upd', [('X', 'Set'), ('Y', 'Set'), ('I', 'Map'), ('k', 'Int'), ('t', 'Int')], 'Bool', 'ite(k <= 0, X[t], ite(I[k-1] == t, Y[k-1], upd(X,Y,I,k-1,t)))')
S.axiom('upd', 'forall(X("Set"), Y("Set"), I("Map"), k, t, upd(X,Y,I,k,t) == ite(k <= 0, X[t], ite(I[k-1] == t, Y[k-1], upd(X,Y,I,k-1,t))), pat=(upd(X,Y,I,k,t), ix(t), ix(k)))', 'definition of upd')
S.fn('op_UPDATE_SLICE', requires=pre('%s+LEN' % N, N) + [('list', LIST), ('head', 'LP[0] == %s and 0 <= LEN and LEN < 1000000 and LP[LEN] == 0' % ARGL),
     ('bounds', 'forall(k, implies(0 <= k and k < LEN, 0 <= IX[k] and IX[k] < %s), pat=ix(k))' % N), ina(), inb('LEN', N)],
   ensures=[('out', 'forall(j, implies(0 <= j and j < %s, OUT(j, upd(XA,XB,IX,LEN,j))), pat=ix(j))' % N)], modifies=MOD,
   loops={0: dict(inv=up(lambda j: 'XA[%s]' % j, '[ix(j), XA[j]]')),
          1: dict(inv=[('pos', '0 <= idx and idx <= LEN and il == LP[idx]'), ('done', 'forall(j, implies(0 <= j and j < %s, OUT(j, upd(XA,XB,IX,idx,j))), pat=ix(j))' % N)] + PRES)},
   at={'loop1_pre': [('touch', 'ix(0)', 'ix(LEN)')], 'loop1': [('touch', 'ix(idx)', 'ix(IX[idx])', 'ix(idx+1)')]})
# ---- node update -------------------------------------------------------------
S.ghost('ABORT', 'Bool')
S.options['ignore_calls'] += ('idx2name', 'pop_fsm', 'Info_to_tcl', 'getpid', 'Sprintf', 'sprintf', 'idx2name', 'ptr:cHL_Print')
S.fn('kill', params=['p', 's'], trusted='raises SIGINT: the simulation is being aborted', modifies=['ABORT'], ensures=['ABORT'])
S.fn('ptr:c_NEQ', params=['a', 'b'], trusted='inequality test on the selected value domain (equal handles denote equal functions)', ensures=[('sem', 'implies(result == 0, T(a.bp) == T(b.bp))')])
S.fn('ptr:c_DIFFERS', params=['a', 'b'], trusted='inequality test on the selected value domain (equal handles denote equal functions)', ensures=[('sem', 'implies(result == 0, T(a.bp) == T(b.bp))')])
S.fn('push_buf', params=['b', 'p'], trusted='buffer append')
S.fn('add_op_todo', params=['cp'], requires=[], ensures=[('flag', 'ncomp_rec.flag[cp] == 1'), ('others', 'forall(c, implies(c != cp, ncomp_rec.flag[c] == old(ncomp_rec.flag)[c]), pat=ncomp_rec.flag[c])')], modifies=['ncomp_rec.flag'])
S.define('locbuf', ['b_', 'i_'], 'ite(i_ < buffer.buf_size[b_], buffer.data[b_] + (i_*buffer.item_size[b_]) % 4294967296, 0)')
S.define('comp', ['i'], 'locbuf(compositesp, i)')
NW, NA = 'old(nnode_rec.has_weak)[np]', 'old(nnode_rec.has_ant)[np]'
def nv(new, c, p, q): return '(T(old(%s)) or (%s != 0 and T(old(gbv.bp[at(weak_buf, 2*idx+%d, 8)])))) and (%s == 0 or T(old(gbv.bp[at(ant_buf, 2*idx+%d, 8)])))' % (new, NW, c, NA, c)
CH, CL = 'T(gbv.bp[at(cur_buf, 2*idx, 8)])', 'T(gbv.bp[at(cur_buf, 2*idx+1, 8)])'
S.fn('update_node', requires=[('k', 'K'), ('idx', '0 <= idx and idx < 10000000 and idx < buffer.buf_size[nodesp] and heap0() < cur_buf and buffer.item_size[nodesp] == 32'),
      ('sep', 'cur_buf + 16*(idx+1) < ste or ste + 1000 < cur_buf'), ('noabort', 'not ABORT'),
      ('item', 'buffer.item_size[compositesp] == 48 and buffer.buf_size[compositesp] < 60000000'),
      ('list', LIST), ('fan', 'LP[0] == nnode_rec.fanouts[locbuf(nodesp, idx)] and 0 <= LEN and LEN < 1000000 and LP[LEN] == 0 and forall(k, implies(0 <= k and k < LEN, 0 <= IX[k] and IX[k] < buffer.buf_size[compositesp]), pat=ix(k))')],
   ensures=[('H', 'ABORT or %s == (%s)' % (CH, nv('Hnew.bp', 0, 0, 0))), ('L', 'ABORT or %s == (%s)' % (CL, nv('Lnew.bp', 1, 0, 0))),
      ('valid', 'ABORT or T(gbv.bp[ste + offs(ste_rec.validTrajectory)]) == (T(old(gbv.bp[ste + offs(ste_rec.validTrajectory)])) and (%s == 0 or %s or %s))' % (NA, CH, CL)),
      ('fanout', 'ABORT or (%s == T(old(gbv.bp[at(cur_buf, 2*idx, 8)])) and %s == T(old(gbv.bp[at(cur_buf, 2*idx+1, 8)]))) or forall(k, implies(0 <= k and k < LEN, ncomp_rec.flag[comp(IX[k])] == 1), pat=ix(k))' % (CH, CL)),
      ('others', 'forall(j, implies(j != at(cur_buf, 2*idx, 8) and j != at(cur_buf, 2*idx+1, 8) and j != ste + offs(ste_rec.validTrajectory), gbv.bp[j] == old(gbv.bp)[j]), pat=gbv.bp[j])')],
   modifies=MOD + ['ncomp_rec.flag', 'ABORT', 'nbr_errors_reported', 'ste_rec.max_time', 'ste_rec.active', 'mem.s8'],
   loops={0: dict(inv=[('pos', '0 <= todo and todo <= LEN and il == LP[todo]'), ('flag', 'forall(k, implies(0 <= k and k < todo, ncomp_rec.flag[comp(IX[k])] == 1), pat=ix(k))')])}, merge=True,
   at={'entry': [('touch', 'ix(0)')], 'loop0': [('touch', 'ix(todo)')], 'loop0_exit': [('touch', 'ix(todo)')]})
