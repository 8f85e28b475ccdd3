"""Contracts for the growable buffers of src/lib/buf.c, byte by byte.
Buffer bp (B[bp]) holds buf_size items of item_size bytes each in an array that belongs to it alone."""
from vexec import Spec
S = Spec()
S.units = ['src/lib/buf.c']
S.options['ignore_calls'] = ('fprintf', 'fflush', 'voss_abort')
S.ghost('B', 'Set')      # buffers in use
S.ghost('own', 'Map')    # byte of memory -> array it belongs to (0: none)
S.ghost('cap', 'Map')    # buffer -> number of items it has room for
S.uf('tt', ['Int'], 'Bool')
S.axiom('triggers', 'forall(o, tt(o), pat=tt(o))', 'trigger predicate, true everywhere')
S.define('N', ['b'], 'buffer.buf_size[b]'); S.define('SZ', ['b'], 'buffer.item_size[b]'); S.define('AL', ['b'], 'buffer.allocated[b]'); S.define('DAT', ['b'], 'buffer.data[b]')
S.define('BY', ['a'], 'mem.u8[a]')
S.lemma('mul_le', [('a', 'Int'), ('b', 'Int'), ('s', 'Int')], ['a <= b', 's >= 0'], ['a * s <= b * s'])
S.lemma('mul_next', [('a', 'Int'), ('s', 'Int')], [], ['(a + 1) * s == a * s + s', '(2*a)*s == 2*(a*s)'])
S.lemma('mul_pos', [('a', 'Int'), ('s', 'Int')], ['a >= 0', 's >= 0'], ['a * s >= 0'])
S.lemma('mul_ge', [('a', 'Int'), ('b', 'Int'), ('s', 'Int')], ['a * s >= b * s', 's >= 1'], ['a >= b'])
INV = [('INV.shape', '''forall(b, implies(B[b], b > 0 and SZ(b) >= 1 and cap[b] >= 1 and AL(b) == cap[b] * SZ(b) and N(b) <= cap[b] and DAT(b) > 0 and DAT(b) + AL(b) < sp() and buffer.initialized[b] == 19283746), pat=tt(b))'''),
       ('INV.own', 'forall(b, a, implies(B[b] and DAT(b) <= a and a < DAT(b) + AL(b), own[a] == DAT(b)), pat=(tt(b), own[a]))'),
       ('INV.apart', 'forall(b, c, implies(B[b] and B[c] and b != c, DAT(b) != DAT(c)), pat=(tt(b), tt(c)))')]
HERE = [('buffer', 'B[bp] and tt(bp)')]
SELF = ['tt(bp)']
# other buffers: same shape, same bytes
STK = [('stack', 'forall(a, implies(own[a] != 0, a < sp()), pat=own[a])')]
OTHERS = [('other buffers', 'forall(b, implies(old(B)[b] and b != bp, B[b] and N(b) == old(N(b)) and SZ(b) == old(SZ(b)) and DAT(b) == old(DAT(b)) and AL(b) == old(AL(b)) and cap[b] == old(cap)[b]), pat=tt(b)) and forall(b, implies(B[b] and b != bp, old(B)[b]), pat=tt(b))')]
BYTES = lambda dst: [('other bytes', 'forall(a, implies(old(own)[a] != 0 and old(own)[a] != old(DAT(bp)), BY(a) == old(BY(a)) and own[a] == old(own)[a]), pat=[BY(a), own[a]])')]
BYTES_D = [('other bytes', 'forall(a, implies(%s, BY(a) == old(BY(a))), pat=BY(a))')]
S.fn('Malloc', params=['n'], trusted='libc malloc: a fresh block', modifies=['own'], ensures=[('fresh', 'result > 0 and result + n < sp() and forall(a, own[a] == ite(result <= a and a < result + n, result, old(own)[a]), pat=own[a]) and forall(a, implies(result <= a and a < result + n, old(own)[a] == 0), pat=old(own)[a]) and forall(b, implies(B[b], DAT(b) != result), pat=tt(b))')])
CALLOC = S.fns['Malloc']['ensures'] + [('zero', 'forall(a, implies(result <= a and a < result + n, BY(a) == 0), pat=BY(a))'), ('rest', 'forall(a, implies(old(own)[a] != 0 or a >= sp(), BY(a) == old(BY(a))), pat=BY(a))')]
S.fn('Calloc', params=['n'], trusted='libc calloc: a fresh block of zeroes', modifies=['own', 'mem.u8'], ensures=CALLOC)
S.fn('Free', params=['p'], trusted='libc free', modifies=['own'], ensures=[('own', 'forall(a, own[a] == ite(old(own)[a] == p, 0, old(own)[a]), pat=own[a])')])
S.fn('bcopy', params=['src', 'dst', 'n'], trusted='libc bcopy', modifies=['mem.u8'], ensures=[('copied', 'forall(a, implies(dst <= a and a < dst + n, BY(a) == old(BY(src + (a - dst)))), pat=BY(a))'), ('rest', 'forall(a, implies(a < dst or a >= dst + n, BY(a) == old(BY(a))), pat=BY(a))')])
S.fn('bzero', params=['dst', 'n'], trusted='libc bzero', modifies=['mem.u8'], ensures=[('zero', 'forall(a, implies(dst <= a and a < dst + n, BY(a) == 0), pat=BY(a))'), ('rest', 'forall(a, implies(a < dst or a >= dst + n, BY(a) == old(BY(a))), pat=BY(a))')])
BF = ['buffer.buf_size', 'buffer.item_size', 'buffer.allocated', 'buffer.data', 'buffer.initialized']
S.fn('new_buf', params=['bp', 'n', 'size'], requires=INV + [('new', 'not B[bp] and bp > 0 and tt(bp)'), ('fits', 'size >= 1 and ite(n < 1, 1, n) * size < 2**32')], modifies=BF + ['own', 'mem.u8', 'B', 'cap'],
  ensures=INV + OTHERS + [('new', 'B[bp] and N(bp) == 0 and SZ(bp) == size and cap[bp] == ite(old(n) < 1, 1, old(n))'), ('bytes', 'forall(a, implies(old(own)[a] != 0, BY(a) == old(BY(a))), pat=BY(a))')],
  at={'entry': [('use', 'mul_pos(n, size)'), ('use', 'mul_pos(1, size)')], 'exit': [('ghost', 'B', 'store(B, bp, True)'), ('ghost', 'cap', 'store(cap, bp, ite(n < 1, 1, n))')]})
S.fn('free_buf', params=['bp'], requires=INV + HERE, ensures=INV + OTHERS + [('gone', 'not B[bp]'), ('bytes', 'mem.u8 == old(mem.u8)')], modifies=['buffer.initialized', 'own', 'B'], at={'entry': [('ghost', 'B', 'store(B, bp, False)')]})
S.fn('empty_buf', params=['bp'], requires=INV + HERE, ensures=[('empty', 'b(result) == (N(bp) == 0)')])
ITEM = "forall(k, implies(0 <= k and k < SZ(bp), own[item+k] != DAT(bp)), pat=mem.u8[item+k])"
OLDITEMS = ('items kept', 'forall(a, implies(DAT(bp) <= a and a < DAT(bp) + old(N(bp) * SZ(bp)), BY(a) == old(mem.u8)[old(DAT(bp)) + (a - DAT(bp))]), pat=BY(a))')
FOREIGN = ('other bytes', 'forall(a, implies(old(own)[a] != 0 and old(own)[a] != old(DAT(bp)), BY(a) == old(BY(a)) and own[a] == old(own)[a]), pat=[BY(a), own[a]])')
S.fn('push_buf', params=['bp', 'item'], requires=INV + HERE + [('room', '2 * (N(bp) * SZ(bp)) < 2**32 and N(bp) < 2**31 and N(bp)*SZ(bp) >= 0'), ('item', 'forall(a, implies(item <= a and a < item + SZ(bp), (own[a] != 0 or item >= sp()) and own[a] != DAT(bp)), pat=mem.u8[a]) and item > 0 ')] + STK,
  ensures=INV + OTHERS + [('count', 'N(bp) == old(N(bp)) + 1 and B == old(B) and SZ(bp) == old(SZ(bp))'), OLDITEMS,
    ('new item', 'forall(a, implies(DAT(bp) + SZ(bp)*old(N(bp)) <= a and a < DAT(bp) + SZ(bp)*old(N(bp)) + SZ(bp), BY(a) == old(mem.u8)[old(item) + (a - (DAT(bp) + SZ(bp)*old(N(bp))))]), pat=BY(a))'), FOREIGN],
  modifies=BF + ['own', 'mem.u8', 'cap'],
  at={'entry': [('use', 'mul_ge(N(bp), cap[bp], SZ(bp))'), ('use', 'mul_next(N(bp), SZ(bp))'), ('use', 'mul_le(N(bp)+1, cap[bp], SZ(bp))'), ('use', 'mul_le(N(bp)+1, 2*N(bp), SZ(bp))')],
      'before:Free': [('ghost', 'cap', 'store(cap, bp, 2*N(bp))')]})
SAMEBUF = 'B == old(B) and SZ(bp) == old(SZ(bp)) and N(bp) == old(N(bp)) and DAT(bp) == old(DAT(bp)) and own == old(own)'
TOUCHED = lambda lo, n: ('elsewhere', 'forall(a, implies(a < %s or a >= %s + %s, BY(a) == old(BY(a))), pat=BY(a))' % (lo, lo, n))
S.fn('pop_buf', params=['bp', 'p'], requires=INV + HERE + STK + [('some', 'N(bp) > 0'), ('dest', 'forall(a, implies(p <= a and a < p + SZ(bp), own[a] == 0 or a >= sp() or a < p), pat=own[a])')],
  ensures=INV + OTHERS + [('count', 'N(bp) == old(N(bp)) - 1 and B == old(B) and SZ(bp) == old(SZ(bp)) and DAT(bp) == old(DAT(bp)) and own == old(own)'),
    ('item', 'implies(p != 0, forall(a, implies(p <= a and a < p + SZ(bp), BY(a) == old(mem.u8)[DAT(bp) + N(bp)*SZ(bp) + (a - p)]), pat=BY(a)))'), TOUCHED('p', 'SZ(bp)')], modifies=['buffer.buf_size', 'mem.u8'],
  at={'entry': [('use', 'mul_next(N(bp)-1, SZ(bp))'), ('use', 'mul_le(N(bp), cap[bp], SZ(bp))'), ('use', 'mul_pos(N(bp)-1, SZ(bp))')]})
S.fn('store_buf', params=['bp', 'i', 'item'], requires=INV + HERE + [('index', 'i < N(bp)')], ensures=INV + OTHERS + [('same', SAMEBUF),
    ('item', 'forall(a, implies(DAT(bp) + i*SZ(bp) <= a and a < DAT(bp) + i*SZ(bp) + SZ(bp), BY(a) == old(mem.u8)[item + (a - (DAT(bp) + i*SZ(bp)))]), pat=BY(a))'), TOUCHED('(DAT(bp) + i*SZ(bp))', 'SZ(bp)')], modifies=['mem.u8'],
  at={'entry': [('use', 'mul_next(i, SZ(bp))'), ('use', 'mul_le(i+1, cap[bp], SZ(bp))'), ('use', 'mul_pos(i, SZ(bp))')]})
S.fn('fetch_buf', params=['bp', 'i', 'dest'], requires=INV + HERE, ensures=INV + OTHERS + [('same', SAMEBUF), ('in range', 'b(result) == (i < N(bp))'),
    ('item', 'implies(i < N(bp), forall(a, implies(dest <= a and a < dest + SZ(bp), BY(a) == old(mem.u8)[DAT(bp) + i*SZ(bp) + (a - dest)]), pat=BY(a)))'), ('not in range', 'implies(i >= N(bp), mem.u8 == old(mem.u8))'), TOUCHED('dest', 'SZ(bp)')], modifies=['mem.u8'],
  at={'entry': [('use', 'mul_next(i, SZ(bp))'), ('use', 'mul_le(i+1, cap[bp], SZ(bp))'), ('use', 'mul_pos(i, SZ(bp))')]})
S.fn('resize_buf', params=['bp', 'size'], requires=INV + HERE + STK + [('room', 'size >= 1 and size * SZ(bp) < 2**32 and size < 2**31')],
  ensures=INV + OTHERS + [('count', 'N(bp) == old(size) and B == old(B) and SZ(bp) == old(SZ(bp))'),
    ('items kept', 'forall(a, implies(DAT(bp) <= a and a < DAT(bp) + old(N(bp) * SZ(bp)) and a < DAT(bp) + old(size*SZ(bp)), BY(a) == old(mem.u8)[old(DAT(bp)) + (a - DAT(bp))]), pat=BY(a))'),
    ('new items are zero', 'forall(a, implies(DAT(bp) + old(N(bp) * SZ(bp)) <= a and a < DAT(bp) + old(size)*SZ(bp), BY(a) == 0), pat=BY(a))'), FOREIGN, ('stack', STK[0][1])],
  modifies=BF + ['own', 'mem.u8', 'cap'],
  at={'entry': [('use', 'mul_ge(size, cap[bp], SZ(bp))'), ('use', 'mul_le(N(bp), size, SZ(bp))'), ('use', 'mul_le(N(bp), cap[bp], SZ(bp))'), ('use', 'mul_le(size, cap[bp], SZ(bp))'), ('use', 'mul_le(cap[bp], size, SZ(bp))'), ('use', 'mul_le(size, N(bp), SZ(bp))'), ('use', 'mul_pos(N(bp), SZ(bp))'), ('use', 'mul_pos(size, SZ(bp))'), ('use', 'mul_sub(size, N(bp), SZ(bp))')],
      'before:Free': [('ghost', 'cap', 'store(cap, bp, size)')]})
S.lemma('mul_sub', [('a', 'Int'), ('b', 'Int'), ('s', 'Int')], [], ['(a - b) * s == a * s - b * s'])
S.fn('locate_buf', params=['bp', 'i'], requires=INV + HERE + STK + [('room', 'i >= 0 and (i+1) * SZ(bp) < 2**32 and i + 1 < 2**31')],
  ensures=INV + OTHERS + [('in range', 'i < N(bp) and N(bp) == ite(old(N(bp)) <= i, i+1, old(N(bp))) and B == old(B) and SZ(bp) == old(SZ(bp))'), ('address', 'result == DAT(bp) + i*SZ(bp)'),
    ('items kept', 'forall(a, implies(DAT(bp) <= a and a < DAT(bp) + old(N(bp) * SZ(bp)), BY(a) == old(mem.u8)[old(DAT(bp)) + (a - DAT(bp))]), pat=BY(a))'),
    ('new items are zero', 'forall(a, implies(DAT(bp) + old(N(bp) * SZ(bp)) <= a and a < DAT(bp) + N(bp)*SZ(bp), BY(a) == 0), pat=BY(a))'), FOREIGN],
  modifies=BF + ['own', 'mem.u8', 'cap'], at={'entry': [('use', 'mul_le(i, N(bp), SZ(bp))'), ('use', 'mul_le(N(bp), cap[bp], SZ(bp))'), ('use', 'mul_le(i, i+1, SZ(bp))'), ('use', 'mul_le(N(bp), i+1, SZ(bp))'), ('use', 'mul_pos(i, SZ(bp))')]})
S.fn('top_of_buf', params=['bp'], requires=INV + HERE + [('some', 'N(bp) > 0')], ensures=[('address', 'result == DAT(bp) + (N(bp)-1)*SZ(bp)')], at={'entry': [('use', 'mul_le(N(bp)-1, cap[bp], SZ(bp))'), ('use', 'mul_pos(N(bp)-1, SZ(bp))')]})
