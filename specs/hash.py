"""Contracts for the hash tables of src/lib/hash.c.
A table t (T[t]) owns the buckets b with bo[b] == t; the chain of a cell lists exactly the buckets of that table that hash there."""
from vexec import Spec
S = Spec()
S.units = ['src/lib/hash.c']
S.options['by_address'] = [('bucket_rec', 'next')]
S.options['ignore_calls'] = ('fprintf', 'fflush', 'voss_abort')
S.ghost('T', 'Set')       # tables in use
S.ghost('bo', 'Map')      # bucket -> its table (0: not in use)
S.ghost('D', 'Map')       # rank of a bucket in its chain
S.ghost('own', 'Map')     # word of pointer memory -> array it belongs to, or minus the bucket whose next field it is
S.ghost('dt', 'Map')      # cell array -> its table
S.ghost('clk', 'Int')
S.ghost('ci', 'Int')     # index of the cell being emptied, while a table is being resized
S.ghost('md', 'Set')      # buckets already moved, while a table is being resized
S.ghost('vis', 'Set')     # buckets handed to the scan function
S.uf('tt', ['Int'], 'Bool'); S.uf('nb', ['Int'], 'Bool'); S.uf('cc', ['Int'], 'Bool')
S.axiom('triggers', 'forall(o, tt(o), pat=tt(o)) and forall(o, nb(o), pat=nb(o)) and forall(o, cc(o), pat=cc(o))', 'trigger predicates, true everywhere')
S.uf('hf', ['Int', 'Int', 'Int'], 'Int')       # the hash function of a table
S.uf('heq', ['Int', 'Int', 'Int'], 'Bool')     # the equality of a table
S.uf('good', ['Int', 'Int'], 'Bool')           # the two fit together: an equivalence, and equal keys hash alike
S.axiom('good', '''forall(f, g, k, implies(good(f,g), heq(g,k,k)), pat=(good(f,g), heq(g,k,k))) and forall(f, g, j, k, implies(good(f,g) and heq(g,j,k), heq(g,k,j)), pat=(good(f,g), heq(g,j,k)))
  and forall(f, g, i, j, k, implies(good(f,g) and heq(g,i,j) and heq(g,j,k), heq(g,i,k)), pat=(good(f,g), heq(g,i,j), heq(g,j,k)))
  and forall(f, g, j, k, n, implies(good(f,g) and heq(g,j,k), hf(f,j,n) == hf(f,k,n)), pat=(good(f,g), heq(g,j,k), hf(f,j,n)))''', 'definition of a fitting pair of hash and equality functions (str, ptr and int pairs are proved to fit)')
S.axiom('hf', 'forall(f, k, n, implies(n > 0, 0 <= hf(f,k,n) and hf(f,k,n) < n), pat=hf(f,k,n))', 'hash functions return a position in the table (proved for str_hash, ptr_hash, int_hash)')
S.define('DAT', ['t'], 'buffer.data[t+16]')
S.define('SZ', ['t'], 'hash_record_q.tbl_size[t]')
S.define('KEY', ['b'], 'bucket_rec.key[b]')
S.define('DATA', ['b'], 'bucket_rec.data[b]')
S.define('NEXT', ['b'], 'mem.p[b+16]')
S.define('HF', ['t'], 'hash_record_q.hash_fn[t]')
S.define('EQ', ['t'], 'hash_record_q.hash_eq[t]')
S.define('cel', ['d', 'h'], 'mem.p[at(d, h, 8)]')
S.define('pos', ['t', 'b', 'n'], 'hf(HF(t), KEY(b), n)')
S.define('I_tab', ['x'], '''not T[0] and forall(t, implies(T[t] and t != x, SZ(t) > 0 and SZ(t) <= 536870879 and buffer.buf_size[t+16] == SZ(t) and buffer.item_size[t+16] == 8 and hash_record_q.initialized[t] == 5524491 and buffer.initialized[t+16] == 19283746
   and t > 0 and t < sp() and t + 128 < sp() and DAT(t) > 0 and dt[DAT(t)] == t and good(HF(t), EQ(t))), pat=tt(t))''')
S.define('I_own', ['x'], '''forall(t, h, implies(T[t] and t != x and 0 <= h and h < SZ(t), own[at(DAT(t),h,8)] == DAT(t)), pat=(tt(t), at(DAT(t),h,8)))''')
S.define('I_buck', [], '''forall(b, implies(bo[b] != 0, b > 0 and b + 24 < sp() and T[bo[b]] and tt(bo[b]) and own[b+16] == -b and D[b] < clk), pat=nb(b)) and forall(a, implies(own[a] != 0, a < sp()), pat=own[a])''')
S.define('HEADS', ['t', 'd', 'n', 'f', 'lo'], 'forall(h, implies(%s lo <= h and h < n, cel(d,h) == 0 or (bo[cel(d,h)] == t and md[cel(d,h)] == f and pos(t,cel(d,h),n) == h)), pat=(cc(h), at(d,h,8)))' % '')
S.define('CHAIN', ['t', 'd', 'n', 'f', 'lo'], '''forall(b, implies(bo[b] == t and md[b] == f and pos(t,b,n) >= lo, cel(d,pos(t,b,n)) != 0 and D[b] <= D[cel(d,pos(t,b,n))] and
   (NEXT(b) == 0 or (bo[NEXT(b)] == t and md[NEXT(b)] == f and pos(t,NEXT(b),n) == pos(t,b,n) and D[NEXT(b)] < D[b]))), pat=nb(b))''')
S.define('RANK', ['t', 'n', 'f', 'lo'], '''forall(b, c, implies(bo[b] == t and bo[c] == t and md[b] == f and md[c] == f and b != c and pos(t,b,n) >= lo and pos(t,c,n) == pos(t,b,n), D[b] != D[c] and implies(D[c] < D[b], NEXT(b) != 0 and D[c] <= D[NEXT(b)])), pat=(nb(b), nb(c)))''')
S.define('I_head', ['x'], 'forall(t, h, implies(T[t] and t != x and 0 <= h and h < SZ(t), cel(DAT(t),h) == 0 or (bo[cel(DAT(t),h)] == t and pos(t,cel(DAT(t),h),SZ(t)) == h)), pat=(tt(t), cc(h)))')
S.define('I_chain', ['x'], '''forall(b, implies(bo[b] != 0 and bo[b] != x, cel(DAT(bo[b]),pos(bo[b],b,SZ(bo[b]))) != 0 and D[b] <= D[cel(DAT(bo[b]),pos(bo[b],b,SZ(bo[b])))] and
   (NEXT(b) == 0 or (bo[NEXT(b)] == bo[b] and pos(bo[b],NEXT(b),SZ(bo[b])) == pos(bo[b],b,SZ(bo[b])) and D[NEXT(b)] < D[b]))), pat=nb(b))''')
S.define('I_rank', ['x'], '''forall(b, c, implies(bo[b] != 0 and bo[b] != x and bo[c] == bo[b] and b != c and pos(bo[b],c,SZ(bo[b])) == pos(bo[b],b,SZ(bo[b])), D[b] != D[c] and implies(D[c] < D[b], NEXT(b) != 0 and D[c] <= D[NEXT(b)])), pat=(nb(b), nb(c)))''')
S.define('I_uniq', [], 'forall(b, c, implies(bo[b] != 0 and bo[b] == bo[c] and heq(EQ(bo[b]), KEY(b), KEY(c)), b == c), pat=(nb(b), nb(c)))')
def inv(x='0'): return [('INV.tab', 'I_tab(%s)' % x), ('INV.own', 'I_own(%s)' % x), ('INV.buck', 'I_buck'), ('INV.head', 'I_head(%s)' % x), ('INV.chain', 'I_chain(%s)' % x), ('INV.rank', 'I_rank(%s)' % x), ('INV.uniq', 'I_uniq')]
INV = inv()
HERE = [('table', 'T[hp] and tt(hp) and hp != 0')]
SAME = 'forall(b, implies(old(bo)[b] != 0, KEY(b) == old(KEY(b)) and DATA(b) == old(DATA(b)) and (bo[b] == old(bo)[b])), pat=nb(b))'
# every binding of every table is as before, except ...
KEPT = [('others', 'forall(b, implies(old(bo)[b] != 0 and old(bo)[b] != hp, bo[b] == old(bo)[b] and KEY(b) == old(KEY(b)) and DATA(b) == old(DATA(b))), pat=nb(b)) and forall(b, implies(bo[b] != 0 and bo[b] != hp, old(bo)[b] == bo[b]), pat=nb(b))'),
        ('functions', 'forall(t, implies(old(T)[t], HF(t) == old(HF(t)) and EQ(t) == old(EQ(t)) and implies(t != hp, hash_record_q.elements[t] == old(hash_record_q.elements[t]))), pat=tt(t))')]
# ---- the leaves
S.fn('ptr:hash_record_q.hash_fn', params=['key', 'n'], trusted='a hash function supplied by the user of the table: depends only on the key', ensures=[('r', 'result == hf(fptr, key, n)')])
S.fn('ptr:hash_record_q.hash_eq', params=['j', 'k'], trusted='an equality supplied by the user of the table, fitting the hash function', ensures=[('r', 'result == ite(heq(fptr, j, k), 1, 0)')])
S.fn('str_hash', params=['key', 'size'], requires=['size > 0'], ensures=[('range', '0 <= result and result < size')], loops={0: dict(inv=[('t', 'True')])})
S.fn('ptr_hash', params=['np', 'n'], requires=['n > 0'], ensures=[('range', '0 <= result and result < n'), ('value', 'result == (np % 2**32) % n')])
S.fn('ptr_equ', params=['p1', 'p2'], ensures=[('eq', 'result == ite(p1 == p2, 1, 0)')])
S.fn('int_hash', params=['p', 'n'], requires=['n > 0'], ensures=[('range', '0 <= result and result < n'), ('value', 'result == ite(p < 0, p + 2**64, p) % n')])
S.fn('int_equ', params=['p1', 'p2'], ensures=[('eq', 'result == ite(p1 == p2, 1, 0)')])
# ---- look-up
MISS = 'forall(c, implies(bo[c] == hp, not heq(EQ(hp), key, KEY(c))), pat=nb(c))'
S.fn('find_hash', params=['hp', 'key'], requires=INV + HERE,
  ensures=[('hit', 'forall(c, implies(bo[c] == hp and heq(EQ(hp), key, KEY(c)), result == DATA(c)), pat=nb(c))'), ('miss', 'implies(%s, result == 0)' % MISS)],
  at={'loop0_pre': [('touch', 'cc(bucket)', 'tt(hp)', 'nb(bp)')], 'loop0': [('touch', 'nb(bp)', 'nb(NEXT(bp))')]},
  loops={0: dict(inv=[('in chain', 'bp == 0 or (bo[bp] == hp and pos(hp,bp,SZ(hp)) == bucket'+ ')'), ('b', 'bucket == hf(HF(hp), key, SZ(hp))'),
     ('passed', 'forall(c, implies(bo[c] == hp and pos(hp,c,SZ(hp)) == bucket, (bp != 0 and D[c] <= D[bp]) or not heq(EQ(hp), key, KEY(c))), pat=nb(c))')])})
S.fn('hash_size', params=['hp'], ensures=[('count', 'result == ite(hash_record_q.elements[hp] < 2**31, hash_record_q.elements[hp], hash_record_q.elements[hp] - 2**32)')])
# ---- records and buffers (the contracts of rec.c and buf.c, as seen on 8-byte items)
BREC = ['bucket_rec.key', 'bucket_rec.data', 'mem.p', 'own', 'bo']
S.fn('new_rec', params=['mp'], trusted='record manager: a bucket that is not in use (contract of rec.c)', modifies=BREC + ['rec_struct.live', 'rec_struct.allocated'],
  ensures=[('new', 'result > 0 and result + 24 < sp() and old(bo)[result] == 0 and bo == old(bo)'), ('mem', 'forall(b, implies(b != result, KEY(b) == old(KEY(b)) and DATA(b) == old(DATA(b))), pat=[nb(b), KEY(b), DATA(b)])'),
    ('own', 'old(own)[result+16] == 0 and own == store(old(own), result+16, -result)'), ('words', 'forall(a, implies(old(own)[a] != 0 or a >= sp(), mem.p[a] == old(mem.p[a])), pat=mem.p[a])')])
S.fn('free_rec', params=['mp', 'r'], trusted='record manager: the bucket may be handed out again (contract of rec.c)', modifies=BREC + ['rec_struct.live', 'rec_struct.allocated'],
  requires=[('out of use', 'bo[r] == 0')],
  ensures=[('bo', 'bo == old(bo)'), ('mem', 'forall(b, implies(b != r, KEY(b) == old(KEY(b)) and DATA(b) == old(DATA(b))), pat=[nb(b), KEY(b), DATA(b)])'),
    ('own', 'own == store(old(own), r+16, 0)'), ('words', 'forall(a, implies(own[a] != 0 or a >= sp(), mem.p[a] == old(mem.p[a])), pat=mem.p[a])')])
S.fn('new_mgr', params=['mp', 'size'], trusted='record manager: nothing handed out yet (contract of rec.c)')
S.fn('free_mgr', params=['mp'], trusted='record manager: releases all its records')
BF = ['buffer.buf_size', 'buffer.item_size', 'buffer.allocated', 'buffer.data', 'buffer.initialized']
def keepbuf(*fs): return ' and '.join('buffer.%s == old(buffer.%s)' % (f, f) for f in fs)
S.fn('new_buf', params=['bp', 'n', 'size'], trusted='contract of buf.c: an empty buffer with room for n items', modifies=BF + ['own', 'dt', 'mem.p'], requires=[('fits', '8*n < 2**32')],
  ensures=['buffer.buf_size == store(old(buffer.buf_size), bp, 0)', 'buffer.item_size == store(old(buffer.item_size), bp, size)', 'buffer.initialized == store(old(buffer.initialized), bp, 19283746)', 'buffer.allocated == store(old(buffer.allocated), bp, ite(n < 1, 1, n)*size)',
    'buffer.data == store(old(buffer.data), bp, buffer.data[bp])', ('fresh', 'buffer.data[bp] > 0 and forall(i, implies(0 <= i and i < n, own[at(buffer.data[bp],i,8)] == buffer.data[bp]), pat=at(buffer.data[bp],i,8))'),
    ('others', 'forall(a, implies(old(own)[a] != 0, own[a] == old(own)[a]) and implies(own[a] != 0, a < sp()) and implies(old(own)[a] == 0 and own[a] != 0, own[a] == buffer.data[bp]), pat=own[a])'), ('words', 'forall(a, implies(old(own)[a] != 0 or a >= sp(), mem.p[a] == old(mem.p[a])), pat=mem.p[a])'),
    ('new array', 'old(dt)[buffer.data[bp]] == 0 and dt == old(dt) and forall(a, old(own)[a] != buffer.data[bp], pat=old(own)[a])')])
S.fn('push_buf', params=['bp', 'item'], trusted='contract of buf.c, when there is room', modifies=['buffer.buf_size', 'mem.p'], requires=[('room', 'buffer.item_size[bp] == 8 and 8*buffer.buf_size[bp] < buffer.allocated[bp]')],
  ensures=['buffer.buf_size == store(old(buffer.buf_size), bp, old(buffer.buf_size[bp]) + 1)', 'mem.p == store(old(mem.p), at(buffer.data[bp], old(buffer.buf_size[bp]), 8), old(mem.p[item]))'])
S.fn('store_buf', params=['bp', 'i', 'item'], trusted='contract of buf.c', modifies=['mem.p'], requires=[('index', 'i < buffer.buf_size[bp] and buffer.item_size[bp] == 8')],
  ensures=['mem.p == store(old(mem.p), at(buffer.data[bp], i, 8), old(mem.p[item]))'])
S.fn('free_buf', params=['bp'], trusted='contract of buf.c: the items may be reused', modifies=['buffer.initialized', 'own', 'dt', 'mem.p'],
  ensures=['buffer.initialized == store(old(buffer.initialized), bp, 0)', ('rel', 'dt == store(old(dt), buffer.data[bp], 0)'), ('own', 'forall(a, own[a] == ite(old(own)[a] == buffer.data[bp], 0, old(own)[a]), pat=own[a])'), ('words', 'forall(a, implies(own[a] != 0 or a >= sp(), mem.p[a] == old(mem.p[a])), pat=mem.p[a])')])
HFN = ['hash_record_q.%s' % f for f in ('initialized', 'autosize', 'tbl_size', 'elements', 'hash_fn', 'hash_eq')]
PRIMES = [('primes', "mem.u32[at(addr(primes),27,4)] == 2147483629 and mem.u32[at(addr(primes),23,4)] == 134217689 and mem.u32[at(addr(primes),25,4)] == 536870879 and forall(k, implies(0 <= k and k < 28, mem.u32[at(addr(primes),k,4)] >= 13 and implies(k <= 23, mem.u32[at(addr(primes),k,4)] <= 134217689) and implies(k <= 25, mem.u32[at(addr(primes),k,4)] <= 536870879)), pat=at(addr(primes),k,4))")]
ASSUME = ['the static table of primes holds its initial values']
# ---- creation
S.fn('create_hash', params=['hp', 'size', 'hash_fn', 'hash_eq'], requires=INV + PRIMES + [('new', 'not T[hp] and tt(hp) and hp > 0 and hp + 128 < sp() and good(hash_fn, hash_eq)'), ('size', 'size <= 134217689')],
  ensures=INV + [('table', 'T == store(old(T), hp, True)'), ('empty', 'hash_record_q.elements[hp] == 0 and forall(b, bo[b] != hp, pat=nb(b))'), ('fns', 'HF(hp) == hash_fn and EQ(hp) == hash_eq')] + KEPT,
  modifies=HFN + BF + ['own', 'dt', 'mem.p', 'T'],
  loops={0: dict(inv=[('i', '0 <= i and i <= 23 and forall(k, implies(0 <= k and k < i, mem.u32[at(addr(primes),k,4)] < size), pat=at(addr(primes),k,4))')], decreases='24-i'),
    1: dict(inv=[('i', 'i <= size and buffer.buf_size[hp+16] == i and size == SZ(hp) and 0 < size and size <= 134217689')
      , ('buf', 'buffer.item_size[hp+16] == 8 and buffer.allocated[hp+16] == 8*size and buffer.initialized[hp+16] == 19283746'),
      ('zero', 'forall(k, implies(0 <= k and k < i, cel(DAT(hp),k) == 0), pat=at(DAT(hp),k,8))'), ('other bufs', 'forall(t, implies(t != hp, buffer.buf_size[t+16] == old(buffer.buf_size[t+16])), pat=tt(t))'),
      ('fresh', 'DAT(hp) > 0 and forall(k, implies(0 <= k and k < size, own[at(DAT(hp),k,8)] == DAT(hp)), pat=at(DAT(hp),k,8)) and forall(a, old(own)[a] != DAT(hp), pat=old(own)[a])'),
      ('words', 'forall(a, implies(old(own)[a] != 0, mem.p[a] == old(mem.p[a])), pat=mem.p[a])')], decreases='size - i')},
  at={'exit': [('ghost', 'T', 'store(T, hp, True)'), ('ghost', 'dt', 'store(dt, DAT(hp), hp)')]})
# ---- insertion
ABSENT = [('absent', MISS)]
CUR = 'at(d0(), 0, 8)'
INS = [('binding', 'forall(b, implies(bo[b] == hp and old(bo)[b] != hp, old(bo)[b] == 0 and KEY(b) == key and DATA(b) == data), pat=nb(b)) and not forall(b, implies(bo[b] == hp, old(bo)[b] == hp), pat=nb(b))'),
       ('kept', SAME), ('count', 'hash_record_q.elements[hp] == old(hash_record_q.elements[hp]) + 1'), ('tables', 'T == old(T)')]
IM = HFN[2:4] + BF + BREC + ['dt', 'D', 'clk', 'md', 'ci', 'rec_struct.live', 'rec_struct.allocated', 'hash_record_q.initialized', 'hash_record_q.autosize', 'hash_record_q.hash_fn', 'hash_record_q.hash_eq']
ND = 'buffer.data[addr_new_tbl]'
RES_COMMON = [('fixed', 'KEYS_SAME()')]
RESINV = lambda lo, extra: [
  ('tabs', 'I_tab(hp)'), ('own', 'I_own(hp)'), ('buck', 'I_buck'), ('head', 'I_head(hp)'), ('chain', 'I_chain(hp)'), ('rank', 'I_rank(hp)'),
  ('this', 'T[hp] and hp > 0 and hp + 128 < sp() and buffer.buf_size[hp+16] == SZ(hp) and buffer.item_size[hp+16] == 8 and SZ(hp) > 0 and SZ(hp) == old(SZ(hp)) and SZ(hp) <= 536870879 and DAT(hp) == old(DAT(hp)) and DAT(hp) > 0 and dt[DAT(hp)] == hp and good(HF(hp),EQ(hp)) and buffer.initialized[hp+16] == 19283746'),
  ('own0', 'forall(h, implies(0 <= h and h < SZ(hp), own[at(DAT(hp),h,8)] == DAT(hp)), pat=at(DAT(hp),h,8))'),
  ('own1', 'forall(h, implies(0 <= h and h < new_size, own[at(new_tbl.data,h,8)] == new_tbl.data), pat=at(new_tbl.data,h,8)) and new_tbl.data > 0 and dt[new_tbl.data] == 0 and new_tbl.data != DAT(hp)'),
  ('newbuf', 'new_tbl.buf_size == new_size and new_tbl.item_size == 8 and new_size > 0 and new_size <= 536870879 and new_tbl.initialized == 19283746 and 0 <= ci and ci <= SZ(hp)'),
  ('new heads', 'HEADS(hp, new_tbl.data, new_size, True, 0)'), ('new chains', 'CHAIN(hp, new_tbl.data, new_size, True, 0)'), ('new rank', 'RANK(hp, new_size, True, 0)'),
  ('old heads', 'HEADS(hp, DAT(hp), SZ(hp), False, %s)' % lo), ('old chains', 'CHAIN(hp, DAT(hp), SZ(hp), False, %s)' % lo), ('old rank', 'RANK(hp, SZ(hp), False, ci)'),
  ('bindings', 'KEYS_SAME()')] + extra
S.define('KEYS_SAME', [], 'bo == old(bo) and bucket_rec.key == old(bucket_rec.key) and bucket_rec.data == old(bucket_rec.data) and T == old(T) and HF(hp) == old(HF(hp))')
S.fn('insert_hash', params=['hp', 'key', 'data'], requires=INV + PRIMES + HERE + ABSENT + [('size', 'hash_record_q.elements[hp] <= 536870879')], merge=False,
  ensures=INV + INS + KEPT, modifies=IM,
  loops={0: dict(inv=[('i', '0 <= i and i <= 25 and forall(k, implies(0 <= k and k < i, mem.u32[at(addr(primes),k,4)] < hash_record_q.elements[hp]), pat=at(addr(primes),k,4))')], decreases='26-i'),
    1: dict(inv=[('i', 'i <= new_size and new_tbl.buf_size == i and 0 < new_size and new_size <= 536870879 and new_tbl.item_size == 8 and new_tbl.allocated == 8*new_size and new_tbl.initialized == 19283746'),
      ('zero', 'forall(k, implies(0 <= k and k < i, cel(new_tbl.data,k) == 0), pat=at(new_tbl.data,k,8))'), ('other bufs', 'forall(t, implies(T[t], buffer.buf_size[t+16] == old(buffer.buf_size[t+16])), pat=tt(t))'),
      ('fresh', 'forall(k, implies(0 <= k and k < new_size, own[at(new_tbl.data,k,8)] == new_tbl.data), pat=at(new_tbl.data,k,8)) and forall(a, old(own)[a] != new_tbl.data, pat=old(own)[a]) and new_tbl.data > 0'),
      ('words', 'forall(a, implies(old(own)[a] != 0, mem.p[a] == old(mem.p[a])), pat=mem.p[a])')], decreases='new_size - i'),
    2: dict(inv=RESINV('ci', [('cursor', 'bpp == at(DAT(hp), ci, 8)'), ('left', 'forall(b, implies(bo[b] == hp and not md[b], pos(hp,b,SZ(hp)) >= ci), pat=nb(b))')])),
    3: dict(inv=RESINV('ci+1', [('cursor', 'bpp == at(DAT(hp), ci, 8) and ci < SZ(hp)'), ('chp', 'chp == 0 or (bo[chp] == hp and not md[chp] and pos(hp,chp,SZ(hp)) == ci)'),
      ('left', 'forall(b, implies(bo[b] == hp and not md[b], pos(hp,b,SZ(hp)) >= ci and implies(pos(hp,b,SZ(hp)) == ci, chp != 0 and D[b] <= D[chp])), pat=nb(b))'),
      ('links', 'forall(b, implies(bo[b] == hp and not md[b] and pos(hp,b,SZ(hp)) == ci, NEXT(b) == 0 or (bo[NEXT(b)] == hp and not md[NEXT(b)] and pos(hp,NEXT(b),SZ(hp)) == ci and D[NEXT(b)] < D[b])), pat=nb(b))')]))},
  at={'loop2_pre': [('ghost', 'md', 'constmap(False)'), ('ghost', 'ci', '0'), ('touch', 'tt(hp)')],
      'loop3': [('touch', 'nb(chp)', 'nb(NEXT(chp))', 'cc(hf(HF(hp),KEY(chp),new_size))', 'nb(cel(new_tbl.data, hf(HF(hp),KEY(chp),new_size)))')],
      'loop3_end': [('ghost', 'D', 'store(D, tmp, clk)'), ('ghost', 'clk', 'clk+1'), ('ghost', 'md', 'store(md, tmp, True)')],
      'loop3_pre': [('touch', 'cc(ci)', 'nb(chp)')],
      'loop2_end': [('ghost', 'ci', 'ci+1')],
      'before:free_buf': [('ghost', 'dt', 'store(dt, new_tbl.data, hp)')],
      'before:new_rec': [('touch', 'cc(pos)', 'tt(hp)', 'nb(cel(DAT(hp),pos))')],
      'exit': [('ghost', 'bo', 'store(bo, bp, hp)'), ('ghost', 'D', 'store(D, bp, clk)'), ('ghost', 'clk', 'clk+1'), ('touch', 'nb(bp)')]})
S.fn('insert_check_hash', params=['hp', 'key', 'data'], requires=INV + PRIMES + HERE + [('size', 'hash_record_q.elements[hp] <= 536870879'), ('data', 'forall(b, implies(bo[b] == hp, DATA(b) != 0), pat=nb(b))')],
  ensures=INV + [('result', 'b(result) == old(%s)' % MISS), ('refused', 'implies(result == 0, bo == old(bo) and bucket_rec.key == old(bucket_rec.key) and bucket_rec.data == old(bucket_rec.data) and hash_record_q.elements == old(hash_record_q.elements))')] +
     [(n, 'implies(result != 0, %s)' % f) for n, f in INS] + KEPT, modifies=IM)
# ---- deletion of a key that is present
S.fn('delete_hash', params=['hp', 'key'], requires=INV + HERE + [('present', 'not (%s)' % MISS)],
  ensures=INV + [('gone', 'forall(c, bo[c] == ite(old(bo)[c] == hp and old(heq(EQ(hp), key, KEY(c))), 0, old(bo)[c]), pat=[nb(c), bo[c]])'),
     ('kept', 'forall(b, implies(bo[b] != 0, KEY(b) == old(KEY(b)) and DATA(b) == old(DATA(b))), pat=nb(b))'), ('count', 'hash_record_q.elements[hp] == ite(old(hash_record_q.elements[hp]) == 0, 2**32-1, old(hash_record_q.elements[hp]) - 1)'), ('tables', 'T == old(T)')] + KEPT,
  modifies=BREC + ['hash_record_q.elements', 'rec_struct.live', 'rec_struct.allocated'],
  at={'loop0_pre': [('touch', 'cc(pos)', 'tt(hp)', 'nb(bp)')], 'loop0': [('touch', 'nb(bp)', 'nb(NEXT(bp))', 'nb(prevp-16)')], 'before:free_rec': [('touch', 'nb(NEXT(bp))'), ('ghost', 'bo', 'store(bo, bp, 0)')]},
  loops={0: dict(inv=[('in chain', 'bp == 0 or (bo[bp] == hp and hf(HF(hp), KEY(bp), SZ(hp)) == pos)'), ('b', 'pos == hf(HF(hp), key, SZ(hp)) and mem.p[prevp] == bp'),
     ('prev', 'prevp == at(DAT(hp),pos,8) or (bo[prevp-16] == hp and hf(HF(hp), KEY(prevp-16), SZ(hp)) == pos)'),
     ('passed', 'forall(c, implies(bo[c] == hp and hf(HF(hp), KEY(c), SZ(hp)) == pos, (bp != 0 and D[c] <= D[bp]) or not heq(EQ(hp), key, KEY(c))), pat=nb(c))'),
     ('only', 'forall(c, implies(bo[c] == hp and hf(HF(hp), KEY(c), SZ(hp)) == pos and NEXT(c) == bp and bp != 0, prevp == c+16) and implies(bo[c] == hp and bp != 0 and prevp == at(DAT(hp),pos,8), D[c] <= D[bp] or hf(HF(hp), KEY(c), SZ(hp)) != pos), pat=nb(c))')])})
# ---- scanning: every binding of the table exactly once
S.fn('ptr:scan_fn', params=['key', 'data'], trusted='the function handed to scan_hash does not insert into or delete from that table')
S.fn('scan_hash', params=['hp', 'scan_fn'], requires=INV + HERE, ensures=[('all', 'forall(b, vis[b] == (bo[b] == hp), pat=nb(b))')], modifies=['vis', 'ci'],
  at={'loop0_pre': [('ghost', 'vis', 'constmap(False)'), ('ghost', 'ci', '0'), ('touch', 'tt(hp)')], 'loop0_end': [('ghost', 'ci', 'ci+1')], 'loop0': [('touch', 'cc(ci)', 'nb(cel(DAT(hp),ci))')],
      'loop1': [('touch', 'nb(chp)', 'nb(NEXT(chp))')],
      'before:ptr:scan_fn': [('assert', 'bo[chp] == hp and not vis[chp] and arg0 == KEY(chp) and arg1 == DATA(chp)', 'each binding once'), ('ghost', 'vis', 'store(vis, chp, True)')]},
  loops={0: dict(inv=[('cursor', '0 <= ci and ci <= SZ(hp) and bpp == at(DAT(hp),ci,8)'), ('done', 'forall(b, vis[b] == (bo[b] == hp and pos(hp,b,SZ(hp)) < ci), pat=nb(b))')]),
    1: dict(inv=[('cursor', '0 <= ci and ci < SZ(hp) and bpp == at(DAT(hp),ci,8)'), ('chp', 'chp == 0 or (bo[chp] == hp and pos(hp,chp,SZ(hp)) == ci)'),
      ('done', 'forall(b, vis[b] == (bo[b] == hp and (pos(hp,b,SZ(hp)) < ci or (pos(hp,b,SZ(hp)) == ci and (chp == 0 or D[b] > D[chp])))), pat=nb(b))')])})
S.fn('duplicate_hash_struct', params=['old_hp', 'new_hp'], requires=INV + PRIMES + [('old', 'T[old_hp] and tt(old_hp)'), ('new', 'not T[new_hp] and tt(new_hp) and new_hp > 0 and new_hp + 128 < sp()'), ('size', 'SZ(old_hp) <= 134217689')],
  ensures=INV + [('table', 'T == store(old(T), new_hp, True)'), ('empty', 'hash_record_q.elements[new_hp] == 0 and forall(b, bo[b] != new_hp, pat=nb(b))'), ('fns', 'HF(new_hp) == HF(old_hp) and EQ(new_hp) == EQ(old_hp)')] + [(n, f.replace('hp', 'new_hp')) for n, f in KEPT],
  modifies=HFN + BF + ['own', 'dt', 'mem.p', 'T'])
S.fn('ptr:dispose_fn', params=['key', 'data'], trusted='the function handed to dispose_hash does not touch the table')
DISP = lambda lo: [('tabs', 'I_tab(hp)'), ('own', 'I_own(hp)'), ('buck', 'I_buck'), ('head', 'I_head(hp)'), ('chain', 'I_chain(hp)'), ('rank', 'I_rank(hp)'), ('uniq', 'I_uniq'),
  ('this', 'T == old(T) and hp > 0 and hp + 128 < sp() and SZ(hp) > 0 and SZ(hp) <= 536870879 and buffer.buf_size[hp+16] == SZ(hp) and DAT(hp) > 0 and dt[DAT(hp)] == hp'),
  ('own0', 'forall(h, implies(0 <= h and h < SZ(hp), own[at(DAT(hp),h,8)] == DAT(hp)), pat=at(DAT(hp),h,8))'), ('clean', 'forall(b, not md[b], pat=md[b])'),
  ('heads', 'HEADS(hp, DAT(hp), SZ(hp), False, %s)' % lo), ('chains', 'CHAIN(hp, DAT(hp), SZ(hp), False, %s)' % lo), ('ranks', 'RANK(hp, SZ(hp), False, ci)'),
  ('bindings', 'forall(b, implies(old(bo)[b] != hp, bo[b] == old(bo)[b] and KEY(b) == old(KEY(b)) and DATA(b) == old(DATA(b))) and implies(bo[b] != 0, bo[b] == old(bo)[b] and KEY(b) == old(KEY(b))), pat=nb(b))')]
S.fn('dispose_hash', params=['hp', 'dispose_fn'], requires=INV + HERE, modifies=BREC + ['dt', 'T', 'md', 'ci', 'rec_struct.live', 'rec_struct.allocated', 'buffer.initialized', 'hash_record_q.initialized'],
  ensures=INV + [('table', 'T == store(old(T), hp, False)'), ('gone', 'forall(b, bo[b] != hp, pat=nb(b))')] + KEPT,
  at={'loop0_pre': [('ghost', 'md', 'constmap(False)'), ('ghost', 'ci', '0'), ('touch', 'tt(hp)')], 'loop0_end': [('ghost', 'ci', 'ci+1')], 'loop0': [('touch', 'cc(ci)', 'nb(cel(DAT(hp),ci))')],
      'loop1': [('touch', 'nb(chp)', 'nb(NEXT(chp))')], 'before:free_rec': [('ghost', 'bo', 'store(bo, tmp, 0)'), ('touch', 'nb(tmp)')],
      'before:free_mgr': [('ghost_fun', 'bo', ('b',), 'ite(bo[b] == hp, 0, bo[b])')], 'exit': [('ghost', 'T', 'store(T, hp, False)')]},
  loops={0: dict(inv=DISP('ci') + [('cursor', '0 <= ci and ci <= SZ(hp) and curp == at(DAT(hp),ci,8)'), ('left', 'forall(b, implies(bo[b] == hp, pos(hp,b,SZ(hp)) >= ci), pat=nb(b))')]),
    1: dict(inv=DISP('ci+1') + [('cursor', '0 <= ci and ci < SZ(hp) and curp == at(DAT(hp),ci,8)'), ('chp', 'chp == 0 or (bo[chp] == hp and pos(hp,chp,SZ(hp)) == ci)'),
      ('left', 'forall(b, implies(bo[b] == hp, pos(hp,b,SZ(hp)) >= ci and implies(pos(hp,b,SZ(hp)) == ci, chp != 0 and D[b] <= D[chp])), pat=nb(b))'),
      ('links', 'forall(b, implies(bo[b] == hp and pos(hp,b,SZ(hp)) == ci, NEXT(b) == 0 or (bo[NEXT(b)] == hp and pos(hp,NEXT(b),SZ(hp)) == ci and D[NEXT(b)] < D[b])), pat=nb(b))')])})
