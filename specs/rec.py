"""Contracts for the record managers of src/lib/rec.c, for one arbitrary manager mp.
Its blocks are BK; the slot with index i of block b is the record at b + 16 + i*rec_size. st[r] tells whether r is handed out (1) or on the free list (2)."""
from vexec import Spec
S = Spec()
S.units = ['src/lib/rec.c']
S.options['ignore_calls'] = ('fprintf', 'fflush', 'voss_abort', 'abort')
S.ghost('BK', 'Set')     # blocks of the manager
S.ghost('rk', 'Map')     # position of a block in the list of blocks
S.ghost('own', 'Map')    # byte of memory -> block it belongs to (0: none)
S.ghost('st', 'Map')     # record -> 0: not in use, 1: handed out, 2: on the free list
S.ghost('ob', 'Map')     # record -> its block
S.ghost('ix', 'Map')     # record -> its index in that block
S.ghost('fd', 'Map')     # position in the free list, counted from its end
S.ghost('nf', 'Int')     # length of the free list
S.ghost('lp', 'Map')     # record handed out -> its number
S.ghost('pl', 'Map')     # number -> record handed out
for t in ('bt', 'rt', 'kt'): S.uf(t, ['Int'], 'Bool')
S.axiom('triggers', 'forall(o, bt(o), pat=bt(o)) and forall(o, rt(o), pat=rt(o)) and forall(o, kt(o), pat=kt(o))', 'trigger predicates, true everywhere')
S.define('RS', [], 'rec_struct.rec_size[mp]'); S.define('CAP', [], 'rec_struct.capacity[mp]'); S.define('BS', [], 'rec_struct.blk_size[mp]'); S.define('AL', [], 'rec_struct.allocated[mp]')
S.define('FIRST', [], 'rec_struct.first_blk[mp]'); S.define('LAST', [], 'rec_struct.last_blk[mp]'); S.define('FREE_', [], 'rec_struct.free_rec[mp]'); S.define('LIVE', [], 'rec_struct.live[mp]')
S.define('FWD', ['b'], 'mem.p[b]'); S.define('BACK', ['b'], 'mem.p[b+8]')
S.lemma('slots', [('i', 'Int'), ('j', 'Int'), ('s', 'Int')], ['i < j', 's >= 0'], ['i*s + s <= j*s'])
S.lemma('mul_pos', [('a', 'Int'), ('s', 'Int')], ['a >= 0', 's >= 0'], ['a * s >= 0'])
S.lemma('mul_next', [('a', 'Int'), ('s', 'Int')], [], ['(a + 1) * s == a * s + s'])
INV = [('INV.shape', 'mp > 0 and mp + 128 < sp() and RS() >= 8 and CAP() >= 1 and BS() == CAP()*RS() + 16 and AL() <= CAP() and BK[FIRST()] and BK[LAST()] and rec_struct.initialized[mp] == 12349876 and b(rec_struct.pure[mp]) == (rec_struct.pure[mp] != 0) and (AL() == 0) <= (FIRST() == LAST())'.replace('(AL() == 0) <= (FIRST() == LAST())', 'implies(AL() == 0, FIRST() == LAST())').replace('b(rec_struct.pure[mp]) == (rec_struct.pure[mp] != 0) and ', '')),
  ('INV.blocks', 'forall(b, implies(BK[b], b > 0 and b + BS() < sp() and 0 <= rk[b] and rk[b] <= rk[LAST()] and own[b] == b and own[b+8] == b), pat=bt(b)) and forall(b, a, implies(BK[b] and b <= a and a < b + BS(), own[a] == b), pat=(bt(b), own[a]))'),
  ('INV.owned', 'forall(a, implies(own[a] != 0, a < sp()) and implies(BK[own[a]], own[a] <= a and a < own[a] + BS()), pat=own[a])'),
  ('INV.links', 'forall(b, implies(BK[b], (FWD(b) == 0) == (b == LAST()) and (BACK(b) == 0) == (b == FIRST()) and implies(b != LAST(), BK[FWD(b)] and own[FWD(b)] == FWD(b) and own[FWD(b)+8] == FWD(b) and BACK(FWD(b)) == b and rk[FWD(b)] == rk[b] + 1) and implies(b != FIRST(), BK[BACK(b)] and own[BACK(b)] == BACK(b) and own[BACK(b)+8] == BACK(b) and FWD(BACK(b)) == b and rk[BACK(b)] == rk[b] - 1)), pat=bt(b)) and rk[FIRST()] == 0'),
  ('INV.rank', 'forall(b, c, implies(BK[b] and BK[c] and rk[b] == rk[c], b == c), pat=(bt(b), bt(c)))'),
  ('INV.recs', 'forall(r, implies(st[r] != 0, (st[r] == 1 or st[r] == 2) and BK[ob[r]] and bt(ob[r]) and 0 <= ix[r] and ix[r] < CAP() and r == ob[r] + 16 + ix[r]*RS() and implies(ob[r] == LAST(), ix[r] < AL())), pat=rt(r))'),
  ('INV.apart', 'forall(r, c, implies(st[r] != 0 and st[c] != 0 and r != c, r + RS() <= c or c + RS() <= r), pat=(rt(r), rt(c)))'),
  ('INV.free', '''implies(FREE_() == 0, nf == 0) and implies(FREE_() != 0, st[FREE_()] == 2 and fd[FREE_()] == nf and nf >= 1) and not st[0] == 2 and
     forall(r, implies(st[r] == 2, 1 <= fd[r] and fd[r] <= nf and implies(fd[r] == 1, mem.p[r] == 0) and implies(fd[r] > 1, mem.p[r] != 0 and st[mem.p[r]] == 2 and fd[mem.p[r]] == fd[r] - 1)), pat=rt(r)) and
     forall(r, c, implies(st[r] == 2 and st[c] == 2 and fd[r] == fd[c], r == c), pat=(rt(r), rt(c)))'''),
  ('INV.pure', 'implies(rec_struct.pure[mp] != 0, forall(r, st[r] != 2, pat=rt(r)))'),
  ('INV.count', 'forall(r, implies(st[r] == 1, 0 <= lp[r] and lp[r] < LIVE() and pl[lp[r]] == r), pat=rt(r)) and forall(k, implies(0 <= k and k < LIVE(), st[pl[k]] == 1 and lp[pl[k]] == k), pat=kt(k))')]
G = ['BK', 'rk', 'own', 'st', 'ob', 'ix', 'fd', 'nf', 'lp', 'pl']
RF = lambda *f: ['rec_struct.%s' % x for x in f]
S.fn('Malloc', params=['n'], trusted='libc malloc: a fresh block', modifies=['own'], ensures=[('fresh', 'result > 0 and result + n < sp() and forall(a, own[a] == ite(result <= a and a < result + n, result, old(own)[a]), pat=own[a]) and forall(a, implies(result <= a and a < result + n, old(own)[a] == 0) and old(own)[a] != result, pat=old(own)[a]) and not BK[result]')])
S.fn('Alignment_Malloc', params=['n', 'al'], trusted='libc posix_memalign: a fresh block', modifies=['own'], ensures=S.fns['Malloc']['ensures'])
S.fn('Free', params=['p'], trusted='libc free', modifies=['own'], ensures=[('own', 'forall(a, own[a] == ite(old(own)[a] == p, 0, old(own)[a]), pat=own[a])')])
FRAME = [('records kept', 'forall(r, a, implies(old(st)[r] == 1 and st[r] == 1 and r <= a and a < r + RS(), mem.p[a] == old(mem.p[a])), pat=(rt(r), mem.p[a]))'),
  ('other memory', 'forall(a, implies(old(own)[a] != 0 and not old(BK)[old(own)[a]], mem.p[a] == old(mem.p[a]) and own[a] == old(own)[a]) and implies(a >= sp(), mem.p[a] == old(mem.p[a])), pat=[mem.p[a], own[a]])'),
  ('shape', 'RS() == old(RS()) and CAP() == old(CAP())')]
INIT = dict(modifies=RF('initialized', 'live', 'alignment', 'rec_size', 'blk_size', 'capacity', 'first_blk', 'last_blk', 'free_rec', 'allocated', 'pure') + ['mem.p'] + G,
  ensures=INV + [('empty', 'forall(r, st[r] == 0, pat=rt(r)) and LIVE() == 0 and rec_struct.pure[mp] != 0 and RS() == ite(old(size) > 8, old(size), 8)')] +
     [('other memory', 'forall(a, implies(old(own)[a] != 0, mem.p[a] == old(mem.p[a]) and own[a] == old(own)[a]) and implies(a >= sp(), mem.p[a] == old(mem.p[a])), pat=[mem.p[a], own[a]])')],
  requires=[('new', 'mp > 0 and mp + 128 < sp() and size < 2**31 and forall(b, not BK[b], pat=BK[b])'), ('memory', 'own[0] == 0 and forall(a, implies(own[a] != 0, a < sp()), pat=own[a]) and not BK[0]')])
S.fn('aligned_new_mgr', params=['mp', 'size', 'alignment'], at={'exit': [('ghost', 'BK', 'store(BK, FIRST(), True)'), ('ghost', 'rk', 'store(rk, FIRST(), 0)'), ('ghost', 'st', 'constmap(0)'), ('ghost', 'nf', '0'), ('touch', 'bt(FIRST())')]}, **INIT)
S.fn('new_mgr', params=['mp', 'size'], **INIT)
S.fn('new_rec', params=['mp'], requires=INV + [('room', 'LIVE() < 2**32 - 1 and BS() < 2**31')],
  ensures=INV + [('new', 'old(st)[result] != 1 and st == store(old(st), result, 1)'), ('fits', 'forall(a, implies(result <= a and a < result + RS(), BK[own[a]]), pat=own[a])'), ('count', 'LIVE() == old(LIVE()) + 1')] + FRAME,
  modifies=RF('live', 'free_rec', 'last_blk', 'allocated') + ['mem.p'] + G,
  at={'entry': [('touch', 'bt(LAST())', 'bt(FIRST())', 'rt(FREE_())', 'rt(mem.p[FREE_()])', 'kt(LIVE())'), ('use', 'mul_next(AL(), RS())'), ('use', 'slots(AL()-1, CAP(), RS())'), ('use', 'mul_pos(AL(), RS())'), ('use', 'mul_pos(CAP(), RS())')],
      'call:Alignment_Malloc': [('ghost', 'BK', 'store(BK, ret, True)'), ('ghost', 'rk', 'store(rk, ret, rk[LAST()] + 1)'), ('touch', 'bt(ret)', 'own[ret]', 'own[ret+8]', 'own[ret+16]')],
      'exit': [('ghost', 'lp', 'store(lp, result, LIVE()-1)'), ('ghost', 'pl', 'store(pl, LIVE()-1, result)'), ('ghost', 'nf', 'ite(st[result] == 2, nf-1, nf)'),
        ('ghost', 'ob', 'ite(st[result] == 2, ob, store(ob, result, LAST()))'), ('ghost', 'ix', 'ite(st[result] == 2, ix, store(ix, result, AL()-1))'), ('ghost', 'st', 'store(st, result, 1)'), ('touch', 'rt(result)')]})
S.fn('free_rec', params=['mp', 'r'], requires=INV + [('in use', 'st[r] == 1 and rt(r) and BS() < 2**31')],
  ensures=INV + [('freed', 'forall(c, (st[c] == 1) == (old(st)[c] == 1 and c != r), pat=rt(c))'), ('count', 'LIVE() == old(LIVE()) - 1')] + FRAME,
  modifies=RF('live', 'free_rec', 'last_blk', 'allocated', 'pure') + ['mem.p'] + G,
  at={'entry': [('touch', 'bt(LAST())', 'bt(FIRST())', 'bt(BACK(LAST()))', 'bt(ob[r])', 'rt(FREE_())', 'kt(LIVE()-1)', 'kt(lp[r])', 'rt(pl[LIVE()-1])'), ('use', 'mul_next(AL()-1, RS())'), ('use', 'slots(ix[r], AL()-1, RS())'), ('use', 'slots(AL()-1, ix[r], RS())'), ('use', 'mul_pos(AL()-1, RS())'), ('use', 'mul_pos(CAP(), RS())')],
      'exit': [('ghost', 'BK', 'ite(LAST() == old(LAST()), BK, store(BK, old(LAST()), False))'), ('ghost', 'st', 'store(st, r, ite(FREE_() == r, 2, 0))'), ('ghost', 'nf', 'ite(FREE_() == r, nf+1, nf)'), ('ghost', 'fd', 'ite(FREE_() == r, store(fd, r, nf), fd)'),
        ('ghost', 'pl', 'store(pl, lp[r], pl[LIVE()])'), ('ghost', 'lp', 'store(lp, pl[LIVE()], lp[r])')]})
# ---- looking at the records of a manager on which the free list was never used
PURE = [('pure', 'rec_struct.pure[mp] != 0')]
S.fn('ensure_pure_mgr', params=['mp', 'file', 'line'], requires=PURE, ensures=[('r', 'result == 1')])
S.fn('mgr_size', params=['mp', 'file', 'line'], requires=INV + PURE, ensures=[('count', 'result == ite(LIVE() < 2**31, LIVE(), LIVE() - 2**32)')])
S.define('SLOT', ['b', 'i'], 'b + 16 + i*RS()')
S.fn('rec_element', params=['mp', 'idx', 'file', 'line'], requires=INV + PURE + [('room', 'BS() < 2**31')],
  ensures=[('the record', 'forall(b, implies(BK[b] and rk[b]*CAP() <= idx and idx < rk[b]*CAP() + CAP(), result == ite(b == LAST() and idx - rk[b]*CAP() >= AL(), 0, SLOT(b, idx - rk[b]*CAP()))), pat=bt(b))'), ('none', 'implies(idx >= rk[LAST()]*CAP() + CAP(), result == 0)')],
  at={'entry': [('touch', 'bt(FIRST())', 'bt(LAST())')], 'loop0': [('touch', 'bt(cur)', 'bt(FWD(cur))')]},
  loops={0: dict(inv=[('at', 'BK[cur] and bt(cur) and rk[cur] == i and i <= blocks and blocks * CAP() <= idx and idx < blocks*CAP() + CAP()')], decreases='blocks - i')})
S.fn('owned_by_mgr', params=['mp', 'item'], requires=INV + PURE + [('room', 'BS() < 2**31')],
  ensures=[('inside', 'b(result) == (BK[own[item]] and item >= own[item] + 16 and item < own[item] + 16 + ite(own[item] == LAST(), AL(), CAP())*RS())')],
  at={'entry': [('touch', 'bt(FIRST())', 'bt(LAST())', 'bt(own[item])'), ('use', 'slots(AL(), CAP(), RS())'), ('use', 'mul_pos(AL(), RS())'), ('use', 'mul_pos(CAP(), RS())')], 'loop0': [('touch', 'bt(cur_blk)', 'bt(FWD(cur_blk))')]},
  loops={0: dict(inv=[('at', 'cur_blk == 0 or (BK[cur_blk] and bt(cur_blk))'), ('seen', 'implies(BK[own[item]], (cur_blk != 0 and rk[own[item]] >= rk[cur_blk]) or not (item >= own[item] + 16 and item < own[item] + 16 + ite(own[item] == LAST(), AL(), CAP())*RS()))')], decreases='ite(cur_blk == 0, 0, rk[LAST()] - rk[cur_blk] + 1)')})
S.fn('free_mgr', params=['mp'], requires=INV, modifies=RF('initialized') + G,
  ensures=[('released', 'forall(a, own[a] == ite(old(BK)[old(own)[a]], 0, old(own)[a]), pat=own[a])'), ('closed', 'rec_struct.initialized[mp] == 0 and mem.p == old(mem.p)')],
  at={'entry': [('touch', 'bt(FIRST())', 'bt(LAST())')], 'loop0': [('touch', 'bt(p)', 'bt(FWD(p))')], 'before:Free': [('assert', 'old(BK)[arg0] and own[arg0] == arg0', 'each block once')]},
  loops={0: dict(inv=[('at', 'p == 0 or (BK[p] and bt(p))'), ('BK', 'BK == old(BK)'), ('gone', 'forall(a, own[a] == ite(bt(old(own)[a]) and BK[old(own)[a]] and (p == 0 or rk[old(own)[a]] < rk[p]), 0, old(own)[a]), pat=own[a])')], decreases='ite(p == 0, 0, rk[LAST()] - rk[p] + 1)')})
