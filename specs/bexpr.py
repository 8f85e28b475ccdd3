"""Contracts for src/bin/fl/bexpr.c: every node keeps denoting one Boolean function (its value under one arbitrary but
fixed assignment A), node pointers carry a complement tag in bit 2, and every operation returns the named function."""
from vexec import Spec
S = Spec()
S.units = ['src/bin/fl/bexpr.c']
S.options['defines'] = ('-DDEBUG',)
S.options['tag2'] = True
S.options['ignore_calls'] = ('FP', 'fprintf', 'fflush')
S.fn('voss_abort', params=[], trusted='does not return', noreturn=True)
S.ghost('nd', 'Set')        # the nodes (untagged)
S.ghost('D', 'Set')         # node -> its value
S.ghost('SV', 'Set')        # SAT variable -> its value in the (unique) extension of A to the auxiliary variables
S.ghost('NV', 'Int')        # number of SAT variables
S.ghost('FR', 'Set'); S.ghost('RK', 'Map')      # cells on the free list, with ranks
S.ghost('HU', 'Map')        # the unique table: key -> node
S.ghost('SG', 'Set')        # the nodes in the signature table
S.ghost('P0', 'Int')        # the argument record of be_find_insert
S.ghost('N0', 'Set'); S.ghost('DB', 'Set'); S.ghost('B', 'Set'); S.ghost('GS', 'Map'); S.ghost('RT', 'Map'); S.ghost('BS', 'Map'); S.ghost('BT', 'Map')     # substitutions
S.uf('A', ['Int'], 'Bool'); S.uf('sid', ['Int'], 'Int')         # variable (string contents) -> value; string pointer -> contents
S.uf('kv', ['Int'], 'Int'); S.uf('ka', ['Int', 'Int'], 'Int'); S.uf('k1', ['Int'], 'Int'); S.uf('k2', ['Int'], 'Int'); S.uf('kt', ['Int'], 'Int'); S.uf('nb', ['Int'], 'Bool')
S.axiom('keys', 'forall(s, k1(kv(s)) == s and kt(kv(s)) == 1, pat=kv(s)) and forall(l, r, k1(ka(l,r)) == l and k2(ka(l,r)) == r and kt(ka(l,r)) == 2, pat=ka(l,r)) and kt(0) == 0 and forall(o, nb(o), pat=nb(o))', 'keys of variables and conjunctions; trigger predicate')
F = 'bexpr_rec.'
NM, LE, RI = 'bexpr_rec_l.name', 'bexpr_rec_l.be', 'bexpr_rec.r'
OL = 'offs(bexpr_rec.l)'
S.define('TY', ['p'], 'bexpr_rec.type[p]')
S.define('NAME', ['p'], NM + '[p + %s]' % OL)
S.define('LEFT', ['p'], LE + '[p + %s]' % OL)
S.define('RIGHT', ['p'], 'bexpr_rec.r[p]')
S.define('IDX', ['p'], 'bexpr_rec.sat_idx[p]')
S.define('DEN', ['x'], 'ite(bit2(x) == 4, not D[pos2(x)], D[pos2(x)])')
S.define('OK', ['x'], 'x > 0 and nd[pos2(x)]')
S.define('LIT', ['i'], 'ite(i < 0, not SV[-(i)], SV[i])')
S.define('key', ['p'], 'ite(TY(p) == 1, kv(NAME(p)), ite(TY(p) == 2, ka(LEFT(p), RIGHT(p)), 0))')
INV = [('INV.node', 'forall(p, implies(nd[p], p > 0 and p < sp() and bit2(p) == 0 and pos2(p) == p and not FR[p] and 1 <= TY(p) and TY(p) <= 3), pat=nd[p])'),
  ('INV.idx', 'forall(p, implies(nd[p], (p != BE_TRUE or (TY(p) == 3 and D[p])) and (p == BE_TRUE or (TY(p) != 3 and 1 <= IDX(p) and IDX(p) <= NV and D[p] == SV[IDX(p)]))), pat=nd[p])'),
  ('INV.chain', 'forall(p, implies(nd[p], bexpr_rec.same_sig_list[p] == 0 or (nd[bexpr_rec.same_sig_list[p]] and bexpr_rec.same_sig_list[p] != BE_TRUE)), pat=nd[p])'),
  ('INV.sem', 'forall(p, implies(nd[p], (TY(p) != 1 or D[p] == A(NAME(p))) and (TY(p) != 2 or (OK(LEFT(p)) and OK(RIGHT(p)) and D[p] == (DEN(LEFT(p)) and DEN(RIGHT(p)))))), pat=nd[p])'),
  ('INV.const', 'nd[BE_TRUE] and TY(BE_TRUE) == 3 and BE_FALSE == flip2(BE_TRUE) and NV >= 0'),
  ('INV.free', '(free_list == 0 or FR[free_list]) and forall(q, implies(FR[q], q > 0 and q < sp() and bit2(q) == 0 and pos2(q) == q and not nd[q] and RK[q] >= 0 and (bexpr_rec.next[q] == 0 or (FR[bexpr_rec.next[q]] and RK[bexpr_rec.next[q]] < RK[q]))), pat=FR[q])'),
  ('INV.uniq', 'forall(k, implies(HU[k] != 0, nd[HU[k]] and key(HU[k]) == k), pat=HU[k])'),
  ('INV.sig', 'forall(p, implies(SG[p], nd[p] and p != BE_TRUE), pat=SG[p])')]
NODE = ['bexpr_rec.' + f for f in ('type', 'mark', 'has_bdd', 'height', 'sat_idx', 'next', 'r', 'same_sig_list', 'sig')] + [NM, LE]
MOD = NODE + ['nd', 'D', 'SV', 'NV', 'FR', 'RK', 'HU', 'SG', 'P0',  'free_list', 'mem.u64', 'bexpr_rec.bdd']
KEEP = [('kept', 'forall(p, implies(old(nd)[p], nd[p] and D[p] == old(D)[p] and TY(p) == old(TY(p)) and NAME(p) == old(NAME(p)) and LEFT(p) == old(LEFT(p)) and RIGHT(p) == old(RIGHT(p))), pat=[nd[p], old(nd)[p]])')]
# ---- equality of keys
S.fn('be_eq', requires=[('types', '1 <= TY(p1) and TY(p1) <= 3 and 1 <= TY(p2) and TY(p2) <= 3')], ensures=[('same key', '(result != 0) == (key(p1) == key(p2))')])
# ---- trusted neighbours
S.fn('new_rec', params=['m'], trusted='contract of rec.c (verified under P09): a record not in use, aligned to 8 bytes', ensures=['result > 0 and result < sp() and bit2(result) == 0 and pos2(result) == result and not nd[result] and not FR[result] and result != P0'])
S.fn('SAT_Add_Var', params=[], trusted='minisat: a new variable, which may have any value', modifies=['NV'], ensures=['result > old(NV) and NV == result'])
S.fn('SAT_Add_AND_Clauses', params=['l', 'r'], trusted='minisat: a new variable with clauses for l AND r', modifies=['NV', 'SV'], ensures=['result > old(NV) and NV == result', 'SV == store(old(SV), result, LIT(l) and LIT(r))'])
S.fn('SAT_and_is_same', params=['l', 'r', 'c'], trusted='minisat: unsatisfiable under assumptions means true in every extension of every assignment', ensures=['implies(result == 1, LIT(c) == (LIT(l) and LIT(r)))'])
S.fn('Find_model', params=['as_', 'n', 'limit'], trusted='minisat: unsatisfiable under assumptions means true in every extension of every assignment', ensures=['-1 <= result and result <= 2', 'implies(result <= 0 and n == 1, not LIT(mem.s32[as_]))'])
S.fn('wastrsave', params=['m', 's'], trusted='string table (verified under P09)', ensures=['result == sid(s)'])
S.fn('find_hash', params=['t', 'k'], trusted='contract of hash.c (verified under P09); be_eq decides equality of keys', ensures=['implies(t == addr(bexpr_uniq_tbl), result == HU[key(k)])', 'implies(t == addr(bexpr_sig_tbl), result == 0 or SG[result])',
   'implies(t == addr(res_tbl), result == RT[k])', 'implies(t == addr(gl_subst_tbl), result == GS[k])',
   'implies(t == addr(bexpr2bdd_sub_tbl), result == BS[k])', 'implies(t == addr(bdd2bexpr_tbl), result == BT[k])'])
S.fn('insert_hash', params=['t', 'k', 'd'], trusted='contract of hash.c (verified under P09)', modifies=['HU', 'SG', 'RT', 'BT'], requires=[('self', 't == addr(res_tbl) or t == addr(bdd2bexpr_tbl) or (k == d and d != 0)'), ('uniq', 't != addr(bexpr_uniq_tbl) or HU[key(k)] == 0')],
  ensures=['HU == ite(t == addr(bexpr_uniq_tbl), store(old(HU), key(k), d), old(HU))', 'SG == ite(t == addr(bexpr_sig_tbl), store(old(SG), d, True), old(SG))', 'RT == ite(t == addr(res_tbl), store(old(RT), k, d), old(RT))', 'BT == ite(t == addr(bdd2bexpr_tbl), store(old(BT), k, d), old(BT))'])
# ---- nodes
S.fn('mk_prandom', modifies=['mem.u32'], ensures=[('seed', 'mem.u32 == store(old(mem.u32), seedp, mem.u32[seedp])')])
S.fn('get_be_node', requires=INV+[('P0', 'not nd[P0] and not FR[P0]')], modifies=NODE + ['free_list', 'FR'],
  ensures=INV + [('new', 'result > 0 and result < sp() and bit2(result) == 0 and pos2(result) == result and not nd[result] and not FR[result] and result != P0 and TY(result) == 0 and bexpr_rec.same_sig_list[result] == 0'),
     ('P0', ' and '.join('%s[%s] == old(%s[%s])' % (m, a, m, a) for m, a in (('bexpr_rec.type', 'P0'), ('bexpr_rec.height', 'P0'), (LE, 'P0+' + OL), (NM, 'P0+' + OL), ('bexpr_rec.r', 'P0')))),
     ('idx', 'forall(q, implies(nd[q], IDX(q) == old(IDX(q)) and LEFT(q) == old(LEFT(q)) and RIGHT(q) == old(RIGHT(q)) and TY(q) == old(TY(q)) and NAME(q) == old(NAME(q))), pat=nd[q])')],
  at={'entry': [('touch', 'FR[free_list]', 'nd[free_list]')], 'exit': [('ghost_fun', 'FR', ('q',), 'old(FR)[q] and (old(free_list) == 0 or RK[q] < RK[old(free_list)])')]})
IX = lambda x: ('assert', '1 <= IDX(pos2(%s)) and IDX(pos2(%s)) <= 2147483647 and D[pos2(%s)] == SV[IDX(pos2(%s))]' % (x,x,x,x))
S.fn('check_for_eq_with_SAT', requires=INV + [('args', 'OK(l) and OK(r) and OK(c) and pos2(l) != BE_TRUE and pos2(r) != BE_TRUE and pos2(c) != BE_TRUE')], ensures=[('sound', 'implies(result != 0, DEN(c) == (DEN(l) and DEN(r)))')],
  at={'entry': [('touch', 'nd[pos2(l)]', 'nd[pos2(r)]', 'nd[pos2(c)]')], 'before:SAT_and_is_same': [IX('l'), IX('r'), IX('c'), ('assert', 'LIT(arg0) == DEN(l)'), ('assert', 'LIT(arg1) == DEN(r)'), ('assert', 'LIT(arg2) == DEN(c)')]})
S.fn('check_for_satisfaction_with_SAT', requires=INV + [('arg', 'OK(f)')], ensures=[('sound', 'implies(result != 0, not DEN(f))')], at={'entry': [('touch', 'nd[pos2(f)]')]})
NEW = lambda v: [('ghost', 'nd', 'store(nd, res, True)'), ('ghost', 'D', 'store(D, res, %s)' % v)]
STK = ('seed', 'forall(a, implies(a < sp(), mem.u32[a] == old(mem.u32)[a]), pat=mem.u32[a])')
OWN = ('own', 'P0 == p and not nd[p] and not FR[p] and p > 0')
S.fn('be_find_insert', requires=INV + [('rec', 'not nd[p] and not FR[p] and p > 0'), ('type', 'TY(p) == 1 or (TY(p) == 2 and OK(LEFT(p)) and OK(RIGHT(p)) and pos2(LEFT(p)) != BE_TRUE and pos2(RIGHT(p)) != BE_TRUE)')],
  ensures=INV + KEEP + [('node', 'nd[result]'), ('sem', 'D[result] == ite(old(TY(p)) == 1, A(old(NAME(p))), old(DEN(LEFT(p))) and old(DEN(RIGHT(p))))')], modifies=MOD,
  at={'entry': [('ghost', 'P0', 'p'), ('touch', 'HU[key(p)]', 'nd[HU[key(p)]]', 'nd[pos2(LEFT(p))]', 'nd[pos2(RIGHT(p))]')],
      'call:SAT_Add_Var': [('ghost', 'SV', 'store(SV, ret, A(name))')] + NEW('A(name)'),
      'loop2_pre': [IX('l'), IX('r'), ('assert', 'LIT(il) == DEN(l)'), ('assert', 'LIT(ir) == DEN(r)')],
      'before:SAT_Add_AND_Clauses': [('assert', 'LIT(arg0) == DEN(l)'), ('assert', 'LIT(arg1) == DEN(r)')],
      'call:SAT_Add_AND_Clauses': NEW('DEN(l) and DEN(r)'),
      },
  loops={0: dict(inv=[STK]), 1: dict(inv=[STK]), 2: dict(inv=[STK]), 3: dict(inv=[('cand', '(cand == 0 or (nd[cand] and cand != BE_TRUE)) and (last == 0 or (nd[last] and last != BE_TRUE))')]), 4: dict(inv=[])})
# ---- the operations
OKS = lambda *v: ('args', ' and '.join('OK(%s)' % x for x in v))
def OP(name, args, val, **kw):
    S.fn(name, requires=INV + ([OKS(*args)] if args else []), modifies=MOD + kw.pop('mod', []),
      ensures=INV + KEEP + [('ok', 'OK(result)'), ('value', 'DEN(result) == (%s)' % val)], at={'entry': [('touch', *['nd[pos2(%s)]' % a for a in args])]}, **kw)
D0 = lambda a: 'old(DEN(%s))' % a
OP('be_and', ['f1', 'f2'], 'old(DEN(f1)) and old(DEN(f2))')
S.fn('BE_One', requires=INV, ensures=[('one', 'OK(result) and DEN(result)')])
S.fn('BE_Zero', requires=INV, ensures=[('zero', 'OK(result) and not DEN(result)')])
S.fn('BE_Not', requires=INV + [OKS('f1')], ensures=[('ok', 'OK(result)'), ('value', 'DEN(result) == (not DEN(f1))')])
OP('BE_Var', [], 'A(sid(name))')
OP('BE_And', ['f1', 'f2'], 'old(DEN(f1)) and old(DEN(f2))')
OP('BE_Or', ['f1', 'f2'], 'old(DEN(f1)) or old(DEN(f2))')
OP('BE_Nor', ['f1', 'f2'], 'not (old(DEN(f1)) or old(DEN(f2)))')
OP('BE_Nand', ['f1', 'f2'], 'not (old(DEN(f1)) and old(DEN(f2)))')
OP('BE_Xor', ['f1', 'f2'], 'old(DEN(f1)) != old(DEN(f2))')
OP('BE_Xnor', ['f1', 'f2'], 'old(DEN(f1)) == old(DEN(f2))')
OP('BE_Ite', ['c', 't', 'e'], 'ite(old(DEN(c)), old(DEN(t)), old(DEN(e)))')
# ---- comparison
S.fn('be_sig_eq', ensures=[('reflexive', 'p1 != p2 or result != 0')], loops={0: dict(inv=[])})
S.fn('BE_NEQ', requires=INV + [OKS('f1', 'f2')], modifies=MOD, ensures=INV + KEEP + [('equal', 'result != 0 or old(DEN(f1)) == old(DEN(f2))')], at={'entry': [('touch', 'nd[pos2(f1)]', 'nd[pos2(f2)]')]})
S.fn('BE_Differs', requires=INV + [OKS('f1', 'f2')], modifies=MOD, ensures=INV + KEEP + [('equal', 'result != 0 or old(DEN(f1)) == old(DEN(f2))')], at={'entry': [('touch', 'nd[pos2(f1)]', 'nd[pos2(f2)]')]})
S.fn('BE_Equal', requires=INV + [OKS('f1', 'f2')], ensures=[('equal', 'result == 0 or DEN(f1) == DEN(f2)')])
# ---- substitution: N0 are the nodes of the expression, DB their values when the variables take the values B
S.define('DENB', ['x'], 'ite(bit2(x) == 4, not DB[pos2(x)], DB[pos2(x)])')
SUB = [('SUB.node', 'forall(p, implies(N0[p], nd[p] and (TY(p) != 1 or DB[p] == B[NAME(p)]) and (TY(p) != 3 or DB[p]) and (TY(p) != 2 or (N0[pos2(LEFT(p))] and N0[pos2(RIGHT(p))] and DB[p] == (DENB(LEFT(p)) and DENB(RIGHT(p)))))), pat=N0[p])')]
GSUB = [('SUB.var', 'forall(v, implies(GS[v] != 0, OK(GS[v]) and DEN(GS[v]) == B[v]) and implies(GS[v] == 0, A(v) == B[v]), pat=GS[v])'),
  ('SUB.res', 'forall(p, implies(RT[p] != 0, N0[p] and OK(RT[p]) and DEN(RT[p]) == DB[p]), pat=RT[p])')]
S.fn('be_subst', requires=INV + SUB + GSUB + [('arg', 'be > 0 and N0[pos2(be)]')], modifies=MOD + ['RT'], ensures=INV + KEEP + SUB + GSUB + [('ok', 'OK(result)'), ('value', 'DEN(result) == DENB(be)')],
  at={'entry': [('touch', 'N0[pos2(be)]', 'nd[pos2(be)]', 'nd[BE_TRUE]', 'RT[pos2(be)]', 'GS[NAME(pos2(be))]')]})
# ---- BDDs: V(f) is the value of a BDD under A
S.uf('V', ['Int'], 'Bool')
S.axiom('V', 'forall(x, V(flip31(x)) == (not V(x)), pat=flip31(x))', 'complementing a BDD reference complements its function (P03)')
S.fn('B_One', params=[], trusted='BDD package (P03)', ensures=['V(result)'])
S.fn('B_Zero', params=[], trusted='BDD package (P03)', ensures=['not V(result)'])
S.fn('B_Not', params=['f'], trusted='BDD package (P03)', ensures=['V(result) == (not V(f))'])
S.fn('B_And', params=['f', 'g'], trusted='BDD package (P03)', ensures=['V(result) == (V(f) and V(g))'])
S.fn('B_Var', params=['v'], trusted='BDD package (P03): the variable with this name', ensures=['V(result) == A(v)'])
S.fn('Get_top_cofactor', params=['b', 'vp', 'hp', 'lp'], trusted='BDD package: top variable and cofactors', modifies=['mem.p', 'mem.u32'], ensures=['mem.p == store(old(mem.p), vp, mem.p[vp]) and mem.u32 == store(store(old(mem.u32), hp, mem.u32[hp]), lp, mem.u32[lp])', 'V(b) == ite(A(sid(mem.p[vp])), V(mem.u32[hp]), V(mem.u32[lp]))'])
S.fn('PUSH_BDD_GC', params=['f'], trusted='GC roots'); S.fn('POP_BDD_GC', params=['n'], trusted='GC roots')
S.fn('Do_garbage_collect', params=[], trusted='keeps the nodes and BDDs of the expression that is being translated (reachable from the graph; BE_Mark)')
S.define('GB', ['g'], '((g_rec.R[g] - g_rec.R[g] % 4) // 4) % 2**32')
SUBB = [('SUB.node', 'forall(p, implies(N0[p], p > 0 and bit2(p) == 0 and pos2(p) == p and (p == BE_TRUE or TY(p) != 3) and 1 <= TY(p) and TY(p) <= 3 and (TY(p) != 1 or DB[p] == B[NAME(p)]) and (TY(p) != 3 or DB[p]) and (TY(p) != 2 or (N0[pos2(LEFT(p))] and N0[pos2(RIGHT(p))] and LEFT(p) > 0 and RIGHT(p) > 0 and DB[p] == (DENB(LEFT(p)) and DENB(RIGHT(p)))))), pat=N0[p])'),
  ('SUB.const', 'N0[BE_TRUE] and TY(BE_TRUE) == 3 and BE_FALSE == flip2(BE_TRUE)'),
  ('SUB.var', 'forall(v, implies(BS[v] != 0, V(GB(BS[v])) == B[v]) and implies(BS[v] == 0, A(v) == B[v]), pat=BS[v])'),
  ('SUB.cache', 'forall(p, implies(N0[p] and bexpr_rec.has_bdd[p] != 0, V(bexpr_rec.bdd[p]) == DB[p]), pat=N0[p])')]
S.fn('be2bdd', requires=SUBB + [('arg', 'be > 0 and N0[pos2(be)]')], modifies=['bexpr_rec.has_bdd', 'bexpr_rec.bdd'], ensures=SUBB + [('value', 'V(result) == DENB(be)')],
  at={'entry': [('touch', 'N0[pos2(be)]', 'N0[BE_TRUE]', 'BS[NAME(pos2(be))]')]})
S.fn('bdd2bexpr', requires=INV + [('memo', 'forall(f, implies(BT[f] != 0, OK(BT[f]) and DEN(BT[f]) == V(f)), pat=BT[f])')], modifies=MOD + ['BT'],
  ensures=INV + KEEP + [('memo', 'forall(f, implies(BT[f] != 0, OK(BT[f]) and DEN(BT[f]) == V(f)), pat=BT[f])'), ('ok', 'OK(result)'), ('value', 'DEN(result) == V(f)')], at={'entry': [('touch', 'BT[f]', 'BT[flip31(f)]', 'V(flip31(f))', 'nd[BE_TRUE]')]})
# ---- the structure-mapped operations of fl (leaf functions of Gen_map / Gen_map2)
S.uf('bvor64u', ['Int', 'Int'], 'Int')
S.axiom('or', 'forall(x, y, implies(0 <= x and 0 <= y and y < 2**64, (x >= 4 or bvor64u(x,y) - bvor64u(x,y) % 4 == y - y % 4) and (y >= 4 or bvor64u(x,y) - bvor64u(x,y) % 4 == x - x % 4) and 0 <= bvor64u(x,y) and (x >= 2**64 or bvor64u(x,y) < 2**64)), pat=bvor64u(x,y))', 'bitwise or with a number below 4 changes only the two lowest bits')
S.define('BX', ['g'], 'g_rec.R[g] - g_rec.R[g] % 4')
S.define('ISB', ['g'], '((g_rec.L[g] - g_rec.L[g] % 8) // 8) % 8 == 3')
S.fn('Make_BEXPR_leaf', params=['f'], trusted='graph.c: a leaf holding f', modifies=['g_rec.R', 'g_rec.L'], ensures=['BX(result) == f'])
GM = MOD + ['g_rec.R', 'g_rec.L']
AL = ('args', 'OK(BX(l)) and OK(BX(r))')
for n, v in (('and', 'old(DEN(BX(l))) and old(DEN(BX(r)))'), ('or', 'old(DEN(BX(l))) or old(DEN(BX(r)))'), ('ite', 'ite(old(DEN(current_bexpr_cond)), old(DEN(BX(l))), old(DEN(BX(r))))')):
    S.fn('g_be_' + n, requires=INV + [AL, ('leaf', 'ISB(l)')] + ([('cond', 'OK(current_bexpr_cond)')] if n == 'ite' else []), modifies=GM, ensures=INV + KEEP + [('value', 'OK(BX(result)) and DEN(BX(result)) == (%s)' % v)], at={'entry': [('touch', 'nd[pos2(BX(l))]', 'nd[pos2(BX(r))]')], 'call:BE_And' if n == 'and' else 'call:BE_Or': [('assert', 'OK(ret)'), ('assert', 'DEN(ret) == (%s)' % v)],
      'exit': [('assert', 'BX(result) == bres')]})
S.fn('g_be_not', requires=INV + [('arg', 'OK(BX(np))'), ('leaf', 'ISB(np)')], modifies=['g_rec.R', 'g_rec.L'], ensures=[('value', 'OK(BX(result)) and DEN(BX(result)) == (not old(DEN(BX(np))))')])
S.fn('g_be_eq', requires=INV + [AL, ('leaf', 'ISB(l)'), ('acc', 'OK(current_bexpr_eq)')], modifies=MOD + ['current_bexpr_eq'], ensures=INV + KEEP + [('value', 'OK(current_bexpr_eq) and DEN(current_bexpr_eq) == (old(DEN(current_bexpr_eq)) and old(DEN(BX(l))) == old(DEN(BX(r))))')], at={'entry': [('touch', 'nd[pos2(BX(l))]', 'nd[pos2(BX(r))]', 'nd[pos2(current_bexpr_eq)]')]})
S.fn('top_be_subst', requires=INV + SUB + GSUB + [('arg', 'BX(np) > 0 and N0[pos2(BX(np))]'), ('leaf', 'ISB(np)')], modifies=MOD + ['RT', 'g_rec.R', 'g_rec.L'], ensures=INV + KEEP + SUB + GSUB + [('value', 'OK(BX(result)) and DEN(BX(result)) == old(DENB(BX(np)))')])
