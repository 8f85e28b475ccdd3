"""Contracts for the core of src/bin/fl/new_bdd.c: node store, unique table, Boolean operations."""
from vexec import Spec
S = Spec()
S.units = ['src/bin/fl/new_bdd.c']
S.sorts = ['Env']
S.options['ignore_calls'] = ('FP', 'Serve_Interrupt')
LN = 2**31 - 1
S.consts.update(LNULL=LN, TOP=2**31, AND_=1, OR_=2, XOR_=3)

# ---- ghost state -------------------------------------------------------
S.ghost('used', 'Set')            # node index is allocated
S.ghost('val', 'Array Int (Array Env Bool)')   # meaning of the (regular) node, for every assignment
S.ghost('D', 'Map')               # rank of a node in its unique-table chain
S.ghost('free', 'Set')            # members of the free list
#S.ghost('fd', 'Map')              # rank of a node in the free list
S.ghost('uo', 'Map')              # owner (variable) of a unique-table cell
S.ghost('lev', 'Map')             # spare
S.ghost('incache', 'Set')         # records in the operation cache
S.ghost('newv', 'Array Env Bool')
S.ghost('qs', 'Array Int (Array Int Bool)')   # variables on the first-branch path of a node (the set a quantifier cube denotes)
S.ghost('brk', 'Int')             # everything allocated so far lies below
S.uf('nd', ['Int'], 'Bool')        # trigger marker: node under consideration
S.uf('envv', ['Env', 'Int'], 'Bool')
S.uf('huf', ['Int', 'Int', 'Int'], 'Int')      # the hash function, uninterpreted
S.axiom('huf range', 'forall(l, r, n, implies(n > 0, 0 <= huf(l,r,n) and huf(l,r,n) < n), pat=huf(l,r,n))', 'proved as the contract of uniq_hash_fn')

S.define('np', ['i'], 'at(MainTbl, i, 16)')
S.define('vpp', ['v'], 'at(VarTbl, v, 32)')
S.define('L', ['i'], 'bdd_rec.lson[np(i)]')
S.define('R', ['i'], 'bdd_rec.rson[np(i)]')
S.define('VAR', ['i'], 'bdd_rec.var[np(i)]')
S.define('NX', ['i'], 'bdd_rec.next[np(i)]')
S.define('UT', ['v'], 'var_rec.uniq_tbl[vpp(v)]')
S.define('SZ', ['v'], 'var_rec.sz_uniq_tbl[vpp(v)]')
S.define('ORD', ['v'], 'var_rec.variable[vpp(v)]')
S.define('cell', ['v', 'h'], 'mem.u32[at(UT(v), h, 4)]')
S.define('H', ['i'], 'huf(L(i), R(i), SZ(VAR(i)))')
S.define('nt', ['i'], 'used[i] and i != 0')            # nonterminal in use
S.define('neg', ['f'], 'f >= TOP')
S.define('den', ['f', 'e'], 'val[pos31(f)][e] ^ neg(f)')
S.define('valid', ['f'], '0 <= f and f < 2*TOP and used[pos31(f)]')
S.define('pord', ['f'], 'ite(pos31(f) == 0, 4294967296, ORD(VAR(pos31(f))))')   # order position of the top variable
S.define('below', ['v', 'f'], 'ORD(v) < pord(f)')
# ---- invariants ---------------------------------------------------------
S.define('I_glob', [], '''ZERO == 0 and ONE == TOP and 0 < sz_MainTbl and sz_MainTbl <= 1073741824 and 0 < MainTbl and MainTbl + 16*sz_MainTbl <= brk and 0 < VarTbl
   and 0 <= nbr_VarTbl and nbr_VarTbl <= sz_VarTbl and sz_VarTbl <= 262144 and VarTbl + 32*sz_VarTbl <= brk and used[0]''')
S.define('I_used', [], 'forall(i, implies(used[i], 0 <= i and i < sz_MainTbl), pat=used[i])')
S.define('I_node', [], '''forall(i, implies(used[i] and i != 0, VAR(i) < nbr_VarTbl and L(i) < TOP and used[L(i)] and used[pos31(R(i))] and L(i) != R(i)
      and (pos31(L(i)) == 0 or ORD(VAR(i)) < ORD(VAR(L(i)))) and (pos31(R(i)) == 0 or ORD(VAR(i)) < ORD(VAR(pos31(R(i)))))), pat=nd(i))''')
S.define('I_sem', [], '''forall(i, e("Env"), implies(used[i] and i != 0, val[i][e] == ite(envv(e, VAR(i)), den(L(i), e), den(R(i), e))), pat=(nd(i), envm(e)))
      and forall(e("Env"), not val[0][e], pat=val[0][e])''')
S.define('I_free', [], '''0 <= b_free_list and b_free_list < TOP and (b_free_list == LNULL or free[b_free_list]) and
   forall(i, implies(free[i], 0 < i and i < sz_MainTbl and not used[i] and (NX(i) == LNULL or (free[NX(i)] and NX(i) != b_free_list))), pat=nd(i)) and
   forall(i, j, implies(free[i] and free[j] and NX(i) == NX(j) and NX(i) != LNULL, i == j), pat=(nd(i), nd(j)))''')
S.define('I_var', [], 'forall(v, implies(0 <= v and v < nbr_VarTbl, SZ(v) > 0 and 0 < UT(v) and UT(v) + 4*SZ(v) <= brk), pat=SZ(v))')
S.define('I_own', [], 'forall(v, h, implies(0 <= v and v < nbr_VarTbl and 0 <= h and h < SZ(v), uo[at(UT(v), h, 4)] == v), pat=at(UT(v), h, 4))')
S.define('I_head', [], '''forall(v, h, implies(0 <= v and v < nbr_VarTbl and 0 <= h and h < SZ(v),
     cell(v,h) == LNULL or (nt(cell(v,h)) and VAR(cell(v,h)) == v and H(cell(v,h)) == h)), pat=cell(v,h))''')
S.define('I_chain', [], '''forall(i, implies(nt(i),
      cell(VAR(i), H(i)) != LNULL and D[i] <= D[cell(VAR(i), H(i))]
      and (NX(i) == LNULL or (nt(NX(i)) and VAR(NX(i)) == VAR(i) and H(NX(i)) == H(i) and D[NX(i)] < D[i]))), pat=nd(i))''')
S.define('I_rank', [], '''forall(i, j, implies(nt(i) and nt(j) and VAR(i) == VAR(j) and H(i) == H(j) and i != j,
      D[i] != D[j] and implies(D[j] < D[i], NX(i) != LNULL and D[j] <= D[NX(i)])), pat=(nd(i), nd(j)))''')
S.define('I_qs', [], '''forall(i, implies(nt(i), qs[i] == store(qs[L(i)], VAR(i), True)), pat=nd(i)) and
   forall(i, v, implies(nt(i) and qs[i][v], ORD(VAR(i)) <= ORD(v)), pat=(nd(i), qs[i][v])) and forall(v, not qs[0][v], pat=qs[0][v])''')
S.define('I_uniq', [], 'forall(i, j, implies(nt(i) and nt(j) and VAR(i) == VAR(j) and L(i) == L(j) and R(i) == R(j), i == j), pat=(nd(i), nd(j)))')

INV = [('INV.glob', 'I_glob'), ('INV.used', 'I_used'), ('INV.ord', 'I_ord'), ('INV.node', 'I_node'), ('INV.sem', 'I_sem'), ('INV.qs', 'I_qs'), ('INV.free', 'I_free'),
       ('INV.var', 'I_var'), ('INV.own', 'I_own'), ('INV.head', 'I_head'), ('INV.chain', 'I_chain'), ('INV.rank', 'I_rank'), ('INV.uniq', 'I_uniq')]
S.options['tagged'] = ['I_ord', 'I_node', 'I_sem', 'I_qs', 'I_free', 'I_var', 'I_own', 'I_head', 'I_chain', 'I_rank', 'I_uniq']
S.options['needs'] = [(r'INV\.(glob|used|free)', ['I_free']), (r'INV\.node', ['I_node', 'I_free']), (r'INV\.sem', ['I_node', 'I_sem', 'I_free']), (r'INV\.qs', ['I_node', 'I_qs', 'I_free']), (r'INV\.(var|own)', ['I_var', 'I_own']),
  (r'INV\.head', ['I_head', 'I_own', 'I_var', 'I_node', 'I_free']), (r'INV\.chain', ['I_head', 'I_own', 'I_var', 'I_node', 'I_free', 'I_chain']), (r'INV\.rank', ['I_head', 'I_own', 'I_var', 'I_node', 'I_free', 'I_chain', 'I_rank']),
  (r'INV\.uniq', ['I_head', 'I_chain', 'I_uniq', 'I_free', 'I_node']), (r'INV\.cache', ['I_node', 'I_sem', 'I_ord'])]
# nodes once created never change meaning, structure or variable
GROW = [('old-nodes', 'forall(i, implies(old(used)[i], used[i] and L(i) == old(L(i)) and R(i) == old(R(i)) and VAR(i) == old(VAR(i)) and val[i] == old(val)[i] and qs[i] == old(qs)[i]), pat=[old(used)[i], used[i], nd(i)])'),
        ('old-vars', 'forall(v, implies(0 <= v and v < nbr_VarTbl, ORD(v) == old(ORD(v))), pat=ORD(v))'),
        ('same-vars', 'nbr_VarTbl == old(nbr_VarTbl) and VarTbl == old(VarTbl) and sz_VarTbl == old(sz_VarTbl)'),
        ('brk', 'brk >= old(brk)')]
NODE_MODS = ['bdd_rec.lson', 'bdd_rec.rson', 'bdd_rec.var', 'bdd_rec.next', 'bdd_rec.in_use', 'bdd_rec.mark', 'bdd_rec.sz_mark', 'bdd_rec.moving', 'bdd_rec.ref_cnt',
             'MainTbl', 'sz_MainTbl', 'b_free_list', 'nodes_used', 'Do_gc_asap', 'insist_on_reorder', 'want_to_grow_uniq_tbl', 'mem.u32',
             'var_rec.nbr_uniq_tbl', 'var_rec.uniq_tbl', 'var_rec.sz_uniq_tbl', 'used', 'val', 'qs', 'D', 'free', 'uo', 'brk']

# ---- leaves --------------------------------------------------------------
S.fn('uniq_hash_fn', params=['l', 'r', 'n'], requires=['n > 0'], ensures=[('range', '0 <= result and result < n')], pure=True, pure_result='huf(l, r, n)')
#S.fn('Serve_Interrupt', trusted='user-interrupt service routine: does not touch the BDD store (may also not return)', modifies=['Interrupt_asap'])
S.fn('inc_ref_cnt', params=['f'], requires=[], ensures=[('count', 'bdd_rec.ref_cnt == store(old(bdd_rec.ref_cnt), np(pos31(f)), ite(old(bdd_rec.ref_cnt)[np(pos31(f))] < 1023, old(bdd_rec.ref_cnt)[np(pos31(f))] + 1, 1023))')], modifies=['bdd_rec.ref_cnt'])
S.fn('Realloc', params=['p', 'n'], trusted='libc realloc, for the node table: contents are kept, the new block is disjoint from everything live; requests above 16 GiB fail and end the program',
     ensures=['result > 0', 'result >= old(brk)', 'brk == result + n', ('limit', 'n <= 17179869184')] +
       [('copy', 'forall(k, implies(0 <= k and k < old(sz_MainTbl)' + ', bdd_rec.%s[at(result,k,16)] == old(bdd_rec.%s[at(p,k,16)])), pat=bdd_rec.%s[at(result,k,16)])' % (f, f, f))
          for f in ('lson', 'rson', 'var', 'next')],
     modifies=['brk', 'bdd_rec.lson', 'bdd_rec.rson', 'bdd_rec.var', 'bdd_rec.next', 'bdd_rec.in_use', 'bdd_rec.mark', 'bdd_rec.sz_mark', 'bdd_rec.moving', 'bdd_rec.ref_cnt'])
S.fn('Malloc', params=['n'], trusted='libc malloc (aborts on failure): a fresh block', ensures=['result > 0', 'result >= old(brk)', 'brk == result + n'], modifies=['brk'])
S.fn('Free', params=['p'], trusted='libc free')

# ---- table growth -----------------------------------------------------------
S.fn('grow_MainTbl', params=[], requires=INV + [('empty', 'b_free_list == LNULL')],
     ensures=INV + GROW + [('nonempty', 'b_free_list != LNULL'), ('same', 'used == old(used) and val == old(val) and qs == old(qs) and D == old(D) and uo == old(uo)'),
             ('next kept', 'forall(i, implies(used[i], NX(i) == old(NX(i))), pat=[used[i], nd(i)])')],
     modifies=['MainTbl', 'sz_MainTbl', 'b_free_list', 'Do_gc_asap', 'insist_on_reorder', 'free', 'brk',
               'bdd_rec.lson', 'bdd_rec.rson', 'bdd_rec.var', 'bdd_rec.next', 'bdd_rec.in_use', 'bdd_rec.mark', 'bdd_rec.sz_mark', 'bdd_rec.moving', 'bdd_rec.ref_cnt'],
     at={'loop0_pre': [('ghost', 'free', 'constmap(False)')],
         'loop0': [('touch', 'nd(b_free_list)', 'nd(i)')], 'loop0_end': [('ghost', 'free', 'store(free, b_free_list, True)')]},
     loops={0: dict(inv=[
        ('idx', 'osize - 1 <= i and i < sz_MainTbl and new == np(i) and otop == np(osize)'),
        ('size', 'sz_MainTbl == 2*osize and osize == old(sz_MainTbl) and 0 < osize'),
        ('fl', '(b_free_list == LNULL and i == sz_MainTbl - 1) or (b_free_list == i + 1 and i + 1 < sz_MainTbl and free[b_free_list])'),
        ('free', 'forall(k, implies(free[k], i < k and k < sz_MainTbl and (NX(k) == LNULL or (free[NX(k)] and NX(k) == k + 1))), pat=nd(k))'),
        ('keep', 'forall(k, implies(0 <= k and k < osize, L(k) == old(L(k)) and R(k) == old(R(k)) and VAR(k) == old(VAR(k)) and NX(k) == old(NX(k))), pat=nd(k))'),
     ])})
S.define('vno', ['vp'], 'idx(vp, VarTbl, 32)')
S.define('vn', [], 'idx(vp, VarTbl, 32)')
S.define('H0', ['k'], 'huf(L(k), R(k), old(SZ(vno(vp))))')
S.define('H1', ['k'], 'huf(L(k), R(k), new_sz_uniq_tbl)')
S.define('C0', ['h'], 'old(cell(vno(vp), h))')
S.define('C1', ['h'], 'mem.u32[at(new_uniq_tbl, h, 4)]')
S.ghost('mv', 'Set'); S.ghost('D1', 'Map')
GU = [('sizes', 'new_sz_uniq_tbl > 0 and 0 < new_uniq_tbl and new_uniq_tbl >= old(brk) and new_uniq_tbl + 4*new_sz_uniq_tbl == brk and vp == vpp(vn) and 0 <= vn and vn < nbr_VarTbl'),
      ('old cells', 'forall(v, h, implies(0 <= v and v < nbr_VarTbl and 0 <= h and h < SZ(v), cell(v, h) == old(cell(v, h))), pat=cell(v,h))')]
GU2 = GU + [
      ('moved', 'forall(k, implies(mv[k], nt(k) and VAR(k) == vn and C1(H1(k)) != LNULL and D1[k] <= D1[C1(H1(k))] and (NX(k) == LNULL or (mv[NX(k)] and H1(NX(k)) == H1(k) and D1[NX(k)] < D1[k]))), pat=nd(k))'),
      ('ranks', 'forall(i, j, implies(mv[i] and mv[j] and H1(i) == H1(j) and i != j, D1[i] != D1[j] and implies(D1[j] < D1[i], NX(i) != LNULL and D1[j] <= D1[NX(i)])), pat=(nd(i), nd(j)))'),
      ('heads', 'forall(h, implies(0 <= h and h < new_sz_uniq_tbl, C1(h) == LNULL or (mv[C1(h)] and H1(C1(h)) == h)), pat=C1(h))'),
      ('others', 'forall(k, implies(not mv[k], NX(k) == old(NX(k))), pat=[NX(k), mv[k]])')]
S.fn('grow_uniq_tbl', params=['vp'], requires=INV + [('vp', '0 <= vno(vp) and vno(vp) < nbr_VarTbl and vp == vpp(vno(vp))')],
     ensures=INV + GROW + [('same', 'used == old(used)')],
     modifies=['want_to_grow_uniq_tbl', 'mem.u32', 'var_rec.uniq_tbl', 'var_rec.sz_uniq_tbl', 'bdd_rec.next', 'D', 'uo', 'brk', 'mv', 'D1'],
     at={'before:Malloc': [('assume', 'new_sz_uniq_tbl > 0')],   # the primes table has an entry beyond every size in use, and its entries fit 32 bits
         'loop1_pre': [('ghost_fun', 'uo', ('a',), 'ite(new_uniq_tbl <= a and a < new_uniq_tbl + 4*new_sz_uniq_tbl, vn, uo[a])')],
         'loop2_pre': [('ghost', 'mv', 'constmap(False)')],
         'loop3': [('touch', 'nd(cur)', 'nd(C1(H1(cur)))', 'nd(NX(cur))')],
         'loop3_end': [('ghost', 'mv', 'store(mv, head(cur), True)'), ('ghost', 'D1', 'store(D1, head(cur), ite(NX(head(cur)) == LNULL, 0, D1[NX(head(cur))] + 1))')],
         'before:Free': [('ghost_fun', 'D', ('k',), 'ite(mv[k], D1[k], old(D)[k])')]},
     loops={0: dict(inv=['0 <= i']), 1: dict(inv=GU + [('clear', 'i <= new_sz_uniq_tbl and forall(h, implies(0 <= h and h < i, C1(h) == LNULL), pat=C1(h))')]),
        2: dict(inv=GU2 + [('bucket', 'i <= SZ(vn) and forall(k, implies(nt(k) and VAR(k) == vn, ite(mv[k], H0(k) < i, H0(k) >= i)), pat=nd(k))')]),
        3: dict(inv=GU2 + [('bucket', """i < SZ(vn) and (cur == LNULL or (nt(cur) and VAR(cur) == vn and H0(cur) == i and not mv[cur])) and
            forall(k, implies(nt(k) and VAR(k) == vn, ite(mv[k], H0(k) < i or (H0(k) == i and (cur == LNULL or D[k] > D[cur])), H0(k) >= i and implies(H0(k) == i, cur != LNULL and D[k] <= D[cur]))), pat=nd(k))""")])})

# ---- the unique table --------------------------------------------------------
S.define('FI', [], 'at_label("ins", b_free_list)')
def same(k, *xs): return ' and '.join('%s == at_label("ins", %s)' % (x, x) for x in xs)
CUT = ('cut', 'ins', ['bdd_rec.lson', 'bdd_rec.rson', 'bdd_rec.var', 'bdd_rec.next', 'bdd_rec.in_use', 'bdd_rec.mark', 'bdd_rec.sz_mark', 'bdd_rec.moving', 'bdd_rec.ref_cnt',
     'b_free_list', 'nodes_used', 'mem.u32', 'var_rec.nbr_uniq_tbl', 'used', 'val', 'qs', 'D', 'free'], [
   ('node', 'nd(FI) == nd(FI) and L(FI) == lson and R(FI) == rson and VAR(FI) == var and NX(FI) == at_label("ins", head0) and ret == FI'),
   ('free list', 'b_free_list == at_label("ins", NX(b_free_list))'),
   ('others', 'forall(k, implies(k != FI, %s), pat=[L(k), R(k), VAR(k), NX(k)])' % same('k', 'L(k)', 'R(k)', 'VAR(k)', 'NX(k)')),
   ('ghost', 'used == store(at_label("ins", used), FI, True) and free == store(at_label("ins", free), FI, False) and val == store(at_label("ins", val), FI, newv) and qs == store(at_label("ins", qs), FI, store(at_label("ins", qs)[pos31(lson)], var, True)) and D == store(at_label("ins", D), FI, at_label("ins", ite(head0 == LNULL, 0, D[head0] + 1)))'),
   ('cells', 'forall(v, h, implies(0 <= v and v < nbr_VarTbl and 0 <= h and h < SZ(v), cell(v, h) == ite(v == var and h == hash, FI, at_label("ins", cell(v, h)))), pat=cell(v,h))'),
 ])
S.fn('find_insert_bdd', params=['vp', 'lson', 'rson'],
     requires=INV + [('vp', '0 <= vno(vp) and vno(vp) < nbr_VarTbl and vp == vpp(vno(vp)) and vno(vp) < 262144'), ('lson', 'valid(lson)'), ('rson', 'valid(rson)'),
        ('order', 'below(vno(vp), lson) and below(vno(vp), rson)')],
     ensures=INV + GROW + [('valid', 'valid(result)'),
        ('meaning', 'forall(e("Env"), den(result, e) == ite(envv(e, vno(vp)), den(lson, e), den(rson, e)), pat=envm(e))'),
        ('top', 'lson == rson or VAR(pos31(result)) == vno(vp) and pos31(result) != 0'),
        ('reduced', 'implies(lson == rson, result == lson)')],
     modifies=NODE_MODS + ['newv', 'mv', 'D1', 'Interrupt_asap'],
     at={'entry': [('touch', 'nd(pos31(lson))', 'nd(pos31(rson))', 'nd(b_free_list)')],
         'call:grow_MainTbl': [('touch', 'nd(b_free_list)'), ('label', 'ins')],
         'loop0': [('touch', 'nd(cur)')], 'loop0_exit': [('label', 'ins')], 'before:grow_uniq_tbl': [CUT], 'return': [CUT],
         'before:grow_MainTbl': [('touch', 'nd(b_free_list)')], 'before:inc_ref_cnt': [('touch', 'nd(NN)', 'nd(head0)', 'nd(NX(NN))'),
            ('ghost_fun', 'newv', (('e', 'Env'),), 'ite(envv(e, var), den(lson, e), den(rson, e))'),
            ('ghost', 'val', 'ite(used[NN], val, store(val, NN, newv))'),
            ('ghost', 'qs', 'ite(used[NN], qs, store(qs, NN, store(qs[pos31(lson)], var, True)))'),
            ('ghost', 'D', 'ite(used[NN], D, store(D, NN, ite(head0 == LNULL, 0, D[head0] + 1)))'),
            ('ghost', 'free', 'store(free, NN, False)'), ('ghost', 'used', 'store(used, NN, True)')]},
     loops={0: dict(inv=[
        ('cur', 'cur == LNULL or (nt(cur) and VAR(cur) == var and H(cur) == hash)'),
        ('skipped', 'forall(i, implies(nt(i) and VAR(i) == var and L(i) == lson and R(i) == rson, cur != LNULL and D[i] <= D[cur]), pat=nd(i))')])})
S.define('NN', [], 'idx(bp, MainTbl, 16)')
S.define('head0', [], 'cell(var, hash)')
# ---- quantification over a set of variables, defined by existence of an assignment -----------------
EB = 'Array Env Bool'
S.uf('agr', ['Env', 'Env', 'Set'], 'Bool'); S.uf('agd', ['Env', 'Env', 'Set'], 'Int')     # the two assignments agree outside the set
S.uf('Q', ['Int', 'Set', EB, 'Env'], 'Bool'); S.uf('qw', ['Int', 'Set', EB, 'Env'], 'Env')   # Q(4,S,p,e): for all, Q(5,S,p,e): there is an assignment agreeing with e outside S that satisfies p
S.uf('upd', ['Env', 'Int', 'Bool'], 'Env'); S.uf('negp', [EB], EB); S.uf('andp', [EB, EB], EB); S.uf('qdefs', ['Int'], 'Bool'); S.uf('edif', ['Env', 'Env'], 'Int')
DEFN = 'definition of quantification and of assignments as functions from variables to truth values'
S.axiom('agree', 'forall(e("Env"), f("Env"), s("Set"), ite(agr(e,f,s), True, not s[agd(e,f,s)] and envv(e,agd(e,f,s)) != envv(f,agd(e,f,s))), pat=agr(e,f,s)) and forall(e("Env"), f("Env"), s("Set"), v, implies(agr(e,f,s), s[v] or envv(e,v) == envv(f,v)), pat=[(agr(e,f,s), envv(e,v)), (agr(e,f,s), envv(f,v))])', DEFN, on=('qdefs',))
S.axiom('exists', 'forall(s("Set"), p("Array Env Bool"), e("Env"), implies(Q(5,s,p,e), agr(e,qw(5,s,p,e),s) and p[qw(5,s,p,e)]), pat=Q(5,s,p,e)) and forall(s("Set"), p("Array Env Bool"), e("Env"), f("Env"), implies(agr(e,f,s) and p[f], Q(5,s,p,e)), pat=(Q(5,s,p,e), agr(e,f,s)))', DEFN, on=('qdefs',))
S.axiom('forall', 'forall(s("Set"), p("Array Env Bool"), e("Env"), implies(not Q(4,s,p,e), agr(e,qw(4,s,p,e),s) and not p[qw(4,s,p,e)]), pat=Q(4,s,p,e)) and forall(s("Set"), p("Array Env Bool"), e("Env"), f("Env"), implies(agr(e,f,s) and not p[f], not Q(4,s,p,e)), pat=(Q(4,s,p,e), agr(e,f,s)))', DEFN, on=('qdefs',))
S.axiom('update', 'forall(e("Env"), v, b("Bool"), w, envv(upd(e,v,b), w) == ite(w == v, b, envv(e,w)), pat=envv(upd(e,v,b), w))', DEFN)
S.axiom('extensional', 'forall(e("Env"), f("Env"), envv(e,edif(e,f)) != envv(f,edif(e,f)) or e == f, pat=edif(e,f))', DEFN, on=('edif',))
S.axiom('negation', 'forall(p("Array Env Bool"), e("Env"), negp(p)[e] == (not p[e]), pat=negp(p)[e])', DEFN)
S.axiom('conjunction', 'forall(p("Array Env Bool"), r("Array Env Bool"), e("Env"), andp(p,r)[e] == (p[e] and r[e]), pat=andp(p,r)[e])', DEFN)
S.define('qt', ['t'], 't == 4 or t == 5')
S.define('indep', ['p', 'x'], 'forall(g("Env"), b("Bool"), p[upd(g,x,b)] == p[g], pat=p[upd(g,x,b)])')
S.lemma('Q_empty', [('t', 'Int'), ('s', 'Set'), ('p', EB), ('e', 'Env')], ['qt(t)', 'forall(v, not s[v], pat=s[v])'], ['Q(t,s,p,e) == p[e]'],
   use=['qdefs(0)', 'touch(agr(e,e,s), edif(e, qw(t,s,p,e)))'])
S.lemma('Q_irrelevant', [('t', 'Int'), ('s', 'Set'), ('x', 'Int'), ('p', EB), ('e', 'Env')], ['qt(t)', 'indep(p, x)'], ['Q(t,store(s,x,True),p,e) == Q(t,s,p,e)'],
   use=['qdefs(0)', 'touch(agr(e, qw(t,s,p,e), store(s,x,True)), p[upd(qw(t,store(s,x,True),p,e), x, envv(e,x))], agr(e, upd(qw(t,store(s,x,True),p,e), x, envv(e,x)), s))'])
S.define('shannon', ['p', 'x', 'p1', 'p0'], 'forall(g("Env"), p[g] == ite(envv(g,x), p1[g], p0[g]), pat=p[g]) and forall(g("Env"), p[g] == ite(envv(g,x), p1[g], p0[g]), pat=(p1[g], envv(g,x))) and forall(g("Env"), p[g] == ite(envv(g,x), p1[g], p0[g]), pat=(p0[g],envv(g,x)))')
S.lemma('Q_above', [('t', 'Int'), ('s', 'Set'), ('x', 'Int'), ('p', EB), ('p1', EB), ('p0', EB), ('e', 'Env')], ['qt(t)', 'shannon(p,x,p1,p0)', 'not s[x]'],
   ['Q(t,s,p,e) == ite(envv(e,x), Q(t,s,p1,e), Q(t,s,p0,e))'],
   use=['qdefs(0)', 'touch(envv(qw(t,s,p,e),x), envv(qw(t,s,p1,e),x), envv(qw(t,s,p0,e),x), p[qw(t,s,p1,e)], p[qw(t,s,p0,e)], p1[qw(t,s,p,e)], p0[qw(t,s,p,e)])'])
S.define('comb', ['t', 'a', 'b'], 'ite(t == 4, a and b, a or b)')
S.lemma('Q_top', [('t', 'Int'), ('s', 'Set'), ('x', 'Int'), ('p', EB), ('p1', EB), ('p0', EB), ('e', 'Env')], ['qt(t)', 'shannon(p,x,p1,p0)', 'indep(p1, x)', 'indep(p0, x)'],
   ['Q(t,store(s,x,True),p,e) == comb(t, Q(t,s,p1,e), Q(t,s,p0,e))'],
   use=['qdefs(0)', 'touch(agr(e, upd(qw(t,s,p1,e),x,True), store(s,x,True)), agr(e, upd(qw(t,s,p0,e),x,False), store(s,x,True)), p[upd(qw(t,s,p1,e),x,True)], p[upd(qw(t,s,p0,e),x,False)], p1[upd(qw(t,s,p1,e),x,True)], p0[upd(qw(t,s,p0,e),x,False)], envv(upd(qw(t,s,p1,e),x,True),x), envv(upd(qw(t,s,p0,e),x,False),x))',
     'touch(p1[upd(qw(t,store(s,x,True),p,e), x, envv(e,x))], p0[upd(qw(t,store(s,x,True),p,e), x, envv(e,x))], agr(e, upd(qw(t,store(s,x,True),p,e), x, envv(e,x)), s), p1[qw(t,store(s,x,True),p,e)], p0[qw(t,store(s,x,True),p,e)], envv(qw(t,store(s,x,True),p,e),x))'])
S.lemma('Q_const', [('t', 'Int'), ('s', 'Set'), ('c', 'Bool'), ('p', EB), ('e', 'Env')], ['qt(t)', 'forall(g("Env"), p[g] == c, pat=p[g])'], ['Q(t,s,p,e) == c'], use=['qdefs(0)', 'touch(agr(e,e,s), p[e], p[qw(t,s,p,e)])'])
S.define('dv', ['f'], 'ite(neg(f), negp(val[pos31(f)]), val[pos31(f)])')
S.define('cof1', ['f'], 'ite(neg(f), flip31(L(pos31(f))), L(pos31(f)))')
S.define('cof0', ['f'], 'ite(neg(f), flip31(R(pos31(f))), R(pos31(f)))')
S.lemma('below_independent', [('f', 'Int'), ('x', 'Int'), ('g', 'Env'), ('b', 'Bool')], ['I_node', 'I_sem', 'valid(f)', 'ORD(x) < pord(f)'], ['den(f, upd(g,x,b)) == den(f, g)'],
   measure='4294967296 - pord(f)', ih=[('L(pos31(f))', 'x', 'g', 'b'), ('R(pos31(f))', 'x', 'g', 'b')], use=['touch(nd(pos31(f)))', 'envm(g) and envm(upd(g,x,b))'])
# ---- Boolean operations -------------------------------------------------------
S.define('opv', ['fn', 'x', 'y'], 'ite(fn == 1, x and y, ite(fn == 2, x or y, x ^ y))')
S.define('fnok', ['fn'], '1 <= fn and fn <= 3')
S.define('CF', ['c'], 'cache_rec.fn[c]')
S.define('CL', ['c'], 'cache_rec_u_args.lson[c]'); S.define('CR', ['c'], 'cache_rec_u_args.rson[c]'); S.define('CRES', ['c'], 'cache_rec.res[c]')
S.define('minord', ['r', 'a', 'b'], 'pord(r) >= pord(a) or pord(r) >= pord(b)')
S.define('I_cacheb', [], """forall(c, implies(incache[c], heap0() < c and c < 1152921504606846976) and implies(incache[c] and fnok(CF(c)), valid(CL(c)) and valid(CR(c)) and valid(CRES(c)) and minord(CRES(c), CL(c), CR(c))), pat=incache[c])
  and forall(c, e("Env"), implies(incache[c] and fnok(CF(c)), den(CRES(c), e) == opv(CF(c), den(CL(c), e), den(CR(c), e))), pat=(incache[c], envm(e)))""")
S.uf('envm', ['Env'], 'Bool')
S.define('I_ord', [], 'forall(v, w, implies(0 <= v and v < nbr_VarTbl and 0 <= w and w < nbr_VarTbl and ORD(v) == ORD(w), v == w), pat=(ORD(v), ORD(w)))')
TABLE = ['I_free', 'I_var', 'I_own', 'I_head', 'I_chain', 'I_rank', 'I_uniq']
S.define('I_cacheq', [], """forall(c, implies(incache[c] and qt(CF(c)), valid(CL(c)) and valid(CR(c)) and valid(CRES(c)) and pord(CRES(c)) >= pord(CL(c))), pat=incache[c])
  and forall(c, e("Env"), implies(incache[c] and qt(CF(c)), den(CRES(c), e) == Q(CF(c), qs[pos31(CR(c))], dv(CL(c)), e)), pat=(incache[c], envm(e)))""")
CINV = [('INV.cache', 'I_cacheb'), ('INV.cacheq', 'I_cacheq')]
CM = ['incache', 'cache_rec.fn', 'cache_rec.res', 'cache_rec_u_args.lson', 'cache_rec_u_args.rson']
S.fn('find_hash', params=['h', 'k'], trusted='hash.c: a finite map from keys to data (cache_equ decides equality)',
     ensures=[('found', 'result == 0 or (incache[result] and CF(result) == CF(k) and CL(result) == CL(k) and CR(result) == CR(k))')])
S.fn('get_new_cache_rec', params=[], trusted='rec.c: hands out a record that is not in use', ensures=['heap0() < result and result < 1152921504606846976', 'not incache[result]'])
S.fn('insert_hash', params=['h', 'k', 'd'], trusted='hash.c: adds one entry', requires=[('fresh', 'not incache[k]')], ensures=['incache == store(old(incache), k, True)'], modifies=['incache'])
S.fn('bdd_step', params=['fn', 'f1', 'f2'], requires=INV + CINV + [('fn', 'fnok(fn)'), ('f1', 'valid(f1)'), ('f2', 'valid(f2)')],
     ensures=INV + CINV + GROW + [('valid', 'valid(result)'), ('order', 'minord(result, f1, f2)'),
        ('meaning', 'forall(e("Env"), den(result, e) == opv(fn, den(f1, e), den(f2, e)), pat=envm(e))')],
     modifies=NODE_MODS + CM + ['newv', 'mv', 'D1', 'Interrupt_asap'], hide=TABLE, merge_locals=True, at={'entry': [('touch', 'nd(pos31(f1))', 'nd(pos31(f2))')]})

S.define('X', ['vf'], 'VAR(pos31(vf))')
S.define('SN', ['vf'], 'qs[pos31(L(pos31(vf)))]')
QP = [('t', 'Int'), ('f', 'Int'), ('vf', 'Int'), ('e', 'Env')]
QR = ['I_node', 'I_sem', 'I_qs', 'I_ord', 'qt(t) and valid(f) and valid(vf)']
QN = ['pos31(f) != 0 and pos31(vf) != 0']
QU = ['touch(nd(pos31(f)), nd(pos31(vf)), nd(pos31(L(pos31(vf)))))']
S.lemma('quant_end', QP, QR + ['pos31(f) == 0 or pos31(vf) == 0'], ['Q(t, qs[pos31(vf)], dv(f), e) == den(f, e)'], use=['Q_empty(t, qs[pos31(vf)], dv(f), e)', 'Q_const(t, qs[pos31(vf)], neg(f), dv(f), e)', 'touch(dv(f)[e])'])
S.lemma('quant_skip', QP, QR + QN + ['ORD(X(vf)) < ORD(X(f))'], ['Q(t, qs[pos31(vf)], dv(f), e) == Q(t, SN(vf), dv(f), e)'],
   use=QU + ['forall(g("Env"), b("Bool"), below_independent(f, X(vf), g, b), pat=dv(f)[upd(g,X(vf),b)])', 'Q_irrelevant(t, SN(vf), X(vf), dv(f), e)'])
S.define('shf', ['f'], 'shannon(dv(f), X(f), dv(cof1(f)), dv(cof0(f)))')
S.lemma('cofactors', [('f', 'Int'), ('g', 'Env')], ['I_node', 'I_sem', 'valid(f)', 'pos31(f) != 0'], ['dv(f)[g] == ite(envv(g,X(f)), dv(cof1(f))[g], dv(cof0(f))[g])'], use=['touch(nd(pos31(f)))', 'envm(g)'])
SH = 'forall(g("Env"), cofactors(f, g), pat=[dv(f)[g], dv(cof1(f))[g], dv(cof0(f))[g]])'
S.lemma('quant_above', QP, QR + QN + ['ORD(X(f)) < ORD(X(vf))'], ['Q(t, qs[pos31(vf)], dv(f), e) == ite(envv(e,X(f)), Q(t, qs[pos31(vf)], dv(cof1(f)), e), Q(t, qs[pos31(vf)], dv(cof0(f)), e))'],
   use=QU + [SH, 'touch(qs[pos31(vf)][X(f)])', 'Q_above(t, qs[pos31(vf)], X(f), dv(f), dv(cof1(f)), dv(cof0(f)), e)'])
S.lemma('quant_top', QP, QR + QN + ['ORD(X(f)) == ORD(X(vf))'], ['Q(t, qs[pos31(vf)], dv(f), e) == comb(t, Q(t, SN(vf), dv(cof1(f)), e), Q(t, SN(vf), dv(cof0(f)), e))'],
   use=QU + [SH, 'forall(g("Env"), b("Bool"), below_independent(cof1(f), X(vf), g, b), pat=dv(cof1(f))[upd(g,X(vf),b)])', 'forall(g("Env"), b("Bool"), below_independent(cof0(f), X(vf), g, b), pat=dv(cof0(f))[upd(g,X(vf),b)])',
     'Q_top(t, SN(vf), X(vf), dv(f), dv(cof1(f)), dv(cof0(f)), e)'])
S.fn('quantify', params=['f', 'vf', 'type'], requires=INV + CINV + [('f', 'valid(f)'), ('vf', 'valid(vf)'), ('type', 'qt(type)')],
     ensures=INV + CINV + GROW + [('valid', 'valid(result)'), ('order', 'pord(result) >= old(pord(f))'),
        ('meaning', 'forall(e("Env"), den(result, e) == Q(type, old(qs)[pos31(vf)], old(dv(f)), e), pat=envm(e))')],
     modifies=NODE_MODS + CM + ['newv', 'mv', 'D1', 'Interrupt_asap'], hide=TABLE, merge_locals=True,
     at={'entry': [('touch', 'nd(pos31(f))', 'nd(pos31(vf))', 'nd(pos31(L(pos31(vf))))'),
        ('use', 'forall(e("Env"), quant_end(type, f, vf, e), pat=Q(type, qs[pos31(vf)], dv(f), e))'),
        ('use', 'forall(e("Env"), quant_skip(type, f, vf, e), pat=Q(type, qs[pos31(vf)], dv(f), e))'),
        ('use', 'forall(e("Env"), quant_above(type, f, vf, e), pat=Q(type, qs[pos31(vf)], dv(f), e))'),
        ('use', 'forall(e("Env"), quant_top(type, f, vf, e), pat=Q(type, qs[pos31(vf)], dv(f), e))')]})

# ---- the public Boolean operations -----------------------------------------------------------
WM = NODE_MODS + CM + ['newv', 'mv', 'D1', 'Interrupt_asap']
S.define('x_', [], 'den(f1, e)'); S.define('y_', [], 'den(f2, e)')
def wrap(name, params, meaning, reqs=(), mods=WM, pure=False):
    S.fn(name, params=params, requires=INV + CINV + [('valid ' + p, 'valid(%s)' % p) for p in params if p in ('f1', 'f2', 'i', 't', 'e')],
      ensures=INV + CINV + GROW + [('valid', 'valid(result)'), ('meaning', 'forall(g("Env"), den(result, g) == (%s), pat=envm(g))' % meaning)] + ([('order', 'minord(result, f1, f2)')] if 'f2' in params else []), modifies=mods, hide=TABLE)
wrap('B_Not', ['f1'], 'not den(f1, g)', mods=[])
wrap('B_And', ['f1', 'f2'], 'den(f1, g) and den(f2, g)')
wrap('B_Or', ['f1', 'f2'], 'den(f1, g) or den(f2, g)')
wrap('B_Xor', ['f1', 'f2'], 'den(f1, g) ^ den(f2, g)')
wrap('B_Nand', ['f1', 'f2'], 'not (den(f1, g) and den(f2, g))')
wrap('B_Nor', ['f1', 'f2'], 'not (den(f1, g) or den(f2, g))')
wrap('B_Xnor', ['f1', 'f2'], 'den(f1, g) == den(f2, g)')
wrap('B_Ite', ['i', 't', 'e'], 'ite(den(i, g), den(t, g), den(e, g))')
wrap('B_One', [], 'True', mods=[]); wrap('B_Zero', [], 'False', mods=[])
S.fn('B_Equal', params=['f1', 'f2'], ensures=[('identity', '(result != 0) == (f1 == f2)')])
S.fn('cache_equ', params=['p1', 'p2'], requires=['p1 > 0 and p2 > 0'], ensures=[('equality', '(result != 0) == (CF(p1) == CF(p2) and CL(p1) == CL(p2) and CR(p1) == CR(p2))')])
EBR = ['I_node', 'I_sem', 'I_ord', 'I_uniq']
# ---- canonicity: two formulas with the same meaning are the same word --------------------------
S.lemma('cof_den', [('f', 'Int'), ('g', 'Env')], ['I_node', 'I_sem', 'valid(f)', 'pos31(f) != 0'], ['den(f, upd(g,X(f),True)) == den(cof1(f), g) and den(f, upd(g,X(f),False)) == den(cof0(f), g)'],
   use=['touch(nd(pos31(f)))', 'below_independent(cof1(f), X(f), g, True)', 'below_independent(cof0(f), X(f), g, False)', 'cofactors(f, upd(g,X(f),True))', 'cofactors(f, upd(g,X(f),False))'])
S.define('same_meaning', ['f', 'h'], 'forall(g("Env"), implies(envm(g), den(f, g) == den(h, g)), pat=envm(g))')   # envm is a trigger marker that holds of every assignment

CR0 = EBR + ['valid(f) and valid(h)', 'same_meaning(f, h)']
def env0(f): return 'den(%s, g0)' % f
S.lemma('canon_const', [('f', 'Int'), ('h', 'Int'), ('g0', 'Env')], CR0 + ['pos31(f) == 0 and pos31(h) == 0'], ['f == h'], use=['envm(g0)'])
# the top variable of the first formula lies strictly above the second: its two cofactors have the same meaning
CU = ['envm(g) and envm(upd(g,X(f),True)) and envm(upd(g,X(f),False))', 'touch(nd(pos31(f)), nd(pos31(h)))']
S.lemma('canon_skip', [('f', 'Int'), ('h', 'Int'), ('g', 'Env')], EBR + ['valid(f) and valid(h)', 'same_meaning(f, h)', 'pos31(f) != 0 and pord(f) < pord(h)'], ['den(cof1(f), g) == den(cof0(f), g)'],
   use=CU + ['cof_den(f, g)', 'below_independent(h, X(f), g, True)', 'below_independent(h, X(f), g, False)'])
S.lemma('canon_skip2', [('f', 'Int'), ('h', 'Int'), ('g', 'Env')], EBR + ['valid(f) and valid(h)', 'same_meaning(f, h)', 'pos31(h) != 0 and pord(h) < pord(f)'], ['den(cof1(h), g) == den(cof0(h), g)'],
   use=['envm(g) and envm(upd(g,X(h),True)) and envm(upd(g,X(h),False))', 'touch(nd(pos31(f)), nd(pos31(h)))', 'cof_den(h, g)', 'below_independent(f, X(h), g, True)', 'below_independent(f, X(h), g, False)'])
S.lemma('canon_both', [('f', 'Int'), ('h', 'Int'), ('g', 'Env')], EBR + ['valid(f) and valid(h)', 'same_meaning(f, h)', 'pos31(f) != 0 and pos31(h) != 0 and pord(f) == pord(h)'],
   ['den(cof1(f), g) == den(cof1(h), g) and den(cof0(f), g) == den(cof0(h), g)', 'X(f) == X(h)'], use=CU + ['cof_den(f, g)', 'cof_den(h, g)'])
S.lemma('canonical', [('f', 'Int'), ('h', 'Int'), ('g0', 'Env')], CR0, ['f == h'], measure='4294967296 - ite(pord(f) < pord(h), pord(f), pord(h))',
   ih=[('cof1(f)', 'cof0(f)', 'g0'), ('cof1(h)', 'cof0(h)', 'g0'), ('cof1(f)', 'cof1(h)', 'g0'), ('cof0(f)', 'cof0(h)', 'g0')],
   use=['touch(nd(pos31(f)), nd(pos31(h)))', 'envm(g0)', 'canon_const(f, h, g0)',
     'forall(g("Env"), canon_skip(f, h, g), pat=envm(g))', 'forall(g("Env"), canon_skip2(f, h, g), pat=envm(g))', 'forall(g("Env"), canon_both(f, h, g), pat=envm(g))'])
for n_, t_ in (('B_forall', 4), ('B_thereis', 5)):
    S.fn(n_, params=['var', 'f'], requires=INV + CINV + [('f', 'valid(f)'), ('var', 'valid(var)')],
     ensures=INV + CINV + GROW + [('valid', 'valid(result)'), ('meaning', 'forall(e("Env"), den(result, e) == Q(%d, old(qs)[pos31(var)], old(dv(f)), e), pat=envm(e))' % t_)],
     modifies=NODE_MODS + CM + ['newv', 'mv', 'D1', 'Interrupt_asap'], hide=TABLE)

# ---- relational product ---------------------------------------------------------------------
S.lemma('Q_ext', [('t', 'Int'), ('s', 'Set'), ('p', EB), ('p2', EB), ('e', 'Env')], ['qt(t)', 'forall(g("Env"), p[g] == p2[g], pat=[p[g], p2[g]])'], ['Q(t,s,p,e) == Q(t,s,p2,e)'], use=['qdefs(0)', 'touch(p[qw(t,s,p2,e)], p2[qw(t,s,p,e)])'])
S.define('av', ['a', 'b'], 'andp(dv(a), dv(b))')
S.define('mv_', ['a', 'b'], 'ite(ORD(X(a)) < ORD(X(b)), X(a), X(b))')
S.define('ca1', ['a', 'b'], 'ite(ORD(X(a)) > ORD(X(b)), a, cof1(a))')
S.define('ca0', ['a', 'b'], 'ite(ORD(X(a)) > ORD(X(b)), a, cof0(a))')
S.define('cb1', ['a', 'b'], 'ite(ORD(X(b)) > ORD(X(a)), b, cof1(b))')
S.define('cb0', ['a', 'b'], 'ite(ORD(X(b)) > ORD(X(a)), b, cof0(b))')
RPP = [('t', 'Int'), ('qv', 'Int'), ('a', 'Int'), ('b', 'Int'), ('e', 'Env')]
RPR = ['I_node', 'I_sem', 'I_qs', 'I_ord', 'qt(t) and valid(a) and valid(b) and valid(qv)']
RPN = ['pos31(a) != 0 and pos31(b) != 0 and pos31(qv) != 0']
RPU = ['touch(nd(pos31(a)), nd(pos31(b)), nd(pos31(qv)), nd(pos31(L(pos31(qv)))))']
S.lemma('rp_zero', RPP, RPR + ['pos31(a) == 0 and neg(a) == False or pos31(b) == 0 and neg(b) == False or a == flip31(b)'], ['Q(t, qs[pos31(qv)], av(a,b), e) == False'], use=['Q_const(t, qs[pos31(qv)], False, av(a,b), e)'])
S.lemma('rp_one', RPP, RPR + ['a == TOP or a == b'], ['Q(t, qs[pos31(qv)], av(a,b), e) == Q(t, qs[pos31(qv)], dv(b), e)'], use=['Q_ext(t, qs[pos31(qv)], av(a,b), dv(b), e)'])
S.lemma('rp_one2', RPP, RPR + ['b == TOP'], ['Q(t, qs[pos31(qv)], av(a,b), e) == Q(t, qs[pos31(qv)], dv(a), e)'], use=['Q_ext(t, qs[pos31(qv)], av(a,b), dv(a), e)'])
S.lemma('rp_end', RPP, RPR + ['pos31(qv) == 0'], ['Q(t, qs[pos31(qv)], av(a,b), e) == (den(a,e) and den(b,e))'], use=['Q_empty(t, qs[pos31(qv)], av(a,b), e)', 'touch(av(a,b)[e], dv(a)[e], dv(b)[e])'])
BI2 = ['forall(g("Env"), b_("Bool"), below_independent(%s, X(qv), g, b_), pat=dv(%s)[upd(g,X(qv),b_)])' % (x, x) for x in ('a', 'b')]
S.lemma('rp_skip', RPP, RPR + RPN + ['ORD(X(qv)) < ORD(X(a)) and ORD(X(qv)) < ORD(X(b))'], ['Q(t, qs[pos31(qv)], av(a,b), e) == Q(t, SN(qv), av(a,b), e)'],
   use=RPU + ['forall(g("Env"), c("Bool"), below_independent(a, X(qv), g, c), pat=dv(a)[upd(g,X(qv),c)])', 'forall(g("Env"), c("Bool"), below_independent(b, X(qv), g, c), pat=dv(b)[upd(g,X(qv),c)])', 'Q_irrelevant(t, SN(qv), X(qv), av(a,b), e)'])
SHA = ['forall(g("Env"), cofactors(%s, g), pat=[dv(%s)[g], dv(cof1(%s))[g], dv(cof0(%s))[g]])' % (x, x, x, x) for x in ('a', 'b')]
S.lemma('rp_above', RPP, RPR + RPN + ['ORD(mv_(a,b)) < ORD(X(qv))'], ['Q(t, qs[pos31(qv)], av(a,b), e) == ite(envv(e,mv_(a,b)), Q(t, qs[pos31(qv)], av(ca1(a,b),cb1(a,b)), e), Q(t, qs[pos31(qv)], av(ca0(a,b),cb0(a,b)), e))'],
   use=RPU + SHA + ['touch(qs[pos31(qv)][mv_(a,b)])', 'Q_above(t, qs[pos31(qv)], mv_(a,b), av(a,b), av(ca1(a,b),cb1(a,b)), av(ca0(a,b),cb0(a,b)), e)'])
S.lemma('rp_top', RPP, RPR + RPN + ['ORD(mv_(a,b)) == ORD(X(qv))'], ['Q(t, qs[pos31(qv)], av(a,b), e) == comb(t, Q(t, SN(qv), av(ca1(a,b),cb1(a,b)), e), Q(t, SN(qv), av(ca0(a,b),cb0(a,b)), e))'],
   use=RPU + SHA + ['forall(g("Env"), c("Bool"), below_independent(%s, X(qv), g, c), pat=dv(%s)[upd(g,X(qv),c)])' % (x, x) for x in ('ca1(a,b)', 'ca0(a,b)', 'cb1(a,b)', 'cb0(a,b)')] +
     ['Q_top(t, SN(qv), X(qv), av(a,b), av(ca1(a,b),cb1(a,b)), av(ca0(a,b),cb0(a,b)), e)'])
S.ghost('rpt', 'Int')
S.define('rpc', ['k'], 'at(relprod_cache, k, 16)')
S.define('PV', ['k'], 'relprod_cache_rec.v[rpc(k)]'); S.define('PA', ['k'], 'relprod_cache_rec.a[rpc(k)]'); S.define('PB', ['k'], 'relprod_cache_rec.b[rpc(k)]'); S.define('PR', ['k'], 'relprod_cache_rec.result[rpc(k)]')
S.define('I_rpc', [], """relprod_cache_sz > 0 and forall(k, implies(0 <= k and k < relprod_cache_sz and pos31(PV(k)) != 0, valid(PV(k)) and valid(PA(k)) and valid(PB(k)) and valid(PR(k)) and minord(PR(k), PA(k), PB(k))), pat=PV(k))
  and forall(k, e("Env"), implies(0 <= k and k < relprod_cache_sz and pos31(PV(k)) != 0, den(PR(k), e) == Q(rpt, qs[pos31(PV(k))], av(PA(k), PB(k)), e)), pat=(PV(k), envm(e)))""")
RINV = INV + CINV + [('INV.rpc', 'I_rpc')]
S.fn('Rel_prod', params=['qv', 'a', 'b', 'existential'], requires=RINV + [('args', 'valid(qv) and valid(a) and valid(b)'), ('kind', 'rpt == ite(existential != 0, 5, 4)')],
     ensures=RINV + GROW + [('valid', 'valid(result)'), ('order', 'old(pord(a)) <= pord(result) or old(pord(b)) <= pord(result)'),
        ('meaning', 'forall(e("Env"), den(result, e) == Q(rpt, old(qs)[pos31(qv)], old(av(a,b)), e), pat=envm(e))')],
     modifies=NODE_MODS + CM + ['newv', 'mv', 'D1', 'Interrupt_asap', 'relprod_cache_rec.v', 'relprod_cache_rec.a', 'relprod_cache_rec.b', 'relprod_cache_rec.result'], hide=TABLE, merge_locals=True,
     at={'entry': [('touch', 'nd(pos31(a))', 'nd(pos31(b))', 'nd(pos31(qv))', 'nd(pos31(L(pos31(qv))))')] +
        [('use', 'forall(e("Env"), %s(rpt, qv, a, b, e), pat=Q(rpt, qs[pos31(qv)], av(a,b), e))' % l) for l in ('rp_zero', 'rp_one', 'rp_one2', 'rp_end', 'rp_skip', 'rp_above', 'rp_top')] +
        [], 'exit': [('assert', 'forall(e("Env"), den(result, e) == Q(rpt, old(qs)[pos31(qv)], old(av(a,b)), e), pat=envm(e))', 'meaning')]})
