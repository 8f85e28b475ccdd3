"""Contracts for garbage collection in src/bin/fl/new_bdd.c (extends bdd_core)."""
import os, importlib.util
_s = importlib.util.spec_from_file_location('spec_bdd_core_for_gc', os.path.join(os.path.dirname(__file__), 'bdd_core.py'))
_m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
S = _m.S; INV = _m.INV; CINV = _m.CINV; TABLE = _m.TABLE
OWN = ['Reset_Ref_cnts', 'gc_update_ref_cnt', 'B_Mark', 'mark_vars', 'clean_cache_rec_fn', 'garbage_collect']
S.define('MK', ['i'], 'bdd_rec.mark[np(i)]')
S.define('RC', ['i'], 'bdd_rec.ref_cnt[np(i)]')
S.ghost('grey', 'Set')     # nodes whose children are still being marked
S.define('KID', ['f'], 'pos31(f) == 0 or MK(pos31(f)) == 1')
S.define('I_mark', [], 'forall(i, implies(nt(i) and MK(i) == 1 and not grey[i], KID(L(i)) and KID(R(i))), pat=nd(i)) and forall(i, implies(grey[i], nt(i) and MK(i) == 1), pat=grey[i]) and forall(i, implies(nt(i), ite(MK(i) == 1, RC(i) >= 1, RC(i) == 0)), pat=nd(i))')
S.fn('Reset_Ref_cnts', params=[], requires=[('glob', 'I_glob'), ('asap', 'Do_gc_asap != 0')],
  ensures=[('cleared', 'forall(i, implies(0 <= i and i < sz_MainTbl, MK(i) == 0 and RC(i) == 0), pat=np(i))')],
  modifies=['bdd_rec.mark', 'bdd_rec.ref_cnt'],
  loops={0: dict(inv=[('idx', 'i <= sz_MainTbl and bp == np(i)'), ('cleared', 'forall(k, implies(0 <= k and k < i, MK(k) == 0 and RC(k) == 0), pat=np(k))')])})
NINV = [x for x in INV if x[0] in ('INV.glob', 'INV.used', 'INV.ord', 'INV.node')]
S.define('kk', ['bp'], 'idx(bp, MainTbl, 16)')
S.fn('gc_update_ref_cnt', params=['bp'], requires=NINV + [('marks', 'I_mark'), ('node', 'nt(kk(bp)) and bp == np(kk(bp))')],
  ensures=[('marks', 'I_mark'), ('marked', 'MK(kk(bp)) == 1'), ('monotone', 'forall(i, implies(nt(i) and old(MK(i)) == 1, MK(i) == 1), pat=nd(i))'), ('grey', 'grey == old(grey)')],
  modifies=['bdd_rec.mark', 'bdd_rec.ref_cnt', 'grey'],
  at={'entry': [('touch', 'nd(kk(bp))', 'nd(L(kk(bp)))', 'nd(pos31(R(kk(bp))))')],
      'before:gc_update_ref_cnt': [('ghost', 'grey', 'store(grey, kk(bp), True)')],
      'exit': [('ghost', 'grey', 'old(grey)')]})
S.fn('B_Mark', params=['f'], requires=NINV + [('marks', 'I_mark'), ('f', 'valid(f)')],
  ensures=[('marks', 'I_mark'), ('marked', 'implies(Do_gc_asap != 0, KID(f))'), ('monotone', 'forall(i, implies(nt(i) and old(MK(i)) == 1, MK(i) == 1), pat=nd(i))'), ('grey', 'grey == old(grey)')],
  modifies=['bdd_rec.mark', 'bdd_rec.ref_cnt', 'grey'], at={'entry': [('touch', 'nd(pos31(f))')]})
S.fn('clean_cache_rec_fn', params=['key', 'data'], requires=[('glob', 'I_glob'), ('key', 'incache[key]'), ('nodes', 'pos31(CL(key)) < sz_MainTbl and pos31(CR(key)) < sz_MainTbl and pos31(CRES(key)) < sz_MainTbl')],
  ensures=[('dropped', 'incache == store(old(incache), key, RC(pos31(old(CL(key)))) > 0 and RC(pos31(old(CR(key)))) > 0 and RC(pos31(old(CRES(key)))) > 0)')],
  modifies=['incache', 'cache_rec_u.next', 'cache_free_list', 'cache_rec_u_args.lson', 'cache_rec_u_args.rson'])
S.fn('delete_hash', params=['h', 'k'], trusted='hash.c: removes one entry', ensures=['incache == store(old(incache), k, False)'], modifies=['incache'])
S.options['ignore_calls'] = tuple(S.options['ignore_calls']) + ('signal',)
REORD = [('kept', 'forall(i, implies(old(used)[i] and ext[i], used[i] and val[i] == old(val)[i]), pat=[ext[i], nd(i)])')]
S.ghost('ext', 'Set')      # nodes referenced from outside the BDD package (marked by the caller)
for n in ('re_order', 'user_defined_reorder'):
    S.fn(n, params=[], trusted='sifting by adjacent swaps: keeps the meaning of externally referenced nodes (bounded check: the reordering harness)', requires=INV, ensures=INV + REORD, modifies=[x for x in _m.NODE_MODS] + ['var_rec.variable', 'user_defined_ordering_flag', 'quit_early', 'dont_grow_uniq_tbl'])
CLEANED = [('subset', 'forall(c, implies(incache[c], old(incache)[c]), pat=incache[c])'), ('erased', 'implies(erase != 0, forall(c, not incache[c], pat=incache[c]))'),
  ('live', 'forall(c, implies(incache[c], RC(pos31(CL(c))) > 0 and RC(pos31(CR(c))) > 0 and RC(pos31(CRES(c))) > 0), pat=incache[c])')]
S.fn('clean_cache', params=['erase'], trusted='applies clean_cache_rec_fn (under contract) to every entry, or empties the cache', ensures=CLEANED, modifies=['incache'])
STORE = [x for x in INV if x[0] not in ('INV.node', 'INV.sem', 'INV.qs')]
S.define('alive', [], 'forall(k, implies(used[k], old(used)[k]) and implies(old(used)[k] and (MK(k) == 1 or k == 0), used[k]), pat=nd(k))')
S.define('live0', [], 'forall(k, implies(used[k], old(used)[k]), pat=used[k])')
GI = STORE + [('alive', 'alive and live0'), ('links', 'forall(k, implies(used[k], L(k) == old(L(k)) and R(k) == old(R(k)) and VAR(k) == old(VAR(k))), pat=nd(k))')]
S.define('swept', ['k', 'v', 'h'], 'VAR(k) < v or (VAR(k) == v and H(k) < h)')
S.define('SW', ['v', 'h'], 'forall(k, implies(nt(k) and swept(k, v, h), MK(k) == 1), pat=nd(k))')
FREE = [('ghost', 'used', 'store(used, head(cur), False)'), ('ghost', 'free', 'store(free, head(cur), True)'), ]
S.fn('garbage_collect', params=[], requires=INV + CINV + [('marks', 'I_mark and MK(0) == 1 and RC(0) >= 1 and forall(i, not grey[i], pat=grey[i])'), ('ext', 'forall(i, implies(ext[i], used[i] and (i == 0 or MK(i) == 1)), pat=ext[i])')],
  ensures=INV + CINV + REORD,
  modifies=_m.NODE_MODS + ['var_rec.variable', 'user_defined_ordering_flag', 'incache', 'gc_limit', 'limit1', 'limit2', 'RCdynamic_ordering_threshold', 'quit_early', 'dont_grow_uniq_tbl'],
  loops={0: dict(inv=GI + [('swept', 'SW(i, 0)')]),
         1: dict(inv=GI + [('swept', 'i < nbr_VarTbl and vp == vpp(i) and j <= SZ(i) and SW(i, j)')]),
         2: dict(inv=GI + [('swept', 'i < nbr_VarTbl and vp == vpp(i) and j < SZ(i) and SW(i, j)'), ('cur', 'cur == cell(i, j)')]),
         3: dict(inv=GI + [('swept', 'i < nbr_VarTbl and vp == vpp(i) and j < SZ(i) and SW(i, j)'),
              ('prev', '(cur == LNULL and cell(i, j) == LNULL) or (nt(prev) and VAR(prev) == i and H(prev) == j and MK(prev) == 1 and NX(prev) == cur)'),
              ('done', 'cell(i, j) == LNULL or forall(k, implies(nt(k) and VAR(k) == i and H(k) == j and D[k] >= D[prev], MK(k) == 1), pat=nd(k))')])},
  at={'loop2': [('touch', 'nd(cur)', 'nd(NX(cur))', 'nd(b_free_list)', 'nd(NX(NX(cur)))')], 'loop2_end': FREE, 'loop3_end': [('ghost', 'used', 'ite(MK(head(cur)) == 1, used, store(used, head(cur), False))'), ('ghost', 'free', 'ite(MK(head(cur)) == 1, free, store(free, head(cur), True))')],
   'loop3': [('touch', 'nd(cur)', 'nd(prev)', 'nd(NX(cur))', 'nd(b_free_list)')]})
