"""Contracts for the event machinery of src/bin/fl/fsm.c (symbolic trajectory evaluation): at any time the antecedent,
consequent and weakening buffers of every node hold the conjunction (disjunction) of the values of all active events."""
from vexec import Spec
S = Spec()
S.units = ['src/bin/fl/fsm.c']
S.options['defines'] = ('-DDEBUG',)        # ASSERT as in the project's build: a failing one stops the program
S.options['ignore_calls'] = ('FP', 'print_ilist', 'idx2name', 'ptr:cHL_Print', 'fprintf', 'fflush')
S.fn('voss_abort', params=[], trusted='does not return', noreturn=True)
S.uf('T', ['Int'], 'Bool')       # value of a stored formula under one arbitrary but fixed assignment
S.ghost('J', 'Int')              # one arbitrary but fixed node
S.ghost('HT', 'Map')             # the hash tables: pr(table, key) -> data (0: no binding); hash.c is verified under P09
S.ghost('LO', 'Map')             # list cell -> the pr(table, node) whose active list it is on (0: not in use)
S.ghost('RK', 'Map')             # rank of a cell in its list
S.ghost('EV', 'Set')             # the event records
S.ghost('clk', 'Int'); S.ghost('REM', 'Int'); S.ghost('NN', 'Int')
S.uf('pr', ['Int', 'Int'], 'Int'); S.uf('p1', ['Int'], 'Int'); S.uf('p2', ['Int'], 'Int'); S.uf('nb', ['Int'], 'Bool')
S.axiom('pr', 'forall(t, k, p1(pr(t,k)) == t and p2(pr(t,k)) == k and pr(t,k) > 0, pat=pr(t,k)) and forall(o, nb(o), pat=nb(o))', 'pairs; trigger predicate')
S.define('K', [], "T(gbv.bp[addr(c_ONE)]) and not T(gbv.bp[addr(c_ZERO)])")
# conjunction / disjunction of the H (o = offset of H) or L values along an active list
for n, op in (('cj', 'and'), ('dj', 'or')):
    S.recfun(n, [('N', 'Map'), ('E', 'Map'), ('G', 'Map'), ('o', 'Int'), ('p', 'Int')], 'Bool',
       'ite(p == 0, %s, T(G[E[p]+o]) %s %s(N,E,G,o,N[p]))' % ('True' if op == 'and' else 'False', op, n))
    S.lemma(n + '_frame', [('N', 'Map'), ('E', 'Map'), ('G', 'Map'), ('M', 'Map'), ('F', 'Map'), ('G2', 'Map'), ('L', 'Map'), ('R', 'Map'), ('k', 'Int'), ('o', 'Int'), ('p', 'Int')],
      ['p == 0 or L[p] == k', 'forall(c, implies(nb(c) and L[c] == k, R[c] >= 0 and (N[c] == 0 or (L[N[c]] == k and R[N[c]] < R[c]))), pat=nb(c))',
       'forall(c, implies(nb(c) and L[c] == k, N[c] == M[c] and E[c] == F[c] and T(G[E[c]+o]) == T(G2[E[c]+o])), pat=nb(c))'],
      ['%s(N,E,G,o,p) == %s(M,F,G2,o,p)' % (n, n)], measure='ite(p == 0, -1, R[p]) + 1', ih=[('N','E','G','M','F','G2','L','R','k','o','N[p]')],
      use=['unfold(%s(N,E,G,o,p))' % n, 'unfold(%s(M,F,G2,o,p))' % n, 'touch(nb(p))'])
NX, EP, HO, LO_ = 'event_list_rec.next', 'event_list_rec.ep', 'offs(event_rec.H)', 'offs(event_rec.L)'
S.define('key', ['t', 'i'], 'pr(t, i)')
# the active lists
S.define('I_list', [], '''forall(c, implies(LO[c] != 0, c > 0 and RK[c] >= 0 and RK[c] < clk and EV[event_list_rec.ep[c]] and LO[c] == pr(p1(LO[c]), p2(LO[c])) and (event_list_rec.next[c] == 0 or (LO[event_list_rec.next[c]] == LO[c] and RK[event_list_rec.next[c]] < RK[c]))), pat=nb(c))
   and LO[0] == 0 and clk >= 0''')
TB = lambda t: 'HT[pr({t}, {i})] == 0 or LO[HT[pr({t}, {i})]] == pr({t}, {i})'.replace('{t}', t)
S.define('I_rank', [], '''forall(b, c, implies(LO[b] != 0 and LO[b] == LO[c] and b != c, RK[b] != RK[c] and implies(RK[c] < RK[b], event_list_rec.next[b] != 0 and RK[c] <= RK[event_list_rec.next[b]])), pat=(nb(b), nb(c)))''')
S.define('I_tab', ['t', 'i'], '(HT[pr(t, i)] == 0 or LO[HT[pr(t, i)]] == pr(t, i)) and forall(c, implies(LO[c] == pr(t, i), HT[pr(t,i)] != 0 and RK[c] <= RK[HT[pr(t,i)]]), pat=nb(c))')
S.define('TBS', ['t_'], 't_ == active_weak_tblp or t_ == active_ant_tblp or t_ == active_cons_tblp')
TABS = [('active_weak_tblp', 'weak_buf', 'has_weak', 'dj'), ('active_ant_tblp', 'ant_buf', 'has_ant', 'cj'), ('active_cons_tblp', 'cons_buf', 'has_cons', 'cj')]
for g in ('N0', 'E0', 'G0', 'L0', 'R0', 'H0', 'G1'): S.ghost(g, 'Map')
def fold(t, c, o, v): return '%s(%s,%s,gbv.bp,%s,%s[pr(%s,J)])' % (c, NX, EP, o, v, t)
OLDF = [(t, c, o) for t, b, f, c in TABS for o in (HO, LO_)]
def kept(cond): return [('folds', ' and '.join('implies(%s, (%s(%s,%s,gbv.bp,%s,HT[pr(%s,J)])) == %s(old(%s),old(%s),old(gbv.bp),%s,old(HT)[pr(%s,J)]))' % (cond % t if cond else 'True', c, NX, EP, o, t, c, NX, EP, o, t) for t, c, o in OLDF))]
def byframe(): return [('use', '%s_frame(old(%s),old(%s),old(gbv.bp),%s,%s,gbv.bp,old(LO),old(RK),pr(%s,J),%s,old(HT)[pr(%s,J)])' % (c, NX, EP, NX, EP, t, o, t)) for t, c, o in OLDF]
ON = [('on', ' and '.join('(HT[pr({0},J)] == 0 or LO[HT[pr({0},J)]] == pr({0},J))'.format(x[0]) for x in TABS))]
S.define('I_tabs', [], '''forall(k, implies(k > 0 and TBS(p1(k)) and HT[k] != 0, LO[HT[k]] == k), pat=HT[k]) and forall(c, implies(nb(c) and LO[c] != 0, TBS(p1(LO[c])) and HT[LO[c]] != 0 and RK[c] <= RK[HT[LO[c]]]), pat=nb(c))''')
S.define('locbuf', ['b_', 'i_'], 'ite(i_ < buffer.buf_size[b_], buffer.data[b_] + (i_*buffer.item_size[b_]) % 4294967296, 0)')
S.define('NODE', ['i_'], 'buffer.data[nodesp] + 32*(i_)')
S.define('INB', ['j_', 'b_'], 'b_ <= j_ and j_ < b_ + 16*NN')
BUFS = ['weak_buf', 'ant_buf', 'cons_buf']
OUT = lambda a: ' and '.join('not INB(%s, %s)' % (a, b) for b in BUFS)
S.define('OUTB', ['a_'], OUT('a_'))
S.define('SEP', [], ' and '.join('(%s + 16*NN <= %s or %s + 16*NN <= %s)' % (a, b, b, a) for a, b in (('weak_buf', 'ant_buf'), ('weak_buf', 'cons_buf'), ('ant_buf', 'cons_buf'))) +
   ' and ' + ' and '.join('heap0() < %s' % b for b in BUFS) + ' and OUTB(addr(c_ONE)) and OUTB(addr(c_ZERO)) and forall(e, implies(EV[e], OUTB(e + %s) and OUTB(e + %s) and 0 <= event_rec.nd_idx[e] and event_rec.nd_idx[e] < NN and 0 <= event_rec.type[e] and event_rec.type[e] <= 7), pat=EV[e])' % (HO, LO_))
S.define('SHAPE', [], 'NN == buffer.buf_size[nodesp] and buffer.item_size[nodesp] == 32 and NN < 67108864 and buffer.data[nodesp] > 0 and 0 <= J and J < NN and active_weak_tblp != active_ant_tblp and active_weak_tblp != active_cons_tblp and active_ant_tblp != active_cons_tblp and active_weak_tblp != trace_tblp and active_ant_tblp != trace_tblp and active_cons_tblp != trace_tblp')
# ---- the order of events
S.fn('event_cmp', ensures=[('order', '''(result < 0) == (event_rec.time[mem.p[p1]] > event_rec.time[mem.p[p2]] or (event_rec.time[mem.p[p1]] == event_rec.time[mem.p[p2]] and (event_rec.nd_idx[mem.p[p1]] > event_rec.nd_idx[mem.p[p2]]
       or (event_rec.nd_idx[mem.p[p1]] == event_rec.nd_idx[mem.p[p2]] and event_rec.type[mem.p[p1]] < event_rec.type[mem.p[p2]]))))'''),
     ('equal', '(result == 0) == (event_rec.time[mem.p[p1]] == event_rec.time[mem.p[p2]] and event_rec.nd_idx[mem.p[p1]] == event_rec.nd_idx[mem.p[p2]] and event_rec.type[mem.p[p1]] == event_rec.type[mem.p[p2]])')],
   requires=[('range', 'forall(e, 0 <= event_rec.time[e] and 0 <= event_rec.nd_idx[e] and 0 <= event_rec.type[e] and event_rec.type[e] <= 7, pat=event_rec.time[e])')])
# ---- hash table and record manager
S.fn('find_hash', params=['t', 'k'], trusted='contract of hash.c (verified under P09)', ensures=['result == HT[pr(t, k)]'])
S.fn('insert_hash', params=['t', 'k', 'd'], trusted='contract of hash.c (verified under P09)', requires=[('absent', 'HT[pr(t,k)] == 0 and d != 0')], modifies=['HT'], ensures=['HT == store(old(HT), pr(t,k), d)'])
S.fn('delete_hash', params=['t', 'k'], trusted='contract of hash.c (verified under P09)', requires=[('present', 'HT[pr(t,k)] != 0')], modifies=['HT'], ensures=['HT == store(old(HT), pr(t,k), 0)'])
S.fn('new_rec', params=['m'], trusted='contract of rec.c (verified under P09): a record not in use', ensures=['result > 0 and LO[result] == 0 and TR[result] == 0 and not TV[result] and not EV[result]',
   ('fresh', 'result + 32 < addr(c_ONE) or result > addr(c_ONE) + 8'), ('fresh2', 'result + 32 < addr(c_ZERO) or result > addr(c_ZERO) + 8'), ('fresh3', 'OUTB(result+8) and OUTB(result+16) and forall(e, implies(EV[e] or TV[e], result + 32 <= e or e + 32 <= result), pat=EV[e]) and forall(e, implies(TV[e], result + 32 <= e or e + 32 <= result), pat=TV[e])')])
S.fn('free_rec', params=['m', 'r'], trusted='contract of rec.c (verified under P09)', requires=[('not in use', 'LO[r] == 0')])
KEYARG = [('table', 'TBS(tblp)'), ('ev', 'EV[ep] and 0 <= event_rec.nd_idx[ep]')]
KK = 'pr(tblp, event_rec.nd_idx[ep])'
KEEP = kept('pr(%s,J) != ' + KK) + [('other lists', 'forall(c, implies(old(LO)[c] != 0 and old(LO)[c] != pr(tblp, event_rec.nd_idx[ep]), LO[c] == old(LO)[c] and RK[c] == old(RK)[c] and event_list_rec.next[c] == old(event_list_rec.next)[c] and event_list_rec.ep[c] == old(event_list_rec.ep)[c]), pat=nb(c))'),
        ('tables', 'HT == store(old(HT), pr(tblp, event_rec.nd_idx[ep]), result)')]
LM = ['HT', 'LO', 'RK', 'clk', 'REM', NX, EP]
S.fn('add_active_event', requires=[('lists', 'I_list'), ('ranks', 'I_rank'), ('tab', 'I_tabs')] + KEYARG + ON, modifies=LM,
   ensures=[('lists', 'I_list'), ('ranks', 'I_rank'), ('tab', 'I_tabs'), ('first', 'result > 0 and old(LO)[result] == 0 and LO == store(old(LO), result, pr(tblp, event_rec.nd_idx[ep])) and event_list_rec.ep[result] == ep'),
     ('rest', 'event_list_rec.next == store(old(event_list_rec.next), result, old(HT)[pr(tblp, event_rec.nd_idx[ep])]) and event_list_rec.ep == store(old(event_list_rec.ep), result, ep)')] + KEEP,
   at={'return': [('ghost', 'LO', 'store(LO, new_elp, pr(tblp, event_rec.nd_idx[ep]))'), ('ghost', 'RK', 'store(RK, new_elp, clk)'), ('ghost', 'clk', 'clk + 1'), ('touch', 'nb(new_elp)', 'nb(elp)')] + byframe()})
KK = 'pr(tblp, event_rec.nd_idx[ep])'
S.fn('delete_active_event', requires=[('lists', 'I_list'), ('ranks', 'I_rank'), ('tab', 'I_tabs')] + KEYARG + ON, modifies=LM,
   ensures=[('lists', 'I_list'), ('ranks', 'I_rank'), ('tab', 'I_tabs'), ('removed', 'old(LO)[REM] == {k} and event_rec.event_id[event_list_rec.ep[REM]] == event_rec.event_id[ep] and LO == store(old(LO), REM, 0)'.format(k=KK)),
     ('head', 'result == ite(old(HT)[{k}] == REM, old(event_list_rec.next)[REM], old(HT)[{k}])'.format(k=KK)), ('eps', 'event_list_rec.ep == old(event_list_rec.ep)'),
     ('links', 'forall(c, implies(LO[c] == {k}, event_list_rec.next[c] == ite(old(event_list_rec.next)[c] == REM, old(event_list_rec.next)[REM], old(event_list_rec.next)[c])), pat=nb(c))'.format(k=KK))] + KEEP,
   loops={0: dict(inv=[('walk', 'LO[prev] == {k} and event_list_rec.next[prev] == elp and start == HT[{k}] and start == old(HT)[{k}] and HT == old(HT)'.format(k=KK)), ('walk2', 'elp == 0 or (LO[elp] == {k} and RK[elp] < RK[prev])'.format(k=KK)), ('rank', 'RK[prev] <= RK[start]'),
       ])},
   at={'entry': [('touch', 'nb(HT[%s])' % KK)], 'loop0': [('touch', 'nb(prev)', 'nb(elp)')], 'before:free_rec': [('touch', 'nb(arg1)', 'nb(%s[arg1])' % NX, 'nb(HT[%s])' % KK, 'nb(old(HT)[%s])' % KK), ('ghost', 'REM', 'arg1'), ('ghost', 'LO', 'store(LO, arg1, 0)')], 'exit': byframe()})
# ---- applying the events that are due
def agree(t, buf, flag, fn): return ('agree ' + flag, '(nnode_rec.{f}[NODE(J)] != 0) == (HT[pr({t},J)] != 0) and T(gbv.bp[at({b},2*J,8)]) == {c}({N},{E},gbv.bp,{h},HT[pr({t},J)]) and T(gbv.bp[at({b},2*J+1,8)]) == {c}({N},{E},gbv.bp,{l},HT[pr({t},J)])'.format(f=flag, t=t, b=buf, c=fn, N=NX, E=EP, h=HO, l=LO_))
AGREE = [agree(*x) for x in TABS]
S.ghost('FST', 'Int'); S.ghost('LASTE', 'Int'); S.ghost('CHG', 'Bool'); S.ghost('TV', 'Set'); S.ghost('TR', 'Map'); S.ghost('TO', 'Map')     # trace events, trace records -> key, trace event -> key
S.fn('ptr:c_AND', params=['a', 'b'], trusted='conjunction on the selected value domain', ensures=[('sem', 'T(result.bp) == (T(a.bp) and T(b.bp))')])
S.fn('ptr:c_OR', params=['a', 'b'], trusted='disjunction on the selected value domain', ensures=[('sem', 'T(result.bp) == (T(a.bp) or T(b.bp))')])
S.fn('ptr:c_NEQ', params=['a', 'b'], trusted='inequality test on the selected value domain (equal handles denote equal functions)', ensures=[('sem', 'implies(result == 0, T(a.bp) == T(b.bp))')])
S.fn('ptr:c_DIFFERS', params=['a', 'b'], trusted='inequality test on the selected value domain (equal handles denote equal functions)', ensures=[('sem', 'implies(result == 0, T(a.bp) == T(b.bp))')])
S.fn('c_EQ', ensures=[('sem', 'implies(result != 0, T(a.bp) == T(b.bp))')])
S.fn('pop_buf', params=['b', 'p'], trusted='contract of buf.c (verified under P09)', requires=[('nonempty', 'buffer.buf_size[b] > 0')], modifies=['buffer.buf_size'], ensures=['buffer.buf_size == store(old(buffer.buf_size), b, old(buffer.buf_size[b]) - 1)'])
S.fn('empty_buf', params=['b'], trusted='contract of buf.c (verified under P09)', ensures=['(result != 0) == (buffer.buf_size[b] == 0)'])
TRF = 'forall(e, implies(EV[e], gbv.bp[e+{h}] == old(gbv.bp)[e+{h}] and gbv.bp[e+{l}] == old(gbv.bp)[e+{l}]), pat=EV[e]) and forall(j, implies({i}, gbv.bp[j] == old(gbv.bp)[j]), pat=gbv.bp[j])'.format(h=HO, l=LO_, i=' or '.join('INB(j, %s)' % b for b in BUFS))
TH, TL_ = 'offs(trace_event_rec.H)', 'offs(trace_event_rec.L)'
S.define('TK', ['i_'], 'pr(trace_tblp, i_)')
S.define('I_trace', [], '''TR[0] == 0 and not TV[0] and forall(k, implies(k > 0 and p1(k) == trace_tblp and HT[k] != 0, TR[HT[k]] == k), pat=HT[k]) and forall(x, implies(nb(x) and TR[x] != 0 and trace_rec.events[x] != 0, TV[trace_rec.events[x]] and TO[trace_rec.events[x]] == TR[x]), pat=nb(x))
   and forall(x, implies(TV[x], OUTB(x+{h}) and OUTB(x+{l}) and x+{h} != addr(c_ONE) and x+{l} != addr(c_ONE) and x+{h} != addr(c_ZERO) and x+{l} != addr(c_ZERO)), pat=TV[x]) and forall(x, e, implies(TV[x] and EV[e], x + 32 <= e or e + 32 <= x), pat=(TV[x], EV[e])) and forall(x, y, implies(TV[x] and TV[y] and x != y, x + 32 <= y or y + 32 <= x), pat=(TV[x], TV[y]))'''.format(h=TH, l=TL_))
TRM = ['HT', 'gbv.bp', 'gbv.f', 'gbv.ai', 'TR', 'TV', 'TO', 'trace_rec.events', 'trace_rec.nd_idx'] + ['trace_event_rec.' + f for f in ('time', 'next')]
S.fn('record_trace', requires=[('tab', 'I_tabs'), ('shape', 'SHAPE'), ('lists', 'I_list'), ('ranks', 'I_rank'), ('sep', 'SEP'), ('const', 'K'), ('trace', 'I_trace'), ('idx', '0 <= idx')], modifies=TRM,
  ensures=[('tab', 'I_tabs'), ('trace', 'I_trace'), ('tabs', 'forall(k, implies(p1(k) != trace_tblp or (k > 0 and k != TK(idx)), HT[k] == old(HT)[k]), pat=HT[k])'), ('frame', TRF), ('consts', 'gbv.bp[addr(c_ONE)] == old(gbv.bp)[addr(c_ONE)] and gbv.bp[addr(c_ZERO)] == old(gbv.bp)[addr(c_ZERO)]'),
    ('recorded', 'HT[TK(idx)] != 0 and trace_rec.events[HT[TK(idx)]] != 0 and T(gbv.bp[trace_rec.events[HT[TK(idx)]] + {h}]) == T(H.bp) and T(gbv.bp[trace_rec.events[HT[TK(idx)]] + {l}]) == T(L.bp)'.format(h=TH, l=TL_)),
    ('history', '''forall(x, implies(nb(x) and old(TR)[x] != 0 and old(TR)[x] != TK(idx), TR[x] == old(TR)[x] and trace_rec.events[x] == old(trace_rec.events)[x]), pat=nb(x)) and
       implies(old(HT)[TK(idx)] != 0, HT[TK(idx)] == old(HT)[TK(idx)] and (trace_rec.events[HT[TK(idx)]] == old(trace_rec.events[HT[TK(idx)]]) or (trace_event_rec.next[trace_rec.events[HT[TK(idx)]]] == old(trace_rec.events[HT[TK(idx)]]) and not old(TV)[trace_rec.events[HT[TK(idx)]]] and trace_event_rec.time[trace_rec.events[HT[TK(idx)]]] == time))) and
       implies(old(HT)[TK(idx)] == 0, trace_event_rec.next[trace_rec.events[HT[TK(idx)]]] == 0 and trace_event_rec.time[trace_rec.events[HT[TK(idx)]]] == time)'''),
    ('other values', '''forall(x, implies(old(TV)[x], TV[x] and trace_event_rec.next[x] == old(trace_event_rec.next)[x] and trace_event_rec.time[x] == old(trace_event_rec.time)[x] and ((x == trace_rec.events[HT[TK(idx)]] and trace_event_rec.time[x] == time) or (gbv.bp[x+{h}] == old(gbv.bp)[x+{h}] and gbv.bp[x+{l}] == old(gbv.bp)[x+{l}]))), pat=TV[x])'''.format(h=TH, l=TL_))] + kept(None),
  at={'entry': [('touch', 'nb(HT[TK(idx)])', 'EV[0]', 'TV[trace_rec.events[HT[TK(idx)]]]')], 'call:new_rec': [], 'call:insert_hash': [('ghost', 'TR', 'store(TR, arg2, TK(idx))'), ('touch', 'nb(arg2)')], 
      'exit': [('ghost', 'TV', 'store(TV, trace_rec.events[HT[TK(idx)]], True)'), ('ghost', 'TO', 'store(TO, trace_rec.events[HT[TK(idx)]], TK(idx))'), ('touch', 'nb(HT[TK(idx)])')] + byframe()})
def frames(k): return [('use', '{c}_frame({a}, LO, RK, pr({t},J), {o}, HT[pr({t},J)])'.format(c=c, t=t, o=o, a='N0,E0,G0,%s,%s,gbv.bp' % (NX, EP) if k == 0 else '%s,%s,G1,%s,%s,gbv.bp' % (NX, EP, NX, EP)).replace('LO, RK', 'L0, R0' if k == 0 else 'LO, RK').replace('HT[', 'H0[' if k == 0 else 'HT[') ) for t, b, f, c in TABS for o in (HO, LO_)]
LIVE = [('shape', 'SHAPE'), ('sep', 'SEP'), ('lists', 'I_list'), ('ranks', 'I_rank'), ('tabs', 'I_tabs'), ('const', 'K'), ('trace', 'I_trace'),
  ('queue', 'mem.p == old(mem.p) and event_bufp != nodesp and event_bufp != compositesp and buffer.item_size[event_bufp] == 8 and buffer.data[event_bufp] > 0 and buffer.buf_size[event_bufp] < 100000000 and forall(i, implies(0 <= i and i < buffer.buf_size[event_bufp], EV[mem.p[at(buffer.data[event_bufp], i, 8)]]), pat=at(buffer.data[event_bufp], i, 8))')] + AGREE + [('change noticed', 'implies(CHG, nnode_rec.has_ant_or_weak_change[NODE(J)] != 0)')]
ADDOK = lambda b: 'event_rec.type[arg1] == ite(arg0 == active_weak_tblp, {0}, ite(arg0 == active_ant_tblp, {1}, {2})) and TBS(arg0) and arg1 == ep'.format(b, b+1, b+2)
CALLED = [('ghost', 'LASTE', 'arg1'), ('ghost', 'CHG', 'CHG or (arg0 != active_cons_tblp and event_rec.nd_idx[arg1] == J)')]
S.fn('process_event', merge='small', requires=LIVE + [('t', '0 <= time')], ensures=LIVE + [('all done', 'buffer.buf_size[event_bufp] == 0 or event_rec.time[mem.p[at(buffer.data[event_bufp], buffer.buf_size[event_bufp]-1, 8)]] > time')],
  modifies=LM + TRM[1:] + ['mem.p', 'buffer.buf_size', 'N0', 'E0', 'G0', 'L0', 'R0', 'H0', 'G1', 'FST', 'LASTE', 'CHG', 'ncomp_rec.no_weakening'] + ['nnode_rec.' + f for f in 'has_trace has_weak has_ant has_cons has_ant_or_weak_change'.split()],
  loops={0: dict(inv=LIVE + [('done', 'implies(done != 0, buffer.buf_size[event_bufp] > 0 and event_rec.time[mem.p[at(buffer.data[event_bufp], buffer.buf_size[event_bufp]-1, 8)]] > time)')]),
    1: dict(inv=[('walk', 'cur_active == 0 or LO[cur_active] != 0'), ('conj', 'is_weak != 0 or ((T(H.bp) and cj({N},{E},gbv.bp,{h},cur_active)) == cj({N},{E},gbv.bp,{h},FST) and (T(L.bp) and cj({N},{E},gbv.bp,{l},cur_active)) == cj({N},{E},gbv.bp,{l},FST))'.format(N=NX, E=EP, h=HO, l=LO_)),
      ('disj', 'is_weak == 0 or ((T(H.bp) or dj({N},{E},gbv.bp,{h},cur_active)) == dj({N},{E},gbv.bp,{h},FST) and (T(L.bp) or dj({N},{E},gbv.bp,{l},cur_active)) == dj({N},{E},gbv.bp,{l},FST))'.format(N=NX, E=EP, h=HO, l=LO_))])},
  at={'loop0': [('ghost', 'N0', NX), ('ghost', 'E0', EP), ('ghost', 'G0', 'gbv.bp'), ('ghost', 'L0', 'LO'), ('ghost', 'R0', 'RK'), ('ghost', 'H0', 'HT'), ('ghost', 'LASTE', '0'), ('touch', 'at(buffer.data[event_bufp], buffer.buf_size[event_bufp]-1, 8)', 'at(weak_buf,2*J,8)', 'at(ant_buf,2*J,8)', 'at(cons_buf,2*J,8)', 'at(weak_buf,2*J+1,8)', 'at(ant_buf,2*J+1,8)', 'at(cons_buf,2*J+1,8)')],
      'call:add_active_event': [('assert', ADDOK(0), 'added to its list')] + CALLED, 'call:delete_active_event': [('assert', ADDOK(4), 'removed from its list')] + CALLED,
      'loop1_pre': [('ghost', 'FST', 'cur_active'), ('ghost', 'G1', 'gbv.bp'), ('touch', 'nb(FST)')],
      'loop1': [('touch', 'nb(cur_active)')] + [('use', 'unfold(%s(%s,%s,gbv.bp,%s,cur_active))' % (f, NX, EP, o)) for f in ('cj', 'dj') for o in (HO, LO_)],
      'loop1_exit': [('use', 'unfold(%s(%s,%s,gbv.bp,%s,cur_active))' % (f, NX, EP, o)) for f in ('cj', 'dj') for o in (HO, LO_)],
      'before:pop_buf': [('assert', 'event_rec.type[ep] == 3 or event_rec.type[ep] == 7 or LASTE == ep', 'applied'), ('assert', 'np == NODE(idx) and 0 <= idx and idx < NN', 'node'), ('assert', 'K', 'constants'), ('touch', 'nb(FST)', 'nb(H0[pr(active_weak_tblp,J)])')] + frames(1)})
# ---- a phase: inputs are released, registers take the value computed in the phase before
S.ghost('UC', 'Int'); S.ghost('UH', 'Bool'); S.ghost('UL', 'Bool'); S.ghost('UT', 'Int')     # updates of node J: count, and the values and time of the last one
S.fn('update_node', params=['ste', 'idx', 'Hnew', 'Lnew'], trusted='contract of ste_gates.py: writes only cur_buf and validTrajectory', modifies=['gbv.bp', 'gbv.f', 'gbv.ai', 'UC', 'UH', 'UL', 'UT', 'ncomp_rec.flag', 'nbr_errors_reported', 'buffer.buf_size', 'mem.p'],
  ensures=[('J', 'ite(idx == J, UC == old(UC) + 1 and UH == T(Hnew.bp) and UL == T(Lnew.bp) and UT == ste_rec.cur_time[ste], UC == old(UC) and UH == old(UH) and UL == old(UL) and UT == old(UT))'),
    ('frame', 'K and forall(j, implies(INB(j, next_buf), gbv.bp[j] == old(gbv.bp)[j]), pat=gbv.bp[j]) and buffer.buf_size[nodesp] == old(buffer.buf_size)[nodesp]')])
REL = 'J > 3 and old(nnode_rec.composite)[NODE(J)] == -1'; REG = 'old(nnode_rec.has_phase_event)[NODE(J)] != 0'
def phase(done): return ('node J', 'ite(%s and (%s), UC == old(UC) + 1 and UH and UL and UT == old(ste_rec.cur_time[ste]) + 1, ite(%s and %s, UC == old(UC) + 1 and UH == T(old(gbv.bp)[at(next_buf,2*J,8)]) and UL == T(old(gbv.bp)[at(next_buf,2*J+1,8)]) and UT == old(ste_rec.cur_time[ste]) + 1 and nnode_rec.has_phase_event[NODE(J)] == 0, UC == old(UC) and nnode_rec.has_phase_event[NODE(J)] == old(nnode_rec.has_phase_event)[NODE(J)]))' % (done, REL, done, REG))
PH = [('shape', 'NN == buffer.buf_size[nodesp] and buffer.item_size[nodesp] == 32 and NN < 67108864 and buffer.data[nodesp] > 0 and 0 <= J and J < NN and heap0() < next_buf'), ('const', 'K')]
S.fn('do_phase', requires=PH + [('t', '0 <= ste_rec.cur_time[ste] and ste_rec.cur_time[ste] < 1000000000')], ensures=[phase('True'), ('time', 'ste_rec.cur_time[ste] == old(ste_rec.cur_time[ste])')],
  modifies=['gbv.bp', 'gbv.f', 'gbv.ai', 'UC', 'UH', 'UL', 'UT', 'ncomp_rec.flag', 'nbr_errors_reported', 'buffer.buf_size', 'mem.p', 'nnode_rec.has_phase_event', 'ste_rec.cur_time'],
  loops={0: dict(inv=PH + [('pos', '0 <= idx and idx <= NN and np == NODE(idx) and ste_rec.cur_time[ste] == old(ste_rec.cur_time[ste]) + 1'), phase('J < idx'), ('next', 'forall(j, implies(INB(j, next_buf), gbv.bp[j] == old(gbv.bp)[j]), pat=gbv.bp[j])'),
      ('later', 'forall(k, implies(idx <= k and k < NN, nnode_rec.has_phase_event[NODE(k)] == old(nnode_rec.has_phase_event)[NODE(k)]), pat=nb(k))')], decreases='NN - idx')},
  at={'loop0': [('touch', 'nb(idx)', 'nb(J)', 'at(next_buf,2*J,8)', 'at(next_buf,2*J+1,8)')]})
S.fn('Malloc', params=['n'], trusted='allocation', ensures=['result > heap0()'])
S.fn('allocate_value_buf', requires=[('size', '0 <= sz and sz < 67108864')], ensures=[('filled', 'forall(k, implies(0 <= k and k < sz, gbv.bp[at(result,2*k,8)] == H.bp and gbv.bp[at(result,2*k+1,8)] == L.bp), pat=nb(k))')], modifies=['gbv.bp', 'gbv.f', 'gbv.ai'],
  loops={0: dict(inv=[('i', '0 <= i and i <= sz'), ('filled', 'forall(k, implies(0 <= k and k < i, gbv.bp[at(res,2*k,8)] == H.bp and gbv.bp[at(res,2*k+1,8)] == L.bp), pat=nb(k))')], decreases='sz - i')})
# ---- combinational relaxation ends only when no operator is waiting
S.define('WB', ['r'], 'buffer.data[sim_wheel_bufp] + 24*(r)')
S.fn('do_wl_op', params=['ste', 'op'], trusted='evaluates one operator and may schedule others', modifies=['gbv.bp', 'gbv.f', 'gbv.ai', 'buffer.buf_size', 'ncomp_rec.flag', 'mem.p'], ensures=['buffer.buf_size[sim_wheel_bufp] == old(buffer.buf_size)[sim_wheel_bufp]'])
S.ghost('EVAL', 'Int')
S.fn('pop_buf', params=['b', 'p'], trusted='contract of buf.c (verified under P09)', requires=[('nonempty', 'buffer.buf_size[b] > 0')], modifies=['buffer.buf_size', 'mem.p'], ensures=['buffer.buf_size == store(old(buffer.buf_size), b, old(buffer.buf_size[b]) - 1)', 'implies(p == 0, mem.p == old(mem.p))'])
WH = [('wheel', '0 < buffer.buf_size[sim_wheel_bufp] and buffer.buf_size[sim_wheel_bufp] < 60000000 and buffer.item_size[sim_wheel_bufp] == 24 and buffer.data[sim_wheel_bufp] > 0 and (sim_wheel_bufp + 24 <= buffer.data[sim_wheel_bufp] or sim_wheel_bufp >= buffer.data[sim_wheel_bufp] + 24*buffer.buf_size[sim_wheel_bufp])')]
IDLE = 'forall(r, implies(%s and r < buffer.buf_size[sim_wheel_bufp], buffer.buf_size[WB(r)] == 0), pat=nb(r))'
S.fn('do_combinational', requires=WH, ensures=[('relaxed', 'result == -1 or ' + IDLE % '0 <= r')], modifies=['gbv.bp', 'gbv.f', 'gbv.ai', 'buffer.buf_size', 'ncomp_rec.flag', 'mem.p'], overflow=False,
  loops={0: dict(inv=WH + [('relaxed', 'empty == 0 or ' + IDLE % '0 <= r')]),
         1: dict(inv=WH + [('rank', '0 <= rank and rank < buffer.buf_size[sim_wheel_bufp]'), ('relaxed', 'empty == 0 or ' + IDLE % 'rank < r')]),
         2: dict(inv=WH + [('rank', '0 <= rank and rank < buffer.buf_size[sim_wheel_bufp]'), ('busy', 'empty == 0'), ('bp', 'bp == WB(rank)')])},
  at={'loop1_end': [('touch', 'nb(rank)', 'nb(head(rank))')], 'loop1': [('touch', 'nb(rank)')]})
