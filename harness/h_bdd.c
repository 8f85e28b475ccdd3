/* Replay harness: BDD operations of new_bdd.c against truth tables.  MODE 1: Boolean operations; 2: quantification, substitution, relational product; 3: garbage collection, reordering, table growth, save/load. */
#include "new_bdd.c"
#include "hcommon.h"
#define T1 hx_T1
#define bit hx_bit
#define canon hx_canon
#define cube hx_cube
#define depends hx_depends
#define gc hx_gc
#define np_ hx_np_
#define pf hx_pf
#define pt hx_pt
#define put hx_put
#define quant hx_quant
#define same hx_same
#define setb hx_setb
#define step hx_step
#define structure hx_structure
#define tbin hx_tbin
#define teq hx_teq
#define tnot hx_tnot
#define varno hx_varno
#define vf hx_vf
#define vt hx_vt
#define walk hx_walk
#include "hfl.h"
#ifndef MODE
#define MODE 3
#endif
#define NV 7
#define NA (1 << NV)
#define NP 60
typedef struct { uint64_t w[2]; } tt;
static formula vf[NV]; static tt vt[NV];
static formula pf[NP]; static tt pt[NP]; static int np_;
static tt T0, T1;
static int bit(tt a, int i) { return (a.w[i >> 6] >> (i & 63)) & 1; }
static void setb(tt *a, int i, int b) { if (b) a->w[i >> 6] |= 1ULL << (i & 63); else a->w[i >> 6] &= ~(1ULL << (i & 63)); }
static tt tnot(tt a) { a.w[0] = ~a.w[0]; a.w[1] = ~a.w[1]; return a; }
static tt tbin(tt a, tt b, int op) { for (int i = 0; i < 2; i++) a.w[i] = op == 0 ? a.w[i] & b.w[i] : op == 1 ? a.w[i] | b.w[i] : a.w[i] ^ b.w[i]; return a; }
static int teq(tt a, tt b) { return a.w[0] == b.w[0] && a.w[1] == b.w[1]; }
static int varno[64];       /* VarTbl index -> harness variable */
static int walk(formula f, int as) {
    int neg = 0;
    for (int k = 0; k < 200; k++) {
        if (ISNOT(f)) { neg ^= 1; f = POS(f); }
        if (f == ZERO) return neg;
        unsigned v = BDD_GET_VAR(MainTbl + f);
        if (v >= nbr_VarTbl || v >= 64 || varno[v] < 0) h_fail("node %u is labelled with a variable (%u) outside the problem", f, v);
        f = ((as >> varno[v]) & 1) ? (MainTbl + f)->lson : (MainTbl + f)->rson;
    }
    h_fail("a path of the BDD does not end"); return 0;
}
static void same(formula f, tt t, const char *what) {
    for (int i = 0; i < NA; i++) if (walk(f, i) != bit(t, i)) h_fail("%s: assignment %d gives %d, should be %d", what, i, walk(f, i), bit(t, i));
}
static void canon(formula f, tt t) {
    for (int i = 0; i < np_; i++) {
        if (teq(pt[i], t) && pf[i] != f) h_fail("two BDDs (%u and %u) for the same function", f, pf[i]);
        if (B_Equal(pf[i], f) != teq(pt[i], t)) h_fail("B_Equal disagrees with equality of functions");
    }
    if (teq(t, T0) && f != B_Zero()) h_fail("a contradiction is not the constant F");
    if (teq(t, T1) && f != B_One()) h_fail("a tautology is not the constant T");
    for (int v = 0; v < NV; v++) if (teq(t, vt[v]) && f != vf[v]) h_fail("variable not canonical");
}
static void structure(void) {     /* every stored node: ordered, reduced, unique */
    static unsigned seen[1 << 16][3]; int n = 0;
    for (unsigned v = 0; v < nbr_VarTbl; v++) { var_ptr vp = VarTbl + v; unsigned cnt = 0;
        for (unsigned h = 0; h < vp->sz_uniq_tbl; h++) for (formula c = vp->uniq_tbl[h]; c != LNULL; c = (MainTbl + c)->next) {
            bdd_ptr b = MainTbl + c; cnt++;
            if (b->var != v) h_fail("node %u of variable %u is in the table of variable %u", c, b->var, v);
            if (b->lson == b->rson) h_fail("node %u is redundant", c);
            if (ISNOT(b->lson)) h_fail("node %u has a complemented first branch", c);
            if (POS(b->lson) && ORDER((MainTbl + POS(b->lson))->var) <= ORDER(v)) h_fail("node %u breaks the variable order", c);
            if (POS(b->rson) && ORDER((MainTbl + POS(b->rson))->var) <= ORDER(v)) h_fail("node %u breaks the variable order", c);
            if (n < 1 << 16) { seen[n][0] = v; seen[n][1] = b->lson; seen[n][2] = b->rson; n++; }
        }
    }
    int cmp(const void *a, const void *b) { return memcmp(a, b, 12); }
    qsort(seen, n, 12, cmp);
    for (int i = 1; i < n; i++) if (!memcmp(seen[i-1], seen[i], 12)) h_fail("two nodes with variable %u and branches %u %u", seen[i][0], seen[i][1], seen[i][2]);
}
static void put(formula f, tt t, const char *what) {
    same(f, t, what); canon(f, t);
    int k = np_ < NP ? np_++ : (int)rn(NP);
    pf[k] = f; pt[k] = t;
}
static tt quant(tt t, int v, int ex) {
    tt r = T0;
    for (int i = 0; i < NA; i++) { int a = bit(t, i | 1 << v), b = bit(t, i & ~(1 << v)); setb(&r, i, ex ? a | b : a & b); }
    return r;
}
static int depends(tt t, int v) { return !teq(quant(t, v, 1), quant(t, v, 0)); }
static formula cube(unsigned m) { formula c = ONE; for (int v = 0; v < NV; v++) if (m >> v & 1) c = rn(2) ? B_And(c, vf[v]) : B_And(vf[v], c); return c; }
static void gc(int reorder) {
    for (int i = 0; i < np_; i++) PUSH_BDD_GC(pf[i]);
    insist_on_reorder = reorder; RCdo_dynamic_var_order = reorder;
    RCminimum_reduction = 0; RCoptimal_dynamic_var_order = rn(2); RCminsize_for_dyn_ordering = 0; RCdyn_var_repetitions = 1 + rn(2); RCelasticity = 1 + rn(3);
    Do_gc_asap = 1; Reset_Ref_cnts(); B_Clean();
    POP_BDD_GC(np_); RCdo_dynamic_var_order = FALSE;
    for (int i = 0; i < np_; i++) same(pf[i], pt[i], reorder ? "after reordering" : "after garbage collection");
    for (int i = 0; i < np_; i++) for (int j = 0; j < i; j++) if (teq(pt[i], pt[j]) != (pf[i] == pf[j])) h_fail("canonicity lost between entries %d and %d", i, j);
    structure();
}
static void step(void) {
    int k = rn(MODE == 1 ? 12 : MODE == 2 ? 20 : 14); int a = rn(np_), b = rn(np_), c = rn(np_); formula f, g = 0;
    switch (k) {
    case 0: h_desc("NOT of entry %d", a); put(B_Not(pf[a]), tnot(pt[a]), "NOT"); break;
    case 1: case 2: h_desc("AND"); put(B_And(pf[a], pf[b]), tbin(pt[a], pt[b], 0), "AND"); break;
    case 3: case 4: h_desc("OR"); put(B_Or(pf[a], pf[b]), tbin(pt[a], pt[b], 1), "OR"); break;
    case 5: case 6: h_desc("XOR"); put(B_Xor(pf[a], pf[b]), tbin(pt[a], pt[b], 2), "XOR"); break;
    case 7: h_desc("NAND"); put(B_Nand(pf[a], pf[b]), tnot(tbin(pt[a], pt[b], 0)), "NAND"); break;
    case 8: h_desc("NOR"); put(B_Nor(pf[a], pf[b]), tnot(tbin(pt[a], pt[b], 1)), "NOR"); break;
    case 9: h_desc("XNOR"); put(B_Xnor(pf[a], pf[b]), tnot(tbin(pt[a], pt[b], 2)), "XNOR"); break;
    case 10: h_desc("ITE"); put(B_Ite(pf[a], pf[b], pf[c]), tbin(tbin(pt[a], pt[b], 0), tbin(tnot(pt[a]), pt[c], 0), 1), "ITE"); break;
    case 11: { int w = rn(3); h_desc("F_%s", w == 0 ? "not" : w == 1 ? "and" : "or");
        if (w == 0) { F_not(pf[a], pf[b], &g); put(g, tnot(pt[a]), "F_not"); }
        if (w == 1) { F_and(pf[a], pf[b], &g); put(g, tbin(pt[a], pt[b], 0), "F_and"); }
        if (w == 2) { F_or(pf[a], pf[b], &g); put(g, tbin(pt[a], pt[b], 1), "F_or"); } break; }
#if MODE == 2
    case 12: { tt t = T1; h_desc("depends"); f = B_Depends(pf[a]);
        for (int v = 0; v < NV; v++) if (depends(pt[a], v)) t = tbin(t, vt[v], 0);
        put(f, t, "depends"); break; }
    case 13: case 14: case 15: { int ex = rn(2); unsigned m = rnd() & (NA - 1); if (rn(3)) m &= rnd(); tt t = pt[a];
        h_desc("%s over variables %x", ex ? "quant_thereis" : "quant_forall", m);
        f = cube(m); if (rn(2)) { for (int i = 0; i < 3; i++) B_And(pf[rn(np_)], f); B_And(pf[a], f); B_Or(pf[a], f); B_Xor(f, pf[a]); }
        g = ex ? B_thereis(B_Depends(f), pf[a]) : B_forall(B_Depends(f), pf[a]);
        for (int v = 0; v < NV; v++) if (m >> v & 1) t = quant(t, v, ex);
        put(g, t, "quantification"); break; }
    case 16: case 17: { int ex = rn(2); unsigned m = rnd() & (NA - 1); if (rn(3)) m &= rnd(); if (rn(8) == 0) b = a; tt t = tbin(pt[a], pt[b], 0);
        f = cube(m); if (rn(2)) { B_And(pf[a], f); B_And(f, pf[b]); }
        h_desc("%s over variables %x", ex ? "relprod_thereis" : "relprod_forall", m);
        formula x = pf[a], y = pf[b]; tt ty = pt[b]; if (rn(6) == 0) { x = ONE; t = pt[b]; }
        Begin_RelProd(); g = Rel_prod(B_Depends(f), x, y, ex); End_RelProd();
        for (int v = 0; v < NV; v++) if (m >> v & 1) t = quant(t, v, ex);
        put(g, t, "relational product"); 
tt tc = T1; for (int v = 0; v < NV; v++) if (m >> v & 1) tc = tbin(tc, vt[v], 0);
        same(B_And(y, f), tbin(ty, tc, 0), "AND after a relational product"); same(B_And(f, y), tbin(ty, tc, 0), "AND after a relational product"); break; }
    default: { int n = 1 + rn(4); int vs[4]; int ei[4]; tt r = T0; char ok = 1;
        for (int i = 0; i < n; i++) { vs[i] = rn(NV); ei[i] = rn(np_); for (int j = 0; j < i; j++) if (vs[j] == vs[i]) ok = 0; }
        if (!ok) break;
        h_desc("substitute"); for (int i = 0; i < n; i++) h_add(" v%d:=entry%d", vs[i], ei[i]);
        subst_rec_mgr_in_use = TRUE; new_mgr(&subst_rec_mgr, sizeof(subst_rec));
        subst_cache_rec_mgr_in_use = TRUE; new_mgr(&subst_cache_rec_mgr, sizeof(subst_cache_rec));
        create_hash(&subs_tbl, 100, subst_hash, subst_eq);
        subst_ptr s = NULL;
        for (int i = 0; i < n; i++) s = add_to_subs(s, vf[vs[i]], pf[ei[i]]);
        g = b_substitute(pf[a], s);
        for (int x = 0; x < NA; x++) { int y = x; for (int i = 0; i < n; i++) { if (bit(pt[ei[i]], x)) y |= 1 << vs[i]; else y &= ~(1 << vs[i]); } setb(&r, x, bit(pt[a], y)); }
        dispose_hash(&subs_tbl, NULLFCN); free_mgr(&subst_rec_mgr); free_mgr(&subst_cache_rec_mgr); subst_rec_mgr_in_use = FALSE; subst_cache_rec_mgr_in_use = FALSE;
        put(g, r, "substitution"); break; }
#else
    case 12: case 13: if (rn(6) == 0) { int r = rn(2); h_desc("%s", r ? "garbage collection with reordering" : "garbage collection"); gc(r); } break;
#endif
    }
}
int main(int argc, char **argv) {
    h_init(argc, argv);
    h_fl_base();
    for (int i = 0; i < 2; i++) { T0.w[i] = 0; T1.w[i] = ~0ULL; }
    memset(varno, -1, sizeof varno);
    h_fl_bdd(MODE == 3 ? 8 : 10 + rn(3));
    v_order_fp = fopen("/dev/null", "w"); RCverbose_GC = 0; RCverbose_dynamic_ordering = 0; RCdo_dynamic_var_order = 0;
    h_tick(60);
    for (int v = 0; v < NV; v++) {
        char nm[20]; sprintf(nm, "hv%d", v); h_desc("variable %s", nm);
        vf[v] = B_Var(wastrsave(stringsp, nm));
        if (B_Var(wastrsave(stringsp, nm)) != vf[v]) h_fail("a variable has two BDDs");
        varno[BDD_GET_VAR(MainTbl + POS(vf[v]))] = v;
        for (int i = 0; i < NA; i++) setb(&vt[v], i, i >> v & 1);
        same(vf[v], vt[v], "variable");
    }
    long rounds = 0;
    while (h_more()) {
        h_tick(60);
        if (rounds++ % 400 == 0) { np_ = 0; put(ONE, T1, "T"); put(ZERO, T0, "F"); for (int v = 0; v < NV; v++) put(vf[v], vt[v], "variable"); }
        step();
        if (rounds % 2000 == 0) structure();
        if (MODE != 3 && rounds % 20000 == 0) { Do_gc_asap = 0; }
    }
    structure();
    return h_done();
}
