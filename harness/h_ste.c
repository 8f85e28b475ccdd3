/* Replay harness: the gate evaluators of fsm.c against bit-level arithmetic on every completion of ternary operands. */
#include "fsm.c"
#include "hcommon.h"
#include "hfl.h"
typedef unsigned __int128 u128;
#define MX 200
static int inp[MX], res[MX]; static int nin, nout;     /* value codes: bit0 = L, bit1 = H */
static gbv ih[2*MX], oh[2*MX];
static gbv K(int b) { return b ? c_ONE : c_ZERO; }
static int isone(gbv g, int bx) { if (bx ? g.bp == c_ONE.bp : g.f == c_ONE.f) return 1; if (bx ? g.bp == c_ZERO.bp : g.f == c_ZERO.f) return 0; h_fail("result is not a constant"); return 0; }
static void runop(void (*op)(ncomp_ptr), ncomp_ptr cp, int bx) {
    gbv one = c_ONE;
    for (int i = 0; i < nin; i++) { ih[2*i] = K(inp[i] >> 1); ih[2*i+1] = K(inp[i] & 1); }
    for (int i = 0; i < 2*nout; i++) oh[i] = one;
    gbv_inps = ih; gbv_outs = oh;
    op(cp);
    for (int i = 0; i < nout; i++) res[i] = 2*isone(oh[2*i], bx) + isone(oh[2*i+1], bx);
}
static u128 vec(int *b, int off, int n) { u128 r = 0; for (int i = 0; i < n; i++) r = 2*r + b[off+i]; return r; }
static void unvec(u128 v, int *o, int n) { for (int i = n-1; i >= 0; i--) { o[i] = v & 1; v >>= 1; } }
static int idxs[MX]; static int nidx; static int asz, dsz, lns, wext;
static int ref(const char *nm, int n, int *b, int *o) {    /* concrete semantics on bits b */
    u128 m = n >= 128 ? ~(u128)0 : (((u128)1 << n) - 1);
    if (!strcmp(nm, "AND")) for (int i = 0; i < n; i++) o[i] = b[i] & b[n+i];
    else if (!strcmp(nm, "OR")) for (int i = 0; i < n; i++) o[i] = b[i] | b[n+i];
    else if (!strcmp(nm, "NOT")) for (int i = 0; i < n; i++) o[i] = !b[i];
    else if (!strcmp(nm, "VAR") || !strcmp(nm, "WIRE")) for (int i = 0; i < n; i++) o[i] = b[i];
    else if (!strcmp(nm, "ADD")) unvec((vec(b,0,n) + vec(b,n,n)) & m, o, n);
    else if (!strcmp(nm, "SUB")) unvec((vec(b,0,n) - vec(b,n,n)) & m, o, n);
    else if (!strcmp(nm, "MUL")) unvec((vec(b,0,n) * vec(b,n,n)) & m, o, n);
    else if (!strcmp(nm, "DIV")) { u128 q = vec(b,n,n); unvec(q ? vec(b,0,n) / q : m, o, n); }
    else if (!strcmp(nm, "MOD")) { u128 q = vec(b,n,n); unvec(q ? vec(b,0,n) % q : vec(b,0,n), o, n); }
    else if (!strcmp(nm, "EQ")) o[0] = vec(b,0,wext) == vec(b,wext,wext);
    else if (!strcmp(nm, "GR")) o[0] = vec(b,0,wext) > vec(b,wext,wext);
    else if (!strcmp(nm, "ITE")) for (int i = 0; i < n; i++) o[i] = b[0] ? b[1+i] : b[1+n+i];
    else if (!strcmp(nm, "SHL")) { u128 k = vec(b,n,n); for (int i = 0; i < n; i++) o[i] = (k < (u128)n && i + (int)k < n) ? b[i+(int)k] : 0; }
    else if (!strcmp(nm, "SHR")) { u128 k = vec(b,n,n); for (int i = 0; i < n; i++) o[i] = (k < (u128)n && i - (int)k >= 0) ? b[i-(int)k] : 0; }
    else if (!strcmp(nm, "ASHR")) { u128 k = vec(b,n,n); for (int i = 0; i < n; i++) o[i] = (k < (u128)n && i - (int)k >= 0) ? b[i-(int)k] : b[0]; }
    else if (!strcmp(nm, "SX")) for (int i = 0; i < n; i++) o[i] = (wext - n + i >= 0) ? b[wext-n+i] : b[0];
    else if (!strcmp(nm, "ZX")) for (int i = 0; i < n; i++) o[i] = (wext - n + i >= 0) ? b[wext-n+i] : 0;
    else if (!strcmp(nm, "SLICE")) for (int i = 0; i < n; i++) o[i] = b[idxs[i]];
    else if (!strcmp(nm, "UPDATE_SLICE")) { for (int i = 0; i < n; i++) o[i] = b[i]; for (int k = 0; k < nidx; k++) o[idxs[k]] = b[n+k]; }
    else if (!strcmp(nm, "MEM_READ")) { int a = vec(b,0,asz); if (a >= lns) return 0; for (int i = 0; i < dsz; i++) o[i] = b[asz+(lns-1-a)*dsz+i]; }
    else if (!strcmp(nm, "MEM_WRITE")) { int a = vec(b,0,asz); for (int l = 0; l < lns; l++) for (int i = 0; i < dsz; i++) o[(lns-1-l)*dsz+i] = l == a ? b[asz+i] : b[asz+dsz+(lns-1-l)*dsz+i]; }
    return 1;
}
static struct { const char *nm; void (*f)(ncomp_ptr); } OPS[] = { {"AND",op_AND},{"OR",op_OR},{"NOT",op_NOT},{"VAR",op_VAR},{"WIRE",op_WIRE},{"ADD",op_ADD},{"SUB",op_SUB},{"MUL",op_MUL},{"DIV",op_DIV},{"MOD",op_MOD},
  {"EQ",op_EQ},{"GR",op_GR},{"ITE",op_ITE},{"SHL",op_SHL},{"SHR",op_SHR},{"ASHR",op_ASHR},{"SX",op_SX},{"ZX",op_ZX},{"SLICE",op_SLICE},{"UPDATE_SLICE",op_UPDATE_SLICE},{"MEM_READ",op_MEM_READ},{"MEM_WRITE",op_MEM_WRITE} };
static idx_list_rec il[MX];
static void one(int k, int n, int mode, int bx) {
    ncomp_rec c; memset(&c, 0, sizeof c); const char *nm = OPS[k].nm; c.op = OPS[k].f;
    c.size = n; nout = n; nin = 2*n; wext = 1 + rn(n + 2);
    if (!strcmp(nm,"NOT") || !strcmp(nm,"VAR") || !strcmp(nm,"WIRE")) nin = n;
    if (!strcmp(nm,"EQ") || !strcmp(nm,"GR")) { c.arg.extension_size = wext = n; c.size = 1; nout = 1; nin = 2*n; }
    if (!strcmp(nm,"SX") || !strcmp(nm,"ZX")) { c.arg.extension_size = wext; nin = wext; }
    if (!strcmp(nm,"ITE")) { nin = 1 + 2*n; RCaccurate_ite_comp = rn(2); }
    nidx = 0;
    if (!strcmp(nm,"SLICE") || !strcmp(nm,"UPDATE_SLICE")) {
        int up = nm[0] == 'U'; nidx = up ? rn(n + 1) : n; nin = up ? n + nidx : n + rn(3);
        for (int i = 0; i < nidx; i++) { idxs[i] = rn(up ? n : nin); il[i].idx = idxs[i]; il[i].next = i + 1 < nidx ? &il[i+1] : NULL; }
        c.arg.idx_list = nidx ? il : NULL;
    }
    if (!strncmp(nm,"MEM",3)) {
        if (n > 4) n = 1 + rn(4); asz = 1 + rn(3); lns = 1 + rn(1 << asz); dsz = n; c.arg.mem.addr_size = asz; c.arg.mem.data_size = dsz; c.arg.mem.lines = lns;
        if (nm[4] == 'R') { nin = asz + lns*dsz; nout = c.size = dsz; } else { nin = asz + dsz + lns*dsz; nout = c.size = lns*dsz; }
    }
    if (nin > MX || nout > MX) return;
    int nx = 0;
    for (int i = 0; i < nin; i++) { int r = rn(2); inp[i] = r ? 2 : 1; if (mode && rn(mode) == 0) { inp[i] = 3; nx++; } }
    if (mode == 0 && n > 30 && rn(2)) for (int i = n; i < 2*n && i < nin; i++) inp[i] = rn(10) ? 1 : 2;   /* sparse second operand: large powers of two */
    h_desc("op_%s size=%d ext=%d lines=%d accurate_ite=%d domain=%s in=", nm, n, wext, lns, RCaccurate_ite_comp, bx ? "bexpr" : "bdd");
    for (int i = 0; i < nin; i++) h_add("%c", inp[i] == 3 ? 'X' : inp[i] == 2 ? '1' : '0');
    if (nidx) { h_add(" idx="); for (int i = 0; i < nidx; i++) h_add("%d,", idxs[i]); }
    h_tick(20);
    runop(OPS[k].f, &c, bx);
    h_add(" out="); for (int i = 0; i < nout; i++) h_add("%c", "T01X"[res[i]]);
    int b[MX], o[MX];
    long tot = nx > 12 ? 4096 : 1L << nx;
    for (long t = 0; t < tot; t++) {
        int x = 0;
        for (int i = 0; i < nin; i++) { if (inp[i] == 3) { b[i] = nx > 12 ? (int)rn(2) : (t >> x) & 1; x++; } else b[i] = inp[i] >> 1; }
        if (!ref(nm, n, b, o)) continue;
        for (int i = 0; i < nout; i++) {
            if (!(res[i] & (o[i] ? 2 : 1))) h_fail("output bit %d excludes the possible value %d", i, o[i]);
            if (nx == 0 && res[i] == 3) h_fail("output bit %d is X although every input is two-valued", i);
        }
    }
    for (int i = 0; i < nin; i++) if (isone(ih[2*i], bx) != inp[i] >> 1 || isone(ih[2*i+1], bx) != (inp[i] & 1)) h_fail("operand %d was overwritten", i);
}
static void leq(int n) {       /* LAT_LEQ: a <= b in the information order used by checkers */
    ncomp_rec c; memset(&c, 0, sizeof c); c.size = n; nin = 2*n; nout = n;
    for (int i = 0; i < nin; i++) inp[i] = rn(4);
    h_desc("op_LAT_LEQ size=%d in=", n); for (int i = 0; i < nin; i++) h_add("%d", inp[i]);
    runop(op_LAT_LEQ, &c, 0);
    for (int i = 0; i < n; i++) { int a = inp[i], b = inp[n+i]; int want = (a & ~b & 3) == 0; if (res[i] != (want ? 2 : 1)) h_fail("bit %d: got %d want %d", i, res[i], want); }
}
int main(int argc, char **argv) {
    h_init(argc, argv);
    h_fl_base(); h_fl_bdd(12); BE_Init();
    if (!tmps_buf.initialized) new_buf(&tmps_buf, 100, sizeof(gbv));
    int nops = sizeof OPS / sizeof OPS[0];
    switch_to_BDDs();
    for (int n = 1; n <= 5; n++) for (int k = 0; k < nops; k++) for (int r = 0; r < 30; r++) one(k, n, r % 4, 0);
    while (h_more()) {
        int bx = rn(4) == 0; if (bx) switch_to_bexprs(); else switch_to_BDDs();
        int k = rn(nops); int n = rn(4) ? 1 + rn(8) : 1 + rn(70);
        if ((!strcmp(OPS[k].nm,"MUL") || !strcmp(OPS[k].nm,"DIV") || !strcmp(OPS[k].nm,"MOD")) && n > 40) n = 40;
        one(k, n, rn(3) == 0 ? 0 : 1 + rn(8), bx);
        if (!bx) leq(1 + rn(6));
    }
    return h_done();
}
