/* Replay harness: hash tables, growable buffers, record managers, unique buffers and string managers against naive models. */
#include "hash.h"
#include "buf.h"
#include "rec.h"
#include "uniq_buf.h"
#include "strmgr.h"
#include "hcommon.h"
/* ---------------------------------------------------------------- hash tables */
static unint bad_hash(pointer k, unint n) { return (((unsigned long)k) & 3) % n; }       /* many collisions */
static unint mod_hash(pointer k, unint n) { return (((unsigned long)k) >> 4) % 7 % n; }
static bool low_eq(pointer a, pointer b) { return (((unsigned long)a) & 0xffff) == (((unsigned long)b) & 0xffff); }
static unint low_hash(pointer k, unint n) { return (((unsigned long)k) & 0xffff) % n; }
#define MAXK 6000
typedef struct { hash_record h; int kind; int n; pointer key[MAXK], data[MAXK]; int seen[MAXK]; int frozen; } tab;
static tab T[3]; static tab *scanning; static int scanned;
static bool keq(int kind, pointer a, pointer b) { return kind == 0 ? strcmp((char *)a, (char *)b) == 0 : kind == 4 ? low_eq(a, b) : a == b; }
static int lookup(tab *t, pointer k) { for (int i = 0; i < t->n; i++) if (keq(t->kind, t->key[i], k)) return i; return -1; }
static pointer newkey(int kind, int range) {
    unsigned long v = rn(range);
    if (kind == 0) { char b[40]; int l = 0; if (rn(4) == 0) while (l < (int)rn(20)) b[l++] = 'a' + rn(3); snprintf(b + l, 20, "%lu", v % 7 == 0 ? v : v * 977); return strdup(b); }
    if (kind == 1) return (pointer)(v * (rn(2) ? 1 : 1));
    if (kind == 4) return (pointer)(v | ((unsigned long)rn(5) << 16));
    return (pointer)(v << 3);
}
static void show(tab *t, pointer k) { if (t->kind == 0) h_add("%s", (char *)k); else h_add("0x%lx", (unsigned long)k); }
static void scan_fn(pointer k, pointer d) {
    scanned++;
    for (int i = 0; i < scanning->n; i++) if (scanning->key[i] == k && scanning->data[i] == d) { if (scanning->seen[i]++) h_fail("scan visited a binding twice"); return; }
    h_fail("scan visited a binding that is not in the table");
}
static int disposed; static void disp_fn(pointer k, pointer d) { disposed++; scan_fn(k, d); }
static void scan(tab *t) { scanning = t; scanned = 0; for (int i = 0; i < t->n; i++) t->seen[i] = 0; scan_hash(&t->h, scan_fn); if (scanned != t->n) h_fail("scan visited %d of %d bindings", scanned, t->n); }
static void hash_case(void) {
    h_desc("hash tables:");
    static unint (*hf[])(pointer, unint) = { str_hash, int_hash, ptr_hash, bad_hash, low_hash, mod_hash }; static bool (*he[])(pointer, pointer) = { str_equ, int_equ, ptr_equ, ptr_equ, low_eq, ptr_equ };
    int nt = 1 + rn(3), range = rn(3) == 0 ? 5 + rn(10) : rn(2) ? 50 + rn(200) : 2000 + rn(4000), big = rn(6) == 0;
    for (int t = 0; t < nt; t++) { T[t].kind = rn(6); T[t].n = 0; unint sz = rn(3) ? rn(30) : rn(600); create_hash(&T[t].h, sz, hf[T[t].kind], he[T[t].kind]); if (T[t].kind != 4 && rn(8) == 0) freeze_size_hash(&T[t].h);
        h_add(" create(t%d,%u,kind %d)", t, sz, T[t].kind); }
    int ops = big ? 4000 : rn(2) ? 300 : 40, del = rn(4);
    for (int o = 0; o < ops && h_more(); o++) {
        int ti = rn(nt); tab *t = &T[ti]; int op = rn(12);
        if (op < 6) { pointer k = newkey(t->kind, range), d = (pointer)(unsigned long)(1 + rn(1 << 20)); int i = lookup(t, k);
            if (ops <= 300) { h_add(" ins(t%d,", ti); show(t, k); h_add(")"); }
            if (rn(2)) { bool r = insert_check_hash(&t->h, k, d); if (r != (i < 0)) h_fail("insert_check_hash answered %d for a key that is %s", r, i < 0 ? "absent" : "present"); }
            else if (i < 0) insert_hash(&t->h, k, d);
            if (i < 0 && t->n < MAXK - 1) { t->key[t->n] = k; t->data[t->n] = d; t->n++; } }
        else if (op < 6 + del) { if (t->n) { int i = rn(t->n); if (rn(3) == 0) i = rn(2) ? 0 : t->n - 1;
            if (ops <= 300) { h_add(" del(t%d,", ti); show(t, t->key[i]); h_add(")"); }
            pointer k = t->kind == 0 ? strdup(t->key[i]) : t->kind == 4 ? (pointer)(((unsigned long)t->key[i]) ^ ((unsigned long)rn(5) << 20)) : t->key[i]; delete_hash(&t->h, k); t->n--; t->key[i] = t->key[t->n]; t->data[i] = t->data[t->n]; } }
        else { pointer k = rn(2) && t->n ? t->key[rn(t->n)] : newkey(t->kind, range); int i = lookup(t, k); pointer r = find_hash(&t->h, k);
            if (r != (i < 0 ? NULL : t->data[i])) { h_add(" find(t%d,", ti); show(t, k); h_add(")"); h_fail("find_hash returned %p, the table holds %p (%d bindings)", r, i < 0 ? NULL : t->data[i], t->n); } }
        if (hash_size(&t->h) != t->n) h_fail("hash_size is %d, the table holds %d bindings", hash_size(&t->h), t->n);
        if (rn(40) == 0) scan(t);
    }
    for (int t = 0; t < nt; t++) { tab *p = &T[t]; scan(p); for (int i = 0; i < p->n; i++) if (find_hash(&p->h, p->key[i]) != p->data[i]) { h_add(" finally find(t%d,", t); show(p, p->key[i]); h_add(")"); h_fail("binding lost"); }
        if (rn(2)) { scanning = p; disposed = 0; for (int i = 0; i < p->n; i++) p->seen[i] = 0; dispose_hash(&p->h, disp_fn); if (disposed != p->n) h_fail("dispose_hash handed over %d of %d bindings", disposed, p->n); } else dispose_hash(&p->h, NULLFCN);
        for (int q = t + 1; q < nt; q++) { for (int i = 0; i < T[q].n; i++) if (find_hash(&T[q].h, T[q].key[i]) != T[q].data[i]) h_fail("disposing of one table damaged another"); } }
}
/* ---------------------------------------------------------------- buffers */
#define MB 3
static void buf_case(void) {
    h_desc("buffers:"); buffer b[MB]; int isz[MB], n[MB]; unsigned char *m[MB]; unsigned char it[64], got[64];
    for (int i = 0; i < MB; i++) { isz[i] = rn(3) ? 8 : 1 + rn(40); n[i] = 0; unint s = rn(6); m[i] = calloc(60000, 1); new_buf(&b[i], s, isz[i]); h_add(" b%d=new(%u,%d)", i, s, isz[i]); }
    int ops = 20 + rn(300);
    for (int o = 0; o < ops; o++) { int i = rn(MB); int s = isz[i]; unint k;
        switch (rn(9)) {
        case 0: case 1: case 2: case 3: if ((n[i]+1)*s >= 60000) break; for (int j = 0; j < s; j++) it[j] = rnd() >> 40; h_add(" push(b%d)", i); push_buf(&b[i], it); memcpy(m[i] + n[i]*s, it, s); n[i]++; break;
        case 4: if (!n[i]) break; h_add(" pop(b%d)", i); n[i]--; if (rn(4)) { pop_buf(&b[i], got); if (memcmp(got, m[i] + n[i]*s, s)) h_fail("pop_buf returned the wrong item"); } else pop_buf(&b[i], NULL); memset(m[i] + n[i]*s, 0xAA, s); break;
        case 5: if (!n[i]) break; k = rn(n[i]); for (int j = 0; j < s; j++) it[j] = rnd() >> 40; h_add(" store(b%d,%u)", i, k); store_buf(&b[i], k, it); memcpy(m[i] + k*s, it, s); break;
        case 6: k = rn(n[i] + 2); { memset(got, 0x55, sizeof got); bool r = fetch_buf(&b[i], k, got); h_add(" fetch(b%d,%u)", i, k); if (r != ((int)k < n[i])) h_fail("fetch_buf answered %d with %d items", r, n[i]); if (r && memcmp(got, m[i] + k*s, s)) h_fail("fetch_buf returned the wrong item"); if (got[r ? s : 0] != 0x55) h_fail("fetch_buf wrote too much"); } break;
        case 7: k = rn(4) ? rn(n[i] + 3) : rn(n[i] * 2 + 40); if ((int)(k+1)*s >= 60000 || (k == 0 && n[i] == 0)) break; h_add(" resize(b%d,%u)", i, k); resize_buf(&b[i], k); if ((int)k > n[i]) memset(m[i] + n[i]*s, 0, (k - n[i])*s); n[i] = k; break;
        case 8: k = rn(n[i] + 8); if ((int)(k+1)*s >= 60000) break; { h_add(" locate(b%d,%u)", i, k); pointer p = locate_buf(&b[i], k); if ((int)k >= n[i]) { memset(m[i] + n[i]*s, 0, (k + 1 - n[i])*s); n[i] = k + 1; } if (memcmp(p, m[i] + k*s, s)) h_fail("locate_buf returned the wrong item"); } break;
        }
        for (int j = 0; j < MB; j++) { if ((int)COUNT_BUF(&b[j]) != n[j]) h_fail("b%d has %u items, should have %d", j, COUNT_BUF(&b[j]), n[j]); if (empty_buf(&b[j]) != (n[j] == 0)) h_fail("empty_buf");
            if (n[j] && memcmp(START_BUF(&b[j]), m[j], n[j]*isz[j])) h_fail("the items of b%d changed", j); if (n[j] && memcmp(top_of_buf(&b[j]), m[j] + (n[j]-1)*isz[j], isz[j])) h_fail("top_of_buf"); }
    }
    for (int i = 0; i < MB; i++) { free_buf(&b[i]); free(m[i]); }
}
/* ---------------------------------------------------------------- record managers */
typedef struct { unsigned char *p; unsigned char tag; } lr;
static lr LR[20000]; static int nlr;
static void rec_case(void) {
    h_desc("records:"); rec_mgr m; int sz = rn(3) ? 8 + rn(40) : rn(2) ? 1 + rn(8) : 300 + rn(4000); int al = rn(3) ? 1 : 64; nlr = 0; int rs = sz < 8 ? 8 : sz;
    if (al == 1) new_mgr(&m, sz); else aligned_new_mgr(&m, sz, al);
    h_add(" size %d", sz); int ops = 100 + rn(3000), lifo = rn(3), target = rn(1500) + 5;
    for (int o = 0; o < ops; o++) {
        if (nlr == 0 || (rn(100) < (nlr < target ? 70u : 30u) && nlr < 19000)) {
            unsigned char *r = new_rec(&m); unsigned char tag = rnd() >> 30;
            memset(r, tag, rs); LR[nlr].p = r; LR[nlr++].tag = tag; if (ops < 300) h_add(" +%d", nlr);
        } else { int i = lifo == 0 ? nlr - 1 : lifo == 1 && rn(2) ? nlr - 1 : (int)rn(nlr); if (ops < 300) h_add(" -%d", i);
            for (int j = 0; j < rs; j++) if (LR[i].p[j] != LR[i].tag) h_fail("a record was overwritten while in use (size %d, %d live)", sz, nlr);
            free_rec(&m, LR[i].p); LR[i] = LR[--nlr]; }
        if (rn(200) == 0) for (int i = 0; i < nlr; i++) for (int j = 0; j < rs; j++) if (LR[i].p[j] != LR[i].tag) h_fail("a record was overwritten while in use (size %d, %d live)", sz, nlr);
    }
    for (int i = 0; i < nlr; i++) for (int j = 0; j < rs; j++) if (LR[i].p[j] != LR[i].tag) h_fail("a record was overwritten while in use (size %d, %d live)", sz, nlr);
    free_mgr(&m);
    /* enumeration of a manager that never freed */
    rec_mgr q; new_mgr(&q, 16); int k = rn(900); unsigned char *ps[900];
    for (int i = 0; i < k; i++) { ps[i] = new_rec(&q); *(int *)ps[i] = i; }
    if (mgr_size(&q, "x", 1) != k) h_fail("mgr_size");
    int c = 0; unsigned char *ip; FOR_REC(&q, unsigned char *, ip) { if (ip != ps[c]) h_fail("FOR_REC visits record %d out of order", c); c++; } if (c != k) h_fail("FOR_REC visited %d of %d records", c, k);
    for (int t = 0; t < 10 && k; t++) { int i = rn(k); if (rec_element(&q, i, "x", 1) != ps[i]) h_fail("rec_element(%d)", i); if (!owned_by_mgr(&q, ps[i])) h_fail("owned_by_mgr"); } 
    if (rec_element(&q, k, "x", 1) != NULL && k % ((NAT_BLOCK_SIZE-16)/16)) h_fail("rec_element beyond the end");
    int other; if (owned_by_mgr(&q, &other)) h_fail("owned_by_mgr of a foreign address");
    free_mgr(&q);
}
/* ---------------------------------------------------------------- unique buffers and strings */
static void uniq_case(void) {
    h_desc("unique buffers:"); uniq_buffer u, v; int sz = rn(2) ? 8 : 1 + rn(12); new_uniq_buf(&u, rn(20), sz); new_uniq_buf(&v, rn(20), sz == 8 ? 3 : 8); unsigned char m[400][16]; int n = 0, range = 2 + rn(6); unsigned char w[200][16]; int nw = 0, wz = sz == 8 ? 3 : 8;
    if (!empty_uniq_buf(&u)) h_fail("empty_uniq_buf");
    for (int o = 0; o < 350; o++) { unsigned char it[16]; memset(it, 0, 16); for (int j = 0; j < sz; j++) it[j] = rn(3) ? 0 : rn(range) * 37;
        int i; for (i = 0; i < n; i++) if (!memcmp(m[i], it, sz)) break;
        if (rn(3) == 0 && nw < 190) { unsigned char x[16]; for (int j = 0; j < wz; j++) x[j] = rn(4); int k; for (k = 0; k < nw; k++) if (!memcmp(w[k], x, wz)) break; if (find_insert_uniq_buf(&v, x) != k) h_fail("second buffer: wrong index"); if (k == nw) memcpy(w[nw++], x, wz); }
        switch (rn(3)) {
        case 0: if (push_uniq_buf(&u, it) != (i == n)) h_fail("push_uniq_buf"); if (i == n) memcpy(m[n++], it, 16); break;
        case 1: if (find_insert_uniq_buf(&u, it) != i) h_fail("find_insert_uniq_buf gave the wrong index (item size %d)", sz); if (i == n) memcpy(m[n++], it, 16); break;
        case 2: if (get_uniq_buf_index(&u, it) != (i == n ? -1 : i)) h_fail("get_uniq_buf_index"); break; }
        if (COUNT_UNIQ_BUF(&u) != n) h_fail("COUNT_UNIQ_BUF");
        if (n) { int k = rn(n); unsigned char got[16]; if (!fetch_uniq_buf(&u, k, got) || memcmp(got, m[k], sz)) h_fail("fetch_uniq_buf"); if (memcmp(locate_uniq_buf(&u, k), m[k], sz)) h_fail("locate_uniq_buf"); } }
    free_uniq_buf(&u); free_uniq_buf(&v);
}
static void str_case(void) {
    h_desc("strings:"); ustr_mgr u; str_mgr s; new_ustrmgr(&u); new_strmgr(&s); static char *mine[3000], *ref[3000], *copy[3000]; int n = 0, k = 0; int ops = 50 + rn(600), range = 5 + rn(300), longs = rn(8) == 0;
    for (int o = 0; o < ops; o++) { char b[70000]; int l = longs && rn(4) == 0 ? rn(69000) : rn(30); for (int j = 0; j < l; j++) b[j] = 'a' + (l > 30 ? rn(26) : rn(2)); b[l] = 0; if (l < 30) snprintf(b + (l > 8 ? 8 : l), 20, "%u", rn(range));
        char *r = uStrsave(&u, b); if (strcmp(r, b)) h_fail("uStrsave returned another string");
        int i; for (i = 0; i < n; i++) if (!strcmp(mine[i], b)) break;
        if (i < n) { if (ref[i] != r) h_fail("uStrsave gave two addresses for %s", b); } else { mine[n] = strdup(b); ref[n++] = r; }
        if (ustr_mgr_size(&u) != n) h_fail("ustr_mgr_size");
        if (k < 2900) { copy[k] = rn(2) ? Strsave(&s, b) : WAstrsave(&s, b); copy[k+1] = strdup(b); if (strcmp(copy[k], b)) h_fail("Strsave"); k += 2; } }
    for (int i = 0; i < n; i++) { if (strcmp(ref[i], mine[i])) h_fail("a saved string changed"); free(mine[i]); }
    for (int i = 0; i < k; i += 2) { if (strcmp(copy[i], copy[i+1])) h_fail("a saved string changed"); free(copy[i+1]); }
    free_ustrmgr(&u); free_strmgr(&s);
    /* building strings */
    static char exp[4000]; exp[0] = 0; tstr_ptr t = new_temp_str_mgr(), t2 = new_temp_str_mgr(); gen_strtemp(t, ""); gen_strtemp(t2, "other"); string r = 0;
    for (int o = 0; o < 100; o++) { char b[32]; int l = rn(20); for (int j = 0; j < l; j++) b[j] = 'a' + rn(26); b[l] = 0; int el = strlen(exp);
        switch (rn(6)) { case 0: if (rn(8)) break; r = gen_strtemp(t, b); strcpy(exp, b); break; case 1: case 2: r = gen_strappend(t, b); strcat(exp, b); break; case 3: r = gen_strprepend(t, b); memmove(exp + l, exp, el + 1); memcpy(exp, b, l); break;
          case 4: r = gen_charappend(t, 'Z'); strcat(exp, "Z"); break; case 5: { int c = rn(el + 1); if (rn(3)) break; r = gen_strtruncate(t, c); exp[c] = 0; break; } }
        if (r && strcmp(r, exp)) h_fail("string building: got %.60s wanted %.60s", r, exp); }
    if (strcmp(gen_charappend(t2, '!'), "other!")) h_fail("string buffers interfere");
    free_temp_str_mgr(t2); free_temp_str_mgr(t);
}
int main(int argc, char **argv) {
    h_init(argc, argv); Init_strmgr();
    while (h_more()) { h_tick(60); switch (rn(8)) { case 0: case 1: case 2: hash_case(); break; case 3: case 4: buf_case(); break; case 5: rec_case(); break; case 6: uniq_case(); break; case 7: str_case(); break; } }
    return h_done();
}
