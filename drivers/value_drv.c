#include "hx.h"
#include <strings.h>
#include "data/value.h"
int value_dict_verify(VALUE* v);

#define NS 4
static VALUE R_[HX_OBS][NS] HX_OBJ;             /* roots 1..3; 0 is the NULL handle */
#define R (R_[hx_ob])
static long lv0_[HX_OBS];                /* live blocks before the command */
#define lv0 (lv0_[hx_ob])
static long ncmp_[HX_OBS];
#define ncmp (ncmp_[hx_ob])

/* ---- comparators ---- */
static int lex(const unsigned char* a, size_t n, const unsigned char* b, size_t m, int low) {
    size_t i; for(i = 0; i < n && i < m; i++) { int x = a[i], y = b[i]; if(low) { if(x >= 65 && x <= 90) x += 32; if(y >= 65 && y <= 90) y += 32; } if(x != y) return x < y ? -1 : 1; }
    return n == m ? 0 : n < m ? -1 : 1; }
#define U(x) ((const unsigned char*)(x))
static const void* probe_k; static int rec; static long long recv_[4096]; static int recn;   /* nodes visited by a lookup */
static long keyno(const char* k, size_t n);
static void note(const char* a, size_t n, const char* b, size_t m) { ncmp++; if(!rec) hx_callback(); if(rec && recn < 4096) { long x = (const void*) a == probe_k ? keyno(b, m) : keyno(a, n); if(recn == 0 || recv_[recn - 1] != x) recv_[recn++] = x; } }
static int cmp1(const char* a, size_t n, const char* b, size_t m) { note(a, n, b, m); return lex(U(b), m, U(a), n, 0) * 1000; }
static int cmp2(const char* a, size_t n, const char* b, size_t m) { note(a, n, b, m); return n != m ? (n < m ? -7 : 7) : lex(U(a), n, U(b), m, 0); }
static int cmp3(const char* a, size_t n, const char* b, size_t m) { note(a, n, b, m); return lex(U(a), n, U(b), m, 1); }
static int cmp4(const char* a, size_t n, const char* b, size_t m) { int x = n ? U(a)[0] : -1, y = m ? U(b)[0] : -1; note(a, n, b, m); return x == y ? 0 : x < y ? -2147483647 - 1 : 2147483647; }
typedef int (*CMP)(const char*, size_t, const char*, size_t);
static CMP cmps[] = { NULL, cmp1, cmp2, cmp3, cmp4 };

/* ---- addresses ---- */
#define STEPK 70000
typedef struct { int isk; size_t i; unsigned char k[STEPK]; size_t kn; } STEP;
static STEP st_[HX_OBS][64]; static int nst_[HX_OBS]; static int slot_[HX_OBS];
#define st (st_[hx_ob])
#define nst (nst_[hx_ob])
#define slot (slot_[hx_ob])
static VALUE* root(int s) { return s == 0 ? NULL : &R[s]; }
static VALUE* down(VALUE* v, STEP* s) { return s->isk ? value_dict_get_(v, (char*) s->k, s->kn) : value_array_get(v, s->i); }
/* address word: slot{.iN|.kHEX|.*N}; '*' picks an existing child and stops at leaves. NULL: lost. */
static int lost;
static VALUE* addr(const char* w) {
    VALUE* v; const char* p = w; nst = 0; lost = 0;
    slot = *p++ - '0'; v = root(slot);
    while(*p == '.') {
        STEP* s = &st[nst]; p++;
        if(*p == 'i') { s->isk = 0; s->i = strtoul(p + 1, (char**) &p, 10); }
        else if(*p == 'k') { s->isk = 1; s->kn = 0; p++; while(*p && *p != '.') { unsigned x; sscanf(p, "%2x", &x); s->k[s->kn++] = (unsigned char) x; p += 2; } }
        else { size_t r = strtoul(p + 1, (char**) &p, 10), n;
            if(value_type(v) == VALUE_ARRAY && (n = value_array_size(v)) > 0) { s->isk = 0; s->i = r % n; }
            else if(value_type(v) == VALUE_DICT && (n = value_dict_size(v)) > 0) {
                const VALUE** b = (const VALUE**) hx_rawalloc(n * sizeof(VALUE*)); size_t m = value_dict_keys_sorted(v, b, n);
                if(m == 0) { lost = 1; hx_rawfree(b); return NULL; }
                s->isk = 1; s->kn = value_string_length(b[r % m]); if(s->kn > sizeof s->k) abort(); memcpy(s->k, value_string(b[r % m]), s->kn); hx_rawfree(b); }
            else break; }
        v = down(v, s); nst++;
        if(v == NULL) { lost = 1; return NULL; }
    }
    return v;
}
static void pbytes(const void* p, size_t n) { size_t i; ev_raw("["); for(i = 0; i < n; i++) ev_raw(i ? ",%d" : "%d", U(p)[i]); ev_raw("]"); }
static void steps_out(STEP* s, int n) { int i; ev_raw("["); for(i = 0; i < n; i++) { ev_raw(i ? "," : ""); if(s[i].isk) { ev_raw("{\"k\":"); pbytes(s[i].k, s[i].kn); ev_raw("}"); } else ev_raw("{\"i\":%d}", (int) s[i].i); } ev_raw("]"); }
static void ev_at(void) { ev_i("s", slot); ev_raw(",\"p\":"); steps_out(st, nst); }
static void fin_(void) { ev_i("lv", hx_live); ev_i("d", hx_live - lv0); ev_i("oom", hx_oomhit); ev_i("bad", hx_badfree); ev_end(); lv0 = hx_live; }

/* ---- dump ---- */
static int scal(const VALUE* v, unsigned char* o) {
    switch(value_type(v)) {
        case VALUE_BOOL: { int x = value_bool(v); memcpy(o, &x, 4); return 4; }
        case VALUE_INT32: { int32_t x = value_int32(v); memcpy(o, &x, 4); return 4; }
        case VALUE_UINT32: { uint32_t x = value_uint32(v); memcpy(o, &x, 4); return 4; }
        case VALUE_INT64: { int64_t x = value_int64(v); memcpy(o, &x, 8); return 8; }
        case VALUE_UINT64: { uint64_t x = value_uint64(v); memcpy(o, &x, 8); return 8; }
        case VALUE_FLOAT: { float x = value_float(v); memcpy(o, &x, 4); return 4; }
        case VALUE_DOUBLE: { double x = value_double(v); memcpy(o, &x, 8); return 8; }
        default: return 0; } }
static int dcount;
static void dump(const VALUE* v);
static int cb_dump(const VALUE* k, VALUE* v, void* ctx) { int* n = ctx; if((*n)++) ev_raw(","); if(*n > 3000) return 1; ev_raw("{\"k\":"); pbytes(value_string(k), value_string_length(k)); ev_raw(",\"z\":%d,\"g\":%d,\"v\":", value_string(k)[value_string_length(k)], value_dict_get_(ctx ? ((const VALUE**)ctx)[1] : NULL, value_string(k), value_string_length(k)) == v); dump(v); ev_raw("}"); return 0; }
static int cb_keys(const VALUE* k, VALUE* v, void* ctx) { int* n = ctx; if((*n)++) ev_raw(","); if(*n > 3000) return 1; pbytes(value_string(k), value_string_length(k)); return 0; }
static void klist(const char* nm, const VALUE* v, size_t (*f)(const VALUE*, const VALUE**, size_t)) {
    size_t n = value_dict_size(v), m, i; const VALUE** b = (const VALUE**) hx_rawalloc((n + 1) * sizeof(VALUE*));
    m = f(v, b, n); ev_raw(",\"%s\":[", nm); for(i = 0; i < m && i < n; i++) { if(i) ev_raw(","); pbytes(value_string(b[i]), value_string_length(b[i])); } ev_raw("]"); hx_rawfree(b); }
static void dump(const VALUE* v) {
    int t = (int) value_type(v); if(++dcount > 20000) abort();
    ev_raw("{\"t\":%d", t);
    if(t == VALUE_NULL) ev_raw(",\"new\":%d", value_is_new(v) != 0);
    else if(t == VALUE_STRING) { size_t n = value_string_length(v); ev_raw(",\"d\":"); pbytes(value_string(v), n); ev_raw(",\"z\":%d", value_string(v)[n]); }
    else if(t == VALUE_ARRAY) { size_t i, n = value_array_size(v); int ga = 1; VALUE* all = value_array_get_all(v); ev_raw(",\"a\":["); for(i = 0; i < n; i++) { VALUE* e = value_array_get(v, i); if(e != &all[i]) ga = 0; if(i) ev_raw(","); dump(e); } ev_raw("],\"ga\":%d,\"ob\":%d", ga, value_array_get(v, n) == NULL && value_array_get(v, (size_t) -1) == NULL); }
    else if(t == VALUE_DICT) { struct { long n; const VALUE* v; } c; int r, o = value_dict_flags(v) & VALUE_DICT_MAINTAINORDER; c.n = 0; c.v = v;
        ev_raw(",\"n\":%d,\"o\":%d,\"fl\":%d,\"s\":[", (int) value_dict_size(v), o != 0, (int) value_dict_flags(v)); r = value_dict_walk_sorted(v, cb_dump, &c); ev_raw("],\"r\":%d", r);
        c.n = 0; ev_raw(",\"q\":["); r = value_dict_walk_ordered(v, cb_keys, &c); ev_raw("],\"qr\":%d", r);
        klist("ks", v, value_dict_keys_sorted); klist("ko", v, value_dict_keys_ordered); ev_raw(",\"rb\":%d", value_dict_verify((VALUE*) v)); }
    else { unsigned char o[8]; int n = scal(v, o); ev_raw(",\"d\":"); pbytes(o, n); }
    ev_raw("}");
}
static void ev_dump(const char* k, const VALUE* v) { ev_raw(",\"%s\":", k); dcount = 0; dump(v); }

/* find where a pointer is in the tree */
static int dfs(VALUE* v, VALUE* want, STEP* s, int n);
typedef struct { VALUE* want; STEP* s; int n, res; } DF;
static int cb_dfs(const VALUE* k, VALUE* v, void* ctx) { DF* d = ctx; d->s[d->n].isk = 1; d->s[d->n].kn = value_string_length(k); if(d->s[d->n].kn > STEPK) abort(); memcpy(d->s[d->n].k, value_string(k), d->s[d->n].kn); d->res = dfs(v, d->want, d->s, d->n + 1); return d->res >= 0; }
static int dfs(VALUE* v, VALUE* want, STEP* s, int n) {
    if(v == want) return n;
    if(n > 60) return -1;
    if(value_type(v) == VALUE_ARRAY) { size_t i; int r; for(i = 0; i < value_array_size(v); i++) { s[n].isk = 0; s[n].i = i; if((r = dfs(value_array_get(v, i), want, s, n + 1)) >= 0) return r; } }
    if(value_type(v) == VALUE_DICT) { DF d; d.want = want; d.s = s; d.n = n; d.res = -1; value_dict_walk_sorted(v, cb_dfs, &d); return d.res; }
    return -1;
}
static STEP rs[64];
static void ev_where(VALUE* rt, VALUE* p) {     /* "r": null -> 0, else 1 and steps; -1 not in the tree */
    int n; if(p == NULL) { ev_i("r", 0); return; }
    n = dfs(rt, p, rs, 0); if(n < 0) { ev_i("r", -1); return; }
    ev_i("r", 1); ev_raw(",\"w\":"); steps_out(rs, n);
}

static long long clampi(uint64_t x) { return x > 1000000000 ? 1000000000 : (long long) x; }
static unsigned char kb_[HX_OBS][200000], kb2[70000];
#define kb (kb_[hx_ob])
#define KBN 200000
/* an input buffer of exactly the right size, so that over-reads are noticed */
static char* exact(const void* p, size_t n) { char* q = hx_rawalloc(n ? n : 1); memcpy(q, p, n); return q; }

/* ---- paths ---- */
static unsigned lcg; static unsigned rnd(unsigned n) { lcg = lcg * 1103515245u + 12345u; return (lcg >> 8) % n; }
#define PBN 80000
static char pbuf_[HX_OBS][PBN];
#define pbuf (pbuf_[hx_ob])
static void mkpath(VALUE* rt, unsigned style, int mut) {   /* renders st[0..nst) */
    char* p = pbuf; int i; VALUE* v = rt; lcg = style;
    if(style && rnd(4) == 0) p += sprintf(p, rnd(2) ? "/" : "//");
    for(i = 0; i < nst; i++) {
        if(st[i].isk) { if(i > 0) p += sprintf(p, style && rnd(5) == 0 ? "///" : "/"); memcpy(p, st[i].k, st[i].kn); p += st[i].kn; }
        else { long n = (long) value_array_size(v), ix = (long) st[i].i; int m = style ? rnd(8) : 0;
            if(i > 0 && style && rnd(3) == 0) *p++ = '/';
            if(mut == 5 && i == nst - 1) p += sprintf(p, "[%s]", ix % 3 == 0 ? "18446744073709551616" : ix % 3 == 1 ? "18446744073709551617" : "18446744073709551618");
            else if(mut == 6 && i == nst - 1) p += sprintf(p, "[-%s]", (n - ix) % 3 == 0 ? "36893488147419103232" : (n - ix) % 3 == 1 ? "18446744073709551617" : "18446744073709551618");
            else if(mut == 7 && i == nst - 1) p += sprintf(p, "[%ld]", n);
            else if(mut == 8 && i == nst - 1) p += sprintf(p, "[-%ld]", n + 1);
            else if(m < 3) p += sprintf(p, "[%ld]", ix); else if(m < 6) p += sprintf(p, "[-%ld]", n - ix); else if(m == 6) p += sprintf(p, "[+%ld]", ix); else p += sprintf(p, "[%06ld]", ix); }
        v = down(v, &st[i]);
    }
    if(mut == 1) p += sprintf(p, "/zz"); if(mut == 2) p += sprintf(p, "[0]"); if(mut == 3) p += sprintf(p, "[-1]"); if(mut == 4) p += sprintf(p, "[]"); if(mut == 9) p += sprintf(p, "[-0]");
    if(mut == 10) p += sprintf(p, "/a"); if(mut == 11) p += sprintf(p, "/nn/mm"); if(mut == 12) p += sprintf(p, "[]/qq"); if(mut == 13) p += sprintf(p, "[][]"); if(mut == 14) p += sprintf(p, "/x[]/y/z"); if(mut == 15) p += sprintf(p, "[%lu]", (unsigned long) value_array_size(v)); if(mut == 16) p += sprintf(p, "[4294967296]"); if(mut == 17) p += sprintf(p, "/0");
    if(style && rnd(4) == 0) p += sprintf(p, "/");
    *p = 0;
}

/* ---- logarithmic cost (C14): keys are numbers rendered as strings ---- */
static char lb[40]; static size_t lkey(long k) { return (size_t) sprintf(lb, "%05ld", k); }
static long keyno(const char* k, size_t n) { char t[16]; if(n > 15) n = 15; memcpy(t, k, n); t[n] = 0; return atol(t); }
static int quiet; static long long hist[100000]; static int hn;
static void lobs(void) { ev_i("n", (long long) value_dict_size(&R[1])); ev_i("c", ncmp); ev_i("rb", value_dict_verify(&R[1])); ev_end(); lv0 = hx_live; }
static void lop(int o, long k) {
    size_t n = lkey(k); char* e = exact(lb, n); int r = 0; ncmp = 0; probe_k = e;
    if(o == 'a') r = value_dict_add_(&R[1], e, n) != NULL; else if(o == 'o') r = value_dict_get_or_add_(&R[1], e, n) != NULL; else if(o == 'r') r = value_dict_remove_(&R[1], e, n) == 0; else r = value_dict_get_(&R[1], e, n) != NULL;
    if(quiet) { hist[hn++] = o == 'r' ? -k : k; } else { char s[2] = { (char) o, 0 }; ev_begin("L"); ev_s("o", s); ev_i("k", k); ev_i("r", r); lobs(); }
    hx_rawfree(e);
}
static long long lk[100000], lp[100000], ld[100000]; static int ln, lmode;
static int cb_l(const VALUE* k, VALUE* v, void* c) { if(ln < 99999) lk[ln++] = keyno(value_string(k), value_string_length(k)); return 0; }
static void lcmd(void) {
    long i, a = (long) ai(1), b = (long) ai(2), s = ac > 3 ? (long) ai(3) : 1;
    if(is("Lini")) { lmode = (int) a; value_fini(&R[1]); value_init_dict_ex(&R[1], cmps[a], (unsigned) b); ncmp = 0; ev_begin("LIni"); ev_i("m", a); ev_i("o", b); lobs(); }
    else if(is("q")) { quiet = 1; hn = 0; }
    else if(is("Q")) { quiet = 0; ncmp = 0; ev_begin("LHist"); ev_a("v", hist, hn); lobs(); }
    else if(is("i") || is("a")) lop('a', a); else if(is("o")) lop('o', a); else if(is("r")) lop('r', a); else if(is("l")) lop('g', a);
    else if(is("ir")) { if(s > 0) for(i = a; i <= b; i += s) lop('a', i); else for(i = a; i >= b; i += s) lop('a', i); }
    else if(is("rr")) { if(s > 0) for(i = a; i <= b; i += s) lop('r', i); else for(i = a; i >= b; i += s) lop('r', i); }
    else if(is("lr")) { for(i = a; i <= b; i += s) lop('g', i); }
    else if(is("d") && lmode) {   /* the shape, from the nodes lookups visit; node i is the i-th key of the walk */
        int j, n, root = 0, deep = 0; ln = 0; ncmp = 0; value_dict_walk_sorted(&R[1], cb_l, NULL); n = ln;
        for(j = 0; j < n; j++) lp[j] = ld[j] = 0;
        for(j = 0; j < n && !deep; j++) { size_t z = lkey(lk[j]); char* e = exact(lb, z); int q, i2; long long* cell; VALUE* g; probe_k = e; rec = 1; recn = 0; g = value_dict_get_(&R[1], e, z); rec = 0; hx_rawfree(e);
            for(q = 0; q < recn && recv_[q] != lk[j]; q++) {}
            if(g == NULL || q >= recn) { deep = 1; break; }
            if(q == 0) { if(root) deep = 1; root = j + 1; continue; }
            for(i2 = 0; i2 < n && lk[i2] != recv_[q - 1]; i2++) {}
            if(i2 >= n) { deep = 1; break; }
            cell = j < i2 ? &lp[i2] : &ld[i2]; if(*cell) deep = 1; *cell = j + 1; }
        ncmp = 0; ev_begin("LShape"); ev_a("v", lk, n); ev_i("root", root); ev_i("deep", deep); ev_a("L", lp, n); ev_a("R", ld, n); lobs(); }
}

/* ---- very large dictionaries: the numbers 1..top, members by remainder, rendered as keys in one of several styles ---- */
static long vcut, vtop, vm = 1, vmc, vcalls, vgood; static unsigned long vres; static int vstyle, vord;
static size_t vkey(char* o, long k) {
    if(vstyle == 1) { o[0] = (char)(k >> 24); o[1] = (char)(k >> 16); o[2] = (char)(k >> 8); o[3] = (char) k; return 4; }
    if(vstyle == 2) return (size_t) sprintf(o, "some common prefix/%08ld", k);
    if(vstyle == 3) return (size_t) sprintf(o, "%ld", k);       /* ordered by length first (comparator 2) */
    return (size_t) sprintf(o, "%08ld", k); }
static long vnum(const VALUE* key) { const unsigned char* k = U(value_string(key)); size_t n = value_string_length(key); char t[16];
    if(vstyle == 1) return n != 4 ? -1 : ((long) k[0] << 24) + (k[1] << 16) + (k[2] << 8) + k[3];
    if(vstyle == 2) { if(n < 19) return -1; k += 19; n -= 19; }
    if(n > 15) return -1; memcpy(t, k, n); t[n] = 0; return atol(t); }
static int vmem(long k) { return k > vcut && k <= vtop && (vres >> (k % vm) & 1); }
static long vnth(long i, long n, int order) {
    if(order == 0) return i + 1;
    if(order == 1) return n - i;
    if(order == 2) { unsigned long a = 618033989UL, b = (unsigned long) n, t; while(b) { t = a % b; a = b; b = t; } if(a == 1) return (long) (((unsigned long long) i * 618033989ULL) % (unsigned long long) n) + 1; }
    return (i % 2) ? n - i / 2 : i / 2 + 1; }
static void vstart(void) { vmc = vcalls = vgood = 0; ncmp = 0; }
static void vcount(void) { if(ncmp > vmc) vmc = ncmp; ncmp = 0; vcalls++; }
static void vobs(void) { ev_i("n", vcalls); ev_i("good", vgood); ev_i("mc", vmc); ev_i("e", value_dict_size(&R[1]) == 0); ev_i("z", (long long) value_dict_size(&R[1])); ev_end(); lv0 = hx_live; }
static int vtoggle;
static void v_add(long k) { char b[48]; size_t n = vkey(b, k); VALUE* p = (vtoggle++ & 1) ? value_dict_add_(&R[1], b, n) : value_dict_get_or_add_(&R[1], b, n); vcount(); if(p != NULL && value_is_new(p) && value_init_int32(p, (int32_t) k) == 0) vgood++; }
static void v_rem(long k) { char b[48]; size_t n = vkey(b, k); int r = value_dict_remove_(&R[1], b, n); vcount(); if(r == 0) vgood++; }
typedef struct { long n, stop, ret, bad, over; int dir; long last; int ns; long long first[64], lst[64], cnt[64]; int ng[64]; long long gap[64][20], gc[64][20]; } VW;
static VW vw;
static int cb_v(const VALUE* key, VALUE* v, void* ctx) {
    VW* w = ctx; long k = vnum(key), d = k - w->last; int i, s;
    if(value_int32(v) != (int32_t) k || value_string(key)[value_string_length(key)] != 0) w->bad++;
    if(w->n++ == 0 || (d > 0) != (w->dir > 0)) { if(w->ns < 64) { s = w->ns++; w->first[s] = w->lst[s] = k; w->cnt[s] = 1; w->ng[s] = 0; } else w->over++; }
    else { s = w->ns - 1; w->lst[s] = k; w->cnt[s]++; for(i = 0; i < w->ng[s] && w->gap[s][i] != d; i++) {} if(i == w->ng[s]) { if(i < 20) { w->gap[s][i] = d; w->gc[s][i] = 0; w->ng[s]++; } else { w->over++; i = 0; } } w->gc[s][i]++; }
    w->last = k; return w->n == w->stop ? (int) w->ret : 0; }
static void vwalk(void) {       /* V.wlk m dir stop ret | V.kys m dir bufsize: what is seen, as runs in one direction */
    int keys = is("V.kys"), m = (int) ai(1), i, j; long r;
    memset(&vw, 0, sizeof vw); vw.dir = (int) ai(2);
    if(keys) { size_t bs = (size_t) ai(3), q; const VALUE** b = (const VALUE**) hx_rawalloc((bs + 1) * sizeof(VALUE*)); r = (long) (m ? value_dict_keys_ordered(&R[1], b, bs) : value_dict_keys_sorted(&R[1], b, bs));
        for(q = 0; q < (size_t) r && q < bs; q++) { char t[48]; VALUE* p; memcpy(t, value_string(b[q]), value_string_length(b[q]) % 48); p = value_dict_get_(&R[1], t, value_string_length(b[q])); if(p == NULL) { vw.bad++; continue; } cb_v(b[q], p, &vw); } hx_rawfree(b); }
    else { vw.stop = (long) ai(3); vw.ret = (long) ai(4); r = m ? value_dict_walk_ordered(&R[1], cb_v, &vw) : value_dict_walk_sorted(&R[1], cb_v, &vw); }
    ev_begin(keys ? "BKeys" : "BWlk"); ev_i("m", m); ev_i("dir", vw.dir); ev_i("stop", ai(3)); ev_i("ret", keys ? 0 : vw.ret); ev_i("r", r); ev_i("n", vw.n); ev_i("wrong", vw.bad); ev_i("over", vw.over); if(vw.over) vw.ns = 0; ev_raw(",\"seg\":[");
    for(i = 0; i < vw.ns; i++) { ev_raw("%s{\"f\":%lld,\"l\":%lld,\"n\":%lld,\"g\":[", i ? "," : "", vw.first[i], vw.lst[i], vw.cnt[i]); for(j = 0; j < vw.ng[i]; j++) ev_raw("%s%lld", j ? "," : "", vw.gap[i][j]); ev_raw("],\"c\":["); for(j = 0; j < vw.ng[i]; j++) ev_raw("%s%lld", j ? "," : "", vw.gc[i][j]); ev_raw("]}"); }
    ev_raw("]"); ev_end(); lv0 = hx_live; }
static void vcmd(void) {
    long i, k, a = (long) ai(1); int order = (int) ai(ac - 1); hx_limit = (size_t) 1 << 30;
    if(is("V.ini")) { value_fini(&R[1]); if(a == 0 && ai(2) == 0) value_init_dict(&R[1]); else value_init_dict_ex(&R[1], cmps[a], ai(2) ? VALUE_DICT_MAINTAINORDER : 0); vstyle = (int) ai(3); vord = (int) ai(2); vcut = vtop = 0; vm = 1; vres = 0; ev_begin("BIni"); ev_i("o", vord); ev_i("rev", a == 1); vstart(); vobs(); }
    else if(is("V.fill")) { long long Q[64]; int nr = 0; vm = (long) ai(2); vres = (unsigned long) ai(3); vcut = 0; vtop = a; vstart();
        for(i = 0; i < a; i++) { k = vnth(i, a, order); if(vmem(k)) v_add(k); }
        for(i = 0; i < vm; i++) if(vres >> i & 1) Q[nr++] = i;
        ev_begin("BFill"); ev_i("top", a); ev_i("m", vm); ev_a("R", Q, nr); ev_i("w", order); vobs(); }
    else if(is("V.add")) { vstart(); for(i = 0; i < vtop; i++) { k = vnth(i, vtop, order); if(k > vcut && k % vm == a) v_add(k); } vres |= 1UL << a; ev_begin("BAdd"); ev_i("r", a); ev_i("w", order); vobs(); }
    else if(is("V.del")) { vstart(); for(i = 0; i < vtop; i++) { k = vnth(i, vtop, order); if(k % vm == a && vmem(k)) v_rem(k); } vres &= ~(1UL << a); ev_begin("BDel"); ev_i("r", a); vobs(); }
    else if(is("V.cut")) { vstart(); for(i = 0; i < a; i++) { k = vnth(i, a, order); if(vmem(k)) v_rem(k); } if(a > vcut) vcut = a; ev_begin("BCut"); ev_i("at", a); vobs(); }
    else if(is("V.top")) { vstart(); for(i = 0; i < vtop - a; i++) { k = a + vnth(i, vtop - a, order); if(vmem(k)) v_rem(k); } if(a < vtop) vtop = a; ev_begin("BTop"); ev_i("at", a); vobs(); }
    else if(is("V.look") || is("V.dup")) { long hit = 0, miss = 0, wrong = 0; int dup = is("V.dup"); vstart();
        for(k = 1; k <= vtop; k++) { char b[48]; size_t n = vkey(b, k); VALUE* p;
            if(!dup) { p = value_dict_get_(&R[1], b, n); vcount(); if(p == NULL) miss++; else if(value_int32(p) == (int32_t) k) hit++; else wrong++; }
            else if(vmem(k)) { if(k % 2) { p = value_dict_add_(&R[1], b, n); vcount(); if(p == NULL) hit++; else wrong++; } else { p = value_dict_get_or_add_(&R[1], b, n); vcount(); if(p != NULL && value_int32(p) == (int32_t) k) hit++; else wrong++; } }
            else { int r = value_dict_remove_(&R[1], b, n); vcount(); if(r == -1) miss++; else wrong++; } }
        ev_begin(dup ? "BDup" : "BLook"); ev_i("hit", hit); ev_i("miss", miss); ev_i("wrong", wrong); i = vcalls; ev_i("top", vtop); vobs(); }
    else if(is("V.wlk") || is("V.kys")) vwalk();
    else if(is("V.ver")) { ev_begin("BVer"); ev_i("ok", value_dict_verify(&R[1]) == 0); ev_end(); }
    else if(is("V.cln")) { value_dict_clean(&R[1]); vcut = vtop = 0; vm = 1; vres = 0; vstart(); ev_begin("BCln"); ev_i("lv", hx_live); vobs(); }
    else if(is("V.fin")) { value_fini(&R[1]); ev_begin("BFin"); ev_i("lv", hx_live); ev_end(); lv0 = hx_live; }
}

/* ---- very long arrays of numbered values ---- */
static long long ls_[4096], lc_[4096];
static void scmd(void) {
    long i, a = (long) ai(1), n = (long) ai(2), v = (long) ai(3), good = 0; VALUE* p; VALUE* A = &R[1]; hx_limit = (size_t) 1 << 30;
    if(is("S.ini")) { value_fini(A); value_init_array(A); ev_begin("SIni"); }
    else if(is("S.app") || is("S.ins")) {    /* i n v fixed */
        int app = is("S.app"), fixed = (int) ai(4); if(app) a = (long) value_array_size(A);
        for(i = 0; i < n; i++) { size_t at = (size_t)(fixed ? a : a + i); p = app ? value_array_append(A) : value_array_insert(A, at); if(app) at = (size_t)(a + i);
            if(p != NULL && value_is_new(p) && p == value_array_get(A, at)) { good++; value_init_int32(p, (int32_t)(fixed && !app ? v + n - 1 - i : v + i)); } }
        ev_begin("SIns"); ev_i("i", a); ev_i("n", n); ev_i("v", v); ev_i("good", good); }
    else if(is("S.rng")) { good = value_array_remove_range(A, (size_t) a, (size_t) n) == 0; ev_begin("SRng"); ev_i("i", a); ev_i("c", n); ev_i("n", 1); ev_i("good", good); }
    else if(is("S.rem")) { for(i = 0; i < n; i++) good += value_array_remove(A, (size_t) a) == 0; ev_begin("SRng"); ev_i("i", a); ev_i("c", n); ev_i("n", n); ev_i("good", good); }
    else if(is("S.acl")) { value_array_clean(A); ev_begin("SAcl"); }
    else if(is("S.get")) { p = value_array_get(A, (size_t) a); ev_begin("SGet"); ev_i("i", a); ev_i("r", p != NULL); ev_i("v", p ? value_int32(p) : 0); }
    else if(is("S.pth")) { char t[64]; sprintf(t, n == 0 ? "[%ld]" : n == 1 ? "[-%ld]" : n == 2 ? "[+%ld]" : "//[000%ld]/", a); p = (n == 0 && a % 2) ? value_build_path(A, t) : value_path(A, t); ev_begin("SPth"); ev_i("i", a); ev_i("y", n); ev_i("r", p != NULL); ev_i("v", p ? value_int32(p) : 0); }
    else if(is("S.bld")) { a = (long) value_array_size(A); p = value_build_path(A, "/[]"); if(p != NULL && value_is_new(p) && p == value_array_get(A, (size_t) a)) { good++; value_init_int32(p, (int32_t) n); } ev_begin("SIns"); ev_i("i", a); ev_i("n", 1); ev_i("v", n); ev_i("good", good); }
    else if(is("S.deep")) {      /* n style: a path of n steps, built, looked up step by step and again by its prefixes */
        static char b[400000]; static size_t cut[40000]; size_t o = 0, k, depth = 0, same = 0; VALUE w = VALUE_NULL_INITIALIZER, *at = &w; int st_ok;
        value_init_null(&w);
        { VALUE* x; value_init_array(&w); x = value_array_append(&w); (void) x; }
        cut[0] = 0; v = n; n = a;
        for(k = 0; (long) k < n; k++) { int arr = v == 0 || (v == 2 && k % 3 != 1) || k == 0; o += (size_t) sprintf(b + o, arr ? (k % 2 ? "[]" : "/[]") : (k % 2 ? "/k" : "/key%d"), (int) k % 7); cut[k + 1] = o; }
        value_array_clean(&w); p = value_build_path(&w, b); st_ok = p != NULL && value_is_new(p);
        for(k = 0; (long) k < n && at != NULL; k++) { VALUE* q = NULL; if(value_type(at) == VALUE_ARRAY) { if(value_array_size(at) == 1) q = value_array_get(at, 0); } else if(value_type(at) == VALUE_DICT) { char kk[16]; sprintf(kk, k % 2 ? "k" : "key%d", (int) k % 7); if(value_dict_size(at) == 1) q = value_dict_get(at, kk); } at = q; if(q) depth++; }
        st_ok = st_ok && at == p;
        /* the same path for looking up: "[]" becomes "[0]" */
        { static char l[600000]; size_t j, m = 0; at = &w; for(k = 0; (long) k < n; k++) { for(j = cut[k]; j < cut[k + 1]; j++) { if(b[j] == ']') { l[m++] = k % 5 == 4 ? '-' : '0'; if(k % 5 == 4) l[m++] = '1'; } l[m++] = b[j]; } l[m] = 0;
              at = at == NULL ? NULL : value_type(at) == VALUE_ARRAY ? value_array_get(at, 0) : value_dict_get_(at, b + cut[k] + 1, cut[k + 1] - cut[k] - 1);
              if((k < 50 || k % 37 == 0 || (long) k + 3 > n) && at != NULL) same += value_path(&w, l) == at; else same++; } }
        value_fini(&w); ev_begin("SDeep"); ev_i("n", n); ev_i("ok", st_ok); ev_i("depth", (long long) depth); ev_i("same", (long long) same); }
    else if(is("S.lkey")) {      /* n style: a dictionary with the keys k*n, k*(n-1), k*n+x as numbers 1, 2, 3, and a path with a key of such a length */
        char* b = malloc((size_t) a + 64); VALUE w, *e; long m = n == 2 ? a - 1 : n == 4 ? a + 1 : n == 5 ? a + 5 : a, f = 0; size_t o = 0; int i;
        memset(b, 'k', (size_t) a + 1); b[a] = 'x';
        value_init_dict(&w); for(i = 1; i <= 3; i++) if((e = value_dict_add_(&w, b, (size_t)(i == 1 ? a : i == 2 ? a - 1 : a + 1))) != NULL) value_init_int32(e, i);
        if(n == 1) b[o++] = '/';
        memset(b + o, 'k', (size_t) m); o += (size_t) m;
        if(n == 3) b[o++] = 'x';
        if(n == 3 || n == 6) b[o++] = '/';
        if(n == 5) { memcpy(b + o, "/[]", 4); p = value_build_path(&w, b); memcpy(b + o, "[0]", 4); e = value_dict_get_(&w, b, o);
            if(p != NULL && value_is_new(p) && e != NULL && value_type(e) == VALUE_ARRAY && value_array_size(e) == 1 && value_array_get(e, 0) == p && value_dict_size(&w) == 4 && value_path(&w, b) == p) f = 5; }
        else { b[o] = 0; p = n == 7 ? value_build_path(&w, b) : value_path(&w, b); f = p ? value_int32(p) : 0; if(value_dict_size(&w) != 3) f = -1; }
        value_fini(&w); free(b); ev_begin("SLKey"); ev_i("n", a); ev_i("y", n); ev_i("f", f); }
    else if(is("S.lst")) { size_t k, z = value_array_size(A); VALUE* all = value_array_get_all(A); int m = 0; long wrong = 0;
        for(k = 0; k < z; k++) { p = all + k; if(p != value_array_get(A, k) || value_type(p) != VALUE_INT32) wrong++; v = value_int32(p); if(m && ls_[m-1] + lc_[m-1] == v) lc_[m-1]++; else if(m < 4096) { ls_[m] = v; lc_[m++] = 1; } else wrong++; }
        ev_begin("SLst"); ev_i("wrong", wrong); ev_a("s", ls_, m); ev_a("c", lc_, m); }
    ev_i("z", (long long) value_array_size(A)); ev_end(); lv0 = hx_live;
}

/* ---- walks and listings ---- */
typedef struct { long n, stop, ret; char* b; } WK;
static char wb_[HX_OBS][4 << 20];
static int cb_wk(const VALUE* k, VALUE* v, void* ctx) { WK* w = ctx; size_t i, n = value_string_length(k); char* e = wb_[hx_ob] + sizeof wb_[0] - 8; (void) v;
    if(w->b) { if(w->n && w->b < e) *w->b++ = ','; if(w->b < e) *w->b++ = '['; for(i = 0; i < n && w->b < e; i++) w->b += sprintf(w->b, i ? ",%d" : "%d", U(value_string(k))[i]); *w->b++ = ']'; *w->b = 0; }
    w->n++; hx_callback(); return w->n == w->stop ? (int) w->ret : 0; }

void tr_begin(void) { int i; hx_cpu = 120; VALUE z = VALUE_NULL_INITIALIZER; for(i = 0; i < NS; i++) R[i] = z; lv0 = 0; quiet = 0; }
#define LOST do { ev_begin("Lost"); ev_at(); fin_(); return; } while(0)
static int arm_n, arm_from;
const char* hx_queries[] = { "get", "dget", "dgetz", "dgetn", "pth", "ptx", "dmp", "wlk", "kys", "ask", "V.look", "V.wlk", "V.kys", "V.ver", NULL };
void tr_cmd(void) {
    VALUE *v, *p; size_t n; int r; char* e;
    if(is("F")) { hx_arm((long) ai(1)); return; }
    if(av[0][0] == 'V') { vcmd(); return; }
    if(av[0][0] == 'S') { scmd(); return; }
    if(is("FF")) { hx_arm_from((long) ai(1)); return; }
    if(av[0][0] == 'L' || (ac <= 4 && (is("q") || is("Q") || is("i") || is("a") || is("o") || is("r") || is("l") || is("ir") || is("rr") || is("lr") || is("d")))) { lcmd(); return; }
    if(is("N")) {   /* a number of type ai(1) with the given bytes, asked everything */
        int t = (int) ai(1), k, oth = 0; VALUE w = VALUE_NULL_INITIALIZER; memset(kb, 0, 8); n = ahex(2, kb, 8); n = t == 2 || t == 3 || t == 6 ? 4 : 8;
        if(t == 2) { int32_t x; memcpy(&x, kb, 4); value_init_int32(&w, x); } else if(t == 3) { uint32_t x; memcpy(&x, kb, 4); value_init_uint32(&w, x); } else if(t == 4) { int64_t x; memcpy(&x, kb, 8); value_init_int64(&w, x); }
        else if(t == 5) { uint64_t x; memcpy(&x, kb, 8); value_init_uint64(&w, x); } else if(t == 6) { float x; memcpy(&x, kb, 4); value_init_float(&w, x); } else { double x; memcpy(&x, kb, 8); value_init_double(&w, x); }
        { int32_t i3 = value_int32(&w); uint32_t u3 = value_uint32(&w); int64_t i6 = value_int64(&w); uint64_t u6 = value_uint64(&w); float f = value_float(&w); double d = value_double(&w);
          ev_begin("Num"); ev_i("t", t); ev_raw(",\"b\":"); pbytes(kb, n); ev_raw(",\"i3\":"); pbytes(&i3, 4); ev_raw(",\"u3\":"); pbytes(&u3, 4); ev_raw(",\"i6\":"); pbytes(&i6, 8); ev_raw(",\"u6\":"); pbytes(&u6, 8); ev_raw(",\"f\":"); pbytes(&f, 4); ev_raw(",\"d\":"); pbytes(&d, 8); }
        ev_raw(",\"cp\":["); for(k = 2; k <= 7; k++) ev_raw(k > 2 ? ",%d" : "%d", value_is_compatible(&w, (VALUE_TYPE) k) != 0); ev_raw("]");
        for(k = 0; k <= 10; k++) if(k < 2 || k > 7) oth += value_is_compatible(&w, (VALUE_TYPE) k) != 0;
        ev_i("oth", oth); value_fini(&w); ev_end(); lv0 = hx_live; return; }
    if(is("big")) {    /* a string of ai(1) + (ai(2) << 20) bytes; only lengths and samples are reported */
        size_t m = (size_t) ai(1) + ((size_t) ai(2) << 20); char* src; const char* g; int ok = 1; size_t old = hx_limit; VALUE w; uint64_t len;
        size_t q; hx_limit = (size_t) 6 << 30; src = hx_rawalloc(m + 1); memset(src, 7, m + 1); for(q = 0; q < m; q += 4097) src[q] = (char) q; if(m) src[m - 1] = 'Z';
        r = value_init_string_(&w, src, m); len = value_string_length(&w); g = value_string(&w);
        if(r == 0) { ok = len == m && memcmp(g, src, m) == 0 && g[m] == 0; value_fini(&w); }
        hx_limit = old; ev_begin("Big"); ev_i("lo", (long long)(m & 0xfffff)); ev_i("hi", (long long)(m >> 20)); ev_i("r", r); ev_i("glo", (long long)(len & 0xfffff)); ev_i("ghi", (long long)(len >> 20 > 100000 ? 100000 : len >> 20)); ev_i("ok", ok); hx_rawfree(src); fin_(); return; }
    v = ac > 1 ? addr(av[1]) : NULL;
    if(lost && slot != 0) LOST;
    if(is("ini")) {
        const char* k = av[2]; int t = -1; if(slot != 0) { value_fini(v); if(v != NULL && strcmp(k, "strn") != 0) memset(v, HX_FILL, sizeof *v); }    /* an initialiser takes whatever was there */
        lv0 = lv0; ev_begin("Init"); ev_at();
        { long l1 = hx_live; ev_i("rel", l1 - lv0); lv0 = l1; }
        if(!strcmp(k, "null")) { value_init_null(v); r = v ? 0 : -1; t = 0; n = 0; }
        else if(!strcmp(k, "bool")) { int b = (int) ai(3); r = value_init_bool(v, b); t = 1; b = b != 0; memcpy(kb, &b, 4); n = 4; }
        else if(!strcmp(k, "num")) { t = (int) ai(3); memset(kb, 0, 8); ahex(4, kb, 8); n = t == 2 || t == 3 || t == 6 ? 4 : 8;
            if(t == 2) { int32_t x; memcpy(&x, kb, 4); r = value_init_int32(v, x); } else if(t == 3) { uint32_t x; memcpy(&x, kb, 4); r = value_init_uint32(v, x); } else if(t == 4) { int64_t x; memcpy(&x, kb, 8); r = value_init_int64(v, x); }
            else if(t == 5) { uint64_t x; memcpy(&x, kb, 8); r = value_init_uint64(v, x); } else if(t == 6) { float x; memcpy(&x, kb, 4); r = value_init_float(v, x); } else { double x; memcpy(&x, kb, 8); r = value_init_double(v, x); } }
        else if(!strcmp(k, "str")) { n = ahex(3, kb, KBN); e = exact(kb, n); r = value_init_string_(v, e, n); hx_rawfree(e); t = 8; }
        else if(!strcmp(k, "strl")) { size_t q; n = (size_t) ai(3); for(q = 0; q < n; q++) kb[q] = (unsigned char)(ai(4) + 3 * q); e = exact(kb, n); r = value_init_string_(v, e, n); hx_rawfree(e); t = 8; }
        else if(!strcmp(k, "strz")) { n = ahex(3, kb, KBN); kb[n] = 0; n = strlen((char*) kb); e = exact(kb, n + 1); r = value_init_string(v, e); hx_rawfree(e); t = 8; }
        else if(!strcmp(k, "strn")) { n = 0; r = ai(3) ? value_init_string(v, NULL) : value_init_string_(v, NULL, 0); t = 8; }
        else if(!strcmp(k, "arr")) { n = 0; r = value_init_array(v); t = 9; }
        else if(!strcmp(k, "dict")) { n = 0; r = value_init_dict(v); t = 10; ev_i("c", 0); ev_i("o", 0); }
        else { n = 0; r = value_init_dict_ex(v, cmps[ai(3)], ai(4) ? VALUE_DICT_MAINTAINORDER : 0); t = 10; ev_i("c", ai(3)); ev_i("o", ai(4) != 0); }
        ev_i("t", t); ev_raw(",\"v\":"); pbytes(kb, n); ev_i("r", r); ev_i("ty", (int) value_type(v)); ev_i("new", value_is_new(v) != 0); fin_();
    }
    else if(is("fin")) { value_fini(v); ev_begin("Fin"); ev_at(); ev_i("ty", (int) value_type(v)); ev_i("new", value_is_new(v) != 0); fin_(); }
    else if(is("app") || is("ins")) { size_t z = value_array_size(v), ix = is("app") ? z : (size_t) au(2); if(!is("app") && ix < 1000000 && z && ac > 3) ix %= z + 1;
        p = is("app") ? value_array_append(v) : value_array_insert(v, ix);
        ev_begin("Ins"); ev_at(); ev_i("i", is("app") && value_type(v) != VALUE_ARRAY ? 0 : clampi(ix)); ev_i("r", p != NULL); ev_i("at", p == NULL || p == value_array_get(v, ix)); ev_i("new", value_is_new(p) != 0); ev_i("z", (long long) value_array_size(v)); fin_(); }
    else if(is("rem") || is("rng")) { uint64_t ix = au(2), c = is("rem") ? 1 : au(3); size_t z = value_array_size(v); if(ix < 1000000 && z && ac > 4) ix %= z;
        r = is("rem") ? value_array_remove(v, ix) : value_array_remove_range(v, ix, c);
        ev_begin("Rng"); ev_at(); ev_i("i", clampi(ix)); ev_i("c", clampi(c)); ev_i("r", r); ev_i("z", (long long) value_array_size(v)); fin_(); }
    else if(is("acl")) { value_array_clean(v); ev_begin("Acl"); ev_at(); ev_i("z", (long long) value_array_size(v)); fin_(); }
    else if(is("get")) { uint64_t ix = au(2); p = value_array_get(v, ix); ev_begin("Get"); ev_at(); ev_i("i", clampi(ix)); ev_i("r", p != NULL); ev_i("at", p == NULL || p == value_array_get_all(v) + ix); fin_(); }
    else if(is("add") || is("addz") || is("addn") || is("goa") || is("goaz") || is("goan")) {
        int g = av[0][0] == 'g', z = av[0][3]; size_t s0 = value_dict_size(v); n = z == 'n' ? 0 : ahex(2, kb, KBN); kb[n] = 0; if(z) n = strlen((char*) kb); e = z == 'n' ? NULL : exact(kb, n + (z == 'z')); ncmp = 0;
        if(z == 'z' || z == 'n') p = g ? value_dict_get_or_add(v, e) : value_dict_add(v, e); else p = g ? value_dict_get_or_add_(v, e, n) : value_dict_add_(v, e, n);
        hx_rawfree(e); ev_begin("Add"); ev_at(); ev_raw(",\"k\":"); pbytes(kb, n); ev_i("g", g); ev_i("r", p != NULL); ev_i("new", value_is_new(p) != 0); ev_i("c", ncmp); ev_i("at", p == NULL || p == value_dict_get_(v, (char*) kb, n)); ev_i("z0", (long long) s0); ev_i("z", (long long) value_dict_size(v)); fin_(); }
    else if(is("drm") || is("drmz") || is("drmn")) { int z = av[0][3]; n = z == 'n' ? 0 : ahex(2, kb, KBN); kb[n] = 0; if(z) n = strlen((char*) kb); e = z == 'n' ? NULL : exact(kb, n + (z != 0)); ncmp = 0;
        r = z ? value_dict_remove(v, e) : value_dict_remove_(v, e, n); hx_rawfree(e); ev_begin("Drm"); ev_at(); ev_raw(",\"k\":"); pbytes(kb, n); ev_i("r", r); ev_i("c", ncmp); ev_i("z", (long long) value_dict_size(v)); fin_(); }
    else if(is("dget") || is("dgetz") || is("dgetn")) { int z = av[0][4]; n = z == 'n' ? 0 : ahex(2, kb, KBN); kb[n] = 0; if(z) n = strlen((char*) kb); e = z == 'n' ? NULL : exact(kb, n + (z != 0)); ncmp = 0;
        p = z ? value_dict_get(v, e) : value_dict_get_(v, e, n); hx_rawfree(e); ev_begin("Dget"); ev_at(); ev_raw(",\"k\":"); pbytes(kb, n); ev_i("r", p != NULL); ev_i("c", ncmp); if(p) ev_dump("v", p); fin_(); }
    else if(is("drmx")) {   /* remove an existing child */ char w[50000]; snprintf(w, sizeof w, "%s.*%s", av[1], av[2]); addr(w); if(nst == 0 || !st[nst-1].isk) return; nst--; v = root(slot); { int q; for(q = 0; q < nst; q++) v = down(v, &st[q]); }
        n = st[nst].kn; e = exact(st[nst].k, n); ncmp = 0; r = value_dict_remove_(v, e, n); hx_rawfree(e); ev_begin("Drm"); ev_at(); ev_raw(",\"k\":"); pbytes(st[nst].k, n); ev_i("r", r); ev_i("c", ncmp); ev_i("z", (long long) value_dict_size(v)); fin_(); }
    else if(is("dcl")) { value_dict_clean(v); ev_begin("Dcl"); ev_at(); ev_i("z", (long long) value_dict_size(v)); fin_(); }
    else if(is("pth") || is("bld") || is("ptx") || is("bdx")) {
        int b = av[0][0] == 'b'; VALUE* rt = root(slot); char* s;
        if(av[0][2] == 'x') mkpath(rt, (unsigned) ai(2), (int) ai(3)); else { n = ahex(2, (unsigned char*) pbuf, PBN - 1); pbuf[n] = 0; rt = v; }
        s = exact(pbuf, strlen(pbuf) + 1); nst = av[0][2] == 'x' ? 0 : nst;
        if(av[0][2] != 'x' && nst != 0) LOST;
        if(ac > 4) { if(ai(5)) hx_arm_from((long) ai(4)); else hx_arm((long) ai(4)); }
        p = b ? value_build_path(rt, s) : value_path(rt, s); if(ac > 4) hx_arm(0);
        ev_begin(b ? "Build" : "Path"); ev_i("s", slot); ev_raw(",\"q\":"); pbytes(s, strlen(s)); ev_where(rt, p); ev_i("new", value_is_new(p) != 0); if(b && (hx_oomhit || p == NULL)) ev_dump("v", rt); fin_(); hx_rawfree(s); }
    else if(is("dmp")) { ev_begin("Dump"); ev_at(); ev_dump("v", v); fin_(); }
    else if(is("wlk")) { WK w; w.n = 0; w.stop = (long) ai(3); w.ret = (long) ai(4); w.b = wb_[hx_ob]; *w.b = 0;
        r = ai(2) ? value_dict_walk_ordered(v, cb_wk, &w) : value_dict_walk_sorted(v, cb_wk, &w); ev_begin("Walk"); ev_at(); ev_i("m", ai(2)); ev_i("stop", w.stop); ev_i("ret", w.ret); ev_raw(",\"ks\":[%s]", wb_[hx_ob]); ev_i("r", r); ev_i("full", 0); fin_(); }
    else if(is("kys")) { size_t bs = (size_t) ai(3), i, m; const VALUE** b = (const VALUE**) hx_rawalloc(bs ? bs * sizeof(VALUE*) : 1); m = ai(2) ? value_dict_keys_ordered(v, b, bs) : value_dict_keys_sorted(v, b, bs);
        ev_begin("Keys"); ev_at(); ev_i("m", ai(2)); ev_i("bs", (long long) bs); ev_i("r", (long long) m); ev_raw(",\"ks\":["); for(i = 0; i < m && i < bs; i++) { if(i) ev_raw(","); pbytes(value_string(b[i]), value_string_length(b[i])); } ev_raw("]"); hx_rawfree(b); fin_(); }
    else if(is("ask")) { WK w; unsigned char o[8]; int k; w.n = 0; w.stop = 0; w.ret = 0; w.b = wb_[hx_ob]; *w.b = 0;
        ev_begin("Ask"); ev_at(); ev_i("t", (int) value_type(v)); ev_i("new", value_is_new(v) != 0); ev_i("bo", value_bool(v));
        ev_i("str", value_string(v) != NULL); ev_i("sl", (long long) value_string_length(v)); ev_i("az", (long long) value_array_size(v)); ev_i("ag", value_array_get(v, 0) != NULL);
        ev_i("aa", value_array_get_all(v) != NULL); ev_i("dz", (long long) value_dict_size(v)); ev_i("df", (long long) value_dict_flags(v)); ev_i("dg", value_dict_get(v, "a") != NULL);
        r = value_dict_walk_sorted(v, cb_wk, &w); ev_raw(",\"ig\":[%s]", wb_[hx_ob]); ev_i("ws", r); w.n = 0; w.b = wb_[hx_ob]; *w.b = 0; r = value_dict_walk_ordered(v, cb_wk, &w); ev_raw(",\"ih\":[%s]", wb_[hx_ob]); ev_i("wo", r);
        ev_i("kz", (long long) (value_dict_keys_sorted(v, (const VALUE**) kb, 1) + 10 * value_dict_keys_ordered(v, (const VALUE**) kb, 1)));
        ev_raw(",\"cp\":["); for(k = 0; k <= 10; k++) ev_raw(k ? ",%d" : "%d", value_is_compatible(v, (VALUE_TYPE) k) != 0); ev_raw("]");
        { float f = value_float(v); double d = value_double(v); ev_i("i3", value_int32(v)); ev_i("u3", value_uint32(v) == UINT32_MAX); ev_i("i6", value_int64(v) == -1); ev_i("u6", value_uint64(v) == UINT64_MAX); ev_i("f", f == -1.0f); ev_i("dd", d == -1.0); }
        (void) o; fin_(); }
    else if(is("bad")) {   /* container operations on whatever is at the address, none of which may do anything unless it has the right type */
        int t = (int) value_type(v), c = 0; char* s = exact("a", 2);
        if(t != VALUE_ARRAY) { c += value_array_append(v) != NULL; c += value_array_insert(v, 0) != NULL; c += value_array_remove(v, 0) == 0; c += value_array_remove_range(v, 0, 0) == 0; value_array_clean(v); }
        if(t != VALUE_DICT) { c += value_dict_add(v, s) != NULL; c += value_dict_get_or_add(v, s) != NULL; c += value_dict_remove(v, s) == 0; c += value_dict_get(v, s) != NULL; value_dict_clean(v); }
        hx_rawfree(s); ev_begin("Bad"); ev_at(); ev_i("r", c); fin_(); }
}
void tr_end(void) { int i; if(is("N")) return; for(i = 1; i < NS; i++) value_fini(&R[i]); ev_begin("End"); fin_(); }
