#include "hx.h"
#include "mem/memchunk.h"
#include "mem/malloca.h"
typedef struct { unsigned char* p; size_t n; int kind; int seed; } SLOT;
static SLOT sl_[HX_OBS][5000]; static int nsl_[HX_OBS];
#define sl (sl_[hx_ob])
#define nsl (nsl_[hx_ob])
static void fill(SLOT* s) { size_t i; for(i = 0; i < s->n; i++) s->p[i] = (unsigned char)(s->seed * 37 + i * 11 + i / 256); }
static int intact(void) { int k; size_t i; for(k = 0; k < nsl; k++) if(sl[k].p != NULL) for(i = 0; i < sl[k].n; i++) if(sl[k].p[i] != (unsigned char)(sl[k].seed * 37 + i * 11 + i / 256)) return 0; return 1; }
/* sizes: decimal; "m7" is SIZE_MAX - 7, "q3+1" is 3 * 2^62 + 1 */
static size_t sz(const char* s, int* huge) {
    *huge = 0;
    if(*s == 'm') { *huge = 1; return SIZE_MAX - strtoull(s + 1, NULL, 10); }
    if(*s == 'q') { char* e; size_t v = (size_t) strtoull(s + 1, &e, 10) << 62; *huge = 1; return v + (size_t) strtoll(e, NULL, 10); }
    { size_t v = strtoull(s, NULL, 10); if(v > hx_limit) *huge = 1; return v; }
}
static void* blocks_[HX_OBS][100000]; static int nblocks_[HX_OBS];
#define blocks (blocks_[hx_ob])
#define nblocks (nblocks_[hx_ob])
static int blockid(void* b) { int i; for(i = nblocks - 1; i >= 0; i--) if(blocks[i] == b) return i; blocks[nblocks] = b; return nblocks++; }
static long a0, f0;
static void tail(void) { ev_i("al", hx_allocs - a0); ev_i("fr", hx_frees - f0); ev_i("bad", hx_badfree); ev_i("oom", hx_oomhit); ev_i("live", hx_live); ev_i("intact", intact()); ev_end(); }
static MEMCHUNK ch_[HX_OBS]; static int inited_[HX_OBS], hugebs_[HX_OBS];
#define ch (ch_[hx_ob])
#define inited (inited_[hx_ob])
#define hugebs (hugebs_[hx_ob])
void tr_begin(void) { nsl = 0; nblocks = 0; inited = 0; a0 = f0 = 0; }
static void fini(void) { int ok = intact(); a0 = hx_allocs; f0 = hx_frees; nsl = 0; memchunk_fini(&ch); nblocks = 0; ev_begin("CFini"); ev_i("ok", ok); tail(); }
static void initc(size_t bs, int st) {
    a0 = hx_allocs; f0 = hx_frees; hx_oomhit = 0;
    if(!st) { memset(&ch, HX_FILL ^ 0xFF, sizeof ch); memchunk_init(&ch, bs); }
    else { MEMCHUNK i0 = MEMCHUNK_INITIALIZER(0), i1 = MEMCHUNK_INITIALIZER(1), i8 = MEMCHUNK_INITIALIZER(4 + 4), ib = MEMCHUNK_INITIALIZER(bs ? bs : 0); ch = bs == 0 ? i0 : bs == 1 ? i1 : bs == 8 ? i8 : ib; }
    inited = 1; nsl = 0; hugebs = bs > hx_limit; ev_begin("CInit"); tail();
}
static void place(SLOT* s, char* base0) {
    void* b; size_t bn;
    if(hx_owner(s->p, s->n, &b, &bn)) { s->kind = 1; ev_i("kind", 1); ev_i("blk", blockid(b)); ev_i("off", (long long)((char*) s->p - (char*) b)); ev_i("cap", (long long) bn); }
    else if(base0 != NULL && (char*) s->p < base0 && (char*) s->p >= (char*) __builtin_frame_address(0)) { s->kind = 2; ev_i("kind", 2); ev_i("blk", 0); ev_i("off", (long long)((char*) s->p - base0)); ev_i("cap", 0); }
    else { s->kind = 3; ev_i("kind", 3); ev_i("blk", 0); ev_i("off", 0); ev_i("cap", 0); }
}
/* ---- MALLOCA: all commands of a trace run in one frame ---- */
static volatile size_t zero;
static void __attribute__((noinline)) mrun(void) {
    int k, q; char* base0 = (char*) __builtin_frame_address(0);
    for(k = 1; k < ac; k++) {
        char* w = av[k]; 
        a0 = hx_allocs; f0 = hx_frees; hx_oomhit = 0;
        if(*w == 's') {
            int form = atoi(w + 1), huge, h2; char* c1 = strchr(w, ':'); char* c2; size_t n, t; SLOT* s = &sl[nsl]; void* r = NULL; size_t lo, hi, z = zero; int sh = 0, in, it; unsigned un; unsigned short us; size_t odd;
            c2 = strchr(c1 + 1, ':'); *c1 = *c2 = 0; n = sz(c1 + 1, &huge); t = sz(c2 + 1, &h2);
            lo = n & 0x2b; hi = n & ~(size_t) 0x2b; odd = n; while(odd != 0 && odd % 2 == 0) { odd /= 2; sh++; }
            in = (int) n; it = (int) t; un = (unsigned) n; us = (unsigned short) n;
            switch(form) {
                case 0: t = 1024; r = MALLOCA(n); break;
                case 1: r = MALLOCA_(n, t); break;
                case 2: r = MALLOCA_(z ? t : n, z ? n : t); break;
                case 3: r = MALLOCA_(lo | hi, t); break;
                case 4: r = MALLOCA_(odd << sh, t); break;
                case 5: r = MALLOCA_(n, (t & 0xf0f0) | (t & ~(size_t) 0xf0f0)); break;
                case 6: r = MALLOCA_(in, it); break;                /* plain ints */
                case 7: r = MALLOCA_(un, t); break;
                case 8: r = MALLOCA_(us, it); break;
                case 9: r = MALLOCA_(n ^ z, t ^ z); break;
                case 10: r = MALLOCA_(n - z, t - z); break;
                case 11: t = 1024; r = MALLOCA(z ? z : n); break;
                case 12: { size_t size = n, threshold = t, x = 0; r = MALLOCA_(size + x, threshold); break; }
                case 13: t = 1024; r = MALLOCA(lo | hi); break;
                case 14: r = MALLOCA_(n > t ? n : n, t); break;
                case 15: { int cond = r == NULL; r = MALLOCA_(cond ? n : z, cond ? t : z); break; }
                case 16: t = 1024; r = MALLOCA(in); break;
                case 17: r = MALLOCA_(n & ~z, t); break;
            }
            s->p = r; s->n = n; s->kind = 0; s->seed = nsl + 1;
            if(h2) t = SIZE_MAX / 2 < t ? (size_t) 1 << 30 : t;
            ev_begin("AAlloc"); ev_i("id", nsl); ev_i("form", form); ev_i("size", huge ? 0 : (long long) n); ev_i("huge", huge); ev_i("thr", (long long)(t > ((size_t) 1 << 30) ? (size_t) 1 << 30 : t)); ev_i("word", sizeof(void*)); ev_i("r", r != NULL); ev_i("aligned", (uintptr_t) r % sizeof(void*) == 0);
            if(r != NULL) { place(s, base0); if(!huge) fill(s); else s->n = 0; }
            nsl++; tail();
        } else if(*w == 'f') {
            int form = atoi(w + 1), i = atoi(strchr(w, ':') + 1); void* p = sl[i].p; int kind = sl[i].kind, found = 0; sl[i].p = NULL; sl[i].kind = 0;
            switch(form) {
                case 0: FREEA(p); break;
                case 1: { void* x = p; FREEA(x); break; }
                case 2: { char* ptr = (char*) p; FREEA(ptr); break; }
                case 3: FREEA(zero ? NULL : p); break;
                case 4: if(p != NULL) FREEA((char*) p + zero); else FREEA(NULL); break;
                case 5: { void* a[2]; a[zero] = p; if(1) FREEA(a[zero]); else FREEA(a[1]); break; }
                case 6: { struct { void* mark; } m; m.mark = p; FREEA(m.mark); break; }
                case 7: { int* x = (int*) p; FREEA(x); break; }
                case 8: if(p != NULL) { int* x = (int*) p + 1; FREEA(x - 1); } else FREEA((int*) p); break;
                case 9: if(p != NULL) { struct { double a[3]; }* x = p; x++; FREEA(x - 1); } break;
                case 10: { void* a[2]; void** pp = a + 1; a[0] = p; a[1] = NULL; FREEA(*(pp - 1)); FREEA(*pp); break; }
                case 11: { long* x = (long*) p; FREEA(x ? x : (long*) NULL); break; }
                case 12: { const char* const x = (const char*) p; for(q = 0; q < 1; q++) FREEA(x); break; }
                case 13: { void* volatile ptr = p; FREEA((ptr, ptr)); break; }
                case 14: if(p != NULL) { short* x = (short*) p + 7; FREEA(&x[-7]); } break;
            }
            if(kind == 1) { void* b; size_t bn; found = hx_owner(p, 1, &b, &bn); }
            ev_begin("AFree"); ev_i("id", i); ev_i("form", form); ev_i("gone", kind == 1 && !found); tail();
        } else if(*w == 'k') hx_arm(atoi(w + 1));
        else if(*w == 'K') hx_arm_from(atoi(w + 1));
    }
    hx_arm(0); a0 = hx_allocs; f0 = hx_frees; ev_begin("AEnd"); tail();
    for(q = 0; q < nsl; q++) if(sl[q].kind == 1 && sl[q].p != NULL) FREEA(sl[q].p);
    nsl = 0;
}
/* ci BS / cs BS (static initialiser) ; a SIZE ; cf ; k N ; K N | m WORDS */
const char* hx_queries[] = { NULL };
void tr_cmd(void) {
    int huge;
    if(is("ci") || is("cs")) { initc((size_t) sz(av[1], &huge), is("cs")); }
    else if(is("a") || is("ar")) { int rep = is("ar") ? (int) ai(2) : 1; while(rep-- > 0) {
        SLOT* s = &sl[nsl]; size_t n = sz(av[1], &huge); void* r; if(!inited) initc(0, 0);
        a0 = hx_allocs; f0 = hx_frees; hx_oomhit = 0; r = memchunk_alloc(&ch, n); s->p = r; s->n = huge ? 0 : n; s->seed = nsl + 1;
        ev_begin("CAlloc"); ev_i("hb", hugebs); ev_i("id", nsl); ev_i("size", huge ? 0 : (long long) n); ev_i("huge", huge); ev_i("r", r != NULL);
        if(r != NULL) { place(s, NULL); if(s->kind == 1) fill(s); else { s->p = NULL; } nsl++; }
        tail(); } }
    else if(is("cf")) fini();
    else if(is("k")) hx_arm((long) ai(1));
    else if(is("K")) hx_arm_from((long) ai(1));
    else if(is("m")) mrun();
}
void tr_end(void) { if(inited) fini(); }
