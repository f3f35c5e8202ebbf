#include "hx.h"
#ifdef NOGNU     /* the plain C definitions the header falls back on */
#undef __GNUC__
#endif
#include "data/htable.h"

/* Nodes live in raw memory; the key is stored apart from the link. */
typedef struct { long id; long key; HTABLE_NODE link; } NODE;
#define MAXN 4096
static HTABLE T_[HX_OBS] HX_OBJ;
static NODE* node_of_id_[HX_OBS][MAXN * 4];
static long next_id_[HX_OBS];
static int hmode_[HX_OBS];
#define T (T_[hx_ob])
#define node_of_id (node_of_id_[hx_ob])
#define next_id (next_id_[hx_ob])
#define hmode (hmode_[hx_ob])
static long long dl_[HX_OBS][MAXN * 4]; static int dn_[HX_OBS]; static int dfree;
#define dl (dl_[hx_ob])
#define dn (dn_[hx_ob])

static NODE* N(const HTABLE_NODE* n) { return HTABLE_DATA(n, NODE, link); }
static int cmp(const HTABLE_NODE* a, const HTABLE_NODE* b) { long x = N(a)->key, y = N(b)->key; hx_callback(); return x < y ? -7 : x > y; }
static uint32_t hash(const HTABLE_NODE* n) {
    uint32_t k = (uint32_t) N(n)->key; hx_callback();
    switch(hmode) {
        case 0: return k;
        case 1: return 0;
        case 2: return k * 2654435761u;
        case 3: return k % 3u;
        case 4: return k * 59u;            /* all in slot 0 of the first plane */
        case 5: return k * 118u + 59u;     /* collide in the first, differ in the second */
        case 6: return 0xffffffffu - k;
        case 7: return 0xffffffffu;
        case 8: return (k % 5u) * 944u + 1u;
        default: return (k << 31) | (k >> 1);
    }
}
static NODE* mk(long key) {
    NODE* n = (NODE*) hx_rawalloc(sizeof(NODE));
    memset(n, HX_FILL ^ 0xFF, sizeof(NODE));
    n->id = next_id; n->key = key; node_of_id[next_id++] = n;
    return n;
}
static void rel(NODE* n) { node_of_id[n->id] = NULL; memset(n, 0xEE, sizeof(NODE)); hx_rawfree(n); }
static void dtor(HTABLE_NODE* n) { dl[dn++] = N(n)->id; if(dfree) rel(N(n)); hx_callback(); }

static void obs(void) {
    hx_ro(1); ev_i("e", htable_is_empty(&T) != 0); hx_ro(0); ev_i("live", hx_live); ev_i("bad", hx_badfree); ev_i("oom", hx_oomhit);
}
void tr_begin(void) { static int odd; HTABLE z = HTABLE_INITIALIZER; memset(&T, HX_FILL, sizeof T); if((odd = !odd)) T = z; else htable_init(&T); next_id = 1; hmode = 0; }
static void fini(int with) {
    dn = 0; dfree = 1;
    htable_fini(&T, with ? dtor : NULL);
    ev_begin("Fini"); ev_i("dtor", with); ev_a("d", dl, dn); obs(); ev_end();
    if(!with) { long i; for(i = 1; i < next_id; i++) if(node_of_id[i]) rel(node_of_id[i]); }
}
static void ins(long k, int unsafe) {
    NODE* n; int r;
    if(next_id >= MAXN * 4 - 1) return;
    n = mk(k);
    r = unsafe ? htable_insert_unsafe(&T, &n->link, cmp, hash) : htable_insert(&T, &n->link, cmp, hash);
    ev_begin("Ins"); ev_i("k", k); ev_i("id", n->id); ev_i("u", unsafe); ev_i("r", r); obs(); ev_end();
    if(r != 0) rel(n);
}
static void rem(long k) {
    NODE key; HTABLE_NODE* r;
    memset(&key, 0, sizeof key); key.key = k;
    r = htable_remove(&T, &key.link, cmp, hash);
    ev_begin("Rem"); ev_i("k", k); ev_i("r", r ? N(r)->id : 0); obs(); ev_end();
    if(r) rel(N(r));
}

/* ---- very large tables: keys 1..top, members by remainder (cf. rbtree_drv.c) ---- */
static NODE** bn; static long bmax, bcut, btop, bm = 1; static unsigned long bres; static long calls_, good; static int bigmode;
static long nth(long i, long n, int order) {   /* i-th of 1..n in some order */
    if(order == 0) return i + 1;
    if(order == 1) return n - i;
    if(order == 2) return (long) (((unsigned long long) i * 618033989ULL) % (unsigned long long) n) + 1;   /* n coprime to the stride */
    return (i % 2) ? n - i / 2 : i / 2 + 1;     /* from both ends */
}
static int coprime(long n) { unsigned long a = 618033989UL, b = (unsigned long) n, t; while(b) { t = a % b; a = b; b = t; } return a == 1; }
static int ord(long n, int o) { return o == 2 && !coprime(n) ? 3 : o; }
static int bmem(long k) { return k > bcut && k <= btop && (bres >> (k % bm) & 1); }
static void b_ins(long k) {
    NODE* n = hx_rawalloc(sizeof *n); memset(n, HX_FILL ^ 0xFE, sizeof *n); n->id = k; n->key = k;
    calls_++; if((k % 3 ? htable_insert(&T, &n->link, cmp, hash) : htable_insert_unsafe(&T, &n->link, cmp, hash)) == 0) good++;
    bn[k] = n;
}
static void b_rem(long k) {
    NODE key; HTABLE_NODE* r; memset(&key, 0, sizeof key); key.key = k;
    r = htable_remove(&T, &key.link, cmp, hash); calls_++;
    if(bn[k] && r == &bn[k]->link) { good++; memset(bn[k], 0xEE, sizeof(NODE)); hx_rawfree(bn[k]); }
    bn[k] = NULL;
}
static void bdtor(HTABLE_NODE* n) { NODE* x = N(n); long id = x->id; calls_++; if(id > 0 && id < bmax && bn[id] == x) { good++; bn[id] = NULL; memset(x, 0xEE, sizeof(NODE)); hx_rawfree(x); } }
static void bobs(const char* op, const char* key, long v) { ev_begin(op); ev_i(key, v); ev_i("n", calls_); ev_i("good", good); ev_i("live", hx_live); ev_i("bad", hx_badfree); ev_i("e", htable_is_empty(&T) != 0); ev_end(); }
static void big_cmd(void) {
    long i, k, a = (long) ai(1), b = (long) ai(2); int order = (int) ai(ac - 1);
    calls_ = good = 0;
    if(is("B.fill")) {      /* n m mask order */
        long long R[64]; int nr = 0; if(order == 2) while(!coprime(a)) a++;
        if(bn) hx_rawfree(bn); bmax = a + 2; bn = hx_rawalloc(sizeof(NODE*) * bmax); memset(bn, 0, sizeof(NODE*) * bmax);
        bm = b; bres = (unsigned long) ai(3); bcut = 0; btop = a;
        for(i = 0; i < a; i++) { k = nth(i, a, order); if(bmem(k)) b_ins(k); }
        for(i = 0; i < bm; i++) if(bres >> i & 1) R[nr++] = i;
        ev_begin("BFill"); ev_i("top", btop); ev_i("m", bm); ev_a("R", R, nr); ev_i("n", calls_); ev_i("good", good); ev_i("live", hx_live); ev_i("bad", hx_badfree); ev_i("e", htable_is_empty(&T) != 0); ev_end();
    } else if(is("B.add")) { for(i = 0; i < btop; i++) { k = nth(i, btop, ord(btop, order)); if(k > bcut && k % bm == a) b_ins(k); } bres |= 1UL << a; bobs("BAdd", "r", a); }
    else if(is("B.del")) { for(i = 0; i < btop; i++) { k = nth(i, btop, ord(btop, order)); if(k % bm == a && bmem(k)) b_rem(k); } bres &= ~(1UL << a); bobs("BDel", "r", a); }
    else if(is("B.cut")) { for(i = 0; i < a; i++) { k = nth(i, a, ord(a, order)); if(bmem(k)) b_rem(k); } if(a > bcut) bcut = a; bobs("BCut", "at", a); }
    else if(is("B.top")) { for(i = 0; i < btop - a; i++) { k = a + nth(i, btop - a, order == 2 ? 3 : order); if(bmem(k)) b_rem(k); } if(a < btop) btop = a; bobs("BTop", "at", a); }
    else if(is("B.look") || is("B.dup")) {
        long hit = 0, miss = 0, wrong = 0; int dup = is("B.dup");
        for(k = 1; k <= btop; k++) {
            NODE key; HTABLE_NODE* r; memset(&key, 0, sizeof key); key.key = k;
            if(!dup) { r = htable_lookup(&T, &key.link, cmp, hash); if(r == NULL) miss++; else if(bn[k] && r == &bn[k]->link) hit++; else wrong++; }
            else if(bmem(k)) { if(htable_insert(&T, &key.link, cmp, hash) == -1) hit++; else wrong++; }
            else { r = htable_remove(&T, &key.link, cmp, hash); if(r == NULL) miss++; else wrong++; }
        }
        ev_begin(dup ? "BDup" : "BLook"); ev_i("n", btop); ev_i("hit", hit); ev_i("miss", miss); ev_i("wrong", wrong); ev_end();
    } else if(is("B.fin")) {
        htable_fini(&T, a ? bdtor : NULL);
        if(!a) for(k = 0; k < bmax; k++) if(bn[k]) { hx_rawfree(bn[k]); bn[k] = NULL; }
        bobs("BFin", "dtor", a); bcut = btop = 0; bm = 1; bres = 0;
    }
}
const char* hx_queries[] = { "l", "a", "B.look", NULL };
void tr_cmd(void) {
    long k = (long) ai(1);
    if(av[0][0] == 'B') { bigmode = 1; big_cmd(); return; }
    if(is("h")) hmode = (int) k;
    else if(is("i")) ins(k, 0);
    else if(is("u")) ins(k, 1);
    else if(is("r")) rem(k);
    else if(is("ir")) { long b = (long) ai(2), s = ac > 3 ? (long) ai(3) : 1; for(; k <= b; k += s) ins(k, 0); }
    else if(is("rr")) { long b = (long) ai(2), s = ac > 3 ? (long) ai(3) : 1; for(; k <= b; k += s) rem(k); }
    else if(is("l")) {
        NODE key; HTABLE_NODE* r; memset(&key, 0, sizeof key); key.key = k;
        r = htable_lookup(&T, &key.link, cmp, hash);
        ev_begin("Look"); ev_i("k", k); ev_i("r", r ? N(r)->id : 0); obs(); ev_end();
    }
    else if(is("a")) {
        static long long vv[HX_OBS][MAXN]; long long* v = vv[hx_ob]; long i; 
        for(i = 1; i <= k; i++) {
            NODE key; HTABLE_NODE* r; memset(&key, 0, sizeof key); key.key = i;
            r = htable_lookup(&T, &key.link, cmp, hash);
            v[i-1] = r ? N(r)->id : 0;
        }
        ev_begin("All"); ev_a("v", v, (int) k); obs(); ev_end();
    }
    else if(is("f")) fini((int) k);
    else if(is("F")) hx_arm(k);
    else if(is("FF")) hx_arm_from(k);
}
void tr_end(void) {
    if(bigmode) { char o[] = "1", w[] = "B.fin"; av[0] = w; av[1] = o; ac = 2; big_cmd(); if(bn) { hx_rawfree(bn); bn = NULL; bmax = 0; } bigmode = 0; return; }
    fini(1);
}
