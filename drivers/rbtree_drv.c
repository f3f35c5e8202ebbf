#include "hx.h"
#include <limits.h>
#ifdef NOGNU     /* the plain C definitions the header falls back on */
#undef __GNUC__
#endif
#include "data/rbtree.h"
int rbtree_verify(RBTREE* tree);

typedef struct { long pad; RBTREE_NODE link; long id; long key; } NODE;
#define MAXN 200000
static RBTREE T_[HX_OBS] HX_OBJ;
static RBTREE_CURSOR cur_[HX_OBS];
static NODE** node_of_id_[HX_OBS]; static long next_id_[HX_OBS];
static int cmode_[HX_OBS]; static long ncmp_[HX_OBS];
#define ncmp (ncmp_[hx_ob])
#define T (T_[hx_ob])
#define cur (cur_[hx_ob])
#define node_of_id (node_of_id_[hx_ob])
#define next_id (next_id_[hx_ob])
#define cmode (cmode_[hx_ob])
static NODE* N(const RBTREE_NODE* n) { return n ? RBTREE_DATA(n, NODE, link) : NULL; }

/* total orders: 0 ascending, 1 descending, 2 extreme return values, 3 a permutation of 1..100 */
static long rank_of(long k) { return cmode == 1 ? -k : cmode == 3 ? (k * 37) % 101 : k; }
static NODE* recv_[4096]; static int rec, recn; static NODE* probe;   /* nodes visited by a lookup */
static int cmp(const RBTREE_NODE* a, const RBTREE_NODE* b) {
    long x = rank_of(N(a)->key), y = rank_of(N(b)->key);
    ncmp++; if(!rec) hx_callback();
    if(rec && recn < 4096) { NODE* o = N(a) == probe ? N(b) : N(a); if(recn == 0 || recv_[recn - 1] != o) recv_[recn++] = o; }
    if(x == y) return 0;
    if(cmode == 2) return x < y ? INT_MIN : INT_MAX;
    return x < y ? -1 : 1;
}
static NODE* mk(long key) { NODE* n = (NODE*) hx_rawalloc(sizeof(NODE)); memset(n, HX_FILL ^ 0xFE, sizeof *n); n->id = next_id; n->key = key; node_of_id[next_id++] = n; return n; }
static void rel(NODE* n) { node_of_id[n->id] = NULL; memset(n, 0xEE, sizeof *n); hx_rawfree(n); }
#define ID(p) ((p) ? N(p)->id : 0)

static void obs(void) { hx_ro(1); ev_i("e", rbtree_is_empty(&T) != 0); hx_ro(0); ev_i("c", ncmp); }
void tr_begin(void) { if(!node_of_id) node_of_id = hx_rawalloc(sizeof(NODE*) * MAXN); { static int odd; RBTREE z = RBTREE_INITIALIZER; if((odd = !odd)) T = z; else { memset(&T, HX_FILL, sizeof T); rbtree_init(&T); } } next_id = 1; cmode = 0; memset(&cur, 0, sizeof cur); }

static long long buf_[HX_OBS][MAXN], hist_[HX_OBS][MAXN]; static int hn_[HX_OBS], quiet_[HX_OBS];
#define buf (buf_[hx_ob])
#define hist (hist_[hx_ob])
#define hn (hn_[hx_ob])
#define quiet (quiet_[hx_ob])
static void ins(long k) {
    NODE* n = mk(k); int r;
    ncmp = 0; r = rbtree_insert(&T, &n->link, cmp);
    if(quiet) hist[hn++] = k;
    else { ev_begin("Ins"); ev_i("k", k); ev_i("id", n->id); ev_i("r", r); obs(); ev_end(); }
    if(r != 0) rel(n);
}
static void again(long k) {     /* insert the very node that is stored under k */
    NODE key, *n; RBTREE_NODE* x; int r; memset(&key, 0, sizeof key); key.key = k;
    x = rbtree_lookup(&T, &key.link, cmp); if(x == NULL) return;
    n = N(x); ncmp = 0; r = rbtree_insert(&T, &n->link, cmp);
    if(quiet) { if(r == 0) { hist[hn++] = 0; } return; }
    ev_begin("Ins"); ev_i("k", k); ev_i("id", n->id); ev_i("r", r); obs(); ev_end();
}
static void rem(long k) {
    NODE key; RBTREE_NODE* r; memset(&key, 0, sizeof key); key.key = k;
    ncmp = 0; r = rbtree_remove(&T, &key.link, cmp);
    if(quiet) hist[hn++] = -k;
    else { ev_begin("Rem"); ev_i("k", k); ev_i("r", ID(r)); obs(); ev_end(); }
    if(r) rel(N(r));
}
static void look(long k, int ex) {
    NODE key; RBTREE_NODE* r; memset(&key, 0, sizeof key); key.key = k;
    ncmp = 0; r = ex ? rbtree_lookup_ex(&T, &key.link, cmp, &cur) : rbtree_lookup(&T, &key.link, cmp);
    ev_begin(ex ? "LookEx" : "Look"); ev_i("k", k); ev_i("r", ID(r)); if(ex) ev_i("cur", ID(rbtree_current(&cur))); obs(); ev_end();
}
static void curop(const char* op, RBTREE_NODE* r) { ncmp = 0; ev_begin(op); ev_i("r", ID(r)); ev_i("cur", ID(rbtree_current(&cur))); obs(); ev_end(); }
static void walk(int fwd, long max) {
    RBTREE_CURSOR c = RBTREE_CURSOR_INITIALIZER; RBTREE_NODE* n; int i = 0;
    for(n = fwd ? rbtree_head(&T, &c) : rbtree_tail(&T, &c); n != NULL && i < max; n = fwd ? rbtree_next(&c) : rbtree_prev(&c)) buf[i++] = ID(n);
    ncmp = 0; ev_begin(fwd ? "Walk" : "WalkB"); ev_a("v", buf, i); obs(); ev_end();
}
/* the shape, as lookups of every node see it: l[i], r[i] for id i, root */
static long long dl[MAXN], dr[MAXN];
static void dump(void) {
    RBTREE_CURSOR c = RBTREE_CURSOR_INITIALIZER; RBTREE_NODE* x; int i, j, m = 0, deep = 0; long root = 0;
    memset(dl, 0, sizeof(dl[0]) * next_id); memset(dr, 0, sizeof(dr[0]) * next_id);
    for(x = rbtree_head(&T, &c); x != NULL && m < MAXN; x = rbtree_next(&c)) buf[m++] = ID(x);
    for(i = 0; i < m; i++) {
        NODE key; NODE* n = node_of_id[buf[i]]; NODE* par; long long* slot;
        memset(&key, 0, sizeof key); key.key = n->key; probe = &key; recn = 0; rec = 1;
        x = rbtree_lookup(&T, &key.link, cmp); rec = 0;
        for(j = 0; j < recn && recv_[j] != n; j++) {}
        if(x != &n->link || j >= recn) { deep = 1; break; }
        if(j == 0) { if(root && root != n->id) deep = 1; root = n->id; continue; }
        par = recv_[j - 1]; slot = rank_of(n->key) < rank_of(par->key) ? &dl[par->id - 1] : &dr[par->id - 1];
        if(*slot != 0) deep = 1; *slot = n->id;
    }
    ncmp = 0; ev_begin("Dump"); ev_i("deep", deep); ev_i("ok", rbtree_verify(&T) == 0); ev_i("root", root); ev_a("L", dl, next_id - 1); ev_a("R", dr, next_id - 1); obs(); ev_end();
}
static void fini(int steps) {
    int i = 0; RBTREE_NODE* n = NULL; int end = 0;
    while(i < steps) { n = rbtree_fini_step(&T); if(n == NULL) { end = 1; break; } buf[i++] = ID(n); rel(N(n)); }
    ncmp = 0; ev_begin("Fini"); ev_a("d", buf, i); ev_i("end", end); ev_i("want", steps); obs(); ev_end();
}
/* ---- very large trees: keys 1..top, members by remainder ---- */
static NODE** bn; static long bmax, bcut, btop, bm; static unsigned long bres; static long mc, calls_, good, btotal;
static void count(void) { if(ncmp > mc) mc = ncmp; ncmp = 0; calls_++; }
static long nth(long i, long n, int order) {   /* i-th of 1..n in some order */
    if(order == 0) return i + 1;
    if(order == 1) return n - i;
    if(order == 2) return (long) (((unsigned long long) i * 618033989ULL) % (unsigned long long) n) + 1;   /* n coprime to the stride */
    return (i % 2) ? n - i / 2 : i / 2 + 1;     /* from both ends */
}
static int coprime(long n) { unsigned long a = 618033989UL, b = (unsigned long) n, t; while(b) { t = a % b; a = b; b = t; } return a == 1; }
static void bwant(long n) { if(n + 2 > bmax) { NODE** m = hx_rawalloc(sizeof(NODE*) * (n + 2)); if(bn) memcpy(m, bn, sizeof(NODE*) * bmax); memset(m + bmax, 0, sizeof(NODE*) * (n + 2 - bmax)); if(bn) hx_rawfree(bn); bn = m; bmax = n + 2; } }
static int bmem(long k) { return k > bcut && k <= btop && (bres >> (k % bm) & 1); }
static void b_ins(long k) { NODE* n = hx_rawalloc(sizeof *n); memset(n, HX_FILL ^ 0xFE, sizeof *n); n->id = k; n->key = k; if(rbtree_insert(&T, &n->link, cmp) == 0) good++; count(); bn[k] = n; }
static void b_rem(long k) { NODE key; RBTREE_NODE* r; memset(&key, 0, sizeof key); key.key = k; r = rbtree_remove(&T, &key.link, cmp); count(); if(r == &bn[k]->link) { good++; memset(bn[k], 0xEE, sizeof(NODE)); hx_rawfree(bn[k]); } bn[k] = NULL; }
static int bigmode;
static void bstart(void) { mc = calls_ = good = 0; ncmp = 0; cmode = 0; }
static void bobs(void) { ev_i("n", calls_); ev_i("good", good); ev_i("mc", mc); ev_i("e", rbtree_is_empty(&T) != 0); ev_end(); }
static void bwalk(int fwd) {
    RBTREE_CURSOR c = RBTREE_CURSOR_INITIALIZER; RBTREE_NODE* x; long n = 0, first = 0, last = 0; long long g[64], ct[64]; int ng = 0, i;
    for(x = fwd ? rbtree_head(&T, &c) : rbtree_tail(&T, &c); x != NULL && n < 3000000; x = fwd ? rbtree_next(&c) : rbtree_prev(&c)) {
        long k = N(x)->key; if(n++ == 0) first = k; else { for(i = 0; i < ng && g[i] != k - last; i++) {} if(i == ng && ng < 64) { g[ng] = k - last; ct[ng++] = 0; } if(i < 64) ct[i]++; } last = k; }
    ev_begin("BWalk"); ev_i("fwd", fwd); ev_i("n", n); ev_i("first", first); ev_i("last", last); ev_a("gap", g, ng); ev_a("cnt", ct, ng); ev_end();
}
static void bcur(const char* op, RBTREE_NODE* r) { ev_begin(op); if(!strcmp(op, "BEx")) ev_i("k", ai(1)); ev_i("r", r ? N(r)->key : 0); r = rbtree_current(&cur); ev_i("cur", r ? N(r)->key : 0); ev_end(); }
static void big_cmd(void) {
    long i, k, a = (long) ai(1), b = (long) ai(2); int order = (int) ai(ac - 1);
    if(is("B.fill")) {      /* n m mask order */
        long long R[64]; int nr = 0; if(order == 2) while(!coprime(a)) a++;
        bwant(a); bm = b; bres = (unsigned long) ai(3); bcut = 0; btop = a; bstart();
        for(i = 0; i < a; i++) { k = nth(i, a, order); if(bmem(k)) b_ins(k); }
        for(i = 0; i < bm; i++) if(bres >> i & 1) R[nr++] = i;
        ev_begin("BFill"); ev_i("top", btop); ev_i("m", bm); ev_a("R", R, nr); bobs();
    } else if(is("B.add")) { bstart(); for(i = 0; i < btop; i++) { k = nth(i, btop, order == 2 && !coprime(btop) ? 3 : order); if(k > bcut && k % bm == a) b_ins(k); } bres |= 1UL << a; ev_begin("BAdd"); ev_i("r", a); bobs(); }
    else if(is("B.del")) { bstart(); for(i = 0; i < btop; i++) { k = nth(i, btop, order == 2 && !coprime(btop) ? 3 : order); if(k % bm == a && bmem(k)) b_rem(k); } bres &= ~(1UL << a); ev_begin("BDel"); ev_i("r", a); bobs(); }
    else if(is("B.cut")) { bstart(); for(i = 0; i < a; i++) { k = nth(i, a, order == 2 && !coprime(a) ? 3 : order); if(bmem(k)) b_rem(k); } if(a > bcut) bcut = a; ev_begin("BCut"); ev_i("at", a); bobs(); }
    else if(is("B.top")) { bstart(); for(i = 0; i < btop - a; i++) { k = a + nth(i, btop - a, order == 2 ? 3 : order); if(bmem(k)) b_rem(k); } if(a < btop) btop = a; ev_begin("BTop"); ev_i("at", a); bobs(); }
    else if(is("B.look") || is("B.dup")) {
        long hit = 0, miss = 0, wrong = 0; int dup = is("B.dup"); bstart();
        for(k = 1; k <= btop; k++) {
            NODE key; RBTREE_NODE* r; memset(&key, 0, sizeof key); key.key = k;
            if(!dup) { r = rbtree_lookup(&T, &key.link, cmp); count(); if(r == NULL) miss++; else if(bn[k] && r == &bn[k]->link) hit++; else wrong++; }
            else if(bmem(k)) { int e; NODE* x = bn[k]; if(!x) { wrong++; continue; } e = rbtree_insert(&T, k % 2 ? &key.link : &x->link, cmp); count(); if(e == -1) hit++; else wrong++; }
            else { r = rbtree_remove(&T, &key.link, cmp); count(); if(r == NULL) miss++; else wrong++; }
        }
        ev_begin(dup ? "BDup" : "BLook"); ev_i("n", btop); ev_i("hit", hit); ev_i("miss", miss); ev_i("wrong", wrong); ev_i("mc", mc); ev_end();
    } else if(is("B.walk")) bwalk((int) a);
    else if(is("B.ver")) { ev_begin("BVer"); ev_i("ok", rbtree_verify(&T) == 0); ev_end(); }
    else if(is("B.h")) bcur("BHead", rbtree_head(&T, &cur));
    else if(is("B.t")) bcur("BTail", rbtree_tail(&T, &cur));
    else if(is("B.n")) bcur("BNext", rbtree_next(&cur));
    else if(is("B.p")) bcur("BPrev", rbtree_prev(&cur));
    else if(is("B.x")) { NODE key; memset(&key, 0, sizeof key); key.key = a; bcur("BEx", rbtree_lookup_ex(&T, &key.link, cmp, &cur)); }
    else if(is("B.tear")) {
        long n = 0, g = 0; int end = 0; if(a == 0) a = 3000000;
        while(n < a) { RBTREE_NODE* r = rbtree_fini_step(&T); long id; if(r == NULL) { end = 1; break; } n++; id = N(r)->id; if(id > 0 && id < bmax && bn[id] == N(r)) { g++; bn[id] = NULL; memset(N(r), 0xEE, sizeof(NODE)); hx_rawfree(N(r)); } }
        btotal += g; ev_begin("BTear"); ev_i("n", n); ev_i("good", g); ev_i("want", a); ev_i("total", btotal); ev_i("end", end); ev_end();
        if(end) { bcut = btop = 0; bm = 1; bres = 0; btotal = 0; }
    }
}
const char* hx_queries[] = { "l", "x", "lr", "h", "t", "n", "p", "w", "b", "d", "B.look", "B.walk", "B.ver", NULL };
void tr_cmd(void) {
    long k = (long) ai(1), b = (long) ai(2), s = ac > 3 ? (long) ai(3) : 1;
    if(av[0][0] == 'B') { big_cmd(); bigmode = 1; return; }
    if(is("cmp")) { cmode = (int) k; ncmp = 0; ev_begin("Cmp"); ev_i("m", k); obs(); ev_end(); }
    else if(is("i")) ins(k);
    else if(is("ii")) again(k);
    else if(is("r")) rem(k);
    else if(is("ir")) { if(s > 0) for(; k <= b; k += s) ins(k); else for(; k >= b; k += s) ins(k); }
    else if(is("rr")) { if(s > 0) for(; k <= b; k += s) rem(k); else for(; k >= b; k += s) rem(k); }
    else if(is("l")) look(k, 0);
    else if(is("x")) look(k, 1);
    else if(is("lr")) { for(; k <= b; k += s) look(k, 0); }
    else if(is("h")) curop("Head", rbtree_head(&T, &cur));
    else if(is("t")) curop("Tail", rbtree_tail(&T, &cur));
    else if(is("n")) curop("Nxt", rbtree_next(&cur));
    else if(is("p")) curop("Prv", rbtree_prev(&cur));
    else if(is("ci")) { RBTREE_CURSOR c = RBTREE_CURSOR_INITIALIZER; cur = c; curop("CurInit", NULL); }
    else if(is("w")) walk(1, MAXN);
    else if(is("b")) walk(0, MAXN);
    else if(is("d")) dump();
    else if(is("q")) { quiet = 1; hn = 0; }
    else if(is("Q")) { quiet = 0; ncmp = 0; ev_begin("Hist"); ev_a("v", hist, hn); ev_i("next", next_id); obs(); ev_end(); }
    else if(is("f")) fini(ac > 1 ? (int) k : MAXN);
}
void tr_end(void) {
    quiet = 0;
    if(bigmode) { char z[] = "0", w[] = "B.tear"; av[0] = w; av[1] = z; ac = 2; big_cmd(); big_cmd(); btotal = 0; bcut = btop = 0; bm = 1; bres = 0; if(bn) { hx_rawfree(bn); bn = NULL; bmax = 0; } bigmode = 0; return; }
    fini(MAXN); fini(MAXN);
}
