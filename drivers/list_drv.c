#include "hx.h"
#ifdef WITH_STDDEF
#include <stddef.h>
#endif
#ifdef NOGNU     /* the plain C definitions the header falls back on */
#undef __GNUC__
#endif
#include "data/list.h"

#define MAXN 300
typedef struct { long pre; int id; LIST_NODE node; long post; } DN;
typedef struct { char pre; int id; SLIST_NODE node; long post; } SN;
typedef struct { long pre[3]; int id; QLIST_NODE node; char post; } QN;
static DN* dn[MAXN]; static SN* sn[MAXN]; static QN* qn[MAXN];
static int where_[3][MAXN];     /* which list a node is in (driver's own book-keeping of its nodes) */
static LIST DL[3] HX_OBJ; static SLIST SL[3] HX_OBJ; static QLIST QL[3] HX_OBJ;
#define CAP (MAXN + 5)
static long long w[CAP]; static int nw;

static void frame(void) {}
static void arr(const char* k) { int i; ev_raw("\"%s\":[", k); for(i = 0; i < nw; i++) ev_raw(i ? ",%lld" : "%lld", w[i]); ev_raw("],"); }
#define WALK(T, t, LST, DT, dir, start) do { const T* x_; nw = 0; for(x_ = t##_##start(LST); x_ != t##_end(LST) && nw < CAP; x_ = t##_##dir(x_)) w[nw++] = DT((T*) x_)->id; } while(0)
#define DD(x) LIST_DATA(x, DN, node)
#define SD(x) SLIST_DATA(x, SN, node)
#define QD(x) QLIST_DATA(x, QN, node)
static void one(char k, int i, const char* key) {
    ev_raw(",\"%s\":{", key);
    if(k == 'D') { LIST* l = &DL[i]; WALK(LIST_NODE, list, l, DD, next, head); arr("f"); WALK(LIST_NODE, list, l, DD, prev, tail); arr("b");
        ev_raw("\"h\":%d,\"t\":%d,\"e\":%d}", list_head(l) == list_end(l) ? 0 : DD(list_head(l))->id, list_tail(l) == list_end(l) ? 0 : DD(list_tail(l))->id, list_is_empty(l) != 0); }
    else if(k == 'S') { SLIST* l = &SL[i]; WALK(SLIST_NODE, slist, l, SD, next, head); arr("f");
        ev_raw("\"h\":%d,\"e\":%d}", slist_head(l) == slist_end(l) ? 0 : SD(slist_head(l))->id, slist_is_empty(l) != 0); }
    else { QLIST* l = &QL[i]; WALK(QLIST_NODE, qlist, l, QD, next, head); arr("f");
        ev_raw("\"h\":%d,\"t\":%d,\"e\":%d}", qlist_head(l) == qlist_end(l) ? 0 : QD(qlist_head(l))->id, qlist_tail(l) == qlist_end(l) ? 0 : QD(qlist_tail(l))->id, qlist_is_empty(l) != 0); }
}
static void fin(const char* op, char k, int i, int wh, int y) {
    char ks[2] = { k, 0 };
    ev_begin(op); ev_s("k", ks); ev_i("i", i); ev_i("w", wh); ev_i("y", y); hx_ro(1); one(k, 1, "o1"); one(k, 2, "o2"); hx_ro(0); ev_end();
}
static void node_new(char k, int y) {
    if(k == 'D') { dn[y] = malloc(sizeof(DN)); dn[y]->id = y; } else if(k == 'S') { sn[y] = malloc(sizeof(SN)); sn[y]->id = y; } else { qn[y] = malloc(sizeof(QN)); qn[y]->id = y; } }
static void node_del(char k, int y) {
    if(k == 'D') { free(dn[y]); dn[y] = NULL; } else if(k == 'S') { free(sn[y]); sn[y] = NULL; } else { free(qn[y]); qn[y] = NULL; } }

void tr_begin(void) { int i; memset(dn, 0, sizeof dn); memset(sn, 0, sizeof sn); memset(qn, 0, sizeof qn); memset(where_, 0, sizeof where_);
    for(i = 1; i < 3; i++) { memset(&DL[i], HX_FILL, sizeof(LIST)); memset(&SL[i], HX_FILL, sizeof(SLIST)); memset(&QL[i], HX_FILL, sizeof(QLIST)); list_init(&DL[i]); slist_init(&SL[i]); qlist_init(&QL[i]); } }

const char* hx_queries[] = { NULL };
void tr_cmd(void) {
    char k = av[0][0]; const char* o = av[0] + 2; int i = (int) ai(1), x = (int) ai(2), y = (int) ai(3); int kk = k == 'D' ? 0 : k == 'S' ? 1 : 2;
#define ON(s) (strcmp(o, s) == 0)
    if(ON("pre") || ON("app") || ON("ia") || ON("ib")) {
        if(where_[kk][y] || ((ON("ia") || ON("ib")) && where_[kk][x] != i)) return;
        node_new(k, y);
        if(ON("pre")) { if(k == 'D') list_prepend(&DL[i], &dn[y]->node); else if(k == 'S') slist_prepend(&SL[i], &sn[y]->node); else qlist_prepend(&QL[i], &qn[y]->node); fin("Pre", k, i, 0, y); }
        else if(ON("app")) { if(k == 'S') { node_del(k, y); return; } if(k == 'D') list_append(&DL[i], &dn[y]->node); else qlist_append(&QL[i], &qn[y]->node); fin("App", k, i, 0, y); }
        else if(ON("ia")) { if(k == 'D') list_insert_after(&DL[i], &dn[x]->node, &dn[y]->node); else if(k == 'S') slist_insert_after(&SL[i], &sn[x]->node, &sn[y]->node); else qlist_insert_after(&QL[i], &qn[x]->node, &qn[y]->node); fin("Aft", k, i, x, y); }
        else { if(k != 'D') { node_del(k, y); return; } list_insert_before(&DL[i], &dn[x]->node, &dn[y]->node); fin("Bef", k, i, x, y); }
        where_[kk][y] = i;
    } else if(ON("rm")) {     /* D: remove y; S, Q: x is the node before y */
        if(where_[kk][y] != i || (k != 'D' && where_[kk][x] != i)) return;
        if(k == 'D') list_remove(&DL[i], &dn[y]->node);
        else if(k == 'S') { if(slist_next(&sn[x]->node) != &sn[y]->node) return; slist_remove(&SL[i], &sn[x]->node, &sn[y]->node); }
        else { if(qlist_next(&qn[x]->node) != &qn[y]->node) return; qlist_remove(&QL[i], &qn[x]->node, &qn[y]->node); }
        node_del(k, y); where_[kk][y] = 0; fin("Rm", k, i, x, y);
    } else if(ON("rn")) {     /* S, Q: remove the node after x, if there is one */
        if(where_[kk][x] != i) return;
        if(k == 'S') { SLIST_NODE* z = slist_next(&sn[x]->node); if(z == slist_end(&SL[i])) return; y = SD(z)->id; slist_remove(&SL[i], &sn[x]->node, z); }
        else if(k == 'Q') { QLIST_NODE* z = qlist_next(&qn[x]->node); if(z == qlist_end(&QL[i])) return; y = QD(z)->id; qlist_remove(&QL[i], &qn[x]->node, z); }
        else return;
        node_del(k, y); where_[kk][y] = 0; fin("Rm", k, i, x, y);
    } else if(ON("rh") || ON("rt")) {
        int t = ON("rt");
        if(k == 'D') { LIST_NODE* z = t ? list_tail(&DL[i]) : list_head(&DL[i]); if(z == list_end(&DL[i])) return; y = DD(z)->id; if(t) list_remove_tail(&DL[i]); else list_remove_head(&DL[i]); }
        else if(t) return;
        else if(k == 'S') { SLIST_NODE* z = slist_head(&SL[i]); if(z == slist_end(&SL[i])) return; y = SD(z)->id; slist_remove_head(&SL[i]); }
        else { QLIST_NODE* z = qlist_head(&QL[i]); if(z == qlist_end(&QL[i])) return; y = QD(z)->id; qlist_remove_head(&QL[i]); }
        node_del(k, y); where_[kk][y] = 0; fin(t ? "Rt" : "Rh", k, i, 0, y);
    }
}
void tr_end(void) { int i; for(i = 0; i < MAXN; i++) { free(dn[i]); free(sn[i]); free(qn[i]); } }
