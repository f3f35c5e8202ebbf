#include "hx.h"
#include "data/buffer.h"

/* Two buffers, two stacks, two arrays of each type; mode by command. */
static BUFFER B[3] HX_OBJ; static STACK S[3] HX_OBJ;
static unsigned char tmp[1 << 20];
static void pat(unsigned char* p, size_t n, long seed) { size_t i; for(i = 0; i < n; i++) p[i] = (unsigned char)((seed + 7 * (long)i) % 251); }
static const size_t huge_list[] = { SIZE_MAX, SIZE_MAX - 1, SIZE_MAX - 15, SIZE_MAX - 31, SIZE_MAX - 32, SIZE_MAX - 33, SIZE_MAX - 64, SIZE_MAX / 2 + 1, SIZE_MAX / 2, SIZE_MAX / 2 - 40, (size_t) 1 << 40 };
static size_t hugev(int i, size_t size) { i %= 13; return i == 11 ? SIZE_MAX - size : i == 12 ? SIZE_MAX - (size ? size - 1 : 0) : huge_list[i]; }
static long a0;
static void st(void) {  /* common observations */
    ev_i("oom", hx_oomhit); ev_i("live", hx_live); ev_i("bad", hx_badfree); ev_i("al", hx_allocs - a0); ev_end(); a0 = hx_allocs;
}
static void bobs(int b) { hx_ro(1); ev_i("b", b); ev_i("size", (long long) buffer_size(&B[b])); ev_i("e", buffer_is_empty(&B[b]) != 0); hx_ro(0); st(); }

/* ---- typed arrays, one block of functions per type ---- */
typedef struct { const char* name; size_t w;
    void (*init)(int); void (*fini)(int); size_t (*size)(int); int (*empty)(int);
    void (*get)(int, size_t, void*); void (*set)(int, size_t, const void*);
    int (*ins)(int, size_t, const void*); int (*insraw)(int, size_t); int (*insn)(int, size_t, size_t);
    int (*app)(int, const void*); int (*appraw)(int); int (*appn)(int, size_t);
    void (*rem)(int, size_t); void (*remn)(int, size_t, size_t); void* (*acq)(int, size_t*);
    void* (*data)(int); const void* (*cdata)(int); } AOPS;
#define DEF(T, CT, PUTT) \
 static ARRAY_##T A_##T[3] HX_OBJ; \
 static void T##_i(int a) { if(a == 2) { ARRAY_##T z = ARRAY_##T##_INITIALIZER; A_##T[a] = z; } else array_##T##_init(&A_##T[a]); } \
 static void T##_f(int a) { array_##T##_fini(&A_##T[a]); } \
 static size_t T##_s(int a) { return array_##T##_size(&A_##T[a]); } \
 static int T##_e(int a) { return array_##T##_is_empty(&A_##T[a]); } \
 static void T##_g(int a, size_t i, void* o) { CT v = (CT) array_##T##_get(&A_##T[a], i); memcpy(o, &v, sizeof v); } \
 static void T##_se(int a, size_t i, const void* o) { CT v; memcpy(&v, o, sizeof v); array_##T##_set(&A_##T[a], i, v); } \
 static int T##_in(int a, size_t i, const void* o) { CT v; memcpy(&v, o, sizeof v); return array_##T##_insert(PUTT &A_##T[a], i, v); } \
 static int T##_ir(int a, size_t i) { return array_##T##_insert_raw(&A_##T[a], i); } \
 static int T##_inn(int a, size_t i, size_t n) { return array_##T##_insert_n_raw(&A_##T[a], i, n); } \
 static int T##_a(int a, const void* o) { CT v; memcpy(&v, o, sizeof v); return array_##T##_append(&A_##T[a], v); } \
 static int T##_ar(int a) { return array_##T##_append_raw(&A_##T[a]); } \
 static int T##_an(int a, size_t n) { return array_##T##_append_n(&A_##T[a], n); } \
 static void T##_r(int a, size_t i) { array_##T##_remove(&A_##T[a], i); } \
 static void T##_rn(int a, size_t i, size_t n) { array_##T##_remove_n(&A_##T[a], i, n); } \
 static void* T##_q(int a, size_t* n) { return (void*) array_##T##_acquire(&A_##T[a], n); } \
 static void* T##_d(int a) { return (void*) array_##T##_data(&A_##T[a]); } \
 static const void* T##_cd(int a) { return (const void*) array_##T##_const_data(&A_##T[a]); }
DEF(int8, int8_t, ) DEF(uint8, uint8_t, ) DEF(int16, int16_t, ) DEF(uint16, uint16_t, ) DEF(int32, int32_t, ) DEF(uint32, uint32_t, ) DEF(int64, int64_t, ) DEF(uint64, uint64_t, )
DEF(ptr, void*, (void*))
#define ROW(T, CT) { #T, sizeof(CT), T##_i, T##_f, T##_s, T##_e, T##_g, T##_se, T##_in, T##_ir, T##_inn, T##_a, T##_ar, T##_an, T##_r, T##_rn, T##_q, T##_d, T##_cd }
static const AOPS aops[9] = { ROW(int8, int8_t), ROW(uint8, uint8_t), ROW(int16, int16_t), ROW(uint16, uint16_t), ROW(int32, int32_t), ROW(uint32, uint32_t), ROW(int64, int64_t), ROW(uint64, uint64_t), ROW(ptr, void*) };

static int used; static int at; static const AOPS* A;
void tr_begin(void) { int i, t; for(i = 1; i < 3; i++) { if(i == 2) { BUFFER z = BUFFER_INITIALIZER; STACK y = STACK_INITIALIZER; B[i] = z; S[i] = y; } else { memset(&B[i], HX_FILL, sizeof B[i]); memset(&S[i], HX_FILL, sizeof S[i]); buffer_init(&B[i]); stack_init(&S[i]); } for(t = 0; t < 9; t++) aops[t].init(i); } a0 = 0; at = 0; A = &aops[0]; }

static void aobs(int a) { ev_i("b", a); ev_i("w", (long long) A->w); hx_ro(1); ev_i("size", (long long) A->size(a)); ev_i("e", A->empty(a) != 0); hx_ro(0); st(); }
static void array_cmd(void) {
    int a = (int) ai(1); size_t n0; unsigned char v[8]; size_t i, n;
    if(is("A.t")) { at = (int) ai(1); A = &aops[at]; return; }
    n0 = A->size(a);
    if(is("A.app")) { ahex(2, v, 8); i = (size_t) A->app(a, v); ev_begin("AIns"); ev_i("off", (long long) n0); ev_bytes("v", v, A->w); ev_i("r", (int) i); aobs(a); }
    else if(is("A.ins")) { int r; i = (size_t) ai(2) % (n0 + 1); ahex(3, v, 8); r = A->ins(a, i, v); ev_begin("AIns"); ev_i("off", (long long) i); ev_bytes("v", v, A->w); ev_i("r", r); aobs(a); }
    else if(is("A.insraw") || is("A.appraw")) { int r, ap = is("A.appraw"); i = ap ? n0 : (size_t) ai(2) % (n0 + 1); ahex(3, v, 8);
        r = ap ? A->appraw(a) : A->insraw(a, i); if(r == 0) memcpy((char*) A->data(a) + i * A->w, v, A->w);
        ev_begin("AIns"); ev_i("off", (long long) i); ev_bytes("v", v, A->w); ev_i("r", r); aobs(a); }
    else if(is("A.insn") || is("A.appn")) { int r, ap = is("A.appn"); long seed = (long) ai(4); i = ap ? n0 : (size_t) ai(2) % (n0 + 1); n = (size_t) ai(3);
        r = ap ? A->appn(a, n) : A->insn(a, i, n); pat(tmp, n * A->w, seed); if(r == 0) memcpy((char*) A->data(a) + i * A->w, tmp, n * A->w);
        ev_begin("AInsN"); ev_i("off", (long long) i); ev_i("n", (long long) n); ev_i("seed", seed); ev_i("r", r); aobs(a); }
    else if(is("A.set")) { if(n0 == 0) return; i = (size_t) ai(2) % n0; ahex(3, v, 8); A->set(a, i, v); ev_begin("ASet"); ev_i("off", (long long) i); ev_bytes("v", v, A->w); aobs(a); }
    else if(is("A.rem")) { if(n0 == 0) return; i = (size_t) ai(2) % n0; A->rem(a, i); ev_begin("ARem"); ev_i("off", (long long) i); ev_i("n", 1); aobs(a); }
    else if(is("A.remn")) { i = (size_t) ai(2) % (n0 + 1); n = (size_t) ai(3); A->remn(a, i, n); ev_begin("ARem"); ev_i("off", (long long) i); ev_i("n", (long long) n); aobs(a); }
    else if(is("A.hinsn") || is("A.happn")) { int r, k = (int) ai(3); size_t q = SIZE_MAX / A->w, hn; if(q == SIZE_MAX) q = SIZE_MAX / 2; i = (size_t) ai(2) % (n0 + 1);   /* counts whose byte size wraps or is unobtainable */
        hn = k == 0 ? SIZE_MAX : k == 1 ? q + 1 : k == 2 ? q + 2 : k == 3 ? q : k == 4 ? SIZE_MAX / 2 + 1 : q / 2 + 3;
        r = is("A.happn") ? A->appn(a, hn) : A->insn(a, i, hn); ev_begin("Huge"); ev_i("r", r); aobs(a); }
    else if(is("A.hremn")) { int k = (int) ai(3); size_t q = SIZE_MAX / A->w; i = (size_t) ai(2) % (n0 + 1);
        A->remn(a, i, k == 0 ? SIZE_MAX : k == 1 && q < SIZE_MAX ? q + 1 : k == 2 && q < SIZE_MAX ? q + 2 : k == 3 ? q : SIZE_MAX / 2 + 1); ev_begin("ARem"); ev_i("off", (long long) i); ev_i("n", 1000000); aobs(a); }
    else if(is("A.get")) { if(n0 == 0) return; i = (size_t) ai(2) % n0; memset(v, 0, 8); A->get(a, i, v); ev_begin("AGet"); ev_i("off", (long long) i); ev_bytes("v", v, A->w); aobs(a); }
    else if(is("A.win")) { i = (size_t) ai(2); n = (size_t) ai(3); if(i > n0) i = n0; if(n > n0 - i) n = n0 - i; { size_t k; for(k = 0; k < n; k++) A->get(a, i + k, tmp + k * A->w); } ev_begin("Win"); ev_i("off", (long long)(i * A->w)); ev_bytes("v", tmp, n * A->w); aobs(a); }
    else if(is("A.all")) { for(i = 0; i < n0; i++) A->get(a, i, tmp + i * A->w); ev_begin("AAll"); ev_bytes("v", tmp, n0 * A->w); aobs(a); }
    else if(is("A.acq")) { void* p; int want = (int) ai(2); n = 0; p = A->acq(a, want ? &n : NULL); ev_begin("AAcq"); ev_i("n", want ? (long long) n : (long long) n0); ev_bytes("v", p, n0 * A->w); free(p); aobs(a); }
}

/* ---- stack ---- */
static const size_t tw[] = { 1, 1, 2, 2, 4, 4, 8, 8, 8 };
static int spush(STACK* s, int t, const unsigned char* v) {
    switch(t) {
#define C(i, T, CT) case i: { CT x; memcpy(&x, v, sizeof x); return stack_push_##T(s, x); }
    C(0, int8, int8_t) C(1, uint8, uint8_t) C(2, int16, int16_t) C(3, uint16, uint16_t) C(4, int32, int32_t) C(5, uint32, uint32_t) C(6, int64, int64_t) C(7, uint64, uint64_t) C(8, ptr, void*)
#undef C
    } return -9; }
static void speek(STACK* s, int t, unsigned char* v) {
    switch(t) {
#define C(i, T, CT) case i: { CT x = stack_peek_##T(s); memcpy(v, &x, sizeof x); break; }
    C(0, int8, int8_t) C(1, uint8, uint8_t) C(2, int16, int16_t) C(3, uint16, uint16_t) C(4, int32, int32_t) C(5, uint32, uint32_t) C(6, int64, int64_t) C(7, uint64, uint64_t) C(8, ptr, void*)
#undef C
    } }
static void spop(STACK* s, int t, unsigned char* v) {
    switch(t) {
#define C(i, T, CT) case i: { CT x = stack_pop_##T(s); memcpy(v, &x, sizeof x); break; }
    C(0, int8, int8_t) C(1, uint8, uint8_t) C(2, int16, int16_t) C(3, uint16, uint16_t) C(4, int32, int32_t) C(5, uint32, uint32_t) C(6, int64, int64_t) C(7, uint64, uint64_t) C(8, ptr, void*)
#undef C
    } }
static void sobs(int b) { ev_i("b", b); hx_ro(1); ev_i("size", (long long) stack_size(&S[b])); ev_i("e", stack_is_empty(&S[b]) != 0); hx_ro(0); st(); }
static void stack_cmd(void) {
    int b = (int) ai(1), t = (int) ai(2); STACK* s = &S[b]; size_t n = (size_t) ai(2), sz = stack_size(s); unsigned char v[8] = {0}; int r;
    if(is("S.push")) { ahex(3, v, 8); r = spush(s, t, v); ev_begin("Push"); ev_bytes("v", v, tw[t]); ev_i("r", r); sobs(b); }
    else if(is("S.peek")) { if(sz < tw[t]) return; speek(s, t, v); ev_begin("Peek"); ev_bytes("v", v, tw[t]); sobs(b); }
    else if(is("S.pop")) { if(sz < tw[t]) return; spop(s, t, v); ev_begin("Pop"); ev_bytes("v", v, tw[t]); sobs(b); }
    else if(is("S.fill")) { pat(tmp, n, (long) ai(3)); r = stack_push(s, tmp, n); ev_begin("Ins"); ev_i("off", (long long) sz); ev_i("n", (long long) n); ev_i("seed", ai(3)); ev_i("r", r); sobs(b); }
    else if(is("S.pushn")) { pat(tmp, n, (long) ai(3)); r = stack_push(s, tmp, n); ev_begin("Push"); ev_bytes("v", tmp, n); ev_i("r", r); sobs(b); }
    else if(is("S.pushr")) { void* p = stack_push_raw(s, n); pat(tmp, n, (long) ai(3)); if(p) memcpy(p, tmp, n); ev_begin("Push"); ev_bytes("v", tmp, n); ev_i("r", p ? 0 : -1); sobs(b); }
    else if(is("S.peekn")) { if(n > sz) n = sz; if(n) stack_peek(s, tmp, n); ev_begin("Peek"); ev_bytes("v", tmp, n); sobs(b); }
    else if(is("S.peekr")) { if(n > sz) n = sz; ev_begin("Peek"); ev_bytes("v", n ? stack_peek_raw(s, n) : "", n); sobs(b); }
    else if(is("S.popn")) { if(n > sz) n = sz; if(n == 0) return; stack_pop(s, tmp, n); ev_begin("Pop"); ev_bytes("v", tmp, n); sobs(b); }
    else if(is("S.popr")) { void* p; if(n > sz) n = sz; p = stack_pop_raw(s, n); memcpy(tmp, p ? p : "", p ? n : 0); ev_begin("PopRaw"); ev_bytes("v", tmp, n); sobs(b); }
    else if(is("S.win")) { size_t o = (size_t) ai(2); n = (size_t) ai(3); if(o > sz) o = sz; if(n > sz - o) n = sz - o; ev_begin("Win"); ev_i("off", (long long) o); ev_bytes("v", n ? (const char*) stack_const_data(s) + o : "", n); sobs(b); }
    else if(is("S.all")) { ev_begin("SAll"); ev_bytes("v", stack_const_data(s), sz); ev_i("same", stack_data(s) == stack_const_data(s)); sobs(b); }
    else if(is("S.clr")) { stack_clear(s); ev_begin("Clr"); sobs(b); }
    else if(is("S.rsv")) { r = stack_reserve(s, n); ev_begin("Rsv"); ev_i("n", (long long) n); ev_i("r", r); sobs(b); }
    else if(is("S.acq")) { size_t m = 0; void* p = stack_acquire(s, t ? &m : NULL); ev_begin("Acq"); ev_i("n", (long long)(t ? m : sz)); ev_bytes("v", p, sz); free(p); sobs(b); }
    else if(is("S.swp")) { stack_swap(&S[1], &S[2]); ev_begin("Swp"); ev_i("s2", (long long) stack_size(&S[2])); sobs(1); }
}

const char* hx_queries[] = { "get", "win", "S.peek", "S.peekn", "S.peekr", "S.win", "S.all", "A.get", "A.win", "A.all", NULL };
void tr_cmd(void) {
    int b = (int) ai(1); BUFFER* p; size_t sz, off, n; int r;
    if(is("F")) { hx_arm((long) ai(1)); return; }
    if(is("FF")) { hx_arm_from((long) ai(1)); return; }
    if(av[0][0] == 'A') { array_cmd(); return; }
    if(av[0][0] == 'S') { stack_cmd(); return; }
    p = &B[b]; sz = buffer_size(p); off = (size_t) ai(2) % (sz + 1); n = (size_t) ai(3);
    if(is("ins") || is("app")) { long seed = (long) ai(4); if(is("app")) off = sz; pat(tmp, n, seed);
        r = is("app") ? buffer_append(p, tmp, n) : buffer_insert(p, off, tmp, n);
        ev_begin("Ins"); ev_i("off", (long long) off); ev_i("n", (long long) n); ev_i("seed", seed); ev_i("r", r); bobs(b); }
    else if(is("raw") || is("apr")) { long seed = (long) ai(4); void* q; if(is("apr")) off = sz; pat(tmp, n, seed);
        q = is("apr") ? buffer_append_raw(p, n) : buffer_insert_raw(p, off, n);
        if(q) { if(q != buffer_data_at(p, off) || q != buffer_const_data_at(p, off)) abort(); memcpy(q, tmp, n); }
        ev_begin("Ins"); ev_i("off", (long long) off); ev_i("n", (long long) n); ev_i("seed", seed); ev_i("r", q ? 0 : -1); bobs(b); }
    else if(is("rem")) { buffer_remove(p, off, n); ev_begin("Rem"); ev_i("off", (long long) off); ev_i("n", (long long) n); bobs(b); }
    else if(is("hrem")) { buffer_remove(p, off, hugev((int) n, off)); ev_begin("Rem"); ev_i("off", (long long) off); ev_i("n", 1000000000); bobs(b); }
    else if(is("hins")) { int app = ac > 4; void* q = app ? buffer_append_raw(p, hugev((int) n, sz)) : buffer_insert_raw(p, off, hugev((int) n, sz)); ev_begin("Huge"); ev_i("r", q ? 0 : -1); bobs(b); }
    else if(is("hrsv")) { r = buffer_reserve(p, hugev((int) n, sz)); ev_begin("Huge"); ev_i("r", r); bobs(b); }
    else if(is("hrea")) { r = buffer_realloc(p, hugev((int) n, sz)); ev_begin("Huge"); ev_i("r", r); bobs(b); }
    else if(is("clr")) { buffer_clear(p); ev_begin("Clr"); bobs(b); }
    else if(is("rsv")) { r = buffer_reserve(p, n); ev_begin("Rsv"); ev_i("n", (long long) n); ev_i("r", r); bobs(b); }
    else if(is("rea")) { r = buffer_realloc(p, n); ev_begin("Rea"); ev_i("n", (long long) n); ev_i("r", r); bobs(b); }
    else if(is("shr")) { buffer_shrink(p); ev_begin("Shr"); bobs(b); }
    else if(is("swp")) { buffer_swap(&B[1], &B[2]); ev_begin("Swp"); ev_i("s2", (long long) buffer_size(&B[2])); bobs(1); }
    else if(is("acq")) { size_t m = 0; void* d = buffer_acquire(p, n ? &m : NULL); ev_begin("Acq"); ev_i("n", (long long)(n ? m : sz)); ev_bytes("v", d, sz); free(d); bobs(b); }
    else if(is("win")) { size_t o = (size_t) ai(2); if(o > sz) o = sz; if(n > sz - o) n = sz - o; ev_begin("Win"); ev_i("off", (long long) o); ev_bytes("v", n ? buffer_const_data_at(p, o) : "", n); bobs(b); }
    else if(is("get")) { ev_begin("SAll"); ev_bytes("v", buffer_const_data(p), sz); ev_i("same", buffer_data(p) == buffer_const_data(p)); bobs(b); }
}
void tr_end(void) { int i, t; for(i = 1; i < 3; i++) { buffer_fini(&B[i]); stack_fini(&S[i]); for(t = 0; t < 9; t++) aops[t].fini(i); }
    ev_begin("End"); ev_i("b", 1); st(); }
