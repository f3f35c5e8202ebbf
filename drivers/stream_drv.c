#define _GNU_SOURCE
#define COBJMACROS
#include "hx.h"
#include "win32/memstream.h"
#include <sys/mman.h>
#include <pthread.h>
const IID IID_IUnknown = { 0, 0, 0, { 0xC0, 0, 0, 0, 0, 0, 0, 0x46 } }, IID_IDispatch = { 0x20400, 0, 0, { 0xC0, 0, 0, 0, 0, 0, 0, 0x46 } }, IID_ISequentialStream = { 0x0c733a30, 0x2a1c, 0x11ce, { 0xad, 0xe5, 0, 0xaa, 0, 0x44, 0x77, 0x3d } }, IID_IStream = { 0xc, 0, 0, { 0xC0, 0, 0, 0, 0, 0, 0, 0x46 } };
static const IID IID_other = { 0xd, 0, 0, { 0xC0, 0, 0, 0, 0, 0, 0, 0x46 } }, IID_other2 = { 0xc, 0, 0, { 0xC0, 0, 0, 0, 0, 0, 0, 0x47 } };
/* resources */
static DWORD lasterr; static int resfail; static BYTE* resdata; static DWORD ressize;
DWORD GetLastError(void) { return lasterr; } void SetLastError(DWORD e) { lasterr = e; }
HRSRC FindResourceW(HMODULE m, LPCWSTR n, LPCWSTR t) { if(resfail == 1 || m != (HMODULE) 0x1000 || n != (LPCWSTR) 7 || t != (LPCWSTR) 9) { lasterr = ERROR_RESOURCE_TYPE_NOT_FOUND; return NULL; } return (HRSRC) 0x2000; }
DWORD SizeofResource(HMODULE m, HRSRC r) { if(resfail == 2 || m != (HMODULE) 0x1000 || r != (HRSRC) 0x2000) { lasterr = ERROR_RESOURCE_DATA_NOT_FOUND; return 0; } return ressize; }
HGLOBAL LoadResource(HMODULE m, HRSRC r) { if(resfail == 3 || m != (HMODULE) 0x1000 || r != (HRSRC) 0x2000) { lasterr = ERROR_RESOURCE_DATA_NOT_FOUND; return NULL; } return (HGLOBAL) 0x3000; }
LPVOID LockResource(HGLOBAL g) { if(resfail == 4 || g != (HGLOBAL) 0x3000) { lasterr = ERROR_RESOURCE_DATA_NOT_FOUND; return NULL; } return resdata; }

void (*shim_yield)(void);
static BYTE F(uint64_t o) { uint32_t c = (uint32_t)(o & 0xffffff); return (BYTE)((c * 7 + c / 256 + 3) % 251); }
#define NS 4
static IStream* S[NS]; static BYTE* buf[NS]; static uint64_t size[NS]; static int refs[NS];
static BYTE* bigbuf;      /* 4 GB + of the periodic pattern, by mapping 16 MB over and over */
static BYTE* big(void) {
    int fd, i; size_t P = 1 << 24; BYTE* one;
    if(bigbuf) return bigbuf;
    fd = memfd_create("p", 0); if(fd < 0 || ftruncate(fd, (off_t) P)) exit(3);
    one = mmap(NULL, P, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if(one == MAP_FAILED) exit(3); { size_t k; for(k = 0; k < P; k++) one[k] = F(k); } munmap(one, P);
    bigbuf = mmap(NULL, P * 258, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if(bigbuf == MAP_FAILED) exit(3);
    for(i = 0; i < 256; i++) if(mmap(bigbuf + P * (i + 1), P, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) exit(3);
    close(fd); bigbuf += P; return bigbuf;      /* unmapped memory on both sides */
}
static int consts(void) { int i; uint64_t k; for(i = 0; i < NS; i++) if(buf[i] && size[i] < 100000) for(k = 0; k < size[i]; k++) if(buf[i][k] != F(k)) return 0; return 1; }
static long a0, f0;
static void w3(const char* key, int64_t v) { ev_raw(",\"%s\":[%d,%d,%d]", key, (int)(v >> 48), (int)(v >> 24 & 0xffffff), (int)(v & 0xffffff)); }
static void w3u(const char* key, uint64_t v) { ev_raw(",\"%s\":[%d,%d,%d]", key, (int)(v >> 48), (int)(v >> 24 & 0xffffff), (int)(v & 0xffffff)); }
static void pre(void) { a0 = hx_allocs; f0 = hx_frees; hx_oomhit = 0; }
static void tail(void) { ev_i("al", hx_allocs - a0); ev_i("fr", hx_frees - f0); ev_i("bad", hx_badfree); ev_i("oom", hx_oomhit); ev_i("live", hx_live); ev_i("const", consts()); ev_end(); }
/* destination of copies */
typedef struct { IStream st; int mode; uint32_t lim; BYTE data[70000]; uint32_t n; int bad; } DST;
static DST dst;
static HRESULT d_fail(IStream* s) { (void) s; return E_FAIL; }
static HRESULT d_write(IStream* s, const void* p, ULONG n, ULONG* w) {
    DST* d = (DST*) s; uint32_t k = n, i; (void) i;
    if(d->mode == 1) { if(w) *w = 0; return STG_E_MEDIUMFULL; }
    if(d->mode == 2) { if(w) *w = 0; return E_FAIL; }
    if(k > d->lim - d->n) k = d->lim - d->n;
    if(d->n + k > sizeof d->data) { d->bad = 1; k = 0; }
    memcpy(d->data + d->n, p, k); d->n += k; if(w) *w = k; return S_OK;
}
static ULONG d_ref(IStream* s) { (void) s; return 2; }
static IStreamVtbl dvt;
void tr_begin(void) { memset(S, 0, sizeof S); memset(buf, 0, sizeof buf); memset(refs, 0, sizeof refs); dvt.Write = d_write; dvt.AddRef = d_ref; dvt.Release = d_ref; dvt.Revert = d_fail; dst.st.lpVtbl = &dvt; resfail = 0; lasterr = 0; }
static BYTE* all[4096]; static int nall;
static BYTE* mkbuf(uint64_t n) { BYTE* b; uint64_t k; if(n > 1000000) return big() + (((uint64_t) 1 << 32) - ((n + 0xffffff) & ~(uint64_t) 0xffffff)); b = hx_rawalloc(n ? n : 1); for(k = 0; k < n; k++) b[k] = F(k); if(nall < 4096) all[nall++] = b; return b; }
static void gone(int i) { S[i] = NULL; refs[i] = 0; }
static struct { IStream* s; long n; int hold; long zeros; } T;
static void* worker(void* a) { long k; (void) a; for(k = 0; k < T.n; k++) { IStream_AddRef(T.s); IStream_Release(T.s); } return NULL; }
static void* worker2(void* a) { (void) a; if(IStream_Release(T.s) == 0) __sync_add_and_fetch(&T.zeros, 1); return NULL; }
/* Threads run one at a time, in the order the command says; each stops after every interlocked operation. */
enum { IL_IDLE, IL_GO, IL_STOPPED, IL_QUIT };
static struct il { pthread_t t; int state; char op; long r; int inop; } IL[8]; static pthread_mutex_t ilm = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t ilc = PTHREAD_COND_INITIALIZER; static _Thread_local struct il* me; static IStream* ils;
static void il_yield(void) { if(!me) return; pthread_mutex_lock(&ilm); me->state = IL_STOPPED; pthread_cond_broadcast(&ilc); while(me->state == IL_STOPPED) pthread_cond_wait(&ilc, &ilm); pthread_mutex_unlock(&ilm); }
static void* il_main(void* a) {
    me = a; pthread_mutex_lock(&ilm);
    while(1) {
        while(me->state == IL_IDLE) pthread_cond_wait(&ilc, &ilm);
        if(me->state == IL_QUIT) break;
        pthread_mutex_unlock(&ilm);
        if(me->op == 'a') me->r = (int) IStream_AddRef(ils); else if(me->op == 'r') me->r = (int) IStream_Release(ils); else { void* o = NULL; HRESULT hr = IStream_QueryInterface(ils, &IID_IStream, &o); me->r = hr == S_OK && o == (void*) ils ? 0 : -1; }
        pthread_mutex_lock(&ilm); me->inop = 0; me->state = IL_IDLE; pthread_cond_broadcast(&ilc);
    }
    pthread_mutex_unlock(&ilm); return NULL; }
static void il_step(int t, char op) {      /* one step of thread t: starts op, or goes on with the one it is in ('f') */
    struct il* x = &IL[t]; char was = x->op;
    if(op != 'f') { if(x->inop) return; x->op = op; x->inop = 1; } else if(!x->inop) return;
    (void) was; pre(); pthread_mutex_lock(&ilm); x->state = IL_GO; pthread_cond_broadcast(&ilc); while(x->state == IL_GO) pthread_cond_wait(&ilc, &ilm); pthread_mutex_unlock(&ilm);
    { char o[2] = { x->op, 0 }; ev_begin("IStep"); ev_i("t", t); ev_s("w", o); ev_i("start", op != 'f'); ev_i("done", !x->inop); ev_i("r", x->inop ? 0 : x->r); tail(); } }
static void il_run(void) {
    int n = (int) ai(1), i; BYTE* b = mkbuf(8); if(n > 7 || memstream_create(b, 8, &ils) != S_OK) return; for(i = 1; i < n; i++) IStream_AddRef(ils);
    ev_begin("IBegin"); ev_i("n", n); ev_end(); shim_yield = il_yield; memset(IL, 0, sizeof IL);
    for(i = 1; i <= n; i++) pthread_create(&IL[i].t, NULL, il_main, &IL[i]);
    for(i = 2; i < ac; i++) il_step(av[i][1] - '0', av[i][0]);
    for(i = 1; i <= n; i++) while(IL[i].inop) il_step(i, 'f');
    pthread_mutex_lock(&ilm); for(i = 1; i <= n; i++) IL[i].state = IL_QUIT; pthread_cond_broadcast(&ilc); pthread_mutex_unlock(&ilm); for(i = 1; i <= n; i++) pthread_join(IL[i].t, NULL);
    shim_yield = NULL; pre(); { int left = n, k; long z = 0; for(k = 2; k < ac; k++) left += av[k][0] == 'a' || av[k][0] == 'q' ? 1 : av[k][0] == 'r' ? -1 : 0; for(i = 0; i < left; i++) if(IStream_Release(ils) == 0) z = z * 10 + (i + 1 == left ? 1 : 2); ev_begin("IEnd"); ev_i("left", left); ev_i("zeros", z); tail(); } }
/* il N STEP... (a1 q1 r1: thread 1 starts an operation, f1: it goes on) | new H N | res H N FAIL | rd H N cnt? | wr H | sk H DELTA ORIGIN new? | cp H N p|f|m LIM flags(1 nread, 2 nwritten) | ss st co rv lk H | ar rl H | qi H WHICH | cl H T | th H THREADS N | lo THREADS | k N */
const char* hx_queries[] = { NULL };
void tr_cmd(void) {
    int h = (int) ai(1); HRESULT hr; 
    if(is("k")) { hx_arm((long) ai(1)); return; }
    if(is("il")) { il_run(); return; }
    if(is("lo")) { pthread_t t[16]; int n = (int) ai(1), i; IStream* s; BYTE* b = mkbuf(8); pre(); if(memstream_create(b, 8, &s) != S_OK) return; for(i = 1; i < n; i++) IStream_AddRef(s); T.s = s; T.zeros = 0; pre();
        for(i = 0; i < n; i++) pthread_create(&t[i], NULL, worker2, NULL); for(i = 0; i < n; i++) pthread_join(t[i], NULL);
        ev_begin("LastOut"); ev_i("zeros", T.zeros); tail(); return; }
    if(is("new") || is("res")) {
        uint64_t n = au(2); IStream* p = (IStream*) 0x5a5a; if(S[h]) return;
        buf[h] = mkbuf(n); size[h] = n; resfail = is("res") ? (int) ai(3) : 0; resdata = buf[h]; ressize = (DWORD) n; lasterr = 0; pre();
        if(is("new")) hr = memstream_create(buf[h], (ULONG) n, &p); else hr = memstream_create_from_resource((HINSTANCE) 0x1000, (LPCWSTR) 9, (LPCWSTR) 7, &p);
        ev_begin("Create"); ev_i("s", h); w3u("size", n); ev_i("hr", hr); ev_i("got", p != NULL); ev_i("resfail", resfail); S[h] = p; refs[h] = p != NULL; tail(); return; }
    if(h < 0 || h >= NS || S[h] == NULL) return;
    if(is("rd")) { uint64_t n = au(2); size_t room = n > 70000 ? 70000 : n; BYTE* o = hx_rawalloc(room ? room : 1); ULONG c = 0xA5A5; int want = (int) ai(3); memset(o, 0xA5, room ? room : 1);
        pre(); hr = IStream_Read(S[h], o, (ULONG) n, want ? &c : NULL);
        ev_begin("Read"); ev_i("s", h); w3u("n", n); ev_i("hr", hr); ev_i("cnt", want ? (c > 0x7fffffff ? -2 : (long long) c) : -1); ev_bytes("out", o, want ? (c > room ? room : c) : room > 400 ? 400 : room); tail(); hx_rawfree(o); }
    else if(is("wr")) { ULONG c = 77; int want = ac < 3 || ai(2); pre(); hr = IStream_Write(S[h], "abcd", ac > 3 ? (ULONG) ai(3) : 4, want ? &c : NULL); ev_begin("Write"); ev_i("s", h); ev_i("hr", hr); ev_i("cnt", want ? (long long) c : -1); tail(); }
    else if(is("sk")) { LARGE_INTEGER d; ULARGE_INTEGER np; d.QuadPart = ai(2); np.QuadPart = 0x5555555555ull; pre(); hr = IStream_Seek(S[h], d, (DWORD) ai(3), ai(4) ? &np : NULL);
        ev_begin("Seek"); ev_i("s", h); w3("d", d.QuadPart); ev_i("origin", ai(3)); ev_i("hr", hr); ev_i("hasnew", ai(4) != 0); w3u("new", np.QuadPart); tail(); }
    else if(is("cp")) { ULARGE_INTEGER n, nr, nw; IStream* to = &dst.st; int m = av[3][0] == 'f' ? 1 : av[3][0] == 'F' ? 2 : av[3][0] == 'm' ? 3 : 0, fl = (int) ai(5); dst.mode = m; dst.lim = (uint32_t) ai(4); dst.n = 0; dst.bad = 0; n.QuadPart = au(2); nr.QuadPart = nw.QuadPart = 0x123456789abcull; if(m == 3) to = S[h];
        pre(); hr = IStream_CopyTo(S[h], to, n, fl & 1 ? &nr : NULL, fl & 2 ? &nw : NULL);
        ev_begin("Copy"); ev_i("s", h); w3u("n", n.QuadPart); ev_i("mode", m != 0); ev_i("lim", dst.lim); ev_i("hr", hr); ev_i("hasr", fl & 1); ev_i("hasw", (fl & 2) / 2); w3u("nr", nr.QuadPart); w3u("nw", nw.QuadPart); ev_bytes("dst", dst.data, dst.n); ev_i("dstbad", dst.bad); tail(); }
    else if(is("ss")) { ULARGE_INTEGER n; n.QuadPart = au(2); pre(); hr = IStream_SetSize(S[h], n); ev_begin("Refuse"); ev_i("s", h); ev_i("hr", hr); tail(); }
    else if(is("lk")) { ULARGE_INTEGER o, n; o.QuadPart = 0; n.QuadPart = 1; pre(); hr = IStream_LockRegion(S[h], o, n, 1); ev_begin("Refuse"); ev_i("s", h); ev_i("hr", hr); tail(); pre(); hr = IStream_UnlockRegion(S[h], o, n, 1); ev_begin("Refuse"); ev_i("s", h); ev_i("hr", hr); tail(); }
    else if(is("co")) { pre(); hr = IStream_Commit(S[h], 0); ev_begin("Noop"); ev_i("s", h); ev_i("hr", hr); tail(); }
    else if(is("rv")) { pre(); hr = IStream_Revert(S[h]); ev_begin("Noop"); ev_i("s", h); ev_i("hr", hr); tail(); }
    else if(is("st")) { STATSTG st; int z; memset(&st, 0x5A, sizeof st); pre(); hr = IStream_Stat(S[h], &st, (DWORD) ai(2)); z = st.pwcsName == NULL && st.mtime.dwLowDateTime == 0 && st.mtime.dwHighDateTime == 0 && st.grfLocksSupported == 0 && st.grfStateBits == 0; ev_begin("Stat"); ev_i("s", h); ev_i("hr", hr); ev_i("type", st.type); w3u("size", st.cbSize.QuadPart); ev_i("mode", st.grfMode); ev_i("zero", z); tail(); }
    else if(is("ar")) { ULONG r; pre(); r = IStream_AddRef(S[h]); refs[h]++; ev_begin("AddRef"); ev_i("s", h); ev_i("r", (int) r); tail(); }
    else if(is("rl")) { ULONG r; pre(); r = IStream_Release(S[h]); refs[h]--; ev_begin("Release"); ev_i("s", h); ev_i("r", (int) r); if(refs[h] == 0) gone(h); tail(); }
    else if(is("qi")) { int w = (int) ai(2); void* o = (void*) 0x77; const IID* id = w == 0 ? &IID_IUnknown : w == 1 ? &IID_IDispatch : w == 2 ? &IID_ISequentialStream : w == 3 ? &IID_IStream : w == 9 ? &IID_other : &IID_other2; pre(); hr = IStream_QueryInterface(S[h], id, &o); if(hr == S_OK) refs[h]++; ev_begin("Query"); ev_i("s", h); ev_i("which", w > 3 ? 9 : w); ev_i("hr", hr); ev_i("same", o == (void*) S[h]); ev_i("null", o == NULL); tail(); }
    else if(is("cl")) { int t = (int) ai(2); IStream* o = (IStream*) 0x77; if(S[t]) return; buf[t] = buf[h]; size[t] = size[h]; pre(); hr = IStream_Clone(S[h], &o); S[t] = o; refs[t] = o != NULL; ev_begin("Clone"); ev_i("s", h); ev_i("t", t); ev_i("hr", hr); ev_i("got", o != NULL); tail(); }
    else if(is("th")) { pthread_t t[16]; int n = (int) ai(2), i; T.s = S[h]; T.n = (long) ai(3); pre(); IStream_AddRef(S[h]); for(i = 0; i < n; i++) pthread_create(&t[i], NULL, worker, NULL); for(i = 0; i < n; i++) pthread_join(t[i], NULL); { ULONG r = IStream_AddRef(S[h]); r = IStream_Release(S[h]); refs[h]++; ev_begin("Threads"); ev_i("s", h); ev_i("after", (int) r); tail(); } }
}
void tr_end(void) { int i; ev_begin("End"); tail(); for(i = 0; i < NS; i++) { while(S[i] && refs[i] > 0) { IStream_Release(S[i]); refs[i]--; } buf[i] = NULL; } for(i = 0; i < nall; i++) hx_rawfree(all[i]); nall = 0; }
