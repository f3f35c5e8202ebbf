#include "hx.h"
#include <sys/time.h>
#include <errno.h>
#include <signal.h>

void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void  __real_free(void*);

int hx_ob;
long hx_live_[HX_OBS], hx_allocs_[HX_OBS], hx_frees_[HX_OBS], hx_badfree_[HX_OBS];
int hx_oomhit_[HX_OBS];
size_t hx_limit = 64u << 20;
static long arm_k; static int arm_sticky;

/* open-addressing ledger */
typedef struct { void* p; size_t n; int ob; } ENT;
#define TOMB ((void*)1)
static ENT* led; static size_t led_cap, led_used;
static size_t led_hash(const void* p) { uint64_t x = (uint64_t)(uintptr_t)p; x *= 0x9E3779B97F4A7C15ull; return (size_t)(x >> 20); }
static void led_put(void* p, size_t n) {
    if(led_used * 2 >= led_cap) {
        ENT* old = led; size_t oc = led_cap, i;
        led_cap = 1024; 
        { size_t live = 0; for(i = 0; i < oc; i++) if(old[i].p != NULL && old[i].p != TOMB) live++;
          while(led_cap < live * 4) led_cap *= 2; }
        led = (ENT*) __real_calloc(led_cap, sizeof(ENT)); led_used = 0;
        for(i = 0; i < oc; i++) if(old[i].p != NULL && old[i].p != TOMB) {
            size_t h = led_hash(old[i].p) % led_cap;
            while(led[h].p != NULL) h = (h + 1) % led_cap;
            led[h] = old[i]; led_used++;
        }
        __real_free(old);
    }
    { size_t h = led_hash(p) % led_cap;
      while(led[h].p != NULL && led[h].p != TOMB) h = (h + 1) % led_cap;
      if(led[h].p == NULL) led_used++;
      led[h].p = p; led[h].n = n; led[h].ob = hx_ob; }
}
static ENT* led_get(const void* p) {
    size_t h; if(led_cap == 0 || p == NULL) return NULL;
    h = led_hash(p) % led_cap;
    while(led[h].p != NULL) { if(led[h].p == p) return led[h].ob == hx_ob ? &led[h] : NULL; h = (h + 1) % led_cap; }
    return NULL;
}
size_t hx_block(const void* p, int* found) { ENT* e = led_get(p); if(found) *found = e != NULL; return e ? e->n : 0; }
int hx_inside(const void* p, size_t n) {
    size_t i; uintptr_t a = (uintptr_t)p;
    for(i = 0; i < led_cap; i++) if(led[i].p != NULL && led[i].p != TOMB && led[i].ob == hx_ob) {
        uintptr_t b = (uintptr_t)led[i].p;
        if(a >= b && n <= led[i].n && a - b <= led[i].n - n) return 1;
    }
    return 0;
}
int hx_owner(const void* p, size_t n, void** base, size_t* size) {
    size_t i; uintptr_t a = (uintptr_t)p;
    for(i = 0; i < led_cap; i++) if(led[i].p != NULL && led[i].p != TOMB && led[i].ob == hx_ob) {
        uintptr_t b = (uintptr_t)led[i].p;
        if(a >= b && (n == 0 ? a - b <= led[i].n : a - b < led[i].n)) { *base = led[i].p; *size = led[i].n; return 1; }
    }
    return 0;
}
void hx_arm(long k) { arm_k = k; arm_sticky = 0; }
void hx_arm_from(long k) { arm_k = k; arm_sticky = 1; }
static int fails(size_t n) {
    if(n > hx_limit) { hx_oomhit++; return 1; }
    if(arm_k > 0) { if(arm_k == 1) { if(!arm_sticky) arm_k = 0; hx_oomhit++; return 1; } arm_k--; }
    return 0;
}
#ifdef HX_RO
#include <signal.h>
#include <sys/mman.h>
#define ARENA ((size_t) 1 << 36)
static char hx_pad[4096] __attribute__((section("hxobj"), aligned(4096)));
extern char __start_hxobj[], __stop_hxobj[];
static char *ar, *ar0, *ar1; static int ro_depth, ro_seen; static long ro_wr;     /* whole, this history's, used */
static void prot(int p) { if(ar0 < ar1) mprotect(ar0, (size_t)(ar1 - ar0), p); mprotect(__start_hxobj, (size_t)(__stop_hxobj - __start_hxobj), p); }
static void on_write(int sig, siginfo_t* si, void* c) {
    char* a = (char*) si->si_addr; (void) c;
    if(ro_depth > 0 && ((a >= ar0 && a < ar1) || (a >= __start_hxobj && a < __stop_hxobj))) { ro_wr++; mprotect(ar0, (size_t)(ar1 - ar0), PROT_READ | PROT_WRITE); mprotect(__start_hxobj, (size_t)(__stop_hxobj - __start_hxobj), PROT_READ | PROT_WRITE); return; }
    signal(sig, SIG_DFL); }
static void ar_start(void) {
    if(ar == NULL) { struct sigaction s; ar = mmap(NULL, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if(ar == MAP_FAILED) abort(); ar1 = ar;
        memset(&s, 0, sizeof s); s.sa_sigaction = on_write; s.sa_flags = SA_SIGINFO; sigaction(SIGSEGV, &s, NULL); }
    ar1 = (char*)(((uintptr_t) ar1 + 4095) & ~(uintptr_t) 4095); ar0 = ar1; }
static int in_ar(const void* p) { return (const char*) p >= ar && (const char*) p < ar + ARENA; }
static void* mem_get(size_t n) {
    char* p; if(ro_depth > 0 || ar == NULL) return __real_malloc(n);      /* what a query allocates is its own */
    p = (char*)(((uintptr_t) ar1 + 15) & ~(uintptr_t) 15); if(n > ARENA / 4 || p + n + 16 > ar + ARENA) return NULL;
    ar1 = p + n + (n == 0); return p; }
static void mem_put(void* p) { if(p != NULL && !in_ar(p)) __real_free(p); }
void hx_ro(int on) {
    if(on) { ro_seen = 1; if(ro_depth++ == 0) prot(PROT_READ); }
    else if(--ro_depth == 0) prot(PROT_READ | PROT_WRITE); }
#else
#define mem_get __real_malloc
#define mem_put __real_free
void hx_ro(int on) { (void) on; }
#endif
void* __wrap_malloc(size_t n) {
    void* p;
    if(fails(n)) { errno = ENOMEM; return NULL; }
    p = mem_get(n); if(p == NULL) { hx_oomhit++; return NULL; }
    memset(p, HX_FILL, n);
    led_put(p, n); hx_live++; hx_allocs++;
    return p;
}
void* __wrap_calloc(size_t a, size_t b) {
    void* p; size_t n;
    if(__builtin_mul_overflow(a, b, &n) || fails(n)) { if(a && n/a != b) hx_oomhit++; errno = ENOMEM; return NULL; }
    p = mem_get(n); if(p == NULL) { hx_oomhit++; return NULL; }
    memset(p, 0, n);
    led_put(p, n); hx_live++; hx_allocs++;
    return p;
}
void __wrap_free(void* p) {
    ENT* e;
    if(p == NULL) return;
    e = led_get(p);
    if(e == NULL) { hx_badfree++; return; }
    memset(p, 0xDD, e->n);
    e->p = TOMB; hx_live--; hx_frees++;
    mem_put(p);
}
/* realloc always moves, so that stale pointers are noticed. */
void* __wrap_realloc(void* p, size_t n) {
    ENT* e; void* q; size_t old;
    if(p == NULL) return __wrap_malloc(n);
    e = led_get(p);
    if(e == NULL) { hx_badfree++; return NULL; }
    if(n == 0) { __wrap_free(p); return NULL; }
    if(fails(n)) { errno = ENOMEM; return NULL; }
    old = e->n;
    q = mem_get(n); if(q == NULL) { hx_oomhit++; return NULL; }
    memset(q, HX_FILL, n);
    memcpy(q, p, old < n ? old : n);
    memset(p, 0xDD, old);
    e->p = TOMB; mem_put(p);
    led_put(q, n); hx_allocs++; hx_frees++;
    return q;
}
char* __wrap_strdup(const char* s) { size_t n = strlen(s) + 1; char* p = (char*) __wrap_malloc(n); if(p) memcpy(p, s, n); return p; }
void* hx_rawalloc(size_t n) { return mem_get(n); }
void hx_rawfree(void* p) { mem_put(p); }
void hx_reset(void) { for(hx_ob = HX_OBS - 1; ; hx_ob--) { hx_live = hx_allocs = hx_frees = hx_badfree = 0; hx_oomhit = 0; if(hx_ob == 0) break; } hx_arm(0); }
void hx_forget_blocks(void) {
    size_t i;
    for(i = 0; i < led_cap; i++) if(led[i].p != NULL && led[i].p != TOMB) { mem_put(led[i].p); led[i].p = TOMB; }
    memset(led, 0, led_cap * sizeof(ENT)); led_used = 0;
}

static FILE* out;
static int first, open_;
static void sep(void) { if(!first) fputc(',', out); first = 0; }
void ev_begin(const char* op) { open_ = 1; fputs(hx_ob ? "@1 {" : "{", out); first = 1; ev_s("op", op); }
void ev_i(const char* k, long long v) { sep(); fprintf(out, "\"%s\":%lld", k, v); }
void ev_s(const char* k, const char* s) { sep(); fprintf(out, "\"%s\":\"%s\"", k, s); }
void ev_a(const char* k, const long long* v, int n) { int i; sep(); fprintf(out, "\"%s\":[", k); for(i = 0; i < n; i++) fprintf(out, i ? ",%lld" : "%lld", v[i]); fputc(']', out); }
void ev_bytes(const char* k, const void* p, size_t n) { size_t i; sep(); fprintf(out, "\"%s\":[", k); for(i = 0; i < n; i++) fprintf(out, i ? ",%d" : "%d", ((const unsigned char*)p)[i]); fputc(']', out); }
void ev_le(const char* k, const void* p, size_t n) { ev_bytes(k, p, n); }
void ev_raw(const char* fmt, ...) { va_list ap; va_start(ap, fmt); vfprintf(out, fmt, ap); va_end(ap); }
static void ev_wr(void);
void ev_end(void) { ev_wr(); fputs("}\n", out); fflush(out); open_ = 0; }

#ifdef HX_RO
static void ev_wr(void) { if(ro_seen || ro_wr) ev_i("wr", ro_wr); ro_wr = 0; if(ro_depth == 0) ro_seen = 0; }
static int only_looks(void) { int i; for(i = 0; hx_queries[i]; i++) if(is(hx_queries[i])) return 1; return 0; }
static void command(void) { int q = only_looks(); if(q) hx_ro(1); tr_cmd(); if(q) { hx_ro(0); ro_seen = 0; } }
#else
static void ev_wr(void) { }
#define command tr_cmd
#define ar_start() ((void) 0)
#endif
int ac; char* av[4096];
long long ai(int i) { return i < ac ? strtoll(av[i], NULL, 0) : 0; }
uint64_t au(int i) { return i < ac ? strtoull(av[i], NULL, 0) : 0; }
int is(const char* s) { return strcmp(av[0], s) == 0; }
static int hv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
size_t ahex(int i, unsigned char* o, size_t max) {
    size_t n = 0; const char* s;
    if(i >= ac || av[i][0] == '-') return 0;
    for(s = av[i]; s[0] && s[1] && n < max; s += 2) o[n++] = (unsigned char)(hv(s[0]) * 16 + hv(s[1]));
    return n;
}
/* A history that burns this much processor time hangs (SIGPROF); a blocked one is ended by the wall clock, much later. */
int hx_cpu = 40;
static void watch(void) {
    struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = getenv("HX_CPU") ? atoi(getenv("HX_CPU")) : hx_cpu;
    setitimer(ITIMER_PROF, &t, NULL); alarm(240 + 2 * (unsigned) t.it_value.tv_sec);
}
static void words(char* cmd) { char* w; ac = 0; while((w = strsep(&cmd, " ")) != NULL) if(*w && ac < 4095) av[ac++] = w; }
/* commands of object 1 waiting for a callback on behalf of object 0 */
static int nest, nested; static char** nq; static size_t nqn, nqi, nqcap;
static void nest_one(void) { hx_ob = 1; words(nq[nqi++]); hx_oomhit = 0; if(ac) tr_cmd(); hx_ob = 0; }
void hx_callback(void) {
    int n = ac; char** keep;
    if(!nest || nested || open_ || hx_ob != 0 || nqi >= nqn) return;
    keep = __real_malloc(sizeof(char*) * (size_t)(n + 1)); memcpy(keep, av, sizeof(char*) * (size_t) n);
    nested = 1; nest_one(); nested = 0;
    memcpy(av, keep, sizeof(char*) * (size_t) n); ac = n; __real_free(keep);
}
static void history(char* s) {
    char* cmd; int second = 0;
    watch();
    hx_reset();
    ar_start();
    tr_begin();
    watch();
    while((cmd = strsep(&s, ";")) != NULL) {
        if(nest && hx_ob == 1 && strncmp(cmd, "ob", 2) != 0) { if(nqn == nqcap) { nqcap = nqcap * 2 + 64; nq = __real_realloc(nq, sizeof(char*) * nqcap); } nq[nqn++] = cmd; continue; }
        words(cmd);
        if(ac == 0) continue;
        if(is("nest")) { nest = 1; continue; }
        if(is("ob")) { hx_ob = ai(1) != 0; if(hx_ob && !second) { second = 1; tr_begin(); } continue; }
        hx_oomhit = 0;
        command();
    }
    hx_arm(0);
    while(nqi < nqn) nest_one();
    nqi = nqn = 0; nest = 0;
    hx_ob = 0; tr_end();
    if(second) { hx_ob = 1; tr_end(); second = 0; }
    hx_forget_blocks();
}
#ifdef HX_THREADS
/* the history's events, as text (see thr.c) */
char* hx_run(char* line) {
    char* b = NULL; size_t n = 0;
    out = open_memstream(&b, &n); if(out == NULL) abort();
    history(line); fclose(out);
    return b;
}
#else
int main(int argc, char** argv) {
    char* line = NULL; size_t cap = 0; ssize_t len; int fd;
    (void)argc; (void)argv;
    /* events go to a private copy of stdout, so nothing the code prints can mix in */
    fd = dup(1); out = fdopen(fd, "w");
    if(out == NULL) return 3;
    dup2(2, 1);
    while((len = getline(&line, &cap, stdin)) > 0) {
        if(line[len-1] == '\n') line[len-1] = 0;
        history(line);
        fputs("E\n", out); fflush(out);
    }
    return 0;
}
#endif
