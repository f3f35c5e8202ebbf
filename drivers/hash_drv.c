#include "hx.h"
#include "hash/crc32.h"
#include "hash/fnv1a.h"
#include <sys/mman.h>
static unsigned char kb[400000];
static void pb(const char* k, const void* p, size_t n) { size_t i; ev_raw(",\"%s\":[", k); for(i = 0; i < n; i++) ev_raw(i ? ",%d" : "%d", ((const unsigned char*) p)[i]); ev_raw("]"); }
static void pw(const char* k, unsigned long long x, int n) { int i; ev_raw(",\"%s\":[", k); for(i = 0; i < n; i++) ev_raw(i ? ",%d" : "%d", (int)(x >> (8 * i) & 255)); ev_raw("]"); }
void tr_begin(void) { hx_cpu = 150; }
void tr_end(void) { }
/* data ends where its block ends (ASan) and starts at a chosen misalignment */
static unsigned char* blk; 
static unsigned char* place(const void* d, size_t n, unsigned off) { blk = hx_rawalloc(n + off + (n + off == 0)); memset(blk, 0x5A, off); if(n) memcpy(blk + off, d, n); return blk + off; }
static void crc(const unsigned char* d, size_t n, unsigned off) {
    unsigned char* p = place(d, n, off); uint32_t r = crc32(p, n); int ok = memcmp(p, d, n) == 0;
    ev_begin("Crc"); pb("in", d, n); ev_i("guard", ok); ev_raw(",\"r\":[%d,%d]", (int)(r >> 16), (int)(r & 0xffff)); ev_end(); hx_rawfree(blk);
}
static uint64_t fnv(int w, uint64_t base, const unsigned char* d, size_t n, unsigned off, int chain) {
    unsigned char* p = place(d, n, off); uint64_t r = w == 32 ? fnv1a_32((uint32_t) base, p, n) : fnv1a_64(base, p, n); int ok = memcmp(p, d, n) == 0;
    ev_begin("Fnv"); pw("base", base, w / 8); pb("in", d, n); ev_i("chain", chain); ev_i("guard", ok); pw("r", r, w / 8); ev_end(); hx_rawfree(blk); return r;
}
static unsigned char* zeros(size_t n) { unsigned char* p = mmap(NULL, n ? n : 1, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if(p == MAP_FAILED) exit(3); return p; }
static void gen(size_t n, unsigned s) { size_t q; for(q = 0; q < n; q++) { s = s * 1664525u + 1013904223u; kb[q] = (unsigned char)(s >> 24); } }
/* N zero bytes, some bytes, M zero bytes, ... : mostly untouched pages */
static struct { size_t z, n; const unsigned char* s; } run[8]; static int runs; static size_t total;
static unsigned char* sparse(int first) {
    int i; size_t o = 0, k = 0; unsigned char* p; runs = 0; total = 0;
    for(i = first; i + 1 < ac && runs < 8; i += 2) { run[runs].z = (size_t) au(i); run[runs].s = kb + k; run[runs].n = ahex(i + 1, kb + k, sizeof kb - k); k += run[runs].n; total += run[runs].z + run[runs].n; runs++; }
    p = mmap(NULL, total + 1, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if(p == MAP_FAILED) exit(3);
    madvise(p, total + 1, MADV_NOHUGEPAGE);
    for(i = 0; i < runs; i++) { o += run[i].z; memcpy(p + o, run[i].s, run[i].n); o += run[i].n; }
    return p; }
static void prun(void) { int i; ev_raw(",\"runs\":["); for(i = 0; i < runs; i++) { size_t n = run[i].z; ev_raw("%s{\"z\":[%d,%d,%d]", i ? "," : "", (int)(n & 0xffff), (int)(n >> 16 & 0xffff), (int)(n >> 32 & 0xffff)); pb("s", run[i].s, run[i].n); ev_raw("}"); } ev_raw("]"); }
/* cr N HEX N HEX ...; fr W BASE N HEX ...; c OFF HEX; cg OFF N SEED; cz N; cn | f W BASE OFF HEX; fc W BASE HEX CUT... ; fg W BASE OFF N SEED; fz W BASE N; fb */
const char* hx_queries[] = { NULL };
void tr_cmd(void) {
    size_t n; 
    if(is("c")) { n = ahex(2, kb, sizeof kb); crc(kb, n, (unsigned) ai(1)); }
    else if(is("cg")) { n = (size_t) ai(2); gen(n, (unsigned) ai(3)); crc(kb, n, (unsigned) ai(1)); }
    else if(is("cn")) { uint32_t r = crc32(NULL, 0); ev_begin("Crc"); pb("in", kb, 0); ev_i("guard", 1); ev_raw(",\"r\":[%d,%d]", (int)(r >> 16), (int)(r & 0xffff)); ev_end(); }
    else if(is("cz")) { uint32_t r; unsigned char* p; n = (size_t) au(1); p = zeros(n); r = crc32(p, n); munmap(p, n ? n : 1);
        ev_begin("CrcZ"); ev_raw(",\"n\":[%ld,%ld]", (long)(n >> 16), (long)(n & 0xffff)); ev_raw(",\"r\":[%d,%d]", (int)(r >> 16), (int)(r & 0xffff)); ev_end(); }
    else if(is("cr")) { unsigned char* p = sparse(1); uint32_t r = crc32(p, total); munmap(p, total + 1); ev_begin("CrcR"); prun(); ev_raw(",\"r\":[%d,%d]", (int)(r >> 16), (int)(r & 0xffff)); ev_end(); }
    else if(is("fr")) { int w = (int) ai(1); uint64_t b = strtoull(av[2], NULL, 16), r; unsigned char* p = sparse(3); r = w == 32 ? fnv1a_32((uint32_t) b, p, total) : fnv1a_64(b, p, total); munmap(p, total + 1); ev_begin("FnvR"); pw("base", b, w / 8); prun(); pw("r", r, w / 8); ev_end(); }
    else if(is("f")) { n = ahex(4, kb, sizeof kb); fnv((int) ai(1), strtoull(av[2], NULL, 16), kb, n, (unsigned) ai(3), 0); }
    else if(is("fg")) { n = (size_t) ai(4); gen(n, (unsigned) ai(5)); fnv((int) ai(1), strtoull(av[2], NULL, 16), kb, n, (unsigned) ai(3), 0); }
    else if(is("fc")) { int i; size_t o = 0; uint64_t h = strtoull(av[2], NULL, 16); n = ahex(3, kb, sizeof kb);
        for(i = 4; i <= ac; i++) { size_t c = i < ac ? (size_t) ai(i) : n; if(c < o) c = o; if(c > n) c = n; h = fnv((int) ai(1), h, kb + o, c - o, (unsigned)(i % 5), i > 4); o = c; } }
    else if(is("fb")) { ev_begin("Base"); pw("r", FNV1A_BASE_32, 4); ev_end(); ev_begin("Base"); pw("r", FNV1A_BASE_64, 8); ev_end(); }
    else if(is("fn")) { uint64_t b = strtoull(av[2], NULL, 16), r; int w = (int) ai(1); r = w == 32 ? fnv1a_32((uint32_t) b, NULL, 0) : fnv1a_64(b, NULL, 0); ev_begin("Fnv"); pw("base", b, w / 8); pb("in", kb, 0); ev_i("chain", 0); ev_i("guard", 1); pw("r", r, w / 8); ev_end(); }
    else if(is("fz")) { int w = (int) ai(1); uint64_t b = strtoull(av[2], NULL, 16), r; unsigned char* p; n = (size_t) au(3); p = zeros(n);
        r = w == 32 ? fnv1a_32((uint32_t) b, p, n) : fnv1a_64(b, p, n); munmap(p, n ? n : 1);
        ev_begin("FnvZ"); pw("base", b, w / 8); ev_raw(",\"n\":[%d,%d,%d]", (int)(n & 0xffff), (int)(n >> 16 & 0xffff), (int)(n >> 32 & 0xffff)); pw("r", r, w / 8); ev_end(); }
}
