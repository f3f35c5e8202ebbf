#include "hx.h"
#include "encode/base64.h"
#include "encode/hex.h"
#include <sys/mman.h>
static unsigned char kb[300000], last[400000]; static size_t lastn;
static char* exact(const void* p, size_t n) { char* q = hx_rawalloc(n ? n : 1); if(n) memcpy(q, p, n); return q; }
static BASE64_OPTIONS opt; static BASE64_OPTIONS* po;
static void setopt(const char* w) { unsigned a, b, c; if(!strcmp(w, "def")) { po = NULL; opt.ch62 = '+'; opt.ch63 = '/'; opt.pad = '='; return; } sscanf(w, "%2x%2x%2x", &a, &b, &c); opt.ch62 = (char) a; opt.ch63 = (char) b; opt.pad = (char) c; po = &opt; }
static void pb(const char* k, const void* p, size_t n) { size_t i; ev_raw(",\"%s\":[", k); for(i = 0; i < n; i++) ev_raw(i ? ",%d" : "%d", ((const unsigned char*) p)[i]); ev_raw("]"); }
void tr_begin(void) { lastn = 0; }
void tr_end(void) { }
static void b64(int enc, const unsigned char* d, size_t n, long cap, int again) {
    char* in = exact(d, n); char* out = NULL; char* ref = NULL; int r, guard = 1; long i, used;
    /* the output buffer is exactly cap bytes (ASan guards its end); what lies beyond the result must stay untouched */
    if(cap >= 0) { out = hx_rawalloc(cap ? cap : 1); memset(out, HX_FILL, cap ? cap : 1); }
    r = enc ? base64_encode(in, (unsigned) n, out, cap < 0 ? 0 : (unsigned) cap, po) : base64_decode(in, (unsigned) n, out, cap < 0 ? 0 : (unsigned) cap, po);
    if(memcmp(in, d, n) != 0) guard = 0;
    used = r < 0 ? 0 : r + (enc ? 1 : 0);
    if(cap >= 0 && r > cap) guard = 0;
    if(cap >= 0 && r >= 0) for(i = used; i < cap; i++) if((unsigned char) out[i] != HX_FILL) guard = 0;
    ev_begin(enc ? "Enc" : "Dec"); pb("in", d, n); { unsigned char o[3] = { (unsigned char) opt.ch62, (unsigned char) opt.ch63, (unsigned char) opt.pad }; pb("o", o, 3); }
    ev_i("cap", cap); ev_i("r", r); ev_i("guard", guard); if(!enc) ev_i("again", again);
    pb("out", out, cap >= 0 && r >= 0 ? (size_t) (used < cap ? used : cap) : 0); ev_end();
    if(enc && cap >= 0 && r >= 0 && r <= cap && (size_t) r <= sizeof last) { memcpy(last, out, (size_t) r); lastn = (size_t) r; }
    hx_rawfree(in); if(out) hx_rawfree(out); (void) ref;
}
static void hexop(int enc, const unsigned char* d, size_t n, long cap, int low) {
    char* in = exact(d, n); char* out = NULL; int r, guard = 1; long i, used;
    if(cap >= 0) { out = hx_rawalloc(cap ? cap : 1); memset(out, HX_FILL, cap ? cap : 1); }
    r = enc ? hex_encode(in, (unsigned) n, out, cap < 0 ? 0 : (unsigned) cap, low) : hex_decode(in, (unsigned) n, out, cap < 0 ? 0 : (unsigned) cap);
    if(memcmp(in, d, n) != 0 || (cap >= 0 && r > cap)) guard = 0;
    used = r < 0 ? 0 : r + (enc ? 1 : 0);
    if(cap >= 0 && r >= 0) for(i = used; i < cap; i++) if((unsigned char) out[i] != HX_FILL) guard = 0;
    ev_begin(enc ? "Enc" : "Dec"); pb("in", d, n); if(enc) ev_i("low", low != 0); ev_i("cap", cap); ev_i("r", r); ev_i("guard", guard); pb("out", out, cap >= 0 && r >= 0 ? (size_t) (used < cap ? used : cap) : 0); ev_end();
    hx_rawfree(in); if(out) hx_rawfree(out);
}
/* e/d CAP OPT HEX ; ed SLACK DECCAP OPT HEX (encode with needed+slack, then decode the text with the option set) ; el/dl length+seed variants */
const char* hx_queries[] = { NULL };
void tr_cmd(void) {
    size_t n; long c = (long) ai(1);
    if(is("e") || is("d")) { setopt(av[2]); n = ahex(3, kb, sizeof kb); b64(av[0][0] == 'e', kb, n, c, 0); }
    else if(is("ed")) { setopt(av[2]); n = ahex(3, kb, sizeof kb); b64(1, kb, n, (long) ((n + 2) / 3 * 4) + c, 0); memcpy(kb, last, lastn); b64(0, kb, lastn, -1, 1); b64(0, kb, lastn, (long) n + c, 1); }
    else if(is("el")) { size_t q; setopt(av[2]); n = (size_t) ai(3); for(q = 0; q < n; q++) kb[q] = (unsigned char)(ai(4) * (q + 1) + q / 256); b64(1, kb, n, (long) ((n + 2) / 3 * 4) + c, 0); memcpy(kb, last, lastn); b64(0, kb, lastn, (long) n + c, 1); }
    else if(is("sz")) { unsigned long m = (unsigned long) au(1); char x; setopt(av[2]); { int r = base64_encode(&x, (unsigned) m, NULL, 0, po); ev_begin("Size"); ev_i("q", (long long)(m / 3)); ev_i("m", (long long)(m % 3)); ev_i("pad", opt.pad != 0); ev_i("r", r); ev_end(); } }
    else if(is("hd")) { unsigned long m = (unsigned long) au(1) * 4; char* p = hx_rawalloc(m); int r; memset(p, 'A', m); setopt("def"); r = base64_decode(p, (unsigned) m, NULL, 0, NULL); ev_begin("HugeDec"); ev_i("q", (long long)(m / 4)); ev_i("r", r); ev_end(); hx_rawfree(p); }
    else if(is("xe")) { n = ahex(3, kb, sizeof kb); hexop(1, kb, n, c, (int) ai(2)); }
    else if(is("xd")) { n = ahex(2, kb, sizeof kb); hexop(0, kb, n, c, 0); }
    else if(is("xs")) { unsigned long m = (unsigned long) au(1); char x; int r = hex_encode(&x, (unsigned) m, NULL, 0, 1); ev_begin("Size"); ev_i("h", (long long)(m / 2)); ev_i("m", (long long)(m % 2)); ev_i("r", r); ev_end(); }
}
