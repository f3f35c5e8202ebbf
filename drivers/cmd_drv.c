#include "hx.h"
#include "misc/cmdline.h"
typedef struct { int id; char* arg; } CALL;
static struct { CMDLINE_OPTION* opts; int no; char* longs[4096]; int stop_at, stop_v, ncalls, ud_ok; char udata[3]; CALL calls[100000]; } O[HX_OBS];
#define opts (O[hx_ob].opts)
#define no (O[hx_ob].no)
#define longs (O[hx_ob].longs)
#define stop_at (O[hx_ob].stop_at)
#define stop_v (O[hx_ob].stop_v)
#define ncalls (O[hx_ob].ncalls)
#define ud_ok (O[hx_ob].ud_ok)
#define udata (O[hx_ob].udata)
#define calls (O[hx_ob].calls)
static int cb(int id, const char* arg, void* ud) {
    if(ud != (void*) &udata[1]) ud_ok = 0;
    if(ncalls < 100000) { calls[ncalls].id = id; calls[ncalls].arg = arg ? strdup(arg) : NULL; ncalls++; }
    hx_callback();
    return stop_at != 0 && ncalls >= stop_at ? (ncalls == stop_at ? stop_v : stop_v ^ 1) : 0;
}
static void pb(const char* s) { int c = 0; ev_raw("["); for(; *s; s++) ev_raw(c++ ? ",%d" : "%d", (unsigned char) *s); ev_raw("]"); }
static void pcalls(void) { int k; ev_raw("["); for(k = 0; k < ncalls; k++) { ev_raw(k ? ",{\"id\":%d,\"has\":%d,\"arg\":" : "{\"id\":%d,\"has\":%d,\"arg\":", calls[k].id, calls[k].arg != NULL); pb(calls[k].arg ? calls[k].arg : ""); ev_raw("}"); } ev_raw("]"); for(k = 0; k < ncalls; k++) free(calls[k].arg); ncalls = 0; }
static char* str(const char* hex) { char* p; size_t n = 0; const char* s; unsigned char* b = hx_rawalloc(strlen(hex) / 2 + 1); for(s = hex; *s != '.' && s[0] && s[0] != '*' && s[1]; s += 2) { unsigned x; sscanf(s, "%2x", &x); b[n++] = (unsigned char) x; } p = hx_rawalloc(n + 1); memcpy(p, b, n); p[n] = 0; hx_rawfree(b); return p; }
void tr_begin(void) { no = 0; opts = NULL; }
static void clear(void) { int k; for(k = 0; k < no; k++) hx_rawfree(longs[k]); hx_rawfree(opts); opts = NULL; no = 0; }
void tr_end(void) { clear(); }
static int readit(int argc, char** argv, int k, int v) { CMDLINE_OPTION* t = hx_rawalloc((size_t)(no + 1) * sizeof *t); int r; if(no) memcpy(t, opts, (size_t) no * sizeof *t); memset(&t[no], 0, sizeof *t); stop_at = k; stop_v = v; ncalls = 0; r = cmdline_read(t, argc, argv, cb, &udata[1]); hx_rawfree(t); return r; }
/* t ; o SHORTCODE LONGHEX|- ID FLAGS ; p STOPS ARGHEX...   an argument HEX*N stands N times.  STOPS: list k=v,k=v or - ; first argument is argv[0]; "n" means argc = 0 */
const char* hx_queries[] = { NULL };
void tr_cmd(void) {
    if(is("t")) clear();
    else if(is("o")) { CMDLINE_OPTION* q = hx_rawalloc((size_t)(no + 1) * sizeof *q); if(no) memcpy(q, opts, (size_t) no * sizeof *q); hx_rawfree(opts); opts = q;
        longs[no] = strcmp(av[2], "-") ? str(av[2]) : NULL;
        q[no].shortname = (char) ai(1); q[no].longname = longs[no]; q[no].id = (int) ai(3); q[no].flags = (unsigned) ai(4); no++; }
    else if(is("p")) {
        int argc = 0, k, j, n, r, kept = 1; for(j = 2; j < ac; j++) argc += strchr(av[j], '*') ? atoi(strchr(av[j], '*') + 1) : 1;
        { char** argv = hx_rawalloc((size_t)(argc + 1) * sizeof(char*)); char** copy = hx_rawalloc((size_t)(argc + 1) * sizeof(char*)); char* s;
        for(j = 2, k = 0; j < ac; j++) for(n = strchr(av[j], '*') ? atoi(strchr(av[j], '*') + 1) : 1; n > 0; n--, k++) { argv[k] = str(av[j]); copy[k] = argv[k]; }
        argv[argc] = copy[argc] = NULL; ud_ok = 1;
        r = readit(argc, argv, 0, 0);
        ev_begin("Read"); ev_i("r", r);
        ev_raw(",\"opts\":["); for(k = 0; k < no; k++) { ev_raw(k ? ",{\"s\":%d,\"haslong\":%d,\"id\":%d,\"flags\":%u,\"long\":" : "{\"s\":%d,\"haslong\":%d,\"id\":%d,\"flags\":%u,\"long\":", (unsigned char) opts[k].shortname, longs[k] != NULL, opts[k].id, opts[k].flags); pb(longs[k] ? longs[k] : ""); ev_raw("}"); } ev_raw("]");
        ev_raw(",\"argv\":["); for(k = 1; k < argc; k++) { if(k > 1) ev_raw(","); pb(argv[k]); } ev_raw("]");
        ev_raw(",\"calls\":"); pcalls();
        ev_raw(",\"runs\":["); if(av[1][0] != '-') { int first = 1; for(s = av[1]; *s; ) { int kk = (int) strtol(s, &s, 10), v = (int) strtol(s + 1, &s, 10), rr; if(*s == ',') s++; rr = readit(argc, argv, kk, v); ev_raw(first ? "{\"k\":%d,\"v\":%d,\"r\":%d,\"calls\":" : ",{\"k\":%d,\"v\":%d,\"r\":%d,\"calls\":", kk, v, rr); first = 0; pcalls(); ev_raw("}"); } } ev_raw("]");
        for(k = 0; k <= argc; k++) if(argv[k] != copy[k]) kept = 0;
        for(j = 2, k = 0; j < ac; j++) for(n = strchr(av[j], '*') ? atoi(strchr(av[j], '*') + 1) : 1; n > 0; n--, k++) { char* q = str(av[j]); if(kept && strcmp(q, argv[k])) kept = 0; hx_rawfree(q); }
        ev_i("ud", ud_ok); ev_i("kept", kept); ev_end();
        for(k = 0; k < argc; k++) hx_rawfree(copy[k]); hx_rawfree(argv); hx_rawfree(copy); }
    }
}
