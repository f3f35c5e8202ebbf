/* Shared harness: allocation ledger and fault injection (linked with
 * -Wl,--wrap=malloc,calloc,realloc,free), command reader, event writer.
 *
 * Protocol: stdin has one trace per line, commands separated by ';', words by
 * blanks. For every command the driver writes one JSON object on a line of its
 * own; "E" ends a trace. A trace without "E" crashed or hung. */
#ifndef HX_H
#define HX_H
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#ifdef __cplusplus
extern "C" {
#endif

/* A history may work on two independent objects: the command "ob N" switches
 * between them. Each has its own counters and blocks, its events are a trace of
 * their own (those of object 1 are written with the prefix "@1 "). After "nest"
 * the commands of object 1 wait for the code under test to call back into the
 * application (comparator, hash, destructor, option handler) on behalf of
 * object 0, and run inside that call; what is left over runs afterwards. */
#define HX_OBS 2
extern int hx_ob;            /* the current object */
extern long hx_live_[HX_OBS], hx_allocs_[HX_OBS], hx_frees_[HX_OBS], hx_badfree_[HX_OBS];
extern int hx_oomhit_[HX_OBS];
#define hx_live    hx_live_[hx_ob]     /* live wrapped blocks */
#define hx_allocs  hx_allocs_[hx_ob]   /* successful wrapped allocations so far (incl. moves) */
#define hx_frees   hx_frees_[hx_ob]    /* blocks released so far */
#define hx_badfree hx_badfree_[hx_ob]  /* free/realloc of something that is not a live block of this object */
#define hx_oomhit  hx_oomhit_[hx_ob]   /* allocation failures since hx_op() */
extern size_t hx_limit;      /* requests above this fail as genuine out-of-memory */
void hx_arm(long k);         /* the k-th allocation attempt from now fails (0: off) */
void hx_arm_from(long k);    /* that and all later ones fail */
size_t hx_block(const void* p, int* found);  /* size of the live block starting at p */
int hx_inside(const void* p, size_t n);      /* [p,p+n) lies inside one live block */
int hx_owner(const void* p, size_t n, void** base, size_t* size); /* the live block [p,p+n) lies in */
void* hx_rawalloc(size_t n); /* not in the ledger */
void hx_rawfree(void* p);
void hx_reset(void);         /* forget counters (not blocks) */
void hx_forget_blocks(void); /* drop (leak) all ledger entries: after a trace */

void hx_callback(void);      /* to be called by every callback of a driver */

/* Built with -DHX_RO, everything the library may hold on to - its heap blocks, what
 * hx_rawalloc() gave out, the objects marked HX_OBJ - is read-only memory from
 * hx_ro(1) to hx_ro(0). A write there is counted, and the next event that follows a
 * hx_ro(1) has the count as "wr". A driver names its commands that only look in hx_queries. */
#ifdef HX_RO
#define HX_OBJ __attribute__((section("hxobj")))
#else
#define HX_OBJ
#endif
void hx_ro(int on);
extern const char* hx_queries[];

#ifndef HX_FILL              /* what memory holds before it is initialised; differs from build to build */
#define HX_FILL 0xA5
#endif
extern int hx_cpu;           /* seconds of processor time a history may take */

/* event writer */
void ev_begin(const char* op);
void ev_i(const char* key, long long v);          /* must fit 31 bits for TLC */
void ev_s(const char* key, const char* s);        /* plain ascii */
void ev_a(const char* key, const long long* v, int n);
void ev_bytes(const char* key, const void* p, size_t n);
void ev_le(const char* key, const void* p, size_t n); /* little-endian words -> limb bytes */
void ev_raw(const char* fmt, ...);
void ev_end(void);

/* command words of the current command */
extern int ac; extern char* av[];
long long ai(int i);          /* av[i] as integer (0 when absent) */
uint64_t au(int i);
int is(const char* s);        /* av[0] equals s */
size_t ahex(int i, unsigned char* out, size_t max);  /* hex string "-" is empty */

/* provided by each driver */
void tr_begin(void);          /* fresh state (of object hx_ob) */
void tr_cmd(void);            /* one command */
void tr_end(void);            /* release everything; may write final events */
#ifdef __cplusplus
}
#endif
#endif
