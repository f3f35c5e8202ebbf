#ifdef WITH_STDDEF
#include <stddef.h>
#endif
#ifdef PREDEFINED     /* as an application that has its own */
#define MIN(a,b) (-1000001)
#define MAX(a,b) (-1000002)
#define ABS(a) (-1000003)
#define CLAMP(v,a,b) (-1000004)
#define SIZEOF_ARRAY(a) (-1000005)
#define STRINGIZE(a) "predefined"
#define OFFSETOF(t, m) (-1000006)
#define CONTAINEROF(p, t, m) ((t*) 0x7777)
#define MIN3(a,b,c) (-1000007)
#define MAX3(a,b,c) (-1000008)
#endif
#ifdef NOGNU     /* the plain C definitions the header falls back on */
#include "hx.h"
#undef __GNUC__
#endif
#include "misc/defs.h"
#include "hx.h"
static void w3(const char* key, int64_t v) { ev_raw(",\"%s\":[%d,%d,%d]", key, (int)(v >> 48), (int)(v >> 24 & 0xffffff), (int)(v & 0xffffff)); }
static void w3u(const char* key, uint64_t v) { ev_raw(",\"%s\":[%d,%d,%d]", key, (int)(v >> 48), (int)(v >> 24 & 0xffffff), (int)(v & 0xffffff)); }
#define PUTI(k, v) w3(k, (int64_t)(v))
#define PUTU(k, v) w3u(k, (uint64_t)(v))
#define PUTD(k, v) w3(k, (int64_t)((double)(v) * 8))      /* multiples of 1/8 */
#ifndef PREDEFINED
/* operands a, b, c as they are, and the macros on the expressions A, B, C which have those values */
#define NUM(P, form, a, b, c, A, B, C, canabs) do {                                                     \
    ev_begin("Num"); ev_s("form", form); P("a", a); P("b", b); P("c", c);                               \
    P("min", MIN(A, B)); P("max", MAX(A, B)); P("min3", MIN3(A, B, C)); P("max3", MAX3(A, B, C));       \
    P("clamp", CLAMP(A, B, C)); if(canabs) P("abs", ABS(A)); else P("abs", a); ev_i("absok", canabs);   \
    ev_end(); } while(0)
#define SAME(T, P, lit, absok) do { T a = lit(1), b = lit(2), c = lit(3); NUM(P, "plain", a, b, c, a, b, c, absok(a)); } while(0)
static int shift;
#define I(k) ((long long) ai(k + shift))
#define U(k) ((unsigned long long) au(k + shift))
#define D(k) (I(k) / 8.0)
#define YES(a) 1
#define NOTMIN32(a) ((a) != INT32_MIN)
#define NOTMIN64(a) ((a) != INT64_MIN)
/* integers: operands that are expressions of low precedence */
#define FORMS(T, P) do { T a = I(1), b = I(2), c = I(3), x, y, z; T v[3] = { a, b, c }; T* p = v; int k = a < b;     \
    x = a | b; y = b & c; z = a ^ c; NUM(P, "| & ^", x, y, z, a | b, b & c, a ^ c, 1);                              \
    x = a ? b : c; y = b ? c : a; z = c ? a : b; NUM(P, "?:", x, y, z, a ? b : c, b ? c : a, c ? a : b, 1);          \
    x = a < b; y = b == c; z = a && b; NUM(P, "< == &&", x, y, z, a < b, b == c, a && b, 1);                          \
    x = a || c; y = c != a; z = b >= c; NUM(P, "|| != >=", x, y, z, a || c, c != a, b >= c, 1);                       \
    x = a + b; y = b - c; z = c * 2; NUM(P, "+ - *", x, y, z, a + b, b - c, c * 2, 1);                                \
    x = -a; y = ~b; z = !c; NUM(P, "- ~ !", x, y, z, -a, ~b, !c, 1);                                                  \
    x = a - b; y = -b; z = - -c; NUM(P, "a-b -b", x, y, z, a - b, -b, - -c, 1);                                       \
    x = p[0]; y = *(p + 1); z = v[2]; NUM(P, "[] *", x, y, z, p[0], *(p + 1), v[2], 1);                               \
    x = k ? -a : b; y = a / 3; z = b % 5; NUM(P, "/ %", x, y, z, k ? -a : b, a / 3, b % 5, 1);                        \
    x = (a, b); y = (T) c; z = (b < c) ? a : (b > c) ? b : c; NUM(P, "nested ?:", x, y, z, (a, b), (T) c, (b < c) ? a : (b > c) ? b : c, 1); \
    x = MIN(a, b); y = MAX(b, c); z = ABS(c); NUM(P, "nested", x, y, z, MIN(a, b), MAX(b, c), ABS(c), 1);             \
    x = a << 1; y = b >> 1; z = a & 7; NUM(P, "<< >>", x, y, z, a << 1, b >> 1, a & 7, 1); } while(0)
/* the macros inside larger expressions: operands within +-2^28 */
#define CONTEXT(T) do { T a = I(1), b = I(2), c = I(3); ev_begin("Ctx"); PUTI("a", a); PUTI("b", b); PUTI("c", c);                       \
    PUTI("submin", c - MIN(a, b)); PUTI("submax", c - MAX(a, b) - 1); PUTI("submin3", 1 - MIN3(a, b, c)); PUTI("submax3", 1 - MAX3(a, b, c) + c); PUTI("subabs", b - ABS(a)); PUTI("subclamp", a - CLAMP(a, b, c)); \
    PUTI("negmin", -MIN(a, b)); PUTI("negmax", -MAX(a, b)); PUTI("negabs", -ABS(a)); PUTI("dblmin", 2 * MIN(a, b)); PUTI("dblmax", MAX(a, b) * 2); PUTI("dblabs", 2 * ABS(a) + 1); PUTI("dblmin3", 2 * MIN3(a, b, c)); PUTI("dblmax3", MAX3(a, b, c) * 2); PUTI("dblclamp", 2 * CLAMP(a, b, c)); \
    PUTI("eq", (c == MIN(a, b)) + 2 * (MAX(a, b) == c) + 4 * (ABS(a) == ABS(b)) + 8 * (1 && MIN(a, b) < MAX(a, b)));                       \
    { int r; if(a < b) r = MIN(a, b) < c ? 1 : 2; else r = MAX(a, b) > c ? 3 : 4; PUTI("branch", r); }                                     \
    ev_end(); } while(0)
/* layouts */
typedef struct { char a; int b; short c; double d; char e[3]; long long f; } L1;
typedef struct { int x; int y; } L2;
typedef struct { char some; L2 s; L2 t[3]; L2* p; } L3;
typedef struct { short h; union { char c; double d; int i[5]; } u; char z; } L4;
#pragma pack(push, 1)
typedef struct { char a; int b; short c; double d; char e; } L5;
#pragma pack(pop)
typedef union { char c; int i; double d[2]; } L6;
typedef struct { struct { char q; L1 in; } n; L3 m[2]; int tail; } L7;
typedef struct { L2 first; } L8;
typedef struct { char a; char pad[70000]; short b; L1 c[3000]; int d; } L9;
typedef struct { int x; char big[16777217]; L2 y; char more[33000]; short z; } L10;
typedef struct { L2 x; char huge[1000000001]; int y; char z; } L11;
static char* pool;
static int flip(int k) { return k; }
#define MEMBER(lay, ix, T, m, MT) if(is("of") && ai(1) == lay && ai(2) == ix) { size_t at = (size_t) ai(3) * 16; T* o = (T*)(pool + 512 + at); MT* q = (MT*) &o->m; const T* co = o; (void) co; MT* arr[2]; arr[0] = q; arr[1] = (MT*) &((T*) pool)->m; \
    ev_begin("Off"); ev_i("lay", lay); ev_i("m", ix); ev_i("off", (long long) OFFSETOF(T, m)); ev_i("real", (char*) q - (char*) o);                \
    ev_i("back", (char*) CONTAINEROF(q, T, m) - (char*) o); ev_i("back1", (char*) CONTAINEROF(flip(1) ? q : arr[1], T, m) - (char*) o);             \
    ev_i("back2", (char*) CONTAINEROF(arr[1], T, m) - pool); ev_i("back3", (char*)(CONTAINEROF(&o->m, T, m) + 1) - (char*)(o + 1));  \
    ev_i("back4", (char*) CONTAINEROF(arr[0] + (arr[1] - arr[1]), T, m) - (char*) o); ev_i("back5", (char*) &CONTAINEROF(q, T, m)->m - (char*) o); ev_i("twice", (long long)(2 * OFFSETOF(T, m))); ev_i("size", sizeof(T)); ev_end(); return; }
static void members(void) {
    MEMBER(1, 1, L1, a, char) MEMBER(1, 2, L1, b, int) MEMBER(1, 3, L1, c, short) MEMBER(1, 4, L1, d, double) MEMBER(1, 6, L1, f, long long)
    MEMBER(2, 1, L2, x, int) MEMBER(2, 2, L2, y, int)
    MEMBER(3, 1, L3, some, char) MEMBER(3, 2, L3, s, L2) MEMBER(3, 4, L3, p, L2*)
    MEMBER(4, 1, L4, h, short) MEMBER(4, 3, L4, z, char)
    MEMBER(5, 1, L5, a, char) MEMBER(5, 2, L5, b, int) MEMBER(5, 3, L5, c, short) MEMBER(5, 4, L5, d, double) MEMBER(5, 5, L5, e, char)
    MEMBER(6, 1, L6, c, char) MEMBER(6, 2, L6, i, int)
    MEMBER(7, 3, L7, tail, int)
    MEMBER(8, 1, L8, first, L2)
    MEMBER(9, 1, L9, a, char) MEMBER(9, 3, L9, b, short) MEMBER(9, 5, L9, d, int)
    MEMBER(10, 1, L10, x, int) MEMBER(10, 3, L10, y, L2) MEMBER(10, 5, L10, z, short)
    MEMBER(11, 1, L11, x, L2) MEMBER(11, 3, L11, y, int) MEMBER(11, 4, L11, z, char)
}
static int g1[7]; static const char g2[] = "hello"; static L1 g3[5]; static double g4[2][3][4]; static char g5[1]; static void* g6[300]; static short g7[70000]; static char g8[200000][2];
#define AUTO(n) { long long loc[n]; char byt[n]; struct { short s[n]; L1 t; } st; struct { int z; short s[n]; } *ps = (void*) pool; long long (*pa)[n] = &loc; \
    ev_begin("Arr"); ev_i("n", n); ev_i("c1", SIZEOF_ARRAY(loc)); ev_i("c2", SIZEOF_ARRAY(byt)); ev_i("c3", SIZEOF_ARRAY(st.s)); ev_i("c4", SIZEOF_ARRAY(ps->s)); ev_i("c5", SIZEOF_ARRAY(*pa)); ev_i("c6", 10000 / SIZEOF_ARRAY(loc)); ev_i("c7", 2 * SIZEOF_ARRAY(byt) + 1); ev_end(); }
#endif
#define VMAJ 5
#define VMIN 3
#define EMPTYARG
#include <sys/mman.h>
void tr_begin(void) {
#ifndef PREDEFINED
    if(pool == NULL) pool = (char*) mmap(NULL, 1200000000, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
#endif
}
void tr_end(void) { }
/* n T a b c | fm a b c | cx a b c | of LAY MEMBER AT | ar | st | pre */
const char* hx_queries[] = { NULL };
void tr_cmd(void) {
#ifdef PREDEFINED
    int x = 5, y = 6, arr[3]; (void) x; (void) y; (void) arr;
    if(is("pre")) { L: ev_begin("Pre"); { long long v[8]; v[0] = MIN(x, y); v[1] = MAX(x, y); v[2] = ABS(x); v[3] = CLAMP(x, y, y); v[4] = SIZEOF_ARRAY(arr); v[5] = OFFSETOF(int, y); v[6] = MIN3(x, y, x); v[7] = MAX3(x, y, y); ev_a("v", v, 8); } ev_s("s", STRINGIZE(VMAJ)); ev_i("p", CONTAINEROF(&x, int, y) == (int*) 0x7777); ev_end(); }
#else
    shift = 0;
    if(is("n")) {
        const char* t = av[1]; shift = 1;      /* operands are words 2..4 */
        if(!strcmp(t, "i8")) SAME(signed char, PUTI, I, YES);
        else if(!strcmp(t, "u8")) SAME(unsigned char, PUTI, I, YES);
        else if(!strcmp(t, "i16")) SAME(short, PUTI, I, YES);
        else if(!strcmp(t, "u16")) SAME(unsigned short, PUTI, I, YES);
        else if(!strcmp(t, "i32")) SAME(int, PUTI, I, NOTMIN32);
        else if(!strcmp(t, "u32")) SAME(unsigned, PUTU, I, YES);
        else if(!strcmp(t, "i64")) SAME(long long, PUTI, I, NOTMIN64);
        else if(!strcmp(t, "u64")) SAME(unsigned long long, PUTU, U, YES);
        else if(!strcmp(t, "f64")) SAME(double, PUTD, D, YES);
        else if(!strcmp(t, "f32")) SAME(float, PUTD, D, YES);
        else if(!strcmp(t, "long")) SAME(long, PUTI, I, NOTMIN64);
        else if(!strcmp(t, "ptrdiff")) { long a = I(1); long long b = I(2); int c = (int) I(3); NUM(PUTI, "long, long long, int", a, b, c, a, b, c, NOTMIN64(a)); }
        else if(!strcmp(t, "mix1")) { short a = (short) I(1); int b = (int) I(2); long long c = I(3); NUM(PUTI, "short, int, long long", a, b, c, a, b, c, 1); NUM(PUTI, "long long, short, int", c, a, b, c, a, b, NOTMIN64(c)); }
        else if(!strcmp(t, "mix2")) { unsigned a = (unsigned) I(1); long long b = I(2); unsigned char c = (unsigned char) I(3); NUM(PUTI, "unsigned, long long, uchar", a, b, c, a, b, c, 1); NUM(PUTI, "uchar, unsigned, long long", c, a, b, c, a, b, 1); }
        else if(!strcmp(t, "mix3")) { int a = (int) I(1); double b = D(2); if(a > 16777216 || a < -16777216) a = a / 256 * 256;   /* exact as a float, in whatever order the operands meet */ float c = (float)(int)(I(3) % 1000000) / 8; NUM(PUTD, "int, double, float", a, b, c, a, b, c, NOTMIN32(a)); NUM(PUTD, "double, float, int", b, c, a, b, c, a, 1); }
        else if(!strcmp(t, "mix4")) { signed char a = (signed char) I(1); unsigned char b = (unsigned char) I(2); unsigned short c = (unsigned short) I(3); NUM(PUTI, "schar, uchar, ushort", a, b, c, a, b, c, 1); NUM(PUTI, "ushort, schar, uchar", c, a, b, c, a, b, 1); }
    }
    else if(is("fm")) { FORMS(long long, PUTI); FORMS(int, PUTI); }
    else if(is("cx")) { CONTEXT(long long); CONTEXT(int); }
    else if(is("of")) members();
    else if(is("ar")) {
        AUTO(1) AUTO(2) AUTO(3) AUTO(7) AUTO(8) AUTO(255) AUTO(256) AUTO(1000)
        ev_begin("Arrs"); { long long v[11]; v[9] = SIZEOF_ARRAY(g7); v[10] = SIZEOF_ARRAY(g8); v[0] = SIZEOF_ARRAY(g1); v[1] = SIZEOF_ARRAY(g2); v[2] = SIZEOF_ARRAY(g3); v[3] = SIZEOF_ARRAY(g4); v[4] = SIZEOF_ARRAY(g4[0]); v[5] = SIZEOF_ARRAY(g4[1][2]); v[6] = SIZEOF_ARRAY(g5); v[7] = SIZEOF_ARRAY(g6); v[8] = SIZEOF_ARRAY("abc"); ev_a("v", v, 11); } ev_end(); }
    else if(is("st")) { ev_begin("Str"); ev_s("s1", STRINGIZE(VMAJ)); ev_s("s2", STRINGIZE(VMAJ.VMIN)); ev_s("s3", STRINGIZE(hello world)); ev_s("s4", STRINGIZE(VMAJ) "-" STRINGIZE(VMIN)); ev_s("s5", STRINGIZE(EMPTYARG)); ev_s("s6", STRINGIZE(a+b)); ev_end(); }
#endif
}
