/* Byte memory with contents kept as a log of block operations: memmove, memcpy, memset and the
 * allocator are replaced by their standard contracts, contents are only ever looked up at witness
 * addresses.  Sizes and positions stay unbounded (up to the arena, 2^48 bytes).
 * Native build: the real functions on real memory. */
#ifndef HV_MEM_H_
#define HV_MEM_H_
#include <stdlib.h>
#include "hv.h"
typedef unsigned char u8;
enum { HVM_DST = 1, HVM_SRC, HVM_ZERO };
#ifdef HV_CBMC
#define HVM_BITS 48
static char hvm_arena[1];   /* addresses only: never dereferenced */
static size_t hvm_off(void const *p) { return (size_t)__CPROVER_POINTER_OFFSET(p); }
typedef struct { unsigned k; size_t d, s, n; } hvm_op_t;    /* k: 1 move, 2 zero, 3 undefined, 4 swap */
#ifndef HVM_MAXLOG
#define HVM_MAXLOG 10
#endif
static hvm_op_t hvm_log[HVM_MAXLOG]; static unsigned hvm_nlog;
typedef struct { size_t b, n; unsigned kind; bool live; } hvm_reg_t;
#define HVM_MAXREG 5
static hvm_reg_t hvm_reg[HVM_MAXREG]; static unsigned hvm_nreg;
static void hvm_push(unsigned k, size_t d, size_t s, size_t n)
{ __CPROVER_assert(hvm_nlog < HVM_MAXLOG, "hv_bound: memory log large enough"); hvm_op_t o = {k,d,s,n}; hvm_log[hvm_nlog++] = o; }
static bool hvm_inside(size_t a, size_t n)
{ for (unsigned i = 0; i < HVM_MAXREG; i++) if (i < hvm_nreg && hvm_reg[i].live && a >= hvm_reg[i].b && n <= hvm_reg[i].n && a - hvm_reg[i].b <= hvm_reg[i].n - n) return true; return false; }
static void hvm_init(void) { }
/* a fresh block, disjoint from all live blocks, anywhere in memory (possibly adjacent) */
static void *hvm_block(size_t n, unsigned kind)
{
    size_t b; __CPROVER_assume(b < ((size_t)1 << HVM_BITS) && n <= ((size_t)1 << HVM_BITS) - b && b >= 16);
    for (unsigned i = 0; i < HVM_MAXREG; i++) if (i < hvm_nreg && hvm_reg[i].live) __CPROVER_assume(b + n <= hvm_reg[i].b || hvm_reg[i].b + hvm_reg[i].n <= b);
    __CPROVER_assert(hvm_nreg < HVM_MAXREG, "hv_bound: region table large enough");
    hvm_reg_t r = { b, n, kind, true }; hvm_reg[hvm_nreg++] = r;
    return hvm_arena + b;
}
static void hvm_release(void *p) { for (unsigned i = 0; i < HVM_MAXREG; i++) if (i < hvm_nreg && hvm_reg[i].b == hvm_off(p)) hvm_reg[i].live = false; }
static void hvm_fill(void *p, size_t n, unsigned kind) { (void)p; (void)n; (void)kind; }
void *memmove(void *d, void const *s, size_t n)
{
    if (n) {
        HV_ENSURE("memory.write_within_block", hvm_inside(hvm_off(d), n));
        HV_ENSURE("memory.read_within_block", hvm_inside(hvm_off(s), n));
        hvm_push(1, hvm_off(d), hvm_off(s), n);
    }
    return d;
}
void *memcpy(void *d, void const *s, size_t n)
{
    if (n) {
        HV_ENSURE("memory.write_within_block", hvm_inside(hvm_off(d), n));
        HV_ENSURE("memory.read_within_block", hvm_inside(hvm_off(s), n));
        HV_ENSURE("memcpy.no_overlap", hvm_off(d) >= hvm_off(s) + n || hvm_off(s) >= hvm_off(d) + n);
        hvm_push(1, hvm_off(d), hvm_off(s), n);
    }
    return d;
}
void *memset(void *d, int c, size_t n)
{
    if (n) {
        HV_ENSURE("memory.write_within_block", hvm_inside(hvm_off(d), n));
        hvm_push(c == 0 ? 2 : 3, hvm_off(d), 0, n);
    }
    return d;
}
/* does address a hold what initial block `kind` held at index idx ? */
static bool hvm_holds(void const *p, unsigned kind, size_t idx)
{
    size_t a = hvm_off(p);
    for (unsigned j = 0; j < HVM_MAXLOG; j++) {
        unsigned i = HVM_MAXLOG - 1 - j;
        if (i >= hvm_nlog) continue;
        hvm_op_t o = hvm_log[i];
        if (o.k == 4) {
            if (a - o.d < o.n) a = o.s + (a - o.d); else if (a - o.s < o.n) a = o.d + (a - o.s);
        }
        else if (a - o.d < o.n) {
            if (o.k == 2) return kind == HVM_ZERO;
            if (o.k == 3) return false;
            a = o.s + (a - o.d);
        }
    }
    for (unsigned i = 0; i < HVM_MAXREG; i++) if (i < hvm_nreg && hvm_reg[i].kind == kind && a - hvm_reg[i].b < hvm_reg[i].n) return a - hvm_reg[i].b == idx;
    return false;
}
static void *hvm_realloc(void *p, size_t osz, size_t nsz)
{
    void *q = hvm_block(nsz, 0);
    hvm_push(3, hvm_off(q), 0, nsz);
    if (p && osz) hvm_push(1, hvm_off(q), hvm_off(p), osz);
    if (p) hvm_release(p);
    return q;
}
#else
static u8 *hvm_save[4]; static size_t hvm_saven[4];
extern int hv_native_random;
static void hvm_init(void) { for (unsigned i = 0; i < 4; i++) { free(hvm_save[i]); hvm_save[i] = NULL; } }
static void *hvm_block(size_t n, unsigned kind) { (void)kind; void *p = malloc(n ? n : 1); if (!p) hv_stop(); return p; }
static void hvm_release(void *p) { free(p); }
static void hvm_fill(void *p, size_t n, unsigned kind)
{
    u8 *b = p; hvm_save[kind] = malloc(n ? n : 1); hvm_saven[kind] = n;
    for (size_t i = 0; i < n; i++) hvm_save[kind][i] = b[i] = (u8)(1 + (i * 29 + kind * 101) % 255);
}
static bool hvm_holds(void const *p, unsigned kind, size_t idx)
{ u8 v = *(u8 const*)p; return kind == HVM_ZERO ? v == 0 : v == hvm_save[kind][idx]; }
static void *hvm_realloc(void *p, size_t osz, size_t nsz)
{ void *q = malloc(nsz ? nsz : 1); if (!q) hv_stop(); memset(q, 0xee, nsz); if (p && osz) memcpy(q, p, osz); free(p); return q; }
#endif
#endif
