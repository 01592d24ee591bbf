/* contracts for cp_memswap (src/hob3lbase/arith.c) and cp_v_reverse_ (src/hob3lbase/vec.c); the real text is included below */
#include <stdlib.h>
#include <stdio.h>
#include <assert.h>
#include "hv.h"
#include <arith.c>
#include <vec.c>
#ifdef HV_CBMC
#define BIG (1ULL << 40)
#ifndef ESZ
#define ESZ 8
#endif
#ifdef BYTES
typedef char unit_t;
#else
typedef unsigned unit_t;
#endif
static unit_t *g_a, *g_b, g_x, g_y, g_ox, g_oy; static size_t g_n, g_g;
/* an arbitrary unit of both blocks: exchanged when it is before i */
bool inv_swap(size_t i)
{
    if (g_a == g_b) return i <= g_n && g_a[g_g] == g_x;
    return i <= g_n && (g_g < i ? g_a[g_g] == g_y && g_b[g_g] == g_x : g_a[g_g] == g_x && g_b[g_g] == g_y);
}
bool inv_off(size_t i) { return i <= g_n; }
static void swap(bool self)
{
    g_n = hv_range(1, BIG); g_g = hv_range(0, BIG); HV_ASSUME(g_g < g_n);
    g_a = hv_dyn(g_n, sizeof(unit_t)); g_b = self ? g_a : hv_dyn(g_n, sizeof(unit_t));
    g_x = g_a[g_g]; g_y = g_b[g_g];
    bool al = ((size_t)g_a % sizeof(unsigned)) == 0 && ((size_t)g_b % sizeof(unsigned)) == 0 && g_n * sizeof(unit_t) % sizeof(unsigned) == 0;
    HV_ASSUME(al == (sizeof(unit_t) == sizeof(unsigned)));
    cp_memswap(g_a, g_b, g_n * sizeof(unit_t));
    HV_ENSURE("swap.contents_exchanged", g_a[g_g] == g_y && g_b[g_g] == g_x);
    HV_REACH("end");
}
void h_swap(void) { swap(false); }
void h_swap_self(void) { swap(true); }

/* reversing: g_e is the original position of an arbitrary element, g_c where it is now */
static cp_v_t g_v; static size_t g_e, g_c, g_p, g_s, g_k;
void c_swap(void *a, void *b, size_t esz)
{
    char *d = g_v.data;
    HV_ENSURE("reverse.swaps_whole_elements", esz == ESZ);
    size_t i = (size_t)((char*)a - d), j = (size_t)((char*)b - d);
    HV_ENSURE("reverse.elements_of_the_range", i % ESZ == 0 && j % ESZ == 0 && i / ESZ >= g_p && i / ESZ < g_p + g_s && j / ESZ >= g_p && j / ESZ < g_p + g_s);
    if (i / ESZ == g_c) g_c = j / ESZ; else if (j / ESZ == g_c) g_c = i / ESZ;
}
static size_t mirror(size_t e) { return g_p + (g_s - 1 - (e - g_p)); }
bool inv_rev(size_t i, size_t size)
{
    if (size != g_s || i > g_s / 2) return 0;
    if (g_e < g_p || g_e >= g_p + g_s) return g_c == g_e;
    return g_c == (g_e - g_p < i || g_e - g_p >= g_s - i ? mirror(g_e) : g_e);
}
void h_reverse(void)
{
    size_t n = hv_range(0, BIG); g_v.size = n; g_v.alloc = hv_range(0, BIG); HV_ASSUME(g_v.alloc >= n);
    g_v.data = hv_dyn(n, ESZ); void *d = g_v.data; size_t al = g_v.alloc;
    g_p = hv_range(0, BIG); HV_ASSUME(g_p <= n); size_t s = hv_u64(); g_s = s > n - g_p ? n - g_p : s;
    g_e = hv_range(0, BIG); HV_ASSUME(g_e < n); g_c = g_e;
    cp_v_reverse_(&g_v, ESZ, g_p, s);
    HV_ENSURE("reverse.elements_of_the_range_mirrored_others_kept", g_c == (g_e >= g_p && g_e - g_p < g_s ? mirror(g_e) : g_e));
    HV_ENSURE("reverse.vector_kept", g_v.size == n && g_v.alloc == al && g_v.data == d);
    HV_REACH("end");
}
#endif
