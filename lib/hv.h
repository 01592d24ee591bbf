/* Harness/contract support shared by the deductive run (CBMC, HV_CBMC) and the
 * native replay/search run of the very same contract text (HV_NATIVE). */
#ifndef HV_H_
#define HV_H_
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <limits.h>
#include <string.h>

#ifdef HV_CBMC

#  define HV_REQUIRES(c)      __CPROVER_requires(c)
#  define HV_ENSURES(c)       __CPROVER_ensures(c)
#  define HV_ASSIGNS(...)     __CPROVER_assigns(__VA_ARGS__)
#  define HV_RESULT           __CPROVER_return_value
#  define HV_UPTO(p,n)        __CPROVER_object_upto((p),(n))
   extern uint64_t hv_in_log;
   static inline uint64_t hv_in(void) { uint64_t v; hv_in_log = v; return v; }
#  define HV_ASSUME(c)        __CPROVER_assume(c)
#  define HV_ENSURE(name, c)  __CPROVER_assert((c), "hv:" name)
#  define HV_REACH(name)      __CPROVER_assert(0, "hv_reach:" name)
#  define HV_STOP()           __CPROVER_assume(0)
#  define HV_FRESH(T, n)      ((T*)malloc(sizeof(T)*(n)))
#else
#  define HV_NATIVE 1
#  define HV_REQUIRES(c)
#  define HV_ENSURES(c)
#  define HV_ASSIGNS(...)
#  define HV_UPTO(p,n)
   extern uint64_t hv_in(void);
   extern void hv_assume_fail(void) __attribute__((noreturn));
   extern void hv_ensure_fail(char const *name, char const *file, int line) __attribute__((noreturn));
   extern void hv_stop(void) __attribute__((noreturn));
   extern void hv_reach(char const *name);
#  define HV_ASSUME(c)        do{ if (!(c)) hv_assume_fail(); }while(0)
#  define HV_ENSURE(name, c)  do{ if (!(c)) hv_ensure_fail(name, __FILE__, __LINE__); }while(0)
#  define HV_REACH(name)      hv_reach(name)
#  define HV_STOP()           hv_stop()
#endif

/* results left open by a contract that stands for a callee (deductive run only; never logged or replayed) */
#ifdef HV_CBMC
extern uint64_t hv_any_u64(void); extern int64_t hv_any_i64(void); extern uint32_t hv_any_u32(void);
extern int32_t hv_any_i32(void); extern double hv_any_f64(void); extern bool hv_any_bool(void);
extern bool hv_known(bool);
extern void hv_dyn_ptr(void *a, size_t off, void *t);   /* the pointers at byte off of a's elements point to elements of t */
extern void hv_dyn_among(void *a, size_t off, ...);      /* precondition: the integer at byte off of each element of a is one of the given ones */
extern void hv_havoc(void *a);                          /* all elements of a dynamic array change arbitrarily */
extern void hv_dyn_null(void *a);                       /* element 0 of a stands for the null pointer */
extern bool hv_assuming(void);      /* in a loop invariant: evaluated as an assumption (ghost assignments persist) */
extern void *hv_dyn(size_t n, size_t stride);   /* fresh array of n elements, arbitrary contents */
#endif

/* inputs */
static inline uint64_t hv_u64(void) { return hv_in(); }
static inline int64_t  hv_i64(void) { return (int64_t)hv_in(); }
static inline uint32_t hv_u32(void) { return (uint32_t)hv_in(); }
static inline int32_t  hv_i32(void) { return (int32_t)(uint32_t)hv_in(); }
static inline uint8_t  hv_u8(void)  { return (uint8_t)hv_in(); }
static inline bool     hv_bool(void){ return (hv_in() & 1) != 0; }
static inline double   hv_f64(void) { union { uint64_t u; double d; } x; x.u = hv_in(); return x.d; }
static inline uint64_t hv_range(uint64_t lo, uint64_t hi)
{
    uint64_t v = hv_in();
#ifdef HV_NATIVE
    extern int hv_native_random;
    if (hv_native_random && (v < lo || v > hi)) {
        extern void hv_fix_last(uint64_t v);
        v = (hi - lo == UINT64_MAX) ? v : lo + v % (hi - lo + 1);
        hv_fix_last(v);
    }
#endif
    HV_ASSUME(v >= lo && v <= hi);
    return v;
}
static inline int64_t hv_irange(int64_t lo, int64_t hi)
{
    int64_t v = (int64_t)hv_in();
#ifdef HV_NATIVE
    extern int hv_native_random;
    if (hv_native_random && (v < lo || v > hi)) {
        extern void hv_fix_last(uint64_t v);
        uint64_t w = (uint64_t)hi - (uint64_t)lo;
        v = (w == UINT64_MAX) ? v : (int64_t)((uint64_t)lo + (uint64_t)v % (w + 1));
        hv_fix_last((uint64_t)v);
    }
#endif
    HV_ASSUME(v >= lo && v <= hi);
    return v;
}
#endif
