/* Native driver: replays a recorded input sequence or searches with random
 * inputs for an input that falsifies the contract of HV_MAIN. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <setjmp.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>

extern void HV_MAIN(void);
int hv_native_random;
static jmp_buf env;
static char const *logpath;
static uint64_t *in; static size_t in_n, in_i;
#define LOGMAX 65536
typedef struct { uint64_t n; uint64_t v[LOGMAX]; } log_t;
static log_t *lg;
static uint64_t rs;
static uint64_t reached, rejected;

static uint64_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545F4914F6CDD1DULL; }
static int bias;
static uint64_t gen(void)
{
    uint64_t k = rnd();
    int m = bias ? bias : 1 + (int)(k % 9);
    uint64_t v = rnd();
    switch (m) {
    case 1: return v & 0xff;
    case 2: return (v % 17) - 8;
    case 3: return v;
    case 4: return (uint64_t)1 << (v % 64);
    case 5: return ((uint64_t)1 << (v % 64)) - 1 + ((v >> 32) % 3);
    case 6: return (uint64_t)(int64_t)(int32_t)(v);
    case 7: { static const uint64_t t[] = { 0, 1, (uint64_t)-1, 0x7fffffff, 0x80000000, 0xffffffff,
                0x7fffffffffffffffULL, 0x8000000000000000ULL, 0xffffffff80000000ULL, 0xffffffff80000001ULL };
              return t[v % (sizeof(t)/sizeof(t[0]))]; }
    case 8: { double d = (double)(int64_t)(v % 2001) / 16.0 - 62.5; uint64_t u; memcpy(&u, &d, 8); return u; }
    default: { uint64_t u = v; u = (u & 0x800fffffffffffffULL) | ((uint64_t)(1023 - 20 + (rnd() % 60)) << 52); return u; }
    }
}

uint64_t hv_in(void)
{
    uint64_t v;
    if (hv_native_random) { v = gen(); }
    else { v = in_i < in_n ? in[in_i] : 0; in_i++; }
    if (lg->n < LOGMAX) lg->v[lg->n++] = v;
    return v;
}
void hv_fix_last(uint64_t v) { if (lg->n) lg->v[lg->n-1] = v; }
__attribute__((noreturn)) void hv_assume_fail(void) { rejected++; longjmp(env, 1); }
__attribute__((noreturn)) void hv_stop(void) { longjmp(env, 2); }
void hv_reach(char const *n) { (void)n; reached++; }
__attribute__((noreturn)) void hv_ensure_fail(char const *name, char const *f, int l)
{
    printf("HV_FAIL %s (%s:%d)\n", name, f, l); fflush(stdout);
    _exit(9);
}
void __assert_fail(const char *e, const char *f, unsigned l, const char *fn)
{
    printf("HV_FAIL assertion: %s (%s:%u %s)\n", e, f, l, fn); fflush(stdout);
    _exit(9);
}
static void onsig(int s) { printf("HV_FAIL signal %d\n", s); fflush(stdout); _exit(9); }

int main(int argc, char **argv)
{
    if (argc < 4) { fprintf(stderr, "usage: replay F LOG | random SECS SEED LOG\n"); return 2; }
    signal(SIGFPE, onsig); signal(SIGSEGV, onsig); signal(SIGABRT, onsig); signal(SIGILL, onsig); signal(SIGBUS, onsig);
    logpath = argv[argc-1];
    int fd = open(logpath, O_RDWR|O_CREAT|O_TRUNC, 0644);
    if (fd < 0 || ftruncate(fd, sizeof(log_t)) != 0) { perror("log"); return 2; }
    lg = mmap(NULL, sizeof(log_t), PROT_READ|PROT_WRITE, MAP_SHARED, fd, 0);
    if (lg == MAP_FAILED) { perror("mmap"); return 2; }
    if (strcmp(argv[1], "replay") == 0) {
        FILE *f = fopen(argv[2], "r"); unsigned long long x;
        in = calloc(LOGMAX, 8);
        while (f && in_n < LOGMAX && fscanf(f, "%llu", &x) == 1) in[in_n++] = x;
        lg->n = 0;
        int r = setjmp(env);
        if (r == 0) HV_MAIN();
        printf("HV_OK %s\n", r == 1 ? "assumption not met" : "held"); return 0;
    }
    double secs = atof(argv[2]); rs = strtoull(argv[3], NULL, 10) * 0x9E3779B97F4A7C15ULL + 88172645463325252ULL;
    hv_native_random = 1;
    struct timespec t0, t; clock_gettime(CLOCK_MONOTONIC, &t0);
    volatile uint64_t runs = 0;
    for (;;) {
        lg->n = 0; runs++;
        bias = (runs % 3) ? 0 : 1 + (int)((runs / 3) % 9);
        if (setjmp(env) == 0) HV_MAIN();
        if ((runs & 0xff) == 0) {
            clock_gettime(CLOCK_MONOTONIC, &t);
            if ((double)(t.tv_sec - t0.tv_sec) + 1e-9*(double)(t.tv_nsec - t0.tv_nsec) > secs) break;
        }
    }
    printf("HV_OK runs=%llu rejected=%llu reached=%llu\n", (unsigned long long)runs, (unsigned long long)rejected, (unsigned long long)reached);
    return 0;
}
size_t hv_pos(void) { return lg->n; }
void hv_set_at(size_t i, uint64_t v) { if (i < lg->n) lg->v[i] = v; }
