/* failing-input search for a property whose obligations could not be discharged: random calls of the real functions against an
 * independent oracle (never counts as proof).  bat PROPERTY SECS SEED: exit 9 and a description when an input fails. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stddef.h>
#include <math.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <hob3lbase/base-def.h>
#include <hob3lbase/arith.h>
#include <hob3lbase/alloc.h>
#include <hob3lbase/pool.h>
#include <hob3lbase/vec.h>
#include <hob3lbase/vchar.h>
#include <hob3lbase/heap.h>
#include <hob3lbase/dict.h>
#include <hob3lop/gon.h>
#include <hob3lop/hedron.h>
#include <hob3lop/op-slice.h>
#include <hob3l/syn.h>
#include <hob3l/syn-msg.h>
static uint64_t rs; static uint64_t it; static char const *pid; static uint64_t seed;
static uint64_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545F4914F6CDD1DULL >> 11; }
static uint64_t below(uint64_t n) { return rnd() % n; }
static void fail(char const *what) { printf("BAT_FAIL %s: %s (iteration %llu of seed %llu)\n", pid, what, (unsigned long long)it, (unsigned long long)seed); fflush(stdout); _exit(9); }
static void onsig(int s) { (void)s; fail("the real code aborted"); }
#define CHECK(x) ((x) ? (void)0 : fail(#x))

struct e { int key; size_t idx; };
static int user;
static int cmp(size_t const *a, size_t const *b, void *u) { CHECK(u == &user); int x = ((struct e const*)((char const*)a - offsetof(struct e, idx)))->key, y = ((struct e const*)((char const*)b - offsetof(struct e, idx)))->key; return (x > y) - (x < y); }
static void heapchk(cp_heap_t *h, struct e *e, bool *in, size_t n)
{
    size_t m = 0;
    for (size_t i = 0; i < n; i++) { m += in[i]; if (in[i]) CHECK(e[i].idx < h->size && h->data[e[i].idx] == &e[i].idx); else CHECK(!cp_heap_is_member(&e[i].idx)); }
    CHECK(h->size == m && h->alloc >= m);
    for (size_t i = 1; i < m; i++) CHECK(cmp(h->data[(i - 1) / 2], h->data[i], &user) <= 0);
    CHECK(cp_heap_min(h) == (m ? h->data[0] : NULL));
}
static int cmpi(int const *a, int const *b, void *u) { CHECK(u == &user); return (*a > *b) - (*a < *b); }
static int qi(void const *a, void const *b) { return (*(int const*)a > *(int const*)b) - (*(int const*)a < *(int const*)b); }
static void p09(void)
{
    size_t n = 1 + below(24); struct e e[24]; bool in[24] = { 0 }; cp_heap_t h = { 0 }; int kr = 1 + (int)below(30);
    for (size_t i = 0; i < n; i++) { e[i].key = (int)below((uint64_t)kr); e[i].idx = CP_HEAP_NO_IDX; }
    if (below(3) == 0) {
        for (size_t i = 0; i < n; i++) if (below(3)) { cp_v_push(&h, &e[i].idx); in[i] = 1; }
        cp_heap_make_(&h, cmp, &user); heapchk(&h, e, in, n);
    }
    for (int s = 0; s < 40; s++) {
        size_t i = below(n), j = below(n);
        switch (below(5)) {
        case 0: if (!in[i]) { cp_heap_insert(&h, cmp, &user, &e[i].idx); in[i] = 1; } break;
        case 1: if (in[i]) { CHECK(cp_heap_remove(&h, cmp, &user, e[i].idx) == &e[i].idx); in[i] = 0; } break;
        case 2: { size_t *x = cp_heap_extract(&h, cmp, &user); if (x == NULL) { for (size_t k = 0; k < n; k++) CHECK(!in[k]); } else {
            struct e *y = (struct e*)((char*)x - offsetof(struct e, idx)); CHECK(in[y - e]); in[y - e] = 0; for (size_t k = 0; k < n; k++) CHECK(!in[k] || e[k].key >= y->key); } break; }
        case 3: if (in[i]) { e[i].key = (int)below((uint64_t)kr); cp_heap_update(&h, cmp, &user, e[i].idx); } break;
        case 4: if (in[i] && !in[j]) { CHECK(cp_heap_replace(&h, cmp, &user, e[i].idx, &e[j].idx) == &e[i].idx); in[i] = 0; in[j] = 1; } break;
        }
        heapchk(&h, e, in, n);
    }
    cp_v_fini(&h);
    CP_VEC_T(int) v = { 0 }; int ref[24]; size_t m = 0, k = below(24);
    for (size_t i = 0; i < k; i++) { int x = (int)below(20); cp_v_push(&v, x); ref[m++] = x; }
    cp_v_heap_make(&v, cmpi, &user);
    for (int s = 0; s < 20; s++) {
        CHECK(v.size == m); for (size_t i = 1; i < m; i++) CHECK(v.data[(i - 1) / 2] <= v.data[i]);
        int t[24]; memcpy(t, v.data, m * sizeof(int)); qsort(t, m, sizeof(int), qi); qsort(ref, m, sizeof(int), qi); CHECK(memcmp(t, ref, m * sizeof(int)) == 0);
        if (below(2) && m < 24) { int x = (int)below(20); cp_v_heap_insert(&v, cmpi, &user, x); ref[m++] = x; }
        else if (m) { int x = cp_v_heap_extract(&v, cmpi, &user); CHECK(x == ref[0]); memmove(ref, ref + 1, --m * sizeof(int)); }
    }
    cp_v_fini(&v);
}
typedef struct { unsigned char b[40]; } blob_t;
static void p10(void)
{
    size_t esz = 1 + below(40); unsigned char a[80], b[80], x[80], y[80];
    for (int i = 0; i < 80; i++) { a[i] = x[i] = (unsigned char)rnd(); b[i] = y[i] = (unsigned char)rnd(); }
    cp_memswap(x + 8, y + 8, esz);
    for (size_t i = 0; i < 80; i++) { bool in = i >= 8 && i < 8 + esz; CHECK(x[i] == (in ? b[i] : a[i]) && y[i] == (in ? a[i] : b[i])); }
    if (below(2)) { memcpy(x, a, 80); cp_memswap(x + 8, x + 8, esz); CHECK(memcmp(x, a, 80) == 0); }
    size_t n = below(30);
#define REV(T) do { CP_VEC_T(T) v = { 0 }; T r[30]; for (size_t i = 0; i < n; i++) { T q; for (size_t k = 0; k < sizeof(T); k++) ((char*)&q)[k] = (char)rnd(); r[i] = q; cp_v_push(&v, q); } \
        size_t p = below(n + 1), s = below(n - p + 1); cp_v_reverse(&v, p, s); CHECK(v.size == n); \
        for (size_t i = 0; i < n; i++) CHECK(memcmp(&v.data[i], &r[i >= p && i < p + s ? p + s - 1 - (i - p) : i], sizeof(T)) == 0); cp_v_fini(&v); } while (0)
    typedef struct { int a[3]; } t12; typedef struct { char a[5]; } t5; typedef struct { long a[2]; } t16;
    switch (below(6)) { case 0: REV(char); break; case 1: REV(uint64_t); break; case 2: REV(t12); break; case 3: REV(t5); break; case 4: REV(t16); break; case 5: REV(blob_t); break; }
#undef REV
}
static void p12(void)
{
    cp_pool_t p; memset(&p, 0, sizeof(p)); cp_pool_init(&p);
    struct { unsigned char *p; size_t n; } blk[64]; size_t nb = 0;
    for (int s = 0; s < 60; s++) {
        if (below(25) == 0) { cp_pool_clear(&p); nb = 0; }
        size_t n = below(9), sz = 1 + below(below(4) ? 40 : 9000), al = (size_t)1 << below(9);
        unsigned char *q = cp_pool_calloc("", 1, &p, n, sz, al);
        if (n == 0) { CHECK(q == NULL); continue; }
        CHECK(q != NULL && (uintptr_t)q % al == 0);
        for (size_t i = 0; i < n * sz; i++) CHECK(q[i] == 0);
        for (size_t i = 0; i < nb; i++) CHECK(q + n * sz <= blk[i].p || blk[i].p + blk[i].n <= q);
        memset(q, 0x55 + s, n * sz);
        if (nb < 64) { blk[nb].p = q; blk[nb].n = n * sz; nb++; }
        if (below(4) == 0 && nb) { /* as an allocator */
            size_t k = below(nb), m = 1 + below(300); unsigned char old[4], c = (unsigned char)(0x55 + s);
            (void)k; (void)m; (void)old; (void)c;
        }
    }
    cp_pool_fini(&p);
    unsigned char *z = calloc(1, 100); size_t n = below(100), o = below(100 - n + 1), k = below(200); if (k < 100) z[k] = 1;
    CHECK(cp_mem_is0(z + o, n) == !(k >= o && k < o + n)); free(z);
}
static void p14(void)
{
    cp_syn_input_t in = { 0 }; cp_err_t err = { 0 }; size_t nf = 1 + below(3); cp_syn_file_t *f = calloc(nf, sizeof(*f)); static char text[3][12000]; size_t len[3];
    for (size_t i = 0; i < nf; i++) {
        len[i] = below(8) ? below(60) : below(12000); int al = below(3) ? 1 : 0;
        for (size_t k = 0; k < len[i]; k++) text[i][k] = al ? "ab \n\t\r\n\n"[below(8)] : (char)below(256);
        FILE *t = tmpfile(); if (t == NULL) return;
        fwrite(text[i], 1, len[i], t); rewind(t);
        CHECK(cp_syn_read(&f[i], &err, &in, NULL, "x", t));
        fclose(t);
        CHECK(f[i].content.size == len[i] && memcmp(f[i].content.data, text[i], len[i]) == 0 && f[i].content.data[len[i]] == 0);
    }
    for (size_t i = 0; i < nf; i++) {
        size_t line = 0, st = 0;
        for (size_t k = 0; k <= len[i]; k++) {
            if (k && k < len[i] && text[i][k - 1] == '\n') { line++; st = k; }
            if (len[i] > 300 && below(40)) continue;
            cp_syn_loc_t l;
            CHECK(cp_syn_get_loc(&l, &in, f[i].content.data + k));
            CHECK(l.file == &f[i]);
            if (k == len[i]) continue;
            size_t e = k; while (e < len[i] && text[i][e] != '\n') e++;
            if (e < len[i]) e++;
            CHECK(l.line == line && l.copy == f[i].content.data + st && l.copy_end == f[i].content.data + e);
            CHECK(l.orig == f[i].content_orig.data + st && l.orig_end == f[i].content_orig.data + e);
            size_t x = 0; bool pr = true;
            for (size_t q = st; q < k; q++) { unsigned char c = (unsigned char)text[i][q]; if (c == '\t') x = (x + 4) / 4 * 4; else { if (!(c == '\n' || c == '\r' || (c >= 32 && c <= 126))) pr = false; x++; } }
            if (pr && below(4) == 0) {
                cp_vchar_t pre, post; char w[100]; cp_syn_format_loc(&pre, &post, &in, f[i].content.data + k, NULL);
                snprintf(w, sizeof(w), "x:%zu:%zu:", line + 1, x + 1); CHECK(strncmp(cp_vchar_cstr(&pre), w, strlen(w)) == 0);
                cp_vchar_fini(&pre); cp_vchar_fini(&post);
            }
        }
    }
    cp_syn_loc_t l; CHECK(!cp_syn_get_loc(&l, &in, text[0]));
    for (size_t i = 0; i < nf; i++) { cp_vchar_fini(&f[i].content); cp_vchar_fini(&f[i].content_orig); cp_vchar_fini(&f[i].filename); cp_v_fini(&f[i].line); }
    cp_v_fini(&in.file); free(f);
}
static void p24(void)
{
    cp_vec3_loc_t v[12]; cp_vec3_loc_ref_t r[12]; size_t n = 3 + below(8); int big = below(2) ? 40 : 4000000; long c[12][3];
    memset(v, 0, sizeof(v)); memset(r, 0, sizeof(r));
    for (size_t i = 0; i < n; i++) {
        for (int k = 0; k < 3; k++) { c[i][k] = (long)below((uint64_t)big) - big / 2; if (k == 2 && i && below(3) == 0) c[i][k] = c[i - 1][k]; v[i].coord.v[k] = (double)c[i][k] / cq_dim_scale; }
        r[i].ref = &v[i];
    }
    long z = below(2) ? c[below(n)][2] : (long)below((uint64_t)big) - big / 2;
    cp_a_vec3_loc_ref_t f; f.data = r; f.size = n;
    cq_v_line2_t q = { 0 }; cq_slice_t s; cq_slice_init(&s, &q, (double)z / cq_dim_scale); cq_slice_add_face(&s, &f);
    size_t m = 0; bool used[24] = { 0 };
    for (size_t i = 0; i < n; i++) {
        long *a = c[i], *b = c[(i + 1) % n]; if (a[2] > b[2]) { long *t = a; a = b; b = t; }
        if (!(a[2] <= z && b[2] > z)) continue;
        m++; long dz = b[2] - a[2]; bool hit = false;
        for (size_t k = 0; k < s.out->size; k++) {
            cq_vec2_t *o = &s.out->data[k]; bool ok = true;
            for (int d = 0; d < 2; d++) { long num = a[d] * (b[2] - z) + b[d] * (z - a[2]), w = 2 * ((d ? o->y : o->x) * dz - num); ok = ok && w <= dz && -w <= dz; }
            if (ok) { used[k] = true; hit = true; }
        }
        if (!hit) fail("a cut point is missing or off its edge");
    }
    if (s.out->size != m) fail("points that are no cut points");
    for (size_t k = 0; k < m; k++) CHECK(used[k]);
    cq_slice_fini(&s);
    cp_v_fini(&q);
}
/* red-black trees: insertion at arbitrary places, lookup and iteration against a list in order */
struct dn { cp_dict_t d; int key; };
#define DN(x) ((struct dn*)((char*)(x) - offsetof(struct dn, d)))
static int dcmp(void *k, cp_dict_t *n, void *u) { CHECK(u == &user); return (*(int*)k > DN(n)->key) - (*(int*)k < DN(n)->key); }
static size_t dchk(cp_dict_t *n, cp_dict_t *p, struct dn **l, size_t *m, size_t cnt)
{
    if (n == NULL) return 0;
    CHECK(n->parent == p && *m < cnt);
    CHECK(p == NULL || !cp_dict_is_red(n) || !cp_dict_is_red(p));
    size_t a = dchk(n->edge[0], n, l, m, cnt);
    CHECK(*m < cnt && l[*m] == DN(n)); (*m)++;
    size_t b = dchk(n->edge[1], n, l, m, cnt);
    CHECK(a == b && cp_dict_black_height(n) == a + !cp_dict_is_red(n));
    return a + !cp_dict_is_red(n);
}
static void p08(void)
{
    enum { N = 200 }; static struct dn e[N]; static struct dn *l[N]; size_t n = 1 + below(below(4) ? 30 : N), cnt = 0; cp_dict_t *root = NULL; int kr = 1 + (int)below(60); bool keys = below(2);
    memset(e, 0, sizeof(e));
    for (size_t i = 0; i < n; i++) {
        struct dn *x = &e[i]; cp_dict_ref_t ref; memset(&ref, 0, sizeof(ref)); size_t at;
        x->key = (int)below((uint64_t)kr);
        if (keys) {
            int dup = (int)below(5) - 2;
            cp_dict_t *f = cp_dict_find_ref_(&ref, &x->key, root, dcmp, &user, dup);
            size_t lo = 0, hi; while (lo < cnt && l[lo]->key < x->key) lo++;
            hi = lo; while (hi < cnt && l[hi]->key == x->key) hi++;
            if (dup == 0) { CHECK((f != NULL) == (lo < hi)); if (f) { CHECK(DN(f)->key == x->key); continue; } at = lo; }
            else {
                if (dup == 2 || dup == -2) CHECK(lo < hi ? f == &l[dup > 0 ? hi - 1 : lo]->d : f == NULL); else CHECK(f == NULL);
                at = dup > 0 ? hi : lo;
            }
        }
        else if (cnt == 0 || below(5) == 0) { ref.child = below(2); at = ref.child ? 0 : cnt; }
        else { size_t k = below(cnt); ref.parent = &l[k]->d; ref.child = below(2); at = k + ref.child; }
        cp_dict_insert_ref_aug(&x->d, &ref, &root, NULL);
        memmove(l + at + 1, l + at, (cnt - at) * sizeof(*l)); l[at] = x; cnt++;
        size_t m = 0; dchk(root, NULL, l, &m, cnt); CHECK(m == cnt);
        size_t q = below(cnt); CHECK(cp_dict_root(&l[q]->d) == root);
        CHECK(cp_dict_step(&l[q]->d, 0) == (q + 1 < cnt ? &l[q + 1]->d : NULL)); CHECK(cp_dict_step(&l[q]->d, 1) == (q ? &l[q - 1]->d : NULL));
        CHECK(cp_dict_start(root, 0) == &l[0]->d && cp_dict_start(root, 1) == &l[cnt - 1]->d);
    }
}
int main(int argc, char **argv)
{
    if (argc < 4) return 2;
    pid = argv[1]; double secs = atof(argv[2]); seed = strtoull(argv[3], 0, 10); rs = seed * 0x9E3779B97F4A7C15ULL + 88172645463325252ULL; if (!rs) rs = 1;
    signal(SIGABRT, onsig); signal(SIGSEGV, onsig); signal(SIGFPE, onsig);
    void (*f)(void) = !strcmp(pid, "P08") ? p08 : !strcmp(pid, "P09") ? p09 : !strcmp(pid, "P10") ? p10 : !strcmp(pid, "P12") ? p12 : !strcmp(pid, "P14") ? p14 : !strcmp(pid, "P24") ? p24 : NULL;
    if (!f) return 2;
    struct timespec t0, t; clock_gettime(CLOCK_MONOTONIC, &t0);
    do { for (int k = 0; k < 20; k++, it++) f(); clock_gettime(CLOCK_MONOTONIC, &t); } while ((double)(t.tv_sec - t0.tv_sec) + (double)(t.tv_nsec - t0.tv_nsec) / 1e9 < secs);
    printf("BAT_OK %llu\n", (unsigned long long)it); return 0;
}
