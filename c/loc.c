/* contracts for src/hob3l/syn-msg.c and src/hob3l/syn.c:read_file (the real text is included below) */
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <assert.h>
#include "hv.h"
#ifdef LOC_READ
#include <syn.c>
#else
#include <syn-msg.c>
#endif
#ifdef HV_CBMC
#define BIG (1ULL << 40)
static char *g_mem, *g_orig; static char const **g_lines; static size_t g_n, g_k;

#ifndef LOC_READ
/* ---------------------------------------------------------------- the search: from the two outermost entries alone it finds the enclosing line */
static size_t g_span; static bool g_iter;
bool inv_bs(size_t a, size_t b, char const *key)
{
    bool ok = a <= b && b <= g_n && a < g_n && g_lines[a] <= key && (b == g_n || key < g_lines[b]);
    if (hv_assuming()) { g_span = b - a; g_iter = 1; } else if (g_iter) ok = ok && b - a < g_span;     /* it terminates */
    return ok;
}
void h_search(void)
{
    g_n = hv_range(1, BIG); g_k = hv_range(0, BIG); size_t m = hv_range(1, BIG);
    g_mem = hv_dyn(m, 1); g_lines = hv_dyn(g_n, sizeof(char*)); hv_dyn_ptr(g_lines, 0, g_mem);
    HV_ASSUME(g_k < m);
    char const *key = g_mem + g_k;
    HV_ASSUME(g_lines[0] <= key && key <= g_lines[g_n - 1]);
    struct { char const **data; size_t size, alloc; } v = { g_lines, g_n, g_n };
    size_t r = cp_v_bsearch(key, &v, cmp_line, v.data + v.size);
    HV_ENSURE("search.finds_a_line", r < g_n);
    if (r + 1 < g_n) HV_ASSUME(g_lines[r] < g_lines[r + 1]);      /* precondition: ascending (cut.ascending) */
    HV_ENSURE("search.line_starts_at_or_before_position", g_lines[r] <= key);
    HV_ENSURE("search.next_line_starts_after_position", r + 1 == g_n || key < g_lines[r + 1]);
    HV_REACH("search");
}

/* ---------------------------------------------------------------- the lookup over all files */
static cp_syn_file_t **g_fp; static size_t g_m, g_mo, g_nl, g_fn, g_q; static char const *g_tok; static size_t g_r; static int g_found;
static bool holds(cp_syn_file_t *f) { return g_tok >= f->content.data && g_tok <= f->content.data + f->content.size; }
/* what read_file establishes for a file (checked in group "cut") */
static bool file_ok(cp_syn_file_t *f)
{
    return (size_t)(f->content.data - g_mem) + f->content.size < g_m && (size_t)(f->line.data - g_lines) + f->line.size <= g_nl && f->content.size <= (size_t)BIG && (size_t)(f->content_orig.data - g_orig) + f->content.size < g_mo && f->line.size >= 1 && f->line.size < BIG && f->content.size < BIG && f->line.data[0] == f->content.data && f->line.data[f->line.size - 1] == f->content.data + f->content.size;
}
size_t c_bs(const void *key, const void *base, size_t n, size_t size, int (*cmp)(void const *, void const *, void *), void *user)
{
    char const **l = (char const **)base;
    HV_ENSURE("lookup.searches_for_the_token", key == g_tok && size == sizeof(char*) && (void*)cmp == (void*)cmp_line && user == (void*)(l + n));
    HV_ENSURE("lookup.search_precondition", n >= 1 && l[0] <= g_tok && g_tok <= l[n - 1]);
    size_t r = hv_u64(); HV_ASSUME(r < n && l[0] <= l[r]);       /* ascending: cut.ascending */
    HV_ASSUME(l[r] <= g_tok); if (r + 1 < n) HV_ASSUME(g_tok < l[r + 1]);
    g_r = r; g_found++;
    return r;
}
bool inv_files(size_t i)
{
    if (hv_assuming() && i < g_fn) HV_ASSUME(file_ok(g_fp[i]));
    return i <= g_fn && g_found == 0 && !(g_q < i && holds(g_fp[g_q]));
}
void h_lookup(void)
{
    g_fn = hv_range(0, BIG); g_q = hv_range(0, BIG); HV_ASSUME(g_fn == 0 || g_q < g_fn); size_t nf = hv_range(1, BIG), nl = hv_range(1, BIG), m = hv_range(1, BIG), mo = hv_range(1, BIG), tk = hv_range(0, BIG); g_m = m; g_mo = mo; g_nl = nl;
    g_mem = hv_dyn(m, 1); g_orig = hv_dyn(mo, 1); g_lines = hv_dyn(nl, sizeof(char*)); hv_dyn_ptr(g_lines, 0, g_mem);
    cp_syn_file_t *fs = hv_dyn(nf, sizeof(cp_syn_file_t));
    hv_dyn_ptr(fs, offsetof(cp_syn_file_t, content.data), g_mem); hv_dyn_ptr(fs, offsetof(cp_syn_file_t, content_orig.data), g_orig);
    hv_dyn_ptr(fs, offsetof(cp_syn_file_t, line.data), g_lines);
    g_fp = hv_dyn(g_fn, sizeof(cp_syn_file_t*)); hv_dyn_ptr(g_fp, 0, fs);
    HV_ASSUME(tk < m); g_tok = g_mem + tk;
    cp_syn_input_t in; in.file.data = g_fp; in.file.size = g_fn;
    cp_syn_loc_t loc;
    bool ok = cp_syn_get_loc(&loc, &in, g_tok);
    HV_ENSURE("lookup.fails_only_outside_all_files", ok || g_fn == 0 || !holds(g_fp[g_q]));
    HV_ENSURE("lookup.position_kept", loc.loc == g_tok);
    if (ok) {
        cp_syn_file_t *f = loc.file;
        HV_ENSURE("lookup.file_contains_position", g_found == 1 && holds(f));
        HV_ENSURE("lookup.line_found_by_search", loc.line == g_r && loc.line < f->line.size);
        HV_ENSURE("lookup.line_start", loc.copy == f->line.data[loc.line] && loc.copy <= g_tok);
        HV_ENSURE("lookup.line_end", loc.line + 1 < f->line.size ? loc.copy_end == f->line.data[loc.line + 1] && g_tok < loc.copy_end : loc.copy_end == loc.copy && g_tok == loc.copy);
        HV_ENSURE("lookup.original_line", loc.orig - f->content_orig.data == loc.copy - f->content.data && loc.orig_end - loc.orig == loc.copy_end - loc.copy);
        HV_REACH("lookup.found");
    }
    else HV_REACH("lookup.not_found");
}

/* ---------------------------------------------------------------- the column: the caret is placed under the character */
static cp_vchar_t g_out; static size_t g_old, g_want, g_len; static char const *g_src;
void c_put(cp_vchar_t *v, char const *data, size_t n) { (void)data; HV_ENSURE("column.writes_to_output", v == &g_out); v->size += n; }
void c_msg(cp_vchar_t *v, char const *form) { (void)form; HV_ENSURE("column.writes_to_output", v == &g_out); v->size += 14; }
static bool inside(void) { return g_tok >= g_src && g_tok < g_src + g_len; }
bool inv_chars(char const *i, size_t x, size_t *pos, cp_vchar_t *out, size_t old)
{
    if (hv_assuming() && i == g_tok) HV_ASSUME(out->size - old == g_want);      /* g_want: the output column of the character (it occurs once) */
    return out == &g_out && old == g_old && i >= g_src && i <= g_src + g_len && out->size >= old && out->size - old == x && x <= 4 * (size_t)(i - g_src) &&
        *pos == (inside() && i > g_tok ? g_want : CP_SIZE_MAX);
}
bool inv_tab(size_t x, cp_vchar_t *out, size_t old, size_t new_x, char const *i) { (void)i; return x <= new_x && out->size >= old && out->size - old == x; }
void h_column(void)
{
    size_t m = hv_range(1, BIG), s = hv_range(0, BIG), tk = hv_range(0, BIG); g_len = hv_range(0, 1 << 28); g_want = hv_u64();
    g_mem = hv_dyn(m, 1); HV_ASSUME(s + g_len <= m && tk < m);
    g_src = g_mem + s; g_tok = g_mem + tk; g_out.size = hv_range(0, BIG); size_t s0 = g_out.size; g_old = s0 + 1;
    size_t pos = CP_SIZE_MAX;
    bool ok = format_source_line(&g_out, &pos, g_tok, g_src, g_len);
    HV_ENSURE("column.position_set_only_for_character_in_line", pos == CP_SIZE_MAX || inside());
    HV_ENSURE("column.caret_column_is_output_column", pos == CP_SIZE_MAX || pos == g_want);
    HV_ENSURE("column.nothing_shown_for_empty_line", ok == (g_out.size > g_old));
    HV_REACH("column");
}
#else
/* ---------------------------------------------------------------- reading a file and cutting it into lines */
static cp_syn_file_t g_f; static FILE *g_file; static size_t g_total, g_m, g_nl; static char g_nm[2]; static int g_stage; static bool g_hit, g_eof; static size_t g_cnt; static unsigned char g_mark;
size_t c_fread(void *p, size_t s, size_t n, FILE *f)
{
    HV_ENSURE("read.reads_bytes_of_the_file", s == 1 && f == g_file && g_stage == 0 && g_cnt == 0);
    size_t r = (size_t)hv_range(0, n); HV_ASSUME(r <= n && g_total + r < BIG); g_mark = (unsigned char)hv_range(0, 255); *(unsigned char*)p = g_mark; g_cnt = r; g_eof = r == 0 && hv_bool(); return r;
}
int c_feof(FILE *f) { HV_ENSURE("read.asks_the_file", f == g_file); return g_eof; }
int c_ferror(FILE *f) { (void)f; return 1; }
char *c_strerror(int e) { (void)e; return ""; }
void c_err(cp_vchar_t *v, char const *form, ...) { (void)v; (void)form; }
void c_append(cp_vchar_t *v, char const *d, size_t n)
{
    if (v != &g_f.content && v != &g_f.content_orig) { HV_ENSURE("read.only_names_otherwise", g_stage == 0 && n == 1); v->data = (char*)g_nm; return; }
    if (v == &g_f.content && g_stage == 0 && g_cnt != 0) {          /* a chunk as read */
        HV_ENSURE("read.chunk_appended_in_full", *(unsigned char const *)d == g_mark && n == g_cnt);
        v->size += n; g_total += n; g_cnt = 0;
    }
    else if (v == &g_f.content) {
        HV_ENSURE("read.terminated", g_stage == 0 && n == 1 && *d == 0 && v->size == g_total);
        v->data = g_mem; v->size++; g_stage = 1;                    /* now at its final address; it holds the whole text */
        HV_ASSUME(g_m == g_total + 1);
    }
    else {
        HV_ENSURE("read.copy_kept", v == &g_f.content_orig && g_stage == 1 && d == g_mem && n == g_total);
        g_stage = 2;
    }
}
void c_nofini(cp_vchar_t *v) { v->size = 0; }
void *c_ins(cp_alloc_t *m, cp_v_t *v, size_t esz, size_t pos, void const *data, size_t n)
{
    (void)m;
    char const *p = *(char const * const *)data;
    HV_ENSURE("cut.appends_to_line_table", g_stage == 2 && v == (cp_v_t*)&g_f.line && esz == sizeof(char*) && n == 1 && pos == v->size);
    HV_ENSURE("cut.inside_text", p >= g_mem && p <= g_mem + g_total);
    size_t k = (size_t)(p - g_mem);
    HV_ENSURE("cut.first_line_starts_at_text_start", v->size > 0 || k == 0);
    HV_ENSURE("cut.ascending", v->size == 0 || g_lines[v->size - 1] < p);
    HV_ENSURE("cut.starts_after_newline_or_at_end", v->size == 0 || k == g_total || (k > 0 && g_mem[k - 1] == '\n'));
    if (k == g_k + 1) g_hit = 1;
    v->data = g_lines; HV_ASSUME(v->size < g_nl); g_lines[v->size] = p; v->size++;
    return v->data;
}
bool inv_read(void) { return g_stage == 0 && g_cnt == 0 && g_f.content.size == g_total && g_total < BIG && g_f.line.size == 0 && !g_hit; }
bool inv_cut(char const *i)
{
    size_t n = g_f.line.size;
    return g_stage == 2 && i >= g_mem && i <= g_mem + g_total && n >= 1 && n <= g_nl && g_f.line.data == g_lines && g_lines[0] == g_mem && g_lines[n - 1] <= i &&
        (!(g_k < (size_t)(i - g_mem) && g_mem[g_k] == '\n') || g_hit) && g_f.content.size == g_total;
}
void h_cut(void)
{
    g_m = hv_range(1, 2 * BIG); g_nl = hv_range(1, 4 * BIG); g_k = hv_range(0, BIG);
    g_mem = hv_dyn(g_m, 1); g_lines = hv_dyn(g_nl, sizeof(char*)); hv_dyn_ptr(g_lines, 0, g_mem);
    static FILE fl; g_file = &fl;
    cp_err_t err; cp_syn_input_t in;
    bool ok = read_file(&err, &in, &g_f, NULL, "x", g_file);
    HV_ENSURE("read.succeeds_only_at_end_of_file", !ok || g_eof);
    if (ok) {
        HV_ENSURE("read.whole_text", g_stage == 2 && g_f.content.size == g_total && g_f.content.data == g_mem);
        HV_ENSURE("cut.every_newline_starts_a_line", !(g_k < g_total && g_mem[g_k] == '\n') || g_hit);
        HV_ENSURE("cut.table_delimits_text", g_f.line.size >= 1 && g_lines[0] == g_mem && g_lines[g_f.line.size - 1] == g_mem + g_total);
        HV_REACH("cut");
    }
}
#endif
#endif
int main(void) { return 0; }
