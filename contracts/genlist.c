/* Contracts on the list of the rows and the listing file (genlist.cc), and on .print (expand.cc). */
#include <stdio.h>
#include "error.h"
#include "expand.h"
#include "file.h"
#include "genlist.h"
#include "node.h"
#include "pasm.h"
bool log_file_is_open;
int nondet_int(void); bool nondet_bool(void); char nondet_char(void);
#define REACH __CPROVER_assert(0, "vt_reach")
int error_count; void error(int n) { error_count++; }
void exit(int c) { __CPROVER_assert((c & 255) != 0, "only as a failure"); __CPROVER_assume(0); }
FILE* console; char* current_file_name; int yylineno; bool final_pass;
#ifndef H_print
int print_list_state;
#endif

#ifdef H_add
/* the list keeps its order, and a new row goes to its end with the text, line and state of the moment */
static list_table g_n[4], g_new; static int g_allocs; static char g_f[2], g_o[2], g_fc, g_oc;
void* vt_malloc(size_t n) { __CPROVER_assert(n >= sizeof(list_table), "room for a row"); g_allocs++; return &g_new; }
void* pasm_malloc(size_t n, const char* f, int l) { return vt_malloc(n); } void pasm_free(void* p) { } void free(void* p) { }
char* strdup(const char* s) { __CPROVER_assert(s == g_f || s == g_o, "the name and the text"); return s == g_f ? &g_fc : &g_oc; }
char* pasm_strdup(const char* s, const char* f, int l) { return strdup(s); }
int vt_fpf(FILE* f, const char* fmt, long a, long b) { return 0; }
void harness(void)
{
    int n = nondet_int(), line = nondet_int(); __CPROVER_assume(n >= 0 && n <= 4 && line > 0 && line < 1000000);
    print_list_state = nondet_bool(); error_count = 0;
    for (int k = 0; k < 4; k++) g_n[k].next = k + 1 < n ? &g_n[k + 1] : (list_table_ptr)0;
    list_head = n > 0 ? &g_n[0] : (list_table_ptr)0;
    list_table_ptr got = add_list(g_f, line, g_o);
    __CPROVER_assert(got == &g_new && g_allocs == 1 && error_count == 0, "one new row");
    __CPROVER_assert(g_new.next == 0 && g_new.filename == &g_fc && g_new.output == &g_oc && g_new.line == line && g_new.print_state == print_list_state && !g_new.list_directive, "with its text, line and state");
    __CPROVER_assert(list_head == (n > 0 ? &g_n[0] : &g_new), "the first row stays");
    for (int k = 0; k < 4; k++) if (k < n) __CPROVER_assert(g_n[k].next == (k + 1 < n ? &g_n[k + 1] : &g_new), "the rows stay in order and the new one is last");
    REACH;
}
#endif

#ifdef H_file
#define N 3
#define L 3
static list_table g_n[N]; static char g_out[N][2], g_name[2][2]; static file_line_node g_l[2][L]; static char g_text[2]; static file_entry g_e[2]; static int g_used, g_rows, in_n, in_len[2];
void* vt_malloc(size_t n) { __CPROVER_assert(n >= sizeof(file_entry) && g_used < 2, "an entry per file"); return &g_e[g_used++]; }
void* pasm_malloc(size_t n, const char* f, int l) { return vt_malloc(n); } void pasm_free(void* p) { } void free(void* p) { }
int stricmp(const char* a, const char* b) { return a[0] - b[0]; }
file_line_node* read_file_lines(const char* f) { int i = f[0] - 'a'; __CPROVER_assert(i == 0 || i == 1, "a file"); return in_len[i] > 0 ? &g_l[i][0] : (file_line_node*)0; }
static bool shown(int k) { return k < in_n && g_n[k].print_state && !g_n[k].list_directive && g_out[k][0]; }
int fputs(const char* s, FILE* f) { return 0; }
int vt_fpf(FILE* f, const char* fmt, long a, long b)
{
    const char* row = (const char*)a;
    if (fmt[0] == '%' && fmt[1] != 's' && row[0])
    {
        while (g_rows < in_n && !shown(g_rows)) g_rows++;
        __CPROVER_assert(g_rows < in_n && row == g_out[g_rows], "the rows are shown once each, in order, and no other");
        g_rows++;
    }
    return 0;
}
void harness(void)
{
    error_count = 0; in_n = nondet_int(); __CPROVER_assume(in_n >= 1 && in_n <= N); print_list_state = 1;
    for (int i = 0; i < 2; i++)
    {
        g_name[i][0] = 'a' + i; g_name[i][1] = 0; in_len[i] = nondet_int(); __CPROVER_assume(in_len[i] >= 1 && in_len[i] <= L);
        for (int k = 0; k < L; k++) { g_l[i][k].line_content = g_text; g_l[i][k].line_number = k + 1; g_l[i][k].displayed = 0; g_l[i][k].next = k + 1 < in_len[i] ? &g_l[i][k + 1] : (file_line_node*)0; }
    }
    for (int k = 0; k < N; k++)
    {
        int f = nondet_bool(); bool empty = nondet_bool();
        g_n[k].filename = f ? g_name[1] : g_name[0]; g_out[k][0] = empty ? 0 : '$'; g_out[k][1] = 0; g_n[k].output = g_out[k];
        g_n[k].line = nondet_int(); __CPROVER_assume(g_n[k].line >= 1 && g_n[k].line <= in_len[f]);
        g_n[k].print_state = nondet_bool(); g_n[k].list_directive = nondet_bool(); g_n[k].next = k + 1 < in_n ? &g_n[k + 1] : (list_table_ptr)0;
        /* job print_directive: a row with text never is the first after a change of the state */
        __CPROVER_assume(!g_out[k][0] || (g_n[k].print_state == (k > 0 ? g_n[k - 1].print_state : 1) && !g_n[k].list_directive));
    }
    list_head = &g_n[0];
    generate_list_file((FILE*)0);
    while (g_rows < in_n && !shown(g_rows)) g_rows++;
    __CPROVER_assert(g_rows == in_n && error_count == 0, "every row is shown");
    REACH;
}
#endif

#ifdef H_print
/* the last row always has the state in force, so that the rows after a change are never the first with their state */
static list_table g_last; static char g_b[16], nm[2]; static parse_node g_p; int data_size, program_counter; char* internal_buffer;
void* vt_malloc(size_t n) { return g_b; } void* pasm_malloc(size_t n, const char* f, int l) { return vt_malloc(n); } void pasm_free(void* p) { } void free(void* p) { }
void* memset(void* p, int c, size_t n) { return p; }
list_table_ptr add_list(const char* file, int line, const char* row)
{
    __CPROVER_assert(file == nm && line == yylineno && !row[0], "an empty row on the line of the source");
    g_last.print_state = print_list_state; g_last.list_directive = false; g_last.filename = nm; return &g_last;
}
void harness(void)
{
    final_pass = nondet_bool(); yylineno = nondet_int(); current_file_name = nm; nm[0] = nondet_char(); nm[1] = 0; error_count = 0;
    print_list_state = nondet_bool(); g_last.print_state = print_list_state; int old = print_list_state;
    g_p.type = type_print; g_p.pr.print_state = nondet_bool();
    expand_print_state_node(&g_p);
    __CPROVER_assert(error_count == 0 && g_last.print_state == print_list_state, "the last row has the state in force");
    __CPROVER_assert(print_list_state == (final_pass ? g_p.pr.print_state : old), "and the state is the one asked for");
    REACH;
}
#endif
