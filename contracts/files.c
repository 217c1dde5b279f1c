/* Contracts on the search for files and on inclusion (file.cc, the end-of-file rule of pasm.l). */
#include <stdio.h>
#include "error.h"
#include "file.h"
#include "flex.h"
#include "memory.h"
#include "node.h"
#include "pasm.h"
#include "stacks.h"
#include "pasm.tab.h"
bool log_file_is_open;
int nondet_int(void); bool nondet_bool(void); char nondet_char(void);
int error_count; void error(int n) { error_count++; } void error2(int n, const char* p) { error_count++; }
#ifdef H_search
#define ND 6
char* directories;
char in_dirs[ND + 1], in_file[3]; char cand[ND + 1][ND + 5]; int n_cand, g_call; bool g_found; static char handle[ND + 2];
int in_hit;     /* the first place where the file is; -1: nowhere */
void exit(int c) { __CPROVER_assert(0, "short names are not too long"); __CPROVER_assume(0); }
FILE* fopen(const char* name, const char* mode)
{
    __CPROVER_assert(!g_found, "nothing is opened after the file was found");
    __CPROVER_assert(g_call < n_cand, "only in the places given");
    __CPROVER_assert(mode[0] == 'r' && mode[1] == 'b' && mode[2] == 0, "as asked");
    for (int k = 0; k < ND + 5; k++)
    {
        __CPROVER_assert(name[k] == cand[g_call][k], "the places are tried in the order given, each with the name of the file");
        if (!cand[g_call][k]) break;
    }
    g_call++;
    if (g_call - 1 == in_hit) { g_found = true; return (FILE*)&handle[g_call - 1]; }
    return 0;
}
static bool sep(char c) { return c == '/' || c == '\\'; }
void harness(void)
{
    for (int k = 0; k < ND; k++) in_dirs[k] = nondet_char();
    in_dirs[ND] = 0; in_file[0] = nondet_char(); in_file[1] = nondet_char(); in_file[2] = 0;
    __CPROVER_assume(in_file[0] != 0);
    bool have = nondet_bool();
    directories = have ? &in_dirs[0] : 0;
    /* the places: the name itself, then the name in every directory of the list */
    cand[0][0] = in_file[0]; cand[0][1] = in_file[1]; cand[0][2] = 0; n_cand = 1;
    if (have)
    {
        __CPROVER_assume(in_dirs[0] != ' ' && in_dirs[0] != '\t');
        int m = 0; bool any = false;
        for (int k = 0; k <= ND; k++)
        {
            char c = in_dirs[k];
            if (c == 0 || c == ';')
            {
                if (c == ';' || any)
                {
                    if (m > 0 && !sep(cand[n_cand][m - 1])) cand[n_cand][m++] = '/';
                    cand[n_cand][m++] = in_file[0]; cand[n_cand][m++] = in_file[1]; cand[n_cand][m] = 0;
                    n_cand++; m = 0; any = false;
                }
                if (c == 0) break;
            }
            else if (any || (c != ' ' && c != '\t')) { cand[n_cand][m++] = c; any = true; }
        }
    }
    in_hit = nondet_int(); __CPROVER_assume(in_hit >= -1 && in_hit < n_cand);
    FILE* f = open_file(in_file, "rb");
    __CPROVER_assert(g_call == (in_hit < 0 ? n_cand : in_hit + 1), "every place is tried until the file is found");
    __CPROVER_assert(f == (in_hit < 0 ? (FILE*)0 : (FILE*)&handle[in_hit]), "the file found is the one opened");
    __CPROVER_assert(open_file(0, "rb") == 0, "no name, no file");
    __CPROVER_assert(0, "vt_reach");
}
#endif
#ifdef H_include
#include "lex_rules.h"
extern int vt_start_state; extern char* yytext; YYSTYPE yylval;
/* a stack of any depth; only the entry this inclusion pushes matters: what is included inside pushes and pops its own */
FILE* yyin; int yylineno; char* current_file_name; bool final_pass; stack_ptr file_stack;
long g_depth; file_line_stack_entry g_mine, g_other; long g_mine_at; int vt_buffers; int g_opened, g_closed, g_pushed, g_popped; static stack stk; static instance_data inst; bool in_missing;
static char f_outer, f_inner; char n_outer[2], n_inner[2]; static FILE* g_buffer_file;
long st_push(instance_data_ptr i, const void* v)
{
    __CPROVER_assert(i == &inst, "the stack of files");
    if (g_depth == g_mine_at) g_mine = *(const file_line_stack_entry*)v;
    return i->index = g_depth++;
}
void* st_pop(instance_data_ptr i)
{
    if (g_depth == 0) return 0;
    i->index = --g_depth - 1;
    g_other.file = 0; g_other.line = nondet_int();
    return g_depth == g_mine_at ? &g_mine : &g_other;
}
FILE* fopen(const char* name, const char* mode)
{
    __CPROVER_assert(name == n_inner && mode[0] == 'r', "the file named");
    if (in_missing) return 0;
    g_opened++; return (FILE*)&f_inner;
}
char* directories = 0;
int fclose(FILE* f) { __CPROVER_assert(f == (FILE*)&f_inner && g_closed < g_opened, "the included file is closed, once"); g_closed++; return 0; }
YY_BUFFER_STATE yy_create_buffer(FILE* f, int size) { __CPROVER_assert(f == (FILE*)&f_inner, "its text is read next"); g_buffer_file = f; return 0; }
void yypush_buffer_state(YY_BUFFER_STATE b) { g_pushed++; vt_buffers++; }
void yypop_buffer_state(void) { g_popped++; vt_buffers--; yyin = vt_buffers > 0 ? (FILE*)&f_outer : yyin; }
int generate_list_node(parse_node_ptr p) { return 0; }
int g_exits; void exit(int c) { __CPROVER_assert(in_missing && error_count > 0 && (c & 255) != 0, "only a missing file ends the run, with an error"); __CPROVER_assume(0); }
char* last_token; void yyerror(const char* s) { error_count++; }
void* pasm_malloc(size_t n, const char* f, int l) { return malloc(n); }
void pasm_free(void* p) { }
const char* pasm_strdup(const char* s, const char* f, int l) { return s; }
symbol_table_ptr look_up_symbol(const char* n) { return 0; } char* sanitize_string(char* s) { return s; } void vt_unput(int c) { }
void harness(void)
{
    stk.instance = &inst; stk.push = st_push; stk.pop = st_pop; file_stack = &stk;
    g_depth = nondet_int(); __CPROVER_assume(g_depth >= 0 && g_depth <= 1000000); g_mine_at = g_depth; inst.index = g_depth - 1;
    long d0 = g_depth;
    vt_buffers = (int)g_depth + 1; yyin = (FILE*)&f_outer; current_file_name = n_outer; yylineno = nondet_int(); final_pass = nondet_bool(); in_missing = nondet_bool();
    vt_start_state = INITIAL; error_count = 0;
    int line = yylineno, buffers = vt_buffers;
    int r = open_include_file(n_inner);
    __CPROVER_assert(!in_missing, "a missing file is not passed over");
    __CPROVER_assert(r == 0 && error_count == 0 && g_opened == 1 && g_pushed == 1 && yyin == (FILE*)&f_inner, "the included file is read");
    __CPROVER_assert(current_file_name == n_inner && yylineno == 0, "under its own name, from its first line");
    __CPROVER_assert(g_depth == d0 + 1, "and the place to go back to is kept");
    /* the included file: any number of lines, and of inclusions that have ended */
    yylineno = nondet_int(); __CPROVER_assume(yylineno >= 0 && yylineno < 1000000);
    current_file_name = n_inner; final_pass = nondet_bool();
    int t = act_INITIAL_EOF();
    __CPROVER_assert(t == -1, "reading goes on");
    __CPROVER_assert(current_file_name == n_outer && yylineno == line, "in the file and at the line where it was left");
    __CPROVER_assert(g_depth == d0 && vt_buffers == buffers && g_popped == 1 && yyin == (FILE*)&f_outer, "with its text");
    __CPROVER_assert(g_closed == 1, "the included file is closed");
    __CPROVER_assert(0, "vt_reach");
}
#endif
#ifdef H_last
#include "lex_rules.h"
extern int vt_start_state; extern char* yytext; YYSTYPE yylval;
FILE* yyin; int yylineno; char* current_file_name; bool final_pass; stack_ptr file_stack; static stack stk; static instance_data inst; int vt_buffers, g_popped;
void* st_pop(instance_data_ptr i) { __CPROVER_assert(0, "nothing to go back to"); return 0; }
int fclose(FILE* f) { __CPROVER_assert(0, "the source file is closed by the pass"); return 0; }
void yypop_buffer_state(void) { g_popped++; vt_buffers--; }
int generate_list_node(parse_node_ptr p) { return 0; }
char* last_token; void yyerror(const char* s) { error_count++; }
void* pasm_malloc(size_t n, const char* f, int l) { return malloc(n); }
void pasm_free(void* p) { }
const char* pasm_strdup(const char* s, const char* f, int l) { return s; }
symbol_table_ptr look_up_symbol(const char* n) { return 0; } char* sanitize_string(char* s) { return s; } void vt_unput(int c) { }
char nm[2];
void harness(void)
{
    stk.instance = &inst; stk.pop = st_pop; file_stack = &stk; inst.index = -1; vt_buffers = 1; yyin = (FILE*)&nm; current_file_name = nm; yylineno = nondet_int(); final_pass = nondet_bool();
    __CPROVER_assume(yylineno < 1000000);
    int t = act_INITIAL_EOF();
    __CPROVER_assert(t == 0 && g_popped == 1 && current_file_name == nm, "the end of a source file ends its parse");
    __CPROVER_assert(0, "vt_reach");
}
#endif
