/* Contracts on the driver (pass.cc, main.cc) and on error reporting (error.cc). */
#include <stdio.h>
#include "error.h"
#include "expand.h"
#include "file.h"
#include "flex.h"
#include "genlist.h"
#include "genoutput.h"
#include "memory.h"
#include "node.h"
#include "pasm.h"
#include "pass.h"
#include "parseargs.h"
#include "stacks.h"
#include "sym.h"
#include "pass_ghost.h"
bool log_file_is_open;
int nondet_int(void); bool nondet_bool(void); long nondet_long(void); size_t nondet_size(void);
static char dummy_file[4096];
#define A_FILE ((FILE*)dummy_file)
/* every way out other than the return of main carries a failure status */
void exit(int c) { __CPROVER_assert((c & 255) != 0, "leaving early reports failure"); __CPROVER_assume(0); }

#ifdef H_assemble
/* what a pass can do: report errors, change symbols, leave symbols unresolved */
int error_count, sym_value_changed; bool final_pass, verbose; int pass; char *log_file_name, *output_file_name, *sym_file_name, *list_file_name;
FILE *console, *console_error, *output_file, *sym_file, *list_file; int total_bytes_written; int yylineno;
int g_passes, g_finals, g_errors_ever, g_last_clean, g_unresolved, g_open, g_final_unresolved, g_asked;
bool in_plain;      /* a program without any error, resolved at once, all files can be opened and written */
static int more_errors(void) { int k = in_plain ? 0 : nondet_int(); __CPROVER_assume(k >= 0 && k < 1000); if (k) g_errors_ever = 1; return k; }
void error(int n) { error_count++; g_errors_ever = 1; }
void parse_pass(void)
{
    __CPROVER_assert(g_finals == 0, "nothing follows the final pass");
    __CPROVER_assert(!g_errors_ever, "no pass follows one with errors");
    error_count = more_errors();                                                    /* reset_lex sets it to 0 */
    sym_value_changed = in_plain ? 0 : nondet_int(); __CPROVER_assume(sym_value_changed >= 0);
    g_unresolved = in_plain ? 0 : nondet_int(); __CPROVER_assume(g_unresolved >= 0);
    g_passes++;
    if (final_pass)
    {
        __CPROVER_assert(g_last_clean, "the final pass follows one which changed no symbol, left none unresolved and reported no error");
        __CPROVER_assert(output_file_name == 0 || output_file != 0, "with the output open");
        g_finals++; g_final_unresolved = g_unresolved;
    }
    else
    {
        __CPROVER_assert(!g_last_clean, "passes end when nothing changes any more");
        __CPROVER_assert(output_file == 0, "no output before the final pass");
        g_last_clean = error_count == 0 && sym_value_changed == 0 && g_unresolved == 0;
    }
}
int unresolved_symbol_count(void) { return g_unresolved; }
void dump_unresolved_symbols(FILE* f) { } 
void dump_changed_symbols(FILE* f) { }
bool g_open_failed, g_close_failed; int g_dumped, g_listed;
FILE* fopen(const char* name, const char* mode)
{
    if (!in_plain && nondet_bool()) { g_open_failed = true; return 0; }
    __CPROVER_assert(name != 0 && (name == output_file_name || name == sym_file_name || name == list_file_name), "a file that was asked for");
    if (name == output_file_name) { __CPROVER_assert(mode[0] == 'w' && mode[1] == 'b', "the output is binary"); g_open++; }
    return A_FILE;
}
int fclose(FILE* f)
{
    if (g_open) { g_open--; if (!in_plain && nondet_bool()) { g_close_failed = true; return -1; } }
    return 0;
}
int fprintf(FILE* f, const char* fmt, ...) { return 0; }
void dump_symbols(FILE* f) { __CPROVER_assert(g_finals == 1, "symbols are shown after the final pass"); if (sym_file_name && f == sym_file) g_dumped++; error_count += more_errors(); }
void generate_list_file(FILE* f) { __CPROVER_assert(g_finals == 1, "the listing is written after the final pass"); if (list_file_name && f == list_file) g_listed++; error_count += more_errors(); }
void delete_list_table(void) { } void delete_file_lines(void) { } void reset_file_lines(void) { }
char name_o[2], name_s[2], name_l[2], name_g[2];
void harness(void)
{
    in_plain = nondet_bool();
    error_count = nondet_int(); sym_value_changed = nondet_int(); final_pass = nondet_bool(); verbose = nondet_bool(); pass = nondet_int();
    log_file_name = nondet_bool() ? &name_g[0] : 0; output_file_name = nondet_bool() ? &name_o[0] : 0;
    sym_file_name = nondet_bool() ? &name_s[0] : 0; list_file_name = nondet_bool() ? &name_l[0] : 0;
    console = console_error = (FILE*)(dummy_file + 1); sym_file = output_file = list_file = 0;
    log_file_is_open = in_plain || nondet_bool();
    bool no_log = log_file_name != 0 && !log_file_is_open;
    int r = assemble();
    if ((r & 255) == 0)
    {
        __CPROVER_assert(!g_errors_ever && error_count == 0, "success means that no error was reported");
        __CPROVER_assert(g_finals == 1, "success means that the output was generated");
        __CPROVER_assert(!g_close_failed && !g_open_failed && !no_log, "success means that the files were opened and written");
        __CPROVER_assert(g_final_unresolved == 0, "success means that no symbol is unresolved");
        __CPROVER_assert(g_open == 0, "the output is closed");
        __CPROVER_assert((sym_file_name == 0 || g_dumped == 1) && (list_file_name == 0 || g_listed == 1), "the files asked for are written");
    }
    else
        __CPROVER_assert(!in_plain, "a program without an error succeeds");
    __CPROVER_assert(g_passes <= 21, "passes stop after the limit");
    __CPROVER_assert(0, "vt_reach");
}
#endif
#ifdef H_main
int g_args, g_asm, in_parsed, in_result, g_pre;
int pre_parse(void) { g_pre++; return 0; }
int parse_arguments(int argc, char* argv[]) { __CPROVER_assert(g_pre == 1, "set up first"); g_args++; return in_parsed; }
int assemble(void) { g_asm++; return in_result; }
int pasm_main(int argc, char** argv);
void harness(void)
{
    in_parsed = nondet_int(); in_result = nondet_int(); __CPROVER_assume(in_parsed >= -1 && (in_result == 0 || in_result == -1));
    char* argv[1];
    int r = pasm_main(1, argv);
    __CPROVER_assert(g_args == 1 && g_asm == (in_parsed >= 1), "assembles exactly when the arguments ask for it");
    __CPROVER_assert(in_parsed != -1 || (r & 255) != 0, "bad arguments make the run fail");
    __CPROVER_assert(in_parsed != 0 || r == 0, "help is not a failure");
    __CPROVER_assert(in_parsed < 1 || ((r & 255) == 0) == (in_result == 0), "the status of the run is the status of the assembly");
    __CPROVER_assert(0, "vt_reach");
}
#endif
#ifdef H_error
FILE* yyin; char* current_file_name; char* internal_buffer; FILE *console, *console_error; int yylineno;
char buf[max_line_len]; char param[80]; char fname[2];
int g_out; int g_pos, g_pos0;
int fprintf(FILE* f, const char* fmt, ...) { if (f == console_error) g_out++; return 0; }
int fputs(const char* s, FILE* f) { if (f == console_error) g_out++; return 0; }
int sprintf(char* d, const char* fmt, ...) { __CPROVER_assert(d == buf, "the scratch buffer"); return 0; }
char* fgets(char* d, int n, FILE* f) { __CPROVER_assert(__CPROVER_w_ok(d, n) && f == yyin, "within the buffer"); g_pos = nondet_int(); return nondet_bool() ? d : 0; }
long ftell(FILE* f) { return g_pos; }
int fseek(FILE* f, long p, int w) { __CPROVER_assert(f == yyin && w == SEEK_SET, "an absolute position"); g_pos = (int)p; return 0; }
int feof(FILE* f) { return nondet_int(); }
void harness(void)
{
    yyin = nondet_bool() ? A_FILE : 0; current_file_name = nondet_bool() ? &fname[0] : 0;
    internal_buffer = buf; console = A_FILE; console_error = (FILE*)(dummy_file + 1);
    yylineno = nondet_int(); __CPROVER_assume(yylineno >= 0 && yylineno <= 5);
    for (int k = 0; k < 79; k++) param[k] = 'x'; 
    unsigned len = nondet_int(); __CPROVER_assume(len < 80); param[len] = 0;
    g_pos = g_pos0 = nondet_int();
    int n = nondet_int(); __CPROVER_assume(n > error_start && n < error_max);
    int before = nondet_int(); __CPROVER_assume(before >= 0 && before < 1000000); error_count = before;
    int which = nondet_int(), w = warning_count;
    if (which == 0) { error(n); __CPROVER_assert(error_count == before + 1, "error counts one error"); }
    else if (which == 1) { error2(n, param); __CPROVER_assert(error_count > before, "error2 counts an error"); }
    else if (which == 2) { yyerror("syntax error"); __CPROVER_assert(error_count == before + 1, "a syntax error counts"); }
    else { warn(n); __CPROVER_assert(error_count == before, "a warning is not an error"); }
    __CPROVER_assert(g_out > 0, "something is shown");
    __CPROVER_assert(g_pos == g_pos0, "reading goes on where it was");
    __CPROVER_assert(0, "vt_reach");
}
#endif
#ifdef H_parse_pass
/* any number of source files */
int error_count, yylineno, input_file_count; char* current_file_name; char** input_files; FILE* yyin; FILE *console, *console_error; bool final_pass, verbose; char* current_scope;
int g_parsed, g_opened, g_closed, g_freed, in_n, g_resets; bool g_is_open;
void reset_lex(void) { __CPROVER_assert(g_parsed == 0 && g_opened == 0, "the state is reset first"); g_resets++; error_count = 0; }
FILE* open_file(const char* f, const char* mode)
{
    __CPROVER_assert(g_opened < in_n && f == input_files[g_opened] && mode[0] == 'r' && g_opened == g_parsed && !g_is_open, "the next file, to read");
    if (nondet_bool()) return 0;
    g_opened++; g_is_open = true; return A_FILE;
}
void error2(int n, const char* p) { error_count++; }
int fseek(FILE* f, long p, int w) { return 0; }
int fprintf(FILE* f, const char* fmt, ...) { return 0; }
void yyrestart(FILE* f) { __CPROVER_assert(f == yyin, "reads this file"); g_closed = -1; }
int yyparse(void)
{
    __CPROVER_assert(g_opened == g_parsed + 1 && g_is_open && yyin == A_FILE && g_closed == -1, "parses the file just opened, from its start");
    __CPROVER_assert(current_file_name == input_files[g_parsed] && yylineno == 0, "with its name and line number");
    g_parsed++; g_closed = 0;
    int k = nondet_int(); __CPROVER_assume(k >= 0 && k < 10); 
    if (error_count < 1000) error_count += k;
    yylineno = nondet_int(); current_file_name = 0;
    return nondet_bool();
}
int fclose(FILE* f) { g_is_open = false; return 0; }
int generate_list_node(parse_node_ptr p) { return 0; }
void free_parse_tree(void) { g_freed++; }
void harness(void)
{
    g_parsed = g_opened = g_closed = g_freed = g_resets = 0; g_is_open = false; yyin = 0; error_count = 0;
    in_n = nondet_int(); __CPROVER_assume(in_n >= 0 && in_n <= MAXN);
    input_files = malloc((size_t)in_n * sizeof(char*)); __CPROVER_assume(input_files != NULL); input_file_count = in_n;
    final_pass = nondet_bool(); verbose = nondet_bool(); console = A_FILE; current_scope = nondet_bool() ? malloc(4) : 0;
    parse_pass();
    __CPROVER_assert(g_parsed == in_n && g_opened == in_n, "every file is parsed once, in order");
    __CPROVER_assert(g_resets == 1 && g_freed == 1 && yyin == 0 || in_n == 0, "tree freed, files closed");
    __CPROVER_assert(current_scope == 0, "no section is open after a pass");
    __CPROVER_assert(0, "vt_reach");
}
#endif
#ifdef H_reset
int error_count, sym_value_changed, program_counter, end_expansion, in_macro_definition; bool origin_specified, org_origin_specified; char *last_label, *internal_buffer;
parse_node_ptr current_node, head_node; stack_ptr changed_sym_stack, file_stack, ifdef_stack;
int g_macros, g_init, g_cleared, g_created; parse_node g_node; stack g_st[3]; instance_data g_si[3];
parse_node_ptr allocate_node(int n) { __CPROVER_assert(n == 0, "a node without children"); return &g_node; }
void reset_macro_dict(void) { g_macros++; }
void init_expander(void) { g_init++; }
static void st_clear(instance_data_ptr s) { __CPROVER_assert(s == &g_si[0] || s == &g_si[1] || s == &g_si[2], "a stack"); s->index = -1; g_cleared++; }
stack_ptr create_stack(size_t size) { int k = g_created++; __CPROVER_assert(k < 3, "three stacks"); g_st[k].instance = &g_si[k]; g_si[k].index = -1; g_si[k].item_size = size; return &g_st[k]; }
void error(int n) { error_count++; }
void harness(void)
{
    error_count = nondet_int(); sym_value_changed = nondet_int(); program_counter = nondet_int(); end_expansion = nondet_int(); in_macro_definition = nondet_int();
    origin_specified = nondet_bool(); org_origin_specified = nondet_bool(); last_label = nondet_bool() ? &dummy_file[0] : 0; 
    internal_buffer = nondet_bool() ? &dummy_file[0] : 0;
    bool have = nondet_bool();
    if (have)
    {
        changed_sym_stack = &g_st[0]; file_stack = &g_st[1]; ifdef_stack = &g_st[2];
        for (int k = 0; k < 3; k++) { g_st[k].instance = &g_si[k]; g_si[k].index = nondet_int(); g_st[k].clear = st_clear; }
    }
    reset_lex();
    __CPROVER_assert(error_count == 0 && sym_value_changed == 0, "no errors or changes yet");
    __CPROVER_assert(program_counter == 0x1000 && !origin_specified && !org_origin_specified, "every pass starts at the same address");
    __CPROVER_assert(end_expansion == 0 && in_macro_definition == 0 && last_label == 0, "outside of macros and labels");
    __CPROVER_assert(head_node == &g_node && current_node == &g_node && g_node.type == type_head_node, "an empty tree");
    __CPROVER_assert(g_macros == 1 && g_init >= 1, "macros and the evaluator start afresh");
    __CPROVER_assert(changed_sym_stack->instance->index == -1 && file_stack->instance->index == -1 && ifdef_stack->instance->index == -1, "empty stacks");
    __CPROVER_assert(internal_buffer != 0 && (internal_buffer == dummy_file || __CPROVER_OBJECT_SIZE(internal_buffer) >= max_line_len), "a line buffer");
    __CPROVER_assert(have || (g_created == 3 && ifdef_stack->instance->item_size == sizeof(int) && file_stack->instance->item_size == sizeof(file_line_stack_entry) && changed_sym_stack->instance->item_size == sizeof(symbol_table)), "stacks of their items");
    __CPROVER_assert(0, "vt_reach");
}
#endif
