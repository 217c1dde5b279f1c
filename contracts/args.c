/* Contract on parse_arguments: an arbitrary argument list; every argument is any option or no option. */
#include <stdio.h>
#include "error.h"
#include "expand.h"
#include "memory.h"
#include "opcodes.h"
#include "parseargs.h"
#include "flex.h"
#include "pasm.h"
#include "sym.h"
#include "args_ghost.h"
bool log_file_is_open;
int nondet_int(void); bool nondet_bool(void); long nondet_long(void); char nondet_char(void); unsigned char nondet_uchar(void);
char g_buf[4 * MAXN + 4]; char* g_argv[MAXN];
unsigned char in_kind[MAXN];
int in_argc, g_next, e_out, e_sym, e_dir, e_log, e_list, e_c64, e_v, e_cpuspec, e_cpu, e_illegal, e_nowarn, e_nfiles, e_defs, g_defs, e_track, in_track, g_errors, g_state, e_name, e_val, g_reported, g_cur;
bool e_error, e_help; symbol_table g_symbol; long g_num;
FILE *console, *console_error, *yyout;
char *output_file_name, *sym_file_name, *directories, *log_file_name, *list_file_name; int output_file_format, input_file_count; bool verbose, ignore_warnings; char** input_files;
int allow_illegal_op_codes; cpu cpu_mode;
enum { K_file, K_help, K_h, K_o, K_s, K_dir, K_log, K_l, K_c64, K_v, K_65c02, K_6502, K_i, K_nowarn, K_d, K_max };
#define S(n) if (p[n] != q[n] && p[n] + 32 != q[n]) return false; if (!p[n]) return true;
static bool same(const char* p, const char* q) { S(0) S(1) S(2) S(3) S(4) S(5) S(6) return false; }
static int kind_of(const char* s)
{
    if (s[0] != '-' && s[0] != '/') return K_max;
    s++;
    int k; const char* t;
    switch (s[0])
    {
    case '?': k = K_help; t = "?"; break;
    case 'h': case 'H': k = K_h; t = "h"; break;
    case 'o': case 'O': k = K_o; t = "o"; break;
    case 's': case 'S': k = K_s; t = "s"; break;
    case 'd': case 'D': if (s[1] == 0) { k = K_d; t = "d"; } else { k = K_dir; t = "dir"; } break;
    case 'l': case 'L': if (s[1] == 0) { k = K_l; t = "l"; } else { k = K_log; t = "log"; } break;
    case 'c': case 'C': k = K_c64; t = "c64"; break;
    case 'v': case 'V': k = K_v; t = "v"; break;
    case '6': if (s[1] == '5' && s[2] != '0') { k = K_65c02; t = "65c02"; } else { k = K_6502; t = "6502"; } break;
    case 'i': case 'I': k = K_i; t = "i"; break;
    case 'n': case 'N': k = K_nowarn; t = "nowarn"; break;
    default: return K_max;
    }
    return same(s, t) ? k : K_max;
}
static void text_option(int* e, int at)
{
    if (at + 1 >= in_argc || *e) { e_error = true; return; }
    *e = at + 1; g_next = at + 2;
}
static void flag_option(int* e) { if (*e) e_error = true; *e = 1; }
/* the next argument: what it should do */
static void step(int at)
{
    __CPROVER_assert(!e_error && !e_help, "nothing is looked at after an error");
    __CPROVER_assert(AGREE, "the options so far have set exactly their own settings");
    __CPROVER_assert(at < in_argc, "an argument");
    g_cur = at; g_next = at + 1;
    switch (in_kind[at] >> 1)
    {
    case K_help: case K_h: e_help = true; break;
    case K_o: text_option(&e_out, at); break;
    case K_s: text_option(&e_sym, at); break;
    case K_dir: text_option(&e_dir, at); break;
    case K_log: text_option(&e_log, at); break;
    case K_l: text_option(&e_list, at); break;
    case K_c64: flag_option(&e_c64); break;
    case K_v: flag_option(&e_v); break;
    case K_65c02: flag_option(&e_cpuspec); e_cpu = cpu_65C02; break;
    case K_6502: flag_option(&e_cpuspec); e_cpu = cpu_6502; break;
    case K_i: flag_option(&e_illegal); break;
    case K_nowarn: flag_option(&e_nowarn); break;
    case K_d:
        if (at + 2 >= in_argc) { e_error = true; break; }
        e_name = at + 1; e_val = at + 2; g_next = at + 3; e_defs++;
        break;
    default: if (e_nfiles == in_track) e_track = at; e_nfiles++; break;
    }
}
int stricmp(char const* x, char const* lit)
{
    __CPROVER_assert(__CPROVER_same_object(x, g_buf) && __CPROVER_POINTER_OFFSET(x) % 4 == 0, "model: an argument is compared");
    int at = (int)(__CPROVER_POINTER_OFFSET(x) / 4);
    int k = kind_of(lit);
#ifdef STEP_ANY
    if (at != g_cur)
#else
    if (k != K_help || lit[0] != '-') __CPROVER_assert(at == g_cur, "compared with -? first");    /* not a property: otherwise the bounded form of this job decides */
    else
#endif
    {
        __CPROVER_assert(at == g_next, "the arguments are taken in order, none left out");
        step(at);
    }
    __CPROVER_assert(k < K_max, "model: a documented option");
    return in_kind[at] == 2 * k + (lit[0] == '/') ? 0 : 1;
}
long strtol(const char* p, char** end, int base)
{
    const char* v = ARG(e_val);
    int skip = v[0] == '$' || v[0] == '%' ? 1 : v[0] == '0' && (v[1] == 'x' || v[1] == 'b') ? 2 : 0;
    int b = v[0] == '$' ? 16 : v[0] == '%' ? 2 : skip == 2 ? (v[1] == 'x' ? 16 : 2) : 10;
    __CPROVER_assert(g_next == e_val + 1 && p == v + skip && base == b, "the digits of the value, in its notation");
    bool whole = nondet_bool();
    g_num = nondet_long();
    if (skip == 2 && v[2] == 0) whole = false;
    if (end) *end = (char*)(whole ? &v[3] : nondet_bool() ? p : nondet_bool() ? &v[skip ? 2 : 1] : p);
    if (!end || *end == p || **end != 0 || g_num != (int)g_num) e_error = true;
    return g_num;
}
symbol_table_ptr add_symbol(const char* name)
{
    __CPROVER_assert(g_next == e_val + 1 && name == ARG(e_name), "the symbol named");
    g_symbol.is_initialized = false; g_symbol.times_accessed = 0;
    return &g_symbol;
}
symbol_table_ptr set_symbol_value(symbol_table_ptr s, int v)
{
    __CPROVER_assert(s == &g_symbol && !e_error && v == (int)g_num && g_num == v, "gets the exact value");
    g_defs++;
    if (nondet_bool()) { e_error = true; g_errors++; return 0; }    /* out of range: an error was reported */
    return s;
}
int fprintf(FILE* f, const char* fmt, ...) { return 0; }
void error(int n) { g_errors++; }
void usage(void) { }
void init_expander(void) { }
void exit(int c)
{
    if (c == 0) __CPROVER_assert(e_help && !e_error && g_errors == 0, "only help ends without failure");
    else
    {
        __CPROVER_assert((c & 255) != 0 && !e_help, "a failure status");
        __CPROVER_assert(e_error || input_files == NULL || (g_next >= in_argc && e_nfiles == 0), "only bad arguments are rejected");
        __CPROVER_assert(g_errors > 0, "the error is reported");
    }
    __CPROVER_assume(0);
}
void harness(void)
{
    g_next = 1; g_cur = 0; e_out = e_sym = e_dir = e_log = e_list = e_c64 = e_v = e_cpuspec = e_illegal = e_nowarn = e_nfiles = e_defs = g_defs = e_track = g_errors = 0; e_error = e_help = false;
    e_cpu = cpu_6502;
    output_file_name = sym_file_name = directories = log_file_name = list_file_name = 0; output_file_format = bin; input_file_count = 0; verbose = ignore_warnings = allow_illegal_op_codes = false;
    cpu_mode = nondet_bool() ? cpu_6502 : cpu_65C02; g_symbol.is_initialized = false; g_symbol.times_accessed = 0;
    in_argc = nondet_int(); __CPROVER_assume(in_argc >= 1 && in_argc <= MAXN);
    in_track = nondet_int(); __CPROVER_assume(in_track >= 0 && in_track < MAXN);
    for (int k = 0; k < MAXN; k++)
    {
        g_argv[k] = &g_buf[4 * k]; g_buf[4 * k + 3] = 0;
        in_kind[k] = nondet_uchar(); __CPROVER_assume(in_kind[k] < 2 * K_max && in_kind[k] != 1);
    }
    int r = parse_arguments(in_argc, g_argv);
    __CPROVER_assert(g_next >= in_argc, "every argument was looked at");
    __CPROVER_assert(AGREE && !e_error && !e_help, "every option has set its own setting, and none was bad");
    __CPROVER_assert(r == e_nfiles && r > 0, "the number of source files");
    __CPROVER_assert(in_track >= e_nfiles || input_files[in_track] == ARG(e_track), "each source file in its place");
    __CPROVER_assert(e_defs == 0 || (g_symbol.is_initialized && g_symbol.times_accessed >= 1000), "a symbol defined is in use");
    __CPROVER_assert(0, "vt_reach");
}
