/* Contracts on the listing (node.cc: generate_list_node; genlist.cc). */
#include <stdio.h>
#include "error.h"
#include "expand.h"
#include "file.h"
#include "flex.h"
#include "genlist.h"
#include "genoutput.h"
#include "memory.h"
#include "node.h"
#include "opcodes.h"
#include "pasm.h"
#include "pasm.tab.h"
bool log_file_is_open;
int nondet_int(void); bool nondet_bool(void); char nondet_char(void);
#define REACH __CPROVER_assert(0, "vt_reach")
int error_count; void error(int n) { error_count++; }
void exit(int c) { __CPROVER_assert((c & 255) != 0, "only as a failure"); __CPROVER_assume(0); }
FILE* console; char* current_file_name; int yylineno, data_size, program_counter;
char* internal_buffer;

#if defined H_op || defined H_data || defined H_str
/* The text of a row is kept with place holders: a number or character formatted into it shows as 'H' or 'C' there and its value in g_val
   at the same place, so that the text itself has constant characters only. The buffer is zeroed by memset and only sprintf, at the end of what is there, and fillers write into it. */
#define BUF 64
static char g_buffer[BUF]; static int g_val[BUF];
static int in_value, in_pc, g_added; static char nm[2]; static parse_node g_p, g_operand; static parse_node_ptr g_ops[1]; static list_table g_node;
#define PUT(c, v) do { g_val[(d + n) - g_buffer] = (v); d[n++] = (c); } while (0)
int vt_spf(char* d, const char* f, long a1, long a2, long a3, long a4)
{
    long arg[4] = { a1, a2, a3, a4 }; int n = 0, na = 0;
    __CPROVER_assert(__CPROVER_same_object(d, g_buffer), "into the row");
    for (int k = 0; k < 16; k++)
    {
        if (!f[k]) break;
        if (f[k] != '%') { PUT(f[k], 0); continue; }
        if (f[k + 1] == '0')
        {
            int w = f[k + 2] - '0', v = (int)arg[na++]; __CPROVER_assert(f[k + 3] == 'X' && (w == 2 || w == 4), "hexadecimal");
            __CPROVER_assert(v >= 0 && v <= (w == 2 ? 0xFF : 0xFFFF), "as wide as it should be");
            if (w == 4) { PUT('H', v >> 12 & 15); PUT('H', v >> 8 & 15); }
            PUT('H', v >> 4 & 15); PUT('H', v & 15); k += 3; continue;
        }
        k++;
        if (f[k] == 'c') { PUT('C', (int)arg[na++]); continue; }
        __CPROVER_assert(f[k] == 's', "a text");
        const char* s = (const char*)arg[na++]; for (int j = 0; j < 5; j++) { if (!s[j]) break; PUT(s[j], 0); }
    }
    d[n] = 0; return n;
}
size_t strlen(const char* s) { for (int k = 0; k < BUF; k++) if (!s[k]) return k; __CPROVER_assert(0, "a row is short"); return BUF; }
void* vt_malloc(size_t n) { return &g_buffer[0]; }
void* pasm_malloc(size_t n, const char* f, int l) { return vt_malloc(n); } void pasm_free(void* p) { } void free(void* p) { }
void* memset(void* p, int c, size_t n) { __CPROVER_assert(p == &g_buffer[0] && c == 0, "an empty row"); for (int k = 0; k < BUF; k++) g_buffer[k] = 0; return p; }
int fprintf(FILE* f, const char* s, ...) { return 0; }
const char* instruction_to_string(const int i) { __CPROVER_assert(i == g_p.opcode.instruction, "the name of the instruction"); return "mne"; }
int expand_node(parse_node_ptr p) { __CPROVER_assert(p == &g_operand || p == &g_p, "the operand"); return in_value; }
/* what the row shows */
static int at; static bool ok;
static void is(char c) { if (g_buffer[at] != c) ok = false; at++; }
static void is_digit(int v) { if (g_buffer[at] != 'H' || g_val[at] != v) ok = false; at++; }
static void is_hex(int v, int w) { is('$'); if (w == 4) { is_digit(v >> 12 & 15); is_digit(v >> 8 & 15); } is_digit(v >> 4 & 15); is_digit(v & 15); }
static void skip(void) { for (int k = 0; k < 30; k++) { if (g_buffer[at] != ' ') break; at++; } }
#endif

#ifdef H_op
static int operand_bytes(int m) { switch (m) { case A: case i: return 0; case a: case ax: case ay: case aix: case ind: return 2; default: return 1; } }
int get_op_code_byte_count(const parse_node_ptr p) { return operand_bytes(p->opcode.mode); }  /* proved: job get_op_code_byte_count */
int get_op_byte_count(const parse_node_ptr p) { return operand_bytes(p->opcode.mode); }
list_table_ptr add_list(const char* file, int line, const char* row)
{
    __CPROVER_assert(file == nm && line == yylineno, "on the line of the source");
    __CPROVER_assert(row == &g_buffer[0], "the row");
    g_added++; return &g_node;
}
void harness(void)
{
    int mode = MODE, n = operand_bytes(mode);
    in_value = nondet_int(); in_pc = nondet_int(); program_counter = nondet_int(); error_count = 0; g_added = 0; data_size = nondet_int(); yylineno = nondet_int(); current_file_name = nm;
    __CPROVER_assume(in_pc >= 0 && in_pc <= 0xFFFF);
    __CPROVER_assume(n == 1 && mode != r ? in_value >= -255 && in_value <= 255 : in_value >= (mode == r ? 0 : -65535) && in_value <= 0xFFFF);      /* P02: others are errors */
    int d = in_value - (in_pc + 2);
    __CPROVER_assume(mode != r || (d >= -128 && d <= 127));                                      /* P03 */
    g_p.type = type_op_code; g_p.opcode.mode = mode; g_p.opcode.opcode = nondet_int(); __CPROVER_assume(g_p.opcode.opcode >= 0 && g_p.opcode.opcode <= 255);
    g_p.opcode.instruction = nondet_int(); g_p.opcode.program_counter = in_pc; g_ops[0] = &g_operand; g_p.op = &g_ops[0]; g_p.number_of_ops = n > 0;
    g_operand.type = type_opr;
    parse_node o = g_p;
    generate_list_node(&g_p);
    __CPROVER_assert(g_added == 1 && error_count == 0, "an instruction has one row");
    __CPROVER_assert(g_p.opcode.mode == o.opcode.mode && g_p.opcode.opcode == o.opcode.opcode && g_p.opcode.instruction == o.opcode.instruction && g_p.op == &g_ops[0] && g_ops[0] == &g_operand, "which changes nothing");
    at = 0; ok = true; is_hex(in_pc, 4); is(':'); __CPROVER_assert(ok, "with its address");
    int v = mode == r ? d & 0xFF : in_value;
    is(' '); is_hex(g_p.opcode.opcode, 2); if (n > 0) { is(' '); is_hex(v & 0xFF, 2); } if (n > 1) { is(' '); is_hex(v >> 8 & 0xFF, 2); }
    is(' '); __CPROVER_assert(ok, "and exactly the bytes that are written");
    skip(); is('m'); is('n'); is('e'); __CPROVER_assert(ok, "the name of the instruction");
    skip();
    switch (mode)
    {
    case I: is('#'); is_hex(in_value, 2); break;
    case zp: is_hex(in_value, 2); break;
    case zpi: is('('); is_hex(in_value, 2); is(')'); break;
    case zpx: is_hex(in_value, 2); is(','); is('x'); break;
    case zpy: is_hex(in_value, 2); is(','); is('y'); break;
    case izx: is('('); is_hex(in_value, 2); is(','); is('x'); is(')'); break;
    case izy: is('('); is_hex(in_value, 2); is(')'); is(','); is('y'); break;
    case a: case r: is_hex(in_value, 4); break;
    case aix: is('('); is_hex(in_value, 4); is(','); is('x'); is(')'); break;
    case ax: is_hex(in_value, 4); is(','); is('x'); break;
    case ay: is_hex(in_value, 4); is(','); is('y'); break;
    case ind: is('('); is_hex(in_value, 4); is(')'); break;
    }
    skip(); is(0);
    __CPROVER_assert(ok, "and the operand it has");
    REACH;
}
#endif

#ifdef H_data
list_table_ptr add_list(const char* file, int line, const char* row)
{
    __CPROVER_assert(file == nm && line == yylineno, "on the line of the source");
    __CPROVER_assert(row == &g_buffer[0], "the row");
    g_added++; return &g_node;
}
void harness(void)
{
    in_value = nondet_int(); program_counter = nondet_int(); error_count = 0; g_added = 0; data_size = SIZE; yylineno = nondet_int(); current_file_name = nm;
    in_pc = program_counter; __CPROVER_assume(in_pc >= 0 && in_pc <= 0xFFFF);
    __CPROVER_assume(SIZE == 1 ? in_value >= -128 && in_value <= 255 : in_value >= -32768 && in_value <= 65535);      /* P07: others are errors */
    int n = SIZE == 0 ? in_value >= 0 && in_value <= 255 ? 1 : 2 : SIZE;
    int t = nondet_int(); __CPROVER_assume(t >= 0 && t <= 3);
    g_p.type = t == 0 ? type_con : t == 1 ? type_id : t == 2 ? type_label : type_opr;
    list_head = 0;
    generate_list_node(&g_p);
    __CPROVER_assert(g_added == 1 && error_count == 0, "an item has one row");
    at = 0; ok = true; is_hex(in_pc, 4); is(':'); __CPROVER_assert(ok, "with its address");
    is(' '); is_hex(in_value & 0xFF, 2); if (n > 1) { is(' '); is_hex(in_value >> 8 & 0xFF, 2); }
    is(' '); __CPROVER_assert(ok, "and exactly the bytes that are written");
    skip(); is('.'); is('d'); is('b'); skip(); is_hex(in_value & 0xFF, 2); if (n > 1) { is(','); is(' '); is_hex(in_value >> 8 & 0xFF, 2); }
    skip(); is(0); __CPROVER_assert(ok, "shown again as data");
    REACH;
}
#endif

#ifdef H_str
#define MAXLEN 7
#ifndef TRIES
#define TRIES (1 << (LEN + LEN % 2))
#endif
static char g_s[MAXLEN + 1]; static int g_shown;
static int in_len;
list_table_ptr add_list(const char* file, int line, const char* row)
{
    __CPROVER_assert(file == nm && line == yylineno, "on the line of the source");
    __CPROVER_assert(row == &g_buffer[0], "the row");
    int total = in_len + (data_size == 2 && in_len % 2);
    int n = total - g_shown < 3 ? total - g_shown : 3; __CPROVER_assert(n > 0, "no row without bytes");
    at = 0; ok = true; is_hex((in_pc + g_shown) & 0xFFFF, 4); is(':'); __CPROVER_assert(ok, "each row has its address");
    for (int k = 0; k < 3; k++) if (k < n) { is(' '); is_hex(g_shown + k < in_len ? g_s[g_shown + k] & 0xFF : 0, 2); }
    is(' '); __CPROVER_assert(ok, "and exactly the bytes that are written there");
    skip(); is('.'); is('d'); is('b'); skip();
    for (int k = 0; k < 3; k++)
        if (k < n)
        {
            int v = g_shown + k < in_len ? g_s[g_shown + k] : 0;
            if (k > 0) { is(','); is(' '); }
            if (g_buffer[at] == '\'') { is('\''); if (g_buffer[at] != 'C' || g_val[at] != v || v < 32 || v >= 127) ok = false; at++; is('\''); } else is_hex(v & 0xFF, 2);
        }
    skip(); is(0); __CPROVER_assert(ok, "shown again as data");
    g_shown += n; g_added++; return &g_node;
}
/* every sequence of outcomes is tried, so that the characters of the rows are constant in each try */
static int g_mask, g_calls;
int isprint(int c)
{
    __CPROVER_assert(c >= 0 && c <= 255 && g_calls <= in_len, "a character");
    bool yes = g_mask >> g_calls++ & 1; __CPROVER_assume((c >= 32 && c < 127) == yes); return yes;
}
static void one(int mask, int size)
{
    g_mask = mask; g_calls = 0; data_size = size; g_added = 0; g_shown = 0; program_counter = nondet_int();
    in_pc = program_counter; __CPROVER_assume(in_pc >= 0 && in_pc <= 0xFFFF);
    for (int k = 0; k < MAXLEN; k++) { if (k < in_len) g_s[k] = nondet_char(); else g_s[k] = 0; } g_s[MAXLEN] = 0;
    string_node_struct v = g_p.str; v.value = g_s; v.len = LEN; g_p.str = v; g_p.type = type_str;
    generate_list_node(&g_p);
    __CPROVER_assert(g_shown == in_len + (data_size == 2 && in_len % 2) && error_count == 0, "every byte of the string is shown");
}
void harness(void)
{
    error_count = 0; yylineno = nondet_int(); current_file_name = nm; in_len = LEN;
    int sel = nondet_int();     /* each try on its own: an impossible sequence of outcomes ends only its try */
    for (int m = 0; m < TRIES; m++) { if (sel == 2 * m) one(m, 2); if (m < 1 << LEN && sel == 2 * m + 1) one(m, 1); }
    if (sel == 0)
    REACH;
}
#endif
