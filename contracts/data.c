/* Contracts on the statements that place data: .byte .word .str, .fill, .ds, .load. */
#include <stdarg.h>
#include "expand.h"
#include "node.h"
#include "error.h"
#include "flex.h"
#include "file.h"
#include "opcodes.h"
#include "pasm.h"
#include "pasm.tab.h"
#include "data_ghost.h"
bool log_file_is_open;
int nondet_int(void);
long nondet_long(void);
bool nondet_bool(void);
unsigned char nondet_uchar(void);
int error_count, program_counter, data_size;
bool final_pass, origin_specified;
int g_origins, g_origin;
void error(int n) { error_count++; }
void warn(int n) { }
void set_output_origin(int v) { g_origins++; g_origin = v; }
int in_count, in_byte, in_pc, g_emitted, g_listed;
parse_node g_dn1, g_dn2;
long in_len, g_pos, g_k; int g_byte, g_seen; bool g_eof;
#define REACH __CPROVER_assert(0, "vt_reach")

#ifdef H_list
int expand_data_node(parse_node_ptr p);
int expand_operator_expression_list_node(parse_node_ptr p);
#define N 3
parse_node g_list, g_item[N], g_sub; parse_node_ptr g_items[N], g_subs[2] = { &g_sub, &g_sub };
int in_kind[N], in_val[N], in_size, in_n; bool in_uninit[N], in_final, g_in_list;
int g_next_out, g_next_list, g_pc_out[N], g_ds_out[N];
int g_nested_len[N], g_order;
enum { ITEM_VALUE, ITEM_STRING, ITEM_NESTED };
bool has_uninitialized_symbol(parse_node_ptr p)
{
    for (int k = 0; k < N; k++) if (p == &g_item[k]) return in_uninit[k];
    return false;
}
int expand_node(parse_node_ptr p)
{
    if (!g_in_list)
    {
        __CPROVER_assert(p == &g_list, "the list is expanded");
        g_in_list = true;
        return expand_operator_expression_list_node(&g_list);
    }
    __CPROVER_assert(p != &g_list, "once");
    if (p == &g_sub) return nondet_int();
    for (int k = 0; k < N; k++)
        if (p == &g_item[k])
        {
            if (in_kind[k] == ITEM_NESTED)
            {
                __CPROVER_assert(in_final ? g_order == k : g_order <= k, "a nested list is expanded once, in order");
                g_order = g_next_list = k + 1; g_nested_len[k] = nondet_int(); __CPROVER_assume(g_nested_len[k] >= 0 && g_nested_len[k] < 0x10000);
                program_counter += g_nested_len[k];
                return nondet_int();
            }
            return in_val[k];
        }
    __CPROVER_assert(0, "only the items are expanded");
    return 0;
}
static int index_of(parse_node_ptr p) { for (int k = 0; k < N; k++) if (p == &g_item[k]) return k; return -1; }
int generate_list_node(const parse_node_ptr p)
{
    __CPROVER_assert(in_final, "nothing is listed before the final pass");
    int k = index_of(p);
    __CPROVER_assert(k >= 0 && k < in_n && g_order == k && g_next_list == k, "each item is listed once, in order, with its output");
    g_next_list = k + 1;
    return 1;
}
int generate_output(FILE* f, const parse_node_ptr p)
{
    __CPROVER_assert(in_final, "nothing is written before the final pass");
    int k = index_of(p);
    __CPROVER_assert(k >= 0 && k < in_n && g_next_list == k + 1 && g_order == k, "each item is written once, in order");
    g_next_out = k + 1; g_order = k + 1; g_pc_out[k] = program_counter; g_ds_out[k] = data_size;
    return nondet_int();
}
static int size_of(int k)
{
    if (in_kind[k] == ITEM_NESTED) return g_nested_len[k];
    if (in_kind[k] == ITEM_STRING) return in_size == data_word && g_item[k].str.len % 2 == 1 ? g_item[k].str.len + 1 : g_item[k].str.len;
    if (in_size == data_string) return in_val[k] >= 0 && in_val[k] <= 255 ? 1 : 2;
    return in_size == data_word ? 2 : 1;
}
void harness(void)
{
    parse_node d;
    in_size = SIZE;
    in_n = nondet_int(); __CPROVER_assume(in_n >= 1 && in_n <= N);
    d.type = type_data; d.data.size = in_size; d.data.data = &g_list; d.number_of_ops = 0;
    g_list.type = type_opr; g_list.opr.opr = EXPRLIST; g_list.number_of_ops = in_n; g_list.op = g_items;
    in_final = final_pass = nondet_bool(); origin_specified = nondet_bool(); bool org0 = origin_specified;
    in_pc = program_counter = nondet_int(); __CPROVER_assume(in_pc >= 0 && in_pc <= 0xFFFF);
    error_count = 0; g_origins = 0; g_in_list = false; g_next_out = g_next_list = g_order = 0;
    for (int k = 0; k < N; k++)
    {
        g_items[k] = &g_item[k];
        in_kind[k] = nondet_int(); __CPROVER_assume(in_kind[k] >= ITEM_VALUE && in_kind[k] <= ITEM_NESTED);
        in_val[k] = nondet_int(); in_uninit[k] = nondet_bool();
        /* the final pass comes after a pass which left no symbol unresolved (P21) */
        if (in_final || in_kind[k] == ITEM_STRING) in_uninit[k] = false;
        g_item[k].op = g_subs; g_item[k].number_of_ops = 0;
        if (in_kind[k] == ITEM_NESTED) { g_item[k].type = type_opr; g_item[k].opr.opr = EXPRLIST; g_item[k].number_of_ops = 1; }
        else if (in_kind[k] == ITEM_STRING)
        {
            g_item[k].type = type_str; g_item[k].str.len = nondet_int();
            __CPROVER_assume(g_item[k].str.len >= 0 && g_item[k].str.len < 0x10000);
        }
        else
        {
            int t = nondet_int() & 3;
            g_item[k].type = t == 0 ? type_con : t == 1 ? type_id : t == 2 ? type_label : type_opr;
            if (t == 3) { g_item[k].opr.opr = nondet_int(); __CPROVER_assume(g_item[k].opr.opr != EXPRLIST); g_item[k].number_of_ops = nondet_bool() ? 1 : 2; }
        }
    }
    expand_data_node(&d);
    __CPROVER_assert(g_in_list, "the list is expanded");
    __CPROVER_assert(error_count == 0, "no error");
    __CPROVER_assert(origin_specified && (org0 ? g_origins == 0 : g_origins == 1 && g_origin == in_pc), "the origin is where the first bytes stand");
    int pc = in_pc, next = 0;
    for (int k = 0; k < N; k++)
        if (k < in_n)
        {
            if (in_final && in_kind[k] != ITEM_NESTED)
            {
                __CPROVER_assert(g_pc_out[k] == pc, "each item is written at its address");
                __CPROVER_assert(g_ds_out[k] == in_size, "with the size of the directive");
                next = k + 1;
            }
            if (in_kind[k] == ITEM_NESTED) next = next;
            pc += size_of(k);
        }
    if (in_final) __CPROVER_assert(g_order == in_n, "every item is written");
    __CPROVER_assert(program_counter == pc, "the location counter moves by the bytes of the items");
    REACH;
}
#endif

#ifdef H_fill
int expand_operator_fill_node(parse_node_ptr p);
parse_node g_b, g_c, g_konst1, g_konst2;
int g_exit;
void exit(int c) { __CPROVER_assert(c != 0 && error_count == 1, "an error ends the run with a nonzero status");
    __CPROVER_assert(in_byte < 0 || in_byte > 255 || in_count < 0, "only bad values end the run"); __CPROVER_assume(0); }
int expand_node(parse_node_ptr p)
{
    if (p == &g_b) return in_byte;
    __CPROVER_assert(p == &g_c, "only the value and the count are evaluated");
    return in_count;
}
parse_node_ptr constant_node(const int value, int is_program_counter)
{
    parse_node_ptr k = nondet_bool() ? &g_konst1 : &g_konst2;
    k->type = type_con; k->con.value = value; k->con.is_program_counter = is_program_counter;
    return k;
}
parse_node_ptr data_node(int size, parse_node_ptr data)
{
    __CPROVER_assert(size == 1 || size == 2, "bytes or words");
    __CPROVER_assert(data->type == type_con && !data->con.is_program_counter, "a constant");
    parse_node_ptr d = size == 1 ? &g_dn1 : &g_dn2;
    d->type = type_data; d->data.size = size; d->data.data = (void*)(size_t)data->con.value;
    return d;
}
int generate_list_node(const parse_node_ptr p)
{
    __CPROVER_assert(final_pass && p->type == type_data, "data, in the final pass");
    __CPROVER_assert(data_size == p->data.size, "listed with its size");
    g_listed += p->data.size;
    return 1;
}
int generate_output(FILE* f, const parse_node_ptr p)
{
    __CPROVER_assert(final_pass && p->type == type_data, "data, in the final pass");
    size_t v = (size_t)p->data.data;
    __CPROVER_assert((int)(v & 255) == in_byte && (p->data.size == 1 ? v < 256 : (int)(v >> 8) == in_byte), "every byte has the value");
    __CPROVER_assert(program_counter == in_pc + g_emitted, "at its address");
    __CPROVER_assert(data_size == p->data.size, "with its size");
    g_emitted += p->data.size;
    return f == NULL ? 0 : p->data.size;
}
void harness(void)
{
    parse_node n; parse_node_ptr ops[2] = { &g_b, &g_c };
    n.type = type_opr; n.opr.opr = FILL; n.number_of_ops = 2; n.op = ops;
    in_byte = nondet_int(); in_count = nondet_int(); in_pc = program_counter = nondet_int();
    __CPROVER_assume(in_pc >= 0 && in_pc <= 0xFFFF);
#ifdef MAXCOUNT
    __CPROVER_assume(in_count <= MAXCOUNT);
#endif
    __CPROVER_assume(in_count < 0x40000000);
    final_pass = nondet_bool(); origin_specified = nondet_bool(); bool org0 = origin_specified; g_origins = 0;
    output_file = nondet_bool() ? NULL : (FILE*)&n;
    error_count = 0; g_emitted = g_listed = 0;
    expand_operator_fill_node(&n);
    __CPROVER_assert(in_byte >= 0 && in_byte <= 255 && in_count >= 0 && error_count == 0, "bad values are errors");
    __CPROVER_assert(program_counter == in_pc + in_count, "the location counter moves by the count");
    __CPROVER_assert(g_emitted == (final_pass ? in_count : 0), "exactly count bytes are written");
    __CPROVER_assert(g_listed == g_emitted, "and listed");
    __CPROVER_assert(origin_specified && (org0 ? g_origins == 0 : g_origins == 1 && g_origin == in_pc), "the origin is where the first bytes stand");
    REACH;
}
#endif

#ifdef H_ds
int expand_operator_ds_node(parse_node_ptr p);
parse_node g_c;
void exit(int c) { __CPROVER_assert(c != 0 && error_count == 1 && in_count < 0, "a negative count is an error"); __CPROVER_assume(0); }
int expand_node(parse_node_ptr p) { __CPROVER_assert(p == &g_c, "only the count is evaluated"); return in_count; }
int generate_output(FILE* f, const parse_node_ptr p) { __CPROVER_assert(0, ".ds writes nothing itself"); return 0; }
int generate_list_node(const parse_node_ptr p) { return 0; }
void harness(void)
{
    parse_node n; parse_node_ptr ops[1] = { &g_c };
    n.type = type_opr; n.opr.opr = DS; n.number_of_ops = 1; n.op = ops;
    in_count = nondet_int(); in_pc = program_counter = nondet_int(); final_pass = nondet_bool(); error_count = 0;
    __CPROVER_assume(in_pc >= 0 && in_pc <= 0xFFFF && in_count < 0x40000000);
    expand_operator_ds_node(&n);
    __CPROVER_assert(in_count >= 0 && error_count == 0, "a negative count is an error");
    __CPROVER_assert(program_counter == in_pc + in_count, "the location counter moves by the count");
    REACH;
}
#endif

#ifdef H_load
/* a file of in_len bytes; g_k is an arbitrary position in it and g_byte the byte there */
int expand_operator_load_node(parse_node_ptr p);
parse_node g_name, g_konst, g_list; char g_file; bool g_opened, g_closed, in_exists;
FILE* open_file(const char* n, const char* m)
{
    __CPROVER_assert(n == &g_file, "the file named is opened");
    __CPROVER_assert(m[0] == 'r' && m[1] == 'b', "as it is, byte for byte");
    g_opened = in_exists; return in_exists ? (FILE*)&g_file : NULL;
}
int fclose(FILE* f) { __CPROVER_assert(g_opened && !g_closed, "closed once"); g_closed = true; return 0; }
int fseek(FILE* f, long o, int w)
{
    g_pos = w == SEEK_END ? in_len + o : w == SEEK_SET ? o : g_pos + o;
    __CPROVER_assert(g_pos >= 0 && g_pos <= in_len, "inside the file"); g_eof = false; return 0;
}
long ftell(FILE* f) { return g_pos; }
int feof(FILE* f) { return g_eof; }
int fgetc(FILE* f)
{
    if (g_pos >= in_len) { g_eof = true; return EOF; }
    int c = g_pos == g_k ? g_byte : nondet_uchar();
    g_pos++;
    return c;
}
parse_node_ptr constant_node(const int value, int is_program_counter)
{
    __CPROVER_assert(!is_program_counter, "a constant");
    g_konst.type = type_con; g_konst.con.value = value; g_konst.con.is_program_counter = 0; return &g_konst;
}
parse_node_ptr operator_node(const int opr, const int n, ...)
{
    __CPROVER_assert(opr == EXPRLIST && n == 1, "a list of one item"); return &g_list;
}
parse_node_ptr data_node(int size, parse_node_ptr data)
{
    __CPROVER_assert((size == 1 || size == 2) && data == &g_list, "bytes or words");
    g_dn1.type = type_data; g_dn1.data.size = size; g_dn1.data.data = data; return &g_dn1;
}
int expand_node(parse_node_ptr p)
{
    __CPROVER_assert(p == &g_dn1, "only data is expanded");
    int v = g_konst.con.value, n = p->data.size;
    __CPROVER_assert(v >= 0 && (n == 1 ? v <= 255 : v <= 65535), "the bytes fit");
    if (g_k == g_emitted) { __CPROVER_assert((v & 255) == g_byte, "the byte of the file"); g_seen++; }
    if (n == 2 && g_k == g_emitted + 1) { __CPROVER_assert((v >> 8) == g_byte, "the byte of the file"); g_seen++; }
    g_emitted += n;
    return nondet_int();
}
void harness(void)
{
    parse_node n; parse_node_ptr ops[1] = { &g_name };
    n.type = type_opr; n.opr.opr = LOAD; n.number_of_ops = 1; n.op = ops;
    g_name.type = type_str; g_name.str.value = &g_file;
    in_exists = nondet_bool(); in_len = nondet_long(); g_k = nondet_long(); g_byte = nondet_uchar();
    __CPROVER_assume(in_len >= 0 && in_len < 0x100000 && g_k >= 0 && g_k < in_len + 2);
#ifdef MAXLEN
    __CPROVER_assume(in_len <= MAXLEN);
#endif
    g_list.type = type_opr; g_list.opr.opr = EXPRLIST;
    g_emitted = 0; g_seen = 0; error_count = 0; g_opened = g_closed = g_eof = false;
    g_pos = 0;
    expand_operator_load_node(&n);
    if (!in_exists) __CPROVER_assert(error_count == 1 && g_emitted == 0, "a file that cannot be opened is an error");
    else
    {
        __CPROVER_assert(error_count == 0, "no error");
        __CPROVER_assert(g_emitted == in_len, "all bytes of the file and no more are written");
        __CPROVER_assert(g_seen == (g_k < in_len ? 1 : 0), "each byte once");
        __CPROVER_assert(g_closed, "the file is closed");
    }
    REACH;
}
#endif
