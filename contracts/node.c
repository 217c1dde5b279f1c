/* Contracts on the construction and destruction of syntax trees (node.cc). */
#include <ctype.h>
#include <stdarg.h>
#include "error.h"
#include "expand.h"
#include "genlist.h"
#include "memory.h"
#include "node.h"
#include "opcodes.h"
#include "pasm.h"
#include "pasm.tab.h"
#include "str.h"
#include "sym.h"
#include "node_ghost.h"
bool log_file_is_open;
int nondet_int(void); long nondet_long(void); bool nondet_bool(void); char nondet_char(void);
int error_count, error_last;
void error(int n) { error_count++; error_last = n; }
void exit(int c) { __CPROVER_assume(0); }
char* last_label; int program_counter;

parse_node g_cur, g_head, g_prev, g_next;
static void havoc_node(parse_node* p)
{
    p->type = (node_type_enum)nondet_int();
    p->number_of_ops = 0; p->op = 0; p->next = 0; p->prev = 0; p->allocated = true;
}
/* an arbitrary place to add: after the current node, or to an empty list */
bool in_empty;
static void place(void)
{
    in_empty = nondet_bool();
    havoc_node(&g_cur); havoc_node(&g_head);
    g_cur.con.value = nondet_int(); g_cur.number_of_ops = nondet_int(); g_cur.prev = &g_prev; g_cur.next = 0;
    head_node = in_empty ? 0 : nondet_bool() ? &g_head : &g_cur;
    current_node = in_empty ? 0 : &g_cur;
    error_count = 0;
}
static parse_node old_cur; static parse_node* old_head;
#define REMEMBER() do { old_cur = g_cur; old_head = head_node; } while (0)
#define LINKED(p) do { \
    __CPROVER_assert(current_node == p && p->next == 0, "the new node is the last"); \
    __CPROVER_assert(p->prev == (in_empty ? (parse_node*)0 : &g_cur), "after the one that was last"); \
    __CPROVER_assert(in_empty || g_cur.next == p, "which links to it"); \
    __CPROVER_assert(head_node == (in_empty ? p : old_head), "the list starts as before"); \
    __CPROVER_assert(g_cur.prev == old_cur.prev && g_cur.type == old_cur.type && g_cur.con.value == old_cur.con.value && g_cur.number_of_ops == old_cur.number_of_ops && g_cur.op == old_cur.op, "other nodes keep their parts"); \
    __CPROVER_assert(p->allocated && error_count == 0, "it is in use"); } while (0)

#ifdef H_allocate
int in_n; int in_k; bool g_first = true;
/* memset at an arbitrary child's place (cbmc's own loses the contents of a block of symbolic size) */
void* memset(void* p, int c, size_t n)
{
    __CPROVER_assert(__CPROVER_w_ok(p, n), "memset stays within the block");
    if (__CPROVER_OBJECT_SIZE(p) == sizeof(parse_node) && n == sizeof(parse_node) && c == 0 && g_first)
    {
        static parse_node zero; *(parse_node*)p = zero; g_first = 0;
    }
    else if (c == 0 && in_k >= 0 && n >= ((size_t)in_k + 1) * sizeof(parse_node_ptr)) ((parse_node_ptr*)p)[in_k] = 0;
    return p;
}
void harness(void)
{
    place(); REMEMBER();
    in_n = nondet_int(); __CPROVER_assume(in_n <= 100000);
    in_k = nondet_int();
    parse_node_ptr p = allocate_node(in_n);
    LINKED(p);
    __CPROVER_assert(p->number_of_ops == in_n, "the number of children");
    if (in_n > 0)
    {
        __CPROVER_assert(__CPROVER_OBJECT_SIZE(p->op) >= (size_t)in_n * sizeof(parse_node_ptr) && __CPROVER_POINTER_OFFSET(p->op) == 0, "room for all children");
        if (in_k >= 0 && in_k < in_n) __CPROVER_assert(p->op[in_k] == 0, "each child empty");
    }
    else __CPROVER_assert(p->op == 0, "no children");
    __CPROVER_assert(0, "vt_reach");
}
#endif
#ifdef H_operator
parse_node c[8];
void harness(void)
{
    place(); REMEMBER();
    int n = nondet_int(), opr = nondet_int(); __CPROVER_assume(n >= 0 && n <= 8);
    parse_node_ptr p;
    switch (n)
    {
    case 0: p = operator_node(opr, 0); break;
    case 1: p = operator_node(opr, 1, &c[0]); break;
    case 2: p = operator_node(opr, 2, &c[0], &c[1]); break;
    case 3: p = operator_node(opr, 3, &c[0], &c[1], &c[2]); break;
    case 4: p = operator_node(opr, 4, &c[0], &c[1], &c[2], &c[3]); break;
    case 5: p = operator_node(opr, 5, &c[0], &c[1], &c[2], &c[3], &c[4]); break;
    case 6: p = operator_node(opr, 6, &c[0], &c[1], &c[2], &c[3], &c[4], &c[5]); break;
    case 7: p = operator_node(opr, 7, &c[0], &c[1], &c[2], &c[3], &c[4], &c[5], &c[6]); break;
    default: p = operator_node(opr, 8, &c[0], &c[1], &c[2], &c[3], &c[4], &c[5], &c[6], &c[7]); break;
    }
    LINKED(p);
    __CPROVER_assert(p->type == type_opr && p->opr.opr == opr && p->number_of_ops == n, "an operator node with its operator and number of children");
    for (int i = 0; i < 8; i++) if (i < n) __CPROVER_assert(p->op[i] == &c[i], "each child, in order");
    __CPROVER_assert(0, "vt_reach");
}
#endif
#ifdef H_leaves
char name[4]; parse_node g_params, g_payload;
void harness(void)
{
    place(); REMEMBER();
    for (int i = 0; i < 3; i++) name[i] = nondet_char();
    name[3] = 0;
    int which = nondet_int(), v = nondet_int(), is_pc = nondet_bool(); program_counter = nondet_int();
    parse_node_ptr p;
    switch (which)
    {
    case 0:
        p = constant_node(v, is_pc);
        __CPROVER_assert(p->type == type_con && p->con.value == (is_pc ? program_counter : v) && !p->con.is_program_counter == !is_pc, "a constant has its value, or the program counter's");
        break;
    case 1:
        p = id_node(name);
        __CPROVER_assert(p->type == type_id, "a name");
        break;
    case 2:
        p = macro_id_node(name);
        __CPROVER_assert(p->type == type_macro_id, "the name of a macro");
        break;
    case 3:
        p = data_node(v, &g_payload);
        __CPROVER_assert(p->type == type_data && p->data.size == v && p->data.data == &g_payload, "data has its size and items");
        break;
    case 4:
        p = print_state_node(v);
        __CPROVER_assert(p->type == type_print && p->pr.print_state == v, "a print directive has its state");
        break;
    default:
        p = macro_expand_node(name, &g_params);
        __CPROVER_assert(p->type == type_macro_ex && p->macro.macro_params == &g_params, "a macro call has its arguments");
        __CPROVER_assume(p->macro.name != 0);   /* out of memory */
        parse_node_ptr q = (parse_node_ptr)p->macro.macro;
        __CPROVER_assert(q->type == type_macro_id && q->next == p && p->prev == q && current_node == p && p->next == 0, "and the name of its macro, linked before it");
        for (int i = 0; i < 4; i++) { __CPROVER_assert(q->id.name[i] == name[i] && p->macro.name[i] == name[i], "copied"); if (!name[i]) break; }
        __CPROVER_assert(0, "vt_reach");
        return;
    }
    LINKED(p);
    __CPROVER_assert(p->number_of_ops == 0 && p->op == 0, "no children");
    if (which == 1 || which == 2)
    {
        __CPROVER_assert(p->id.name != name, "a name of its own");
        for (int i = 0; i < 4; i++) { __CPROVER_assert(p->id.name[i] == name[i], "copied"); if (!name[i]) break; }
    }
    __CPROVER_assert(0, "vt_reach");
}
#endif
#ifdef H_string
char in_text[7]; char* g_arg; int g_calls;
char* sanitize_string_length(char* s, int* len)
{
    g_calls++;
    int n = 0; while (in_text[n]) n++;
    int q = in_text[0] == '\'' || in_text[0] == '"';
    for (int i = 0; i < 6; i++) if (i < n - 2 * q) __CPROVER_assert(s[i] == in_text[i + q], "the text between the quotes");
    __CPROVER_assert(s[n - 2 * q] == 0, "and nothing else");
    *len = nondet_int(); __CPROVER_assume(*len >= 0);
    g_arg = malloc(8); __CPROVER_assume(g_arg != NULL);
    return g_arg;
}
void harness(void)
{
    place(); REMEMBER();
    for (int i = 0; i < 6; i++) in_text[i] = nondet_char();
    in_text[6] = 0;
    if (in_text[0] == '\'' || in_text[0] == '"') __CPROVER_assume(in_text[1] != 0);
    parse_node_ptr p = string_node(in_text);
    LINKED(p);
    __CPROVER_assert(p->type == type_str && g_calls == 1 && p->str.value == g_arg && p->str.len >= 0, "the decoded text with its length");
    __CPROVER_assert(0, "vt_reach");
}
#endif
#ifdef H_remove
void* g_target; int g_freed;
void free(void* p) { if (p && p == g_target) g_freed++; }
/* a node anywhere in the list */
void harness(void)
{
    parse_node_ptr p = malloc(sizeof(parse_node)); __CPROVER_assume(p != NULL);
    havoc_node(p); havoc_node(&g_prev); havoc_node(&g_next); havoc_node(&g_head);
    bool has_prev = nondet_bool(), has_next = nondet_bool();
    p->prev = has_prev ? &g_prev : 0; p->next = has_next ? &g_next : 0;
    g_prev.next = p; g_next.prev = p; g_prev.prev = &g_head; g_next.next = &g_cur;
    head_node = has_prev ? (nondet_bool() ? &g_prev : &g_head) : p;
    parse_node* h0 = head_node;
    current_node = has_next ? &g_cur : p;       /* the last node of the list */
    if (nondet_bool()) { p->number_of_ops = 3; p->op = malloc(3 * sizeof(parse_node_ptr)); __CPROVER_assume(p->op != NULL); }
    if (p->type == type_str) { p->str.value = nondet_bool() ? malloc(3) : 0; }
    else if (p->type == type_id || p->type == type_macro_id)
    {
        p->id.name = malloc(3); __CPROVER_assume(p->id.name != NULL);
        p->id.name[0] = nondet_char(); p->id.name[1] = nondet_char(); p->id.name[2] = 0;
    }
    g_target = p;
    remove_parse_node(p);
    __CPROVER_assert(!has_prev || g_prev.next == (has_next ? &g_next : (parse_node*)0), "the node before links to the one after");
    __CPROVER_assert(!has_next || g_next.prev == (has_prev ? &g_prev : (parse_node*)0), "and back");
    __CPROVER_assert(g_prev.prev == &g_head && g_next.next == &g_cur, "other links stay");
    __CPROVER_assert(head_node == (has_prev ? h0 : has_next ? &g_next : (parse_node*)0), "the list starts with its first node");
    __CPROVER_assert(current_node == (has_next ? &g_cur : has_prev ? &g_prev : (parse_node*)0), "the next node is linked after the last one left");
    __CPROVER_assert(g_freed == 1, "the node is released once");
    __CPROVER_assert(0, "vt_reach");
}
#endif
#ifdef H_free_tree
/* a list of any length: two node objects stand alternately for its nodes; position g_removed is the one to go next */
parse_node g_n[2]; int in_total, g_removed;
static void expose(void)
{
    parse_node* p = &g_n[g_removed & 1];
    p->next = g_removed + 1 < in_total ? &g_n[(g_removed + 1) & 1] : 0;
}
void remove_parse_node(const parse_node_ptr p)
{
    __CPROVER_assert(g_removed < in_total && p == &g_n[g_removed & 1], "each node is removed once, in order");
    p->next = (parse_node*)nondet_long();       /* a released node holds nothing */
    g_removed++;
    if (g_removed < in_total) expose();
    head_node = g_removed < in_total ? &g_n[g_removed & 1] : 0;
}
void harness(void)
{
    in_total = nondet_int(); __CPROVER_assume(in_total >= 0 && in_total <= MAXN);
    g_removed = 0; expose();
    head_node = in_total > 0 ? &g_n[0] : 0; current_node = &g_cur;
    free_parse_tree();
    __CPROVER_assert(g_removed == in_total, "every node is released");
    __CPROVER_assert(head_node == 0 && current_node == 0, "the list is empty");
    __CPROVER_assert(0, "vt_reach");
}
#endif
#ifdef H_opcode
/* the mode and opcode of an instruction node, for any opcode table */
int in_code[max_addressing_mode + 1]; int in_mode, in_op, in_val; bool in_uninit, in_isA; int g_evals;
parse_node g_child; char g_name[2];
int get_op_code(int op, int mode)
{
    __CPROVER_assert(op == in_op && mode >= 0 && mode < max_addressing_mode, "a mode of this instruction");
    return in_code[mode];
}
int expand_node(parse_node_ptr p) { __CPROVER_assert(p == &g_child, "the operand"); g_evals++; return in_val; }
bool has_uninitialized_symbol(parse_node_ptr p) { return in_uninit; }
int stricmp(char const* a, char const* b) { __CPROVER_assert(a == g_name && b[0] == 'A' && b[1] == 0, "the accumulator's name"); return in_isA ? 0 : 1; }
static int narrow(int m) { return m == a ? zp : m == aix ? izx : m == ax ? zpx : m == ay ? zpy : m == ind ? zpi : -1; }
void harness(void)
{
    place(); REMEMBER();
    for (int m = 0; m < max_addressing_mode; m++) { in_code[m] = nondet_int(); __CPROVER_assume(in_code[m] >= -1 && in_code[m] <= 255); }
    in_mode = nondet_int(); in_op = nondet_int(); in_val = nondet_int(); in_uninit = nondet_bool(); in_isA = nondet_bool();
    __CPROVER_assume(in_mode == i || in_mode == I || in_mode == a || in_mode == ax || in_mode == ay || in_mode == ind || in_mode == aix || in_mode == izy);
    havoc_node(&g_child); g_child.id.name = g_name;
    int ops = in_mode == i ? 0 : 1;
    if (ops == 0) { in_uninit = false; in_isA = false; }
    if (g_child.type != type_id) in_isA = false;
    parse_node_ptr p = ops ? opcode_node(in_op, in_mode, 1, &g_child) : opcode_node(in_op, in_mode, 0);
    /* what was asked for */
    int m = in_code[r] != -1 ? r : in_mode;
    int acc = m == a && ops && in_isA;
    if (acc) m = A;
    int val = ops ? in_val : 0;
    int n = narrow(m);
    bool narrowed = n >= 0 && in_code[n] != -1 && ((val >= 0 && val <= 255 && !in_uninit) || in_code[m] == -1);
    int mode = narrowed ? n : m;
    __CPROVER_assert(p->type == type_op_code && p->opcode.instruction == in_op, "an instruction node for the instruction");
    __CPROVER_assert(p->opcode.mode == mode, "the mode its operand is written for, in its zero page form exactly when the value allows it");
    __CPROVER_assert(p->opcode.opcode == in_code[mode], "the opcode byte of that mode");
    __CPROVER_assert(p->number_of_ops == ops - acc, "the operand, none for the accumulator");
    if (ops) __CPROVER_assert(p->op[0] == &g_child, "the operand node");
    __CPROVER_assert((error_count == 1) == (in_code[mode] < 0) && error_count <= 1, "an error exactly if the instruction has no such mode");
    __CPROVER_assert(current_node == p && (in_empty || g_cur.next == p), "linked at the end");
    __CPROVER_assert(0, "vt_reach");
}
#endif
