/* Contracts on the statements that run their body conditionally or repeatedly.  expand_node on a part of the
   statement is stubbed by a monitor: it checks that the part is what the statement has to expand next, gives the
   condition an arbitrary value and lets the body move the location counter arbitrarily. */
#include "expand.h"
#include "node.h"
#include "error.h"
#include "flex.h"
#include "pasm.h"
#include "pasm.tab.h"
#include "loop_ghost.h"
bool log_file_is_open;
extern bool unroll_loop;
int nondet_int(void);
bool nondet_bool(void);
int error_count, program_counter;
void error(int n) { error_count++; }
parse_node g_cond_node, g_body, g_else, g_init, g_end, g_step, g_id, g_first;
int g_state, g_cond, g_errors_at_entry, in_step, in_end, g_expect, g_bodies, g_ends, g_inits;
symbol_table g_sym;
#define REACH __CPROVER_assert(0, "vt_reach")
#if defined H_while
#define NEXT_AFTER_BODY EXPECT_COND
#define NEXT_AFTER_COND(v) ((v) ? EXPECT_BODY : DONE)
int expand_operator_while_node(parse_node_ptr p);
#define STMT expand_operator_while_node
#elif defined H_repeat
#define NEXT_AFTER_BODY EXPECT_COND
#define NEXT_AFTER_COND(v) ((v) ? DONE : EXPECT_BODY)
int expand_operator_repeat_node(parse_node_ptr p);
#define STMT expand_operator_repeat_node
#elif defined H_do
#define NEXT_AFTER_BODY EXPECT_COND
#define NEXT_AFTER_COND(v) ((v) ? EXPECT_BODY : DONE)
int expand_operator_do_node(parse_node_ptr p);
#define STMT expand_operator_do_node
#endif

#ifdef STMT
int expand_node(parse_node_ptr p)
{
    if (p == &g_body)
    {
        __CPROVER_assert(g_state == EXPECT_BODY, "the body is run when it has to be, and only then");
        program_counter = nondet_int();
        g_state = NEXT_AFTER_BODY;
        g_bodies = g_bodies < 2 ? g_bodies + 1 : 2;
        return nondet_int();
    }
    __CPROVER_assert(p == &g_cond_node, "only the condition and the body are expanded");
    __CPROVER_assert(g_state == EXPECT_COND, "the condition is tested when it has to be, and only then");
    g_cond = nondet_int();
    g_state = NEXT_AFTER_COND(g_cond);
    return g_cond;
}
void harness(void)
{
    parse_node n;
#ifdef H_while
    parse_node_ptr ops[2] = { &g_cond_node, &g_body };
    g_state = EXPECT_COND;
#else
    parse_node_ptr ops[2] = { &g_body, &g_cond_node };
    g_state = EXPECT_BODY;
#endif
    n.type = type_opr; n.op = ops; n.number_of_ops = 2;
    error_count = g_errors_at_entry = nondet_int(); __CPROVER_assume(error_count >= 0 && error_count < 1000000);
    program_counter = nondet_int(); max_address = nondet_int(); g_bodies = 0;
    STMT(&n);
    if (g_state == DONE)
        __CPROVER_assert(error_count == g_errors_at_entry, "ended by its condition: no error");
    else
    {
        __CPROVER_assert(g_bodies > 0 && program_counter > max_address, "only a body that ran past the address space ends the loop early");
        __CPROVER_assert(error_count == g_errors_at_entry + 1, "which is reported as one error");
    }
    REACH;
}
#endif

#ifdef H_if
int expand_operator_if_node(parse_node_ptr p);
int g_then, g_elses, g_conds;
int expand_node(parse_node_ptr p)
{
    if (p == &g_cond_node) { __CPROVER_assert(g_then == 0 && g_elses == 0, "the condition is tested first"); g_conds++; return g_cond; }
    if (p == &g_body) { g_then++; return nondet_int(); }
    __CPROVER_assert(p == &g_else, "only the parts of the statement are expanded");
    g_elses++; return nondet_int();
}
void harness(void)
{
    parse_node n; parse_node_ptr ops[3] = { &g_cond_node, &g_body, &g_else };
    n.type = type_opr; n.op = ops; n.number_of_ops = nondet_bool() ? 2 : 3;
    error_count = 0; g_then = g_elses = g_conds = 0; g_cond = nondet_int();
    expand_operator_if_node(&n);
    __CPROVER_assert(g_conds >= 1, "the condition is evaluated");
    __CPROVER_assert(g_then == (g_cond != 0 ? 1 : 0), "the body is assembled once exactly when the condition holds");
    __CPROVER_assert(g_elses == (g_cond == 0 && n.number_of_ops == 3 ? 1 : 0), "the else part is assembled once exactly when it does not");
    __CPROVER_assert(error_count == 0, "no error");
    REACH;
}
#endif

#ifdef H_for
int expand_operator_for_node(parse_node_ptr p);
int in_start; bool g_inited, g_has_step;
symbol_table_ptr add_symbol(char* name) { return &g_sym; }
symbol_table_ptr set_symbol_value(const symbol_table_ptr sym, const int value)
{
    __CPROVER_assert(sym == &g_sym, "the loop variable is set");
    __CPROVER_assert(g_state == EXPECT_STEP, "it is set after the body");
    sym->value = value;
    g_expect = (int)((unsigned)g_expect + (unsigned)in_step);
    g_state = EXPECT_BODY;
    return sym;
}
int expand_node(parse_node_ptr p)
{
    if (p == &g_step) { __CPROVER_assert(g_has_step, "step"); return in_step; }
    if (p == &g_end) { return in_end; }
    if (p == &g_init) { __CPROVER_assert(!g_inited, "the variable is set to the start value once"); g_sym.value = in_start; g_inited = true; return nondet_int(); }
    __CPROVER_assert(p == &g_body, "only the parts of the statement are expanded");
    __CPROVER_assert(g_inited && g_state == EXPECT_BODY, "the body is run once for each value");
    __CPROVER_assert(g_sym.value == g_expect, "the variable has the next value in the body");
    __CPROVER_assert(in_step > 0 ? g_expect <= in_end : in_step < 0 ? g_expect >= in_end : true, "the value is not past the end");
    program_counter = nondet_int();
    g_bodies = g_bodies < 2 ? g_bodies + 1 : 2;
    g_state = EXPECT_STEP;
    return nondet_int();
}
void harness(void)
{
    parse_node n; parse_node_ptr ops[5] = { &g_init, &g_end, &g_body, &g_id, &g_step };
    parse_node_ptr init_ops[1] = { &g_first };
    char name[2];
    g_has_step = nondet_bool();
    in_step = g_has_step ? nondet_int() : 1;
    in_start = g_expect = nondet_int(); in_end = nondet_int();
    n.type = type_opr; n.op = ops; n.number_of_ops = g_has_step ? 5 : 4;
    g_init.type = type_opr; g_init.op = init_ops; g_init.number_of_ops = 2;
    g_first.type = type_id; g_first.id.name = name; g_first.id.i = nondet_bool() ? &g_sym : NULL; g_first.number_of_ops = 0;
    g_id.type = type_id; g_id.id.name = name; g_id.id.i = nondet_bool() ? &g_sym : NULL; g_id.number_of_ops = 0;
    error_count = g_errors_at_entry = nondet_int(); __CPROVER_assume(error_count >= 0 && error_count < 1000000);
    program_counter = nondet_int(); max_address = nondet_int(); g_bodies = 0; g_inited = false; g_state = EXPECT_BODY;
    expand_operator_for_node(&n);
    __CPROVER_assert(g_inited, "the variable is set");
    if (error_count == g_errors_at_entry)
        __CPROVER_assert(g_state == EXPECT_BODY && (in_step > 0 ? g_expect > in_end : in_step < 0 ? g_expect < in_end : false), "the loop ends when the next value is past the end");
    else
        __CPROVER_assert(error_count == g_errors_at_entry + 1 && g_bodies > 0 && program_counter > max_address, "or when the body ran past the address space, which is an error");
    REACH;
}
#endif

#ifdef H_statement
int expand_operator_statement_node(parse_node_ptr p);
parse_node g_s[3]; int g_next, g_ops;
int expand_node(parse_node_ptr p)
{
    __CPROVER_assert(g_next < g_ops && p == &g_s[g_next], "the statements are expanded in order, each once");
    g_next++; return nondet_int();
}
void harness(void)
{
    parse_node n; parse_node_ptr ops[3] = { &g_s[0], &g_s[1], &g_s[2] };
    g_ops = nondet_int(); __CPROVER_assume(g_ops >= 0 && g_ops <= 3);
    n.type = type_opr; n.op = ops; n.number_of_ops = g_ops; g_next = 0;
    expand_operator_statement_node(&n);
    __CPROVER_assert(g_next == g_ops, "all statements are expanded");
    REACH;
}
#endif
