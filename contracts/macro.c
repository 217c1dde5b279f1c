/* Contracts on macro calls (expand.cc). */
#include <stdarg.h>
#include <stdio.h>
#include "dictionary.h"
#include "error.h"
#include "expand.h"
#include "flex.h"
#include "memory.h"
#include "node.h"
#include "pasm.h"
#include "pasm.tab.h"
#include "stacks.h"
#include "sym.h"
#include "macro_ghost.h"
int nondet_int(void); bool nondet_bool(void);
#define REACH __CPROVER_assert(0, "vt_reach")
int error_count; void error(int n) { error_count++; }
void exit(int c) { __CPROVER_assert((c & 255) != 0, "only as a failure"); __CPROVER_assume(0); }
void* vt_malloc(size_t n) { void* p = malloc(n); __CPROVER_assume(p != NULL); return p; }     /* memory runs out: not considered */
char* last_label; int program_counter; char *current_scope; bool final_pass;
/* the name of a label or parameter that sprintf composes is identified by its parts */
symbol_table g_k, g_other; int in_k, in_arg, in_n, g_index, g_pushed, g_popped, g_bodies, g_evaluated, in_times, in_before, in_caller; static char nm[2], in_label[2]; char g_buffer[8], *internal_buffer, *g_composed_name; int g_composed_times; bool g_is_label;
struct macro_dict_entry { int times_executed; };

#if defined H_call || defined H_id
int vt_spf(char* d, const char* f, long x, long y)
{
    if (f[0] == '\\') { __CPROVER_assert(f[1] == '%' && f[2] == 'd' && f[3] == 0, "the name of a parameter"); g_index = (int)x; g_is_label = false; d[0] = '\\'; }
    else { __CPROVER_assert(f[0] == '%' && f[1] == 's' && f[2] == ':' && f[3] == ':' && f[4] == '%', "macro::call"); g_composed_name = (char*)x; g_composed_times = (int)y; g_is_label = true; d[0] = ':'; }
    d[1] = 0; return 1;
}
int sprintf(char* d, const char* f, ...)
{
    va_list a; va_start(a, f);
    long x, y = 0;
    if (f[0] == '\\') x = va_arg(a, int); else { x = (long)va_arg(a, char*); y = va_arg(a, int); }
    va_end(a); return vt_spf(d, f, x, y);
}
static char g_labels[4]; 
#define CALL_LABEL (last_label[0] == ':' && g_composed_name == nm && g_composed_times == in_times)
char* strdup(const char* s) { __CPROVER_assert(s[0] == ':', "the label of the call"); g_labels[0] = ':'; g_labels[1] = 0; return &g_labels[0]; }
const char* pasm_strdup(const char* s, const char* f, int l) { return strdup(s); }
symbol_table_ptr add_symbol(char* name) { __CPROVER_assert(name[0] == '\\' && !g_is_label, "a parameter"); __CPROVER_assert(g_index >= 1 && g_index <= in_n, "of this call"); return g_index == in_k ? &g_k : &g_other; }
symbol_table_ptr set_symbol_value(const symbol_table_ptr s, const int v) { if (s == &g_k) g_k.value = v; return s; }
#endif

#ifdef H_call
int expand_macro_expansion_node(const parse_node_ptr p);
static parse_node g_call, g_body, g_params; extern int macro_parameter_index; extern int* macro_parameter_values; 
static struct macro_dict_entry g_entry;
struct macro_dict_entry* create_macro_entry(const char* name) { __CPROVER_assert(name == nm, "the macro that is called"); return &g_entry; }
void push_macro_params(void) { __CPROVER_assert(!g_pushed && !g_bodies && g_k.value == in_caller, "the parameters of the caller are saved before any is changed"); g_pushed++; }
void pop_macro_params(void) { __CPROVER_assert(g_pushed == 1 && g_popped == 0 && g_bodies == 1, "and come back after the body"); g_popped++; g_k.value = in_before; }
int expand_node(parse_node_ptr p)
{
    if (p == &g_params)
    {
        __CPROVER_assert(!g_evaluated && !g_bodies && !g_popped, "the arguments are evaluated once");
        __CPROVER_assert(g_k.value == in_caller, "while the caller's parameters have their values");
        __CPROVER_assert(last_label == &in_label[0], "and the local labels are those of the caller");
        __CPROVER_assert(macro_parameter_index == 0, "the first argument is \\1");
        g_evaluated++;
        macro_parameter_values = malloc(sizeof(int) * (in_n + 1)); __CPROVER_assume(macro_parameter_values != NULL);
        macro_parameter_index = in_n; if (in_k <= in_n) macro_parameter_values[in_k] = in_arg;
        return 0;
    }
    __CPROVER_assert(p == &g_body, "the body");
    __CPROVER_assert(g_pushed == 1 && !g_popped && !g_bodies, "is expanded once, in the call");
    __CPROVER_assert(g_evaluated == (g_call.macro.macro_params != 0), "after the arguments");
    if (g_evaluated && in_k <= in_n) __CPROVER_assert(g_k.value == in_arg && g_k.is_initialized, "each parameter has the value of its argument");
    else __CPROVER_assert(g_k.value == in_caller, "and the others what they had");
    __CPROVER_assert(CALL_LABEL, "local labels are those of this call");
    g_bodies++;
    /* what the body does */
    g_k.value = nondet_int(); macro_parameter_index = nondet_int();
    return 0;
}
void harness(void)
{
    in_n = nondet_int(); __CPROVER_assume(in_n >= 1 && in_n <= MAXN); in_k = nondet_int(); __CPROVER_assume(in_k >= 1 && in_k <= MAXN);
    in_arg = nondet_int(); in_caller = nondet_int(); in_before = nondet_int(); in_times = nondet_int(); __CPROVER_assume(in_times >= 0 && in_times < 1000000);
    g_k.value = in_caller; g_k.is_initialized = nondet_bool(); error_count = 0; internal_buffer = &g_buffer[0]; nm[0] = 'm'; nm[1] = 0; in_label[0] = 'l'; in_label[1] = 0; g_composed_times = -1;
    g_pushed = g_popped = g_bodies = g_evaluated = 0; g_entry.times_executed = in_times; last_label = &in_label[0];
    g_call.type = type_macro_ex; g_call.macro.name = nm; g_call.macro.macro = &g_body; g_call.macro.macro_params = nondet_bool() ? &g_params : 0;
    expand_macro_expansion_node(&g_call);
    __CPROVER_assert(g_bodies == 1 && g_popped == 1 && error_count == 0, "the call is complete");
    __CPROVER_assert(g_k.value == in_before, "nothing changes the parameters after that");
    __CPROVER_assert(last_label == &in_label[0], "local labels are those of the caller again");
    __CPROVER_assert(g_entry.times_executed == in_times + 1, "the next call has labels of its own");
    REACH;
}
#endif

#ifdef H_save
void save_macro_parameter_value(const int index, const int value);
extern int* macro_parameter_values; extern int macro_parameter_values_size; static int* g_old;
void* realloc(void* p, size_t n)
{
    __CPROVER_assert(p == macro_parameter_values, "the values");
    int* t = malloc(n); __CPROVER_assume(t != NULL);
    if (p && in_k < macro_parameter_values_size && (size_t)in_k * sizeof(int) < n) t[in_k] = g_old[in_k];
    return t;
}
void* pasm_realloc(void* p, size_t n, const char* f, int l) { return realloc(p, n); }
void harness(void)
{
    int size = nondet_int(); __CPROVER_assume(size >= 0 && size <= MAXN);
    in_k = nondet_int(); in_n = nondet_int(); in_arg = nondet_int(); int other = nondet_int();
    __CPROVER_assume(in_k >= 1 && in_n >= 1 && in_n <= MAXN && in_k <= MAXN && in_k != in_n && in_k <= size);
    macro_parameter_values_size = size; g_old = 0; if (size) { g_old = malloc(sizeof(int) * size); __CPROVER_assume(g_old != NULL); }
    macro_parameter_values = g_old; error_count = 0;
    int before = 0; bool known = in_k < size; if (known) before = g_old[in_k];
    save_macro_parameter_value(in_n, other);
    __CPROVER_assert(macro_parameter_values_size > in_n && macro_parameter_values[in_n] == other, "the value is kept");
    if (known) __CPROVER_assert(macro_parameter_values_size >= size && macro_parameter_values[in_k] == before, "with those of the other arguments");
    g_old = macro_parameter_values;
    save_macro_parameter_value(in_n, in_arg);
    __CPROVER_assert(macro_parameter_values[in_n] == in_arg && error_count == 0, "a later one replaces it");
    REACH;
}
#endif

#ifdef H_id
int expand_macro_id_node(const parse_node_ptr p); int expand_id_node(const parse_node_ptr p);
static parse_node g_id, g_body; static symbol_table g_sym; static struct macro_dict_entry g_entry; static int g_ids;
struct macro_dict_entry* create_macro_entry(const char* name) { __CPROVER_assert(name == nm, "the macro that is called"); return &g_entry; }
void push_macro_params(void) { __CPROVER_assert(0, "no"); } void pop_macro_params(void) { __CPROVER_assert(0, "no"); }
int expand_id_node(const parse_node_ptr p) { __CPROVER_assert(p == &g_id, "the name"); g_ids++; if (nondet_bool()) g_id.id.i = &g_sym; return 0; }
int expand_node(parse_node_ptr p)
{
    __CPROVER_assert(p == &g_body && g_bodies == 0 && g_ids == 1, "the body is expanded once");
    __CPROVER_assert(CALL_LABEL, "local labels are those of this call");
    g_bodies++; return 0;
}
void harness(void)
{
    in_times = nondet_int(); __CPROVER_assume(in_times >= 0 && in_times < 1000000); g_entry.times_executed = in_times; last_label = &in_label[0];
    internal_buffer = &g_buffer[0]; nm[0] = 'm'; nm[1] = 0; in_label[0] = 'l'; in_label[1] = 0; g_composed_times = -1; error_count = 0; g_bodies = 0; g_ids = 0;
    g_id.type = type_macro_id; g_id.id.name = nm; g_id.id.i = nondet_bool() ? &g_sym : 0; g_sym.macro_node = nondet_bool() ? &g_body : 0;
    expand_macro_id_node(&g_id);
    __CPROVER_assert(g_bodies == (g_id.id.i && g_sym.macro_node), "what has a body is expanded");
    __CPROVER_assert(last_label == &in_label[0] && error_count == 0 && g_entry.times_executed == in_times, "local labels are those of the caller again");
    REACH;
}
#endif

#ifdef H_entry
struct macro_dict_entry* create_macro_entry(const char* name); void reset_macro_dict(void);
extern dictionary_ptr macro_dict; static dict g_dict; static struct macro_dict_entry g_found, g_new; static bool in_found; static int g_inserted;
static element g_e1, g_e2; static element* g_table[2];
dictionary_ptr dict_create(int z, int k) { __CPROVER_assert(z == (int)sizeof(struct macro_dict_entry) && k == 0, "calls by name"); return &g_dict; }
void* dict_search(dictionary_ptr d, const void* key) { __CPROVER_assert(d == &g_dict && key == nm, "the macro"); return in_found ? &g_found : 0; }
void* dict_insert(dictionary_ptr* d, void* key, void* v) { __CPROVER_assert(*d == &g_dict && key == nm && !in_found, "a macro that is not there"); g_inserted++; g_new = *(struct macro_dict_entry*)v; return &g_new; }
void harness(void)
{
    in_found = nondet_bool(); g_inserted = 0; macro_dict = nondet_bool() ? &g_dict : 0; error_count = 0; in_times = nondet_int(); g_found.times_executed = in_times;
    struct macro_dict_entry* r = create_macro_entry(nm);
    __CPROVER_assert(macro_dict == &g_dict && r == (in_found ? &g_found : &g_new) && g_inserted == !in_found && g_found.times_executed == in_times, "the number of its calls");
    if (!in_found) __CPROVER_assert(r->times_executed == 0, "none so far");
    g_dict.size = 2; g_dict.table = &g_table[0]; g_table[0] = nondet_bool() ? &g_e1 : 0; g_table[1] = g_table[0] ? 0 : &g_e1; g_e1.next = nondet_bool() ? &g_e2 : 0; g_e2.next = 0;
    g_e1.value = &g_found; g_e2.value = &g_new; g_new.times_executed = nondet_int(); int n = g_new.times_executed;
    reset_macro_dict();
    __CPROVER_assert(g_found.times_executed == 0 && g_new.times_executed == (g_e1.next ? 0 : n) && error_count == 0, "every pass starts again");
    REACH;
}
#endif

#ifdef H_args
/* the arguments are a list, of which the first items can be a list themselves */
int expand_operator_expression_list_node(const parse_node_ptr p);
#define N 3
extern int macro_parameter_index, max_macro_param; static parse_node g_list, g_sublist, g_item[N]; static parse_node_ptr g_ops[N], g_subops[N]; static int in_val[N], g_saved[N], g_count, g_eval[N], in_max; static bool in_nested;
int expand_macro_expansion_node(const parse_node_ptr p); static parse_node g_call, g_body; static struct macro_dict_entry g_entry;
struct macro_dict_entry* create_macro_entry(const char* name) { return &g_entry; } void push_macro_params(void) { } void pop_macro_params(void) { }
void set_macro_parameters(void) { __CPROVER_assert(g_count == in_n, "the parameters are set when all are evaluated"); }
char* strdup(const char* s) { return &in_label[1]; }
const char* pasm_strdup(const char* s, const char* f, int l) { return strdup(s); }
int sprintf(char* d, const char* f, ...) { if (f[0] == '%') { d[0] = 0; return 0; } va_list a; va_start(a, f); __CPROVER_assert(f[0] == '\\' && f[1] == '%' && f[2] == 'd' && f[3] == 0, "the name of a parameter"); g_index = va_arg(a, int); d[0] = '\\'; d[1] = 0; va_end(a); return 1; }
symbol_table_ptr add_symbol(char* name) { __CPROVER_assert(name[0] == '\\' && g_index >= 1 && g_index <= N, "a parameter"); return &g_other; }
symbol_table_ptr set_symbol_value(const symbol_table_ptr s, const int v) { __CPROVER_assert(0, "no parameter is set before all are evaluated"); return s; }
void save_macro_parameter_value(const int index, const int value)
{
    __CPROVER_assert(index >= 1 && index <= in_n && g_count == index - 1, "the arguments in order");
    __CPROVER_assert(value == in_val[index - 1], "the value of the argument"); g_count++;
}
int expand_node(parse_node_ptr p)
{
    if (p == &g_sublist) { __CPROVER_assert(in_nested, "a list"); return expand_operator_expression_list_node(p); }
    if (p == &g_list) return expand_operator_expression_list_node(p);
    if (p == &g_body) { __CPROVER_assert(g_count == in_n && macro_parameter_index == in_n, "all of them"); g_bodies++; return 0; }
    for (int k = 0; k < N; k++) if (p == &g_item[k]) { __CPROVER_assert(g_count == k, "in order"); g_eval[k]++; return in_val[k]; }
    __CPROVER_assert(0, "nothing else is expanded");
    return nondet_int();
}
bool has_uninitialized_symbol(parse_node_ptr p) { return nondet_bool(); }
void harness(void)
{
    
#ifdef NESTED
    in_n = 3; in_nested = true;
#else
    in_n = 2; in_nested = false;
#endif
    for (int k = 0; k < N; k++)
    {
        in_val[k] = nondet_int(); g_eval[k] = 0; int t = nondet_int(); __CPROVER_assume(t >= 0 && t <= 3);
        g_item[k].type = t == 0 ? type_con : t == 1 ? type_id : t == 2 ? type_label : type_opr; g_item[k].opr.opr = '+'; g_item[k].number_of_ops = 0;
        __CPROVER_assume(t != 3 || EXPRLIST != '+');
    }
    int m = in_nested ? in_n - 1 : 0;     /* as many as this in the list within the list */
    for (int k = 0; k < N; k++) { g_ops[k] = &g_item[k]; g_subops[k] = &g_item[k]; }
    g_sublist.type = type_opr; g_sublist.opr.opr = EXPRLIST; g_sublist.op = &g_subops[0]; g_sublist.number_of_ops = m;
    if (in_nested) { g_ops[0] = &g_sublist; g_ops[1] = &g_item[in_n - 1]; }
    g_list.type = type_opr; g_list.opr.opr = EXPRLIST; g_list.op = &g_ops[0]; g_list.number_of_ops = in_nested ? 2 : in_n;
    in_max = nondet_int(); __CPROVER_assume(in_max >= 0 && in_max < 1000); max_macro_param = in_max; macro_parameter_index = 0; error_count = 0; g_count = 0;
    internal_buffer = &g_buffer[0]; nm[0] = 'm'; nm[1] = 0; last_label = &in_label[0]; g_bodies = 0;
    g_call.type = type_macro_ex; g_call.macro.name = nm; g_call.macro.macro = &g_body; g_call.macro.macro_params = &g_list;
    expand_macro_expansion_node(&g_call);
    __CPROVER_assert(error_count == 0 && g_bodies == 1, "every argument has a number");
    __CPROVER_assert(max_macro_param == (in_max > in_n ? in_max : in_n), "the number of parameters in use");
    REACH;
}
#endif
