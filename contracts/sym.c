/* Contracts on symbols (sym.cc) and on the statements that define and use them (expand.cc). */
#include <stdarg.h>
#include <stdio.h>
#include "dictionary.h"
#include "error.h"
#include "expand.h"
#include "flex.h"
#include "memory.h"
#include "node.h"
#include "pasm.h"
#include "pasm.tab.h"
#include "stacks.h"
#include "sym.h"
#include "sym_ghost.h"
bool log_file_is_open;
int nondet_int(void); bool nondet_bool(void); char nondet_char(void); long nondet_long(void); size_t nondet_size(void);
#ifdef NOREACH
#define REACH
#else
#define REACH __CPROVER_assert(0, "vt_reach")
#endif
int error_count; void error(int n) { error_count++; }
void exit(int c) { __CPROVER_assert((c & 255) != 0, "only as a failure"); __CPROVER_assume(0); }
int sym_value_changed, pass; stack_ptr changed_sym_stack; int yylineno; char *current_file_name; int max_macro_param; bool final_pass;
#ifndef H_dump
void* vt_malloc(size_t n) { void* p = malloc(n); __CPROVER_assume(p != NULL); return p; }     /* memory runs out: not considered */
#endif
static char* ch(int n) { char* p = malloc(n); __CPROVER_assume(p != NULL); return p; }
static bool same_text(const char* a, const char* b) { for (int k = 0; k < 12; k++) { if (a[k] != b[k]) return false; if (!a[k]) return true; } return false; }
static void havoc_sym(symbol_table* s)
{
    s->value = nondet_int(); s->times_accessed = nondet_int(); __CPROVER_assume(s->times_accessed >= 0 && s->times_accessed < 1000000000);
    s->is_initialized = nondet_bool(); s->is_macro_name = nondet_bool(); s->is_macro_param = nondet_bool(); s->is_label = nondet_bool();
    s->is_local = nondet_bool(); s->is_plus_minus = nondet_bool(); s->is_var = nondet_bool();
    s->scope = 0; s->name = 0; s->fullname = 0; s->macro_node = 0;
}
#define KEPT(s, o) ((s).is_initialized == (o).is_initialized && (s).is_macro_name == (o).is_macro_name && (s).is_macro_param == (o).is_macro_param && (s).is_label == (o).is_label && \
    (s).is_local == (o).is_local && (s).is_plus_minus == (o).is_plus_minus && (s).is_var == (o).is_var && (s).scope == (o).scope && (s).name == (o).name && (s).fullname == (o).fullname && (s).macro_node == (o).macro_node)

#ifdef H_set
symbol_table_ptr set_symbol_value(const symbol_table_ptr sym, const int value);
static stack g_stk; static instance_data g_inst;
long push(instance_data_ptr i, const void* v) { return 0; }
stack_ptr create_stack(size_t sz) { __CPROVER_assert(sz == sizeof(symbol_table), "a stack of symbols"); g_stk.push = push; g_stk.instance = &g_inst; return &g_stk; }
void harness(void)
{
    symbol_table s; havoc_sym(&s); symbol_table o = s;
    int v = nondet_int(), c = nondet_int(); __CPROVER_assume(c >= 0 && c < 1000000);
    sym_value_changed = c; error_count = 0; g_stk.push = push; g_stk.instance = &g_inst; changed_sym_stack = nondet_bool() ? &g_stk : 0;
    symbol_table_ptr r = set_symbol_value(&s, v);
    bool bad = v != o.value && (v < 0 || v > 0xFFFF) && !o.is_var;
    __CPROVER_assert(KEPT(s, o) && s.times_accessed == o.times_accessed, "only the value changes");
    __CPROVER_assert(s.value == (bad ? o.value : v), "the value is stored unless it is out of range");
    __CPROVER_assert((error_count != 0) == bad && r == (bad ? 0 : &s), "a constant or label out of 0 to 65535 is an error");
    __CPROVER_assert(sym_value_changed == c + (!bad && v != o.value && !o.is_var && !o.is_macro_param), "a changed constant or label asks for another pass");
    c = sym_value_changed; error_count = 0;
    __CPROVER_assert(set_symbol_value(0, v) == 0 && error_count == 0 && sym_value_changed == c, "no symbol, nothing to do");
    REACH;
}
#endif

#ifdef H_lookup
/* names of any length: strlen and sprintf work on lengths, the key of a search is identified by where it was composed */
symbol_table_ptr look_up_symbol(const char* name);
char *current_scope; static char nm[2], sc[2]; char* g_comp; long g_ls, g_ln; bool g_done_scoped, g_done_plain, g_composed; static symbol_table g_scoped, g_plain; bool in_scoped, in_plain; static dict g_dict; dictionary_ptr symbol_dictionary_;
size_t strlen(const char* s) { __CPROVER_assert(s == nm || s == sc, "a known text"); return s == nm ? g_ln : g_ls; }
int sprintf(char* d, const char* f, ...)
{
    va_list a; va_start(a, f);
    __CPROVER_assert(f[0] == '%' && f[1] == 's' && f[2] == '.' && f[3] == '%' && f[4] == 's' && f[5] == 0, "scope.name");
    __CPROVER_assert(va_arg(a, char*) == sc, "the scope"); __CPROVER_assert(va_arg(a, char*) == nm, "and the name");
    __CPROVER_assert(__CPROVER_w_ok(d, g_ls + g_ln + 2), "room for the qualified name");
    g_comp = d; g_composed = true;
    va_end(a); return (int)(g_ls + g_ln + 1);
}
void pasm_free(void* p) { if (p == g_comp) g_comp = 0; }
void free(void* p) { if (p == g_comp) g_comp = 0; }
dictionary_ptr dict_create(int z, int k) { __CPROVER_assert(z == (int)sizeof(symbol_table) && k == 0, "symbols by name"); return &g_dict; }
void* dict_search(dictionary_ptr d, const void* key)
{
    __CPROVER_assert(d == &g_dict, "the symbols");
    if (key == nm) { __CPROVER_assert(current_scope == 0 || g_done_scoped, "the section's own symbol comes first"); g_done_plain = true; return in_plain ? &g_plain : 0; }
    __CPROVER_assert(g_composed && key == g_comp, "the qualified name");
    g_done_scoped = true;
    return in_scoped ? &g_scoped : 0;
}
void harness(void)
{
    g_ls = nondet_long(); g_ln = nondet_long(); __CPROVER_assume(g_ls >= 1 && g_ls <= 1000000 && g_ln >= 1 && g_ln <= 1000000);
    havoc_sym(&g_scoped); havoc_sym(&g_plain); symbol_table os = g_scoped, op = g_plain;
    in_scoped = nondet_bool(); in_plain = nondet_bool();
    g_comp = 0; g_composed = g_done_scoped = g_done_plain = false; error_count = 0;
    bool none = nondet_bool(), scope = nondet_bool();
    symbol_dictionary = none ? 0 : &g_dict; current_scope = scope ? &sc[0] : 0;
    symbol_table_ptr r = look_up_symbol(nm);
    symbol_table_ptr e = none ? 0 : scope && in_scoped ? &g_scoped : in_plain ? &g_plain : 0;
    __CPROVER_assert(r == e, "the section's own symbol when there is one, otherwise the global one");
    __CPROVER_assert(KEPT(g_scoped, os) && KEPT(g_plain, op) && g_scoped.value == os.value && g_plain.value == op.value, "nothing is defined by looking");
    __CPROVER_assert(g_scoped.times_accessed == os.times_accessed + (e == &g_scoped) && g_plain.times_accessed == op.times_accessed + (e == &g_plain), "the use is counted");
    __CPROVER_assert(current_scope == (scope ? &sc[0] : 0) && error_count == 0 && g_comp == 0 && symbol_dictionary == &g_dict, "nothing else changes");
    REACH;
}
#endif

#if defined H_add || defined H_local || defined H_section || defined H_equ
char* strstr(const char* h, const char* n) { for (int k = 0; k < 16; k++) { int j = 0; for (; j < 3; j++) if (!n[j] || h[k + j] != n[j]) break; if (j < 3 && !n[j]) return (char*)h + k; if (!h[k]) return 0; } return 0; }
/* %s and %d of a bounded length */
int sprintf(char* d, const char* f, ...)
{
    va_list a; va_start(a, f); int n = 0;
    for (int k = 0; k < 12 && f[k]; k++)
    {
        if (f[k] != '%') { d[n++] = f[k]; continue; }
        k++;
        if (f[k] == 's') { const char* s = va_arg(a, char*); for (int j = 0; j < 14 && s[j]; j++) d[n++] = s[j]; }
        else { int v = va_arg(a, int); __CPROVER_assert(f[k] == 'd' && v >= 0 && v < 100, "a number"); if (v > 9) d[n++] = '0' + v / 10; d[n++] = '0' + v % 10; }
    }
    d[n] = 0; va_end(a); return n;
}
static int len(const char* s) { int n = 0; for (int k = 0; k < 16; k++) { if (!s[k]) break; n++; } return n; }
static void cat(char* d, const char* s) { int n = len(d); for (int k = 0; k < 14; k++) { d[n + k] = s[k]; if (!s[k]) break; } }
char* strdup(const char* s) { __CPROVER_assume(s != 0); char* d = ch(18); for (int k = 0; k < 18; k++) { d[k] = s[k]; if (!s[k]) break; } return d; }
const char* pasm_strdup(const char* s, const char* f, int l) { return strdup(s); }
void* pasm_malloc(size_t n, const char* f, int l) { return ch((int)n); }
static void text(char* d, int max, bool dots)
{
    int n = nondet_int(); __CPROVER_assume(n >= 1 && n <= max);
    for (int k = 0; k < max; k++) { d[k] = nondet_char(); __CPROVER_assume(d[k] == 'a' || d[k] == 'A' || d[k] == 'b' || d[k] == '_' || d[k] == '1' || (dots && d[k] == '.')); if (k >= n) d[k] = 0; }
    d[max] = 0; d[n] = 0;
}
#endif

#ifdef H_add
#define MAXNAME 3
symbol_table_ptr add_symbol(char* name);
char *current_scope, *last_label; char in_name[MAXNAME + 1], in_scope[3], in_last[3], g_key[20], g_name[20], g_given[MAXNAME + 1]; static dict g_dict; static symbol_table g_found, g_new, g_pm; int g_inserted; bool in_found, in_has_scope, in_has_last, g_looked, g_global;
int stricmp(char const* a, char const* b)
{
    for (int k = 0; k < MAXNAME + 1; k++) { char x = a[k] == 'a' ? 'A' : a[k], y = b[k] == 'a' ? 'A' : b[k]; if (x != y) return x - y; if (!x) return 0; }
    return 1;
}
symbol_table_ptr add_plus_minus_sym(char* name) { __CPROVER_assert((g_given[0] == '+' || g_given[0] == '-') && same_text(name, g_given), "an anonymous label"); return &g_pm; }
dictionary_ptr dict_create(int z, int k) { __CPROVER_assert(z == (int)sizeof(symbol_table) && k == 0, "symbols by name"); return &g_dict; }
symbol_table_ptr look_up_symbol(const char* name)
{
    __CPROVER_assert(same_text(name, g_name), "the name, of a local label with the label it belongs to");
    __CPROVER_assert(current_scope == (in_has_scope && !g_global ? &in_scope[0] : 0), "in the section, unless the name is qualified or is a macro parameter");
    g_looked = true;
    return in_found ? &g_found : 0;
}
void* dict_insert(dictionary_ptr* d, void* key, void* value)
{
    __CPROVER_assert(d == &symbol_dictionary && symbol_dictionary == &g_dict, "among the symbols");
    __CPROVER_assert(g_looked && !in_found, "a symbol that is there is not added again");
    __CPROVER_assert(same_text(key, g_key), "under its qualified name");
    g_inserted++; g_new = *(symbol_table_ptr)value; return &g_new;
}
void harness(void)
{
    int n = nondet_int(); __CPROVER_assume(n >= 1 && n <= MAXNAME);
    for (int k = 0; k < MAXNAME; k++) { in_name[k] = nondet_char(); if (k >= n) in_name[k] = 0; g_given[k] = in_name[k]; }
    in_name[MAXNAME] = 0; g_given[MAXNAME] = 0;
    /* a name as the lexical rules make it: an optional prefix, a letter, letters, digits and dots between them, an optional colon */
    for (int k = 0; k < MAXNAME; k++) if (k < n)
        __CPROVER_assume(in_name[k] == 'a' || in_name[k] == 'A' || in_name[k] == 'b' || in_name[k] == '1' || (in_name[k] == '.' && k + 1 < n && in_name[k + 1] != '.' && in_name[k + 1] != ':') || (in_name[k] == ':' && k > 0 && k == n - 1) || (k == 0 && n > 1 && in_name[1] != ':' && in_name[1] != '.' && (in_name[0] == '@' || in_name[0] == '\\')) || (k == 0 && (in_name[0] == '+' || in_name[0] == '-')));
    text(in_scope, 2, false); text(in_last, 2, false);
    in_has_scope = nondet_bool(); in_has_last = nondet_bool(); in_found = nondet_bool();
    current_scope = in_has_scope ? &in_scope[0] : 0; last_label = in_has_last ? &in_last[0] : 0; symbol_dictionary = nondet_bool() ? &g_dict : 0;
    havoc_sym(&g_found); symbol_table old = g_found; error_count = 0; g_inserted = 0; g_looked = false;
    g_global = in_name[0] == '\\'; for (int k = 0; k < MAXNAME; k++) if (in_name[k] == '.') g_global = true;
    bool pm = in_name[0] == '+' || in_name[0] == '-', isA = (in_name[0] == 'a' || in_name[0] == 'A') && n == 1;
    /* the name it has */
    for (int k = 0; k < 20; k++) { g_name[k] = 0; g_key[k] = 0; }
    if (in_name[0] == '@' && in_has_last) { cat(g_name, in_last); cat(g_name, "__"); }
    cat(g_name, &in_name[in_name[0] == '.']);
    int e = len(g_name); if (g_name[e - 1] == ':') g_name[e - 1] = 0;
    if (in_has_scope && !g_global) { cat(g_key, in_scope); cat(g_key, "."); }
    cat(g_key, g_name);
    symbol_table_ptr r = add_symbol(in_name);
    __CPROVER_assert(current_scope == (in_has_scope ? &in_scope[0] : 0) && error_count == 0, "the section stays");
    __CPROVER_assert(last_label == (in_has_last ? &in_last[0] : 0), "and the label local labels belong to");
    if (isA) __CPROVER_assert(r == 0 && !g_inserted && !g_looked, "the accumulator is not a symbol");
    else if (pm) __CPROVER_assert(r == &g_pm && !g_inserted, "anonymous labels have names of their own");
    else if (in_found)
    {
        __CPROVER_assert(r == &g_found && !g_inserted, "the visible symbol");
        __CPROVER_assert(KEPT(g_found, old) && g_found.value == old.value, "as it was defined");
    }
    else
    {
        __CPROVER_assert(r == &g_new && g_inserted == 1, "otherwise a new one");
        __CPROVER_assert(same_text(g_new.fullname, g_key), "known by its qualified name");
        __CPROVER_assert(g_new.value == 0 && !g_new.is_var && !g_new.is_macro_name && !g_new.is_label && !g_new.is_plus_minus && g_new.macro_node == 0 && g_new.times_accessed == 0, "without a value");
        __CPROVER_assert(g_new.is_macro_param == (g_given[0] == '\\'), "a macro parameter is one by its name");
        __CPROVER_assert(g_given[0] == '@' || !g_new.is_initialized, "and not defined yet");
        __CPROVER_assert(g_given[0] != '\\' || g_new.scope == 0, "a macro parameter belongs to no section");
        __CPROVER_assert(g_given[0] == '\\' || in_has_scope || g_global || g_new.scope == 0, "a global symbol to none either");
        int dot = -1; for (int k = 0; k < 20; k++) if (g_key[k] == '.') dot = k;
        __CPROVER_assert(same_text(g_new.name, g_key + dot + 1), "its own name");
        if (dot >= 0)
        {
            __CPROVER_assert(g_new.scope != 0, "in its section");
            g_key[dot] = 0; __CPROVER_assert(same_text(g_new.scope, g_key), "named as the section is");
        }
    }
    REACH;
}
#endif

#ifdef H_local
char* format_local_sym(char* name, const char* label);
char *current_scope, *last_label; char in_last[5], in_name[4], g_e[20];
parse_node g_node; char* g_got; int g_type;
parse_node_ptr id_node_common(char* name, int type) { g_got = name; g_type = type; return &g_node; }
parse_node_ptr label_node(char* name);
char* last_token; parse_node_ptr head_node_; int program_counter;
void harness(void)
{
    text(in_last, 4, false); text(in_name, 3, true);
    char first = nondet_char(); __CPROVER_assume(first == in_name[0] || first == '@' || first == '+' || first == '-'); in_name[0] = first;
    if (first == '+' || first == '-') in_name[1] = 0;
    bool have = nondet_bool(); last_label = have ? &in_last[0] : 0;
    for (int k = 0; k < 20; k++) g_e[k] = 0;
    if (first == '@' && have) { cat(g_e, in_last); cat(g_e, "__"); }
    cat(g_e, in_name);
    parse_node_ptr r = label_node(in_name);
    __CPROVER_assert(r == &g_node && g_type == type_label, "a label");
    __CPROVER_assert(same_text(g_got, g_e), "a local label is named with the label it belongs to");
    bool ordinary = first != '@' && first != '+' && first != '-';
    __CPROVER_assert(last_label == (ordinary ? &in_name[0] : have ? &in_last[0] : 0), "local labels belong to the last ordinary label");
    REACH;
}
#endif

#ifdef H_section
int expand_operator_section_node(const parse_node_ptr p); int expand_operator_end_section_node(parse_node_ptr p);
char *last_label; int program_counter; char in_scope[7], in_name[4], g_e[20]; static parse_node g_op, g_p; char *g_freed;
void pasm_free(void* p) { g_freed = p; }
void free(void* p) { g_freed = p; }
void harness(void)
{
    text(in_scope, 6, true); text(in_name, 3, false);
    bool have = nondet_bool(); current_scope = have ? strdup(in_scope) : 0; error_count = 0;
    parse_node_ptr ops[1] = { &g_op }; g_op.type = type_id; g_op.id.name = in_name; g_p.type = type_opr; g_p.op = &ops[0]; g_p.number_of_ops = 1;
    for (int k = 0; k < 20; k++) g_e[k] = 0;
    if (have) { cat(g_e, in_scope); cat(g_e, "."); }
    cat(g_e, in_name);
    expand_operator_section_node(&g_p);
    __CPROVER_assert(current_scope != 0 && current_scope != g_freed && same_text(current_scope, g_e) && error_count == 0, "the section is named after those it is in");
    g_p.number_of_ops = 0; g_freed = 0;
    expand_operator_end_section_node(&g_p);
    __CPROVER_assert(error_count == 0 && (have ? current_scope != 0 && current_scope != g_freed && same_text(current_scope, in_scope) : current_scope == 0), "its end is in the section it was in");
    if (!current_scope) { expand_operator_end_section_node(&g_p); __CPROVER_assert(error_count > 0 && current_scope == 0, "an end without a section is an error"); }
    REACH;
}
#endif

#ifdef H_equ
int expand_operator_equ_node(const parse_node_ptr p);
char *last_label, *current_scope; int program_counter; static parse_node g_id, g_e, g_p; symbol_table g_global, g_own, *g_set; int g_set_to, g_sets, in_value, g_made; char in_name[3], in_scope[3], g_q[8];
int stricmp(char const* a, char const* b) { return same_text(a, b) ? 0 : 1; }
void pasm_free(void* p) { } void free(void* p) { }
int expand_node(parse_node_ptr p) { __CPROVER_assert(p == &g_e, "the value"); return in_value; }
bool in_sees_global;
symbol_table_ptr add_symbol(char* name)
{
    if (same_text(name, in_name)) return in_sees_global ? &g_global : &g_own;
    __CPROVER_assert(current_scope && same_text(name, g_q), "the symbol of the section");
    g_made++; return &g_own;
}
symbol_table_ptr set_symbol_value(const symbol_table_ptr s, const int v) { g_set = s; g_set_to = v; g_sets++; s->value = v; return s; }
int find_minus_symbol_definition(const char* f, int l) { __CPROVER_assert(0, "not anonymous"); return 0; } int find_plus_symbol_definition(const char* f, int l) { __CPROVER_assert(0, "not anonymous"); return 0; }
int find_minus_symbol(int d, const char* f, int l) { __CPROVER_assert(0, "not anonymous"); return 0; } int find_plus_symbol(int d, const char* f, int l) { __CPROVER_assert(0, "not anonymous"); return 0; }
void add_minus_symbol(const char* f, int l, int v) { __CPROVER_assert(0, "not anonymous"); } void add_plus_symbol(const char* f, int l, int v) { __CPROVER_assert(0, "not anonymous"); }
plus_minus_symbol* minus_symbol_table; plus_minus_symbol* plus_symbol_table;
void harness(void)
{
    text(in_name, 2, false); text(in_scope, 2, false);
    bool scope = nondet_bool(); current_scope = scope ? &in_scope[0] : 0; error_count = 0; sym_value_changed = 0;
    for (int k = 0; k < 8; k++) g_q[k] = 0; 
    cat(g_q, in_scope); cat(g_q, "."); cat(g_q, in_name);
    havoc_sym(&g_global); havoc_sym(&g_own); g_global.name = in_name; g_own.name = in_name; g_own.scope = scope ? &in_scope[0] : 0;
    in_sees_global = scope ? nondet_bool() : false;     /* outside a section the global symbol is the own one */
    in_value = nondet_int(); g_set = 0; g_sets = 0; g_made = 0;
    symbol_table og = g_global, oo = g_own;
    parse_node_ptr ops[2] = { &g_id, &g_e };
    bool label = nondet_bool();
    g_id.type = label ? type_label : type_id; g_id.id.name = in_name; g_id.id.i = nondet_bool() ? 0 : in_sees_global ? &g_global : &g_own;
    g_p.type = type_opr; g_p.opr.opr = label ? '=' : EQU; g_p.number_of_ops = 2; g_p.op = &ops[0];
    int r = expand_operator_equ_node(&g_p);
    __CPROVER_assert(r == in_value && error_count == 0, "the value is that of the expression");
    if (in_sees_global && og.is_var)
    {
        __CPROVER_assert(g_global.value == in_value && g_global.is_initialized, "a global variable can be set in a section");
        __CPROVER_assert(KEPT(g_own, oo) && g_own.value == oo.value && g_global.is_var && g_global.is_macro_param == og.is_macro_param && g_global.is_macro_name == og.is_macro_name, "and nothing else is");
        return;
    }
    __CPROVER_assert(KEPT(g_global, og) && g_global.value == og.value || !in_sees_global, "a definition in a section leaves the global symbol alone");
    __CPROVER_assert(!in_sees_global || g_made > 0, "it defines the section's own symbol");
    __CPROVER_assert(g_own.is_initialized && g_own.value == in_value, "the symbol is defined, with the value");
    __CPROVER_assert(g_sets > 0 || (oo.is_initialized && oo.value == in_value), "a change of value is noticed");
    __CPROVER_assert(g_sets == 0 || g_set == &g_own, "of this symbol only");
    __CPROVER_assert(g_own.is_var == oo.is_var && g_own.is_macro_param == oo.is_macro_param && g_own.is_macro_name == oo.is_macro_name, "and stays what it is");
    REACH;
}
#endif

#ifdef H_definition
#ifdef PLUS
#define TABLE plus_symbol_table
#define COUNT plus_symbol_table_index
#define DEFN find_plus_symbol_definition
#else
#define TABLE minus_symbol_table
#define COUNT minus_symbol_table_index
#define DEFN find_minus_symbol_definition
#endif
extern int plus_symbol_table_index, minus_symbol_table_index;
char g_mine, g_other; int in_track, g_line; bool in_match; int in_n;
int stricmp(char const* a, char const* b) { if (a == b) return 0; int r = nondet_int(); __CPROVER_assume(r != 0); return r; }
void harness(void)
{
    in_n = nondet_int(); __CPROVER_assume(in_n >= 0 && in_n <= MAXN);
    in_track = nondet_int(); __CPROVER_assume(in_track >= 0 && (in_track < in_n || in_n == 0)); g_line = nondet_int(); __CPROVER_assume(g_line >= 0);
    TABLE = malloc(sizeof(plus_minus_symbol) * (in_n + 1)); __CPROVER_assume(TABLE != NULL); COUNT = in_n;
    in_match = in_n > 0 && TABLE[in_track].file == &g_mine && TABLE[in_track].line == g_line;
    int r = DEFN(&g_mine, g_line);
    __CPROVER_assert(r >= -1 && r < in_n, "an entry or none");
    if (r >= 0) __CPROVER_assert(TABLE[r].file == &g_mine && TABLE[r].line == g_line, "the entry is the label of this line of this file");
    else __CPROVER_assert(!in_match, "none only when no entry is");
    REACH;
}
#endif

#ifdef H_order
char fa[2], fb[2]; int in_rank_a, in_rank_b;
int compare_plus_minus_sym(const plus_minus_sym* a, const plus_minus_sym* b); int plus_minus_sym_cmp_function(const void* a, const void* b);
int stricmp(char const* a, char const* b) { int x = a == fa ? in_rank_a : in_rank_b, y = b == fa ? in_rank_a : in_rank_b; return x < y ? -1 : x > y; }
static int sign(int x) { return x < 0 ? -1 : x > 0; }
void harness(void)
{
    plus_minus_sym a, b; a.file = fa; b.file = fb; a.line = nondet_int(); b.line = nondet_int(); a.value = nondet_int(); b.value = nondet_int();
    in_rank_a = nondet_int(); in_rank_b = nondet_int();
    __CPROVER_assume(a.line >= 0 && b.line >= 0);
    int e = in_rank_a != in_rank_b ? (in_rank_a < in_rank_b ? -1 : 1) : a.line < b.line ? -1 : a.line > b.line;
    __CPROVER_assert(sign(plus_minus_sym_cmp_function(&a, &b)) == e, "anonymous labels are ordered by file, then by line");
    REACH;
}
#endif

#ifdef H_add_anon
#ifdef PLUS
#define TABLE plus_symbol_table
#define COUNT plus_symbol_table_index
#define SIZE plus_symbol_table_size
#define ADD add_plus_symbol
#else
#define TABLE minus_symbol_table
#define COUNT minus_symbol_table_index
#define SIZE minus_symbol_table_size
#define ADD add_minus_symbol
#endif
extern int plus_symbol_table_index, minus_symbol_table_index, plus_symbol_table_size, minus_symbol_table_size;
int plus_minus_sym_cmp_function(const void* a, const void* b);
static char nm[2], g_copy[2]; plus_minus_sym g_kept; int in_k, g_sorted, in_n, in_size, g_line, g_value; static stack g_stk; static instance_data g_inst; plus_minus_sym* g_old; bool in_small;
char* strdup(const char* s) { __CPROVER_assert(s == nm, "the name of the file"); return g_copy; }
const char* pasm_strdup(const char* s, const char* f, int l) { return strdup(s); }
void* realloc(void* p, size_t n)
{
    __CPROVER_assert(p == g_old, "the table");
    plus_minus_sym* t = malloc(n); __CPROVER_assume(t != NULL);
    __CPROVER_assert(in_size <= 0 || n >= sizeof(plus_minus_sym) * (size_t)in_n, "grows");
    if (in_k < in_n) t[in_k] = g_old[in_k];
    return t;
}
void* pasm_realloc(void* p, size_t n, const char* f, int l) { return realloc(p, n); }
void* memset(void* p, int c, size_t n)
{
    __CPROVER_assert(__CPROVER_w_ok(p, n), "memset stays within the block");
    __CPROVER_assert(in_k >= in_n || (char*)(TABLE == g_old ? p : p) != 0, "");
    size_t at = __CPROVER_POINTER_OFFSET(p);
    if (in_k < in_n) __CPROVER_assert((size_t)in_k * sizeof(plus_minus_sym) + sizeof(plus_minus_sym) <= at || (size_t)in_k * sizeof(plus_minus_sym) >= at + n, "labels already there are kept");
    return p;
}
void qsort(void* b, size_t n, size_t z, int (*c)(const void*, const void*))
{
    __CPROVER_assert(b == TABLE && n == (size_t)in_n + 1 && z == sizeof(plus_minus_sym) && c == plus_minus_sym_cmp_function, "the whole table is sorted");
    __CPROVER_assert(TABLE[in_n].file == g_copy && TABLE[in_n].line == g_line && TABLE[in_n].value == g_value, "with the new label in it");
    if (in_k < in_n) __CPROVER_assert(TABLE[in_k].file == g_kept.file && TABLE[in_k].line == g_kept.line && TABLE[in_k].value == g_kept.value, "and those that were there");
    g_sorted++;
}
void harness(void)
{
    in_size = nondet_int(); in_n = nondet_int(); __CPROVER_assume(in_size >= 0 && in_size <= 1000000 && in_n >= 0 && (in_n < in_size || (in_size == 0 && in_n == 0)));
    in_k = nondet_int(); __CPROVER_assume(in_k >= 0); g_line = nondet_int(); g_value = nondet_int();
    g_old = 0; if (in_size > 0) { g_old = malloc(sizeof(plus_minus_sym) * in_size); __CPROVER_assume(g_old != NULL); }
    TABLE = g_old; COUNT = in_n; SIZE = in_size; if (in_k < in_n) g_kept = g_old[in_k];
    g_inst.index = nondet_int(); g_stk.instance = &g_inst; macro_params_stack = nondet_bool() ? &g_stk : 0; error_count = 0; g_sorted = 0;
    bool in_macro = macro_params_stack && g_inst.index >= 0;
    ADD(nm, g_line, g_value);
    if (in_macro) __CPROVER_assert(error_count > 0 && COUNT == in_n && !g_sorted && TABLE == g_old, "not in a macro");
    else __CPROVER_assert(error_count == 0 && COUNT == in_n + 1 && g_sorted == 1 && SIZE > COUNT, "the label is added, and there is room for another");
    REACH;
}
#endif

#ifdef H_unresolved
/* Every bucket but one is empty or a list of the nodes C and D; the bucket g_bucket is a list of A, T and B, of which A and B
   may be missing.  The loop contract assigns the symbols of A, B, C and D, so every bucket has symbols of its own.
   T is an arbitrary entry of the dictionary. */
element g_A, g_B, g_C, g_D, g_T; symbol_table g_sA, g_sB, g_sC, g_sD, g_sT; bool in_none, g_track; int g_bucket; static dict g_dict;
#define LISTS_P ((!in_none || (!UNRESOLVED(g_sA) && !UNRESOLVED(g_sB) && !UNRESOLVED(g_sC) && !UNRESOLVED(g_sD))))
void harness(void)
{
    in_none = nondet_bool(); g_dict.size = nondet_int(); __CPROVER_assume(g_dict.size >= 0 && g_dict.size <= MAXN);
    g_bucket = nondet_int(); __CPROVER_assume(g_bucket >= 0 && g_bucket < g_dict.size);
    havoc_sym(&g_sA); havoc_sym(&g_sB); havoc_sym(&g_sC); havoc_sym(&g_sT);
    g_A.value = &g_sA; g_B.value = &g_sB; g_C.value = &g_sC; g_T.value = &g_sT;
    havoc_sym(&g_sD); g_D.value = &g_sD;
    g_A.next = &g_T; g_T.next = nondet_bool() ? &g_B : 0; g_B.next = 0; g_C.next = nondet_bool() ? &g_D : 0; g_D.next = 0;
    __CPROVER_assume(LISTS_P && (!in_none || !UNRESOLVED(g_sT)));
    g_track = UNRESOLVED(g_sT);
    element** t = malloc(sizeof(element*) * MAXN); __CPROVER_assume(t != NULL);
    for (int k = 0; k < MAXN; k++) t[k] = nondet_bool() ? &g_C : (element*)0;
    t[g_bucket] = nondet_bool() ? &g_A : &g_T;
    g_dict.table = t; symbol_dictionary = &g_dict; error_count = 0;
    int r = unresolved_symbol_count();
    __CPROVER_assert(!g_track || r > 0, "a symbol that is used and not defined is counted, wherever it is");
    __CPROVER_assert(!in_none || r == 0, "nothing is counted when every symbol is defined");
    symbol_dictionary = 0;
    __CPROVER_assert(unresolved_symbol_count() == 0 && error_count == 0, "no symbols, none unresolved");
    REACH;
}
#endif

#ifdef H_compare
int symbol_compare(const void* a, const void* b);
struct entry { char* name; int value; };
void harness(void)
{
    struct entry a, b; a.name = 0; b.name = 0; a.value = nondet_int(); b.value = nondet_int();
    __CPROVER_assume(a.value >= 0 && a.value <= 0xFFFF && b.value >= 0 && b.value <= 0xFFFF);
    int r = symbol_compare(&a, &b);
    __CPROVER_assert((r < 0) == (a.value < b.value) && (r > 0) == (a.value > b.value), "rows are in order of value");
    REACH;
}
#endif

#ifdef H_dump
#define NE 3
struct entry { char* name; int value; };
element g_e[NE]; symbol_table g_s[NE], g_so[NE]; char g_key[NE][4], g_nm[NE][4]; static dict g_dict; static element* g_table[2]; int g_rows, g_printed[NE], g_lastval, g_sorts; static char a_file; bool in_at[NE];
static struct entry g_rowsbuf[NE];
void* vt_malloc(size_t n) { __CPROVER_assert(n == sizeof(struct entry) * g_dict.number_elements, "room for every symbol"); return &g_rowsbuf[0]; }
void* pasm_malloc(size_t n, const char* f, int l) { return vt_malloc(n); } void pasm_free(void* p) { } void free(void* p) { }
void qsort(void* b, size_t n, size_t z, int (*c)(const void*, const void*))
{
    __CPROVER_assert(z == sizeof(struct entry) && n <= NE, "the rows");
    struct entry* e = b;
    for (int i = 0; i < NE; i++) for (int j = 0; j + 1 < NE; j++)
        if (j + 1 < (int)n && c(&e[j], &e[j + 1]) > 0) { struct entry t = e[j]; e[j] = e[j + 1]; e[j + 1] = t; }
}
int fprintf(FILE* f, const char* fmt, ...)
{
    __CPROVER_assert(f == (FILE*)&a_file, "into the symbol file");
    bool row = false; for (int k = 0; k < 16; k++) { if (!fmt[k]) break; if (fmt[k] == '%') row = true; }
    if (!row) return 0;
    va_list a; va_start(a, fmt);
    char* name = va_arg(a, char*); int value = va_arg(a, int); va_end(a);
    int at = -1;
    for (int k = 0; k < NE; k++) if (name == &g_key[k][0]) at = k;
    __CPROVER_assert(at >= 0, "a row names a symbol");
    __CPROVER_assert(value == g_s[at].value, "and shows its value");
    __CPROVER_assert(!in_at[at] || fmt[0] == '%', "");
    g_printed[at]++;
    __CPROVER_assert(g_rows == 0 || g_lastval <= value, "in order of value");
    g_lastval = value; g_rows++;
    return 1;
}
void harness(void)
{
    pass = nondet_int(); __CPROVER_assume(pass >= 1 && pass <= 100);
    g_table[0] = 0; g_table[1] = 0; g_rows = 0; error_count = 0;
    int n = nondet_int(); __CPROVER_assume(n >= 0 && n <= NE);
    for (int k = 0; k < NE; k++)
    {
        havoc_sym(&g_s[k]); g_printed[k] = 0;
        __CPROVER_assume(g_s[k].is_var || (g_s[k].value >= 0 && g_s[k].value <= 0xFFFF));
        for (int j = 0; j < 3; j++) { g_nm[k][j] = nondet_bool() ? 'b' : '@'; g_key[k][j] = g_nm[k][j]; } g_nm[k][3] = 0; g_key[k][3] = 0;
        in_at[k] = false; for (int j = 0; j < 3; j++) if (g_nm[k][j] == '@') in_at[k] = true;
        g_s[k].name = &g_nm[k][0]; g_s[k].fullname = &g_key[k][0]; g_e[k].value = &g_s[k]; g_e[k].key = &g_key[k][0];
        g_so[k] = g_s[k];
        if (k < n) { int b = nondet_bool(); g_e[k].next = g_table[b]; g_table[b] = &g_e[k]; }
    }
    g_dict.table = &g_table[0]; g_dict.size = 2; g_dict.number_elements = n; symbol_dictionary = &g_dict;
    dump_symbols((FILE*)&a_file);
    for (int k = 0; k < NE; k++)
    {
        bool ordinary = !g_s[k].is_var && !g_s[k].is_macro_param && !g_s[k].is_macro_name && !g_s[k].is_plus_minus && !g_s[k].is_local && !in_at[k];
        __CPROVER_assert(g_printed[k] <= 1 && (g_printed[k] == 0 || (ordinary && k < n)), "every row is one constant or label");
        __CPROVER_assert(!(k < n && ordinary && g_s[k].times_accessed >= 2 * pass) || g_printed[k] == 1, "one that is referred to has a row");
        __CPROVER_assert(KEPT(g_s[k], g_so[k]) && g_s[k].value == g_so[k].value && g_s[k].times_accessed == g_so[k].times_accessed, "and nothing changes");
    }
    __CPROVER_assert(error_count == 0, "no error");
    REACH;
}
#endif

#ifdef H_push_pop
/* the parameters of the caller are saved, and come back; in_k is an arbitrary one of them */
char *current_scope; static stack g_stk; static instance_data g_inst; struct mentry { int num_nodes; int* values; }; struct mentry g_saved; int g_depth; symbol_table g_sym, g_k; int in_k, in_max, g_arg, g_restored, g_restored_k, in_value; bool g_pushed;
long st_push(instance_data_ptr i, const void* v) { __CPROVER_assert(!g_pushed, "once"); g_saved = *(struct mentry*)v; g_pushed = true; i->index++; return 0; }
void* st_pop(instance_data_ptr i) { __CPROVER_assert(g_pushed, "what was saved"); i->index--; g_pushed = false; return &g_saved; }
stack_ptr create_stack(size_t sz) { __CPROVER_assert(sz == sizeof(struct mentry), "a stack of parameters"); g_inst.index = -1; g_stk.instance = &g_inst; g_stk.push = st_push; g_stk.pop = st_pop; return &g_stk; }
int g_index;
symbol_table_ptr look_up_macro_param(int n)
{
    __CPROVER_assert(n >= 1 && n <= in_max + 1000000, "a parameter");
    g_index = n;
    return n == in_k ? &g_k : &g_sym;
}
symbol_table_ptr set_symbol_value(const symbol_table_ptr s, const int v)
{
    if (s == &g_k) { g_k.value = v; }
    return s;
}
void harness(void)
{
    in_max = nondet_int(); __CPROVER_assume(in_max >= 0 && in_max <= MAXN); max_macro_param = in_max;
    in_k = nondet_int(); __CPROVER_assume(in_k >= 1 && in_k <= in_max + 1);
    havoc_sym(&g_k); havoc_sym(&g_sym); in_value = g_k.value; error_count = 0; g_pushed = false;
    g_stk.instance = &g_inst; g_stk.push = st_push; g_stk.pop = st_pop; g_inst.index = nondet_int(); __CPROVER_assume(g_inst.index >= -1 && g_inst.index < 1000000);
    macro_params_stack = nondet_bool() ? 0 : &g_stk;
    push_macro_params();
    __CPROVER_assert(error_count == 0 && g_pushed, "the parameters are saved");
    __CPROVER_assert(g_k.value == in_value, "and still there");
    int depth = g_inst.index;
    /* the call: it may set every parameter, and use more of them than before */
    int after = nondet_int(); g_k.value = after; g_sym.value = nondet_int(); max_macro_param = nondet_int(); __CPROVER_assume(max_macro_param >= in_max && max_macro_param <= MAXN + 5);
    pop_macro_params();
    __CPROVER_assert(error_count == 0 && g_inst.index == depth - 1 && !g_pushed, "the call is over");
    if (in_k <= in_max) __CPROVER_assert(g_k.value == in_value, "every parameter of the caller has its previous value");
    REACH;
}
#endif
