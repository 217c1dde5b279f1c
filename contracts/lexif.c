/* Contracts on the scanner's actions for conditional assembly (pasm.l, the action texts).
   The stack of open conditionals has an entry per open .ifdef/.ifndef (0) or .if (1); it is represented by its
   depth, which is unbounded, and the position s of the entry that started skipping.
   Invariant: in the skipping state entry s is 0 and every entry above it is 1 (so that whatever is opened inside skipped
   text is closed inside it); otherwise every open .ifdef has its selected branch being assembled. */
#include "flex.h"
#include "pasm.h"
#include "sym.h"
#include "node.h"
#include "stacks.h"
#include "memory.h"
#include "pasm.tab.h"
#include "lex_rules.h"
enum { CONTINUE = -1 };
bool log_file_is_open;
extern int vt_start_state; extern char* yytext;
int nondet_int(void); bool nondet_bool(void);
int state(void);
YYSTYPE yylval;
int error_count;
void yyerror(const char* s) { error_count++; }
void error(int n) { error_count++; }
/* the ghost stack */
long g_depth, g_s; int g_top; int g_pushes, g_pops; int g_pushed; int g_item;
int kind(long pos) { return g_s >= 0 && pos >= g_s ? (pos == g_s ? 0 : 1) : g_top; }
long st_push(instance_data_ptr i, const void* v) { g_pushes++; g_pushed = *(const int*)v; g_depth++; i->index = g_depth - 1; return i->index; }
void* st_pop(instance_data_ptr i) { if (g_depth == 0) return 0; g_pops++; g_item = kind(g_depth - 1); g_depth--; i->index = g_depth - 1; return &g_item; }
void* st_top(instance_data_ptr i) { if (g_depth == 0) return 0; g_item = kind(g_depth - 1); return &g_item; }
static instance_data inst; static stack stk;
/* the environment */
bool in_defined; char* g_name; static symbol_table g_sym; int g_lookups;
bool g_named;
symbol_table_ptr look_up_symbol(const char* n) { g_lookups++;
#ifdef H_ifdef
    g_named = n[0] == 'a' && (n[1] == 'b' ? n[2] == 0 : n[1] == 0);
#endif
    g_name = (char*)n; return in_defined ? &g_sym : 0; }
int g_rows; int generate_list_node(const parse_node_ptr p) { g_rows++; return 0; }
char* sanitize_string(char* s) { char* p = malloc(4); __CPROVER_assume(p != NULL); return p; }
void* pasm_malloc(size_t n, const char* f, int l) { void* p = malloc(n); __CPROVER_assume(p != NULL); return p; }
void pasm_free(void* p) { }
const char* pasm_strdup(const char* s, const char* f, int l) { return s; }
void vt_unput(int c) { }
long strtol(const char* s, char** e, int base) { return nondet_int(); }
int vt_buffers; void yypop_buffer_state(void) { }
char t3[12];
#ifndef BLANKS
#define BLANKS 1
#endif
char in_text[8 + BLANKS + 3];
/* .ifdef or .ifndef in any letter case, 1..BLANKS blanks or tabs, a name of one or two letters */
void ifdef_text(bool neg)
{
    const char* w = neg ? ".ifndef" : ".ifdef"; int n = neg ? 7 : 6, blanks = nondet_int(), k;
    for (k = 0; k < n; k++) in_text[k] = k > 0 && nondet_bool() ? w[k] - 32 : w[k];
    __CPROVER_assume(blanks >= 1 && blanks <= BLANKS);
    for (; k < n + BLANKS; k++) if (k < n + blanks) in_text[k] = nondet_bool() ? ' ' : '\t';
    in_text[n + blanks] = 'a'; in_text[n + blanks + 1] = nondet_bool() ? 'b' : 0; in_text[n + blanks + 2] = 0;
}

int in_rule, in_state;
long d0; int s0;
void begin(void)
{
    in_state = nondet_int(); g_depth = (long)nondet_int(); g_s = (long)nondet_int();
    __CPROVER_assume(g_depth >= 0 && g_depth <= 1000000);
    __CPROVER_assume(in_state == INITIAL || in_state == IF_DEF);
    if (in_state == IF_DEF) __CPROVER_assume(g_s >= 0 && g_s < g_depth); else g_s = -1;
    g_top = nondet_bool() ? 1 : 0;
    vt_start_state = in_state; d0 = g_depth; s0 = in_state;
    stk.instance = &inst; inst.index = g_depth - 1; stk.push = st_push; stk.pop = st_pop; stk.top = st_top;
    ifdef_stack = &stk;
    in_defined = nondet_bool();
    g_pushes = g_pops = g_lookups = 0; error_count = 0;
    final_pass = nondet_bool();
    yytext = t3;
}
#define SAME_STACK (g_depth == d0 && g_pushes == 0 && g_pops == 0)

#ifdef H_ifdef
void harness(void)
{
    begin(); __CPROVER_assume(in_state == INITIAL);
    bool neg = nondet_bool();
    ifdef_text(neg); yytext = in_text;
    int r = neg ? act_INITIAL_IFNDEFSYMB() : act_INITIAL_IFDEFSYMB();
    __CPROVER_assert(r == CONTINUE && error_count == 0, "a condition gives no token and no error");
    __CPROVER_assert(g_depth == d0 + 1 && g_pushes == 1 && g_pops == 0 && g_pushed == 0, "the conditional is open, as an .ifdef");
    __CPROVER_assert(g_lookups == 1 && g_named, "the symbol looked up is the one named");
    __CPROVER_assert(vt_start_state == (in_defined != neg ? INITIAL : IF_DEF), "its lines are assembled if the condition holds and skipped otherwise");
    __CPROVER_assert(0, "vt_reach");
}
#endif
#ifdef H_if
void harness(void)
{
    begin();
    int r = in_state == IF_DEF ? act_IF_DEF_IF() : act_INITIAL_IF();
    __CPROVER_assert(g_depth == d0 + 1 && g_pushes == 1 && g_pops == 0 && g_pushed == 1, "an .if is open");
    __CPROVER_assert(vt_start_state == in_state, "skipping or not as before");
    __CPROVER_assert(r == (in_state == IF_DEF ? CONTINUE : IF) && error_count == 0, "an assembled .if is passed on, a skipped one is not");
    __CPROVER_assert(0, "vt_reach");
}
#endif
#ifdef H_else
void harness(void)
{
    begin();
    int r = in_state == IF_DEF ? act_IF_DEF_ELSE() : act_INITIAL_ELSE();
    __CPROVER_assert(SAME_STACK, "the conditional stays open");
    if (in_state == IF_DEF)
    {
        __CPROVER_assert(r == CONTINUE, "no token while skipping");
        __CPROVER_assert(vt_start_state == (d0 - 1 == g_s ? INITIAL : IF_DEF), "the .else of the .ifdef that started skipping ends it, one of an inner conditional does not");
    }
    else if (d0 == 0) __CPROVER_assert(r == ELSE && vt_start_state == INITIAL, "an .else without conditional is passed on (an error)");
    else if (g_top == 1) __CPROVER_assert(r == ELSE && vt_start_state == INITIAL, "the .else of an .if is passed on");
    else __CPROVER_assert(r == CONTINUE && vt_start_state == IF_DEF, "the .else of an assembled .ifdef branch starts skipping");
    __CPROVER_assert(0, "vt_reach");
}
#endif
#ifdef H_endif
void harness(void)
{
    begin();
    int r = in_state == IF_DEF ? act_IF_DEF_ENDIF() : act_INITIAL_ENDIF();
    if (d0 == 0)
        __CPROVER_assert(r == ENDIF && SAME_STACK && vt_start_state == INITIAL, "an .endif without conditional is passed on (an error)");
    else
    {
        __CPROVER_assert(g_depth == d0 - 1 && g_pops == 1 && g_pushes == 0, "the innermost conditional is closed");
        if (in_state == IF_DEF)
            __CPROVER_assert(r == CONTINUE && vt_start_state == (d0 - 1 == g_s ? INITIAL : IF_DEF), "skipping ends exactly with the .ifdef that started it");
        else
            __CPROVER_assert(r == (g_top == 1 ? ENDIF : CONTINUE) && vt_start_state == INITIAL, "the .endif of an .if is passed on, that of an .ifdef is not");
    }
    __CPROVER_assert(0, "vt_reach");
}
#endif
#ifdef H_skip
/* every other rule of the skipping state */
#define IS_DIR(f) (f == act_IF_DEF_IF || f == act_IF_DEF_ELSE || f == act_IF_DEF_ENDIF)
void harness(void)
{
    begin(); __CPROVER_assume(in_state == IF_DEF);
    in_rule = nondet_int(); bool ran = false; int r = 0;
    for (int i = 0; i < 11; i++) t3[i] = (char)nondet_int();
    t3[11] = 0;
#define X(f, n) if (in_rule == n && !IS_DIR(f)) { ran = true; r = f(); }
    VT_RULES_IF_DEF(X)
    __CPROVER_assume(ran);
    __CPROVER_assert(r == CONTINUE && SAME_STACK && vt_start_state == IF_DEF && error_count == 0 && g_lookups == 0, "skipped text has no effect");
    __CPROVER_assert(0, "vt_reach");
}
#endif
#ifdef H_other
/* no other rule of the assembling state opens, closes or skips anything */
#define IS_DIR(f) (f == act_INITIAL_IF || f == act_INITIAL_ELSE || f == act_INITIAL_ENDIF || f == act_INITIAL_IFDEFSYMB || f == act_INITIAL_IFNDEFSYMB || f == act_INITIAL_EOF)
void harness(void)
{
    begin(); __CPROVER_assume(in_state == INITIAL);
    in_rule = nondet_int(); bool ran = false; int r = 0;
    for (int i = 0; i < 4; i++) t3[i] = (char)nondet_int();
    t3[4] = 0;
#define X(f, n) if (n >= LO && n < HI && in_rule == n && !IS_DIR(f)) { ran = true; r = f(); }
    VT_RULES_INITIAL(X)
    __CPROVER_assume(ran);
    __CPROVER_assert(SAME_STACK && (vt_start_state == INITIAL || vt_start_state == C_COMMENT), "other text does not change what is skipped");
    __CPROVER_assert(0, "vt_reach");
}
#endif
