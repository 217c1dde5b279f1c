/* Contracts on the tables of anonymous labels (sym.cc).
   The table is sorted by file and line, so the labels of one file are one block [g_B, g_E) of it, and those at or
   before a line are a beginning [g_B, g_F] of the block (g_F = g_B - 1: none).  These three numbers are ghost; the
   table may have any number of entries. */
#include "expand.h"
#include "error.h"
#include "flex.h"
#include "memory.h"
#include "pasm.h"
#include "sym.h"
#include "anon_ghost.h"
bool log_file_is_open;
int nondet_int(void);
long nondet_long(void);
bool nondet_bool(void);
int error_count;
void error(int n) { error_count++; }
int g_B, g_E, g_F, g_n;
#ifdef NOREACH
#define REACH
#else
#define REACH __CPROVER_assert(0, "vt_reach")
#endif
#ifndef MAXN
#define MAXN 0x100000
#endif
extern int plus_symbol_table_index, minus_symbol_table_index;
#ifdef PLUS
#define TABLE plus_symbol_table
#define COUNT plus_symbol_table_index
#define FIND find_plus_symbol
#define DEFN find_plus_symbol_definition
#define ADD add_plus_symbol
#else
#define TABLE minus_symbol_table
#define COUNT minus_symbol_table_index
#define FIND find_minus_symbol
#define DEFN find_minus_symbol_definition
#define ADD add_minus_symbol
#endif
/* file names stand for their letter-case-insensitive class */
int stricmp(char const* a, char const* b)
{
    if (a == b) return 0;
    int r = nondet_int(); __CPROVER_assume(r != 0);
    return r;
}
char g_mine, g_other;
plus_minus_sym* table(int n)
{
    plus_minus_sym* t = malloc(sizeof(plus_minus_sym) * n);
    __CPROVER_assume(t != NULL);
    return t;
}

#ifdef H_find
void harness(void)
{
    int depth = nondet_int(), line = nondet_int();
    g_n = nondet_int(); __CPROVER_assume(g_n >= 0 && g_n <= MAXN);
    g_B = nondet_int(); g_E = nondet_int(); g_F = nondet_int();
    __CPROVER_assume(0 <= g_B && g_B <= g_E && g_E <= g_n && g_B - 1 <= g_F && g_F < g_E);
    __CPROVER_assume(depth >= 1);
    COUNT = g_n;
    TABLE = table(g_n);
    const plus_minus_sym* t = TABLE;
#ifdef BOUNDED
    for (int i = 0; i < MAXN; i++) if (i < g_n)
        __CPROVER_assume(i >= g_B && i < g_E ? (t[i].file == &g_mine && (i <= g_F ? t[i].line <= line : t[i].line > line)) : t[i].file == &g_other);
#else
    __CPROVER_assume(__CPROVER_forall { int i; (i >= g_B && i < g_E) ==> t[i].file == &g_mine });
    __CPROVER_assume(__CPROVER_forall { int i; ((i >= 0 && i < g_B) || (i >= g_E && i < g_n)) ==> t[i].file == &g_other });
    __CPROVER_assume(__CPROVER_forall { int i; (i >= g_B && i <= g_F) ==> t[i].line <= line });
    __CPROVER_assume(__CPROVER_forall { int i; (i > g_F && i < g_E) ==> t[i].line > line });
#endif
    error_count = 0;
    int r = FIND(depth, &g_mine, line);
#ifdef PLUS
    __CPROVER_assert(r == (depth <= g_E - 1 - g_F ? g_F + depth : -1), "the depth-th closest label of the file after the line, or none");
#else
    __CPROVER_assert(r == (depth <= g_F - g_B + 1 ? g_F - depth + 1 : -1), "the depth-th closest label of the file at or before the line, or none");
#endif
    __CPROVER_assert(error_count == 0 && COUNT == g_n && TABLE == t, "nothing else changes");
    REACH;
}
#endif
