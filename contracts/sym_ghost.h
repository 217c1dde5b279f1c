#include <stdbool.h>
#include "dictionary.h"
#include "sym.h"
/* tables of anonymous labels: an arbitrary entry */
extern int in_track, g_line; extern bool in_match; extern char g_mine, g_other;
/* the dictionary of symbols, see H_unresolved */
extern element g_A, g_B, g_C, g_T; extern symbol_table g_sD, g_sA, g_sB, g_sC, g_sT; extern bool in_none, g_track; extern int g_bucket;
#define UNRESOLVED(s) (!(s).is_initialized && !(s).is_macro_name && !(s).is_var && !(s).is_plus_minus && !(s).is_macro_param)
#define LISTS (in_none ==> (!UNRESOLVED(g_sA) && !UNRESOLVED(g_sB) && !UNRESOLVED(g_sC) && !UNRESOLVED(g_sD)))
/* parameters of a macro call */
extern int in_k, in_max, in_value; extern bool g_pushed; extern int g_index, error_count; extern symbol_table g_k;
