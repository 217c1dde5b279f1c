#include <stdio.h>
#include "sym.h"
extern symbol_table g_k, g_other; extern int in_k, in_arg, in_n, g_index, error_count; extern bool g_is_label;
/* the verifier cannot follow a variable argument list through a loop contract */
int vt_spf(char* d, const char* f, long a, long b);
#ifdef EXPAND_UNIT
#define VT_SPF(d, f, a, b, ...) vt_spf(d, f, (long)(a), (long)(b))
#define sprintf(d, f, ...) VT_SPF(d, f, __VA_ARGS__, 0, 0)
#endif
