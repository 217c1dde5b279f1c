#include <stdio.h>
/* the verifier does not promote the arguments of a variable argument list */
int vt_spf(char* d, const char* f, long a, long b, long c, long e);
#define VT_SPF(d, f, a, b, c, e, ...) vt_spf(d, f, (long)(a), (long)(b), (long)(c), (long)(e))
#define sprintf(d, ...) VT_SPF(d, __VA_ARGS__, 0, 0, 0, 0)
