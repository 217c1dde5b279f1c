#include <stdio.h>
/* the verifier does not follow variable argument lists of pointers well */
int vt_fpf(FILE* f, const char* fmt, long a, long b);
#define VT_FPF(f, fmt, a, b, ...) vt_fpf(f, fmt, (long)(a), (long)(b))
#define fprintf(f, ...) VT_FPF(f, __VA_ARGS__, 0, 0)
