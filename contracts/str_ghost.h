#include <stdlib.h>
extern char* g_str; extern int in_len; extern char* g_out;
void* vt_malloc(size_t n);
#define malloc(n) vt_malloc(n)
