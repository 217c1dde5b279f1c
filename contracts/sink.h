/* Ghost model of the output file, shared by the harnesses.

   g_n  number of bytes written to the output file so far
   g_k  an arbitrary fixed position of the output (never assigned by the code under proof)
   g_b  the byte at position g_k, once it has been written
   g_short  a write was refused or cut short

   g_k is arbitrary, so a contract about g_b speaks about every byte of the output. */
#include <stdio.h>
unsigned long g_n, g_k;
unsigned char g_b;
bool g_short, g_may_fail;
int nondet_int(void);
unsigned char nondet_uchar(void);
unsigned long nondet_ulong(void);
bool nondet_bool(void);

size_t fwrite(const void* ptr, size_t size, size_t count, FILE* file)
{
    __CPROVER_assert(size == 1, "fwrite is called with byte elements");
    size_t done = count;
    if (g_may_fail && count > 0 && nondet_bool())
    {
        done = nondet_ulong();
        __CPROVER_assume(done < count);
        g_short = true;
    }
    if (g_k >= g_n && g_k - g_n < done)
        g_b = ((const unsigned char*)ptr)[g_k - g_n];
    g_n += done;
    return done;
}
