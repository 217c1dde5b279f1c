/* Contracts on sanitize_string_length (str.cc). */
#include <ctype.h>
#include "error.h"
#include "memory.h"
#include "str.h"
#include "str_ghost.h"
bool log_file_is_open;
int nondet_int(void); unsigned nondet_uint(void); char nondet_char(void);
int error_count;
void error(int n) { error_count++; }
void error2(int n, const char* p) { error_count++; }
void exit(int c) { __CPROVER_assume(0); }
char* g_str; int in_len;
char* g_out; size_t g_cap;
#undef malloc
void* vt_malloc(size_t n) { void* p = malloc(n); __CPROVER_assume(p != NULL); g_out = p; g_cap = n; return p; }
void* pasm_malloc(size_t n, const char* f, int l) { void* p = malloc(n); __CPROVER_assume(p != NULL); g_out = p; g_cap = n; return p; }
void pasm_free(void* p) { }
int hexv(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
#undef isxdigit
#undef tolower
/* the C library, for single bytes (of the C locale) */
int isxdigit(int c) { return hexv(c) >= 0; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }

#ifdef H_safe
void* memset(void* p, int c, size_t n) { __CPROVER_assert(__CPROVER_w_ok(p, n), "inside the result"); return p; }   /* (what the result holds is not read) */
/* strings of any length: the decoder stays inside the string and inside its result.  Only the place of the terminating
   zero is known; every other byte is arbitrary (a zero among them only ends the string earlier). */
size_t strlen(const char* s) {
#ifdef SMALL
    int k = 0; while (s[k]) k++; return (size_t)k;
#endif
    __CPROVER_assert(s == g_str, "the length of the string"); return (size_t)in_len; }
long strtol(const char* s, char** e, int base) { return nondet_int(); }
void harness(void)
{
    in_len = nondet_int(); __CPROVER_assume(in_len >= 0 && in_len <= MAXN);
    g_str = malloc((size_t)in_len + 1); __CPROVER_assume(g_str != NULL);
    g_str[in_len] = 0;
#ifdef SMALL
    __CPROVER_assume(in_len == 3 && g_str[0] && g_str[1] && g_str[2]);
#endif
    int n = nondet_int();
    error_count = 0;
    char* r = sanitize_string_length(g_str, &n);
    __CPROVER_assert(r == g_out && g_cap == (size_t)in_len + 1, "the result has room for every character and a zero");
    __CPROVER_assert(n >= 0 && n <= in_len, "the length is that of what was decoded");
    __CPROVER_assert(r[n] == 0 || n <= in_len, "inside the result");
#ifndef NOREACH
    __CPROVER_assert(0, "vt_reach");
#endif
}
#endif
#ifdef H_decode
/* all strings of up to MAXLEN characters: the decoded characters, their number, and whether an error is reported */
long strtol(const char* s, char** e, int base)
{
    __CPROVER_assert(base == 16 && s[2] == 0 && hexv(s[0]) >= 0 && hexv(s[1]) >= 0, "a pair of hex digits");
    return hexv(s[0]) * 16 + hexv(s[1]);
}
char in_s[MAXLEN + 1];
unsigned char want[MAXLEN + 1]; int want_n, want_err;
void reference(void)
{
    int i = 0, k = 0;
    for (int step = 0; step < MAXLEN; step++)
    {
        char c = in_s[i];
        if (c == 0) break;
        if (c != '\\') { want[k++] = (unsigned char)c; i++; continue; }
        char e = in_s[i + 1];
        if (e == 'x' || e == 'X')
        {
            i += 2;
            if (in_s[i] == 0) { want_err++; want[k++] = 0xFF; continue; }   /* (nothing decoded: value not compared) */
            for (int h = 0; h < MAXLEN / 2; h++)
                if (hexv(in_s[i]) >= 0 && hexv(in_s[i + 1]) >= 0) { want[k++] = (unsigned char)(hexv(in_s[i]) * 16 + hexv(in_s[i + 1])); i += 2; } else break;
            continue;
        }
        int d = -1;
        switch (e) { case 'a': case 'A': d = 7; break; case 'b': case 'B': d = 8; break; case 'f': case 'F': d = 12; break; case 'v': case 'V': d = 11; break;
            case 'r': case 'R': d = 13; break; case 'n': case 'N': d = 10; break; case 't': case 'T': d = 9; break; case '\'': case '"': case '\\': d = e; break; }
        if (d < 0) { d = '?'; want_err++; }
        want[k++] = (unsigned char)d;
        i += e ? 2 : 1;
    }
    want_n = k;
}
void harness(void)
{
    for (int i = 0; i < MAXLEN; i++) in_s[i] = nondet_char();
    in_s[MAXLEN] = 0;
    g_str = in_s;
    reference();
    int n = -1; error_count = 0;
    char* r = sanitize_string_length(in_s, &n);
    __CPROVER_assert((error_count > 0) == (want_err > 0), "an error is reported exactly for an unknown escape");
    bool bare_x = error_count > 0;
    __CPROVER_assert(n == want_n, "the number of decoded characters");
    for (int i = 0; i < MAXLEN; i++) if (i < want_n && i < n)
        __CPROVER_assert((unsigned char)r[i] == want[i] || (want[i] == 0xFF && want_err > 0), "each decoded character");
    __CPROVER_assert(r[n] == 0, "followed by a zero");
    __CPROVER_assert(0, "vt_reach");
}
#endif
