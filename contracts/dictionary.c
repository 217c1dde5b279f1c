/* Contracts on dictionary.cc.  A bucket is a list from the most recent entry to the oldest. */
#include "error.h"
#include "memory.h"
#include "hash.h"
#include "dict_ghost.h"
bool log_file_is_open;
int nondet_int(void);
long nondet_long(void);
unsigned long nondet_ulong(void);
bool nondet_bool(void);
int error_count;
void error(int n) { error_count++; }
element g_A, g_M;
bool g_has;
const void* g_key;
element* g_tail;
element* g_table[8];
unsigned long g_bucket;
dict g_d;
#define REACH __CPROVER_assert(0, "vt_reach")

#if defined H_search || defined H_delete || defined H_insert
unsigned int g_hash;
/* the hash is any function of the key; only this key is hashed here */
unsigned int hash_function(const char* k) { return g_hash; }
unsigned int hash_pointer_function(const void* k) { return g_hash; }
/* keys are equal when the pointers are: text keys stand for their letter-case-insensitive class */
int stricmp(char const* a, char const* b) { return a == b ? 0 : 1; }
static void world(void)
{
    g_hash = nondet_int(); g_has = nondet_bool(); g_key = (void*)nondet_ulong(); g_bucket = g_hash % 8;
    g_d.size = 8; g_d.table = g_table; g_d.key_type = nondet_bool() ? 0 : -1;
    g_d.number_elements = nondet_long(); __CPROVER_assume(g_d.number_elements >= 0 && g_d.number_elements < 0x1000000);
    g_d.element_size = 8;
    g_A.key = (void*)nondet_ulong(); g_A.value = (void*)nondet_ulong();
    g_M.key = (void*)g_key; g_M.value = (void*)nondet_ulong();
    g_tail = (element*)nondet_ulong();
    g_A.next = nondet_bool() ? &g_A : (g_has ? &g_M : NULL);
    g_M.next = g_tail;
    for (int i = 0; i < 8; i++) g_table[i] = (element*)nondet_ulong();
    g_table[g_bucket] = nondet_bool() ? &g_A : (g_has ? &g_M : NULL);
    __CPROVER_assume(LIST);
}
#endif

#ifdef H_search
void harness(void)
{
    world();
    void* r = dict_search(&g_d, g_key);
    __CPROVER_assert(r == (g_has ? g_M.value : NULL), "the value of the first entry of the key, or nothing");
    REACH;
}
#endif
#ifdef H_delete
/* bounded: a bucket of up to N entries, each with the key or another one */
#define N 3
static element e[N]; static int g_count[N];
void free(void* p) { for (int i = 0; i < N; i++) if (p == &e[i]) g_count[i]++; }
void harness(void)
{
    g_hash = nondet_int(); g_bucket = g_hash % 8;
    g_d.size = 8; g_d.table = g_table; g_d.key_type = nondet_bool() ? 0 : -1; g_d.element_size = 8;
    g_d.number_elements = nondet_long(); __CPROVER_assume(g_d.number_elements >= 0 && g_d.number_elements < 0x1000000);
    for (int i = 0; i < 8; i++) g_table[i] = nondet_bool() ? &g_A : NULL;
    int in_n = nondet_int(); __CPROVER_assume(in_n >= 0 && in_n <= N);
    bool in_match[N]; int victim = -1;
    char spare[N];
    static char kk[2];
    g_key = &kk[0];
    g_table[g_bucket] = NULL;
    for (int i = N - 1; i >= 0; i--)
        if (i < in_n)
        {
            in_match[i] = nondet_bool();
            e[i].key = in_match[i] ? &kk[0] : &kk[1];
            e[i].value = &spare[i];
            e[i].next = g_table[g_bucket];
            g_table[g_bucket] = &e[i];
            if (in_match[i]) victim = i;
        }
    long n = g_d.number_elements;
    unsigned long in_other = nondet_ulong();
    __CPROVER_assume(in_other < 8 && in_other != g_bucket);
    element* other = g_table[in_other];
    dict_delete(&g_d, g_key);
    __CPROVER_assert(g_table[in_other] == other, "other buckets are unchanged");
    __CPROVER_assert(g_d.number_elements == n - (victim >= 0), "the number of entries is right");
    element* x = g_table[g_bucket];
    for (int i = 0; i < N; i++)
    {
        __CPROVER_assert(g_count[i] == (i == victim), "exactly the deleted entry is released, once");
        if (i < in_n && i != victim)
        {
            __CPROVER_assert(x == &e[i] && e[i].value == &spare[i], "the other entries stay, in order, with their values");
            x = x == &e[i] ? e[i].next : NULL;
        }
    }
    __CPROVER_assert(x == NULL, "nothing follows");
    REACH;
}
#endif

#ifdef H_insert
#define VSIZE 8
dict g_grown; int g_grows, g_searches;
dictionary_ptr grow(dictionary_ptr d)
{
    __CPROVER_assert(d == &g_d, "the dictionary itself grows");
    __CPROVER_assert(d->table[g_bucket] != NULL, "the new entry is in the table when it grows");
    g_grows++; return &g_grown;
}
void* dict_search(dictionary_ptr d, const void* key)
{
    __CPROVER_assert(d == &g_grown && (key == g_key), "the new entry is looked up in the grown table");
    g_searches++; return &g_grown;
}
char g_copy;
char* strdup(const char* s) { __CPROVER_assert(s == g_key, "the key is copied"); return &g_copy; }
void harness(void)
{
    world();
    char key; g_key = &key;
    unsigned char value[VSIZE]; unsigned long k = nondet_ulong(); __CPROVER_assume(k < VSIZE);
    long n = g_d.number_elements;
    element* head = g_table[g_bucket];
    unsigned long in_other = nondet_ulong();
    __CPROVER_assume(in_other < 8 && in_other != g_bucket);
    element* other = g_table[in_other];
    dictionary_ptr d = &g_d;
    void* r = dict_insert(&d, (void*)g_key, value);
    __CPROVER_assert(r != NULL, "a place for the value");
    __CPROVER_assert(g_table[in_other] == other, "other buckets are unchanged");
    element* e = g_table[g_bucket];
    __CPROVER_assert(e != head && e != NULL && e->next == head, "the new entry is the first of its bucket, the others follow");
    __CPROVER_assert(e->key == (g_d.key_type == 0 ? (void*)&g_copy : g_key), "it has the key");
    __CPROVER_assert(((unsigned char*)e->value)[k] == value[k], "it has a copy of the value");
    __CPROVER_assert(g_d.number_elements == n + 1, "one entry more");
    __CPROVER_assert(g_grows <= 1 && (d == &g_d) == (g_grows == 0) && (g_grows == 0 || d == &g_grown), "the dictionary is the grown one");
    __CPROVER_assert(g_grows == 1 || r == e->value, "the place of the value is returned");
    __CPROVER_assert(g_grows == 0 || r == &g_grown, "the place of the value in the grown table is returned");
    __CPROVER_assert(n + 1 >= 8 ? g_grows == 1 : true, "the table grows before it is full");
    REACH;
}
#endif

#ifdef H_create
void harness(void)
{
    int in_size = nondet_int(), in_type = nondet_int(); error_count = 0;
    __CPROVER_assume(in_size >= 1 && in_size <= 4096);
    dictionary_ptr d = dict_create(in_size, in_type);
    __CPROVER_assert(d->size > 0 && d->number_elements == 0 && d->element_size == in_size && d->key_type == in_type, "a new dictionary is empty");
    unsigned long k = nondet_ulong(); __CPROVER_assume(k < (unsigned long)d->size);
    __CPROVER_assert(d->table[k] == NULL, "every bucket is empty");
    __CPROVER_assert(error_count == 0, "no error");
    REACH;
}
#endif

#ifdef H_grow
/* bounded: a table of 2 buckets, up to 3 entries of 3 different keys with any hash values */
dictionary_ptr grow(dictionary_ptr d);
unsigned in_h[3]; char keys[3];
static unsigned hk(const void* k) { return k == &keys[0] ? in_h[0] : k == &keys[1] ? in_h[1] : in_h[2]; }
unsigned int hash_function(const char* k) { return hk(k); }
unsigned int hash_pointer_function(const void* k) { return hk(k); }
int stricmp(char const* a, char const* b) { return a == b ? 0 : 1; }
#define N 3
static dict g_old; static element* t[2]; static element e[N];
static int g_bad_free;
void free(void* p) { if (p != (void*)&g_old && p != (void*)t) g_bad_free = 1; }
void harness(void)
{
    error_count = 0;
    dictionary_ptr d = &g_old; g_bad_free = 0;
    int in_key[N];
    t[0] = t[1] = NULL;
    d->size = 2; d->table = t; d->key_type = nondet_bool() ? 0 : -1; d->element_size = 8; d->collisions = 0;
    for (int i = 0; i < 3; i++) in_h[i] = nondet_int();
    int n = nondet_int(); __CPROVER_assume(n >= 0 && n <= N);
    d->number_elements = n;
    for (int i = 0; i < n; i++)     /* e[0] is the oldest */
    {
        in_key[i] = nondet_int(); __CPROVER_assume(in_key[i] >= 0 && in_key[i] < 3);
        e[i].key = &keys[in_key[i]]; e[i].value = (void*)nondet_ulong();
        e[i].next = t[in_h[in_key[i]] % 2]; t[in_h[in_key[i]] % 2] = &e[i];
    }
    void* value[N]; for (int i = 0; i < n; i++) value[i] = e[i].value;
    dictionary_ptr g = grow(d);
    __CPROVER_assert(!g_bad_free, "no entry is released");
    __CPROVER_assert(g->size > 2 && g->number_elements == n && g->element_size == 8, "the grown dictionary has the same entries");
    for (int k = 0; k < 3; k++)     /* each key: the entries of the key, most recent first, in the bucket of the key */
    {
        int want = n - 1;
        for (element* x = g->table[in_h[k] % g->size]; x != NULL; x = x->next)
        {
            if (x->key != &keys[k]) continue;
            while (want >= 0 && in_key[want] != k) want--;
            __CPROVER_assert(want >= 0 && x == &e[want] && x->value == value[want], "the entries of a key in order, at their place, with their values");
            want--;
        }
        while (want >= 0 && in_key[want] != k) want--;
        __CPROVER_assert(want < 0, "no entry is lost");
    }
    REACH;
}
#endif
#ifdef H_hash
/* bounded: text keys of up to L characters */
#ifndef L
#define L 2
#endif
void harness(void)
{
    char in_a[L + 1], in_b[L + 1];
    in_a[L] = in_b[L] = 0;
    int eq = 1, done = 0;
    for (int i = 0; i <= L; i++)
    {
        if (!done && tolower(in_a[i]) != tolower(in_b[i])) eq = 0, done = 1;
        if (!in_a[i] || !in_b[i]) done = 1;
    }
    int c = stricmp(in_a, in_b);
    __CPROVER_assert((c == 0) == (eq == 1), "keys match when they are equal up to letter case");
    if (eq) __CPROVER_assert(hash_function(in_a) == hash_function(in_b), "keys which are equal up to letter case have the same hash");
    REACH;
}
#endif
