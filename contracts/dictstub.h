/* The two dispatch tables of the expander, as a ghost map from tag to function pointer.  The dictionary they
   are kept in is decided by P15; here insert and search have the behaviour P15 states. */
#define DS_MAX 64
static dict ds_dict[2];
static int ds_count, ds_n[2];
static size_t ds_key[2][DS_MAX];
static void* ds_val[2][DS_MAX];
static void* ds_found;
dictionary_ptr dict_create(int element_size, int key_type)
{
    __CPROVER_assert(ds_count < 2 && element_size == (int)sizeof(void*) && key_type != 0, "the expander has two tables of function pointers");
    return &ds_dict[ds_count++];
}
void* dict_insert(dictionary_ptr* d, void* key, void* value)
{
    int t = *d == &ds_dict[0] ? 0 : 1;
    __CPROVER_assert(ds_n[t] < DS_MAX, "room in the ghost table");
    ds_key[t][ds_n[t]] = (size_t)key;
    ds_val[t][ds_n[t]] = *(void**)value;
    return &ds_val[t][ds_n[t]++];
}
void* dict_search(dictionary_ptr d, const void* key)
{
    int t = d == &ds_dict[0] ? 0 : 1;
    for (int n = 0; n < DS_MAX; n++)
        if (n < ds_n[t] && ds_key[t][n] == (size_t)key) { ds_found = ds_val[t][n]; return &ds_found; }
    return NULL;
}
