/* The generic-node abstraction of a bucket.  A is a node that does not match, standing for any number of such
   nodes: the loop contract may assign all of it, so each time it is visited it is another node.  M is the first
   node that matches, if there is one (g_has).  g_tail is what follows M. */
#include <stdbool.h>
#include "dictionary.h"
extern element g_A, g_M;
extern bool g_has;
extern const void* g_key;
extern element* g_tail;
extern element* g_table[8];
extern unsigned long g_bucket;
#define KEY_IS(k) ((k) == g_key)
#define NODE(x) ((x) == (g_has ? &g_M : (element*)0) || (x) == &g_A)
#define LIST (g_A.key != g_key && NODE(g_A.next) && g_M.key == g_key && g_M.next == g_tail)
