#include "node.h"
extern int g_removed, in_total; extern parse_node g_n[2];
