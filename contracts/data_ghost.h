#include <stdbool.h>
#include "node.h"
extern int in_count, in_byte, in_pc, g_emitted, g_listed;
extern int program_counter, error_count, data_size;
extern parse_node g_dn1, g_dn2;
extern long in_len, g_pos, g_k; extern int g_byte, g_seen; extern bool g_eof;
extern bool origin_specified; extern int g_origins;
extern parse_node g_konst1, g_konst2, g_konst, g_list;
