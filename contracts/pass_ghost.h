#include "pasm.h"
extern int g_parsed, g_opened, g_closed, g_freed, in_n, g_resets; extern bool g_is_open;
