#include <stdbool.h>
/* the table: entries [g_B, g_E) are the labels of the file, those up to g_F lie at or before the line */
extern int g_B, g_E, g_F, g_n;
