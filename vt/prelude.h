/* included before every extracted file */
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <ctype.h>
#include <stdarg.h>
#define VT_MIN(a,b) ((a)<(b)?(a):(b))
#define VT_MAX(a,b) ((a)>(b)?(a):(b))
extern bool log_file_is_open;
