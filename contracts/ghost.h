/* ghost variables the loop contracts mention */
extern unsigned long g_n, g_k;
extern unsigned char g_b;
extern bool g_short, g_may_fail;
