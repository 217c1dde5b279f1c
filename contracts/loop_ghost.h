/* Ghost state of the loop statements: what the statement has evaluated so far. */
#include <stdbool.h>
extern int g_state;     /* EXPECT_* or DONE */
extern int g_cond;      /* the last value of the condition */
extern int error_count, program_counter, max_address;
extern int g_errors_at_entry;
extern int in_step, in_end, g_expect;
extern int g_bodies;
enum { EXPECT_COND = 1, EXPECT_BODY, DONE, EXPECT_STEP };
