#include "pasm.h"
#include "sym.h"
#define ARG(i) (&g_buf[4 * (i)])
extern char g_buf[4 * MAXN + 4]; extern char* g_argv[MAXN];
extern int in_argc, g_next, e_out, e_sym, e_dir, e_log, e_list, e_c64, e_v, e_cpuspec, e_cpu, e_illegal, e_nowarn, e_nfiles, e_defs, g_defs, e_track, in_track, g_errors, g_state, e_name, e_val, g_reported, g_cur;
extern bool e_error, e_help; extern symbol_table g_symbol; extern long g_num;
#include "opcodes.h"

/* what is set agrees with the options seen so far */
#define SET(v, e) (v == ((e) > 0 ? ARG(e) : (char*)0))
#define AGREE (SET(output_file_name, e_out) && SET(sym_file_name, e_sym) && SET(directories, e_dir) && SET(log_file_name, e_log) && SET(list_file_name, e_list) \
    && output_file_format == (e_c64 ? c64 : bin) && !verbose == !e_v && (int)cpu_mode == e_cpu && !allow_illegal_op_codes == !e_illegal && !ignore_warnings == !e_nowarn \
    && input_file_count == e_nfiles && g_defs == e_defs)
