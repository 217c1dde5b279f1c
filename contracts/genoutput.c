/* Contracts on the functions of genoutput.cc */
#include <stdio.h>
#include "error.h"
#include "expand.h"
#include "genoutput.h"
#include "node.h"
#include "opcodes.h"
#include "pasm.h"
#include "sink.h"

bool log_file_is_open;
int error_count;
bool origin_specified;
int data_size, output_file_format, program_counter;
FILE* output_file;
extern int byte_delta, origin;

/* error() reports and counts; that it does is proved in P18 */
void error(int n) { error_count++; }

/* the value of the operand: an arbitrary int, chosen by the harness */
int g_value;
int expand_node(parse_node_ptr p) { return g_value; }

#define WROTE(from, count, byte_at) \
    (g_n == (from) + (count) && g_b == ((g_k >= (from) && g_k - (from) < (unsigned long)(count)) ? (unsigned char)(byte_at) : __CPROVER_old(g_b)))
#define SINK g_n, g_b, g_short

int write_byte(FILE* file, unsigned char ch)
__CPROVER_requires(!g_may_fail)
__CPROVER_assigns(SINK, error_count)
__CPROVER_ensures(WROTE(__CPROVER_old(g_n), 1, ch))
__CPROVER_ensures(__CPROVER_return_value == 1 && error_count == __CPROVER_old(error_count))
;
int write_word(FILE* file, int word)
__CPROVER_requires(!g_may_fail)
__CPROVER_assigns(SINK, error_count)
__CPROVER_ensures(WROTE(__CPROVER_old(g_n), 2, g_k == __CPROVER_old(g_n) ? (word & 0xFF) : ((word >> 8) & 0xFF)))
__CPROVER_ensures(__CPROVER_return_value == 2 && error_count == __CPROVER_old(error_count))
;
int write_data(FILE* file, int data)
__CPROVER_requires(!g_may_fail && (data_size == 1 || data_size == 2))
__CPROVER_assigns(SINK, error_count)
__CPROVER_ensures(WROTE(__CPROVER_old(g_n), data_size, g_k == __CPROVER_old(g_n) ? (data & 0xFF) : ((data >> 8) & 0xFF)))
__CPROVER_ensures(__CPROVER_return_value == data_size && error_count == __CPROVER_old(error_count))
;

#define ONE_BYTE(m) ((m) == I || (m) == r || (m) == zp || (m) == zpi || (m) == zpx || (m) == zpy || (m) == izx || (m) == izy)
#define TWO_BYTES(m) ((m) == a || (m) == ax || (m) == ay || (m) == aix || (m) == ind)
#define NO_BYTES(m) ((m) == A || (m) == i)
#define OPERAND_BYTES(m) (ONE_BYTE(m) ? 1 : TWO_BYTES(m) ? 2 : 0)

int get_op_code_byte_count(parse_node_ptr p)
__CPROVER_requires(__CPROVER_is_fresh(p, sizeof(parse_node)) && p->type == type_op_code)
__CPROVER_requires(ONE_BYTE(p->opcode.mode) || TWO_BYTES(p->opcode.mode) || NO_BYTES(p->opcode.mode))
__CPROVER_assigns(error_count)
__CPROVER_ensures(__CPROVER_return_value == OPERAND_BYTES(p->opcode.mode))
__CPROVER_ensures(error_count == __CPROVER_old(error_count))
;

/* one instruction: opcode byte, then the operand in the form its addressing mode prescribes */
#define DISP(p) (g_value - ((p)->opcode.program_counter + 2))
#define DISP_OK(p) (DISP(p) >= -128 && DISP(p) <= 127)
#define REACHABLE(p) ((p)->opcode.mode != r || DISP_OK(p))
#define OPERAND(p) ((p)->opcode.mode == r ? DISP(p) : g_value)
int write_opcode_node(FILE* file, parse_node_ptr p)
__CPROVER_requires(!g_may_fail)
__CPROVER_requires(__CPROVER_is_fresh(p, sizeof(parse_node)) && p->type == type_op_code)
__CPROVER_requires(__CPROVER_is_fresh(p->op, sizeof(parse_node_ptr)))
__CPROVER_requires(ONE_BYTE(p->opcode.mode) || TWO_BYTES(p->opcode.mode) || NO_BYTES(p->opcode.mode))
__CPROVER_requires(p->opcode.program_counter >= 0 && p->opcode.program_counter <= 0xFFFFFF && g_value >= -0xFFFFFF && g_value <= 0xFFFFFF)
__CPROVER_requires(total_bytes_written >= 0 && total_bytes_written < 0x7000000)
__CPROVER_assigns(SINK, error_count, total_bytes_written, data_size)
__CPROVER_ensures(REACHABLE(p) ==> error_count == __CPROVER_old(error_count))
__CPROVER_ensures(REACHABLE(p) ==> WROTE(__CPROVER_old(g_n), 1 + OPERAND_BYTES(p->opcode.mode),
                  g_k == __CPROVER_old(g_n) ? p->opcode.opcode : g_k == __CPROVER_old(g_n) + 1 ? (OPERAND(p) & 0xFF) : ((OPERAND(p) >> 8) & 0xFF)))
__CPROVER_ensures(!REACHABLE(p) ==> error_count > __CPROVER_old(error_count) && g_n >= __CPROVER_old(g_n) && g_n <= __CPROVER_old(g_n) + 1)
__CPROVER_ensures(g_k < __CPROVER_old(g_n) ==> g_b == __CPROVER_old(g_b))
__CPROVER_ensures(total_bytes_written - __CPROVER_old(total_bytes_written) == g_n - __CPROVER_old(g_n))
__CPROVER_ensures(REACHABLE(p) ==> __CPROVER_return_value >= 1)
;

/* one value of a data list; data_size 1 .byte, 2 .word, 0 .str */
#define DATA_OK (data_size == 1 ? (g_value >= -254 && g_value <= 255) : (g_value >= -65534 && g_value <= 65535))
#define DATA_LEN (data_size == 1 ? 1 : data_size == 2 ? 2 : (g_value & ~0xFF) == 0 ? 1 : 2)
int write_data_node(FILE* file, parse_node_ptr p)
__CPROVER_requires(!g_may_fail && data_size >= 0 && data_size <= 2)
__CPROVER_requires(g_value > -0x7FFFFFFF)
__CPROVER_requires(total_bytes_written >= 0 && total_bytes_written < 0x7000000)
__CPROVER_assigns(SINK, error_count, total_bytes_written)
__CPROVER_ensures(DATA_OK ==> error_count == __CPROVER_old(error_count) && __CPROVER_return_value == DATA_LEN)
__CPROVER_ensures(DATA_OK ==> WROTE(__CPROVER_old(g_n), DATA_LEN, g_k == __CPROVER_old(g_n) ? (g_value & 0xFF) : ((g_value >> 8) & 0xFF)))
__CPROVER_ensures(!DATA_OK ==> error_count > __CPROVER_old(error_count) && WROTE(__CPROVER_old(g_n), 0, 0))
__CPROVER_ensures(total_bytes_written - __CPROVER_old(total_bytes_written) == g_n - __CPROVER_old(g_n))
;

int write_string(FILE* file, const char* str, size_t len)
__CPROVER_requires(!g_may_fail && len <= 0x10000 && __CPROVER_is_fresh(str, len + 1))
__CPROVER_assigns(SINK, error_count)
__CPROVER_ensures(WROTE(__CPROVER_old(g_n), len, str[g_k - __CPROVER_old(g_n)]))
__CPROVER_ensures(__CPROVER_return_value == (int)len && error_count == __CPROVER_old(error_count))
;
/* a string item; in a .word list it is padded to whole words with a zero */
#define STR_LEN(p) ((unsigned long)(p)->str.len)
#define STR_PAD(p) ((unsigned long)(data_size == 2 && (p)->str.len % 2 ? 1 : 0))
int write_string_node(FILE* file, parse_node_ptr p)
__CPROVER_requires(!g_may_fail && data_size >= 0 && data_size <= 2)
__CPROVER_requires(__CPROVER_is_fresh(p, sizeof(parse_node)) && p->type == type_str)
__CPROVER_requires(p->str.len >= 0 && p->str.len <= 0x10000 && __CPROVER_is_fresh(p->str.value, (size_t)p->str.len + 1))
__CPROVER_requires(total_bytes_written >= 0 && total_bytes_written < 0x7000000)
__CPROVER_assigns(SINK, error_count, total_bytes_written)
__CPROVER_ensures(WROTE(__CPROVER_old(g_n), STR_LEN(p) + STR_PAD(p),
                  g_k - __CPROVER_old(g_n) < STR_LEN(p) ? p->str.value[g_k - __CPROVER_old(g_n)] : 0))
__CPROVER_ensures(__CPROVER_return_value >= 0 && error_count == __CPROVER_old(error_count))
__CPROVER_ensures(total_bytes_written - __CPROVER_old(total_bytes_written) == g_n - __CPROVER_old(g_n))
;

/* the header of a C64 program file: the address of the first byte, low byte first */
#define HDR_ORIGIN (origin_specified ? __CPROVER_old(origin) : program_counter)
int write_header(FILE* file)
__CPROVER_requires(!g_may_fail && total_bytes_written == 0)
__CPROVER_assigns(SINK, error_count, total_bytes_written, byte_delta, origin)
__CPROVER_ensures(origin == HDR_ORIGIN && error_count == __CPROVER_old(error_count))
__CPROVER_ensures(output_file_format == c64 ==> WROTE(__CPROVER_old(g_n), 2, g_k == __CPROVER_old(g_n) ? (origin & 0xFF) : ((origin >> 8) & 0xFF)))
__CPROVER_ensures(output_file_format != c64 ==> WROTE(__CPROVER_old(g_n), 0, 0))
__CPROVER_ensures(byte_delta == (output_file_format == c64 ? 2 : 0) && total_bytes_written == byte_delta && __CPROVER_return_value == byte_delta)
;
/* zero bytes up to the address the next byte belongs to */
#define PAD(d) ((d) + byte_delta > __CPROVER_old(total_bytes_written) ? (unsigned long)((d) + byte_delta - __CPROVER_old(total_bytes_written)) : 0ul)
int write_program_counter_pad(FILE* file, int delta)
__CPROVER_requires(!g_may_fail && byte_delta >= 0 && byte_delta <= 2 && delta <= 0x1000000 && delta >= -0x1000000)
__CPROVER_requires(total_bytes_written >= 0 && total_bytes_written < 0x7000000 && g_n == (unsigned long)total_bytes_written)
__CPROVER_assigns(SINK, error_count, total_bytes_written)
__CPROVER_ensures(WROTE(__CPROVER_old(g_n), PAD(delta), 0))
__CPROVER_ensures(__CPROVER_return_value == 0 && error_count == __CPROVER_old(error_count))
__CPROVER_ensures(g_n == (unsigned long)total_bytes_written)
;

/* set_output_origin: the next byte of the image belongs to address */
void set_output_origin(int address)
__CPROVER_requires(address >= -0x1000000 && address <= 0x1000000 && byte_delta >= 0 && byte_delta <= 2 && total_bytes_written >= 0 && total_bytes_written < 0x7000000)
__CPROVER_assigns(origin)
__CPROVER_ensures(address - origin == total_bytes_written - byte_delta)
;

/* generate_output: header before the first byte, zero bytes up to the address of the node, then the node */
#define ACTIVE (file != NULL && origin_specified)
#define HDR(t0) ((t0) == 0 && output_file_format == c64 ? 2 : 0)
#define DELTA(t0) ((t0) == 0 ? HDR(t0) : __CPROVER_old(byte_delta))
#define BASE(t0) ((t0) == 0 ? HDR(t0) : (t0))
/* offset in the file at which the byte for the current address belongs */
#define OFFSET(t0) (program_counter - origin + DELTA(t0))
#define NODEPOS(t0) ((unsigned long)(OFFSET(t0) > BASE(t0) ? OFFSET(t0) : BASE(t0)))
#define OLDT __CPROVER_old(total_bytes_written)
#define NODE_OK(p) ((p) == NULL || (p)->type == type_str || ((p)->type == type_op_code ? REACHABLE(p) : DATA_OK_OLD))
#define DATA_OK_OLD (__CPROVER_old(data_size) == 1 ? (g_value >= -254 && g_value <= 255) : (g_value >= -65534 && g_value <= 65535))
#define DATA_LEN_OLD (__CPROVER_old(data_size) == 1 ? 1ul : __CPROVER_old(data_size) == 2 ? 2ul : (g_value & ~0xFF) == 0 ? 1ul : 2ul)
#define NODELEN(p) ((p) == NULL ? 0ul : (p)->type == type_str ? STR_LEN(p) + (unsigned long)(__CPROVER_old(data_size) == 2 && (p)->str.len % 2 ? 1 : 0) \
    : (p)->type == type_op_code ? 1ul + OPERAND_BYTES((p)->opcode.mode) : DATA_LEN_OLD)
int generate_output(FILE* file, parse_node_ptr p)
__CPROVER_requires(!g_may_fail && data_size >= 0 && data_size <= 2 && g_value > -0x7FFFFFFF)
__CPROVER_requires(p == NULL || __CPROVER_is_fresh(p, sizeof(parse_node)))
__CPROVER_requires((p != NULL && p->type == type_op_code) ==> (__CPROVER_is_fresh(p->op, sizeof(parse_node_ptr))
    && (ONE_BYTE(p->opcode.mode) || TWO_BYTES(p->opcode.mode) || NO_BYTES(p->opcode.mode))
    && p->opcode.program_counter >= 0 && p->opcode.program_counter <= 0xFFFFFF && g_value >= -0xFFFFFF && g_value <= 0xFFFFFF))
__CPROVER_requires((p != NULL && p->type == type_str) ==> (p->str.len >= 0 && p->str.len <= 0x10000 && __CPROVER_is_fresh(p->str.value, (size_t)p->str.len + 1)))
__CPROVER_requires(byte_delta >= 0 && byte_delta <= 2 && total_bytes_written >= 0 && total_bytes_written < 0x1000000 && g_n == (unsigned long)total_bytes_written)
__CPROVER_assigns(SINK, error_count, total_bytes_written, data_size, byte_delta, origin)
__CPROVER_ensures(!ACTIVE ==> __CPROVER_return_value == 0 && WROTE(__CPROVER_old(g_n), 0, 0) && error_count == __CPROVER_old(error_count))
__CPROVER_ensures(g_n == (unsigned long)total_bytes_written && origin == __CPROVER_old(origin))
__CPROVER_ensures((ACTIVE && NODE_OK(p)) ==> g_n == NODEPOS(OLDT) + NODELEN(p) && __CPROVER_return_value == (int)NODELEN(p) && error_count == __CPROVER_old(error_count))
__CPROVER_ensures((ACTIVE && !NODE_OK(p)) ==> error_count > __CPROVER_old(error_count))
/* what was written before stays; header; gap; and nothing of the node stands before its own offset */
__CPROVER_ensures((ACTIVE && g_k < __CPROVER_old(g_n)) ==> g_b == __CPROVER_old(g_b))
__CPROVER_ensures((ACTIVE && OLDT == 0 && output_file_format == c64 && g_k < 2) ==> g_b == (unsigned char)(g_k == 0 ? origin : origin >> 8))
__CPROVER_ensures((ACTIVE && g_k >= (unsigned long)BASE(OLDT) && g_k < NODEPOS(OLDT)) ==> g_b == 0)
__CPROVER_ensures((ACTIVE && p != NULL && p->type == type_op_code && REACHABLE(p) && g_k >= NODEPOS(OLDT) && g_k < NODEPOS(OLDT) + NODELEN(p)) ==>
    g_b == (unsigned char)(g_k == NODEPOS(OLDT) ? p->opcode.opcode : g_k == NODEPOS(OLDT) + 1 ? OPERAND(p) : OPERAND(p) >> 8))
__CPROVER_ensures((ACTIVE && p != NULL && p->type == type_str && g_k >= NODEPOS(OLDT) && g_k < NODEPOS(OLDT) + NODELEN(p)) ==>
    g_b == (unsigned char)(g_k - NODEPOS(OLDT) < STR_LEN(p) ? p->str.value[g_k - NODEPOS(OLDT)] : 0))
__CPROVER_ensures((ACTIVE && p != NULL && p->type != type_str && p->type != type_op_code && DATA_OK_OLD && g_k >= NODEPOS(OLDT) && g_k < NODEPOS(OLDT) + NODELEN(p)) ==>
    g_b == (unsigned char)(g_k == NODEPOS(OLDT) ? g_value : g_value >> 8))
;

static void world(void)
{
    g_n = nondet_ulong(); g_k = nondet_ulong(); g_b = nondet_uchar(); g_may_fail = false; g_short = false;
    __CPROVER_assume(g_n < 0x7000000);
    error_count = nondet_int(); __CPROVER_assume(error_count >= 0 && error_count < 1000000);
    g_value = nondet_int(); data_size = nondet_int(); program_counter = nondet_int();
    output_file_format = nondet_int(); byte_delta = nondet_int(); origin = nondet_int();
    total_bytes_written = nondet_int(); origin_specified = nondet_bool();
    __CPROVER_assume(program_counter >= 0 && program_counter <= 0x1FFFF && origin >= -0x800000 && origin <= 0x800000);
}
#define REACH __CPROVER_assert(0, "vt_reach")
FILE* nondet_file(void);

#ifdef H_write_byte
void harness(void) { world(); write_byte(nondet_file(), nondet_uchar()); REACH; }
#endif
#ifdef H_write_word
void harness(void) { world(); write_word(nondet_file(), nondet_int()); REACH; }
#endif
#ifdef H_write_data
void harness(void) { world(); write_data(nondet_file(), nondet_int()); REACH; }
#endif
#ifdef H_byte_count
void harness(void) { world(); parse_node_ptr p; get_op_code_byte_count(p); REACH; }
#endif
#ifdef H_write_opcode_node
void harness(void) { world(); parse_node_ptr p; write_opcode_node(nondet_file(), p); REACH; }
#endif
#ifdef H_write_data_node
void harness(void) { world(); parse_node_ptr p; write_data_node(nondet_file(), p); REACH; }
#endif
#ifdef H_write_string
void harness(void) { world(); const char* s; write_string(nondet_file(), s, nondet_ulong()); REACH; }
#endif
#ifdef H_write_string_node
void harness(void) { world(); parse_node_ptr p; write_string_node(nondet_file(), p); REACH; }
#endif
#ifdef H_write_header
void harness(void) { world(); write_header(nondet_file()); REACH; }
#endif
#ifdef H_pad
void harness(void) { world(); write_program_counter_pad(nondet_file(), nondet_int()); REACH; }
#endif
#ifdef H_set_origin
void harness(void) { world(); set_output_origin(nondet_int()); REACH; }
#endif

#ifdef H_generate_output
void harness(void) { world(); parse_node_ptr p; generate_output(nondet_bool() ? nondet_file() : NULL, p); REACH; }
#endif
#ifdef H_short_write
/* a write which is refused or cut short is reported */
void harness(void)
{
    world(); g_may_fail = true;
    int before = error_count;
    __CPROVER_assume(total_bytes_written >= 0 && total_bytes_written < 0x1000000 && byte_delta >= 0 && byte_delta <= 2 && data_size >= 0 && data_size <= 2);
    parse_node node; parse_node_ptr ops[1]; char text[8];
    node.op = ops; node.number_of_ops = 1;
    int what = nondet_int();
    node.type = what == 0 ? type_op_code : what == 1 ? type_str : type_con;
    if (what == 0)
    {
        __CPROVER_assume(ONE_BYTE(node.opcode.mode) || TWO_BYTES(node.opcode.mode) || NO_BYTES(node.opcode.mode));
        __CPROVER_assume(node.opcode.program_counter >= 0 && node.opcode.program_counter <= 0xFFFFFF && g_value >= -0xFFFFFF && g_value <= 0xFFFFFF);
        write_opcode_node(nondet_file(), &node);
    }
    else if (what == 1)
    {
        node.str.value = text;
        __CPROVER_assume(node.str.len >= 0 && node.str.len <= 8);
        write_string_node(nondet_file(), &node);
    }
    else if (what == 2) { __CPROVER_assume(g_value > -0x7FFFFFFF); write_data_node(nondet_file(), &node); }
    else if (what == 3) { total_bytes_written = 0; write_header(nondet_file()); }
    else write_program_counter_pad(nondet_file(), total_bytes_written - byte_delta + (nondet_bool() ? 3 : 1));
    __CPROVER_assert(!g_short || error_count > before, "a short write is reported as an error");
    REACH;
}
#endif
