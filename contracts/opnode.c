/* Contract on expand_op_code_node: which instruction it emits for an operand of any value, where, and how far it
   moves the location counter, in the final pass and in the others. */
#include <stdarg.h>
#include "expand.h"
#include "node.h"
#include "error.h"
#include "flex.h"
#include "opcodes.h"
#include "pasm.h"
#include "pasm.tab.h"
int expand_op_code_node(parse_node_ptr p);
extern int pass;
bool log_file_is_open;
int nondet_int(void);
bool nondet_bool(void);
int error_count, program_counter, pass;
bool final_pass, origin_specified;
int g_warnings, g_origins, g_origin;
void error(int n) { error_count++; }
void warn(int n) { g_warnings++; }
void set_output_origin(int v) { g_origins++; g_origin = v; }
parse_node g_node, g_operand, g_jmp, g_konst[4];
parse_node_ptr g_node_ops[1], g_jmp_ops[1];
int in_v, in_instr, in_mode, in_pc, g_konsts;
bool in_uninit, in_label;
/* the opcode table: any function with the range of get_op_code (P01) */
int in_code[max_addressing_mode], in_code_opposite, in_code_jmp;
static bool is_branch(int n) { return n >= _bra && n <= _bbs7; }
static int opposite(int n)
{
    switch (n)
    {
    case _bcs: return _bcc;
    case _bcc: return _bcs;
    case _bne: return _beq;
    case _beq: return _bne;
    case _bmi: return _bpl;
    case _bpl: return _bmi;
    case _bvc: return _bvs;
    case _bvs: return _bvc;
    case _bra: return -1;
    }
    return n <= _bbr7 ? n - _bbr0 + _bbs0 : n - _bbs0 + _bbr0;
}
int get_op_code(const int instruction, const int mode)
{
    __CPROVER_assert(instruction >= 0 && instruction < _maxOpcode && mode >= 0 && mode < max_addressing_mode, "an instruction and a mode");
    if (instruction == in_instr) return in_code[mode];
    if (instruction == _jmp && mode == a) return in_code_jmp;
    if (is_branch(in_instr) && instruction == opposite(in_instr) && mode == r) return in_code_opposite;
    return nondet_int();
}
bool has_uninitialized_symbol(parse_node_ptr p) { return in_uninit; }
static int operand_bytes(int mode)
{
    switch (mode)
    {
    case A: case i: return 0;
    case a: case ax: case ay: case aix: case ind: return 2;
    default: return 1;
    }
}
int get_op_code_byte_count(const parse_node_ptr p) { return operand_bytes(p->opcode.mode); }  /* proved: job get_op_code_byte_count */
int expand_node(parse_node_ptr p)
{
    if (p == &g_operand) return in_v;
    for (int k = 0; k < 4; k++)
        if (p == &g_konst[k]) return p->con.is_program_counter ? program_counter : p->con.value;
    __CPROVER_assert(0, "only the operand is evaluated");
    return 0;
}
parse_node_ptr constant_node(const int value, int is_program_counter)
{
    __CPROVER_assert(g_konsts < 4, "few constants");
    parse_node_ptr k = &g_konst[g_konsts++];
    k->type = type_con; k->con.value = value; k->con.is_program_counter = is_program_counter; k->number_of_ops = 0;
    return k;
}
parse_node_ptr opcode_node(const int op, const int mode, const int number_of_ops, ...)
{
    va_list ap;
    __CPROVER_assert(number_of_ops == 1, "a jmp has an operand");
    va_start(ap, number_of_ops); g_jmp_ops[0] = va_arg(ap, parse_node_ptr); va_end(ap);
    g_jmp.type = type_op_code; g_jmp.opcode.instruction = op; g_jmp.opcode.mode = mode; g_jmp.opcode.opcode = get_op_code(op, mode);
    g_jmp.number_of_ops = 1; g_jmp.op = g_jmp_ops;
    return &g_jmp;
}
/* what is emitted */
#define MAXE 4
typedef struct { int opcode, instr, mode, value, at, pc, ops; bool operand; } emitted;
emitted e[MAXE], l[MAXE]; int g_e, g_l;
static emitted snap(parse_node_ptr p)
{
    emitted x;
    x.opcode = p->opcode.opcode; x.instr = p->opcode.instruction; x.mode = p->opcode.mode; x.ops = p->number_of_ops;
    x.value = p->number_of_ops > 0 ? expand_node(p->op[0]) : 0;
    x.operand = p->number_of_ops > 0 && p->op[0] == &g_operand;
    x.at = program_counter; x.pc = p->opcode.program_counter;
    return x;
}
int generate_output(FILE* f, const parse_node_ptr p)
{
    __CPROVER_assert(final_pass, "output is written in the final pass only");
    __CPROVER_assert(p->type == type_op_code && g_e < MAXE, "instructions");
    e[g_e++] = snap(p);
    return nondet_int();
}
int generate_list_node(const parse_node_ptr p)
{
    __CPROVER_assert(final_pass, "the listing is written in the final pass only");
    __CPROVER_assert(p->type == type_op_code && g_l < MAXE, "instructions");
    l[g_l++] = snap(p);
    return 1;
}
static int byte_mode(int m)   /* the zero page form of an operand notation */
{
    switch (m) { case a: return zp; case ax: return zpx; case ay: return zpy; case ind: return zpi; case aix: return izx; }
    return m;
}
static int word_mode(int m)   /* and its absolute form, -1 if there is none */
{
    switch (m) { case a: case zp: return a; case ax: case zpx: return ax; case ay: case zpy: return ay; case ind: case zpi: return ind; case aix: return aix; }
    return -1;
}
static void start(bool final)
{
    error_count = 0; g_warnings = 0; g_origins = 0; g_e = g_l = 0; g_konsts = 0;
    final_pass = final; program_counter = in_pc;
}
void harness(void)
{
    in_v = nondet_int(); in_instr = nondet_int(); in_mode = nondet_int(); in_pc = nondet_int();
    in_uninit = nondet_bool(); in_label = nondet_bool(); pass = nondet_int(); origin_specified = nondet_bool();
    for (int m = 0; m < max_addressing_mode; m++) { in_code[m] = nondet_int(); __CPROVER_assume(in_code[m] >= -1 && in_code[m] <= 255); }
    in_code_opposite = nondet_int(); in_code_jmp = nondet_int();
    /* P01: a processor has both branches of a pair, and jmp */
    __CPROVER_assume(in_code_opposite >= 0 && in_code_opposite <= 255 && in_code_jmp >= 0 && in_code_jmp <= 255);
    __CPROVER_assume(in_pc >= 0 && in_pc <= 0xFFFF && in_instr >= 0 && in_instr < _maxOpcode && in_mode >= 0 && in_mode < max_addressing_mode);
    /* from opcode_node: the mode of a branch is relative, and it exists for the instruction */
    __CPROVER_assume((in_mode == r) == is_branch(in_instr));
    __CPROVER_assume(get_op_code(in_instr, in_mode) != -1);
    /* documented exclusion: operands are addresses, negative ones and those past the address space are not checked */
    __CPROVER_assume(in_v >= 0 && in_v <= 0xFFFF);
    char name[2]; name[0] = nondet_int(); name[1] = 0;
    g_operand.type = in_label ? type_id : nondet_bool() ? type_con : type_opr; g_operand.id.name = name; g_operand.number_of_ops = 0;
    int ops = operand_bytes(in_mode) > 0 ? 1 : 0;
    g_node.type = type_op_code; g_node.opcode.instruction = in_instr; g_node.opcode.mode = in_mode; g_node.opcode.opcode = get_op_code(in_instr, in_mode);
    g_node.opcode.program_counter = nondet_int(); g_node.number_of_ops = ops; g_node.op = g_node_ops; g_node_ops[0] = &g_operand;
    /* in the first pass a local label which is not known yet has the value 0 and stands for the near future */
    bool guess = pass == 1 && in_mode == r && in_v == 0 && in_label && (name[0] == '@' || name[0] == '-' || name[0] == '+');
    bool org0 = origin_specified;

    /* a pass before the final one */
    start(false);
    expand_op_code_node(&g_node);
    int pc1 = program_counter, errors1 = error_count;
    __CPROVER_assert(g_e == 0 && g_l == 0, "nothing is emitted before the final pass");
    __CPROVER_assert(g_node.opcode.instruction == in_instr && g_node.opcode.mode == in_mode && g_node.opcode.opcode == get_op_code(in_instr, in_mode)
                     && g_node.op == g_node_ops && g_node_ops[0] == &g_operand && g_node.number_of_ops == ops, "the statement can be expanded again");
    origin_specified = org0;
    /* the final pass */
    start(true);
    expand_op_code_node(&g_node);
    __CPROVER_assert(program_counter == pc1 && (errors1 > 0) == (error_count > 0), "the location counter moves as in the pass before");
    __CPROVER_assert(g_node.opcode.instruction == in_instr && g_node.opcode.mode == in_mode && g_node.opcode.opcode == get_op_code(in_instr, in_mode)
                     && g_node.op == g_node_ops && g_node_ops[0] == &g_operand && g_node.number_of_ops == ops, "the statement can be expanded again");
    /* what was emitted stands at consecutive addresses and the location counter is behind it */
    __CPROVER_assert(g_e >= 1 && g_e <= 2, "one or two instructions");
    int at = in_pc;
    for (int k = 0; k < MAXE; k++)
        if (k < g_e)
        {
            __CPROVER_assert(e[k].at == at && e[k].pc == at, "an instruction is emitted at the location counter");
            __CPROVER_assert(e[k].opcode == get_op_code(e[k].instr, e[k].mode), "with the opcode of its mode");
            __CPROVER_assert(operand_bytes(e[k].mode) == 0 || e[k].ops == 1, "with its operand");
            at += 1 + operand_bytes(e[k].mode);
        }
    __CPROVER_assert(program_counter == at, "the location counter is behind the bytes emitted");
    /* the listing shows what is written */
    __CPROVER_assert(g_l == g_e, "each instruction is listed once");
    for (int k = 0; k < MAXE; k++)
        if (k < g_l)
            __CPROVER_assert(l[k].opcode == e[k].opcode && l[k].instr == e[k].instr && l[k].mode == e[k].mode && l[k].value == e[k].value && l[k].pc == e[k].pc && l[k].at == e[k].at,
                             "and as it is written");

    if (in_mode != r || in_uninit)
    {
        /* the form of the instruction */
        __CPROVER_assert(g_e == 1 && e[0].instr == in_instr, "the instruction itself");
        __CPROVER_assert(ops == 0 || e[0].operand, "with its own operand");
        int m = e[0].mode;
        bool fits = in_v >= 0 && in_v <= 255;
        if (in_uninit || ops == 0) __CPROVER_assert(m == in_mode && error_count == 0, "a symbol without a value: the form of the notation");
        else if (in_mode == I) __CPROVER_assert(m == I && (fits ? error_count == 0 : error_count > 0), "immediate: a byte, or an error");
        else if (fits && get_op_code(in_instr, byte_mode(in_mode)) != -1) __CPROVER_assert(m == byte_mode(in_mode) && error_count == 0, "a byte: the zero page form if there is one");
        else if (fits) __CPROVER_assert(m == in_mode && error_count == 0, "a byte: the form there is");
        else if (word_mode(in_mode) != -1 && get_op_code(in_instr, word_mode(in_mode)) != -1) __CPROVER_assert(m == word_mode(in_mode) && error_count == 0, "not a byte: the absolute form");
        else __CPROVER_assert(error_count > 0, "not a byte and no absolute form: an error");
        __CPROVER_assert(in_uninit || fits || operand_bytes(m) != 1 || error_count > 0, "an operand is never truncated to a byte");
    }
    else
    {
        int d = in_v - (in_pc + 2);
        if (guess) __CPROVER_assert(g_e == 1, "a local label that is not known yet: a short branch");
        else if (d >= -128 && d <= 127)
        {
            __CPROVER_assert(g_e == 1 && e[0].instr == in_instr && e[0].mode == r && e[0].value == in_v && error_count == 0, "in range: the branch itself");
        }
        else if (in_instr == _bra)
        {
            __CPROVER_assert(g_e == 1 && e[0].instr == _jmp && e[0].mode == a && e[0].value == in_v && error_count == 0, "bra out of range: a jmp");
        }
        else
        {
            __CPROVER_assert(g_e == 2 && error_count == 0, "out of range: two instructions");
            __CPROVER_assert(e[0].instr == opposite(in_instr) && e[0].mode == r && e[0].value == in_pc + 5, "the opposite branch over the next instruction");
            __CPROVER_assert(e[1].instr == _jmp && e[1].mode == a && e[1].value == in_v && e[1].operand, "a jmp to the target");
        }
    }
    if (g_origins > 0) __CPROVER_assert(!org0 && g_origins == 1 && g_origin == in_pc && origin_specified, "the origin is where the first bytes stand");
    __CPROVER_assert(0, "vt_reach");
}
