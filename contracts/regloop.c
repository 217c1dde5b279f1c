/* Contract on the register loops: the instructions they emit, executed by a small model of the processor, run the
   body once for each value.  The instructions are recorded when the statement expands them; the body is arbitrary
   code of arbitrary size which leaves the loop register alone and the flags in any state. */
#include <stdarg.h>
#include "expand.h"
#include "node.h"
#include "error.h"
#include "flex.h"
#include "opcodes.h"
#include "pasm.h"
#include "pasm.tab.h"
int expand_operator_for_reg_node(parse_node_ptr p);
extern int for_x_count, for_y_count;
bool log_file_is_open;
int nondet_int(void);
bool nondet_bool(void);
int error_count, program_counter;
void error(int n) { error_count++; }
#define MAXI 8
parse_node g_instr[MAXI], g_const[MAXI];
parse_node g_start_node, g_end_node, g_body, g_flag_node;
int g_instrs, g_consts;
/* the recorded code: instruction (or BODY), mode, operand, address */
#define BODY (-100)
int t_op[MAXI], t_mode[MAXI], t_val[MAXI], t_pc[MAXI], t_n;
int in_start, in_end, in_flag; bool in_x, g_body_pc_over; int g_bodies;
parse_node_ptr constant_node(const int value, int is_program_counter)
{
    __CPROVER_assert(g_consts < MAXI, "few constants");
    g_const[g_consts].type = type_con; g_const[g_consts].con.value = value; g_const[g_consts].con.is_program_counter = is_program_counter;
    return &g_const[g_consts++];
}
parse_node_ptr opcode_node(const int op, const int mode, const int number_of_ops, ...)
{
    __CPROVER_assert(g_instrs < MAXI && number_of_ops <= 1, "few instructions");
    parse_node_ptr n = &g_instr[g_instrs++];
    n->type = type_op_code; n->opcode.instruction = op; n->opcode.mode = mode; n->number_of_ops = number_of_ops;
    if (number_of_ops == 1)
    {
        va_list ap; va_start(ap, number_of_ops);
        n->next = va_arg(ap, parse_node_ptr);
        va_end(ap);
    }
    return n;
}
int expand_node(parse_node_ptr p)
{
    if (p == &g_start_node) return in_start;
    if (p == &g_end_node) return in_end;
    if (p == &g_flag_node) return in_flag;
    __CPROVER_assert(t_n < MAXI, "few instructions");
    t_pc[t_n] = program_counter;
    if (p == &g_body)
    {
        __CPROVER_assert((in_x ? for_x_count : for_y_count) == 1, "a loop on the same register in the body is seen as nested");
        g_bodies++;
        t_op[t_n++] = BODY;
        int len = nondet_int(); __CPROVER_assume(len >= 0 && len <= 60000);
        program_counter += len;
        return nondet_int();
    }
    __CPROVER_assert(p != NULL, "an instruction");
    int k = p - g_instr;
    __CPROVER_assert(k >= 0 && k < g_instrs, "only the parts of the statement and the instructions of the loop are expanded");
    t_op[t_n] = p->opcode.instruction; t_mode[t_n] = p->opcode.mode;
    if (p->number_of_ops == 1)
    {
        parse_node_ptr c = p->next;
        __CPROVER_assert(c->type == type_con, "the operands are constants");
        t_val[t_n] = c->con.is_program_counter ? program_counter : c->con.value;
    }
    /* a branch that does not reach is expanded to the opposite branch and a jmp (P03) */
    program_counter += p->opcode.mode == i ? 1 : p->opcode.mode == r && nondet_bool() ? 5 : 2;
    t_n++;
    return 0;
}

/* the processor: 8 bit register, N, Z, C */
static int reg; static bool fN, fZ, fC;
static void setnz(int v) { fN = (v & 0x80) != 0; fZ = (v & 0xFF) == 0; }
/* executes recorded instruction k; returns whether it branches */
static bool step(int k)
{
    int op = t_op[k], v = t_val[k];
    if (op == (in_x ? _ldx : _ldy) && t_mode[k] == I) { reg = v & 0xFF; setnz(reg); return false; }
    if (op == (in_x ? _inx : _iny) && t_mode[k] == i) { reg = (reg + 1) & 0xFF; setnz(reg); return false; }
    if (op == (in_x ? _dex : _dey) && t_mode[k] == i) { reg = (reg - 1) & 0xFF; setnz(reg); return false; }
    if (op == (in_x ? _cpx : _cpy) && t_mode[k] == I)
    {
        __CPROVER_assert(v >= 0 && v <= 255, "an immediate operand is a byte");
        fC = reg >= v; setnz((reg - v) & 0xFF); return false;
    }
    __CPROVER_assert(t_mode[k] == r, "an instruction the model of the processor has");
    if (op == _bcc) return !fC;
    if (op == _bcs) return fC;
    if (op == _bne) return !fZ;
    if (op == _beq) return fZ;
    if (op == _bpl) return !fN;
    if (op == _bmi) return fN;
    __CPROVER_assert(0, "an instruction the model of the processor has");
    return false;
}
void harness(void)
{
    parse_node n; parse_node_ptr ops[4] = { &g_start_node, &g_end_node, &g_body, &g_flag_node };
    in_x = nondet_bool(); in_start = nondet_int(); in_end = nondet_int(); in_flag = nondet_bool() ? 1 : -1;
    n.type = type_opr; n.opr.opr = in_x ? REGX : REGY; n.op = ops; n.number_of_ops = 4;
    error_count = 0; program_counter = nondet_int(); __CPROVER_assume(program_counter >= 0 && program_counter <= 0xFFFF);
    int in_nested = nondet_int(); __CPROVER_assume(in_nested >= 0 && in_nested <= 1);
    for_x_count = in_x ? in_nested : nondet_bool(); for_y_count = in_x ? nondet_bool() : in_nested;
    int other = in_x ? for_y_count : for_x_count;
    g_instrs = g_consts = t_n = g_bodies = 0;
#ifdef DOWN_TO_ZERO
    __CPROVER_assume(in_flag < 0 && in_end == 0 && in_start > 0);
#else
    __CPROVER_assume(!(in_flag < 0 && in_end == 0 && in_start > 0));
#endif
    int pc0 = program_counter;
    expand_operator_for_reg_node(&n);
    __CPROVER_assert((in_x ? for_y_count : for_x_count) == other, "the other register's nesting is not touched");
    __CPROVER_assert((in_x ? for_x_count : for_y_count) == in_nested, "the loop is closed");
    bool bad = in_nested > 0 || in_start < 0 || in_start > 255 || in_end < 0 || in_end > 255;
    if (bad)
    {
        __CPROVER_assert(error_count == 1 && t_n == 0 && program_counter == pc0, "a nested loop or a bound outside 0..255 is an error");
    }
    else if (in_flag > 0 ? in_start > in_end : in_start < in_end)
        __CPROVER_assert(error_count == 0 && t_n == 0 && program_counter == pc0, "no code without a value to run for");
    else
    {
        __CPROVER_assert(error_count == 0, "no error");
        __CPROVER_assert(g_bodies == 1, "the body is in the code once");
        int b = 0; while (b < t_n && t_op[b] != BODY) b++;
        __CPROVER_assert(b < t_n, "there is a body");
        fN = nondet_bool(); fZ = nondet_bool(); fC = nondet_bool(); reg = nondet_int() & 0xFF;
        int k = 0;
        for (; k < b; k++) { bool t = step(k); __CPROVER_assert(!t, "the code before the body falls through"); }
        __CPROVER_assert(reg == in_start, "the body starts with the first value");
        /* an arbitrary round: the body has run with value v, in any state of the flags */
        int in_v = nondet_int();
        __CPROVER_assume(in_flag > 0 ? in_start <= in_v && in_v <= in_end : in_end <= in_v && in_v <= in_start);
        reg = in_v; fN = nondet_bool(); fZ = nondet_bool(); fC = nondet_bool();
        bool taken = false;
        for (k = b + 1; k < t_n && !taken; k++)
        {
            taken = step(k);
            if (taken) __CPROVER_assert(t_val[k] == t_pc[b], "the branch goes to the body");
        }
        if (in_v == in_end)
            __CPROVER_assert(!taken, "after the last value the code falls through");
        else
            __CPROVER_assert(taken && reg == in_v + in_flag, "after any other value the body runs again with the next one");
    }
    __CPROVER_assert(0, "vt_reach");
}
