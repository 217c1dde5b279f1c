/* Contract on expand_operator_node for the expression operators: the result is the value of the operator over
   the values of its operands.  expand_node on an operand is stubbed (the induction hypothesis: an operand is
   any subtree, of any int value). */
#include "expand.h"
#include "node.h"
#include "error.h"
#include "flex.h"
#include "pasm.h"
#include "pasm.tab.h"
#include "dictstub.h"
extern dictionary_ptr expand_operator_table_dictionary, expand_table_dictionary;
int expand_operator_node(parse_node_ptr p);
bool log_file_is_open;
int nondet_int(void);
int error_count;
void error(int n) { error_count++; }
int program_counter;
parse_node g_a, g_b;
int in_x, in_y;          /* the values of the operands */
unsigned g_na, g_nb;     /* how often each was evaluated */
int expand_node(parse_node_ptr p)
{
    if (p == &g_a) { g_na++; return in_x; }
    __CPROVER_assert(p == &g_b, "only the operands are evaluated");
    g_nb++; return in_y;
}
#define W(e) ((int)(unsigned)(e))
#define UX ((unsigned)in_x)
#define UY ((unsigned)in_y)
#define LO16(v) ((v) & 0xFFFF)
static int value(int opr)
{
    switch (opr)
    {
    case '+': return W(UX + UY);
    case '-': return W(UX - UY);
    case '*': return W(UX * UY);
    case '/': return in_y == 0 ? 0 : in_y == -1 ? W(0u - UX) : in_x / in_y;
    case BIT_OR: return W(UX | UY);
    case BIT_AND: return W(UX & UY);
    case '^': return W(UX ^ UY);
    case SHIFT_LEFT: return W(UX << UY);
    case SHIFT_RIGHT: return in_x >= 0 ? W(UX >> UY) : W(~(~UX >> UY));
    case '<': return in_x < in_y ? 1 : 0;
    case '>': return in_y < in_x ? 1 : 0;
    case LE: return in_y < in_x ? 0 : 1;
    case GE: return in_x < in_y ? 0 : 1;
    case EQ: return in_x == in_y ? 1 : 0;
    case NE: return in_x == in_y ? 0 : 1;
    case OR: return in_x ? 1 : in_y ? 1 : 0;
    case AND: return in_x ? (in_y ? 1 : 0) : 0;
    case UMINUS: return W(0u - UX);
    case NOT: return in_x == 0 ? 1 : 0;
    case '~': return (in_x >= 0 && in_x <= 255) ? 255 - in_x : LO16(~in_x);
    case LOBYTE: return in_x & 255;
    case HIBYTE: return (int)((UX >> 8) & 255);
    }
    __CPROVER_assert(0, "operator");
    return 0;
}
static bool unary(int opr) { return opr == UMINUS || opr == NOT || opr == '~' || opr == LOBYTE || opr == HIBYTE; }
int g_want, g_errors;
int expand_operator_node(parse_node_ptr p)
__CPROVER_requires(p != NULL)
__CPROVER_assigns(error_count, g_na, g_nb, ds_found)
__CPROVER_ensures(__CPROVER_return_value == g_want)
__CPROVER_ensures(error_count == __CPROVER_old(error_count) + g_errors)
/* || and && do not evaluate the second operand when the first one decides */
__CPROVER_ensures((p->opr.opr == OR && in_x != 0 || p->opr.opr == AND && in_x == 0) ==> g_nb == 0)
;
void harness(void)
{
    parse_node n;
    parse_node_ptr ops[2] = { &g_a, &g_b };
    program_counter = nondet_int(); error_count = 0;
    end_expansion = 0;
    expand_operator_table_dictionary = expand_table_dictionary = NULL;
    ds_count = ds_n[0] = ds_n[1] = 0;
    init_expander();
    n.type = type_opr; n.op = ops; n.opr.opr = OPR;
    n.number_of_ops = unary(OPR) ? 1 : 2;
    g_na = g_nb = 0;
    in_x = nondet_int(); in_y = nondet_int();
    if (OPR == SHIFT_LEFT || OPR == SHIFT_RIGHT)
        __CPROVER_assume(in_y >= 0 && in_y <= 31);
    g_want = value(OPR);
    g_errors = OPR == '/' && in_y == 0 ? 1 : 0;
    expand_operator_node(&n);
    __CPROVER_assert(0, "vt_reach");
}
