// Every operator over every pair of a set of interesting values, on the real code, against the stated value.
#include "nat.h"
#include "expand.h"
#include "node.h"
#include "error.h"
#include "flex.h"
#include "pasm.h"
#include "pasm.tab.h"
#include <climits>
static const char* names[] = { "+", "-", "*", "/", "|", "&", "^", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "||", "&&", "-", ".not", "~", "< (low byte)", "> (high byte)" };
static const int oprs[] = { '+', '-', '*', '/', BIT_OR, BIT_AND, '^', SHIFT_LEFT, SHIFT_RIGHT, '<', '>', LE, GE, EQ, NE, OR, AND, UMINUS, NOT, '~', LOBYTE, HIBYTE };
typedef long long ll;
static int w(ll v) { return (int)(unsigned)v; }
static int value(int o, ll x, ll y)
{
    switch (o)
    {
    case '+': return w(x + y); case '-': return w(x - y); case '*': return w(x * y);
    case '/': return y ? w(x / y) : 0;
    case BIT_OR: return w(x | y); case BIT_AND: return w(x & y); case '^': return w(x ^ y);
    case SHIFT_LEFT: return w(x << y); case SHIFT_RIGHT: return w(x >> y);
    case '<': return x < y; case '>': return x > y; case LE: return x <= y; case GE: return x >= y; case EQ: return x == y; case NE: return x != y;
    case OR: return x || y; case AND: return x && y; case UMINUS: return w(-x); case NOT: return !x;
    case '~': return x >= 0 && x <= 255 ? w(~x & 255) : w(~x & 0xFFFF);
    case LOBYTE: return w(x & 255); case HIBYTE: return w((x >> 8) & 255);
    }
    return 0;
}
static void one(int k, int x, int y)
{
    int o = oprs[k];
    bool un = k >= 17;
    if ((o == SHIFT_LEFT || o == SHIFT_RIGHT) && (y < 0 || y > 31)) return;
    cases++;
    error_count = 0;
    parse_node_ptr n = un ? operator_node(o, 1, constant_node(x, 0)) : operator_node(o, 2, constant_node(x, 0), constant_node(y, 0));
    int got = expand_node(n), want = value(o, x, y);
    bool err = o == '/' && y == 0;
    if (got != want && !err) FAIL("%d %s %d is %d, should be %d", x, names[k], y, got, want);
    if ((error_count != 0) != err) FAIL("%d %s %d reports %d errors", x, names[k], y, error_count);
}
int main(int argc, char** argv)
{
    nat_init(argc, argv);
    console = console_error = fopen("/dev/null", "w");
    yyin = fopen("/dev/null", "r");
    reset_lex();
    std::vector<int> v = { 0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 127, 128, 129, 254, 255, 256, 257, 511, 512, 0x7FFF, 0x8000, 0x8001, 0xFF00, 0xFFFE, 0xFFFF, 0x10000, 0x10001, 0x12345, INT_MAX, INT_MAX - 1, INT_MIN, INT_MIN + 1 };
    size_t m = v.size();
    for (size_t i = 0; i < m; i++) v.push_back((int)(0u - (unsigned)v[i]));
    for (int i = 0; i < 15 * effort && i < 200; i++) v.push_back(i & 1 ? rng() : rng() & 0xFFFF);
    for (auto& c : cex)
        if (c.count("in_x"))
            for (int k = 0; k < 22; k++) one(k, (int)c["in_x"], (int)c["in_y"]);
    for (int x : v) for (int y : v) for (int k = 0; k < 22; k++) one(k, x, y);
    DONE();
}
