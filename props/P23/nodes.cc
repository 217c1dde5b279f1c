// random histories of making and removing nodes, under the address sanitizer, against a list kept beside them
#include "nat.h"
#include "node.h"
#include "expand.h"
#include "opcodes.h"
#include "pasm.h"
#include "sym.h"
#include "error.h"
#include <sanitizer/asan_interface.h>
struct rec { parse_node_ptr p; int kind, v; std::string s; std::vector<parse_node_ptr> c; };
static std::vector<rec> all;
static parse_node_ptr make_op(int opr, const std::vector<parse_node_ptr>& c)
{
    parse_node_ptr x[16] = {}; for (size_t i = 0; i < c.size(); i++) x[i] = c[i];
    return operator_node(opr, (int)c.size(), x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9], x[10], x[11]);
}
static void check(const char* after)
{
    parse_node_ptr prev = nullptr, p = head_node;
    for (size_t i = 0; i < all.size(); i++)
    {
        const rec& r = all[i];
        if (p != r.p) { FAIL("after %s: node %zu of %zu is not in its place in the list", after, i, all.size()); return; }
        if (p->prev != prev) { FAIL("after %s: node %zu of %zu does not link back to the one before", after, i, all.size()); return; }
        bool ok = p->number_of_ops == (int)r.c.size();
        for (size_t k = 0; ok && k < r.c.size(); k++) ok = p->op[k] == r.c[k];
        if (!ok) { FAIL("after %s: node %zu does not hold its %zu children in order", after, i, r.c.size()); return; }
        switch (r.kind)
        {
        case 0: ok = p->type == type_opr && p->opr.opr == r.v; break;
        case 1: ok = p->type == type_con && p->con.value == r.v; break;
        case 2: ok = p->type == type_id && r.s == p->id.name; break;
        case 3: ok = p->type == type_str && p->str.len == (int)r.s.size() && !memcmp(p->str.value, r.s.data(), r.s.size()); break;
        case 4: ok = p->type == type_data && p->data.size == r.v; break;
        case 5: ok = p->type == type_macro_id && r.s == p->id.name; break;
        case 6: ok = p->type == type_macro_ex && r.s == p->macro.name; break;
        case 7: ok = p->type == type_print && p->pr.print_state == r.v; break;
        }
        if (!ok) { FAIL("after %s: node %zu of kind %d does not hold its value", after, i, r.kind); return; }
        prev = p; p = p->next;
    }
    if (p) { FAIL("after %s: the list goes on after its last node", after); return; }
    if (current_node != prev) FAIL("after %s: the last node is not the current one", after);
}
int main(int argc, char** argv)
{
    nat_init(argc, argv);
    console = console_error = fopen("/dev/null", "w");
    for (int round = 0; round < 1500 * effort && !nfail; round++)
    {
        int steps = 5 + rnd(round % 20 ? 40 : 400);
        for (int s = 0; s < steps && !nfail; s++)
        {
            cases++;
            rec r; r.kind = rnd(8); r.v = (int)rng();
            std::string name; for (int n = 1 + rnd(9); n; n--) name += (char)('a' + rnd(26));
            r.s = name;
            switch (r.kind)
            {
            case 0: { int n = rnd(13); for (int k = 0; k < n; k++) r.c.push_back(all.empty() || !rnd(8) ? nullptr : all[rnd(all.size())].p); r.p = make_op(r.v, r.c); break; }
            case 1: r.p = constant_node(r.v, 0); break;
            case 2: r.p = id_node(name.c_str()); break;
            case 3: { std::string q = name; if (rnd(2)) q = "\"" + q + "\""; r.p = string_node(q.c_str()); break; }
            case 4: r.p = data_node(r.v, all.empty() ? nullptr : all.back().p); break;
            case 5: r.p = macro_id_node(name.c_str()); break;
            case 6: { r.p = macro_expand_node(name.c_str(), nullptr); rec q = r; q.kind = 5; q.p = (parse_node_ptr)r.p->macro.macro; all.push_back(q); break; }
            case 7: r.p = print_state_node(r.v); break;
            }
            all.push_back(r);
            if (rnd(6) == 0 || s + 1 == steps) check("making nodes");
            // removing: one that is not the child of another
            while (!all.empty() && rnd(4) == 0)
            {
                size_t i = rnd(3) ? rnd(all.size()) : all.size() - 1;
                bool used = false;
                for (auto& q : all) { for (auto c : q.c) used |= c == all[i].p; used |= q.p->type == type_macro_ex && q.p->macro.macro == all[i].p; used |= q.p->type == type_data && q.p->data.data == all[i].p; }
                if (used) continue;
                parse_node_ptr p = all[i].p;
                remove_parse_node(p);
                all.erase(all.begin() + i);
                if (!__asan_address_is_poisoned(p)) FAIL("a removed node is not released");
                check("removing a node");
            }
        }
        free_parse_tree();
        for (auto& r : all) if (!__asan_address_is_poisoned(r.p)) { FAIL("freeing the tree of %zu nodes leaves a node", all.size()); break; }
        if (head_node || current_node) FAIL("freeing the tree leaves a list");
        all.clear();
    }
    DONE();
}
