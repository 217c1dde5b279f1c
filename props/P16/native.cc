// Random histories of pushes and pops over several stacks of several item sizes, against std::vector.
#include "nat.h"
#include "stacks.h"
#include "error.h"
#include "pasm.h"
int main(int argc, char** argv)
{
    nat_init(argc, argv);
    console = console_error = fopen("/dev/null", "w");
    for (int round = 0; round < 60 * effort; round++)
    {
        const int n = 3;
        size_t size[n]; stack_ptr st[n]; std::vector<std::string> ref[n];
        static const size_t sizes[] = { 1, 2, 3, 4, 7, 8, 16, 24, 40, 72, 200, 1000 };
        for (int k = 0; k < n; k++) { size[k] = sizes[rnd(12)]; st[k] = create_stack(size[k]); }
        int bias = 30 + rnd(60), steps = round % 10 == 0 ? 3000 : 50 + rnd(300);
        for (int s = 0; s < steps; s++)
        {
            int k = rnd(n);
            stack_ptr p = st[k]; auto& r = ref[k];
            int what = rnd(100);
            cases++;
            if (what < bias)
            {
                std::string v; for (size_t i = 0; i < size[k]; i++) v += (char)rng();
                long ix = p->push(p->instance, v.data());
                r.push_back(v);
                if (ix != (long)r.size() - 1) FAIL("push returns %ld with %zu items on the stack", ix, r.size());
            }
            else if (what < 97 || what == 97 && rnd(10))
            {
                if (p->instance->item_array == nullptr && r.empty()) { if (rnd(2)) continue; }
                char* v = (char*)p->pop(p->instance);
                if (r.empty()) { if (v) FAIL("pop of an empty stack returns an item"); }
                else if (!v || std::string(v, size[k]) != r.back()) FAIL("pop does not return the item pushed last (%zu items of %zu bytes)", r.size(), size[k]);
                if (!r.empty()) r.pop_back();
            }
            else if (what == 98) { p->clear(p->instance); r.clear(); }
            if (p->instance->index != (long)r.size() - 1) FAIL("%ld items counted, %zu are on the stack", p->instance->index + 1, r.size());
            if (!r.empty())
            {
                char* t = (char*)p->top(p->instance);
                if (!t || std::string(t, size[k]) != r.back()) FAIL("top is not the item pushed last (%zu items of %zu bytes)", r.size(), size[k]);
                size_t i = rnd(r.size());
                char* q = (char*)p->item_at(p->instance, (long)i);
                if (!q || std::string(q, size[k]) != r[i]) FAIL("item %zu of %zu (%zu bytes) changed", i, r.size(), size[k]);
            }
            if (nfail) DONE();
        }
        for (int k = 0; k < n; k++)
        {
            for (size_t i = 0; i < ref[k].size(); i++)
                if (std::string((char*)st[k]->item_at(st[k]->instance, (long)i), size[k]) != ref[k][i]) { FAIL("item %zu of %zu changed", i, ref[k].size()); DONE(); }
            free_stack(st[k]);
        }
    }
    DONE();
}
