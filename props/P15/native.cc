// Random histories of insertions, deletions and searches on the real dictionary, against std::map.
#include "nat.h"
#include "dictionary.h"
#include "hash.h"
#include "error.h"
#include "pasm.h"
struct val { long a, b, c; };
static std::string fold(std::string s) { for (auto& c : s) c = (char)tolower(c); return s; }
int main(int argc, char** argv)
{
    nat_init(argc, argv);
    console = console_error = fopen("/dev/null", "w");
    for (int round = 0; round < 24 * effort; round++)
    {
        bool text = round & 1;
        int universe = round % 6 == 0 ? 4000 : round % 6 == 1 ? 6000 : 5 + rnd(60);
        int steps = universe > 1000 ? 9000 : 2000;
        dictionary_ptr d = dict_create(sizeof(val), text ? 0 : -1);
        std::map<std::string, std::vector<std::pair<val, val*>>> ref; long count = 0;
        auto key = [&](int k) { std::string s = "sym_" + std::to_string(k); if (universe < 40 && k % 3 == 0) s = std::string(1 + k % 7, 'a' + k % 26); return s; };
        // keys that collide in the first table
        std::vector<int> coll;
        if (round % 4 == 2 || round % 4 == 3)
            for (int k = 0; coll.size() < 12 && k < 200000; k++)
            {
                unsigned h = text ? hash_function(("sym_" + std::to_string(k)).c_str()) : hash_pointer_function((void*)(size_t)(16 + k));
                if (h % 1024 == 7) coll.push_back(k);
            }
        for (int s = 0; s < steps; s++)
        {
            int k = !coll.empty() && rnd(3) ? coll[rnd(coll.size())] : (int)rnd(universe);
            std::string name = text ? (coll.empty() ? key(k) : "sym_" + std::to_string(k)) : std::to_string(k);
            std::string spelled = name;
            if (text) for (auto& c : spelled) if (rnd(2)) c = (char)toupper(c);
            void* kp = text ? (void*)spelled.c_str() : (void*)(size_t)(16 + k);
            std::string id = fold(name);
            cases++;
            int what = rnd(100);
            if (what < (universe > 1000 ? 70 : 40))
            {
                val v = { (long)rng(), k, s };
                val* p = (val*)dict_insert(&d, kp, &v);
                if (!p || memcmp(p, &v, sizeof v)) FAIL("insert number %d does not return a place with the value", s);
                ref[id].push_back({ v, p }); count++;
            }
            else if (what < 85 || universe > 1000 && what < 90)
            {
                val* p = (val*)dict_search(d, kp);
                auto& r = ref[id];
                if (r.empty()) { if (p) FAIL("search finds a value for %s, which has none", spelled.c_str()); }
                else if (!p || memcmp(p, &r.back().first, sizeof(val))) FAIL("search of %s does not find the value inserted last (%ld entries)", spelled.c_str(), count);
                else if (p != r.back().second) FAIL("the value of %s has moved (%ld entries)", spelled.c_str(), count);
            }
            else { dict_delete(d, kp); auto& r = ref[id]; if (!r.empty()) { r.pop_back(); count--; } }
            if (d->number_elements != count) FAIL("%ld entries counted, there are %ld", d->number_elements, count);
            if (nfail) DONE();
        }
        for (auto& kv : ref)
        {
            void* kp = text ? (void*)kv.first.c_str() : (void*)(size_t)(16 + atoi(kv.first.c_str()));
            // every entry of the key, most recent first
            while (!kv.second.empty())
            {
                val* p = (val*)dict_search(d, kp);
                if (!p || memcmp(p, &kv.second.back().first, sizeof(val))) { FAIL("search of %s does not find the value inserted last", kv.first.c_str()); DONE(); }
                dict_delete(d, kp); kv.second.pop_back();
            }
            if (dict_search(d, kp)) { FAIL("search finds a value for %s after all were deleted", kv.first.c_str()); DONE(); }
        }
        if (d->number_elements) { FAIL("%ld entries counted in an empty dictionary", d->number_elements); DONE(); }
        dict_destroy(d);
    }
    DONE();
}
