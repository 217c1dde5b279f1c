// shared by the native programs: seed, effort, values of the verifier's counterexamples
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <random>
static std::mt19937 rng;
static int effort = 1;
static long cases = 0;
static std::vector<std::map<std::string, long>> cex;
static unsigned rnd(unsigned n) { return rng() % n; }
static void nat_init(int argc, char** argv)
{
    rng.seed(argc > 1 ? atoi(argv[1]) : 1);
    effort = argc > 2 ? atoi(argv[2]) : 1;
    for (int i = 3; i < argc; i++)
    {
        std::map<std::string, long> m; std::string s = argv[i]; size_t p = 0;
        while (p < s.size())
        {
            size_t e = s.find(',', p); if (e == std::string::npos) e = s.size();
            std::string kv = s.substr(p, e - p); size_t q = kv.find('=');
            if (q != std::string::npos) m[kv.substr(0, q)] = strtol(kv.c_str() + q + 1, nullptr, 0);
            p = e + 1;
        }
        cex.push_back(m);
    }
}
static int nfail = 0;
#define FAIL(...) do { if (nfail++ < 20) { printf("FAIL "); printf(__VA_ARGS__); printf("\n"); fflush(stdout); } } while (0)
#define DONE() do { printf("COUNT %ld\n", cases); fflush(stdout); _Exit(0); } while (0)
