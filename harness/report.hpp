#pragma once
// Event counters and violation records shared by all monitors. Every monitor prints
//   VIOL <one line>          for each violation it observed (bounded)
//   SUMMARY {json}           exactly once, with what it observed
#include <cstdint>
#include <cstdio>
#include <map>
#include <set>
#include <string>
#include <unordered_set>

struct Report
{
    std::map<std::string, uint64_t> counts;
    std::unordered_set<uint64_t> distinct;
    uint64_t evals = 0, viols = 0;
    uint64_t max_print = 20;
    void count(std::string const& k, uint64_t n = 1) { counts[k] += n; }
    void eval(uint64_t state_hash)
    {
        ++evals;
        if (distinct.size() < 4000000) distinct.insert(state_hash);
    }
    void viol(std::string s)
    {
        for (auto& c : s)
            if (c == '\n') c = ' ';
        if (viols++ < max_print)
        {
            printf("VIOL %s\n", s.c_str());
            fflush(stdout);
        }
    }
    int finish()
    {
        printf("SUMMARY {\"evaluations\": %llu, \"distinct\": %llu, \"violations\": %llu, \"counts\": {",
               (unsigned long long)evals, (unsigned long long)distinct.size(), (unsigned long long)viols);
        bool first = true;
        for (auto& kv : counts)
        {
            printf("%s\"%s\": %llu", first ? "" : ", ", kv.first.c_str(), (unsigned long long)kv.second);
            first = false;
        }
        printf("}}\n");
        fflush(stdout);
        return viols ? 1 : 0;
    }
};

inline uint64_t hash_bytes(void const* p, size_t n, uint64_t h = 1469598103934665603ull)
{
    auto* b = (unsigned char const*)p;
    for (size_t i = 0; i < n; ++i)
    {
        h ^= b[i];
        h *= 1099511628211ull;
    }
    return h;
}
inline uint64_t hash_mix(uint64_t h, uint64_t x) { return hash_bytes(&x, sizeof x, h); }
