// Linearizability check of a small history against a sequential model (Wing & Gong with memo).
#pragma once
#include <cstdint>
#include <string>
#include <unordered_set>
#include <vector>

struct LinOp { uint64_t inv, ret; int kind; long arg, res; };

template<class Model> struct Lin {
    std::vector<LinOp> const& ops; std::unordered_set<std::string> seen; uint64_t best = 0; long nodes = 0;
    explicit Lin(std::vector<LinOp> const& o) : ops(o) {}
    bool rec(uint64_t done, Model const& m) {
        size_t n = ops.size();
        if (done == (n == 64 ? ~0ull : (1ull << n) - 1)) return true;
        uint64_t minret = ~0ull;
        for (size_t i = 0; i < n; ++i) if (!(done >> i & 1) && ops[i].ret < minret) minret = ops[i].ret;
        for (size_t i = 0; i < n; ++i) if (!(done >> i & 1) && ops[i].inv < minret) {
            Model x = m;
            if (!x.step(ops[i])) continue;
            uint64_t d = done | 1ull << i;
            std::string key((const char*)&d, 8); x.key(key);
            if (++nodes > 400000) return true;      // bounded effort; never a false alarm
            if (!seen.insert(key).second) continue;
            if (rec(d, x)) return true;
        }
        return false;
    }
    bool ok(Model const& init) { return rec(0, init); }
};
