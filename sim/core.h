// Internal structures shared by sim.cpp (runtime) and driver.cpp (search, minimiser, replay).
#pragma once
#include "sim.h"
#include <cstring>

namespace sim {

struct Sw { uint16_t tid; uint16_t to; uint32_t k; };          // at thread tid's k-th point run thread `to`
struct Fl { uint16_t kind; uint16_t pad; uint32_t n; int64_t arg; };  // n-th opportunity of `kind` fires

enum { MAXSW = 60000, MAXFL = 4000, MAXCH = 4000, MAXPROBE = 96, LOGSZ = 1 << 18 };

enum Status { ST_NONE, ST_OK, ST_FAIL, ST_OK_ABORT, ST_ERROR };

struct Probe { char name[48]; uint64_t n; };

struct Result {
    volatile int status;
    char cls[48];
    char msg[1024];
    uint64_t hash_full, hash_sched;
    uint64_t points, syncs, switches, threads;
    int64_t sim_ns;
    uint64_t fired[F_NKINDS];
    uint64_t log_len;
    uint32_t nsw, nfl, nch, nprobe;
    uint32_t fair_used, races, overflow;
    uint64_t live;
    uint64_t hb_checks;
    Probe probes[MAXPROBE];
    uint32_t ch[MAXCH]; uint16_t chn[MAXCH];
    Sw sw[MAXSW];
    Fl fl[MAXFL];
    void* swpc[MAXSW];
    char log[LOGSZ];
};

struct Spec {
    const Scenario* scen = nullptr;
    uint64_t seed = 0;
    bool have_ch = false, have_sched = false;      // replay of choices / of schedule+faults
    std::vector<uint32_t> ch;
    std::vector<Sw> sw;
    std::vector<Fl> fl;
    bool verbose = false;
    unsigned opts = 0;                             // 1: leak check in every scenario, 2: data races are violations, 4: every access is checked against happens-before, 8: only writes are, in one run of four
};

extern Result* g_res;
std::vector<Scenario*>& scenarios();
void runtime_init();                   // once per process
void run_in_child(const Spec& s);      // called in the forked child; never returns
int64_t real_ns();

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t x = 1) { s = mix(x + 0x9e3779b97f4a7c15ull); if (!s) s = 1; }
    static uint64_t mix(uint64_t z) {
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31);
    }
    uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
    uint32_t below(uint32_t n) { return n ? (uint32_t)((next() >> 32) * (uint64_t)n >> 32) : 0; }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    bool bern(double p) { return p > 0 && unit() < p; }
    uint32_t geom(double p);           // number of opportunities until (and including) the next hit
};

} // namespace sim
