// C06 barrier generations.
#include "common.h"

namespace {

struct Bar {
    bf::barrier b; int n; long entered = 0, left = 0, leaders = 0;
    explicit Bar(int k) : b((std::size_t)k), n(k) {}
    // generation bookkeeping: the g-th release needs g*n entries
    void arrive(int me) {
        { Quiet q; entered++; }
        sim::logf("fiber %d arrives", me);
        bool lead = b.wait();
        sim::logf("fiber %d leaves %d", me, (int)lead);
        Quiet q; left++; if (lead) leaders++;
        long gens = entered / n;
        if (left > gens * n) fail("early-release", "%ld calls of barrier::wait returned but only %ld arrived (barrier of %d)", left, entered, n);
        if (leaders > gens) fail("leaders", "%ld calls returned true in %ld generations", leaders, gens);
    }
};

// n parties (fibers and main fibers of 1..3 threads), every one passes the barrier g times
static void parties(bool fixed) {
    Shape sh = draw_shape(3, 6, 1); int total = 0; for (int k : sh.fibers) total += k;
    int n = fixed ? total : 1 + (int)choose(total);
    if (!fixed) { while (total % n) --n; }           // every call gets a complete generation
    int g = fixed ? 1 + (int)choose(4) : 1;
    Bar bar(n); Fleet fl; fl.th.resize(sh.threads);
    std::vector<long> gen(total, 0); std::vector<int> lead_of_gen(g + 1, 0);
    {
        Quiet q; int id = 0;
        for (int t = 0; t < sh.threads; ++t) {
            bool main_too = choose(3) == 2;
            for (int f = 0; f < sh.fibers[t]; ++f, ++id) {
                int me = id; std::vector<int> gaps; for (int i = 0; i < g; ++i) gaps.push_back((int)choose(GAPS));
                auto fn = [&, me, gaps, g, fixed, n] {
                    for (int i = 0; i < g; ++i) {
                        gap(gaps[i]);
                        if (!fixed) { bar.arrive(me); continue; }
                        { Quiet q; bar.entered++; gen[me] = i + 1; }
                        sim::logf("fiber %d arrives at generation %d", me, i);
                        bool lead = bar.b.wait();
                        sim::logf("fiber %d leaves generation %d: %d", me, i, (int)lead);
                        Quiet q; bar.left++;
                        for (size_t k = 0; k < gen.size(); ++k) if (gen[k] < i + 1) fail("early-release", "fiber %d left generation %d before fiber %d arrived", me, i, (int)k);
                        if (lead && ++lead_of_gen[i] > 1) fail("leaders", "two calls returned true in generation %d", i);
                    }
                };
                if (main_too && f == sh.fibers[t] - 1) fl.th[t].main_fn = fn;
                else fl.th[t].fibers.push_back(FiberProg{fn, draw_policy(), 0});
            }
        }
    }
    fl.run();
    Quiet q;
    if (fixed) { for (int i = 0; i < g; ++i) if (lead_of_gen[i] != 1) fail("leaders", "%d calls returned true in generation %d", lead_of_gen[i], i); }
    else if (bar.leaders != bar.entered / n) fail("leaders", "%ld calls returned true in %ld generations", bar.leaders, bar.entered / n);
}
}

SIM_SCENARIO(barrier_fixed, 4, "n parties pass a barrier of n several times; per generation checks") {
    faults_basic(); faults_clock(); sim::weak_memory(true); sim::enable_fault(sim::F_STALE, 0.05);
    parties(true);
}
SIM_SCENARIO(barrier_groups, 3, "more callers than parties: callers group into generations") {
    faults_basic(); faults_clock();
    parties(false);
}
SIM_SCENARIO(barrier_misc, 1, "a barrier of size 0 is rejected, one of size 1 never blocks") {
    faults_basic();
    bool threw = false;
    try { bf::barrier b(0); } catch (bf::fiber_error const& e) { threw = true; if (e.code() != std::errc::invalid_argument) fail("error-code", "barrier(0): wrong error code %d", e.code().value()); }
    if (!threw) fail("size-zero", "barrier(0) was accepted");
    bf::barrier one(1); int k = 1 + (int)choose(3);
    for (int i = 0; i < k; ++i) { bool l = one.wait(); if (!l) fail("leaders", "barrier(1)::wait returned false"); }
    // reuse across a changing set of fibers: pairs meet one after the other
    bf::barrier two(2); long trues = 0; int rounds = 1 + (int)choose(3);
    for (int r = 0; r < rounds; ++r) {
        int g1 = (int)choose(GAPS), g2 = (int)choose(GAPS);
        bf::fiber a(draw_policy(), [&] { gap(g1); if (two.wait()) trues++; }), b(draw_policy(), [&] { gap(g2); if (two.wait()) trues++; });
        if (r & 1) { a.join(); b.join(); } else { b.join(); a.join(); }
        if (trues != r + 1) fail("leaders", "%ld of %d generations had a call return true", trues, r + 1);
    }
}
