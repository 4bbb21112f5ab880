// Shared scaffolding of the scenarios: fleets of OS threads and fibers, delays, fault mixes.
#pragma once
#include "../sim/sim.h"
#include <boost/fiber/all.hpp>
#include <atomic>
#include <chrono>
#include <functional>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>

namespace bf = boost::fibers;
using sim::Quiet; using sim::choose; using sim::range; using sim::fail; using sim::probe;
using std::chrono::nanoseconds; using std::chrono::microseconds; using std::chrono::milliseconds;
typedef std::chrono::steady_clock SC; typedef std::chrono::system_clock RC;

inline SC::time_point at_ns(int64_t ns) { return SC::time_point(nanoseconds(ns)); }
inline RC::time_point rt_at_ns(int64_t ns) { return RC::time_point(std::chrono::duration_cast<RC::duration>(nanoseconds(ns))); }

// ---- fault mixes -------------------------------------------------------------
inline void faults_basic() {            // always legal
    sim::enable_fault(sim::F_SPURIOUS, 0.01);
    sim::enable_fault(sim::F_EARLYTIMER, 0.3);
    sim::enable_fault(sim::F_FUTEX, 0.2);
    sim::enable_fault(sim::F_CASFAIL, 0.05);
}
inline void faults_clock() { sim::enable_fault(sim::F_CLOCKJUMP, 0.05); }

// ---- delays between operations -----------------------------------------------
enum { GAPS = 7 };
inline void gap(unsigned g) {
    switch (g) {
    case 0: break;
    case 1: boost::this_fiber::yield(); break;
    case 2: boost::this_fiber::yield(); boost::this_fiber::yield(); break;
    case 3: boost::this_fiber::sleep_for(nanoseconds(1500)); break;
    case 4: boost::this_fiber::sleep_for(microseconds(20)); break;
    case 5: sim::sync_point(); break;
    case 6: for (int i = 0; i < 8; ++i) sim::sync_point(); break;
    }
}

// ---- algorithms -----------------------------------------------------------------
enum Algo { A_DEFAULT, A_ROUND_ROBIN, A_SHARED, A_SHARED_SUSPEND, A_STEAL, A_STEAL_SUSPEND, A_NUMA, A_NUMA_SUSPEND };
#ifdef WITH_NUMA
#include <boost/fiber/numa/all.hpp>
extern "C" { extern int sim_affinity_calls; extern int sim_affinity_cpu[]; }
#endif

inline bf::launch draw_policy() { return choose(2) ? bf::launch::dispatch : bf::launch::post; }

// ---- fleet: OS threads, each with a main fiber and some launched fibers -----------
struct FiberProg { std::function<void()> fn; bf::launch pol; int stack; };
struct Fleet {
    struct Th { std::vector<FiberProg> fibers; std::function<void()> main_fn; bool join_reverse = false, detach = false; };
    std::vector<Th> th;
    int algo = A_DEFAULT;
    std::function<void(int)> thread_init;      // runs first on every thread
    bool run_first_on_caller = false;          // thread 0 of the fleet is the calling thread

    static bool migrating(int a) { return a >= A_SHARED; }
#ifdef WITH_NUMA
    std::vector<bf::numa::node> topo; std::vector<std::pair<std::uint32_t, std::uint32_t>> place;   // cpu, node of every thread
    void draw_topology() {
        Quiet q; int n = (int)th.size(), nodes = 1 + (int)choose(n); bool sparse = choose(2);
        for (int i = 0; i < nodes; ++i) { bf::numa::node x; x.id = (std::uint32_t)(sparse ? i * 2 : i); for (int j = 0; j < nodes; ++j) x.distance.push_back(i == j ? 10 : 20); topo.push_back(x); }
        for (int i = 0; i < n; ++i) { int k = i < nodes ? i : (int)choose(nodes); std::uint32_t cpu = (std::uint32_t)(sparse ? 3 * i + 1 : i); topo[k].logical_cpus.insert(cpu); place.emplace_back(cpu, topo[k].id); }
    }
#endif
    static bf::fiber launch(FiberProg& p) {
        switch (p.stack) {
        case 1: return bf::fiber(p.pol, std::allocator_arg, bf::fixedsize_stack(64 * 1024), std::move(p.fn));
        case 2: return bf::fiber(p.pol, std::allocator_arg, bf::pooled_fixedsize_stack(64 * 1024, 2), std::move(p.fn));
        case 3: return bf::fiber(p.pol, std::allocator_arg, bf::protected_fixedsize_stack(64 * 1024), std::move(p.fn));
        default: return bf::fiber(p.pol, std::move(p.fn));
        }
    }
    void install(int i) {
        switch (algo) {
        case A_ROUND_ROBIN: bf::use_scheduling_algorithm<bf::algo::round_robin>(); break;
        case A_SHARED: bf::use_scheduling_algorithm<bf::algo::shared_work>(); break;
        case A_SHARED_SUSPEND: bf::use_scheduling_algorithm<bf::algo::shared_work>(true); break;
        case A_STEAL: bf::use_scheduling_algorithm<bf::algo::work_stealing>((std::uint32_t)th.size()); break;
        case A_STEAL_SUSPEND: bf::use_scheduling_algorithm<bf::algo::work_stealing>((std::uint32_t)th.size(), true); break;
#ifdef WITH_NUMA
        case A_NUMA: case A_NUMA_SUSPEND: if (algo == A_NUMA) bf::use_scheduling_algorithm<bf::numa::algo::work_stealing>(place[i].first, place[i].second, topo); else bf::use_scheduling_algorithm<bf::numa::algo::work_stealing>(place[i].first, place[i].second, topo, true); { Quiet q; if (sim_affinity_cpu[sim::tid()] != (int)place[i].first) fail("not-pinned", "thread %d is not pinned to cpu %u", i, place[i].first); } break;
#endif
        default: break;
        }
    }
    bf::mutex gather_m; bf::condition_variable gather_cv; int gathered = 0;
    void gather() {                            // ready fibers of a migrating scheduler need live threads
        if (!migrating(algo)) return;
        std::unique_lock<bf::mutex> lk(gather_m);
        if (++gathered == (int)th.size()) gather_cv.notify_all();
        else gather_cv.wait(lk, [this] { return gathered == (int)th.size(); });
    }
    void thread_body(int i) {
        Th& t = th[i];
        install(i);
        if (thread_init) thread_init(i);
        std::vector<bf::fiber> fs;
        { Quiet q; fs.reserve(t.fibers.size()); }
        for (auto& p : t.fibers) fs.push_back(launch(p));
        if (t.main_fn) t.main_fn();
        if (t.detach) { for (auto& f : fs) f.detach(); }
        else if (t.join_reverse) { for (size_t k = fs.size(); k-- > 0;) fs[k].join(); }
        else for (auto& f : fs) f.join();
        gather();
        { Quiet q; std::vector<bf::fiber>().swap(fs); }
    }
    void run() {
#ifdef BOOST_FIBERS_NO_ATOMICS             // without cross-thread synchronisation: all fibers, and all main functions, on one thread
        { Quiet q; for (size_t i = 1; i < th.size(); ++i) { for (auto& p : th[i].fibers) th[0].fibers.push_back(std::move(p)); if (th[i].main_fn) th[0].fibers.push_back(FiberProg{std::move(th[i].main_fn), draw_policy(), 0}); }
          if (th.size() > 1) th.resize(1); }
#endif
#ifdef WITH_NUMA
        if (algo >= A_NUMA) draw_topology();
#endif
        std::vector<std::thread> ts;
        { Quiet q; ts.reserve(th.size()); }
        for (size_t i = run_first_on_caller ? 1 : 0; i < th.size(); ++i) ts.emplace_back([this, i] { thread_body((int)i); });
        if (run_first_on_caller) thread_body(0);
        for (auto& t : ts) t.join();
        Quiet q; std::vector<std::thread>().swap(ts);
    }
};

// shape of a fleet drawn from the workload generator
struct Shape { int threads; std::vector<int> fibers; };
inline Shape draw_shape(int maxthreads, int maxfibers_total, int minfibers = 2) {
    Shape s; 
    unsigned k = choose(6);       // 0: one thread; mostly two
    s.threads = k == 0 ? 1 : k <= 3 ? 2 : 3;
    if (s.threads > maxthreads) s.threads = maxthreads;
    int tot = minfibers + (int)choose((unsigned)(maxfibers_total - minfibers + 1));
    if (tot < s.threads) tot = s.threads;
    s.fibers.assign(s.threads, 0);
    for (int i = 0; i < tot; ++i) s.fibers[i % s.threads]++;
    return s;
}
inline std::vector<int> draw_perm(int n) {      // which role each fiber plays
    std::vector<int> p; for (int i = 0; i < n; ++i) p.push_back(i);
    for (int i = n - 1; i > 0; --i) { int k = i - (int)choose((unsigned)(i + 1)); std::swap(p[i], p[k]); }
    return p;
}

// ---- event record for histories ----------------------------------------------------
struct Ev { int fib, op; long arg, res; uint64_t inv, ret; int64_t t_inv, t_ret, deadline; };

// ---- element type that knows whether it is alive --------------------------------------
struct Tok {
    enum { ALIVE = 0x5a11fe, DEAD = 0xdead };
    static long live;                            // constructed and not destroyed
    static void count(long d) { Quiet q; live += d; }
    static bool may_throw;                       // copies and moves are fault points
    int magic; long v; long nv;
    static void boom(const char* what) { if (may_throw && sim::fault(sim::F_THROW)) { sim::logf("user type throws in %s", what); throw std::runtime_error("user type"); } }
    void ok(const char* what) const { if (magic != ALIVE) { Quiet q; fail("dead-object", "%s of an object that is %s", what, magic == DEAD ? "already destroyed" : "not constructed"); } }
    void ok2(const char* what) const { ok(what); if (nv != ~v) { Quiet q; fail("altered-value", "%s of a half-constructed or altered value %ld", what, v); } }
    Tok() : magic(ALIVE), v(-1), nv(~-1l) { count(1); }
    explicit Tok(long x) : magic(ALIVE), v(x), nv(~x) { count(1); }
    Tok(Tok const& o) : v(o.v), nv(o.nv) { o.ok2("copy construction"); boom("copy construction"); magic = ALIVE; count(1); }
    Tok(Tok&& o) : v(o.v), nv(o.nv) { o.ok2("move construction"); boom("move construction"); magic = ALIVE; o.v = -2; o.nv = ~-2l; count(1); }
    Tok& operator=(Tok const& o) { ok("assignment"); o.ok2("copy assignment"); boom("copy assignment"); v = o.v; nv = o.nv; return *this; }
    Tok& operator=(Tok&& o) { ok("assignment"); o.ok2("move assignment"); boom("move assignment"); v = o.v; nv = o.nv; if (this != &o) { o.v = -2; o.nv = ~-2l; } return *this; }
    ~Tok() { ok("destruction"); magic = DEAD; count(-1); }
    long get() const { ok2("use"); return v; }
};
inline long Tok::live = 0;
inline bool Tok::may_throw = false;
inline void tok_reset() { Tok::live = 0; Tok::may_throw = false; }
inline void tok_done() { Quiet q; if (Tok::live) fail("leak", "%ld user objects were never destroyed", Tok::live); }
