// Deterministic simulator for boostorg/fiber: interface used by the scenarios.
// The simulator (sim.cpp) supplies the entry points the compiler's -fsanitize=thread
// instrumentation calls (no sanitizer runtime is linked) and interposes the OS
// interfaces (threads, mutexes, condition variables, futex, clocks, sleeps, memory,
// randomness).  Real OS threads run one at a time; who runs is decided by a seed.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <string>
#include <vector>

namespace sim {

enum { MAXT = 10 };

// ---- fault kinds -----------------------------------------------------------
enum Fault {
    F_STALL,        // a thread is not scheduled for a while
    F_CLOCKJUMP,    // steady and system clock jump forward (suspend, VM pause)
    F_RTJUMP,       // only the system clock jumps, forward or backward
    F_SPURIOUS,     // OS condition variable wait returns without notification
    F_EARLYTIMER,   // OS sleep / timed wait returns before its time
    F_FUTEX,        // futex wait returns EINTR / EAGAIN or returns 0 spuriously
    F_ALLOC,        // allocation failure
    F_THROW,        // user code (constructor, function) throws
    F_SIGPICK,      // OS condition variable wakes another than the longest waiter
    F_STALE,        // relaxed/acquire atomic load returns an older value the memory model allows
    F_CASFAIL,      // compare_exchange_weak fails spuriously
    F_MMAP,         // mmap / mprotect failure
    F_GPU,          // a call of the GPU runtime, or the work of a stream, fails
    F_IO,           // open, read, directory scan fail, are short, or see a CPU vanish
    F_NKINDS
};
extern const char* const fault_names[F_NKINDS];

// ---- workload choices (upfront, recorded, shrunk towards 0) ----------------
unsigned choose(unsigned n);                    // 0..n-1
inline unsigned range(unsigned lo, unsigned hi) { return lo + choose(hi - lo + 1); }
inline bool chance(unsigned num, unsigned den) { return choose(den) >= den - num; }  // 0 -> false

// ---- during the run ---------------------------------------------------------
bool fault(Fault k);                            // fault decision at a scenario-owned fault point
[[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf,2,3)));
void probe(const char* name);                   // "this rare condition was reached"
void logf(const char* fmt, ...) __attribute__((format(printf,1,2)));   // event log (replay output)
uint64_t seq();                                 // next global event sequence number
int tid();                                      // simulated thread number of the caller
int64_t now_ns();                               // simulated steady clock (no step, no fault)
int64_t rt_now_ns();                            // simulated system clock
int64_t rt_history_max(int64_t from_seq);       // unused by most
void deadline_hint(int64_t ns);                 // clock jumps like to land around these
bool fair_mode();                               // faults have stopped
bool replaying();
uint64_t max_resched();                         // statistics

// sections of harness code: no scheduling points, no faults, allocations not accounted
struct Quiet { Quiet(); ~Quiet(); Quiet(Quiet const&) = delete; };

// ---- limits the scenario may set in its setup --------------------------------
void set_budget(uint64_t fair_after, uint64_t hard);   // in scheduling points
void enable_fault(Fault k, double p_max);       // swarm: used with random p <= p_max, or not at all
void alloc_faults(bool on);                     // calling OS thread: one allocation (heap or mmap) may fail from here
void expect_abort(bool on);                     // std::terminate is the correct outcome
bool aborted_ok();
void leak_check(bool on);                       // at the end of the run, no tracked block may be live
void track_races(bool on);                      // udata races are violations
size_t live_blocks();
void weak_memory(bool on);                      // permit F_STALE
void set_time_step(int64_t ns);                 // per scheduling point

// ---- user data watched by the happens-before detector -----------------------
struct Shadow { uint32_t wclk; int16_t wtid; int16_t pad; uint32_t rclk[MAXT]; };
void shadow_init(Shadow&);
void on_read(Shadow&, const char* what);
void on_write(Shadow&, const char* what);
struct UData {                                   // a plain variable written and read by user code
    Shadow sh; long v;
    UData() : v(0) { shadow_init(sh); }
    explicit UData(long x) : v(x) { shadow_init(sh); }
    long get(const char* what = "user data") { on_read(sh, what); return v; }
    void set(long x, const char* what = "user data") { on_write(sh, what); v = x; }
};
void preempt_point();                            // plain scheduling point
void hb_sync(const void* obj);                   // the harness orders everything before with everything after (an edge its bookkeeping stands for)
void sync_point();                               // synchronisation scheduling point (higher switch rate)

// ---- registration -------------------------------------------------------------
struct Scenario {
    const char* name;
    void (*body)();       // runs on simulated thread 0
    unsigned weight;
    const char* doc;
    Scenario(const char* n, void (*b)(), unsigned w, const char* d);
};
#define SIM_SCENARIO(id, weight, doc) \
    static void scen_##id(); \
    static ::sim::Scenario reg_##id(#id, scen_##id, weight, doc); \
    static void scen_##id()

} // namespace sim
