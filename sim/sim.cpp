// Deterministic simulation runtime.  Compiled WITHOUT instrumentation.
#include "core.h"
#include <atomic>
#include <cerrno>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <csignal>
#include <dlfcn.h>
#include <exception>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <random>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <typeinfo>
#include <cxxabi.h>
#include <ucontext.h>
#include <unistd.h>

#define HID __attribute__((visibility("hidden")))
#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)

namespace sim {

const char* const fault_names[F_NKINDS] = {
    "thread_stall", "clock_jump", "system_clock_jump", "spurious_os_wakeup", "early_os_timer",
    "futex_interrupted", "allocation_failure", "user_exception", "os_wakeup_order", "stale_atomic_read",
    "weak_cas_failure", "mmap_failure", "gpu_failure", "io_failure" };

Result* g_res = nullptr;

uint32_t Rng::geom(double p) {
    if (p <= 0) return 0xffffffffu;
    if (p >= 1) return 1;
    double u = unit(); if (u < 1e-12) u = 1e-12;
    double g = std::ceil(std::log(u) / std::log(1 - p));
    if (g < 1) g = 1;
    if (g > 4e9) g = 4e9;
    return (uint32_t)g;
}

static long raw_syscall(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
int64_t real_ns() { timespec ts; raw_syscall(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&ts, 0, 0, 0, 0); return ts.tv_sec * 1000000000ll + ts.tv_nsec; }

// ------------------------------------------------------------------ vector clocks
struct VC {
    uint32_t c[MAXT];
    void clear() { memset(c, 0, sizeof c); }
    void join(const VC& o) { for (int i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};

enum State { RUN, B_MUTEX, B_COND, B_SLEEP, B_JOIN, B_FUTEX, B_ONCE, FIN };
static const char* const state_names[] = { "runnable", "mutex", "condition", "sleep", "thread-join", "futex", "once", "finished" };

struct Thr {
    int id; pthread_t real; State st; std::atomic<uint32_t> go;
    uint32_t k, trig;                 // scheduling points executed, next plain point that decides
    int quiet; bool allocf;
    void* obj;                        // what it blocks on
    int64_t wake_at; bool wake_rt;    // -1: none
    int wake_why;                     // 0 notified, 1 timer, 2 spurious/interrupted
    uint64_t wait_seq;
    int64_t prio; uint64_t stall_until; int stall_timers;
    uint32_t consec, pctc;            // sync points since it got the baton
    uint32_t starve;
    VC vc, frel, acq;
    void* (*fn)(void*); void* arg; void* ret;
    bool detached, joined;
    void* pc;
    const Sw* rsw; const Sw* rsw_end; // replay cursor
    int txn; uint32_t txn_pts, txn_n;        // nesting depth of the emulated hardware transaction it executes
    int64_t txn_regs[23]; char txn_stk[512];
};

static Thr g_t[MAXT]; static int g_nt;
static thread_local Thr* self __attribute__((tls_model("initial-exec"))) = nullptr;
static void dump_trace();
static bool g_active;

static const Spec* g_spec;
static Rng r_cfg, r_ch, r_sched, r_fault;
static struct Cfg {
    int policy;                // 0 random, 1 priority (PCT), 2 mostly run-to-block
    double p_sync, p_plain;
    int npct; uint64_t pct[16];
    int64_t step_ns, now_step, oversleep;
    int reuse;                 // freed memory reused immediately (LIFO) or never
    double pf[F_NKINDS];
} cfg;
static uint64_t g_points, g_syncs, g_switches, g_seq, g_waitseq;
static uint64_t b_fair = 120000, b_hard = 600000, b_next = 120000;    // b_next: the next of both to look at
static bool g_fair;
static int64_t g_ns, g_rtoff; static int64_t g_prio_low;
static uint64_t h_full, h_sched;
static uint32_t f_cnt[F_NKINDS], f_next[F_NKINDS]; static uint32_t f_ri[F_NKINDS];
static std::vector<Fl>* f_replay[F_NKINDS];
static int64_t g_deadlines[128]; static uint32_t g_ndl;
static bool g_expect_abort, g_leak, g_races, g_weak; static uint64_t g_timer_fires;
static std::atomic<uint32_t> g_done;
static bool g_dead;
static const int64_t STEADY0 = 1000000000000ll, RT0 = 1700000000000000000ll;

static inline void mix(uint64_t& h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 29; }

std::vector<Scenario*>& scenarios() { static std::vector<Scenario*> v; return v; }
Scenario::Scenario(const char* n, void (*b)(), unsigned w, const char* d) : name(n), body(b), weight(w), doc(d) { scenarios().push_back(this); }

// ------------------------------------------------------------------ failure, log
static void vlogf(const char* fmt, va_list ap) {
    if (!g_spec || !g_spec->verbose || !g_res) return;
    char buf[512]; int n = vsnprintf(buf, sizeof buf, fmt, ap);
    if (n < 0) return;
    if (n > (int)sizeof buf - 1) n = sizeof buf - 1;
    char pre[64]; int m = snprintf(pre, sizeof pre, "[%llu t%d %lldns] ", (unsigned long long)g_points, self ? self->id : -1, (long long)(g_ns - STEADY0));
    if (g_res->log_len + n + m + 2 < LOGSZ) {
        memcpy(g_res->log + g_res->log_len, pre, m); g_res->log_len += m;
        memcpy(g_res->log + g_res->log_len, buf, n); g_res->log_len += n; g_res->log[g_res->log_len++] = '\n';
    }
}
void logf(const char* fmt, ...) { va_list ap; va_start(ap, fmt); if (self) self->quiet++; vlogf(fmt, ap); if (self) self->quiet--; va_end(ap); }

static void finish_result() {
    g_res->hash_full = h_full; g_res->hash_sched = h_sched; g_res->points = g_points; g_res->syncs = g_syncs;
    g_res->switches = g_switches; g_res->threads = g_nt; g_res->sim_ns = g_ns - STEADY0; g_res->fair_used = g_fair;
}
[[noreturn]] static void die(int st) { finish_result(); g_res->status = st; raw_syscall(SYS_exit_group, 0, 0, 0, 0, 0, 0); __builtin_unreachable(); }

static void vfail(const char* cls, const char* fmt, va_list ap) {
    if (g_dead) die(ST_FAIL);
    g_dead = true;
    snprintf(g_res->cls, sizeof g_res->cls, "%s", cls);
    vsnprintf(g_res->msg, sizeof g_res->msg, fmt, ap);
    for (char* p = g_res->msg; *p; ++p) if (*p == '\n') *p = ' ';
    logf("VIOLATION %s: %s", g_res->cls, g_res->msg);
    mix(h_full, g_points);
    die(ST_FAIL);
}
void fail(const char* cls, const char* fmt, ...) { if (self) self->quiet++; va_list ap; va_start(ap, fmt); vfail(cls, fmt, ap); va_end(ap); abort(); }

void probe(const char* name) {
    Result* r = g_res;
    for (uint32_t i = 0; i < r->nprobe; ++i) if (!strcmp(r->probes[i].name, name)) { r->probes[i].n++; return; }
    if (r->nprobe < MAXPROBE) { Probe& p = r->probes[r->nprobe++]; snprintf(p.name, sizeof p.name, "%s", name); p.n = 1; }
}

// ------------------------------------------------------------------ memory arena
enum { NCLS = 40 };
struct Arena {
    uintptr_t base, end, cur;
    void* freel[NCLS];
};
static Arena A_host{0x600000000000ull, 0x600040000000ull, 0, {}}, A_sim{0x610000000000ull, 0x610040000000ull, 0, {}};
static uint8_t* g_map;   // one byte per 16 bytes of A_sim: 0 never, 1 live, 2 freed
struct Hdr { uint32_t magic; uint32_t flags; uint64_t size; uint64_t cls; void* owner; void* raw; uint64_t pad[3]; };  // 64 bytes
enum { HF_TRACK = 1 };
static std::atomic_flag g_host_lk = ATOMIC_FLAG_INIT;
static size_t g_live;
static Hdr* g_dbg_last;

static void arena_map(Arena& a) {
    void* p = mmap((void*)a.base, a.end - a.base, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*)a.base) { const char m[] = "sim: cannot map arena\n"; (void)!write(2, m, sizeof m - 1); _exit(3); }
    a.cur = a.base;
}
static inline int size_cls(size_t n, size_t& rounded) {
    int c = 0; size_t s = 32;
    while (s < n) { s = (c & 1) ? s / 3 * 4 : s / 2 * 3; ++c; }
    rounded = s; return c;
}
static inline bool in_sim(const void* p) { return (uintptr_t)p - A_sim.base < A_sim.end - A_sim.base; }
static inline bool in_host(const void* p) { return (uintptr_t)p - A_host.base < A_host.end - A_host.base; }

static void* arena_alloc(size_t n, size_t align, bool sim, uint32_t flags) {
    Arena& a = sim ? A_sim : A_host;
    if (!a.cur) arena_map(a);
    if (n == 0) n = 1;
    size_t need = n + (align > 16 ? align : 0); size_t rs; int c = size_cls(need, rs);
    if (c >= NCLS) return nullptr;
    Hdr* h;
    if (a.freel[c]) { h = (Hdr*)a.freel[c]; a.freel[c] = h->raw; }
    else {
        uintptr_t p = a.cur; uintptr_t e = p + sizeof(Hdr) + rs + 64;
        if (e > a.end) return nullptr;
        a.cur = e; h = (Hdr*)p;
    }
    h->magic = 0xA110C8ED; h->flags = flags; h->size = n; h->cls = c; h->raw = nullptr; h->owner = nullptr;
    uintptr_t u = (uintptr_t)(h + 1);
    if (align > 16) {
        uintptr_t v = (u + align - 1) & ~(uintptr_t)(align - 1);
        if (v != u) { Hdr* h2 = (Hdr*)v - 1; if ((uintptr_t)h2 < (uintptr_t)(h + 1)) { v += align; h2 = (Hdr*)v - 1; } 
            // real header stays at h; h2 forwards
            h2->magic = 0xF0F0F0F0; h2->raw = h; h2->size = n; u = v; }
    }
    if (sim) {
        memset(g_map + (u - a.base) / 16, 1, (n + 15) / 16);
        if (n <= 2048) memset((void*)u, 0xCD, n);
        if (flags & HF_TRACK) g_live++;
    }
    return (void*)u;
}
static Hdr* hdr_of(void* p) {
    Hdr* h = (Hdr*)p - 1;
    if (h->magic == 0xF0F0F0F0) h = (Hdr*)h->raw;
    return h;
}
static size_t arena_size(void* p) { Hdr* h = (Hdr*)p - 1; return h->size; }

static void arena_free(void* p, bool exiting) {
    if (!p) return;
    bool sim = in_sim(p);
    if (!sim && !in_host(p)) return;
    Arena& a = sim ? A_sim : A_host;
    if (sim && g_map[((uintptr_t)p - a.base) / 16] != 1) {
        if (g_active && self) fail("double-free", "free of a block that is not live");
        return;
    }
    Hdr* h = hdr_of(p);
    if (h->magic != 0xA110C8ED) { if (sim && g_active && self) fail("double-free", "free of an invalid block"); return; }
    if (sim) {
        size_t n = h->size;
        memset(g_map + ((uintptr_t)p - a.base) / 16, 2, (n + 15) / 16);
        if (n <= 2048) memset(p, 0xDD, n);
        if (h->flags & HF_TRACK) g_live--;
    }
    if (exiting) return;
    h->magic = 0xF4EEF4EE;
    if (!sim || cfg.reuse) { h->raw = a.freel[h->cls]; a.freel[h->cls] = h; }
    else h->raw = nullptr;
}

// ------------------------------------------------------------------ atomic locations
struct Ent { uint64_t v; VC rel; VC rd; uint32_t clk; int16_t tid; bool sc; };
enum { NHIST = 4 };
struct Loc { uintptr_t a; VC rel; uint32_t nh; uint64_t mo; Ent h[NHIST]; void* mowner; };
enum { LOCBITS = 14 };
static Loc* g_loc;   // pool, mmap'd
static uint16_t* g_locix; static uint32_t g_nloc;   // open addressing index into the pool (0: empty)
static uint8_t* g_bloom;
static VC g_scvc;

static inline uint32_t lochash(uintptr_t a) { return (uint32_t)((a * 0x9E3779B97F4A7C15ull) >> (64 - LOCBITS)); }
static Loc* loc_find(uintptr_t a, bool create) {
    uint32_t i = lochash(a), n = 0;
    while (g_locix[i]) { Loc* l = &g_loc[g_locix[i]]; if (l->a == a) return l; i = (i + 1) & ((1u << LOCBITS) - 1); if (++n > (1u << (LOCBITS - 1))) { die(ST_ERROR); } }
    if (!create) return nullptr;
    g_locix[i] = (uint16_t)++g_nloc;
    Loc* l = &g_loc[g_nloc]; l->a = a; l->rel.clear(); l->nh = 0; l->mo = 0; l->mowner = nullptr;
    g_bloom[(a >> 3) & 0xffff] = 1;
    return l;
}
static inline void plain_write_loc(uintptr_t a, size_t n) {
    if (!g_weak) return;
    for (uintptr_t p = a & ~7ull; p < a + n; p += 8)
        if (g_bloom[(p >> 3) & 0xffff]) {
            for (uintptr_t q = p; q < p + 8; ++q) { Loc* l = loc_find(q, false); if (l) l->nh = 0; if (n <= 8 && q == a) break; }
        }
}

// ------------------------------------------------------------------ scheduling
static inline int64_t rtnow() { return g_ns - STEADY0 + RT0 + g_rtoff; }
static inline int64_t wake_time(Thr* t) { return t->wake_rt ? t->wake_at - RT0 - g_rtoff + STEADY0 : t->wake_at; }

static bool fault_fire(int k, int64_t& arg);

static void baton_wait(Thr* t) {
    while (t->go.load(std::memory_order_acquire) == 0)
        raw_syscall(SYS_futex, (long)&t->go, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0, 0, 0);
    t->go.store(0, std::memory_order_relaxed);
}
static void baton_give(Thr* t) {
    t->go.store(1, std::memory_order_release);
    raw_syscall(SYS_futex, (long)&t->go, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0);
}
static uint32_t g_fq = 60;         // fair phase: length of the running thread's time slice (varies: a fixed one resonates with polling loops)
static void switch_to(Thr* from, Thr* to, bool exiting) { g_fq = 20 + (uint32_t)(Rng::mix(g_spec->seed * 0x9e3779b97f4a7c15ull + g_points) % 100);
    g_switches++; to->consec = to->pctc = 0; to->starve = 0; from->starve = 0;
    mix(h_full, (uint64_t)to->id * 7919 + from->k);
    baton_give(to);
    if (!exiting) baton_wait(from);
}
static inline bool eligible(Thr* t) { return t->st == RUN && t->stall_until <= g_points; }

static void next_trigger(Thr* t) {
    if (g_spec->have_sched) { t->trig = t->rsw != t->rsw_end ? t->rsw->k : 0xffffffffu; return; }
    if (g_fair || cfg.p_plain <= 0) { t->trig = 0xffffffffu; return; }
    uint32_t g = r_sched.geom(cfg.p_plain);
    t->trig = (g > 0xffffffffu - t->k) ? 0xffffffffu : t->k + g;
}
static void record_sw(Thr* from, Thr* to, void* pc) {
    Result* r = g_res;
    if (r->nsw < MAXSW) { r->swpc[r->nsw] = pc; r->sw[r->nsw++] = Sw{(uint16_t)from->id, (uint16_t)to->id, from->k}; }
    else r->overflow = 1;
}
static Thr* replay_target(Thr* t) {      // recorded decision at this point, if any
    while (t->rsw != t->rsw_end && t->rsw->k < t->k) ++t->rsw;
    if (t->rsw != t->rsw_end && t->rsw->k == t->k) { Thr* x = t->rsw->to < g_nt ? &g_t[t->rsw->to] : nullptr; ++t->rsw; return x; }
    return nullptr;
}
static void enter_fair() {
    if (g_fair) return;
    g_fair = true; b_next = b_hard;
    for (int i = 0; i < g_nt; ++i) { g_t[i].stall_until = 0; g_t[i].trig = 0xffffffffu; }
    cfg.step_ns = cfg.step_ns < 100 ? 100 : cfg.step_ns;
}
static Thr* pick_random(Thr* cur) {
    Thr* c[MAXT]; int n = 0;
    for (int i = 0; i < g_nt; ++i) if (eligible(&g_t[i]) && &g_t[i] != cur) c[n++] = &g_t[i];
    if (!n) return nullptr;
    return c[r_sched.below(n)];
}
static Thr* pick_prio() {
    Thr* b = nullptr;
    for (int i = 0; i < g_nt; ++i) if (eligible(&g_t[i]) && (!b || g_t[i].prio > b->prio)) b = &g_t[i];
    return b;
}
static Thr* next_cyclic(Thr* cur, bool self_ok) {
    for (int d = 1; d < g_nt; ++d) { Thr* x = &g_t[(cur->id + d) % g_nt]; if (eligible(x)) return x; }
    return self_ok && eligible(cur) ? cur : nullptr;
}
static void dump_threads(char* out, size_t n) {
    size_t o = 0;
    for (int i = 0; i < g_nt && o + 60 < n; ++i)
        o += snprintf(out + o, n - o, "%st%d:%s", i ? " " : "", i, state_names[g_t[i].st]);
}
static void check_budget() {
    if (UNLIKELY(!g_fair && g_points > b_fair)) enter_fair();
    if (UNLIKELY(g_points > b_hard)) {
        char b[300]; dump_threads(b, sizeof b);
dump_trace();
        fail("livelock", "no completion within %llu scheduling points (faults stopped after %llu): %s", (unsigned long long)b_hard, (unsigned long long)b_fair, b);
    }
}
static void fire_timer_if_due() {
    for (int i = 0; i < g_nt; ++i) {
        Thr* t = &g_t[i];
        if (t->st != RUN && t->st != FIN && t->wake_at >= 0 && wake_time(t) <= g_ns) { t->st = RUN; t->wake_why = 1; t->wake_at = -1; g_timer_fires++; }
    }
}
// somebody must run: returns a thread in state RUN (may be `cur` itself if it became runnable)
static Thr* must_pick(Thr* cur) {
    Thr* rt = g_spec->have_sched ? replay_target(cur) : nullptr;
    for (;;) {
        fire_timer_if_due();
        if (g_spec->have_sched) {
            if (rt && eligible(rt)) return rt;
            Thr* x = next_cyclic(cur, true);
            if (x) return x;
        } else {
            Thr* dflt = next_cyclic(cur, true); Thr* x;
            if (g_fair) x = dflt;
            else if (cfg.policy == 1) x = pick_prio();
            else x = pick_random(nullptr);
            if (x) { if (x != dflt) record_sw(cur, x, cur->pc); return x; }
        }
        // nobody eligible: stalled threads or timers
        Thr* st = nullptr; Thr* tm = nullptr;
        for (int i = 0; i < g_nt; ++i) {
            Thr* t = &g_t[i];
            if (t->st == RUN && (!st || t->stall_until < st->stall_until)) st = t;
            if (t->st != RUN && t->st != FIN && t->wake_at >= 0 && (!tm || wake_time(t) < wake_time(tm))) tm = t;
        }
        // a stall lets at most a second of simulated time pass
        if (st && (!tm || st->stall_timers <= 0 || wake_time(tm) > g_ns + 1000000000ll)) { st->stall_until = 0; continue; }
        if (tm) {
            if (st) st->stall_timers--;
            int64_t w = wake_time(tm);
            if (w > g_ns) g_ns = w;
            if (cfg.oversleep) g_ns += (int64_t)(Rng::mix(g_spec->seed * 31 + ++g_timer_fires) % (uint64_t)cfg.oversleep);
            continue;
        }
        char b[300]; dump_threads(b, sizeof b);
        fail("deadlock", "nothing can run any more, but the program has not finished: %s", b);
    }
}

enum PK { PK_PLAIN, PK_SYNC, PK_YIELD };

static void maybe_switch(Thr* t, int pk) {       // t is running and may go on
    Thr* x = nullptr;
    if (g_spec->have_sched) {
        x = replay_target(t);
        if (x && (!eligible(x) || x == t)) x = nullptr;
        if (!x && t->stall_until > g_points) x = next_cyclic(t, false);
        if (!x && g_fair && (pk == PK_YIELD || t->consec > g_fq || t->starve > 3000)) { t->starve = 0; x = next_cyclic(t, false); }
        if (!x && !g_fair && t->starve > 3000) { t->starve = 0; x = next_cyclic(t, false); }
        next_trigger(t);
        if (x) switch_to(t, x, false);
        return;
    }
    if (pk == PK_PLAIN) {
        next_trigger(t);
        if (cfg.policy == 1) { if (g_fair) return; t->prio = --g_prio_low; x = pick_prio(); if (x == t) x = nullptr; }
        else x = pick_random(t);
    } else if (g_fair) {
        if (pk == PK_YIELD || t->consec > g_fq || t->starve > 3000) { t->starve = 0; x = next_cyclic(t, false); if (x) { switch_to(t, x, false); } return; }   // same rule in replay
        return;
    } else if (t->stall_until > g_points) {
        Thr* d = next_cyclic(t, false); x = pick_random(t);
        if (x && x != d) record_sw(t, x, t->pc);
        if (x) switch_to(t, x, false);
        return;
    } else if (cfg.policy == 1) {
        bool drop = pk == PK_YIELD || ++t->pctc > 500;
        for (int i = 0; i < cfg.npct; ++i) if (cfg.pct[i] == g_syncs) drop = true;
        if (drop) { t->prio = --g_prio_low; t->pctc = 0; }
        x = pick_prio();
        if (x == t) x = nullptr;
    } else {
        bool sw = pk == PK_YIELD ? r_sched.bern(0.8) : (t->consec > 500 || r_sched.bern(cfg.p_sync));
        if (sw) { x = pick_random(t); }
    }
    if (!x && t->starve > (pk == PK_PLAIN ? 4000u : 3000u)) { t->starve = 0; x = next_cyclic(t, false); }
    if (x) { record_sw(t, x, t->pc); switch_to(t, x, false); }
}

static void advance(int64_t d) { g_ns += d; }

static void try_global_faults(Thr* t) {
    int64_t arg;
    if (fault_fire(F_STALL, arg)) { t->stall_until = g_points + (uint64_t)(arg & 0xffff); t->stall_timers = (int)(arg >> 16); }
    if (fault_fire(F_CLOCKJUMP, arg)) { g_ns += arg; logf("fault: clock jump +%lld", (long long)arg); }
    if (fault_fire(F_RTJUMP, arg)) { g_rtoff += arg; logf("fault: system clock jump %lld", (long long)arg); }
    if (fault_fire(F_SPURIOUS, arg)) {
        int n = 0; Thr* c[MAXT];
        for (int i = 0; i < g_nt; ++i) if (g_t[i].st == B_COND || g_t[i].st == B_FUTEX) c[n++] = &g_t[i];
        if (n) { Thr* w = c[(uint64_t)arg % n]; w->st = RUN; w->wake_why = 2; w->wake_at = -1; probe("os-level spurious wakeup of a blocked thread"); }
    }
}

static void txn_discard(const char* why);
static inline void point(Thr* t, int pk, void* pc) {
    t->k++; g_points++; g_ns += cfg.step_ns; t->starve++;
    if (UNLIKELY(t->txn)) { if (++t->txn_pts > 20000) txn_discard("run ended without verdict: loops in a transaction"); return; }      // atomic
    if (LIKELY(pk == PK_PLAIN)) {
        // the budget is looked at here, too: the fair phase begins at the same point when replaying
        if (LIKELY(t->k < t->trig) && LIKELY(t->starve <= 4000) && LIKELY(g_points <= b_next)) return;
        t->pc = pc; check_budget();
        if (t->k >= t->trig || t->starve > 4000) maybe_switch(t, g_spec->have_sched || t->k < t->trig ? PK_SYNC : PK_PLAIN);
        return;
    }
    t->pc = pc; g_syncs++; t->consec++;
    check_budget();
    if (!g_fair) try_global_faults(t);
    fire_timer_if_due();
    maybe_switch(t, pk);
}
#define PC() __builtin_return_address(0)
enum { NTRC = 400 };
struct Trc { uint64_t p; int t, kind; void* pc; const void* obj; };
static Trc g_trc[NTRC]; static uint64_t g_trcn;
static inline void sync_pt(const void* obj, int kind, void* pc, int pk = PK_SYNC) {
    Thr* t = self;
    if (!g_active || !t || t->quiet) return;
    point(t, pk, pc);
    if (UNLIKELY(g_spec->verbose)) { Trc& r = g_trc[g_trcn++ % NTRC]; r.p = g_points; r.t = t->id; r.kind = kind; r.pc = pc; r.obj = obj; }
    uint64_t o = in_sim(obj) ? (uintptr_t)obj - A_sim.base : (uintptr_t)obj < 0x10000000 ? (uintptr_t)obj : 1;
    mix(h_sched, (uint64_t)t->id << 56 ^ (uint64_t)kind << 48 ^ o);
    mix(h_full, (uint64_t)t->id << 56 ^ (uint64_t)kind << 48 ^ o ^ (uint64_t)g_ns << 8);
}

static void dump_trace() {         // the last synchronisation points, for a human
    if (!g_spec->verbose) return;
    for (uint64_t i = g_trcn > NTRC ? g_trcn - NTRC : 0; i < g_trcn; ++i) { Trc& r = g_trc[i % NTRC]; Dl_info di; logf("trace %llu t%d kind %d obj %p pc %p %s", (unsigned long long)r.p, r.t, r.kind, r.obj, r.pc, dladdr(r.pc, &di) && di.dli_sname ? di.dli_sname : ""); }
}
static void block(Thr* t, State st, void* obj, int64_t wake_at, bool rt) {
    if (UNLIKELY(t->txn)) txn_discard("run ended without verdict: blocks in a transaction");
    t->st = st; t->obj = obj; t->wake_at = wake_at; t->wake_rt = rt; t->wake_why = 0; t->wait_seq = ++g_waitseq;
    t->k++; g_points++;
    Thr* x = must_pick(t);
    next_trigger(t);
    if (x != t) switch_to(t, x, false);
    t->obj = nullptr; t->wake_at = -1;
}
static void unblock(Thr* t, int why) { t->st = RUN; t->wake_why = why; t->wake_at = -1; }

// ------------------------------------------------------------------ faults
static int64_t draw_arg(int k) {
    switch (k) {
    case F_STALL: { static const int d[] = { 20, 100, 400, 1500, 6000 }; return (int64_t)(1 + r_fault.below(d[r_fault.below(5)])) | (int64_t)r_fault.below(4) << 16; }
    case F_CLOCKJUMP: {
        // mostly: land around a deadline somebody is waiting for
        if (g_ndl && r_fault.below(4)) {
            int64_t best = -1; uint32_t s = r_fault.below(g_ndl > 128 ? 128 : g_ndl);
            for (uint32_t i = 0; i < (g_ndl > 128 ? 128u : g_ndl); ++i) { int64_t d = g_deadlines[(s + i) % 128]; if (d > g_ns && (best < 0 || r_fault.below(2))) { best = d; if (r_fault.below(3) == 0) break; } }
            if (best > 0) { int64_t j = best - g_ns + (int64_t)r_fault.below(3) - 1 - (r_fault.below(2) ? cfg.step_ns * (int64_t)r_fault.below(40) : 0); if (j > 0) return j; return 1; }
        }
        static const int64_t d[] = { 1000, 20000, 300000, 5000000, 2000000000ll };
        return 1 + (int64_t)(r_fault.unit() * d[r_fault.below(5)]);
    }
    case F_RTJUMP: { static const int64_t d[] = { 1000, 100000, 10000000, 3600000000000ll }; int64_t j = (int64_t)(r_fault.unit() * d[r_fault.below(4)]); return r_fault.below(2) ? j : -j; }
    case F_SPURIOUS: return r_fault.below(64);
    default: return r_fault.below(1000);
    }
}
static void fault_arm(int k) {
    if (g_spec->have_sched) {
        std::vector<Fl>& v = *f_replay[k];
        while (f_ri[k] < v.size() && v[f_ri[k]].n <= f_cnt[k]) f_ri[k]++;
        f_next[k] = f_ri[k] < v.size() ? v[f_ri[k]].n : 0xffffffffu;
    } else {
        uint32_t g = r_fault.geom(cfg.pf[k]);
        f_next[k] = g > 0xffffffffu - f_cnt[k] ? 0xffffffffu : f_cnt[k] + g;
    }
}
static bool fault_fire(int k, int64_t& arg) {
    if (LIKELY(++f_cnt[k] != f_next[k])) return false;
    bool live = true;
    if (g_spec->have_sched) {
        arg = (*f_replay[k])[f_ri[k]].arg;
        // kinds that stop in fair mode: same rule when replaying
        if (g_fair) live = false;
        fault_arm(k);
    } else {
        if (g_fair) { live = false; }
        else arg = draw_arg(k);
        fault_arm(k);
    }
    if (!live) return false;
    Result* r = g_res;
    if (r->nfl < MAXFL) r->fl[r->nfl++] = Fl{(uint16_t)k, 0, f_cnt[k], arg}; else r->overflow = 1;
    r->fired[k]++;
    mix(h_full, 0xFA17ull << 32 ^ k);
    return true;
}
bool fault(Fault k) { int64_t a; if (!g_active || !self) return false; return fault_fire(k, a); }
void enable_fault(Fault k, double p) {
    // swarm: half of the runs have the kind off; otherwise a random rate up to p
    bool on = r_cfg.below(2); double f = r_cfg.unit();
    cfg.pf[k] = on ? p * f * f + p * 0.01 : 0;
    if (g_active) fault_arm(k);
}

// ------------------------------------------------------------------ scenario API
unsigned choose(unsigned n) {
    if (n == 0) n = 1;
    Result* r = g_res; uint32_t v;
    if (g_spec->have_ch) v = r->nch < g_spec->ch.size() ? g_spec->ch[r->nch] % n : 0;
    else v = r_ch.below(n);
    if (r->nch < MAXCH) { r->chn[r->nch] = (uint16_t)(n > 65535 ? 65535 : n); r->ch[r->nch++] = v; } else r->overflow = 1;
    mix(h_full, v);
    return v;
}
uint64_t seq() { return ++g_seq; }
int tid() { return self ? self->id : -1; }
int64_t now_ns() { return g_ns; }
int64_t rt_now_ns() { return rtnow(); }
void deadline_hint(int64_t ns) { g_deadlines[g_ndl++ % 128] = ns; }
bool fair_mode() { return g_fair; }
bool replaying() { return g_spec->have_sched; }
Quiet::Quiet() { if (self) self->quiet++; }
Quiet::~Quiet() { if (self) self->quiet--; }
void set_budget(uint64_t f, uint64_t h) { b_fair = f; b_hard = h; b_next = g_fair ? h : f; }
void alloc_faults(bool on) { if (self) self->allocf = on; }
void expect_abort(bool on) { g_expect_abort = on; }
} // a failing BOOST_ASSERT of the library (builds without NDEBUG)
extern "C" void __assert_fail(const char* e, const char* f, unsigned l, const char*) noexcept { const char* b = strstr(f, "boost/fiber"); if (!b) b = strstr(f, "/src/"); sim::fail("assertion", "%s:%u: %s", b ? b : f, l, e); }
namespace sim {
void leak_check(bool on) { g_leak = on; }
void track_races(bool on) { g_races = on; }
void weak_memory(bool on) { g_weak = on; }
void set_time_step(int64_t ns) { cfg.step_ns = ns; }
size_t live_blocks() { return g_live; }
__attribute__((noinline)) void preempt_point() { Thr* t = self; if (g_active && t && !t->quiet) point(t, PK_PLAIN, PC()); }
__attribute__((noinline)) void sync_point() { sync_pt(nullptr, 30, PC()); }

void shadow_init(Shadow& s) { memset(&s, 0, sizeof s); s.wtid = -1; Thr* t = self; if (t) { s.wtid = (int16_t)t->id; s.wclk = t->vc.c[t->id]; } }
void on_read(Shadow& s, const char* what) {
    Thr* t = self; if (!t) return;
    preempt_point();
    g_res->hb_checks++;
    if (s.wtid >= 0 && s.wtid != t->id && t->vc.c[s.wtid] < s.wclk) {
        g_res->races++;
        if (g_races) fail("data-race", "read of %s on thread %d does not happen after the write on thread %d", what, t->id, s.wtid);
    }
    s.rclk[t->id] = t->vc.c[t->id];
}
void on_write(Shadow& s, const char* what) {
    Thr* t = self; if (!t) return;
    preempt_point();
    g_res->hb_checks++;
    if (s.wtid >= 0 && s.wtid != t->id && t->vc.c[s.wtid] < s.wclk) {
        g_res->races++;
        if (g_races) fail("data-race", "write of %s on thread %d does not happen after the write on thread %d", what, t->id, s.wtid);
    }
    for (int i = 0; i < g_nt; ++i) if (i != t->id && s.rclk[i] > t->vc.c[i]) {
        g_res->races++;
        if (g_races) fail("data-race", "write of %s on thread %d does not happen after the read on thread %d", what, t->id, i);
    }
    s.wtid = (int16_t)t->id; s.wclk = t->vc.c[t->id];
}

// ------------------------------------------------------------------ threads
static pthread_key_t g_key; static int (*real_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static int (*real_join)(pthread_t, void**); static int (*real_detach)(pthread_t);

static void thr_init(Thr* t) {
    t->st = RUN; t->go.store(0); t->k = 0; t->quiet = 0; t->allocf = false; t->obj = nullptr; t->wake_at = -1;
    t->stall_until = 0; t->consec = t->starve = 0; t->detached = t->joined = false; t->pc = nullptr;
    t->vc.clear(); t->frel.clear(); t->acq.clear();
    t->rsw = t->rsw_end = nullptr; t->txn = 0; t->txn_n = 0;
    if (g_spec->have_sched) {
        const std::vector<Sw>& v = g_spec->sw; size_t i = 0, n = v.size();
        while (i < n && v[i].tid != t->id) ++i;
        size_t j = i; while (j < n && v[j].tid == t->id) ++j;
        t->rsw = v.data() + i; t->rsw_end = v.data() + j;      // sw is sorted by (tid, k)
    } else t->prio = (int64_t)r_sched.below(1000000);
    t->trig = 0xffffffffu;
    next_trigger(t);
}
static void thread_exit(void* p) {
    Thr* t = (Thr*)p;
    if (!self) return;
    t->pc = nullptr; t->k++;
    if (!t->quiet) sync_pt(nullptr, 31, nullptr);
    t->st = FIN; t->k++;
    mix(h_full, t->id);
    for (int i = 0; i < g_nt; ++i) if (g_t[i].st == B_JOIN && g_t[i].obj == t) unblock(&g_t[i], 0);
    bool all = true;
    for (int i = 0; i < g_nt; ++i) if (g_t[i].st != FIN) all = false;
    if (all) { self = nullptr; g_done.store(1); raw_syscall(SYS_futex, (long)&g_done, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0); return; }
    Thr* x = must_pick(t);
    self = nullptr;
    switch_to(t, x, true);
}
static void lr_thread(); static void lr_init(bool ww);
static void* trampoline(void* p) {
    Thr* t = (Thr*)p;
    baton_wait(t);
    stack_t ss; memset(&ss, 0, sizeof ss);
    ss.ss_size = 65536; ss.ss_sp = mmap(nullptr, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    sigaltstack(&ss, nullptr);
    pthread_setspecific(g_key, t);
    lr_thread();
    self = t;
    t->ret = t->fn(t->arg);
    return t->ret;
}
static Thr* spawn(void* (*fn)(void*), void* arg, const pthread_attr_t* attr, int* rc) {
    if (g_nt >= MAXT) { die(ST_ERROR); }
    Thr* t = &g_t[g_nt]; t->id = g_nt; thr_init(t); t->fn = fn; t->arg = arg; g_nt++;
    Thr* me = self;
    if (me) { t->vc = me->vc; me->vc.c[me->id]++; me->quiet++; }
    t->vc.c[t->id] = 1;
    pthread_attr_t at; pthread_attr_init(&at);
    if (attr) at = *attr;
    pthread_attr_setstacksize(&at, 512 * 1024);
    *rc = real_create(&t->real, &at, trampoline, t);
    if (me) me->quiet--;
    if (*rc) { die(ST_ERROR); }
    return t;
}
static void sim_main_fn() { g_spec->scen->body(); }
static void* sim_main(void*) { sim_main_fn(); return nullptr; }

static int64_t g_last_pts; static int g_ticks;
static void on_tick(int) {
    // CPU-time tick: no scheduling point for several seconds of CPU means a loop that never touches shared state
    if ((int64_t)g_points == g_last_pts) { if (++g_ticks >= 6) { snprintf(g_res->cls, 48, "livelock"); snprintf(g_res->msg, 400, "the running thread loops for ever without ever reaching a scheduling point"); die(ST_FAIL); } }
    else { g_ticks = 0; g_last_pts = (int64_t)g_points; }
}
static void on_stuck(int) {      // real time: something waits outside the simulator's control
    snprintf(g_res->cls, 48, "stuck"); snprintf(g_res->msg, 200, "run took more than two minutes of real time"); die(ST_ERROR);
}
// ------------------------------------------------------------------ restricted transactional memory (builds with BOOST_USE_TSX)
// The four instructions trap (sim/rtm/as puts ud2 in front of them) and are interpreted here.  A transaction either
// aborts at once with a drawn status or runs to its end without preemption; one run in three has a processor on which
// every transaction aborts.  What would need a rollback of memory ends the run without a verdict.
static void txn_discard(const char* why) {
    self->txn = 0; probe(why);
    die(ST_OK);
}
static bool emul_rtm(ucontext_t* u) {
    greg_t* g = u->uc_mcontext.gregs;
    const uint8_t* p = (const uint8_t*)g[REG_RIP]; Thr* t = self;
    if (p[0] != 0x0f || p[1] != 0x0b) return false;
    p += 2;
    static const uint32_t why[] = { 0, 2, 2 | 4, 4, 8, 16 };
    if (p[0] == 0xc7 && p[1] == 0xf8) {                                 // xbegin
        int32_t off; memcpy(&off, p + 2, 4);
        g[REG_RIP] += 8;
        if (!t || !g_active || t->quiet) { g[REG_RIP] += off; g[REG_RAX] = 0; return true; }
        if (t->txn) { t->txn++; return true; }
        uint32_t mode = (uint32_t)((g_spec->seed * 0x9e3779b97f4a7c15ull) >> 40) % 3;
        uint64_t d = Rng::mix(g_spec->seed * 31 + ((uint64_t)t->id << 32 | ++t->txn_n));         // not a recorded choice: there are too many
        if (mode == 0 || d % (mode == 1 ? 2 : 8) == 0) {
            g[REG_RIP] += off; g[REG_RAX] = why[(d >> 32) % 6];
            probe(mode == 0 ? "transaction aborted (processor that aborts all)" : "transaction aborted");
            return true;
        }
        t->txn = 1; t->txn_pts = 0;
        memcpy(t->txn_regs, g, sizeof t->txn_regs); t->txn_regs[REG_RIP] += off;
        memcpy(t->txn_stk, (char*)g[REG_RSP], sizeof t->txn_stk);
        for (int i = 0; i < g_nt; ++i) t->vc.join(g_t[i].vc);
        return true;
    }
    if (p[0] == 0xc6 && p[1] == 0xf8) {                                 // xabort
        uint32_t imm = p[2];
        if (!t || !t->txn) { g[REG_RIP] += 5; return true; }
        if (t->txn > 1) txn_discard("run ended without verdict: nested transaction aborts");
        t->txn = 0; probe("transaction aborted: lock not free");
        memcpy(g, t->txn_regs, sizeof t->txn_regs);
        memcpy((char*)g[REG_RSP], t->txn_stk, sizeof t->txn_stk);
        g[REG_RAX] = (int64_t)(uint64_t)(imm << 24 | 1);
        return true;
    }
    if (p[0] == 0x0f && p[1] == 0x01 && p[2] == 0xd5) {                 // xend
        if (!t || !t->txn) return false;                                // general protection fault
        g[REG_RIP] += 5;
        if (--t->txn == 0) {
            probe("transaction committed");
            for (int i = 0; i < g_nt; ++i) if (&g_t[i] != t) g_t[i].vc.join(t->vc);
            t->vc.c[t->id]++;
        }
        return true;
    }
    if (p[0] == 0x0f && p[1] == 0x01 && p[2] == 0xd6) {                 // xtest
        g[REG_RIP] += 5;
        if (t && t->txn) g[REG_EFL] &= ~0x40; else g[REG_EFL] |= 0x40;
        return true;
    }
    return false;
}
static void on_crash(int sig, siginfo_t* si, void* uc) {
    if (sig == SIGILL && emul_rtm((ucontext_t*)uc)) return;
    if (sig == SIGABRT && g_expect_abort) die(ST_OK_ABORT);
    if (!g_dead) {
        g_dead = true;
        snprintf(g_res->cls, 48, "%s", sig == SIGABRT ? "terminate" : "crash");
        if (sig == SIGABRT) {
            std::type_info* ti = abi::__cxa_current_exception_type();
            snprintf(g_res->msg, 400, "std::terminate/abort called unexpectedly%s%s", ti ? ", active exception " : "", ti ? ti->name() : "");
        }
        else snprintf(g_res->msg, 400, "signal %d", sig);
        if (g_spec && g_spec->verbose) {
            ucontext_t* u = (ucontext_t*)uc; Dl_info di;
            void* pc = (void*)u->uc_mcontext.gregs[REG_RIP];
            self = nullptr;
            char b[400]; snprintf(b, sizeof b, "signal %d addr %p pc %p", sig, si->si_addr, pc);
            if (dladdr(pc, &di) && di.dli_sname) snprintf(b + strlen(b), sizeof b - strlen(b), " in %s", di.dli_sname);
            logf("%s", b);
        }
    }
    die(ST_FAIL);
}

void runtime_init() {
    real_create = (decltype(real_create))dlsym(RTLD_NEXT, "pthread_create");
    real_join = (decltype(real_join))dlsym(RTLD_NEXT, "pthread_join");
    real_detach = (decltype(real_detach))dlsym(RTLD_NEXT, "pthread_detach");
    pthread_key_create(&g_key, thread_exit);
    g_map = (uint8_t*)mmap(nullptr, (A_sim.end - A_sim.base) / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_loc = (Loc*)mmap(nullptr, sizeof(Loc) << LOCBITS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_locix = (uint16_t*)mmap(nullptr, sizeof(uint16_t) << LOCBITS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_bloom = (uint8_t*)mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    arena_map(A_sim);
    // warm up lazily initialised parts of the C++ runtime outside the runs
    try { throw std::bad_alloc(); } catch (...) {}
    { std::exception_ptr p; try { throw 1; } catch (...) { p = std::current_exception(); } }
    char b[64]; snprintf(b, sizeof b, "%.3f %d", 1.5, 3);
    stack_t ss; memset(&ss, 0, sizeof ss);
    ss.ss_size = 65536; ss.ss_sp = mmap(nullptr, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    sigaltstack(&ss, nullptr);
}

void run_in_child(const Spec& s) {
    g_spec = &s;
    for (int sig : { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT }) {
        struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_crash; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; sigaction(sig, &sa, nullptr);
    }
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_tick; sa.sa_flags = SA_RESTART | SA_ONSTACK; sigaction(SIGPROF, &sa, nullptr);
    itimerval it; it.it_interval.tv_sec = 1; it.it_interval.tv_usec = 0; it.it_value = it.it_interval; setitimer(ITIMER_PROF, &it, nullptr);
    sa.sa_handler = on_stuck; sigaction(SIGALRM, &sa, nullptr);
    it.it_value.tv_sec = 120; setitimer(ITIMER_REAL, &it, nullptr);
    uint64_t sd = s.seed;
    r_cfg = Rng(sd * 4 + 0x1111); r_ch = Rng(sd * 4 + 0x2222); r_sched = Rng(sd * 4 + 0x3333); r_fault = Rng(sd * 4 + 0x4444);
    static const double ps[] = { 0.6, 0.3, 0.15, 0.06, 0.02 }; static const double pp[] = { 0, 0, 0.02, 0.005, 0.1 };
    static const int64_t steps[] = { 1, 5, 20, 100 }; static const int64_t nsteps[] = { 1, 50, 500, 3000 };
    uint32_t pol = r_cfg.below(10);
    cfg.policy = pol < 5 ? 0 : pol < 8 ? 1 : 2;
    cfg.p_sync = ps[r_cfg.below(5)]; cfg.p_plain = pp[r_cfg.below(5)];
    if (cfg.policy == 2) { cfg.p_sync = 0.004; cfg.p_plain = 0.0003; }
    cfg.npct = 0;
    if (cfg.policy == 1) {
        static const uint32_t len[] = { 60, 200, 600, 2000, 6000 };
        cfg.npct = 1 + r_cfg.below(6); uint32_t L = len[r_cfg.below(5)];
        for (int i = 0; i < cfg.npct; ++i) cfg.pct[i] = 1 + r_cfg.below(L);
        static const double pq[] = { 0, 0, 0.0005, 0.003 }; cfg.p_plain = pq[r_cfg.below(4)];
    }
    cfg.step_ns = steps[r_cfg.below(4)]; cfg.now_step = nsteps[r_cfg.below(4)];
    static const int64_t os[] = { 0, 1000, 60000 }; cfg.oversleep = os[r_cfg.below(3)];
    cfg.reuse = (int)r_cfg.below(2);
    for (int k = 0; k < F_NKINDS; ++k) cfg.pf[k] = 0;
    cfg.pf[F_STALL] = r_cfg.below(2) ? 0.01 * r_cfg.unit() * r_cfg.unit() : 0;
    cfg.pf[F_SIGPICK] = r_cfg.below(2) ? 0.5 : 0;
    g_ns = STEADY0; g_rtoff = 0; h_full = 1; h_sched = 1;
    for (int k = 0; k < F_NKINDS; ++k) {
        f_cnt[k] = 0; f_ri[k] = 0; f_replay[k] = new std::vector<Fl>();
        if (s.have_sched) for (auto& f : s.fl) if (f.kind == k) f_replay[k]->push_back(f);
        fault_arm(k);
    }
    g_res->nprobe = g_res->nsw = g_res->nfl = g_res->nch = 0; g_res->log_len = 0; g_res->cls[0] = g_res->msg[0] = 0;
    g_res->races = g_res->overflow = 0; g_res->live = 0; g_res->hb_checks = 0;
    for (int k = 0; k < F_NKINDS; ++k) g_res->fired[k] = 0;
    g_done.store(0);
    if (s.opts & 1) g_leak = true;
    if (s.opts & 2) g_races = true;
    if (s.opts & 4) lr_init(false);
    else if ((s.opts & 8) && (Rng::mix(sd * 4 + 0x5555) & 3) == 0) lr_init(true);
    int rc; 
    g_active = true;
    Thr* t0 = spawn(sim_main, nullptr, nullptr, &rc);
    baton_give(t0);
    while (!g_done.load()) raw_syscall(SYS_futex, (long)&g_done, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0, 0, 0);
    g_active = false;
    g_res->live = g_live;
    if (g_expect_abort) { snprintf(g_res->cls, 48, "no-terminate"); snprintf(g_res->msg, 200, "the program should have been terminated but went on"); die(ST_FAIL); }
    if (g_leak && g_live) {
        // describe the first few live blocks
        char b[300]; size_t o = 0; int n = 0;
        for (uintptr_t p = A_sim.base; p < A_sim.cur && n < 6;) {
            Hdr* h = (Hdr*)p; size_t rs = 32; for (uint64_t c = 0; c < h->cls; ++c) rs = (c & 1) ? rs / 3 * 4 : rs / 2 * 3;
            if (h->magic == 0xA110C8ED && (h->flags & HF_TRACK)) { o += snprintf(b + o, sizeof b - o, "%s%llu", n ? "," : "", (unsigned long long)h->size); n++; 
                if (s.verbose) { Dl_info di; logf("leak: %llu bytes allocated by %p (%s)", (unsigned long long)h->size, h->owner, dladdr(h->owner, &di) && di.dli_sname ? di.dli_sname : "?"); } }
            p += sizeof(Hdr) + rs + 64;
        }
        snprintf(g_res->cls, 48, "leak"); snprintf(g_res->msg, 400, "%llu blocks still allocated after everything ended (sizes %s)", (unsigned long long)g_live, b);
        die(ST_FAIL);
    }
    die(ST_OK);
}

// ------------------------------------------------------------------ memory access checks
static void bad_access(const void* p, bool w, void* pc) {
    if (self) self->quiet++;
    size_t g = ((uintptr_t)p - A_sim.base) / 16; size_t s = g;
    while (s && g_map[s - 1] == g_map[g]) --s;
    Hdr* h = (Hdr*)(A_sim.base + s * 16) - 1;
    unsigned long long sz = 0, off = (g - s) * 16 + ((uintptr_t)p & 15);
    if (g_map[g] == 2) sz = h->size;
    Dl_info di; const char* fn = dladdr(pc, &di) && di.dli_sname ? di.dli_sname : "?";
    fail("use-after-free", "%s of %s memory (offset %llu in a block of %llu bytes) in %s", w ? "write" : "read", g_map[g] == 2 ? "freed" : "unallocated", off, sz, fn);
}
// ------------------------------------------------------------------ happens-before checks on every access of instrumented code
// One shadow page covers 1 KiB: for each 8-byte granule the last few accesses with the accessing thread's clock.
struct Cell { uint32_t clk, pc; uint8_t tid, mask, fl, used; };            // fl: 1 write, 2 atomic
struct SPage { uint8_t next[128]; Cell c[128][4]; };
enum { SPBITS = 16, SPMAX = 40000 };
static bool g_lr, g_lr_ww; static SPage* g_sp; static uint32_t g_nsp; static struct SPIx { uintptr_t pg; uint32_t ix; }* g_spix;
static uintptr_t g_sp_last; static SPage* g_sp_lastp;
static void lr_init(bool ww) {                                            // ww: only two conflicting writes count
    g_lr_ww = ww;
    g_sp = (SPage*)mmap(nullptr, sizeof(SPage) * (size_t)SPMAX, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_spix = (SPIx*)mmap(nullptr, sizeof(SPIx) << SPBITS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_nsp = 0; g_sp_last = 0; g_lr = true;
}
static SPage* lr_page(uintptr_t pg, bool create) {
    if (pg == g_sp_last && g_sp_lastp) return g_sp_lastp;
    uint32_t i = (uint32_t)((pg * 0x9E3779B97F4A7C15ull) >> (64 - SPBITS));
    while (g_spix[i].pg) { if (g_spix[i].pg == pg) { g_sp_last = pg; return g_sp_lastp = &g_sp[g_spix[i].ix]; } i = (i + 1) & ((1u << SPBITS) - 1); }
    if (!create || g_nsp >= SPMAX) return nullptr;
    g_spix[i].pg = pg; g_spix[i].ix = g_nsp; g_sp_last = pg; return g_sp_lastp = &g_sp[g_nsp++];
}
static void lr_clear(uintptr_t a, size_t n) {                              // the memory begins a new life
    for (uintptr_t g = a & ~7ull, e = a + n; g < e;) {
        SPage* s = lr_page(g >> 10, false); uintptr_t pe = (g | 1023) + 1; if (pe > e) pe = e;
        if (s) for (; g < pe; g += 8) memset(s->c[(g >> 3) & 127], 0, sizeof s->c[0]);
        g = pe;
    }
}
static void lr_thread() { char x; if (g_lr) lr_clear((uintptr_t)&x - 400 * 1024, 412 * 1024); }   // the stack may have been another thread's
static const char* where(void* pc, char* buf) {
    Dl_info di; int st = 0; if (!dladdr(pc, &di) || !di.dli_sname) return "?";
    char* d = abi::__cxa_demangle(di.dli_sname, nullptr, nullptr, &st);
    snprintf(buf, 140, "%.139s", st == 0 && d ? d : di.dli_sname); return buf;
}
static void lr_race(Thr* t, uintptr_t a, const Cell& c, bool w, bool at, void* pc) {
    t->quiet++;
    char b1[140], b2[140];
    if (g_spec->verbose) logf("race on %p: %s%s at %p after %s%s at %p of thread %d", (void*)a, at ? "atomic " : "", w ? "write" : "read", pc, c.fl & 2 ? "atomic " : "", c.fl & 1 ? "write" : "read", (void*)(uintptr_t)c.pc, c.tid);
    g_res->races++;
    fail("internal-race", "%s%s in %s [thread %d] is not ordered after the %s%s in %s [thread %d]", at ? "atomic " : "", w ? "write" : "read", where(pc, b1), t->id,
        c.fl & 2 ? "atomic " : "", c.fl & 1 ? "write" : "read", where((void*)(uintptr_t)c.pc, b2), c.tid);
}
static void lr_acc(Thr* t, uintptr_t a, size_t n, bool w, bool at, void* pc) {
    uintptr_t e = a + n;
    while (a < e) {
        uintptr_t ge = (a | 7) + 1; if (ge > e) ge = e;
        uint8_t mask = (uint8_t)(((1u << (ge - a)) - 1) << (a & 7));
        SPage* s = lr_page(a >> 10, true);
        if (s) {
            unsigned g = (a >> 3) & 127; Cell* c = s->c[g]; int slot = -1; uint8_t fl = (w ? 1 : 0) | (at ? 2 : 0);
            for (int i = 0; i < 4; ++i) {
                if (!c[i].used) { if (slot < 0) slot = i; continue; }
                if (!(c[i].mask & mask)) continue;
                if (c[i].tid == t->id) { if ((c[i].mask & ~mask) == 0 && (w || !(c[i].fl & 1)) && (!at || (c[i].fl & 2))) slot = i; continue; }
                if (c[i].clk > t->vc.c[c[i].tid]) {
                    if ((g_lr_ww ? w && (c[i].fl & 1) : w || (c[i].fl & 1)) && !(at && (c[i].fl & 2))) lr_race(t, a, c[i], w, at, pc);
                } else if ((c[i].mask & ~mask) == 0 && w && !at && slot < 0) slot = i;
            }
            if (slot < 0) { slot = s->next[g]; s->next[g] = (slot + 1) & 3; }
            c[slot] = Cell{ t->vc.c[t->id], (uint32_t)(uintptr_t)pc, (uint8_t)t->id, mask, fl, 1 };
        }
        a = ge;
    }
    g_res->hb_checks++;
}
static inline void acc(const void* a, size_t n, bool w, void* pc) {
    Thr* t = self;
    if (!g_active || !t || t->quiet) return;
    point(t, PK_PLAIN, pc);
    if (in_sim(a) && UNLIKELY(g_map[((uintptr_t)a - A_sim.base) / 16] != 1)) bad_access(a, w, pc);
    if (g_lr) lr_acc(t, (uintptr_t)a, n, w, false, pc);
    if (w && g_weak) plain_write_loc((uintptr_t)a, n);
}
static inline void acc_range(const void* a, size_t n, bool w, void* pc) {
    Thr* t = self;
    if (!g_active || !t || t->quiet || !n) return;
    point(t, PK_PLAIN, pc);
    if (in_sim(a)) {
        if (UNLIKELY(g_map[((uintptr_t)a - A_sim.base) / 16] != 1)) bad_access(a, w, pc);
        const char* e = (const char*)a + n - 1;
        if (in_sim(e) && UNLIKELY(g_map[((uintptr_t)e - A_sim.base) / 16] != 1)) bad_access(e, w, pc);
    }
    if (g_lr) lr_acc(t, (uintptr_t)a, n < 4096 ? n : 4096, w, false, pc);
    if (w && g_weak && n <= 256) plain_write_loc((uintptr_t)a, n);
}

// ------------------------------------------------------------------ atomics
static inline bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

static inline Thr* at_begin(const void* a, int kind, void* pc) {
    Thr* t = self;
    if (!g_active || !t) return nullptr;
    if (t->quiet) return t;
    sync_pt(a, kind, pc);
    if (in_sim(a) && UNLIKELY(g_map[((uintptr_t)a - A_sim.base) / 16] != 1)) bad_access(a, kind != 1, pc);
    if (g_lr) lr_acc(t, (uintptr_t)a, 1, kind != 1, true, pc);
    return t;
}
static void hist_push(Loc* l, Thr* t, uint64_t v, uint64_t old, bool sc) {
    if (!g_weak) return;
    if (l->nh == 0) { Ent& e = l->h[0]; e.v = old; e.rel.clear(); e.rd.clear(); e.clk = 0; e.tid = -1; e.sc = true; l->nh = 1; }
    if (l->nh == NHIST) { memmove(&l->h[0], &l->h[1], sizeof(Ent) * (NHIST - 1)); l->nh--; }
    Ent& e = l->h[l->nh++]; e.v = v; e.rel = l->rel; e.rd.clear(); e.clk = t->vc.c[t->id]; e.tid = (int16_t)t->id; e.sc = sc;
}
// choose what an atomic load returns; cur is the newest value
static uint64_t at_load(Thr* t, uintptr_t a, uint64_t cur, int mo) {
    Loc* l = loc_find(a, true);
    const VC* rel = &l->rel; uint64_t v = cur;
    if (g_weak && l->nh && !t->quiet) {
        if (l->h[l->nh - 1].v != cur) l->nh = 0;           // written behind our back: forget
        else {
            int pick = (int)l->nh - 1;
            if (mo != __ATOMIC_SEQ_CST && l->nh > 1) {
                int lo = (int)l->nh - 1;
                while (lo > 0) {                            // may entry lo-1 be read?  not if entry lo is known to t
                    Ent& e = l->h[lo]; bool known = e.tid < 0 || e.tid == t->id || t->vc.c[e.tid] >= e.clk;
                    for (int i = 0; i < g_nt && !known; ++i) if (e.rd.c[i] && (i == t->id || t->vc.c[i] >= e.rd.c[i])) known = true;
                    if (known) break;
                    --lo;
                }
                int64_t arg;
                if (lo < (int)l->nh - 1 && !g_fair && fault_fire(F_STALE, arg)) { pick = lo + (int)((uint64_t)arg % (uint64_t)((int)l->nh - 1 - lo)); logf("stale atomic read: %llx instead of %llx at %p in %p", (unsigned long long)l->h[pick].v, (unsigned long long)cur, (void*)a, __builtin_return_address(0)); }
            }
            Ent& e = l->h[pick]; v = e.v; rel = &e.rel; e.rd.c[t->id] = t->vc.c[t->id];
        }
    }
    if (is_acq(mo)) t->vc.join(*rel); else t->acq.join(*rel);
    if (mo == __ATOMIC_SEQ_CST) { }
    return v;
}
static void at_store(Thr* t, uintptr_t a, uint64_t v, uint64_t old, int mo) {
    Loc* l = loc_find(a, true);
    if (is_rel(mo)) { l->rel = t->vc; } else l->rel = t->frel;
    hist_push(l, t, v, old, mo == __ATOMIC_SEQ_CST);
    if (is_rel(mo)) t->vc.c[t->id]++;
}
static void at_rmw(Thr* t, uintptr_t a, uint64_t v, uint64_t old, int mo) {
    Loc* l = loc_find(a, true);
    if (g_weak && l->nh && l->h[l->nh - 1].v != old) l->nh = 0;
    if (is_acq(mo)) t->vc.join(l->rel); else t->acq.join(l->rel);
    if (is_rel(mo)) l->rel.join(t->vc); else l->rel.join(t->frel);
    hist_push(l, t, v, old, mo == __ATOMIC_SEQ_CST);
    if (is_rel(mo)) t->vc.c[t->id]++;
}
static void at_fence(Thr* t, int mo) {
    if (is_acq(mo)) t->vc.join(t->acq);
    if (mo == __ATOMIC_SEQ_CST) { t->vc.join(g_scvc); g_scvc.join(t->vc); }
    if (is_rel(mo)) { t->frel = t->vc; t->vc.c[t->id]++; }
}
static void hb_acquire(Thr* t, const void* obj) { t->vc.join(loc_find((uintptr_t)obj | 1ull << 62, true)->rel); }
static void hb_release(Thr* t, const void* obj) { loc_find((uintptr_t)obj | 1ull << 62, true)->rel.join(t->vc); t->vc.c[t->id]++; }
void hb_sync(const void* obj) { Thr* t = self; if (t && g_active) { hb_acquire(t, obj); hb_release(t, obj); } }
static Loc* mloc(const void* m) { return loc_find((uintptr_t)m | 1ull << 62, true); }

// ------------------------------------------------------------------ OS primitives
static int sim_mutex_lock(Thr* t, pthread_mutex_t* m) {
    Loc* l = mloc(m);
    while (l->mowner) { block(t, B_MUTEX, m, -1, false); l = mloc(m); }
    l->mowner = t; t->vc.join(l->rel);
    return 0;
}
static void sim_mutex_unlock(Thr* t, pthread_mutex_t* m) {
    Loc* l = mloc(m); l->mowner = nullptr; l->rel.join(t->vc); t->vc.c[t->id]++;
    for (int i = 0; i < g_nt; ++i) if (g_t[i].st == B_MUTEX && g_t[i].obj == m) unblock(&g_t[i], 0);
}
static int sim_cond_wait(Thr* t, pthread_cond_t* c, pthread_mutex_t* m, int64_t wake_at, bool rt) {
    sim_mutex_unlock(t, m);
    int64_t arg;
    int why;
    if (wake_at >= 0 && !rt) deadline_hint(wake_at);
    if (wake_at >= 0 && !t->quiet && fault_fire(F_EARLYTIMER, arg)) why = 2;
    else { block(t, B_COND, c, wake_at, rt); why = t->wake_why; }
    sim_mutex_lock(t, m);
    return why == 1 ? ETIMEDOUT : 0;
}
static void sim_cond_wake(pthread_cond_t* c, bool all) {
    Thr* w[MAXT]; int n = 0;
    for (int i = 0; i < g_nt; ++i) if (g_t[i].st == B_COND && g_t[i].obj == c) w[n++] = &g_t[i];
    if (!n) return;
    if (all) { for (int i = 0; i < n; ++i) unblock(w[i], 0); return; }
    int b = 0; for (int i = 1; i < n; ++i) if (w[i]->wait_seq < w[b]->wait_seq) b = i;
    int64_t arg; if (n > 1 && fault_fire(F_SIGPICK, arg)) b = (int)((uint64_t)arg % (uint64_t)n);
    unblock(w[b], 0);
}
static int64_t ts2ns(const timespec* ts) {
    if (ts->tv_sec > 9000000000ll) return 0x7fffffffffffffffll;
    return ts->tv_sec * 1000000000ll + ts->tv_nsec;
}
static int sim_clock(clockid_t id, timespec* ts) {
    Thr* t = self; int64_t arg;
    if (!t->quiet) {
        g_ns += cfg.now_step;
        sync_pt(nullptr, 20, nullptr);
        if (!g_fair && fault_fire(F_CLOCKJUMP, arg)) { g_ns += arg; logf("fault: clock jump +%lld", (long long)arg); }
    }
    int64_t v = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE ? rtnow() : g_ns;
    ts->tv_sec = v / 1000000000ll; ts->tv_nsec = v % 1000000000ll;
    return 0;
}
static int sim_sleep(Thr* t, int64_t until, bool rt) {
    int64_t arg;
    if (!rt) deadline_hint(until);
    if (!t->quiet && fault_fire(F_EARLYTIMER, arg)) { sync_pt(nullptr, 21, nullptr, PK_YIELD); return EINTR; }
    block(t, B_SLEEP, nullptr, until, rt);
    return 0;
}
static long sim_futex(Thr* t, int* addr, int op, int val, const timespec* ts) {
    int64_t arg;
    switch (op & FUTEX_CMD_MASK) {
    case FUTEX_WAIT:
        sync_pt(addr, 22, nullptr);
        if (*(volatile int*)addr != val) { errno = EAGAIN; return -1; }
        if (fault_fire(F_FUTEX, arg)) { if (arg % 3 == 0) { errno = EINTR; return -1; } if (arg % 3 == 1) return 0; errno = EAGAIN; return -1; }
        block(t, B_FUTEX, addr, ts ? g_ns + ts2ns(ts) : -1, false);
        if (t->wake_why == 1) { errno = ETIMEDOUT; return -1; }
        if (t->wake_why == 2) { errno = EINTR; return -1; }
        return 0;
    case FUTEX_WAKE: {
        sync_pt(addr, 23, nullptr);
        long n = 0;
        while (n < val) {
            Thr* b = nullptr;
            for (int i = 0; i < g_nt; ++i) if (g_t[i].st == B_FUTEX && g_t[i].obj == addr && (!b || g_t[i].wait_seq < b->wait_seq)) b = &g_t[i];
            if (!b) break;
            unblock(b, 0); ++n;
        }
        return n;
    }
    default: errno = ENOSYS; return -1;
    }
}

struct AllocGuard {};
static void* do_alloc(size_t n, size_t align, void* pc) {
    Thr* t = self;
    if (!g_active || !t) {
        while (g_host_lk.test_and_set(std::memory_order_acquire)) ;
        void* p = arena_alloc(n, align, false, 0);
        g_host_lk.clear(std::memory_order_release);
        return p;
    }
    int64_t arg;
    if (t->allocf && !t->quiet && fault_fire(F_ALLOC, arg)) { t->allocf = false; logf("fault: allocation of %llu bytes fails", (unsigned long long)n); return nullptr; }
    void* p = arena_alloc(n, align, true, t->quiet ? 0 : HF_TRACK);
    if (p && g_lr) lr_clear((uintptr_t)p, n);
    if (p) { hdr_of(p)->owner = pc; if (g_weak) plain_write_loc((uintptr_t)p, n < 4096 ? n : 0); }
    else if (!t->quiet) { die(ST_ERROR); }
    return p;
}
static void do_free(void* p, void* pc = nullptr) {
    if (!p) return;
    Thr* t = self;
    if (!t || !g_active) {
        if (in_sim(p)) { if (g_active || g_done.load()) return; arena_free(p, true); return; }
        while (g_host_lk.test_and_set(std::memory_order_acquire)) ;
        arena_free(p, false);
        g_host_lk.clear(std::memory_order_release);
        return;
    }
    if (g_lr && !t->quiet && in_sim(p) && (uintptr_t)pc < 0x20000000) { size_t n = arena_size(p), m = n <= 1024 ? n : 1536; if (m > n) m = n; lr_acc(t, (uintptr_t)p + n - m, m, true, false, pc); }   // of large blocks the end: a stack holds its fiber's context there
    arena_free(p, false);
}
} // namespace sim

using namespace sim;

// ====================================================================== interposition
extern "C" {

__attribute__((noinline)) void* malloc(size_t n) { return do_alloc(n, 16, PC()); }
__attribute__((noinline)) void free(void* p) { do_free(p, PC()); }
void* calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) return nullptr; void* p = do_alloc(n, 16, PC()); if (p) memset(p, 0, n); return p; }
void* realloc(void* p, size_t n) {
    if (!p) return do_alloc(n, 16, PC());
    size_t o = arena_size(p); void* q = do_alloc(n, 16, PC()); if (!q) return nullptr;
    memcpy(q, p, o < n ? o : n); do_free(p); return q;
}
void* memalign(size_t al, size_t n) { return do_alloc(n, al, PC()); }
void* aligned_alloc(size_t al, size_t n) { return do_alloc(n, al, PC()); }
int posix_memalign(void** out, size_t al, size_t n) { void* p = do_alloc(n, al, PC()); if (!p) return ENOMEM; *out = p; return 0; }
size_t malloc_usable_size(void* p) { return p ? arena_size(p) : 0; }

int pthread_create(pthread_t* th, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
    if (!g_active || !self) return real_create(th, at, fn, arg);
    sync_pt(nullptr, 10, PC());
    int rc; Thr* t = spawn(fn, arg, at, &rc);
    *th = t->real;
    sync_pt(nullptr, 11, PC());
    return rc;
}
static Thr* by_pthread(pthread_t p) { for (int i = g_nt - 1; i >= 0; --i) if (pthread_equal(g_t[i].real, p) && !g_t[i].joined) return &g_t[i]; return nullptr; }
int pthread_join(pthread_t p, void** ret) {
    if (!g_active || !self) return real_join(p, ret);
    sync_pt(nullptr, 12, PC());
    Thr* t = by_pthread(p); if (!t) return ESRCH;
    while (t->st != FIN) block(self, B_JOIN, t, -1, false);
    t->joined = true; self->vc.join(t->vc);
    void* r; self->quiet++; int rc = real_join(p, &r); self->quiet--;
    if (ret) *ret = r;
    return rc;
}
int pthread_detach(pthread_t p) {
    if (!g_active || !self) return real_detach(p);
    Thr* t = by_pthread(p); if (t) { t->detached = t->joined = true; }
    self->quiet++; int rc = real_detach(p); self->quiet--; return rc;
}
int pthread_mutex_lock(pthread_mutex_t* m) {
    Thr* t = self; if (!g_active || !t) return 0;
    sync_pt(m, 2, PC());
    return sim_mutex_lock(t, m);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    Thr* t = self; if (!g_active || !t) return 0;
    sync_pt(m, 3, PC());
    Loc* l = mloc(m); if (l->mowner) return EBUSY;
    l->mowner = t; t->vc.join(l->rel); return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    Thr* t = self; if (!g_active || !t) return 0;
    sim_mutex_unlock(t, m);
    sync_pt(m, 4, PC());
    return 0;
}
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t*) { memset(m, 0, sizeof *m); if (g_active && self) mloc(m)->mowner = nullptr; return 0; }
int pthread_mutex_destroy(pthread_mutex_t* m) { if (g_active && self) { mloc(m)->mowner = nullptr; } return 0; }
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t* c) {
    // POSIX: undefined behaviour while threads block on it
    if (g_active && self) for (int i = 0; i < g_nt; ++i) if (g_t[i].st == B_COND && g_t[i].obj == c) sim::fail("use-after-free", "OS condition variable destroyed while a thread blocks on it");
    return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    Thr* t = self; if (!g_active || !t) return 0;
    sync_pt(c, 5, PC());
    return sim_cond_wait(t, c, m, -1, false);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts) {
    Thr* t = self; if (!g_active || !t) return ETIMEDOUT;
    sync_pt(c, 6, PC());
    return sim_cond_wait(t, c, m, ts2ns(ts), true);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t id, const timespec* ts) {
    Thr* t = self; if (!g_active || !t) return ETIMEDOUT;
    sync_pt(c, 6, PC());
    return sim_cond_wait(t, c, m, ts2ns(ts), id == CLOCK_REALTIME);
}
int pthread_cond_signal(pthread_cond_t* c) { Thr* t = self; if (!g_active || !t) return 0; sync_pt(c, 7, PC()); sim_cond_wake(c, false); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { Thr* t = self; if (!g_active || !t) return 0; sync_pt(c, 8, PC()); sim_cond_wake(c, true); return 0; }

int pthread_once(pthread_once_t* o, void (*fn)()) {
    volatile int* s = (volatile int*)o; Thr* t = self;
    if (!g_active || !t) { if (*s == 2) return 0; *s = 1; fn(); *s = 2; return 0; }
    sync_pt(o, 9, PC());
    for (;;) {
        if (*s == 2) { hb_acquire(t, o); return 0; }
        if (*s == 0) break;
        block(t, B_ONCE, o, -1, false);
    }
    *s = 1;
    try { fn(); } catch (...) { *s = 0; for (int i = 0; i < g_nt; ++i) if (g_t[i].st == B_ONCE && g_t[i].obj == o) unblock(&g_t[i], 0); throw; }
    *s = 2; t = self; hb_release(t, o);
    for (int i = 0; i < g_nt; ++i) if (g_t[i].st == B_ONCE && g_t[i].obj == o) unblock(&g_t[i], 0);
    return 0;
}
int __cxa_guard_acquire(long long* g) {
    volatile char* b = (volatile char*)g; Thr* t = self;
    if (!g_active || !t) { if (b[0]) return 0; b[1] = 1; return 1; }
    for (;;) {
        if (b[0]) { hb_acquire(t, g); t->vc.join(loc_find((uintptr_t)g, true)->rel); return 0; }
        if (!b[1]) break;
        block(t, B_ONCE, g, -1, false);
    }
    b[1] = 1; return 1;
}
static void guard_done(long long* g, bool ok) {
    volatile char* b = (volatile char*)g; Thr* t = self;
    b[1] = 0; if (ok) b[0] = 1;
    if (!g_active || !t) return;
    loc_find((uintptr_t)g, true)->rel = t->vc; hb_release(t, g);
    for (int i = 0; i < g_nt; ++i) if (g_t[i].st == B_ONCE && g_t[i].obj == g) unblock(&g_t[i], 0);
}
void __cxa_guard_release(long long* g) { guard_done(g, true); }
void __cxa_guard_abort(long long* g) { guard_done(g, false); }

int sched_yield() { if (!g_active || !self) return 0; sync_pt(nullptr, 13, PC(), PK_YIELD); return 0; }
int nanosleep(const timespec* ts, timespec* rem) {
    Thr* t = self;
    if (!g_active || !t) return (int)raw_syscall(SYS_nanosleep, (long)ts, (long)rem, 0, 0, 0, 0);
    int64_t d = ts2ns(ts);
    sync_pt(nullptr, 14, PC(), PK_YIELD);
    if (d <= 0) return 0;
    int64_t until = d > 0x7fffffffffffffffll - g_ns ? 0x7fffffffffffffffll : g_ns + d;
    if (sim_sleep(t, until, false)) { int64_t l = until - g_ns; if (l < 0) l = 0; if (rem) { rem->tv_sec = l / 1000000000ll; rem->tv_nsec = l % 1000000000ll; } errno = EINTR; return -1; }
    return 0;
}
int clock_nanosleep(clockid_t id, int flags, const timespec* ts, timespec* rem) {
    Thr* t = self; if (!g_active || !t) return (int)-raw_syscall(SYS_clock_nanosleep, id, flags, (long)ts, (long)rem, 0, 0);
    int64_t v = ts2ns(ts); bool rt = id == CLOCK_REALTIME;
    if (!(flags & TIMER_ABSTIME)) { v += g_ns; rt = false; }
    return sim_sleep(t, v, rt);
}
int usleep(useconds_t us) { timespec ts{ (time_t)(us / 1000000), (long)(us % 1000000) * 1000 }; return nanosleep(&ts, nullptr); }
int clock_gettime(clockid_t id, timespec* ts) {
    if (!g_active || !self) return (int)raw_syscall(SYS_clock_gettime, id, (long)ts, 0, 0, 0, 0);
    return sim_clock(id, ts);
}
int gettimeofday(timeval* __restrict tv, void* __restrict) {
    timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0;
}
time_t time(time_t* o) { timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (o) *o = ts.tv_sec; return ts.tv_sec; }
long syscall(long n, ...) {
    va_list ap; va_start(ap, n); long a[6]; for (int i = 0; i < 6; ++i) a[i] = va_arg(ap, long); va_end(ap);
    if (n == SYS_futex && g_active && self) return sim_futex(self, (int*)a[0], (int)a[1], (int)a[2], (const timespec*)a[3]);
    long r = raw_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}
// thread affinity: recorded, never applied
int sim_affinity_calls, sim_affinity_cpu[MAXT], sim_affinity_bits[MAXT];
int (*sim_affinity_hook)(int thread, int cpu);         // the system call's result; cpu -1: empty set
int pthread_setaffinity_np(pthread_t p, size_t sz, const cpu_set_t* cs) {
    if (!g_active || !self) return (int)-raw_syscall(SYS_sched_setaffinity, 0, (long)sz, (long)cs, 0, 0, 0);
    sim_affinity_calls++;
    Thr* t = by_pthread(p); if (!t) t = self;
    int cpu = -1, bits = 0;
    for (int c = 0; c < 1024 && c < (int)sz * 8; ++c) if (CPU_ISSET_S(c, sz, cs)) { if (!bits++) cpu = c; }
    if (sim_affinity_hook) { int e = sim_affinity_hook(t->id, cpu); if (e) return e; }
    sim_affinity_cpu[t->id] = cpu; sim_affinity_bits[t->id] = bits;
    return 0;
}
static int g_mapcnt;
int sim_mappings() { return g_mapcnt; }
void* mmap(void* a, size_t n, int p, int f, int fd, off_t o) {
    Thr* t = self;
    if (g_active && t && !t->quiet) { int64_t arg; if (t->allocf && fault_fire(F_MMAP, arg)) { t->allocf = false; logf("fault: mmap fails"); errno = ENOMEM; return MAP_FAILED; } g_mapcnt++; }
    long r = raw_syscall(SYS_mmap, (long)a, (long)n, p, f, fd, o);
    if (r < 0 && r > -4096) { errno = (int)-r; return MAP_FAILED; }
    if (g_active && t && g_lr) lr_clear((uintptr_t)r, n);
    return (void*)r;
}
int munmap(void* a, size_t n) {
    Thr* t = self; if (g_active && t && !t->quiet) g_mapcnt--;
    long r = raw_syscall(SYS_munmap, (long)a, (long)n, 0, 0, 0, 0);
    if (r < 0) { errno = (int)-r; return -1; }
    return 0;
}

// ====================================================================== instrumentation entry points
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N) \
 void __tsan_read##N(void* a) { acc(a, N, false, PC()); } \
 void __tsan_write##N(void* a) { acc(a, N, true, PC()); } \
 void __tsan_read##N##_pc(void* a, void*) { acc(a, N, false, PC()); } \
 void __tsan_write##N##_pc(void* a, void*) { acc(a, N, true, PC()); } \
 void __tsan_unaligned_read##N(void* a) { acc(a, N, false, PC()); } \
 void __tsan_unaligned_write##N(void* a) { acc(a, N, true, PC()); } \
 void __tsan_volatile_read##N(void* a) { acc(a, N, false, PC()); } \
 void __tsan_volatile_write##N(void* a) { acc(a, N, true, PC()); } \
 void __tsan_unaligned_volatile_read##N(void* a) { acc(a, N, false, PC()); } \
 void __tsan_unaligned_volatile_write##N(void* a) { acc(a, N, true, PC()); } \
 void __tsan_read_write##N(void* a) { acc(a, N, true, PC()); } \
 void __tsan_unaligned_read_write##N(void* a) { acc(a, N, true, PC()); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { acc_range(a, n, false, PC()); }
void __tsan_write_range(void* a, size_t n) { acc_range(a, n, true, PC()); }
void __tsan_vptr_update(void** a, void*) { acc(a, 8, true, PC()); }
void __tsan_vptr_read(void** a) { acc(a, 8, false, PC()); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { acc_range(s, n, false, PC()); acc_range(d, n, true, PC()); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { acc_range(s, n, false, PC()); acc_range(d, n, true, PC()); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { acc_range(d, n, true, PC()); return memset(d, c, n); }

static void at_load_nostale(Thr* t, uintptr_t a, int mo) {
    Loc* l = loc_find(a, true);
    if (is_acq(mo)) t->vc.join(l->rel); else t->acq.join(l->rel);
    if (g_weak && l->nh) l->h[l->nh - 1].rd.c[t->id] = t->vc.c[t->id];
}
#define AT(B, Ty) \
 Ty __tsan_atomic##B##_load(const volatile Ty* a, int mo) { Thr* t = at_begin((const void*)a, 1, PC()); Ty v = __atomic_load_n(a, __ATOMIC_SEQ_CST); \
    if (t) v = (Ty)at_load(t, (uintptr_t)a, (uint64_t)v, mo); return v; } \
 void __tsan_atomic##B##_store(volatile Ty* a, Ty v, int mo) { Thr* t = at_begin((const void*)a, 40, PC()); Ty o = *a; __atomic_store_n(a, v, __ATOMIC_SEQ_CST); \
    if (t) at_store(t, (uintptr_t)a, (uint64_t)v, (uint64_t)o, mo); } \
 Ty __tsan_atomic##B##_exchange(volatile Ty* a, Ty v, int mo) { Thr* t = at_begin((const void*)a, 41, PC()); Ty o = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); \
    if (t) at_rmw(t, (uintptr_t)a, (uint64_t)v, (uint64_t)o, mo); return o; } \
 int __tsan_atomic##B##_compare_exchange_strong(volatile Ty* a, Ty* e, Ty v, int mo, int fmo) { Thr* t = at_begin((const void*)a, 42, PC()); Ty o = *e; \
    bool ok = __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    if (t) { if (ok) at_rmw(t, (uintptr_t)a, (uint64_t)v, (uint64_t)o, mo); else at_load_nostale(t, (uintptr_t)a, fmo); } return ok; } \
 int __tsan_atomic##B##_compare_exchange_weak(volatile Ty* a, Ty* e, Ty v, int mo, int fmo) { Thr* t = at_begin((const void*)a, 42, PC()); Ty o = *e; int64_t arg; \
    if (t && !t->quiet && *a == o && fault_fire(F_CASFAIL, arg)) { at_load_nostale(t, (uintptr_t)a, fmo); return 0; } \
    bool ok = __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    if (t) { if (ok) at_rmw(t, (uintptr_t)a, (uint64_t)v, (uint64_t)o, mo); else at_load_nostale(t, (uintptr_t)a, fmo); } return ok; } \
 Ty __tsan_atomic##B##_compare_exchange_val(volatile Ty* a, Ty e, Ty v, int mo, int fmo) { __tsan_atomic##B##_compare_exchange_strong(a, &e, v, mo, fmo); return e; } \
 FOP(B, Ty, fetch_add, o + v) FOP(B, Ty, fetch_sub, o - v) FOP(B, Ty, fetch_and, o & v) FOP(B, Ty, fetch_or, o | v) FOP(B, Ty, fetch_xor, o ^ v) FOP(B, Ty, fetch_nand, ~(o & v))
#define FOP(B, Ty, name, expr) \
 Ty __tsan_atomic##B##_##name(volatile Ty* a, Ty v, int mo) { Thr* t = at_begin((const void*)a, 43, PC()); Ty o = *a; Ty nv = (Ty)(expr); __atomic_store_n(a, nv, __ATOMIC_SEQ_CST); \
    if (t) at_rmw(t, (uintptr_t)a, (uint64_t)nv, (uint64_t)o, mo); return o; }
typedef uint8_t a8; typedef uint16_t a16; typedef uint32_t a32; typedef uint64_t a64;
AT(8, a8) AT(16, a16) AT(32, a32) AT(64, a64)
void __tsan_atomic_thread_fence(int mo) { Thr* t = self; if (g_active && t) { sync_pt(nullptr, 44, PC()); at_fence(t, mo); } __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}

} // extern "C"

// ====================================================================== randomness
namespace std {
void random_device::_M_init(const std::string&) {}
void random_device::_M_init_pretr1(const std::string&) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() {
    static uint32_t n;
    return (result_type)Rng::mix((g_spec ? g_spec->seed : 1) * 1000003 + ++n);
}
double random_device::_M_getentropy() const noexcept { return 32; }
}
