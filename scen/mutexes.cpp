// C01 mutual exclusion, C02 hand-off liveness, C03 ownership contract.
#include "common.h"

namespace {

enum Op { LOCK, TRY, TRY_FOR, TRY_UNTIL, TRY_UNTIL_RT, NOPS };
enum { NONE = -1 };

struct Model {                 // what the program knows about ownership
    int owner = NONE; int depth = 0;
    int busy = 0;              // fibers holding it or inside any call on it
    uint64_t last_enter = 0;   // sequence number of the last entry into busy
    uint64_t acquired = 0;
    long far_deadline_ops = 0;
};

struct Step { int op; int64_t dur; int hold; int pre; int rec; int rec_op; int misuse; };

template<class M> struct is_timed : std::false_type {};
template<> struct is_timed<bf::timed_mutex> : std::true_type {};
template<> struct is_timed<bf::recursive_timed_mutex> : std::true_type {};
template<class M> struct is_rec : std::false_type {};
template<> struct is_rec<bf::recursive_mutex> : std::true_type {};
template<> struct is_rec<bf::recursive_timed_mutex> : std::true_type {};

template<class M, bool T = is_timed<M>::value> struct Do {
    static bool timed(M& m, Step const&, int64_t&, bool&) { return m.try_lock(); }
};
template<class M> struct Do<M, true> {
    static bool timed(M& m, Step const& s, int64_t& deadline, bool& rt) {
        rt = false;
        if (s.op == TRY_FOR) { deadline = sim::now_ns() + s.dur; sim::deadline_hint(deadline); return m.try_lock_for(nanoseconds(s.dur)); }
        if (s.op == TRY_UNTIL) { deadline = sim::now_ns() + s.dur; sim::deadline_hint(deadline); return m.try_lock_until(at_ns(deadline)); }
        rt = true; deadline = sim::rt_now_ns() + s.dur; return m.try_lock_until(rt_at_ns(deadline));
    }
};

template<class M> struct Bench {
    M m; Model mo; bool strict_time = true; bool far = false;

    void acquired(int me, const char* how) {
        Quiet q;
        if (mo.owner != NONE && mo.owner != me) fail("mutual-exclusion", "fiber %d got the mutex by %s while fiber %d owns it", me, how, mo.owner);
        if (mo.owner == me && !is_rec<M>::value) fail("mutual-exclusion", "fiber %d got a non-recursive mutex twice by %s", me, how);
        mo.owner = me; mo.depth++; mo.acquired++;
    }
    void enter() { Quiet q; mo.busy++; mo.last_enter = sim::seq(); }
    void leave() { Quiet q; mo.busy--; }

    // returns true if acquired
    bool attempt(int me, Step const& s) {
        enter();
        uint64_t my = mo.last_enter; bool alone = mo.busy == 1; bool mine = mo.owner == me;
        sim::logf("fiber %d: op %d dur %lld (busy %d)", me, s.op, (long long)s.dur, mo.busy);
        bool got = false; int64_t deadline = 0; bool rt = false; static const char* names[] = { "lock", "try_lock", "try_lock_for", "try_lock_until", "try_lock_until" };
        try {
            if (s.op == LOCK || (!is_timed<M>::value && s.op != TRY)) { m.lock(); got = true; }
            else if (s.op == TRY) got = m.try_lock();
            else {
                got = Do<M>::timed(m, s, deadline, rt);
                if (!got && !(rt && !strict_time)) {
                    int64_t now = rt ? sim::rt_now_ns() : sim::now_ns();
                    if (now < deadline) fail("early-timeout", "%s failed %lld ns before its deadline", names[s.op], (long long)(deadline - now));
                }
                if (got && far && sim::now_ns() >= deadline && !rt) fail("stranded", "%s got the mutex only when its far deadline expired, though it had been free", names[s.op]);
                if (!got && far) fail("stranded", "%s failed at a far deadline although every owner unlocks", names[s.op]);
            }
        } catch (bf::lock_error const& e) {
            Quiet q;
            fail("unexpected-error", "%s by fiber %d (not owner) threw lock_error %d", names[s.op], me, e.code().value());
        }
        Quiet q;
        sim::logf("fiber %d: op %d -> %d", me, s.op, (int)got);
        if (!got) {
            if (mine) fail("recursive-refused", "%s by the owner of a recursive mutex failed", names[s.op]);
            if (alone && mo.last_enter == my) fail("free-refused", "%s failed although nobody owned or was locking the mutex during the call", names[s.op]);
            mo.busy--;
            return false;
        }
        acquired(me, names[s.op]);
        return true;
    }
    void release(int me) {
        sim::logf("fiber %d: unlock", me);
        {
            Quiet q;
            if (mo.owner != me) fail("mutual-exclusion", "fiber %d lost its ownership to %d while holding the mutex", me, mo.owner);
            if (--mo.depth == 0) mo.owner = NONE;
        }
        try { m.unlock(); } catch (bf::lock_error const&) { Quiet q; fail("unexpected-error", "unlock by the owner threw lock_error"); }
        leave();
    }
    void misuse(int me, int kind) {      // must throw and change nothing
        if (kind == 1 && mo.owner == me && !is_rec<M>::value) {
            bool threw = false;
            try { m.lock(); } catch (bf::lock_error const& e) { threw = true; if (e.code() != std::errc::resource_deadlock_would_occur) { Quiet q; fail("error-code", "self lock: wrong error code %d", e.code().value()); } }
            if (!threw) { Quiet q; fail("misuse-accepted", "lock of a mutex already owned by the caller returned"); }
            { Quiet q; if (mo.owner != me) fail("mutual-exclusion", "failed self lock changed the owner"); }
            probe("self lock refused");
        } else if (kind == 2 && mo.owner == me && !is_rec<M>::value) {
            bool threw = false, r = false;
            try { r = m.try_lock(); } catch (bf::lock_error const& e) { threw = true; if (e.code() != std::errc::resource_deadlock_would_occur) { Quiet q; fail("error-code", "self try_lock: wrong error code %d", e.code().value()); } }
            if (!threw && r) { Quiet q; fail("misuse-accepted", "try_lock of a non-recursive mutex owned by the caller succeeded"); }
            probe("self try_lock refused");
        } else if (kind == 3 && mo.owner != me) {
            bool threw = false;
            try { m.unlock(); } catch (bf::lock_error const& e) { threw = true; if (e.code() != std::errc::operation_not_permitted) { Quiet q; fail("error-code", "foreign unlock: wrong error code %d", e.code().value()); } }
            if (!threw) { Quiet q; fail("misuse-accepted", "unlock by a fiber that does not own the mutex returned"); }
            probe("foreign unlock refused");
        }
    }
    void run_step(int me, Step const& s) {
        gap(s.pre);
        if (s.misuse == 3) misuse(me, 3);
        if (!attempt(me, s)) {
            if (s.misuse && mo.owner != me) {         // a failed attempt must not have made the caller the owner
                bool threw = false;
                try { m.unlock(); } catch (bf::lock_error const&) { threw = true; }
                if (!threw) { Quiet q; fail("failed-but-owner", "after a failed attempt unlock() was accepted"); }
                probe("unlock refused after failed attempt");
            }
            return;
        }
        int extra = 0;
        if (is_rec<M>::value) for (int i = 0; i < s.rec; ++i) {
            Step r = s; r.op = s.rec_op;
            if (attempt(me, r)) ++extra;
            if (i == 0) gap(s.hold);
        }
        if (s.misuse == 1 || s.misuse == 2) misuse(me, s.misuse);
        gap(s.hold);
        { Quiet q; if (mo.owner != me) fail("mutual-exclusion", "fiber %d lost its ownership to %d while holding the mutex", me, mo.owner); }
        for (int i = 0; i < extra; ++i) {
            release(me);
            { Quiet q; if (mo.owner != me) fail("mutual-exclusion", "recursive mutex given away before the last unlock"); }
            if (i == 0) gap(s.hold);
            { Quiet q; if (mo.owner != me) fail("mutual-exclusion", "recursive mutex given away before the last unlock"); }
        }
        release(me);
        if (s.misuse == 4) misuse(me, 3);
    }
};

struct Mix { bool timed_heavy, misuse, rtclock, far; };

template<class M> void run_bench(Mix mix) {
    Bench<M> b; b.far = mix.far;
    Shape sh = draw_shape(3, 6);
    Fleet fl; fl.th.resize(sh.threads);
    std::vector<std::vector<Step>> progs; std::vector<int> owners;
    { 
        Quiet q;
        int id = 0;
        for (int t = 0; t < sh.threads; ++t) {
            bool main_too = choose(4) == 1;
            int n = sh.fibers[t];
            for (int f = 0; f < n; ++f, ++id) {
                std::vector<Step> p; int ns = 1 + (int)choose(4);
                for (int i = 0; i < ns; ++i) {
                    Step s; 
                    unsigned o = choose(mix.timed_heavy ? 8 : 6);
                    s.op = o < 2 ? LOCK : o == 2 ? TRY : o == 3 ? TRY_FOR : o == 4 ? TRY_UNTIL : o == 5 ? (mix.rtclock ? TRY_UNTIL_RT : TRY_FOR) : o == 6 ? TRY_FOR : TRY_UNTIL;
                    static const int64_t durs[] = { 0, 1000, 8000, 30000, 120000, 500000, -5000 };
                    s.dur = durs[choose(7)];
                    if (mix.far) s.dur = 1000000000000ll;
                    if (s.dur > 0) s.dur += choose(3) * 777;
                    s.hold = choose(GAPS); s.pre = choose(GAPS);
                    s.rec = is_rec<M>::value ? (int)choose(3) : 0; 
                    unsigned ro = choose(4); s.rec_op = ro == 0 ? LOCK : ro == 1 ? TRY : ro == 2 ? TRY_FOR : TRY_UNTIL;
                    s.misuse = mix.misuse ? (int)choose(5) : 0;
                    p.push_back(s);
                }
                int me = id;
                auto fn = [&b, me, p] { for (auto& s : p) b.run_step(me, s); };
                if (main_too && f == n - 1) fl.th[t].main_fn = fn;
                else fl.th[t].fibers.push_back(FiberProg{fn, draw_policy(), (int)choose(2)});
            }
            fl.th[t].join_reverse = choose(2);
        }
    }
    fl.run();
    Quiet q;
    if (b.mo.owner != NONE) fail("mutual-exclusion", "mutex still owned at the end");
    try { std::unique_lock<M> l(b.m); } catch (...) { fail("mutual-exclusion", "mutex not free at the end"); }
}

template<class F> void dispatch(Mix mix, F) {
    switch (choose(4)) {
    case 0: run_bench<bf::mutex>(mix); break;
    case 1: run_bench<bf::timed_mutex>(mix); break;
    case 2: run_bench<bf::recursive_mutex>(mix); break;
    case 3: run_bench<bf::recursive_timed_mutex>(mix); break;
    }
}
struct X {};
}

SIM_SCENARIO(mutex_mix, 3, "all four mutex types, every lock form, clock jumps, 1..3 threads") {
    faults_basic(); faults_clock();
    dispatch(Mix{false, false, false, false}, X());
}
SIM_SCENARIO(mutex_timed, 3, "timed mutexes, deadlines expiring at unlock, clock jumps") {
    faults_basic(); faults_clock(); 
    if (choose(2)) run_bench<bf::timed_mutex>(Mix{true, false, false, false}); else run_bench<bf::recursive_timed_mutex>(Mix{true, false, false, false});
}
SIM_SCENARIO(mutex_misuse, 2, "misuse (self lock, foreign unlock) amid contention") {
    faults_basic(); faults_clock();
    dispatch(Mix{false, true, false, false}, X());
}
SIM_SCENARIO(mutex_sysclock, 1, "deadlines given on the system clock, steady time only jumps forward") {
    faults_basic(); faults_clock();
    if (choose(2)) run_bench<bf::timed_mutex>(Mix{true, false, true, false}); else run_bench<bf::recursive_timed_mutex>(Mix{true, false, true, false});
}
SIM_SCENARIO(mutex_far, 1, "timed locks with far deadlines must be served by unlock, not by their deadline") {
    faults_basic();
    if (choose(2)) run_bench<bf::timed_mutex>(Mix{true, false, false, true}); else run_bench<bf::recursive_timed_mutex>(Mix{true, false, false, true});
}
template<class M> static void run_poll() {         // try_lock() gives way to other fibers: polling it needs no yield
    Bench<M> b; Shape sh = draw_shape(2, 5); Fleet fl; fl.algo = choose(2) ? A_DEFAULT : A_ROUND_ROBIN; fl.th.resize(sh.threads);
    {
        Quiet q; int id = 0;
        for (int t = 0; t < sh.threads; ++t) for (int f = 0; f < sh.fibers[t]; ++f, ++id) {
            int me = id, rounds = 1 + (int)choose(3), hold = (int)choose(GAPS), pre = (int)choose(GAPS); bool blocks = choose(3) == 2;
            fl.th[t].fibers.push_back(FiberProg{[&b, me, rounds, hold, pre, blocks] {
                Step s{ blocks ? LOCK : TRY, 0, hold, 0, 0, 0, 0 };
                for (int i = 0; i < rounds; ++i) { gap(pre); while (!b.attempt(me, s)) ; gap(hold); b.release(me); }
            }, draw_policy(), 0});
        }
    }
    fl.run();
}
SIM_SCENARIO(mutex_poll, 1, "fibers that poll try_lock() without any yield of their own") {
    faults_basic(); sim::set_budget(60000, 400000);
    switch (choose(4)) {
    case 0: run_poll<bf::mutex>(); break;
    case 1: run_poll<bf::timed_mutex>(); break;
    case 2: run_poll<bf::recursive_mutex>(); break;
    case 3: run_poll<bf::recursive_timed_mutex>(); break;
    }
}
