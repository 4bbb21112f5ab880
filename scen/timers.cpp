// C14 sleeping and timed waits.
#include "common.h"

namespace {

struct OwnClock {                         // a user clock: other epoch, microsecond resolution
    typedef std::chrono::microseconds duration; typedef duration::rep rep; typedef duration::period period; typedef std::chrono::time_point<OwnClock> time_point;
    static const bool is_steady = true; static int64_t off;
    static time_point now() { return time_point(std::chrono::duration_cast<duration>(SC::now().time_since_epoch()) + duration(off)); }
    static int64_t quiet_us() { return sim::now_ns() / 1000 + off; }
};
int64_t OwnClock::off = 0;

enum { SLEEP_FOR, SLEEP_UNTIL, SLEEP_UNTIL_RT, SLEEP_UNTIL_OWN, M_TRY_FOR, M_TRY_UNTIL, CV_FOR, CV_UNTIL, FUT_FOR, FUT_UNTIL, CH_POP_FOR, CH_POP_UNTIL, CH_PUSH_FOR, UCH_POP_UNTIL, UCH_PUSH_FOR, NKIND };
static const char* const kname[] = { "sleep_for", "sleep_until", "sleep_until(system_clock)", "sleep_until(user clock)", "timed_mutex::try_lock_for", "timed_mutex::try_lock_until", "condition_variable::wait_for", "condition_variable::wait_until",
    "future::wait_for", "future::wait_until", "buffered_channel::pop_wait_for", "buffered_channel::pop_wait_until", "buffered_channel::push_wait_for", "unbuffered_channel::pop_wait_until", "unbuffered_channel::push_wait_for" };
// A wait that is late because its thread was held up is late by less than the simulated run time of the
// whole execution; one whose timer was forgotten is late until some later timer or wakeup.
enum { LATE = 150000000 };
struct TStep { int kind; int64_t dur; int pre; };

struct Bench {
    bf::timed_mutex held; bf::mutex m; bf::condition_variable cv; bf::promise<void> pr; bf::shared_future<void> fu; bf::buffered_channel<int> empty{4}, full{2}; bf::unbuffered_channel<int> uc_pop, uc_push;
    int64_t max_late = 0; long done = 0; bool punctual = false;
    void one(int me, TStep const& s) {
        gap(s.pre);
        int64_t t0 = sim::now_ns(), dl = t0 + s.dur; bool own = false; int64_t odl = 0, rdl = 0; bool rt = false; bool timeout = true; int v = 0;
        sim::deadline_hint(dl);
        sim::logf("fiber %d: %s %lld ns", me, kname[s.kind], (long long)s.dur);
        switch (s.kind) {
        case SLEEP_FOR: boost::this_fiber::sleep_for(nanoseconds(s.dur)); break;
        case SLEEP_UNTIL: boost::this_fiber::sleep_until(at_ns(dl)); break;
        case SLEEP_UNTIL_RT: rt = true; rdl = sim::rt_now_ns() + s.dur; boost::this_fiber::sleep_until(rt_at_ns(rdl)); break;
        case SLEEP_UNTIL_OWN: own = true; odl = OwnClock::quiet_us() + s.dur / 1000; boost::this_fiber::sleep_until(OwnClock::time_point(OwnClock::duration(odl))); break;
        case M_TRY_FOR: timeout = !held.try_lock_for(nanoseconds(s.dur)); break;
        case M_TRY_UNTIL: timeout = !held.try_lock_until(at_ns(dl)); break;
        case CV_FOR: { std::unique_lock<bf::mutex> lk(m); timeout = cv.wait_for(lk, nanoseconds(s.dur)) == bf::cv_status::timeout; break; }
        case CV_UNTIL: { std::unique_lock<bf::mutex> lk(m); timeout = cv.wait_until(lk, at_ns(dl)) == bf::cv_status::timeout; break; }
        case FUT_FOR: timeout = fu.wait_for(nanoseconds(s.dur)) == bf::future_status::timeout; break;
        case FUT_UNTIL: timeout = fu.wait_until(at_ns(dl)) == bf::future_status::timeout; break;
        case CH_POP_FOR: timeout = empty.pop_wait_for(v, nanoseconds(s.dur)) == bf::channel_op_status::timeout; break;
        case CH_POP_UNTIL: timeout = empty.pop_wait_until(v, at_ns(dl)) == bf::channel_op_status::timeout; break;
        case CH_PUSH_FOR: timeout = full.push_wait_for(5, nanoseconds(s.dur)) == bf::channel_op_status::timeout; break;
        case UCH_POP_UNTIL: timeout = uc_pop.pop_wait_until(v, at_ns(dl)) == bf::channel_op_status::timeout; break;
        case UCH_PUSH_FOR: timeout = uc_push.push_wait_for(5, nanoseconds(s.dur)) == bf::channel_op_status::timeout; break;
        }
        Quiet q; int64_t now = sim::now_ns(); done++;
        sim::logf("fiber %d: %s ends %lld ns after its deadline", me, kname[s.kind], (long long)(now - dl));
        if (!timeout) fail("wrong-result", "%s succeeded though nothing provides it", kname[s.kind]);
        if (own ? OwnClock::quiet_us() < odl : rt ? sim::rt_now_ns() < rdl : now < dl) fail("early-wake", "%s ended %lld ns before its deadline", kname[s.kind], (long long)(rt ? rdl - sim::rt_now_ns() : dl - now));
        int64_t late = now - std::max(dl, t0); if (late > max_late) max_late = late;
    }
};

static int64_t draw_dur() {
    static const int64_t d[] = { 0, 1, 500, 5000, 20000, 70000, -1, -5000, -4000000000ll, 300000000ll, 300000000ll, 700000000ll, 2000000000ll, 3600000000000ll };
    return d[choose(14)] + (choose(3) == 2 ? (int64_t)choose(2000) : 0);
}

// nothing ever satisfies these waits: every one of them has to end by its own timer
static void sleepers(bool punctual, int algo) {
    Bench* b; { Quiet q; b = new Bench(); } OwnClock::off = (int64_t)choose(2) * 777;
    b->fu = b->pr.get_future().share(); b->full.push(1);
    Shape sh = draw_shape(3, 6, 1); Fleet fl; fl.th.resize(sh.threads); fl.algo = algo; long want = 0; 
    bool stop = false; long left = 0; int id = 0;
    // an owner keeps the mutex
    {
        Quiet q;
        for (int t = 0; t < sh.threads; ++t) for (int f = 0; f < sh.fibers[t]; ++f, ++id) {
            std::vector<TStep> ss; int n = 1 + (int)choose(4); int me = id;
            for (int i = 0; i < n; ++i) { TStep s; s.kind = (int)choose(NKIND); s.dur = draw_dur(); s.pre = (int)choose(GAPS); ss.push_back(s); }
            want += n; left++;
            auto fn = [&, ss, me] { for (auto& s : ss) b->one(me, s); Quiet q; left--; };
            if (f == 0 && choose(3) == 2) fl.th[t].main_fn = fn; else fl.th[t].fibers.push_back(FiberProg{fn, draw_policy(), 0});
        }
        int noise = (int)choose(3); if (algo == A_SHARED_SUSPEND) noise = 0;
        for (int i = 0; i < noise; ++i) fl.th[choose(sh.threads)].fibers.push_back(FiberProg{[&] { for (int k = 0; left && k < 60; ++k) { boost::this_fiber::yield(); sim::sync_point(); boost::this_fiber::sleep_for(nanoseconds(9000)); } }, draw_policy(), 0});
    }
    (void)stop;
    bf::fiber owner; // the lock is taken by the main fiber of the simulation's first thread, which only waits for the fleet
    b->held.lock();
    fl.run();
    b->held.unlock();
    Quiet q; if (b->done != want) fail("never-woken", "%ld of %ld waits ended", b->done, want);
    if (punctual && b->max_late > LATE) fail("late-wake", "a wait ended %lld ns after its deadline although nothing held the threads up", (long long)b->max_late);
    if (b->max_late > 100000) probe("wait ended more than 100 us late");
    delete b;
}

// timed waiters, some of them woken early by other fibers, must not disturb the timers of the rest
struct WStep { int kind; int64_t dur; int pre; };
static void mixed() {
    Shape sh = draw_shape(3, 6, 2); Fleet fl; fl.th.resize(sh.threads); int total = 0; for (int k : sh.fibers) total += k;
    struct Box { bf::mutex m; bf::condition_variable cv; long signals = 0, served = 0; bf::timed_mutex tm; int64_t max_late = 0; };
    Box* b; { Quiet q; b = new Box(); } int running = total;
    {
        Quiet q; std::vector<int> roles = draw_perm(total); int i = 0;
        for (int t = 0; t < sh.threads; ++t) for (int f = 0; f < sh.fibers[t]; ++f, ++i) {
            int role = roles[i]; int me = i; std::vector<WStep> ss; int n = 1 + (int)choose(4);
            for (int k = 0; k < n; ++k) { static const int64_t d[] = { 2000, 20000, 300000000, 300000000, 1000000000, 2000000000 }; WStep s; s.kind = (int)choose(4); s.dur = d[choose(6)]; s.pre = (int)choose(GAPS); ss.push_back(s); }
            auto fn = [&, ss, role, me] {
                for (auto& s : ss) {
                    gap(s.pre);
                    if (role % 3 == 0) {                   // waker
                        std::unique_lock<bf::mutex> lk(b->m); if (s.kind & 1) b->cv.notify_one(); else b->cv.notify_all(); lk.unlock(); continue;
                    }
                    int64_t dl = sim::now_ns() + s.dur; sim::deadline_hint(dl); bool timeout = true;
                    switch (s.kind) {
                    case 0: { std::unique_lock<bf::mutex> lk(b->m); timeout = b->cv.wait_until(lk, at_ns(dl)) == bf::cv_status::timeout; break; }
                    case 1: { std::unique_lock<bf::mutex> lk(b->m); timeout = b->cv.wait_for(lk, nanoseconds(s.dur)) == bf::cv_status::timeout; break; }
                    case 2: { timeout = !b->tm.try_lock_until(at_ns(dl)); if (!timeout) { gap(s.pre == 3 ? 0 : 3); b->tm.unlock(); } break; }
                    case 3: boost::this_fiber::sleep_until(at_ns(dl)); break;
                    }
                    Quiet q; int64_t now = sim::now_ns(); sim::logf("fiber %d: kind %d timeout %d", me, s.kind, (int)timeout);
                    if (timeout && now < dl) fail("early-wake", "timed wait %d ended %lld ns before its deadline", s.kind, (long long)(dl - now));
                    if (now - dl > b->max_late) b->max_late = now - dl;
                }
                Quiet q; --running;
            };
            fl.th[t].fibers.push_back(FiberProg{fn, draw_policy(), 0});
        }
    }
    fl.run();
    Quiet q; if (running) fail("never-woken", "%d fibers did not finish", running);
    if (b->max_late > LATE) fail("late-wake", "a timed wait ended %lld ns after its deadline although nothing held the threads up", (long long)b->max_late);
    delete b;
}
}

SIM_SCENARIO(time_sleepers, 3, "sleeps and timed waits nobody satisfies, with clock jumps and stalls") {
    faults_basic(); faults_clock();
    sleepers(false, choose(4) == 3 ? A_SHARED_SUSPEND : A_DEFAULT);
}
SIM_SCENARIO(time_punctual, 3, "the same without stalls and jumps: every wait ends soon after its deadline") {
    faults_basic(); sim::enable_fault(sim::F_STALL, 0);
    sleepers(true, A_DEFAULT);
}
SIM_SCENARIO(time_mixed, 3, "timed waits of which some are woken before their deadline") {
    faults_basic(); sim::enable_fault(sim::F_STALL, 0);
    mixed();
}
SIM_SCENARIO(time_sysjump, 1, "system clock jumps do not disturb sleeps on the steady clock") {
    faults_basic(); sim::enable_fault(sim::F_RTJUMP, 0.05); sim::enable_fault(sim::F_STALL, 0);
    int n = 1 + (int)choose(4); std::vector<bf::fiber> fs; { Quiet q; fs.reserve(8); } int64_t late = 0;
    for (int i = 0; i < n; ++i) {
        int64_t d = choose(2) ? 1000 * (1 + (int64_t)choose(200)) : 200000000ll * (1 + choose(4)); int k = (int)choose(3);
        fs.emplace_back(draw_policy(), [&, d, k] { for (int r = 0; r < 2; ++r) { int64_t dl = sim::now_ns() + d; if (k == 0) boost::this_fiber::sleep_for(nanoseconds(d)); else if (k == 1) boost::this_fiber::sleep_until(at_ns(dl)); else { bf::timed_mutex m; m.lock(); bf::mutex x; std::unique_lock<bf::mutex> lk(x); bf::condition_variable cv; cv.wait_for(lk, nanoseconds(d)); m.unlock(); }
            Quiet q; if (sim::now_ns() < dl) fail("early-wake", "sleep ended %lld ns early", (long long)(dl - sim::now_ns())); late = std::max(late, sim::now_ns() - dl); } });
    }
    for (auto& f : fs) f.join();
    if (late > LATE) fail("late-wake", "a sleep ended %lld ns late", (long long)late);
}
