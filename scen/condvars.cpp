// C04 no lost notification, C05 genuine wakeups and lock held at return.
#include "common.h"

namespace {

static const int64_t FAR_NS = 1000000000000ll;

// a lock type of the user's own, over a fiber mutex
struct OwnLock {
    bf::timed_mutex& m; bool held = false;
    explicit OwnLock(bf::timed_mutex& x) : m(x) { lock(); }
    ~OwnLock() { if (held) unlock(); }
    void lock() { m.lock(); held = true; }
    void unlock() { held = false; m.unlock(); }
    bool owns_lock() const { return held; }
};

template<int K> struct Kind;
template<> struct Kind<0> { typedef bf::condition_variable Cv; typedef bf::mutex M; typedef std::unique_lock<bf::mutex> L; };
template<> struct Kind<1> { typedef bf::condition_variable_any Cv; typedef bf::mutex M; typedef std::unique_lock<bf::mutex> L; };
template<> struct Kind<2> { typedef bf::condition_variable_any Cv; typedef bf::recursive_timed_mutex M; typedef std::unique_lock<bf::recursive_timed_mutex> L; };
template<> struct Kind<3> { typedef bf::condition_variable_any Cv; typedef bf::timed_mutex M; typedef OwnLock L; };

struct Held {                     // who the program says holds the mutex
    int owner = -1;
    void in(int me, const char* how) { Quiet q; if (owner != -1) fail("lock-not-held", "fiber %d returned from %s while fiber %d holds the lock", me, how, owner); owner = me; }
    void out(int me) { Quiet q; if (owner != me) fail("lock-not-held", "fiber %d holds the lock no longer", me); owner = -1; }
    void check(int me) { Quiet q; if (owner != me) fail("lock-not-held", "fiber %d holds the lock no longer", me); }
};

struct Note { uint64_t end; bool used; };
static const uint64_t OPEN = ~0ull;
struct Book {                     // notifications issued, for the genuineness check
    std::vector<Note> ones; uint64_t all_end = 0; int all_open = 0;
    size_t one_begin() { Quiet q; ones.push_back(Note{OPEN, false}); return ones.size() - 1; }
    void one_end(size_t i) { Quiet q; ones[i].end = sim::seq(); }
    void all_begin() { Quiet q; all_open++; }
    void all_fin() { Quiet q; all_open--; all_end = sim::seq(); }
    uint64_t start() { Quiet q; return sim::seq(); }
    void woke(int me, uint64_t start) {    // a distinct notification that did not end before the wait began
        if (all_open || all_end > start) return;
        Note* best = nullptr;
        for (auto& n : ones) if (!n.used && n.end > start && (!best || n.end < best->end)) best = &n;
        if (!best) fail("spurious-wakeup", "a wait of fiber %d reported no_timeout although no notification was left for it", me);
        best->used = true;
    }
};

struct WStep { int form; int64_t dur; int pre; };

template<int K> struct World {
    typedef typename Kind<K>::L Lock;
    typename Kind<K>::Cv cv; typename Kind<K>::M m; Held h; Book bk;
    int waiting = 0, arrived = 0, finished = 0; bool done = false;

    // one wait; the lock is held before and after.  true: notified
    bool wait_once(int me, Lock& lk, WStep const& s) {
        uint64_t st = bk.start();
        h.out(me);
        { Quiet q; waiting++; arrived++; }
        sim::logf("fiber %d: wait form %d dur %lld", me, s.form, (long long)s.dur);
        bool notified = true; int64_t deadline = 0;
        if (s.form == 0) cv.wait(lk);
        else if (s.form == 1) { deadline = sim::now_ns() + s.dur; sim::deadline_hint(deadline); notified = cv.wait_for(lk, nanoseconds(s.dur)) == bf::cv_status::no_timeout; }
        else if (s.form == 2) { deadline = sim::now_ns() + s.dur; sim::deadline_hint(deadline); notified = cv.wait_until(lk, at_ns(deadline)) == bf::cv_status::no_timeout; }
        else { deadline = sim::rt_now_ns() + s.dur; notified = cv.wait_until(lk, rt_at_ns(deadline)) == bf::cv_status::no_timeout; }
        sim::logf("fiber %d: woken, notified %d", me, (int)notified);
        h.in(me, "a condition variable wait");
        Quiet q; waiting--;
        if (!lk.owns_lock()) fail("lock-not-held", "wait returned without owning the lock");
        if (notified) bk.woke(me, st);
        else {
            int64_t now = s.form == 3 ? sim::rt_now_ns() : sim::now_ns();
            if (now < deadline) fail("early-timeout", "wait timed out %lld ns before its deadline", (long long)(deadline - now));
            probe("cv wait timed out");
        }
        if (s.dur == FAR_NS && s.form && sim::now_ns() >= deadline) fail("lost-notification", "a wait with a far deadline ended only at its deadline (%s)", notified ? "notified" : "timed out");
        return notified;
    }
    void notify_one(int me) { size_t n = bk.one_begin(); sim::logf("fiber %d: notify_one", me); cv.notify_one(); bk.one_end(n); }
    void notify_all(int me) { bk.all_begin(); sim::logf("fiber %d: notify_all", me); cv.notify_all(); bk.all_fin(); }
};

static WStep draw_wait(bool far, bool rtclock) {
    WStep s; s.form = (int)choose(rtclock ? 4 : 3); static const int64_t d[] = { 2000, 0, 10000, 40000, 150000, -3000 };
    s.dur = d[choose(6)]; if (s.dur > 0) s.dur += 531 * choose(3);
    if (far) s.dur = FAR_NS;
    s.pre = (int)choose(GAPS); return s;
}

// Every fiber waits once.  As many notify_one calls as there are untimed waiters are made
// after all of them wait; a timed waiter that was notified passes its notification on.  So
// exactly enough notifications exist, and one that gets lost leaves a fiber blocked.
template<int K> void baton(bool far) {
    World<K> w; typedef typename Kind<K>::L Lock;
    Shape sh = draw_shape(3, 7, 3); Fleet fl; fl.th.resize(sh.threads);
    int need = 0, total = 0, notifiers = 1 + (int)choose(2);
    bool outside = choose(2), use_all = choose(5) == 4;
    {
        Quiet q;
        for (int t = 0; t < sh.threads; ++t) for (int f = 0; f < sh.fibers[t]; ++f) {
            WStep s = draw_wait(far, false); int me = total++;
            if (s.form == 0 || far) need++;
            fl.th[t].fibers.push_back(FiberProg{[&w, s, me, far] {
                gap(s.pre);
                Lock lk(w.m);
                w.h.in(me, "lock");
                bool n = w.wait_once(me, lk, s);
                if (n && s.form != 0 && !far) { w.notify_one(me); probe("notification passed on"); }
                w.h.out(me); lk.unlock();
            }, draw_policy(), 0});
        }
        for (int i = 0; i < notifiers; ++i) {
            int k = need / notifiers + (i < need % notifiers ? 1 : 0);
            int me = 100 + i, t = (int)choose(sh.threads), g = (int)choose(GAPS); bool all = use_all && i == 0;
            auto fn = [&w, k, me, total, outside, g, all] {
                auto doit = [&] { if (all) w.notify_all(me); else for (int j = 0; j < k; ++j) { w.notify_one(me); if (outside || g >= 5) gap(g); } };
                for (;;) {                  // until everybody has entered its wait (counted under the mutex)
                    Lock lk(w.m);
                    w.h.in(me, "lock");
                    bool ready = w.arrived >= total;
                    if (ready && !outside) doit();
                    w.h.out(me); lk.unlock();
                    if (ready) break;
                    gap(3);
                }
                if (outside) doit();
            };
            fl.th[t].fibers.push_back(FiberProg{fn, draw_policy(), 0});
        }
    }
    fl.run();
    Quiet q; if (w.waiting) fail("lost-notification", "waiters left");
}

// Random waits and notifications with and without the lock held: every wakeup must be genuine.
template<int K> void genuine(bool rtclock) {
    World<K> w; typedef typename Kind<K>::L Lock;
    Shape sh = draw_shape(3, 6, 3); Fleet fl; fl.th.resize(sh.threads); int id = 0, total = 0, waiters = 0;
    {
        Quiet q;
        for (int n : sh.fibers) total += n;
        waiters = total - 1 - (int)choose(2); if (waiters < 1) waiters = 1;
        for (int t = 0; t < sh.threads; ++t) for (int f = 0; f < sh.fibers[t]; ++f, ++id) {
            int me = id;
            if (me < waiters) {
                std::vector<WStep> ss; int n = 1 + (int)choose(3); for (int i = 0; i < n; ++i) ss.push_back(draw_wait(false, rtclock));
                fl.th[t].fibers.push_back(FiberProg{[&w, ss, me] {
                    for (auto& s : ss) {
                        gap(s.pre);
                        Lock lk(w.m); w.h.in(me, "lock");
                        w.wait_once(me, lk, s);
                        gap(s.pre == 5 ? 5 : 0);
                        w.h.out(me); lk.unlock();
                    }
                    Quiet q; w.finished++;
                }, draw_policy(), 0});
            } else {
                std::vector<int> ops; int n = 1 + (int)choose(4); for (int i = 0; i < n; ++i) ops.push_back((int)choose(4) * 16 + (int)choose(GAPS));
                bool last = me == total - 1;
                fl.th[t].fibers.push_back(FiberProg{[&w, ops, me, last, waiters] {
                    for (int o : ops) {
                        gap(o & 15);
                        if (o >> 4 & 1) { Lock lk(w.m); w.h.in(me, "lock"); if (o >> 5) w.notify_all(me); else w.notify_one(me); w.h.check(me); w.h.out(me); lk.unlock(); }
                        else if (o >> 5) w.notify_all(me); else w.notify_one(me);
                    }
                    if (last) for (;;) {          // release whoever still waits, one at a time or all
                        { Lock lk(w.m); w.h.in(me, "lock"); bool d = w.finished == waiters; if (!d) { if (ops.size() & 1) w.notify_one(me); else w.notify_all(me); } w.h.out(me); lk.unlock(); if (d) break; }
                        gap(3);
                    }
                }, draw_policy(), 0});
            }
        }
    }
    fl.run();
}

// The predicate overloads, as a small bounded buffer with timed consumers.
template<int K> void predicate(bool far) {
    World<K> w; typedef typename Kind<K>::L Lock; bool dropped = false;
    int items = 0, made = 0, taken = 0; Shape sh = draw_shape(3, 6, 2); Fleet fl; fl.th.resize(sh.threads);
    int total = 0; for (int n : sh.fibers) total += n;
    int prod = 1 + (int)choose(total > 2 ? 2 : 1), cons = total - prod, per = 1 + (int)choose(3);
    int goal = cons * per;
    std::vector<int> give(prod, 0); for (int i = 0; i < goal; ++i) give[i % prod]++;
    {
        Quiet q; int id = 0;
        for (int t = 0; t < sh.threads; ++t) for (int f = 0; f < sh.fibers[t]; ++f, ++id) {
            int me = id; std::vector<WStep> ss; for (int i = 0; i < per; ++i) ss.push_back(draw_wait(far, false));
            bool all = choose(3) == 2;
            if (me < prod) {
                int k = give[me]; bool out = choose(2); int g = (int)choose(GAPS);
                fl.th[t].fibers.push_back(FiberProg{[&, k, out, g, all, me] {
                    for (int i = 0; i < k; ++i) {
                        gap(g);
                        { Lock lk(w.m); w.h.in(me, "lock"); items++; made++; if (!out) { if (all) w.cv.notify_all(); else w.cv.notify_one(); } w.h.out(me); lk.unlock(); }
                        if (out) { if (all) w.cv.notify_all(); else w.cv.notify_one(); }
                    }
                }, draw_policy(), 0});
            } else fl.th[t].fibers.push_back(FiberProg{[&, ss, me, far] {
                for (auto& s : ss) for (bool again = true; again;) {
                    gap(s.pre);
                    Lock lk(w.m); w.h.in(me, "lock");
                    bool last = false; int evals = 0;
                    auto pred = [&] { Quiet q; if (evals && w.h.owner != -1) fail("lock-not-held", "predicate evaluated without the lock"); w.h.owner = me; last = items > 0; if (!last) w.h.owner = -1; evals++; return last; };
                    bool r = true; int64_t deadline = 0;
                    if (s.form == 0) w.cv.wait(lk, pred);
                    else if (s.form == 1) { deadline = sim::now_ns() + s.dur; sim::deadline_hint(deadline); r = w.cv.wait_for(lk, nanoseconds(s.dur), pred); }
                    else { deadline = sim::now_ns() + s.dur; sim::deadline_hint(deadline); r = w.cv.wait_until(lk, at_ns(deadline), pred); }
                    {
                        Quiet q;
                        if (!evals || r != last) fail("predicate-value", "wait returned %d but the predicate was last %d", (int)r, (int)last);
                        if (!r && sim::now_ns() < deadline) fail("early-timeout", "predicate wait gave up %lld ns early", (long long)(deadline - sim::now_ns()));
                        if (r && items <= 0) fail("predicate-value", "wait returned true but the predicate is false");
                        if (!r && items > 0) fail("predicate-value", "wait returned false although the predicate is true");
                        if (far && s.form && sim::now_ns() >= deadline) fail("lost-notification", "a predicate wait with a far deadline ended only at its deadline");
                        if (!lk.owns_lock()) fail("lock-not-held", "wait returned without owning the lock");
                        if (w.h.owner != -1 && w.h.owner != me) fail("lock-not-held", "wait returned while fiber %d holds the lock", w.h.owner);
                        w.h.owner = me;
                        if (r) { items--; taken++; again = false; } else probe("predicate wait timed out");
                    }
                    w.h.out(me); lk.unlock();
                    // a waiter that gave up leaves the notification to the others, one that left an item passes it on
                    (void)dropped;
                }
            }, draw_policy(), 0});
        }
    }
    fl.run();
    Quiet q; if (taken != goal || items) fail("predicate-value", "taken %d of %d", taken, goal);
}

// The condition variable may be destroyed once all (untimed) waiters have been notified.
template<int K> void destroy_after_notify() {
    typedef typename Kind<K>::L Lock; typedef typename Kind<K>::Cv Cv; typename Kind<K>::M m; Held h;
    Cv* cv = new Cv(); int waiting = 0; Shape sh = draw_shape(3, 5, 2); Fleet fl; fl.th.resize(sh.threads);
    int total = 0; for (int n : sh.fibers) total += n;
    bool one = choose(2), outside = choose(2);
    {
        Quiet q; int id = 0;
        for (int t = 0; t < sh.threads; ++t) for (int f = 0; f < sh.fibers[t]; ++f, ++id) {
            int me = id, g = (int)choose(GAPS);
            if (me) fl.th[t].fibers.push_back(FiberProg{[&, me, g] { gap(g); Lock lk(m); h.in(me, "lock"); h.out(me); waiting++; cv->wait(lk); h.in(me, "wait"); h.out(me); lk.unlock(); }, draw_policy(), 0});
            else fl.th[t].fibers.push_back(FiberProg{[&, me, g, total] {
                for (;;) {
                    bool d;
                    { Lock lk(m); d = waiting == total - 1; if (d && !outside) { if (one) for (int i = 0; i < total - 1; ++i) cv->notify_one(); else cv->notify_all(); delete cv; } lk.unlock(); }
                    if (d && outside) { if (one) for (int i = 0; i < total - 1; ++i) cv->notify_one(); else cv->notify_all(); delete cv; }
                    if (d) break;
                    gap(3);
                }
            }, draw_policy(), 0});
        }
    }
    fl.run();
}

template<class F> void kinds(F f) {
    switch (choose(4)) {
    case 0: f(std::integral_constant<int, 0>()); break;
    case 1: f(std::integral_constant<int, 1>()); break;
    case 2: f(std::integral_constant<int, 2>()); break;
    case 3: f(std::integral_constant<int, 3>()); break;
    }
}
}

SIM_SCENARIO(cv_baton, 4, "exactly as many notify_one calls as untimed waiters; timed waiters give up at the same moment; clock jumps") {
    faults_basic(); faults_clock();
    kinds([](auto k) { baton<decltype(k)::value>(false); });
}
SIM_SCENARIO(cv_baton_far, 2, "timed waiters with far deadlines must be released by their notification") {
    faults_basic();
    kinds([](auto k) { baton<decltype(k)::value>(true); });
}
SIM_SCENARIO(cv_genuine, 3, "random waits and notifications; every no_timeout return matched to a notification") {
    faults_basic(); faults_clock();
    kinds([](auto k) { genuine<decltype(k)::value>(false); });
}
SIM_SCENARIO(cv_genuine_sysclock, 1, "the same with deadlines on the system clock") {
    faults_basic(); faults_clock();
    kinds([](auto k) { genuine<decltype(k)::value>(true); });
}
SIM_SCENARIO(cv_predicate, 2, "predicate overloads in a producer/consumer buffer, clock jumps") {
    faults_basic(); faults_clock();
    kinds([](auto k) { predicate<decltype(k)::value>(false); });
}
SIM_SCENARIO(cv_predicate_far, 1, "predicate overloads, far deadlines") {
    faults_basic();
    kinds([](auto k) { predicate<decltype(k)::value>(true); });
}
SIM_SCENARIO(cv_destroy, 1, "condition variable destroyed after all waiters have been notified") {
    faults_basic(); faults_clock();
    kinds([](auto k) { destroy_after_notify<decltype(k)::value>(); });
}
