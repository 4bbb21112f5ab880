// C13 fiber lifecycle, C15 round-robin order and launch policies.
#include "fibtree.h"
#include <sstream>
#include <algorithm>

namespace {

// ---- FIFO order on one thread ------------------------------------------------------------
enum { O_YIELD, O_LAUNCH_POST, O_LAUNCH_DISPATCH, O_JOIN, O_WAIT, O_FIRE, O_SLEEP, O_WORK, O_NOPS };
struct FOp { int op, arg; };
struct Fifo {
    enum { MAXF = 24, NEV = 3 };
    long stamp[MAXF] = {}, next = 1; int alive = 0, n = 0; int64_t sleeping[MAXF] = {};
    std::vector<FOp> prog[MAXF]; bf::fiber h[MAXF]; bool ended[MAXF] = {}; int joiner[MAXF]; bool started[MAXF] = {};
    std::unique_ptr<bf::promise<void>> pr[NEV]; std::vector<bf::shared_future<void>> fu; std::vector<int> waiting[NEV]; bool fired[NEV] = {};
    int cur = 0; long resumes = 0; int64_t slept_seen = 0;
    void ready(int f) { stamp[f] = next++; }
    void resumed(int f, bool timer = false) {
        Quiet q; resumes++;
        sim::logf("fiber %d runs", f);
        if (!timer) {
            if (!stamp[f]) fail("ran-unready", "fiber %d runs although nothing made it ready", f);
            for (int i = 0; i < n; ++i) if (stamp[i] && stamp[i] < stamp[f]) fail("fifo-order", "fiber %d runs before fiber %d, which became ready earlier", f, i);
        } else {
            for (int i = 0; i < n; ++i) if (i != f && sleeping[i] && sleeping[i] < sleeping[f]) fail("fifo-order", "fiber %d (deadline %lld) runs before fiber %d (deadline %lld)", f, (long long)sleeping[f], i, (long long)sleeping[i]);
            sleeping[f] = 0;
        }
        stamp[f] = 0; cur = f;
    }
    void launch(int me, int k, bool dispatch) {
        bf::launch pol = dispatch ? bf::launch::dispatch : bf::launch::post;
        { Quiet q; if (dispatch) { ready(me); stamp[k] = -1; } else ready(k); joiner[k] = -1; }
        // a dispatched child runs at once, whatever is ready
        h[k] = bf::fiber(pol, [this, k, dispatch] {
            { Quiet q; started[k] = true; if (dispatch) { stamp[k] = 0; cur = k; resumes++; sim::logf("fiber %d runs", k); } }
            if (!dispatch) resumed(k);
            run(k);
            Quiet q; ended[k] = true; sim::logf("fiber %d ends", k); if (joiner[k] >= 0) ready(joiner[k]);
        });
        if (dispatch) resumed(me);
        Quiet q; if (dispatch != started[k]) fail("launch-policy", "fiber %d launched with %s: started=%d when its launcher continues", k, dispatch ? "dispatch" : "post", (int)started[k]);
        if (cur != me) fail("switched", "fiber %d continues but fiber %d was running", me, cur);
    }
    void run(int me) {
        for (auto& o : prog[me]) switch (o.op) {
        case O_YIELD: { { Quiet q; ready(me); } boost::this_fiber::yield(); resumed(me); break; }
        case O_LAUNCH_POST: launch(me, o.arg, false); break;
        case O_LAUNCH_DISPATCH: launch(me, o.arg, true); break;
        case O_JOIN: { bool block; { Quiet q; block = !ended[o.arg]; if (block) joiner[o.arg] = me; } if (!h[o.arg].joinable()) break; h[o.arg].join(); if (block) resumed(me); break; }
        case O_WAIT: { bool block; { Quiet q; block = !fired[o.arg]; if (block) waiting[o.arg].push_back(me); } fu[o.arg].wait(); if (block) resumed(me); break; }
        case O_FIRE: { { Quiet q; if (fired[o.arg]) break; fired[o.arg] = true; long s = next++; for (int w : waiting[o.arg]) stamp[w] = s; } pr[o.arg]->set_value(); break; }
        case O_SLEEP: { int64_t d = sim::now_ns() + o.arg; { Quiet q; sleeping[me] = d; } boost::this_fiber::sleep_until(at_ns(d)); { Quiet q; if (sim::now_ns() < d) fail("early-wake", "sleep ended early"); } resumed(me, true); break; }
        case O_WORK: { bool any = false; { Quiet q; for (int i = 0; i < n; ++i) if (i != me && stamp[i] > 0) any = true; } if (any && !bf::has_ready_fibers()) fail("has-ready", "has_ready_fibers() is false although fibers are ready"); }
            for (int i = 0; i < o.arg; ++i) { sim::sync_point(); Quiet q; if (cur != me) fail("switched", "fiber %d runs within fiber %d without a suspension point", cur, me); } break;
        }
    }
};
static void fifo(int algo) {
    {
    // on a fresh thread, so that its scheduler is created here
    std::unique_ptr<Fifo> f; { Quiet q; f.reset(new Fifo()); }
    {
        Quiet q; f->n = 1; int budget = 2 + (int)choose(8);
        for (int i = 0; i < Fifo::NEV; ++i) { f->pr[i].reset(new bf::promise<void>()); f->fu.push_back(f->pr[i]->get_future().share()); }
        std::vector<int> open{0}; // fibers that can still get operations
        for (int me = 0; me < f->n; ++me) {
            int ops = 1 + (int)choose(6); std::vector<int> kids;
            for (int i = 0; i < ops; ++i) {
                FOp o; o.op = (int)choose(O_NOPS); o.arg = 0;
                if ((o.op == O_LAUNCH_POST || o.op == O_LAUNCH_DISPATCH)) { if (budget <= 0 || f->n >= Fifo::MAXF) o.op = O_YIELD; else { budget--; o.arg = f->n++; kids.push_back(o.arg); } }
                else if (o.op == O_JOIN) { if (kids.empty() || me == 0)   // main fires every event before it blocks on anything
                    o.op = O_YIELD; else { o.arg = kids.back(); kids.pop_back(); } }
                else if (o.op == O_WAIT || o.op == O_FIRE) { o.arg = (int)choose(Fifo::NEV); if (me == 0 && o.op == O_WAIT) o.op = O_YIELD; }
                else if (o.op == O_SLEEP) o.arg = 1000 * (1 + (int)choose(40));
                else if (o.op == O_WORK) o.arg = 1 + (int)choose(4);
                f->prog[me].push_back(o);
            }
            if (me == 0) for (int e = 0; e < Fifo::NEV; ++e) f->prog[me].push_back(FOp{O_FIRE, e});   
            else for (int k : kids) f->prog[me].push_back(FOp{O_JOIN, k});
        }
    }
    std::thread th([&] {
        if (algo) bf::use_scheduling_algorithm<bf::algo::round_robin>();
        f->cur = 0;
        f->run(0);
        for (int k = 0; k < f->n; ++k) if (f->h[k].joinable()) { bool block; { Quiet q; block = !f->ended[k]; if (block) f->joiner[k] = 0; } f->h[k].join(); if (block) f->resumed(0); }
        { Quiet q; for (int k = 1; k < f->n; ++k) if (f->started[k] && !f->ended[k]) fail("abandoned", "fiber %d has not ended", k); }
        for (int i = 0; i < Fifo::NEV; ++i) f->pr[i].reset();
        f->fu.clear();
    });
    th.join();
    Quiet q; f.reset();
    }
}

// Fibers of one thread are made ready by fibers of other threads, one after the other: they run in
// that order (a wakeup that returned before another one began is the earlier one).
static void remote_order() {
    // Only a fiber blocked in wait() of a condition variable is known to be blocked: it set `waiting`
    // with the mutex held, and the waker saw that with the mutex held. No waker touches a mutex after
    // the first wakeup, so that nobody has to wait for one on the way out of wait().
    struct Wt { bf::mutex m; bf::condition_variable cv; bool waiting = false, go = false; uint64_t b = 0, e = 0; bool ran = false; };
    std::vector<std::unique_ptr<Wt>> w; Fleet fl; int wakers = 1 + (int)choose(2), noise = (int)choose(3), polled = 0; bool done = false;
    {
        Quiet q; int k = 2 + (int)choose(4); fl.algo = choose(2) ? A_DEFAULT : A_ROUND_ROBIN; fl.th.resize(1 + wakers);
        for (int i = 0; i < k; ++i) w.emplace_back(new Wt);
        for (int i = 0; i < k; ++i) {
            int g = (int)choose(GAPS);
            fl.th[0].fibers.push_back(FiberProg{[&, i, g] {
                gap(g); Wt& x = *w[i];
                { std::unique_lock<bf::mutex> lk(x.m); { Quiet q; x.waiting = true; } for (;;) { { Quiet q; if (x.go) break; } x.cv.wait(lk); }
                  Quiet q; x.ran = true; sim::logf("fiber %d runs", i);
                  for (size_t j = 0; j < w.size(); ++j) if (w[j]->e && w[j]->e < x.b && !w[j]->ran) fail("fifo-order", "fiber %d, woken by another thread, runs before fiber %d, whose wakeup was complete before", i, (int)j); }
            }, draw_policy(), 0});
        }
        for (int i = 0; i < noise; ++i) fl.th[0].fibers.push_back(FiberProg{[&] { for (int r = 0; r < 400; ++r) { { Quiet q; if (done) break; } boost::this_fiber::yield(); } }, draw_policy(), 0});
        std::vector<int> order = draw_perm(k); std::vector<std::vector<int>> mine(wakers);
        for (int i : order) mine[choose(wakers)].push_back(i);
        for (int t = 0; t < wakers; ++t) {
            int g = (int)choose(GAPS);
            fl.th[1 + t].main_fn = [&, t, m = mine[t], g] {
                for (int i : m) for (;;) {      // all of them wait
                    Wt& x = *w[i]; bool r;
                    { std::unique_lock<bf::mutex> lk(x.m); Quiet q; r = x.waiting; }
                    if (r) break;
                    gap(3);
                }
                { Quiet q; ++polled; }
                for (;;) { { Quiet q; if (polled == wakers) break; } gap(3); }
                for (int i : m) {
                    Wt& x = *w[i];
                    { Quiet q; x.go = true; x.b = sim::seq(); sim::logf("wake fiber %d", i); }
                    x.cv.notify_one();
                    { Quiet q; x.e = sim::seq(); }
                    if (g < 5) gap(g);
                }
            };
        }
    }
    fl.run();
    Quiet q; done = true; w.clear();
}

// a fiber that is ready runs within one round, whatever the others do
static void fairness() {
    int k = 2 + (int)choose(4); std::vector<long> cnt((size_t)k, 0); std::vector<long> base((size_t)k, 0); bool all = false, stop = false; int rounds = 3 + (int)choose(8); int sleepers = (int)choose(3);
    std::vector<bf::fiber> fs; { Quiet q; fs.reserve(16); }
    for (int i = 0; i < k; ++i) fs.emplace_back(draw_policy(), [&, i] { while (!stop) { { Quiet q; cnt[i]++; if (!all) { all = true; for (long c : cnt) if (!c) all = false; base = cnt; } else for (int j = 0; j < k; ++j) if (cnt[i] - base[i] - (cnt[j] - base[j]) > 2) fail("starved", "fiber %d ran %ld times while fiber %d ran %ld times", i, cnt[i] - base[i], j, cnt[j] - base[j]); } boost::this_fiber::yield(); } });
    int woke = 0;
    for (int i = 0; i < sleepers; ++i) fs.emplace_back([&, i] { for (int r = 0; r < 3; ++r) boost::this_fiber::sleep_for(nanoseconds(3000 + i * 2000)); Quiet q; woke++; });
    // the main fiber, ready all the time, too
    for (int r = 0; r < rounds; ++r) { long before; { Quiet q; before = cnt[0]; } boost::this_fiber::yield(); Quiet q; if (cnt[0] > before + 2) fail("starved", "fiber 0 ran %ld times during one yield of the main fiber", cnt[0] - before); }
    while (woke < sleepers) boost::this_fiber::yield();       // busy fibers do not starve timers
    stop = true;
    for (auto& f : fs) f.join();
}
}

SIM_SCENARIO(fib_tree, 5, "trees of fibers on several threads, joined, detached, joined elsewhere") {
    faults_basic(); faults_clock(); sim::track_races(true); sim::weak_memory(true); sim::enable_fault(sim::F_STALE, 0.05);
    tree(choose(2) ? A_ROUND_ROBIN : A_DEFAULT);
}
SIM_SCENARIO(fib_fifo, 4, "ready order on one thread against a FIFO model") {
    faults_basic(); faults_clock();
    fifo((int)choose(2));
}
SIM_SCENARIO(fib_remote_order, 2, "order of fibers made ready by other threads") {
    faults_basic();
    remote_order();
}
SIM_SCENARIO(fib_fair, 1, "yielding fibers, sleepers and the main fiber all keep running") {
    faults_basic();
    fairness();
}
SIM_SCENARIO(fib_errors, 1, "errors of join and detach, ids") {
    faults_basic();
    auto must = [](std::errc c, const char* what, std::function<void()> f) { try { f(); } catch (bf::fiber_error const& e) { Quiet q; if (e.code() != c) fail("wrong-error", "%s: error %d", what, e.code().value()); return; } fail("wrong-error", "%s did not throw", what); };
    bf::fiber n; if (n.joinable() || n.get_id() != bf::fiber::id()) fail("joinable", "default constructed fiber is joinable");
    must(std::errc::invalid_argument, "join of a default constructed fiber", [&] { n.join(); });
    must(std::errc::invalid_argument, "detach of a default constructed fiber", [&] { n.detach(); });
    unsigned pol = choose(2), g = choose(GAPS); bool ran = false; bf::fiber::id in, mainid = boost::this_fiber::get_id();
    bf::fiber self;
    {
        bf::fiber tmp([&] { gap(3); in = boost::this_fiber::get_id(); must(std::errc::resource_deadlock_would_occur, "joining oneself", [&] { self.join(); }); if (!self.joinable()) fail("joinable", "failed join made the handle non-joinable"); gap(g); ran = true; });
        self = std::move(tmp);
    }
    (void)pol; bf::fiber::id hid = self.get_id();
    if (hid == mainid || hid == bf::fiber::id() || mainid == bf::fiber::id()) fail("wrong-id", "ids are not distinct");
    self.join();
    if (!ran) fail("early-join", "join returned before the function");
    if (in != hid) fail("wrong-id", "handle and fiber disagree about the id");
    { // ids: a total order, equal for the same fiber only
        bf::fiber::id a[4] = { bf::fiber::id(), mainid, hid, in }; Quiet q;
        for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) {
            bool eq = i == j || i + j == 5; std::ostringstream x, y; x << a[i]; y << a[j]; std::hash<bf::fiber::id> h;
            if ((a[i] == a[j]) != eq || (a[i] != a[j]) == eq || (a[i] < a[j]) + (a[j] < a[i]) != !eq || (a[i] <= a[j]) != !(a[j] < a[i]) || (a[i] > a[j]) != (a[j] < a[i]) || (a[i] >= a[j]) != !(a[i] < a[j]) || (x.str() == y.str()) != eq || (eq && h(a[i]) != h(a[j]))) fail("wrong-id", "comparison, hash or text of ids is inconsistent");
            if (!a[i] != (i == 0)) fail("wrong-id", "an id of a fiber tests like no fiber");
        }
    }
    must(std::errc::invalid_argument, "join of a joined fiber", [&] { self.join(); });
    { // handles: order, swap and moves
        bf::fiber x([&] { gap(g); }), y([&] { gap(g); }); bf::fiber::id ix = x.get_id(), iy = y.get_id();
        if ((x < y) != (ix < iy) || (y < x) != (iy < ix) || x < x) fail("wrong-id", "order of handles differs from the order of ids");
        if (choose(2)) swap(x, y); else x.swap(y);
        if (x.get_id() != iy || y.get_id() != ix) fail("wrong-id", "swap did not exchange the fibers");
        bf::fiber z(std::move(x));
        if (x.joinable() || !z.joinable() || z.get_id() != iy) fail("joinable", "move construction did not move the fiber");
        x = std::move(z);
        if (z.joinable() || !x.joinable() || x.get_id() != iy) fail("joinable", "move assignment did not move the fiber");
        x.join(); y.join();
        if (x.joinable() || y.joinable() || x.get_id() != bf::fiber::id()) fail("joinable", "joined fiber is joinable");
    }
    must(std::errc::invalid_argument, "detach of a joined fiber", [&] { self.detach(); });
    bool done = false; bf::fiber d([&] { gap(g); done = true; }); bf::fiber e(std::move(d));
    must(std::errc::invalid_argument, "join of a moved-from fiber", [&] { d.join(); });
    e.detach(); must(std::errc::invalid_argument, "join of a detached fiber", [&] { e.join(); });
    while (!done) boost::this_fiber::yield();
    self = bf::fiber([] {}); self.join();
}
SIM_SCENARIO(fib_terminate, 1, "destroying or assigning over a joinable handle, or an escaping exception, terminates the program") {
    faults_basic();
    unsigned how = choose(4); unsigned g = choose(3), end = choose(2); bool go = false;
    sim::expect_abort(true);
    auto mk = [&] { return bf::fiber(draw_policy(), [&] { if (end) while (!go) boost::this_fiber::yield(); }); };
    switch (how) {
    case 0: { bf::fiber f = mk(); gap(g); break; }
    case 1: { bf::fiber f = mk(), h; gap(g); f = std::move(h); break; }
    case 2: { bf::fiber f = mk(); bf::fiber h = mk(); gap(g); f = std::move(h); break; }
    case 3: { bf::fiber f([] { throw std::runtime_error("escapes"); }); f.join(); break; }
    }
    fail("not-terminated", "the program goes on after a joinable handle was %s", how == 0 ? "destroyed" : how == 3 ? "left by an exception" : "assigned over");
}
