// C21 wakeups from other threads reach fibers of idle threads: no timers, no OS-level spurious wakeups, nothing that would
// rescue a lost one.  And each wakeup ends one suspension only.
#ifndef WITH_NUMA
#define WITH_NUMA
#endif
#include "common.h"
#include <set>

namespace {
// round_robin that counts: a fiber becomes ready once per suspension
class Counting : public bf::algo::round_robin {
    std::set<bf::context*> ready_; int me_;
public:
    Counting() { Quiet q; me_ = sim::tid(); }
    void awakened(bf::context* c) noexcept override {
        { Quiet q;
          if (sim::tid() != me_) fail("wrong-thread", "awakened() called on thread %d for the scheduler of thread %d", sim::tid(), me_);
          if (c == bf::context::active() && !c->is_context(bf::type::dispatcher_context)) fail("duplicate-wakeup", "the running fiber became ready");
          if (!ready_.insert(c).second) fail("duplicate-wakeup", "a fiber became ready twice for one suspension"); }
        bf::algo::round_robin::awakened(c);
    }
    bf::context* pick_next() noexcept override {
        bf::context* c = bf::algo::round_robin::pick_next();
        Quiet q; if (c && !ready_.erase(c)) fail("duplicate-wakeup", "a fiber that is not ready was picked");
        return c;
    }
};

enum { P_CV, P_CVANY, P_BCHAN, P_UCHAN, P_PROMISE, P_JOIN, P_MUTEX, P_BARRIER, P_KINDS };
const microseconds HOUR(3600ll * 1000000);

// one pair of fibers on two threads that takes turns
struct Pair {
    int kind, rounds; bool timed; std::atomic<int> turns{0};
    bf::mutex m; bf::condition_variable cv; bf::condition_variable_any cva; int turn = 0;
    bf::buffered_channel<int> b1{2}, b2{2}; bf::unbuffered_channel<int> u1, u2; bf::barrier bar{2}; bf::timed_mutex tm; bf::recursive_mutex rm; int owner = -1;
    std::vector<std::unique_ptr<bf::promise<int>>> pr; std::vector<bf::future<int>> fu;
    void late(const char* w) { if (sim::now_ns() > 3000000000000ll) { Quiet q; fail("late-wakeup", "%s returned only at its far deadline", w); } }
    void play(int side) {
        for (int r = 0; r < rounds; ++r) switch (kind) {
        case P_CV: case P_CVANY: {
            std::unique_lock<bf::mutex> lk(m); auto mine = [&] { return turn % 2 == side; };
            if (kind == P_CV) { if (timed) { while (!mine()) cv.wait_for(lk, HOUR); } else cv.wait(lk, mine); } else { if (timed) { while (!mine()) cva.wait_for(lk, HOUR); } else cva.wait(lk, mine); }
            turn++; if (kind == P_CV) cv.notify_one(); else cva.notify_one();
            break; }
        case P_BCHAN: { int v; auto s = [&](bool ok) { if (!ok) fail("lost", "channel operation failed"); };
            if (side == 0) { s(b1.push(r) == bf::channel_op_status::success); s((timed ? b2.pop_wait_for(v, HOUR) : b2.pop(v)) == bf::channel_op_status::success && v == r); }
            else { s((timed ? b1.pop_wait_for(v, HOUR) : b1.pop(v)) == bf::channel_op_status::success && v == r); s(b2.push(r) == bf::channel_op_status::success); }
            break; }
        case P_UCHAN: { int v; auto s = [&](bool ok) { if (!ok) fail("lost", "channel operation failed"); };
            if (side == 0) { s((timed ? u1.push_wait_for(r, HOUR) : u1.push(r)) == bf::channel_op_status::success); s((timed ? u2.pop_wait_for(v, HOUR) : u2.pop(v)) == bf::channel_op_status::success && v == r); }
            else { s((timed ? u1.pop_wait_for(v, HOUR) : u1.pop(v)) == bf::channel_op_status::success && v == r); s((timed ? u2.push_wait_for(r, HOUR) : u2.push(r)) == bf::channel_op_status::success); }
            break; }
        case P_PROMISE: {
            if (side == 1) { pr[2 * r]->set_value(r); if (timed && fu[2 * r + 1].wait_for(HOUR) != bf::future_status::ready) fail("late-wakeup", "future not ready"); if (fu[2 * r + 1].get() != r) fail("lost", "future"); }
            else { if (timed && fu[2 * r].wait_for(HOUR) != bf::future_status::ready) fail("late-wakeup", "future not ready"); if (fu[2 * r].get() != r) fail("lost", "future"); pr[2 * r + 1]->set_value(r); }
            break; }
        case P_MUTEX: {
            if (timed) { if (!tm.try_lock_for(HOUR)) fail("late-wakeup", "try_lock_for timed out"); } else rm.lock();
            { Quiet q; if (owner != -1) fail("mutual-exclusion", "two owners"); owner = side; }
            boost::this_fiber::yield(); boost::this_fiber::yield();
            { Quiet q; owner = -1; }
            if (timed) tm.unlock(); else rm.unlock();
            break; }
        case P_BARRIER: bar.wait(); break;
        case P_JOIN: break;
        }
        if (timed) late("a timed wait");
    }
};
struct CFleet : Fleet { bool counting = false; };
void install_counting(int) { bf::use_scheduling_algorithm<Counting>(); }
}

SIM_SCENARIO(rem_pairs, 6, "pairs of fibers on different, otherwise idle threads take turns") {
    sim::set_budget(60000, 300000);
    static const int al[] = { A_DEFAULT, A_DEFAULT, A_SHARED_SUSPEND, A_STEAL_SUSPEND, A_NUMA_SUSPEND, A_ROUND_ROBIN };
    Fleet fl; int threads = 2 + (int)choose(2), np = 1 + (int)choose(3); fl.th.resize(threads); fl.algo = al[choose(6)];
    bool counting = fl.algo == A_DEFAULT && choose(2); if (counting) fl.thread_init = install_counting;
    std::vector<std::unique_ptr<Pair>> ps; std::vector<std::unique_ptr<bf::promise<void>>> go;
    {
        Quiet q;
        for (int i = 0; i < np; ++i) {
            ps.emplace_back(new Pair()); Pair* p = ps.back().get(); p->kind = (int)choose(P_KINDS); p->rounds = 1 + (int)choose(4); p->timed = choose(4) == 3;
            for (int r = 0; r < 2 * p->rounds; ++r) { p->pr.emplace_back(new bf::promise<int>()); p->fu.push_back(p->pr.back()->get_future()); }
            int a = i % threads, b = (a + 1) % threads;
            if (p->kind == P_JOIN) {            // a fiber of one thread is joined by one of another
                auto h = std::make_shared<bf::fiber>(); auto ready = std::make_shared<bf::promise<void>>(); auto rf = std::make_shared<bf::future<void>>(ready->get_future()); auto done = std::make_shared<bool>(false); bool first = choose(2); int g = (int)choose(3);
                go.emplace_back(new bf::promise<void>()); auto* gp = go.back().get(); auto gf = std::make_shared<bf::future<void>>(gp->get_future());
                fl.th[a].fibers.push_back(FiberProg{[=] { *h = bf::fiber(bf::launch::post, [=] { gf->get(); for (int k = 0; k < g; ++k) boost::this_fiber::yield(); *done = true; }); ready->set_value(); }, draw_policy(), 0});
                fl.th[b].fibers.push_back(FiberProg{[=] { rf->get(); if (first) gp->set_value(); else { bf::fiber x(bf::launch::post, [=] { gp->set_value(); }); x.detach(); } h->join(); if (!*done) fail("early-join", "join returned early"); }, draw_policy(), 0});
            } else {
                bool am = fl.th[a].main_fn == nullptr && choose(3) == 2, bm = fl.th[b].main_fn == nullptr && choose(3) == 2;
                if (am) fl.th[a].main_fn = [p] { p->play(0); }; else fl.th[a].fibers.push_back(FiberProg{[p] { p->play(0); }, draw_policy(), 0});
                if (bm) fl.th[b].main_fn = [p] { p->play(1); }; else fl.th[b].fibers.push_back(FiberProg{[p] { p->play(1); }, draw_policy(), 0});
            }
        }
    }
    fl.run();
    { Quiet q; for (auto& t : fl.th) { t.fibers.clear(); t.main_fn = nullptr; } }
}

// many wakeups arrive at one thread that goes idle again and again
SIM_SCENARIO(rem_storm, 3, "several threads wake fibers of one thread at the same time") {
    sim::set_budget(60000, 300000);
    int srcs = 1 + (int)choose(3), nf = 1 + (int)choose(4), rounds = 1 + (int)choose(4); bool cnt = choose(2), onlast = choose(2);
    struct Box { bf::mutex m; bf::condition_variable cv; int have = 0; }; std::vector<std::unique_ptr<Box>> bx; { Quiet q; for (int i = 0; i < nf; ++i) bx.emplace_back(new Box()); }
    Fleet fl; fl.th.resize(1 + srcs); fl.algo = A_DEFAULT; if (cnt) fl.thread_init = install_counting;
    bf::promise<void> all; auto af = all.get_future(); std::atomic<int> left{nf};
    {
        Quiet q;
        for (int i = 0; i < nf; ++i) fl.th[0].fibers.push_back(FiberProg{[&, i] {
            Box& b = *bx[i];
            for (int r = 0; r < rounds * srcs; ++r) { std::unique_lock<bf::mutex> lk(b.m); b.cv.wait(lk, [&] { return b.have > 0; }); b.have--; }
            if (--left == 0) all.set_value();
        }, draw_policy(), 0});
        fl.th[0].main_fn = [&] { if (onlast) af.get(); };
        for (int s = 0; s < srcs; ++s) { int g = (int)choose(3); bool un = choose(2); fl.th[1 + s].main_fn = [&, g, un] {
            for (int r = 0; r < rounds; ++r) for (int i = 0; i < nf; ++i) { Box& b = *bx[i]; std::unique_lock<bf::mutex> lk(b.m); b.have++; if (un) lk.unlock(); b.cv.notify_one(); if (lk) lk.unlock(); for (int k = 0; k < g; ++k) sim::sync_point(); }
        }; }
    }
    fl.run();
}

// an expired timed wait and its notification race; the notification must not end the suspension after it
SIM_SCENARIO(rem_stale, 5, "a wakeup meant for an earlier suspension never ends a later one") {
    sim::enable_fault(sim::F_CLOCKJUMP, 0.03); sim::set_budget(60000, 300000);
    int rounds = 2 + (int)choose(5), pokers = 1 + (int)choose(2); bool cnt = choose(2); int via = (int)choose(4);
    struct Gate { bf::mutex m; bf::condition_variable cv; bool open = false; long passed = 0; } gate;
    struct X { bf::mutex m; bf::condition_variable cv; bf::timed_mutex tm; bf::buffered_channel<int> b{4}; bf::unbuffered_channel<int> u; } x;
    std::atomic<bool> stop{false}; std::atomic<int> waiting{0};
    struct R { int kind, dur, g; }; std::vector<R> rs; { Quiet q; for (int i = 0; i < rounds; ++i) { R r; r.kind = (int)choose(6); r.dur = 1 + (int)choose(40); r.g = (int)choose(4); rs.push_back(r); } }
    Fleet fl; fl.th.resize(3); static const int al[] = { A_DEFAULT, A_DEFAULT, A_SHARED_SUSPEND, A_STEAL_SUSPEND }; fl.algo = al[choose(4)]; if (cnt && fl.algo == A_DEFAULT) fl.thread_init = install_counting;
    {
        Quiet q;
        fl.th[0].fibers.push_back(FiberProg{[&] {
            for (auto& r : rs) {
                auto d = nanoseconds(r.dur * 100); int v;
                switch (r.kind) {
                case 0: { std::unique_lock<bf::mutex> lk(x.m); x.cv.wait_for(lk, d); break; }
                case 1: if (x.tm.try_lock_for(d)) x.tm.unlock(); break;
                case 2: x.b.pop_wait_for(v, d); break;
                case 3: x.u.pop_wait_for(v, d); break;
                case 4: x.u.push_wait_for(5, d); break;
                case 5: boost::this_fiber::sleep_for(d); break;
                }
                // now one that nobody ends but the gate keeper
                if (via == 0) { std::unique_lock<bf::mutex> lk(gate.m); waiting = 1; gate.cv.wait(lk); { Quiet q; if (!gate.open) fail("stale-wakeup", "a wait was ended by a wakeup that was meant for an earlier one (%d)", r.kind); gate.open = false; } gate.passed++; }
                else if (via == 1) { auto t0 = SC::now(); boost::this_fiber::sleep_for(microseconds(7)); if (SC::now() - t0 < microseconds(7)) fail("stale-wakeup", "sleep ended early by a wakeup meant for an earlier suspension (%d)", r.kind); }
                else if (via == 2) { long p = gate.passed; bf::fiber f(bf::launch::post, [&] { for (int i = 0; i < 6; ++i) boost::this_fiber::yield(); gate.passed++; }); f.join(); if (gate.passed == p) fail("stale-wakeup", "join ended by a wakeup meant for an earlier suspension (%d)", r.kind); }
                else { std::unique_lock<bf::mutex> lk(gate.m); waiting = 1; auto t0 = SC::now(); auto s = gate.cv.wait_for(lk, microseconds(60)); bool late = SC::now() - t0 >= microseconds(60); { Quiet q; if (!gate.open && !(s == bf::cv_status::timeout && late)) fail("stale-wakeup", "a timed wait was ended by a wakeup that was meant for an earlier one (%d)", r.kind); gate.open = false; } waiting = 0; }
            }
            stop = true;
        }, draw_policy(), 0});
        for (int p = 0; p < pokers; ++p) { int g = (int)choose(8); fl.th[1].fibers.push_back(FiberProg{[&, g, p] {
            for (int n = 0; !stop && n < 200; ++n) {
                int v;
                switch ((n + p) % 5) {
                case 0: { std::unique_lock<bf::mutex> lk(x.m); x.cv.notify_one(); break; }
                case 1: if (x.tm.try_lock()) { for (int i = 0; i < g; ++i) sim::sync_point(); x.tm.unlock(); } break;
                case 2: x.b.try_push(n); break;
                case 3: x.u.push_wait_for(n, nanoseconds(300)); break;
                case 4: x.u.pop_wait_for(v, nanoseconds(300)); break;
                }
                for (int i = 0; i < g; ++i) sim::sync_point();
                boost::this_fiber::yield();
            }
        }, draw_policy(), 0}); }
        if (via == 0 || via == 3) fl.th[2].fibers.push_back(FiberProg{[&] {
            while (!stop) { { std::unique_lock<bf::mutex> lk(gate.m); if (waiting == 1) { waiting = 0; gate.open = true; gate.cv.notify_one(); } } boost::this_fiber::sleep_for(microseconds(15)); }
        }, draw_policy(), 0});
    }
    fl.run();
}
