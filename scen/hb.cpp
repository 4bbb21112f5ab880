// C19 synchronisation publishes data: plain user data handed over by every primitive, watched by the
// happens-before detector, under all schedulers, with stale atomic reads the memory model allows.
#include "common.h"

namespace {
static int draw_algo() { static const int a[] = { A_DEFAULT, A_SHARED_SUSPEND, A_STEAL_SUSPEND, A_SHARED, A_STEAL, A_ROUND_ROBIN }; return choose(2) ? a[choose(6)] : A_DEFAULT; }
static void hb_faults() { faults_basic(); faults_clock(); sim::track_races(true); sim::weak_memory(true); sim::enable_fault(sim::F_STALE, 0.1); sim::set_budget(60000, 400000); }

struct Locks {
    bf::mutex a; bf::recursive_mutex b; bf::timed_mutex c; bf::recursive_timed_mutex d;
    bool lock(int kind, int how) {
        switch (kind) {
        case 0: if (how == 1) { while (!a.try_lock()) boost::this_fiber::yield(); return true; } a.lock(); return true;
        case 1: if (how == 1) { while (!b.try_lock()) boost::this_fiber::yield(); return true; } b.lock(); return true;
        case 2: if (how == 1) return c.try_lock_for(microseconds(30)); if (how == 2) return c.try_lock(); c.lock(); return true;
        default: if (how == 1) return d.try_lock_for(microseconds(30)); if (how == 2) return d.try_lock(); d.lock(); return true;
        }
    }
    void unlock(int kind) { switch (kind) { case 0: a.unlock(); break; case 1: b.unlock(); break; case 2: c.unlock(); break; default: d.unlock(); } }
};

struct LockStep { int cell, how, g, g2; bool write; };
}

SIM_SCENARIO(hb_locks, 3, "data under mutexes of every kind") {
    hb_faults();
    int cells = 1 + (int)choose(2), total = 0; std::vector<std::unique_ptr<Locks>> lk; std::vector<std::unique_ptr<sim::UData>> data; std::vector<int> kind; std::vector<long> writes;
    Shape sh = draw_shape(3, 5, 2); Fleet fl; fl.th.resize(sh.threads); fl.algo = draw_algo();
    {
        Quiet q;
        for (int i = 0; i < cells; ++i) { lk.emplace_back(new Locks()); data.emplace_back(new sim::UData(0)); kind.push_back((int)choose(4)); writes.push_back(0); }
        for (int t = 0; t < sh.threads; ++t) for (int f = 0; f < sh.fibers[t]; ++f) {
            std::vector<LockStep> st; int n = 1 + (int)choose(4);
            for (int i = 0; i < n; ++i) { LockStep s; s.cell = (int)choose(cells); s.how = (int)choose(3); s.g = (int)choose(GAPS); s.g2 = (int)choose(GAPS); s.write = choose(4) != 3; st.push_back(s); }
            auto fn = [&, st] {
                for (auto& s : st) {
                    gap(s.g);
                    if (!lk[s.cell]->lock(kind[s.cell], s.how)) continue;
                    long v = data[s.cell]->get("data under a mutex");
                    { Quiet q; if (v != writes[s.cell]) fail("data-race", "lost update under a mutex: %ld, expected %ld", v, writes[s.cell]); }
                    gap(s.g2);
                    if (s.write) { { Quiet q; writes[s.cell]++; } data[s.cell]->set(v + 1, "data under a mutex"); }
                    lk[s.cell]->unlock(kind[s.cell]);
                }
            };
            if (f == 0 && choose(3) == 2) fl.th[t].main_fn = fn; else fl.th[t].fibers.push_back(FiberProg{fn, draw_policy(), 0});
            total++;
        }
    }
    fl.run();
}

// items handed through one slot protected by mutex and condition variable(s)
SIM_SCENARIO(hb_condvar, 3, "data handed over with condition variables") {
    hb_faults();
    int np = 1 + (int)choose(2), nc = 1 + (int)choose(3), per = 1 + (int)choose(4); bool all = choose(2), any = choose(2), timed = choose(2), outside = choose(2), flag_only = choose(2);
    bf::mutex m; bf::condition_variable cv, cvf; bf::condition_variable_any cva; sim::UData slot(0); bool full = false; int left = np * per; long got = 0, put = 0; bool fin = false;
    std::vector<std::unique_ptr<sim::UData>> payload;
    Fleet fl; Shape sh = draw_shape(3, 5, np + nc); fl.th.resize(sh.threads); fl.algo = draw_algo();
    auto notify = [&] { if (any) { if (all || nc > 1) cva.notify_all(); else cva.notify_one(); } else if (all) cv.notify_all(); else cv.notify_one(); };
    {
        Quiet q; for (int i = 0; i < np * per; ++i) payload.emplace_back(new sim::UData(-1));
        std::vector<int> perm = draw_perm(np + nc); int k = 0;
        for (int idx : perm) {
            int g = (int)choose(GAPS), g2 = (int)choose(GAPS); FiberProg p; p.pol = draw_policy(); p.stack = 0;
            if (idx < np) p.fn = [&, idx, g, g2] {
                for (int i = 0; i < per; ++i) {
                    int id = idx * per + i; gap(g);
                    payload[id]->set(id, "payload");
                    std::unique_lock<bf::mutex> lk(m);
                    cvf.wait(lk, [&] { return !full; });
                    slot.set(id, "slot"); full = true; { Quiet q; put++; }
                    if (outside) { lk.unlock(); gap(g2); notify(); } else { notify(); lk.unlock(); }
                }
            };
            else p.fn = [&, g, g2] {
                for (;;) {
                    std::unique_lock<bf::mutex> lk(m);
                    auto pred = [&] { return full || !left; };
                    if (timed) { while (!(any ? cva.wait_for(lk, microseconds(40), pred) : cv.wait_for(lk, microseconds(40), pred))) ; }
                    else if (any) cva.wait(lk, pred); else cv.wait(lk, pred);
                    if (!full) break;
                    long id = slot.get("slot"); full = false; bool last = !--left;
                    cvf.notify_one(); if (last) { cv.notify_all(); cva.notify_all(); }
                    lk.unlock(); gap(g2);
                    if (payload[id]->get("payload") != id) fail("data-race", "payload %ld not visible", id);
                    payload[id]->set(id + 1000, "payload"); { Quiet q; got++; }
                    gap(g);
                }
            };
            fl.th[k++ % sh.threads].fibers.push_back(p);
        }
        (void)fin; (void)flag_only;
    }
    fl.run();
    Quiet q; if (got != np * per) fail("lost", "%ld of %d items arrived", got, np * per);
}

SIM_SCENARIO(hb_barrier, 2, "data exchanged across barriers") {
    hb_faults();
    Shape sh = draw_shape(3, 5, 2); int n = 0; for (int k : sh.fibers) n += k; int rounds = 1 + (int)choose(4); bool shift = choose(2);
    bf::barrier b((size_t)n); std::vector<std::unique_ptr<sim::UData>> d; Fleet fl; fl.th.resize(sh.threads); fl.algo = draw_algo();
    {
        Quiet q; for (int i = 0; i < n; ++i) d.emplace_back(new sim::UData(0)); int id = 0;
        for (int t = 0; t < sh.threads; ++t) for (int f = 0; f < sh.fibers[t]; ++f, ++id) {
            int me = id, g = (int)choose(GAPS), g2 = (int)choose(GAPS);
            fl.th[t].fibers.push_back(FiberProg{[&, me, g, g2] {
                for (int r = 1; r <= rounds; ++r) {
                    int own = shift ? (me + r) % n : me;          // cells change their writer every round
                    d[own]->set(r, "data before the barrier"); gap(g);
                    b.wait(); gap(g2);
                    for (int i = 0; i < n; ++i) if (d[i]->get("data before the barrier") != r) fail("data-race", "cell %d not visible after the barrier", i);
                    b.wait();
                }
            }, draw_policy(), 0});
        }
    }
    fl.run();
}

// ownership of cells travels through channels, possibly over several hops
template<class C> static void chan_hb(bool buffered) {
    int cells = 1 + (int)choose(4), hops = 1 + (int)choose(3), cons = 1 + (int)choose(2), np = 1 + (int)choose(2); int how = (int)choose(4), pop = (int)choose(4);
    std::vector<std::unique_ptr<sim::UData>> d; std::vector<std::unique_ptr<C>> ch; Fleet fl; Shape sh = draw_shape(3, 9, np + hops * cons); fl.th.resize(sh.threads); fl.algo = draw_algo(); long seen = 0; std::vector<int> open;
    {
        Quiet q; for (int i = 0; i < cells * np; ++i) d.emplace_back(new sim::UData(-1));
        for (int h = 0; h < hops; ++h) { if constexpr (std::is_constructible<C, std::size_t>::value) ch.emplace_back(new C((std::size_t)(2 + 2 * choose(2)))); else ch.emplace_back(new C()); open.push_back(h ? cons : np); }
        auto push = [&, how](int h, int id) {
            bf::channel_op_status s = bf::channel_op_status::timeout; int v = id;
            while (s == bf::channel_op_status::timeout || s == bf::channel_op_status::full) {
                if (how == 0) s = ch[h]->push(v); else if (how == 1) s = ch[h]->push(std::move(v)); else if (how == 2) s = ch[h]->push_wait_for(v, microseconds(50));
                else if constexpr (std::is_constructible<C, std::size_t>::value) { s = ch[h]->try_push(v); if (s == bf::channel_op_status::full) boost::this_fiber::yield(); } else s = ch[h]->push(v);
            }
            if (s != bf::channel_op_status::success) fail("lost", "push to hop %d: status %d", h, (int)s);
        };
        auto take = [&, pop](int h, int& v) -> bool {
            for (;;) {
                bf::channel_op_status s;
                if (pop == 0) s = ch[h]->pop(v); else if (pop == 1) { try { v = ch[h]->value_pop(); return true; } catch (bf::fiber_error const&) { return false; } } else if (pop == 2) s = ch[h]->pop_wait_for(v, microseconds(50));
                else if constexpr (std::is_constructible<C, std::size_t>::value) { s = ch[h]->try_pop(v); if (s == bf::channel_op_status::empty) { boost::this_fiber::yield(); continue; } } else s = ch[h]->pop(v);
                if (s == bf::channel_op_status::success) return true;
                if (s == bf::channel_op_status::closed) return false;
            }
        };
        auto done = [&](int h) { bool last; { Quiet q; last = !--open[h]; } if (last) ch[h]->close(); };
        std::vector<FiberProg> ps;
        for (int p = 0; p < np; ++p) { int g = (int)choose(GAPS); ps.push_back(FiberProg{[&, p, g, push, done] { for (int i = 0; i < cells; ++i) { int id = p * cells + i; d[id]->set(id, "data pushed"); gap(g); push(0, id); } done(0); }, draw_policy(), 0}); }
        for (int h = 0; h < hops; ++h) for (int c = 0; c < cons; ++c) {
            int g = (int)choose(GAPS);
            ps.push_back(FiberProg{[&, h, g, push, take, done] {
                int id;
                while (take(h, id)) {
                    if (d[id]->get("data pushed") != id + 1000 * h) fail("data-race", "data of item %d not visible at hop %d", id, h);
                    gap(g);
                    d[id]->set(id + 1000 * (h + 1), "data pushed");
                    if (h + 1 < hops) push(h + 1, id); else { Quiet q; seen++; }
                }
                if (h + 1 < hops) done(h + 1);
            }, draw_policy(), 0});
        }
        std::vector<int> perm = draw_perm((int)ps.size()); int k = 0; for (int i : perm) fl.th[k++ % sh.threads].fibers.push_back(ps[i]);
    }
    fl.run();
    Quiet q; if (seen != cells * np) fail("lost", "%ld of %d items arrived", seen, cells * np);
}
SIM_SCENARIO(hb_bchan, 3, "ownership of data travels through buffered channels") { hb_faults(); chan_hb<bf::buffered_channel<int>>(true); }
SIM_SCENARIO(hb_uchan, 3, "ownership of data travels through unbuffered channels") { hb_faults(); chan_hb<bf::unbuffered_channel<int>>(false); }

// chains of promises, joins and launches
SIM_SCENARIO(hb_chain, 3, "data handed on by promises, launches and joins") {
    hb_faults();
    int n = 2 + (int)choose(5); sim::UData d(0); Fleet fl; int threads = 1 + (int)choose(3); fl.th.resize(threads); fl.algo = draw_algo();
    std::vector<std::unique_ptr<bf::promise<int>>> pr; std::vector<bf::shared_future<int>> fu;
    {
        Quiet q; for (int i = 0; i <= n; ++i) { pr.emplace_back(new bf::promise<int>()); fu.push_back(pr.back()->get_future().share()); }
        for (int i = 0; i < n; ++i) {
            int g = (int)choose(GAPS), kind = (int)choose(4), wt = (int)choose(3);
            fl.th[i % threads].fibers.push_back(FiberProg{[&, i, g, kind, wt] {
                if (i) { if (wt == 1) while (fu[i].wait_for(microseconds(40)) != bf::future_status::ready) ; if (wt == 2) fu[i].wait(); if (fu[i].get() != i) fail("lost", "wrong result"); }
                auto step = [&] { long v = d.get("data handed on"); if (v != i) fail("data-race", "link %d sees %ld", i, v); gap(g); d.set(v + 1, "data handed on"); };
                if (kind == 0) step();
                else if (kind == 1) { bf::fiber f(bf::launch::post, step); f.join(); }
                else if (kind == 2) { bf::fiber f(bf::launch::dispatch, step); f.join(); }
                else { bf::future<int> x = bf::async(bf::launch::post, [&] { step(); return 3; }); x.get(); }
                pr[i + 1]->set_value(i + 1);
            }, draw_policy(), 0});
        }
    }
    fl.run();
    if (d.get("data handed on") != n) fail("lost", "the chain ended at %ld", d.v);
}
