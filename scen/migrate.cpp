// C16 shared_work, work_stealing and the NUMA work_stealing scheduler.
#ifndef WITH_NUMA
#define WITH_NUMA
#endif
#include "fibtree.h"

namespace {
static int draw_algo() { static const int a[] = { A_SHARED_SUSPEND, A_STEAL_SUSPEND, A_NUMA_SUSPEND, A_SHARED, A_STEAL, A_NUMA }; return a[choose(6)]; }

// many ready fibers: all of them run, whoever runs them
static void crowd(int algo) {
    int threads = 1 + (int)choose(3), per = 1 + (int)choose(8), rounds = 1 + (int)choose(4); bool nested = choose(2);
    Where wh; Fleet fl; fl.algo = algo; fl.th.resize(threads); std::vector<long> steps((size_t)(threads * per * 2), 0); std::vector<int> busy((size_t)(threads * per * 2), 0);
    long done = 0, goal = (long)threads * per * (nested ? 2 : 1); bf::mutex m; bf::condition_variable cv; int kinds = (int)choose(3);
    struct One { static void step(std::vector<int>& b, std::vector<long>& s, int id) { { Quiet q; if (b[id]++) fail("two-threads", "fiber %d runs on two threads at once", id); } sim::sync_point(); Quiet q; b[id]--; s[id]++; } };
    std::function<void(int)> work = [&](int id) {
        for (int r = 0; r < rounds; ++r) { One::step(busy, steps, id); if (kinds == 0 || (kinds == 1 && r % 2)) boost::this_fiber::yield(); else if (kinds == 2) boost::this_fiber::sleep_for(nanoseconds(700 * (1 + id % 5))); }
        std::unique_lock<bf::mutex> lk(m); if (++done == goal) cv.notify_all();
    };
    {
        Quiet q;
        for (int t = 0; t < threads; ++t) {
            for (int f = 0; f < per; ++f) {
                int id = t * per + f; bool det = choose(2); int pol = (int)choose(2);
                fl.th[t].fibers.push_back(FiberProg{[&, id, det, pol] { if (nested) { bf::fiber c(pol ? bf::launch::dispatch : bf::launch::post, [&, id] { work(threads * per + id); }); work(id); if (det) c.detach(); else c.join(); } else work(id); }, draw_policy(), 0});
            }
            fl.th[t].detach = choose(3) == 2;
            fl.th[t].main_fn = [&, t] { int tid = sim::tid(); std::unique_lock<bf::mutex> lk(m); cv.wait(lk, [&] { return done == goal; }); Quiet q; if (sim::tid() != tid) fail("migrated", "the main fiber of thread %d continues on thread %d", tid, sim::tid()); };
        }
    }
    fl.run();
    Quiet q; for (long i = 0; i < goal; ++i) if (steps[i] != rounds) fail("lost-fiber", "fiber %ld did %ld of %d steps", i, steps[i], rounds);
}

// blocked, sleeping and joining fibers under migration: a pipeline of channels, mutexes and timers
static void pipeline(int algo) {
    int threads = 1 + (int)choose(3), stages = 1 + (int)choose(3), items = 1 + (int)choose(5);
    Fleet fl; fl.algo = algo; fl.th.resize(threads); std::vector<std::unique_ptr<bf::buffered_channel<int>>> ch; long sum = 0; bf::mutex m; long live = 0; int outs = 0;
    {
        Quiet q; for (int i = 0; i <= stages; ++i) ch.emplace_back(new bf::buffered_channel<int>(2 + 2 * choose(2)));
        auto put = [&](std::function<void()> f) { fl.th[choose(threads)].fibers.push_back(FiberProg{f, draw_policy(), (int)choose(4)}); };
        int g = (int)choose(GAPS);
        put([&, g] { for (int i = 1; i <= items; ++i) { gap(g); if (ch[0]->push(i) != bf::channel_op_status::success) fail("channel", "push failed"); } ch[0]->close(); });
        for (int s = 0; s < stages; ++s) { int g2 = (int)choose(GAPS); put([&, s, g2] { int v; while (ch[s]->pop(v) == bf::channel_op_status::success) { std::unique_lock<bf::mutex> lk(m); { Quiet q; if (live++) fail("mutual-exclusion", "two fibers in the critical section"); } gap(g2); { Quiet q; live--; } lk.unlock(); ch[s + 1]->push(v); } ch[s + 1]->close(); }); }
        put([&] { int v; int want = 1; while (true) { bf::channel_op_status st = ch[stages]->pop_wait_for(v, milliseconds(1)); if (st == bf::channel_op_status::timeout) continue; if (st != bf::channel_op_status::success) break; if (v != want++) fail("channel", "item %d out of order", v); sum += v; outs++; } });
    }
    fl.run();
    Quiet q; if (outs != items || sum != (long)items * (items + 1) / 2) fail("lost-fiber", "%d of %d items arrived", outs, items);
}
}

SIM_SCENARIO(mig_tree, 4, "trees of fibers joined, detached and joined elsewhere under migrating schedulers") {
    faults_basic(); faults_clock(); sim::track_races(true); sim::weak_memory(true); sim::enable_fault(sim::F_STALE, 0.05);
    tree(draw_algo(), 8);
}
SIM_SCENARIO(mig_crowd, 3, "many ready fibers on 1..3 threads") {
    faults_basic(); faults_clock();
    crowd(draw_algo());
}
SIM_SCENARIO(mig_pipeline, 3, "channels, mutexes and timers under migration") {
    faults_basic(); faults_clock();
    pipeline(draw_algo());
}

// fibers that poll with yield() must not keep timers, remote wakeups or the main fiber from being served
SIM_SCENARIO(mig_fair, 2, "polling fibers do not starve sleeping, blocked or main fibers") {
    faults_basic(); faults_clock(); sim::set_budget(40000, 300000);
    int threads = 1 + (int)choose(3), pollers = 1 + (int)choose(3), kind = (int)choose(4); Fleet fl; fl.algo = draw_algo(); fl.th.resize(threads);
    bool flag = false; bf::promise<void> pr; bf::future<void> fu = pr.get_future(); bf::mutex m; bf::condition_variable cv;
    {
        Quiet q; auto put = [&](int t, std::function<void()> f) { fl.th[t].fibers.push_back(FiberProg{f, draw_policy(), 0}); };
        std::vector<std::pair<int, std::function<void()>>> ps;
        for (int i = 0; i < pollers; ++i) ps.emplace_back((int)choose(threads), [&] { for (;;) { { Quiet q; if (flag) break; } boost::this_fiber::yield(); } });
        auto set = [&] { Quiet q; flag = true; };
        if (kind == 0) ps.emplace_back((int)choose(threads), [&, set] { boost::this_fiber::sleep_for(microseconds(30)); set(); });
        else if (kind == 1) { ps.emplace_back((int)choose(threads), [&, set] { fu.wait(); set(); }); ps.emplace_back((int)choose(threads), [&] { boost::this_fiber::sleep_for(microseconds(10)); pr.set_value(); }); }
        else if (kind == 2) fl.th[0].main_fn = [&, set] { boost::this_fiber::yield(); boost::this_fiber::yield(); set(); };
        else { ps.emplace_back((int)choose(threads), [&, set] { std::unique_lock<bf::mutex> lk(m); cv.wait_for(lk, microseconds(25)); lk.unlock(); bf::fiber c(bf::launch::post, set); c.join(); }); }
        std::vector<int> perm = draw_perm((int)ps.size()); for (int i : perm) put(ps[i].first, ps[i].second);
    }
    fl.run();
}

#ifndef BOOST_FIBERS_NO_ATOMICS
// participating threads that are stuck inside one fiber do not keep the other ready fibers from running: idle threads take them
SIM_SCENARIO(mig_rescue, 1, "ready fibers of threads that are stuck in one fiber are run by the other, idle threads") {
    faults_basic(); sim::set_budget(20000, 120000);
    int threads = 2 + (int)choose(3), algo = (int)choose(3), rounds = (int)choose(3), victims = 1 + (int)choose(threads - 1); long done = 0, goal = 0; bool det = choose(2);
    bf::barrier end((size_t)threads); Fleet fl; fl.th.resize(threads); fl.draw_topology(); std::vector<int> count((size_t)threads, 0); std::vector<std::vector<int>> ran((size_t)threads);
    { Quiet q; std::vector<int> perm = draw_perm(threads); for (int i = 0; i < victims; ++i) { int n = (int)choose(6) + !i; count[perm[i]] = n + 1; goal += n; ran[perm[i]].assign((size_t)n, 0); } }
    auto body = [&](int t) {
        if (algo == 0) bf::use_scheduling_algorithm<bf::algo::shared_work>();
        else if (algo == 1) bf::use_scheduling_algorithm<bf::algo::work_stealing>((std::uint32_t)threads);
        else bf::use_scheduling_algorithm<bf::numa::algo::work_stealing>(fl.place[t].first, fl.place[t].second, fl.topo);
        if (count[t]) {
            std::vector<bf::fiber> fs; { Quiet q; fs.reserve(8); }
            // whoever runs this one is stuck until all the others, of every victim, have ended
            fs.emplace_back(bf::launch::post, [&] { for (;;) { { Quiet q; if (done == goal) break; } std::this_thread::yield(); } });
            for (int i = 0; i + 1 < count[t]; ++i) {
                bf::fiber f(bf::launch::post, [&, t, i] { { Quiet q; if (ran[t][i]++) fail("duplicated", "fiber %d of thread %d runs twice", i, t); } for (int r = 0; r < rounds; ++r) boost::this_fiber::yield(); Quiet q; done++; });
                if (det) f.detach(); else { Quiet q; fs.push_back(std::move(f)); }
            }
            for (auto& f : fs) f.join();
            Quiet q; if (done != goal) fail("lost-fiber", "%ld of %ld fibers ended", done, goal); std::vector<bf::fiber>().swap(fs);
        }
        end.wait();
    };
    std::vector<std::thread> ts; { Quiet q; ts.reserve(4); }
    for (int t = 0; t < threads; ++t) ts.emplace_back([&, t] { body(t); });
    for (auto& t : ts) t.join();
    Quiet q; std::vector<std::thread>().swap(ts);
}
#endif
