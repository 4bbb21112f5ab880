// C20 the internal locks and the stealable queues themselves, whatever the configuration.
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <random>
#include <set>
#include <string>
#include <thread>
#include <tuple>
#include <vector>
#include <boost/intrusive_ptr.hpp>
#include <boost/intrusive/list.hpp>
#include <boost/intrusive/set.hpp>
#include <boost/intrusive/slist.hpp>
#include <boost/intrusive/parent_from_member.hpp>
#include <boost/context/fiber.hpp>
#include <boost/context/stack_context.hpp>
#include <boost/context/detail/apply.hpp>
#include <boost/smart_ptr/detail/yield_k.hpp>
#define private public          // the scenario makes contexts of its own to put into the queues
#include <boost/fiber/context.hpp>
#undef private
#include "common.h"
#include <boost/fiber/detail/spinlock.hpp>
#include <boost/fiber/detail/spinlock_ttas.hpp>
#include <boost/fiber/detail/spinlock_ttas_adaptive.hpp>
#include <boost/fiber/detail/spinlock_ttas_futex.hpp>
#include <boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp>
#include <boost/fiber/detail/context_spinlock_queue.hpp>
#include <boost/fiber/detail/context_spmc_queue.hpp>

namespace {
template<typename L> struct Guarded { L lk; sim::UData d; int owner = -1; long n = 0; Guarded() : d(0) {} };

template<typename L> void lock_body() {
    faults_basic(); faults_clock(); sim::track_races(true); sim::weak_memory(true); sim::enable_fault(sim::F_STALE, 0.1); sim::set_budget(60000, 200000);
    int nt = 2 + (int)choose(3), nl = 1 + (int)choose(2); long want[2] = {0, 0};
    Guarded<L> g[2]; struct Step { int l; bool tr; int in, out; }; std::vector<std::vector<Step>> prog(nt);
    {
        Quiet q;
        for (auto& p : prog) { int n = 1 + (int)choose(4); for (int i = 0; i < n; ++i) { Step s; s.l = (int)choose(nl); s.tr = choose(4) == 3; s.in = choose(4) == 3 ? 60 + (int)choose(200) : (int)choose(4); s.out = (int)choose(3); p.push_back(s); } }
    }
    auto fn = [&](int me) {
        for (auto& s : prog[me]) {
            Guarded<L>& x = g[s.l];
            if (s.tr) { if (!x.lk.try_lock()) continue; probe("try_lock of a spinlock succeeded"); }
            else x.lk.lock();
            { Quiet q; if (x.owner != -1) fail("mutual-exclusion", "thread %d got the lock that thread %d holds", me, x.owner); x.owner = me; }
            long v = x.d.get("data under a spinlock"); { Quiet q; if (v != x.n) fail("data-race", "stale data under a spinlock"); }
            for (int i = 0; i < s.in; ++i) sim::sync_point();
            x.d.set(v + 1, "data under a spinlock");
            { Quiet q; x.n++; want[s.l]++; x.owner = -1; }
            x.lk.unlock();
            for (int i = 0; i < s.out; ++i) sim::sync_point();
        }
    };
    std::vector<std::thread> ts; { Quiet q; ts.reserve(nt); }
    for (int i = 0; i < nt; ++i) ts.emplace_back(fn, i);
    for (auto& t : ts) t.join();
    for (int i = 0; i < nl; ++i) { if (!g[i].lk.try_lock()) fail("stuck-lock", "a free spinlock refuses try_lock"); if (g[i].d.get("data under a spinlock") != want[i]) fail("mutual-exclusion", "lost update"); g[i].lk.unlock(); }
    Quiet q; std::vector<std::thread>().swap(ts);
}

struct FakeCtx : bf::context { int no; FakeCtx(int n, bool pinned) : context(0, pinned ? bf::type::main_context : bf::type::worker_context, bf::launch::post), no(n) {} };

template<typename Q> void queue_body() {
    faults_basic(); sim::track_races(true); sim::weak_memory(true); sim::enable_fault(sim::F_STALE, 0.1); sim::set_budget(60000, 200000);
    int cap = 2 + (int)choose(4), thieves = (int)choose(4); bool del = choose(2), destroy_all = choose(2);
    struct Op { int k, n, g; }; std::vector<Op> ops; std::vector<std::vector<int>> tops(thieves); int total = 0; std::vector<char> pin;
    {
        Quiet q; int n = 1 + (int)choose(8);
        for (int i = 0; i < n; ++i) { Op o; o.k = (int)choose(3); o.n = 1 + (int)choose(o.k == 0 ? 6 : 4); o.g = (int)choose(4); if (o.k == 0) total += o.n; ops.push_back(o); }
        int pins = (int)choose(3); for (int i = 0; i < total; ++i) pin.push_back(pins && choose(6) >= 6u - pins);
        for (auto& t : tops) { int n = 1 + (int)choose(6); for (int i = 0; i < n; ++i) t.push_back((int)choose(5)); }
    }
    std::vector<int> out(total, 0); std::vector<std::unique_ptr<sim::UData>> data; { Quiet q; for (int i = 0; i < total; ++i) data.emplace_back(new sim::UData(-1)); }
    std::atomic<bool> stop{false}; int pushed = 0, removed = 0;
    {
        Q qu((std::size_t)cap);
        auto take = [&](bf::context* c, int who, int& last) {
            FakeCtx* f = static_cast<FakeCtx*>(c); int id = f->no;
            { Quiet q;
              if (id < 0 || id >= pushed) fail("lost-or-duplicated", "the queue returned a context that was never pushed (%d)", id);
              if (out[id]++) fail("lost-or-duplicated", "context %d left the queue twice", id);
              removed++;
              if (who && pin[id]) fail("stole-pinned", "pinned context %d was stolen", id);
              if (id < last) fail("order", "%s %d got context %d after %d", who ? "thief" : "owner", who, id, last);
              last = id; }
            if (data[id]->get("context handed through the queue") != id * 7) fail("data-race", "stale context data");
            if (del) delete f; // the fiber ran to its end on the thread that got it
        };
        std::vector<FakeCtx*> kept; { Quiet q; kept.reserve(total); }
        auto thief = [&](int me) { int last = -1; for (int g : tops[me]) { for (int i = 0; i < g * 2; ++i) sim::sync_point(); if (auto* c = qu.steal()) { probe("stolen"); take(c, me + 1, last); } else probe("steal refused"); qu.empty(); } };
        std::vector<std::thread> ts; { Quiet q; ts.reserve(4); }
        int at = (int)choose((unsigned)ops.size() + 1), last = -1;
        auto start = [&] { for (int i = 0; i < thieves; ++i) ts.emplace_back(thief, i); };
        for (size_t k = 0; k < ops.size(); ++k) {
            if ((int)k == at) start();
            Op& o = ops[k];
            for (int i = 0; i < o.g; ++i) sim::sync_point();
            for (int i = 0; i < o.n; ++i) {
                if (o.k == 0) {
                    FakeCtx* f = new FakeCtx(pushed, pin[pushed]); { Quiet q; if (!del) kept.push_back(f); }
                    data[pushed]->set(pushed * 7, "context handed through the queue"); pushed++; qu.push(f);
                } else if (o.k == 1) { if (auto* c = qu.pop()) { probe("popped"); take(c, 0, last); } }
                else if (thieves == 0 || (int)k < at) { bool e = qu.empty(); Quiet q; if (e != (removed == pushed)) fail("empty", "empty() says %d with %d of %d removed", e, removed, pushed); }
            }
        }
        if (at == (int)ops.size()) start();
        int done = 0;
        if (choose(2)) for (auto& t : ts) { t.join(); done++; }
        while (auto* c = qu.pop()) { probe("popped in the end"); take(c, 0, last); }
        if (!done) for (auto& t : ts) t.join();
        while (auto* c = qu.pop()) take(c, 0, last);
        if (!qu.empty()) fail("empty", "a drained queue is not empty");
        // and it must still work
        if (destroy_all) { FakeCtx x(0, false); qu.push(&x); if (qu.empty()) fail("empty", "empty() after push"); if (qu.pop() != &x) fail("lost-or-duplicated", "the drained queue lost a context"); if (qu.pop()) fail("lost-or-duplicated", "a context came twice"); }
        for (auto* f : kept) delete f;
        Quiet q; std::vector<std::thread>().swap(ts);
    }
    Quiet q; for (int i = 0; i < total; ++i) if (i < pushed && out[i] != 1) fail("lost-or-duplicated", "context %d left the queue %d times", i, out[i]);
}
}

SIM_SCENARIO(lk_ttas, 1, "spinlock_ttas") { lock_body<bf::detail::spinlock_ttas>(); }
SIM_SCENARIO(lk_adaptive, 1, "spinlock_ttas_adaptive") { lock_body<bf::detail::spinlock_ttas_adaptive>(); }
SIM_SCENARIO(lk_futex, 1, "spinlock_ttas_futex") { lock_body<bf::detail::spinlock_ttas_futex>(); }
SIM_SCENARIO(lk_adaptive_futex, 1, "spinlock_ttas_adaptive_futex") { lock_body<bf::detail::spinlock_ttas_adaptive_futex>(); }
SIM_SCENARIO(lk_configured, 1, "the configured spinlock") { lock_body<bf::detail::spinlock>(); }
SIM_SCENARIO(q_spinlock, 2, "context_spinlock_queue") { queue_body<bf::detail::context_spinlock_queue>(); }
SIM_SCENARIO(q_spmc, 2, "context_spmc_queue") { queue_body<bf::detail::context_spmc_queue>(); }
