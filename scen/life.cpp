// C18 failing allocations and throwing user types: the exception reaches the caller, the object
// stays usable, nothing is leaked, lost or half-constructed.
#include "common.h"
#include <deque>
extern "C" int sim_mappings();

namespace {

struct Boom { int x = 1; };
struct Bomb {                                   // user type whose copies and moves are fault points
    static bool armed[sim::MAXT];
    Tok t; unsigned fuse;                       // bit k: the k-th transfer from here may throw
    static void boom(unsigned fuse) { if (((fuse & 1) || armed[sim::tid()]) && sim::fault(sim::F_THROW)) { armed[sim::tid()] = false; sim::alloc_faults(false); sim::logf("user type throws"); throw Boom(); } }
    Bomb() : t(), fuse(0) {}
    explicit Bomb(long v, unsigned f = 0) : t(v), fuse(f) {}
    Bomb(Bomb const& o) : t((boom(o.fuse), o.t)), fuse(o.fuse >> 1) {}
    Bomb(Bomb&& o) : t((boom(o.fuse), std::move(o.t))), fuse(o.fuse >> 1) {}
    Bomb& operator=(Bomb const& o) { boom(o.fuse); t = o.t; fuse = o.fuse >> 1; return *this; }
    Bomb& operator=(Bomb&& o) { boom(o.fuse); t = std::move(o.t); fuse = o.fuse >> 1; return *this; }
    long get() const { return t.get(); }
};
bool Bomb::armed[sim::MAXT];
void disarm() { sim::alloc_faults(false); Bomb::armed[sim::tid()] = false; }

// one operation; one allocation or one copy/move inside may fail.  Returns whether it succeeded.
template<class F> bool att(int n, bool user, F f) {
    bool faulty = n < 3, ok = true;
    if (faulty) { sim::alloc_faults(true); Bomb::armed[sim::tid()] = user; }
    try { f(); }
    catch (std::bad_alloc const&) { ok = false; probe("bad_alloc reached the caller"); }
    catch (Boom const&) { ok = false; probe("user exception reached the caller"); }
    disarm();
    if (!ok && !faulty) fail("failed-without-fault", "an operation throws although nothing was made to fail");
    sim::logf("attempt %d: %s", n, ok ? "ok" : "failed");
    return ok;
}
template<class F> void until_ok(bool user, F f) { for (int n = 0; !att(n, user, f); ++n) ; }

struct Rec { int runs = 0; long sum = 0; };
struct Fn { Rec* r; Bomb b; int g; void operator()(Bomb a, std::unique_ptr<Tok> u) { disarm(); r->runs++; r->sum += b.get() + a.get() + (u ? u->get() : 0); gap(g); } };
template<class R> struct Fn1 { Rec* r; Bomb b; int g; R operator()(Bomb const& a) { disarm(); r->runs++; r->sum += b.get() + a.get(); gap(g); return static_cast<R>(r->sum); } };
template<class R> long value(bf::future<R>& f, Rec&) { return f.get(); }
inline long value(bf::future<void>& f, Rec& r) { f.get(); return r.sum; }

struct Op { int kind, a, b, c, g, d; };
enum { P_FIBER, P_PROMISE, P_TASK, P_ASYNC, P_BCHAN, P_FSS, P_UCHAN, P_SHARED, P_N };

void op_fiber(Op const& o) {
    Rec r; Fn fn{ &r, Bomb(5), o.g }; bool disp = o.b & 1; bf::launch pol = disp ? bf::launch::dispatch : bf::launch::post; bool user = !disp;
    bf::fiber f; std::unique_ptr<bf::pooled_fixedsize_stack> pool;
    if (o.a == 4 || o.a == 2) pool.reset(new bf::pooled_fixedsize_stack(64 * 1024, 2));   // its constructor (boost.context) is noexcept
    until_ok(user, [&] {
        { Quiet q; if (r.runs) fail("half-done", "the function of a fiber whose construction failed was run"); if (f.joinable()) fail("half-done", "fiber joinable after its construction failed"); }
        switch (o.a) {
        case 0: f = bf::fiber(pol, fn, Bomb(6), nullptr); break;
        case 1: f = bf::fiber(pol, std::allocator_arg, bf::fixedsize_stack(64 * 1024), fn, Bomb(6), nullptr); break;
        case 2: f = bf::fiber(pol, std::allocator_arg, bf::pooled_fixedsize_stack(*pool), fn, Bomb(6), nullptr); break;
        case 3: f = bf::fiber(pol, std::allocator_arg, bf::protected_fixedsize_stack(64 * 1024), fn, Bomb(6), std::unique_ptr<Tok>(new Tok(0))); break;
        case 4: f = bf::fiber(pol, std::allocator_arg, *pool, fn, Bomb(6), nullptr); break;
        case 5: f = bf::fiber(fn, Bomb(6), std::unique_ptr<Tok>(new Tok(0))); break;
        }
    });
    gap(o.g);
    if (o.c) f.join(); else { f.detach(); while (!r.runs) boost::this_fiber::yield(); boost::this_fiber::sleep_for(microseconds(60)); }   // the fiber ends before its Rec
    Quiet q; if (r.runs != 1 || r.sum != 11) fail("lost", "fiber ran %d times, sum %ld", r.runs, r.sum);
}
void op_promise(Op const& o) {
    std::unique_ptr<bf::promise<Bomb>> p; bf::future<Bomb> f;
    until_ok(true, [&] { p.reset(new bf::promise<Bomb>()); });
    until_ok(true, [&] { f = p->get_future(); });
    Bomb src(40); long got = 0;
    bf::fiber w([&] { Bomb b = f.get(); got = b.get(); });
    gap(o.g);
    int tries = 0;
    until_ok(true, [&] {
        if (tries++) { Quiet q; if (got) fail("half-done", "set_value() threw but the waiter got %ld", got); }
        if (o.a & 1) p->set_value(src); else p->set_value(Bomb(40));
    });
    if (o.b & 1) p.reset();
    w.join();
    Quiet q; if (got != 40) fail("lost", "the future delivered %ld", got);
}
inline void set_plain(bf::promise<void>& p, long&) { p.set_value(); }
inline void set_plain(bf::promise<long&>& p, long& v) { p.set_value(v); }
// results without a copy: void and references
template<class R> void op_promise_plain(Op const& o) {
    long target = 0; std::unique_ptr<bf::promise<R>> p; bf::future<R> f; Rec r; r.sum = 1;
    until_ok(false, [&] { if (o.b & 1) p.reset(new bf::promise<R>()); else p.reset(new bf::promise<R>(std::allocator_arg, std::allocator<char>())); });
    until_ok(false, [&] { f = p->get_future(); });
    bool broken = o.c == 2, threw = false; long got = 0;
    bf::fiber w([&] { bf::shared_future<R> g; if (o.a & 2) g = f.share(); try { if (o.a & 2) g.get(); else f.get(); got = 1; } catch (bf::broken_promise const&) { got = 2; } catch (Boom const&) { got = 3; } });
    gap(o.g);
    if (!broken) until_ok(false, [&] { if ((threw = o.a & 1)) p->set_exception(std::make_exception_ptr(Boom())); else set_plain(*p, target); });
    p.reset();
    w.join();
    Quiet q; if (got != (broken ? 2 : threw ? 3 : 1)) fail("lost", "the waiter saw %ld", got);
}
void op_shared(Op const& o) {
    bf::promise<Bomb> p; bf::shared_future<Bomb> f = p.get_future().share(); int tries = 0;
    if (o.a & 1) until_ok(true, [&] { p.set_exception(std::make_exception_ptr(Boom())); });
    else until_ok(true, [&] { if (tries++ && f.wait_for(nanoseconds(0)) != bf::future_status::timeout) fail("half-done", "ready after a failed set_value"); p.set_value(Bomb(3)); });
    disarm();
    for (int i = 0; i < 2; ++i) {
        bf::shared_future<Bomb> g = f;
        try { Bomb const& b = g.get(); if (b.get() != 3 || (o.a & 1)) fail("lost", "wrong result"); } catch (Boom const&) { if (!(o.a & 1)) fail("lost", "wrong result"); } catch (std::bad_alloc const&) { if (!(o.a & 1)) fail("lost", "wrong result"); }
    }
}
template<class R> void op_task(Op const& o) {
    Rec r; Fn1<R> fn{ &r, Bomb(5), o.g }; bf::packaged_task<R(Bomb)> t;
    until_ok(true, [&] { if (o.a & 1) t = bf::packaged_task<R(Bomb)>(fn); else t = bf::packaged_task<R(Bomb)>(std::allocator_arg, std::allocator<char>(), Fn1<R>{ &r, Bomb(5), o.g }); });
    for (int round = 0; round < 1 + o.c; ++round) {
        bf::future<R> f = t.get_future(); long before = r.sum;
        if (o.b & 1) {                            // in a fiber of its own
            bf::fiber x; until_ok(false, [&] { x = bf::fiber([&] { t(Bomb(6)); }); }); x.join();
            long v = value(f, r); if (v != before + 11) fail("lost", "task delivered %ld", v);
        } else {
            int calls = r.runs; Bomb arg(6);
            until_ok(true, [&] { { Quiet q; if (r.runs != calls) fail("half-done", "the task was run by a call that threw"); } t(arg); });
            try { long v = value(f, r); if (v != before + 11) fail("lost", "task delivered %ld", v); }
            catch (Boom const&) { probe("task argument threw, exception stored"); if (r.runs != calls) fail("lost", "task ran but delivers its argument's exception"); }
            catch (std::bad_alloc const&) { }
        }
        int n = 0;
        if (round < o.c) until_ok(true, [&] { if (n++ && !t.valid()) fail("half-done", "task empty after a failed reset()"); t.reset(); });
    }
}
template<class R> void op_async(Op const& o) {
    Rec r; Fn1<R> fn{ &r, Bomb(5), o.g }; bf::future<R> f; bool disp = o.b & 1; bf::launch pol = disp ? bf::launch::dispatch : bf::launch::post;
    until_ok(!disp, [&] {
        { Quiet q; if (r.runs) fail("half-done", "the function of a failed async() was run"); if (f.valid()) fail("half-done", "future valid after a failed async()"); }
        switch (o.a % 4) {
        case 0: f = bf::async(fn, Bomb(6)); break;
        case 1: f = bf::async(pol, fn, Bomb(6)); break;
        case 2: f = bf::async(pol, std::allocator_arg, bf::fixedsize_stack(64 * 1024), fn, Bomb(6)); break;
        case 3: f = bf::async(pol, std::allocator_arg, bf::protected_fixedsize_stack(64 * 1024), std::allocator<char>(), fn, Bomb(6)); break;
        }
    });
    gap(o.g);
    long v = value(f, r); boost::this_fiber::sleep_for(microseconds(60));
    Quiet q; if (v != 11 || r.runs != 1) fail("lost", "async delivered %ld, ran %d times", v, r.runs);
}
void op_bchan(Op const& o) {
    std::unique_ptr<bf::buffered_channel<Bomb>> c; std::deque<long> model; size_t cap = o.a & 1 ? 2 : 4;
    until_ok(true, [&] { c.reset(new bf::buffered_channel<Bomb>(cap)); });
    unsigned bits = (unsigned)(o.b * 37 + o.c * 101 + o.g * 7 + 1);
    for (int i = 0; i < 8; ++i, bits = bits * 1103515245u + 12345u) {
        unsigned k = (bits >> 16) % 7; Bomb v(100 + i), out(-5); bf::channel_op_status s = bf::channel_op_status::timeout; int tries = 0;
        if (model.size() == cap - 1 && k < 3) k = 3 + k; else if (model.empty() && k >= 3 && k < 6) k -= 3;
        if (k == 6) { Quiet q; continue; }
        until_ok(k != 5, [&] {                    // value_pop() returns by value: the element is gone if that copy throws
            tries++;
            switch (k) {
            case 0: s = c->push(v); break;
            case 1: s = c->try_push(Bomb(100 + i)); break;
            case 2: s = c->push_wait_for(v, microseconds(10)); break;
            case 3: s = c->pop(out); break;
            case 4: s = c->try_pop(out); break;
            case 5: out.t = c->value_pop().t; s = bf::channel_op_status::success; break;
            }
        });
        if (s != bf::channel_op_status::success) fail("lost", "channel operation %u after %d attempts: status %d", k, tries, (int)s);
        Quiet q;
        if (k < 3) model.push_back(100 + i); else { if (out.get() != model.front()) fail("lost", "popped %ld, expected %ld (after %d attempts)", out.get(), model.front(), tries); model.pop_front(); }
    }
    if (o.g & 1) c->close();
    Quiet q; std::deque<long>().swap(model);
}
void op_uchan(Op const& o) {
    bf::unbuffered_channel<Bomb> c; int sent = 0, recv = 0, threw = 0; long last = 0;
    bf::fiber p([&] { for (int i = 1; i <= 3; ++i) { try { if (c.push(Bomb(i, (unsigned)o.a & 3)) == bf::channel_op_status::success) sent++; } catch (Boom const&) { } } c.close(); });
    bf::fiber k([&] { for (;;) { Bomb b(-1); try { if (o.b & 1) { b.t = c.value_pop().t; } else if (c.pop(b) != bf::channel_op_status::success) break; recv++; if (b.get() <= last) fail("lost", "out of order"); last = b.get(); } catch (Boom const&) { threw++; } catch (bf::fiber_error const&) { break; } } });
    p.join(); k.join();
    Quiet q; if (recv + threw < sent || recv > sent) fail("lost", "%d values sent, %d received, %d receives failed", sent, recv, threw);
}
void op_fss(Op const& o) {
    bool custom = o.a & 1; typedef bf::fiber_specific_ptr<Tok> P; std::unique_ptr<P> p;
    until_ok(false, [&] { p.reset(custom ? new P([](Tok* t) { delete t; }) : new P()); });
    bf::fiber f; until_ok(false, [&] { f = bf::fiber([&] {
        Tok* last = nullptr;
        for (int i = 0; i < 1 + o.c; ++i) {
            Tok* t; { Quiet q; t = new Tok(i); }
            until_ok(false, [&] { Quiet* n = nullptr; (void)n; if (p->get() != last) fail("half-done", "fiber_specific_ptr changed by a failed reset()"); p->reset(t); });
            if (p->get() != t || p->get()->get() != i) fail("lost", "stored pointer lost"); last = t;
            gap(o.g);
        }
    }); });
    f.join();
}

struct Prog { std::vector<Op> ops; };
void run_ops(std::vector<Op> const& ops) {
    for (auto& o : ops) {
        sim::logf("op %d (%d %d %d)", o.kind, o.a, o.b, o.c);
        switch (o.kind) {
        case P_FIBER: op_fiber(o); break; case P_PROMISE: o.d == 1 ? op_promise_plain<void>(o) : o.d == 2 ? op_promise_plain<long&>(o) : op_promise(o); break; case P_TASK: o.d == 1 ? op_task<void>(o) : o.d == 2 ? op_task<long&>(o) : op_task<long>(o); break;
        case P_ASYNC: o.d == 1 ? op_async<void>(o) : o.d == 2 ? op_async<long&>(o) : op_async<long>(o); break;
        case P_BCHAN: op_bchan(o); break; case P_FSS: op_fss(o); break; case P_UCHAN: op_uchan(o); break; case P_SHARED: op_shared(o); break;
        }
    }
}
void draw_ops(std::vector<Op>& v, int n) { Quiet q; for (int i = 0; i < n; ++i) { Op o; o.kind = (int)choose(P_N); o.a = (int)choose(6); o.b = (int)choose(2); o.c = (int)choose(3); o.g = (int)choose(GAPS); o.d = (int)choose(3); v.push_back(o); } }

void life_begin() { tok_reset(); for (bool& b : Bomb::armed) b = false; sim::leak_check(true); }
void faults_life() { sim::enable_fault(sim::F_ALLOC, 0.3); sim::enable_fault(sim::F_MMAP, 0.5); sim::enable_fault(sim::F_THROW, 0.3); sim::set_budget(60000, 400000); }

}

SIM_SCENARIO(life_ops, 4, "constructors and operations with one failing allocation or throwing copy each") {
    life_begin(); faults_life(); int maps = sim_mappings();
    { int threads = 1 + (int)choose(2); std::vector<Prog> pr; { Quiet q; pr.resize((size_t)threads); for (auto& p : pr) draw_ops(p.ops, 1 + (int)choose(4)); }
      bool child = choose(2);
      std::vector<std::thread> ts; { Quiet q; ts.reserve(4); }
      for (int i = 0; i < threads; ++i) ts.emplace_back([&pr, i, child] { boost::this_fiber::yield(); if (child) { bf::fiber f([&pr, i] { run_ops(pr[i].ops); }); f.join(); } else run_ops(pr[i].ops); });
      for (auto& t : ts) t.join();
      Quiet q; std::vector<std::thread>().swap(ts); std::vector<Prog>().swap(pr); }
    tok_done();
    if (sim_mappings() != maps) fail("leak", "%d stacks still mapped", sim_mappings() - maps);
}

// channels whose elements throw while others are blocked on them
template<class C> void chan_throw(C* c, bool buffered) {
    int np = 1 + (int)choose(3), nc = 1 + (int)choose(2), per = 1 + (int)choose(3); bool giveup = choose(2);
    std::vector<std::vector<long>> sent; std::vector<long> got; int threw = 0, open = np; bool timed = choose(2), by_value = false;
    { Fleet fl; Shape sh = draw_shape(3, 5, np + nc); fl.th.resize(sh.threads);
    {
        Quiet q; sent.resize((size_t)np); got.reserve(32); int k = 0;
        std::vector<int> perm = draw_perm(np + nc);
        for (int idx : perm) {
            unsigned fz = choose(4); int g = (int)choose(GAPS); int how = (int)choose(4);
            FiberProg fp; fp.pol = draw_policy(); fp.stack = 0; if (idx >= np && how == 0) by_value = true;
            if (idx < np) fp.fn = [&, idx, fz, g, how] {
                gap(g);
                for (int i = 0; i < per; ++i) {
                    long v = 100 * (idx + 1) + i; bool tried = false;
                    for (;;) {
                        try {
                            Bomb b(v, tried ? fz & 2 : fz); bf::channel_op_status s;
                            switch (how) { case 0: s = c->push(b); break; case 1: s = c->push(Bomb(v, tried ? fz & 2 : fz)); break; case 2: s = c->push_wait_for(b, std::chrono::hours(1)); break; default: s = c->push_wait_for(Bomb(v, tried ? fz & 2 : fz), std::chrono::hours(1)); }
                            if (s != bf::channel_op_status::success) fail("lost", "push of %ld: status %d", v, (int)s);
                            Quiet q; sent[idx].push_back(v); break;
                        } catch (Boom const&) { probe("push threw"); sim::logf("push of %ld threw", v); if (giveup) break; tried = true; }
                    }
                }
                bool last; { Quiet q; last = !--open; } if (last) c->close();
            };
            else fp.fn = [&, g, how] {
                gap(g);
                for (;;) {
                    Bomb b(-1);
                    try {
                        if (how == 0) { b.t = c->value_pop().t; } else if ((how == 1 && timed ? c->pop_wait_for(b, std::chrono::hours(1)) : c->pop(b)) != bf::channel_op_status::success) break;
                        Quiet q; got.push_back(b.get());
                    } catch (Boom const&) { probe("pop threw"); sim::logf("pop threw"); Quiet q; threw++; }
                    catch (bf::fiber_error const&) { break; }
                }
            };
            fl.th[k++ % sh.threads].fibers.push_back(fp);
        }
    }
    fl.run();
    Quiet q; std::vector<Fleet::Th>().swap(fl.th); }
    Quiet q; size_t ns = 0; for (auto& s : sent) ns += s.size();
    for (auto& s : sent) for (long v : s) { int n = 0; for (long x : got) n += x == v; if (n > 1 || (buffered && !by_value && n != 1)) fail("lost", "value %ld was received %d times", v, n); }
    if (got.size() > ns || got.size() + (size_t)threw < ns) fail("lost", "%zu values sent, %zu received, %d receives failed", ns, got.size(), threw);
    sent.clear(); sent.shrink_to_fit(); std::vector<long>().swap(got);
}
SIM_SCENARIO(life_chan, 2, "channel elements that throw while other fibers are blocked on the channel") {
    life_begin(); sim::enable_fault(sim::F_THROW, 0.5); sim::enable_fault(sim::F_CLOCKJUMP, 0);
    sim::set_budget(60000, 400000);
    if (choose(2)) { bf::buffered_channel<Bomb>* c; { Quiet q; c = new bf::buffered_channel<Bomb>(choose(2) ? 2 : 4); } chan_throw(c, true); Quiet q; delete c; }
    else { bf::unbuffered_channel<Bomb>* c; { Quiet q; c = new bf::unbuffered_channel<Bomb>(); } chan_throw(c, false); Quiet q; delete c; }
    tok_done();
}
