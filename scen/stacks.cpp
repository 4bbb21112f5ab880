// C26 stack allocators: every fiber, and the dispatcher of a thread set up by initialize_thread(),
// runs on a stack from the allocator it is given, which gets that stack back exactly once.
#ifndef WITH_NUMA
#define WITH_NUMA
#endif
#include "common.h"
#include <stdexcept>

namespace {
struct StkRec { int id = 0, allocs = 0, frees = 0, objs = 0, running = 0, ran = 0, on_stack = 0, off_stack = 0; char *lo = nullptr, *hi = nullptr; size_t size = 0; bool refuse = false, dropped = false; };   // dropped: no handle refers to the fiber
struct Refused : std::bad_alloc {};
std::vector<StkRec*>* g_live;                    // stacks handed out and not returned
struct CountingStack {
    StkRec* r; size_t size; Tok t;
    CountingStack(StkRec* r_, size_t s) : r(r_), size(s), t(7) { Quiet q; r->objs++; }
    CountingStack(CountingStack const& o) : r(o.r), size(o.size), t(o.t) { Quiet q; r->objs++; }
    CountingStack(CountingStack&& o) : r(o.r), size(o.size), t(std::move(o.t)) { Quiet q; r->objs++; }
    ~CountingStack() { Quiet q; r->objs--; }
    boost::context::stack_context allocate() {
        if (r->refuse) throw Refused();
        bf::fixedsize_stack s(size); boost::context::stack_context c = s.allocate();
        Quiet q; r->allocs++; r->hi = (char*)c.sp; r->size = c.size; r->lo = r->hi - c.size;
        for (StkRec* o : *g_live) if (r->lo < o->hi && o->lo < r->hi) fail("wrong-stack", "two live stacks overlap");
        g_live->push_back(r);
        return c;
    }
    void deallocate(boost::context::stack_context& c) {
        { Quiet q; r->frees++; if (t.get() != 7) fail("wrong-stack", "the stack allocator's state was lost"); if ((char*)c.sp != r->hi || c.size != r->size) fail("wrong-stack", "another stack was returned to the allocator than it handed out");
          if (r->running) fail("early-release", "the stack of fiber %d is released while its function runs", r->id);
          for (size_t i = 0; i < g_live->size(); ++i) if ((*g_live)[i] == r) { g_live->erase(g_live->begin() + (long)i); break; } }
        bf::fixedsize_stack s(size); s.deallocate(c);
    }
};
void stk_begin(bool leak = true) { tok_reset(); sim::leak_check(leak); Quiet q; g_live = new std::vector<StkRec*>(); }
void stk_end() { Quiet q; if (!g_live->empty()) fail("leak", "%zu stacks were not returned", g_live->size()); delete g_live; g_live = nullptr; tok_done(); }
void on(StkRec* r, char const* what) { Quiet q; char* p = (char*)__builtin_frame_address(0); if (p < r->lo || p >= r->hi) fail("wrong-stack", "%s does not run on the stack from its allocator", what); }
}

// fibers, async() calls and children of fibers on counting stacks
namespace {
struct Body { StkRec* r; int g, n; Tok t; Tok* arg_gone;
    long operator()(Tok const& a) { 
        { Quiet q; r->running = 1; }
        on(r, "a fiber");
        alignas(64) volatile char buf[64]; buf[0] = 1; { Quiet q; if ((uintptr_t)&buf % 64) fail("wrong-stack", "misaligned frame"); }
        for (int i = 0; i < n; ++i) { gap(g); on(r, "a fiber"); }
        { Quiet q; r->running = 0; r->ran++; }
        return t.get() + a.get();
    }
};
enum { S_FIBER, S_FIBER_REF, S_DETACH, S_ASYNC, S_ASYNC_ALLOC, S_REFUSE, S_NEST, S_N };
struct StkOp { int kind, g, n, pol; size_t size; StkRec r, r2; int late; };
void counts(StkOp& o, StkRec& r, bool gone) {
    Quiet q; (void)o;
    if (r.ran != 1) fail("lost", "the function of fiber %d ran %d times", r.id, r.ran);
    if (r.allocs != 1) fail("wrong-stack", "%d stacks were allocated for fiber %d", r.allocs, r.id);
    if (r.frees > 1) fail("wrong-stack", "the stack of fiber %d was returned %d times", r.id, r.frees);
    if (gone && (r.frees != 1 || r.objs)) fail("leak", "the stack of fiber %d was returned %d times, %d allocators are alive", r.id, r.frees, r.objs);
}
// the thread is about to sleep: nothing of a fiber that has ended and has no handle may still be held
struct Watch final : bf::algo::round_robin {
    std::vector<StkOp>* ops; explicit Watch(std::vector<StkOp>* o) : ops(o) {}
    static void look(StkRec& r) { if (r.ran && r.dropped && (r.frees != 1 || r.objs)) fail("late-release", "the stack of fiber %d, which has ended, is still held while its thread goes to sleep", r.id); }
    void suspend_until(SC::time_point const& tp) noexcept override { { Quiet q; for (auto& o : *ops) { look(o.r); if (o.kind == S_NEST) look(o.r2); } probe("a thread went to sleep"); } bf::algo::round_robin::suspend_until(tp); }
};
void run_one(StkOp& o, bf::fiber* keep, bool stays) {
    bf::launch pol = o.pol ? bf::launch::dispatch : bf::launch::post; Tok gone(0);
    sim::logf("fiber %d kind %d", o.r.id, o.kind);
    switch (o.kind) {
    case S_FIBER: case S_DETACH: {
        bf::fiber f(pol, std::allocator_arg, CountingStack(&o.r, o.size), Body{ &o.r, o.g, o.n, Tok(5), nullptr }, Tok(6));
        if (o.kind == S_DETACH) { f.detach(); { Quiet q; o.r.dropped = true; if (f.joinable()) fail("joinable", "joinable after detach()"); } for (;;) { { Quiet q; if (o.r.ran) break; } boost::this_fiber::sleep_for(microseconds(5)); } }
        else if (o.late && keep) { *keep = std::move(f); return; } else f.join();
        break; }
    case S_FIBER_REF: {                          // an lvalue allocator is copied, the original stays the caller's
        CountingStack sa(&o.r, o.size);
        bf::fiber f(std::allocator_arg, sa, Body{ &o.r, o.g, o.n, Tok(5), nullptr }, Tok(6));
        f.join(); if (sa.t.get() != 7) fail("altered-value", "the caller's allocator was moved from");
        break; }
    case S_ASYNC: { bf::future<long> f = bf::async(pol, std::allocator_arg, CountingStack(&o.r, o.size), Body{ &o.r, o.g, o.n, Tok(5), nullptr }, Tok(6)); if (f.get() != 11) fail("lost", "wrong result"); break; }
    case S_ASYNC_ALLOC: { bf::future<long> f = bf::async(pol, std::allocator_arg, CountingStack(&o.r, o.size), std::allocator<char>(), Body{ &o.r, o.g, o.n, Tok(5), nullptr }, Tok(6)); if (f.get() != 11) fail("lost", "wrong result"); break; }
    case S_REFUSE: {
        o.r2.refuse = true; bool threw = false;
        try { bf::fiber f(pol, std::allocator_arg, CountingStack(&o.r2, o.size), Body{ &o.r2, o.g, o.n, Tok(5), nullptr }, Tok(6)); if (f.joinable()) f.join(); } catch (Refused const&) { threw = true; }
        { Quiet q; if (!threw) fail("lost", "the exception of the stack allocator did not reach the caller"); if (o.r2.frees || o.r2.ran) fail("half-done", "a fiber without a stack"); if (o.r2.objs) fail("leak", "the refusing allocator is still alive"); }
        bf::fiber f(pol, std::allocator_arg, CountingStack(&o.r, o.size), Body{ &o.r, o.g, o.n, Tok(5), nullptr }, Tok(6)); f.join();
        break; }
    case S_NEST: {
        Body inner{ &o.r2, o.g, o.n, Tok(5), nullptr };
        bf::fiber f(pol, std::allocator_arg, CountingStack(&o.r, o.size), [&o, pol, &inner] {
            { Quiet q; o.r.running = 1; } on(&o.r, "a fiber");
            bf::fiber c(pol, std::allocator_arg, CountingStack(&o.r2, o.size), inner, Tok(6)); on(&o.r, "a fiber"); c.join(); on(&o.r, "a fiber");
            Quiet q; o.r2.dropped = true; o.r.running = 0; o.r.ran++; });
        f.join(); counts(o, o.r2, false);
        break; }
    }
    { Quiet q; o.r.dropped = true; }
    counts(o, o.r, false);
    if (stays && o.late) {                       // an idle thread has given all stacks back
        for (int i = 0; i < 4; ++i) boost::this_fiber::sleep_for(microseconds(10));
        Quiet q; if (o.r.frees != 1 || o.r.objs || (o.kind == S_NEST && (o.r2.frees != 1 || o.r2.objs))) fail("late-release", "the stack of fiber %d is still held although its function has ended and the thread went idle since", o.r.id);
    }
}
}
SIM_SCENARIO(stk_fibers, 3, "fibers and async() on stacks of a counting allocator, under every scheduler") {
    static const int al[] = { A_DEFAULT, A_DEFAULT, A_ROUND_ROBIN, A_SHARED, A_SHARED_SUSPEND, A_STEAL, A_STEAL_SUSPEND, A_NUMA_SUSPEND };
    int algo = al[choose(8)]; stk_begin(algo < A_STEAL); faults_basic();      // work_stealing keeps its schedulers in a static table
    { int threads = 1 + (int)choose(2); Fleet fl; fl.algo = algo; bool stays = !Fleet::migrating(algo); fl.th.resize((size_t)threads); std::vector<std::vector<StkOp>> ops;
      { Quiet q; ops.resize((size_t)threads); int id = 0;
        for (int t = 0; t < threads; ++t) {
            int n = 1 + (int)choose(4); ops[t].resize((size_t)n);
            for (auto& o : ops[t]) { o.kind = (int)choose(S_N); o.g = (int)choose(GAPS); o.n = (int)choose(4); o.pol = (int)choose(2); o.size = choose(2) ? 64 * 1024 : 96 * 1024; o.late = (int)choose(2); o.r.id = ++id; o.r2.id = 100 + id; }
            fl.th[t].main_fn = [&ops, t, stays] {
                std::vector<bf::fiber> kept; { Quiet q; kept.resize(ops[t].size()); }
                for (size_t i = 0; i < ops[t].size(); ++i) run_one(ops[t][i], &kept[i], stays);
                for (size_t i = 0; i < kept.size(); ++i) if (kept[i].joinable()) { kept[i].join(); { Quiet q; ops[t][i].r.dropped = true; } if (stays) boost::this_fiber::sleep_for(microseconds(10)); }
                Quiet q; std::vector<bf::fiber>().swap(kept);
            };
        } }
      if (algo == A_DEFAULT && choose(2)) fl.thread_init = [&ops](int t) { bf::use_scheduling_algorithm<Watch>(&ops[t]); };
      fl.run(); { Quiet q; fl.thread_init = nullptr; }
      Quiet q; for (auto& v : ops) for (auto& o : v) { counts(o, o.r, true); if (o.kind == S_NEST) counts(o, o.r2, true); }
      std::vector<std::vector<StkOp>>().swap(ops); std::vector<Fleet::Th>().swap(fl.th); }
    stk_end();
}

// initialize_thread(): the dispatcher runs on a stack from the allocator it is given, which is used
// once, returned once and destroyed; a second call only replaces the scheduling algorithm
namespace {
template<class Base> struct OnStack : Base {     // suspend_until() is called by the dispatcher
    StkRec* r; int* live; int* used;
    OnStack(StkRec* r_, int* l, int* u) : r(r_), live(l), used(u) { Quiet q; ++*live; }
    ~OnStack() { Quiet q; --*live; }
    void suspend_until(std::chrono::steady_clock::time_point const& tp) noexcept override {
        { Quiet q; char here = 0; char* p = (char*)__builtin_frame_address(0); (void)here; (p >= r->lo && p < r->hi ? r->on_stack : r->off_stack)++; }
        Base::suspend_until(tp);
    }
    bf::context* pick_next() noexcept override { bf::context* c = Base::pick_next(); if (c) { Quiet q; ++*used; } return c; }
};
struct InitTh { int order, again, work, algo, g; size_t size; StkRec r[2]; int live[3] = {}, used[3] = {}; bool res[2] = {}; };
bf::algo::algorithm::ptr_t mk_algo(InitTh& t, int k) {
    if (t.algo) return new OnStack<bf::algo::shared_work>(&t.r[0], &t.live[k], &t.used[k]);
    return new OnStack<bf::algo::round_robin>(&t.r[0], &t.live[k], &t.used[k]);
}
void init_work(InitTh& t) {
    int runs = 0, n = 1 + t.work;
    std::vector<bf::fiber> fs; { Quiet q; fs.reserve(8); }
    for (int i = 0; i < n; ++i) fs.emplace_back(i & 1 ? bf::launch::dispatch : bf::launch::post, [&runs, i, &t] { if (i & 1) boost::this_fiber::sleep_for(microseconds(20 + i)); gap(t.g); { Quiet q; runs++; } });
    for (auto& f : fs) f.join();
    Quiet q; if (runs != n) fail("lost", "%d of %d fibers ran", runs, n);
    std::vector<bf::fiber>().swap(fs);
}
void init_thread(InitTh& t) {
    auto init = [&t](int k) {
        { auto sa = bf::make_stack_allocator_wrapper<CountingStack>(&t.r[k], t.size); t.res[k] = bf::initialize_thread(mk_algo(t, k), std::move(sa)); }
        Quiet q; sim::logf("initialize_thread #%d: %d", k, (int)t.res[k]);
    };
    if (t.order == 1) boost::this_fiber::yield();          // the thread is already initialised
    init(0);
    bool first = t.order == 0;
    { Quiet q; if (t.res[0] != first) fail("wrong-result", "initialize_thread() returned %d on %s thread", (int)t.res[0], first ? "a fresh" : "an initialised");
      if (t.r[0].allocs != (first ? 1 : 0)) fail("wrong-stack", "the given allocator was used %d times on %s thread", t.r[0].allocs, first ? "a fresh" : "an initialised");
      if (t.live[0] != 1) fail("lost", "the given algorithm is %s", t.live[0] ? "duplicated" : "destroyed"); }
    init_work(t);
    boost::this_fiber::sleep_for(microseconds(30));
    { Quiet q; if (!t.used[0]) fail("lost", "the given algorithm was never asked for a fiber"); }
    if (t.again) {
        if (t.again == 1) init(1); else bf::use_scheduling_algorithm<OnStack<bf::algo::round_robin>>(&t.r[0], &t.live[1], &t.used[1]);
        { Quiet q; if (t.res[1]) fail("wrong-result", "a second initialize_thread() returned true"); if (t.r[1].allocs) fail("wrong-stack", "a second initialize_thread() allocated a stack");
          if (t.live[1] != 1) fail("lost", "the second algorithm is not in use"); }
        init_work(t); boost::this_fiber::sleep_for(microseconds(30));
        Quiet q; if (!t.used[1]) fail("lost", "the second algorithm was never asked for a fiber"); if (t.live[0]) fail("leak", "the replaced algorithm is still there");
    }
    Quiet q;
    if (first && t.r[0].off_stack) fail("wrong-stack", "the dispatcher does not run on the stack from the given allocator");
    if (first && t.r[0].on_stack) probe("dispatcher ran on the given stack");
    if (t.r[0].frees || t.r[1].frees) fail("wrong-stack", "the dispatcher's stack was released before the thread ended");
}
}
SIM_SCENARIO(stk_init, 1, "initialize_thread() with a counting stack allocator, first or late, once or twice") {
    stk_begin();
    { int n = 1 + (int)choose(2); std::vector<InitTh> its; { Quiet q; its.resize((size_t)n); for (auto& t : its) { t.order = (int)choose(2); t.again = (int)choose(3); t.work = (int)choose(4); t.algo = n == 1 ? (int)choose(2) : 0; t.g = (int)choose(GAPS); t.size = choose(2) ? 64 * 1024 : 128 * 1024; } }
      std::vector<std::thread> ts; { Quiet q; ts.reserve(4); }
      for (auto& t : its) ts.emplace_back([&t] { init_thread(t); });
      for (auto& t : ts) t.join();
      Quiet q;
      for (auto& t : its) for (int k = 0; k < 2; ++k) {
          if (t.r[k].allocs != t.r[k].frees) fail("leak", "%d stacks allocated, %d returned", t.r[k].allocs, t.r[k].frees);
          if (t.r[k].objs) fail("leak", "%d stack allocators alive after their thread ended", t.r[k].objs);
          if (t.live[k]) fail("leak", "a scheduling algorithm is alive after its thread ended");
      }
      std::vector<std::thread>().swap(ts); std::vector<InitTh>().swap(its); }
    stk_end();
}
