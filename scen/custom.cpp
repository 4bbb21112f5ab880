// C22 an instrumented user scheduler: every call it receives is checked against the documented protocol.
#include "common.h"
#include <condition_variable>
#include <list>
#include <map>
#include <set>

namespace {
struct Cust;
struct Props;
struct Rec {                                  // what the scheduler side knows of a fiber
    Props* props = nullptr; bool ready = false, local = false, ever = false; long awakes = 0, picks = 0; int64_t deadline = -1; long skipped = 0; bool busy = false;
};
struct Slot { std::mutex mtx; std::condition_variable cv; bool flag = false; void set() { std::unique_lock<std::mutex> lk(mtx); flag = true; lk.unlock(); cv.notify_all(); } };
struct Glob {
    std::map<int, std::unique_ptr<Slot>> slots;
    std::map<bf::context*, Rec> rec; std::map<int, Cust*> alg; long props_live = 0, algs_live = 0, created = 0; bool handover = false, pausing = false; int policy = 0;
    std::list<bf::context*> pool; long changes_seen = 0, changes_due = 0; int pauses = 0;
};
Glob* G;
enum { MAGIC = 0x600d };

struct Props : bf::fiber_properties {
    int magic = MAGIC, prio = 0; bool paused = false, supplied; Rec* r = nullptr; long runs = 0;
    explicit Props(bf::context* c) : bf::fiber_properties(c), supplied(c == nullptr) { Quiet q; G->props_live++; if (c) G->created++; }
    ~Props() override {
        Quiet q; if (magic != MAGIC) fail("props-destroyed-twice", "a properties object was destroyed twice");
        magic = 0; G->props_live--;
        if (r) { if (r->ready) fail("destroyed-while-ready", "the properties of a ready fiber were destroyed"); G->rec.erase(ctx_); }
    }
    bf::context* ctx() const { return ctx_; }
    bf::algo::algorithm* algo() const { return algo_; }
    void check(const char* w) { if (magic != MAGIC) { Quiet q; fail("dead-props", "%s: properties object is not alive", w); } }
    void change(int p);                       // prio with notification
    void pause(bool p);
    void tell();
};
struct Other : bf::fiber_properties { explicit Other(bf::context* c) : bf::fiber_properties(c) {} };

struct Cust : bf::algo::algorithm_with_properties<Props> {
    typedef bf::scheduler::ready_queue_type Q;
    int me; bf::context* cur = nullptr; bool null_picked = false; Q q_; Slot* slot; int alive = MAGIC; Props* change_of = nullptr; long change_calls = 0; int64_t slept_until = 0; long since_disp = 0;
    Cust() { Quiet q; me = sim::tid(); G->alg[me] = this; G->algs_live++; auto& s = G->slots[me]; if (!s) s.reset(new Slot); slot = s.get(); }
    ~Cust() override { Quiet q; if (alive != MAGIC) fail("algorithm-destroyed-twice", "scheduler object destroyed twice"); alive = 0; G->algs_live--; if (G->alg[me] == this) G->alg.erase(me);
        for (auto& e : G->rec) if (e.second.ready && e.second.local && e.second.props && e.second.props->algo() == this) fail("abandoned", "the scheduler was destroyed while a fiber was ready on it"); }
    void enter(const char* w, bf::context* arg = nullptr) {
        if (alive != MAGIC) fail("dead-algorithm", "%s called on a destroyed scheduler object", w);
        if (sim::tid() != me) fail("wrong-thread", "%s of the scheduler of thread %d was called on thread %d", w, me, sim::tid());
        bf::context* a = bf::context::active();
        if (!cur) cur = a;                    // first call
        if (a != cur) {
            // a fiber launched with launch::dispatch runs at once and its launcher becomes ready
            auto r = G->rec.find(a);
            bool disp = arg && arg == cur && a->get_policy() == bf::launch::dispatch && a->is_context(bf::type::worker_context) && (r == G->rec.end() || !r->second.ever);
            if (!disp) fail("not-resumed", "%s: the fiber running is not the one the scheduler returned last", w);
            cur = a;
        }
    }
    void awakened(bf::context* c, Props& p) noexcept override {
        {
            Quiet q; enter("awakened", c);
            p.check("awakened"); null_picked = false;
            if (p.ctx() != c) fail("wrong-props", "awakened() got a fiber and the properties of another one");
            if (c->get_properties() != &p) fail("wrong-props", "the fiber's properties are not the ones passed to awakened()");
            if (p.algo() != this) fail("wrong-algorithm", "the properties refer to another scheduler");
            if (c == bf::context::active()) fail("awakened-running", "awakened() for the running fiber");
            Rec& r = G->rec[c];
            if (!r.props) { r.props = &p; p.r = &r; }
            if (r.props != &p) fail("props-replaced", "a fiber's properties object was replaced");
            if (r.ready) fail("awakened-twice", "a fiber became ready twice without having run");
            if (c->sleep_is_linked() || c->terminated_is_linked()) fail("awakened-blocked", "a fiber became ready that is still queued elsewhere");
            r.ready = r.ever = true; r.awakes++; r.skipped = 0;
        }
        bool out = G->handover && !c->is_context(bf::type::pinned_context) && (G->policy & 4 ? (p.prio & 1) : true);
        if (out) {
            { Quiet q; G->rec[c].local = false; }
            c->detach();
            { Quiet q; sim::hb_sync(&G->pool); G->pool.push_back(c); }
            sim::sync_point();
            Slot* l[8]; int n = 0; { Quiet q; for (auto& e : G->slots) if (e.first != me && n < 8) l[n++] = e.second.get(); }
            for (int i = 0; i < n; ++i) l[i]->set();
        } else { { Quiet q; G->rec[c].local = true; } c->ready_link(q_); }
    }
    bf::context* choice() {
        // among the ready ones not withheld; nobody is skipped for ever
        bf::context* best = nullptr; long bs = 0;
        for (auto& c : q_) {
            Rec& r = G->rec[&c]; if (r.props->paused) continue;
            long s = 0; bool d = c.is_context(bf::type::dispatcher_context);
            switch (G->policy & 3) { case 0: s = 0; break; case 1: s = r.awakes & 7; break; case 2: s = r.props->prio; break; case 3: s = (long)((uintptr_t)&c >> 8) % 7 + r.picks % 3; break; }
            if (d) s = -1;
            if (r.skipped > 6) s = 1000 + r.skipped;
            if (!best || s > bs) { best = &c; bs = s; }
        }
        return best;
    }
    bf::context* pick_next() noexcept override {
        bf::context* c; bool attach = false;
        {
            Quiet q; enter("pick_next");
            c = choice();
            if (G->handover && !G->pool.empty() && (!c || c->is_context(bf::type::dispatcher_context) || (++since_disp % 3) == 0)) {
                for (auto i = G->pool.begin(); i != G->pool.end(); ++i) if (!G->rec[*i].props->paused) { c = *i; G->pool.erase(i); attach = true; sim::hb_sync(&G->pool); break; }
            }
            if (!c) { null_picked = true; if (!bf::context::active()->is_context(bf::type::dispatcher_context)) fail("nothing-to-run", "pick_next() called although nothing is ready, by a fiber that cannot wait"); return nullptr; }
            null_picked = false;
            for (auto& x : q_) if (&x != c) G->rec[&x].skipped++;
        }
        if (attach) bf::context::active()->attach(c); else c->ready_unlink();
        Quiet q; Rec& r = G->rec[c];
        if (!r.ready) fail("harness", "picked a fiber that is not ready");
        r.ready = r.local = false; r.picks++; cur = c;
        return c;
    }
    bool has_ready_fibers() const noexcept override { return !q_.empty(); }
    void property_change(bf::context* c, Props& p) noexcept override {
        Quiet q; if (alive != MAGIC || sim::tid() != me) fail("wrong-thread", "property_change on the wrong thread");
        enter("property_change"); p.check("property_change");
        if (p.ctx() != c) fail("wrong-props", "property_change() got a fiber and the properties of another one");
        if (&p != change_of) fail("property-change", "property_change() for a property that did not change");
        if (!G->rec[c].ready) fail("property-change", "property_change() for a fiber that is not ready");
        change_calls++;
    }
    bf::fiber_properties* new_properties(bf::context* c) override {
        { Quiet q; if (c->get_properties()) fail("props-replaced", "new properties requested for a fiber that has some"); }
        return new Props(c);
    }
    void suspend_until(SC::time_point const& tp) noexcept override {
        {
            Quiet q; enter("suspend_until");
            if (!null_picked) fail("suspend-while-ready", "suspend_until() although the scheduler has not reported that nothing is ready");
            if (!bf::context::active()->is_context(bf::type::dispatcher_context)) fail("suspend-while-ready", "suspend_until() called from a fiber");
            int64_t t = tp.time_since_epoch().count();
            for (auto& e : G->rec) if (e.second.deadline >= 0 && !e.second.ready && e.second.busy && e.first->get_scheduler() == bf::context::active()->get_scheduler() && t > e.second.deadline && e.second.deadline > sim::now_ns())
                fail("oversleep", "suspend_until(%lld) although a fiber sleeps until %lld", (long long)t, (long long)e.second.deadline);
        }
        std::unique_lock<std::mutex> lk(slot->mtx);
        if (tp == (SC::time_point::max)()) slot->cv.wait(lk, [&] { return slot->flag; }); else slot->cv.wait_until(lk, tp, [&] { return slot->flag; });
        slot->flag = false;
    }
    void notify() noexcept override {
        { Quiet q; if (alive != MAGIC) fail("dead-algorithm", "notify() on a destroyed scheduler object"); }
        slot->set();
    }
};

void Props::tell() {
    Cust* a; long before; bool linked;
    { Quiet q; check("change"); a = G->alg.at(sim::tid()); linked = ctx_->ready_is_linked(); before = a->change_calls; a->change_of = this;
      if (r && linked != (r->ready && r->local)) fail("harness", "ready state"); }
    notify();
    Quiet q; a->change_of = nullptr;
    long due = linked ? 1 : 0;
    if (a->change_calls - before != due) fail("property-change", "a property change of a %s fiber was reported %ld times", linked ? "ready" : "not ready", a->change_calls - before);
    G->changes_seen += due;
}
void Props::change(int p) { prio = p; tell(); }
void Props::pause(bool p) { paused = p; tell(); }

enum { O_YIELD, O_SLEEP, O_LOCK, O_TLOCK, O_PROP, O_PROP_OTHER, O_PAUSE, O_LAUNCH, O_THISPROPS, O_KINDS };
struct Op { int k, a, b; };
struct Sys {
    bf::mutex m; bf::timed_mutex tm; long owner = -1; int nthreads; bool cross; long finished = 0;
    std::vector<std::vector<Op>> progs; std::vector<bf::context*> ctxs; std::vector<long> steps; std::vector<bool> done;
    int next_kid = 0;
};
void step_check(Sys& S, int id) {
    Quiet q; bf::context* a = bf::context::active(); auto i = G->alg.find(sim::tid()); if (i == G->alg.end()) return;
    Cust* c = i->second; S.steps[id]++;
    if (c->cur != a) {
        fail("not-resumed", "a fiber runs that the scheduler has not returned");
    }
    auto r = G->rec.find(a);
    if (r != G->rec.end()) { if (r->second.ready) fail("ran-while-ready", "a fiber runs that is still in the ready queue"); if (r->second.props != a->get_properties()) fail("props-replaced", "the fiber's properties object changed");
        if (r->second.props->paused) fail("withheld-ran", "a fiber runs that the scheduler withholds"); r->second.busy = false; r->second.deadline = -1; }
}
void begin_wait(int64_t d) { Quiet q; auto r = G->rec.find(bf::context::active()); if (r != G->rec.end()) { r->second.deadline = d; r->second.busy = true; } }

void body(Sys& S, int id, int depth, Props* mine);
void launch_one(Sys& S, int id, int depth, int a, int b) {
    Props* sp = nullptr; bf::launch pol = a & 1 ? bf::launch::dispatch : bf::launch::post;
    if (a & 2) sp = new Props(nullptr);
    auto fn = [&S, id, depth, sp] { body(S, id, depth + 1, sp); };
    bf::fiber f; bf::fiber_properties* bp = sp;
    if (sp) { switch (b & 3) { case 0: f = bf::fiber(pol, bp, fn); break; case 1: f = bf::fiber(pol, bp, std::allocator_arg, bf::fixedsize_stack(64 * 1024), fn); break;
              default: if (pol == bf::launch::post) { if (b & 1) f = bf::fiber(bp, fn); else f = bf::fiber(bp, std::allocator_arg, bf::fixedsize_stack(64 * 1024), fn); } else f = bf::fiber(pol, bp, fn); } }
    else f = bf::fiber(pol, fn);
    {
        Props& p = f.properties<Props>();
        Quiet q; p.check("fiber::properties()"); if (sp && &p != sp) fail("props-replaced", "fiber::properties() is not the object passed to the constructor");
        if (p.ctx() == nullptr || bf::context::id(p.ctx()) != f.get_id()) fail("wrong-props", "fiber::properties() belongs to another fiber");
    }
    if (b & 4) { bool threw = false; try { f.properties<Other>(); } catch (std::bad_cast const&) { threw = true; } if (!threw) fail("wrong-props", "properties() of another type did not throw bad_cast"); }
    if (!G->handover && (b & 8)) { Props& p = f.properties<Props>(); { Quiet q; if (!(p.r && p.r->ready)) probe("properties of a running fiber"); } p.change(b >> 4); }
    f.join();
}
void body(Sys& S, int id, int depth, Props* mine) {
    { Quiet q; S.ctxs[id] = bf::context::active(); }
    if (mine) { Props& p = boost::this_fiber::properties<Props>(); Quiet q; if (&p != mine) fail("props-replaced", "this_fiber::properties() is not the object passed to the constructor"); if (p.ctx() != bf::context::active()) fail("wrong-props", "this_fiber::properties() belongs to another fiber"); }
    step_check(S, id);
    for (auto& o : S.progs[id]) {
        switch (o.k) {
        case O_YIELD: boost::this_fiber::yield(); break;
        case O_SLEEP: { auto tp = SC::now() + nanoseconds(o.a * 300); begin_wait(tp.time_since_epoch().count()); boost::this_fiber::sleep_until(tp); break; }
        case O_LOCK: { S.m.lock(); { Quiet q; if (S.owner != -1) fail("mutual-exclusion", "two owners"); S.owner = id; } if (o.a & 1) boost::this_fiber::yield(); S.owner = -1; S.m.unlock(); break; }
        case O_TLOCK: { auto tp = SC::now() + nanoseconds(o.a * 300); begin_wait(tp.time_since_epoch().count()); if (S.tm.try_lock_until(tp)) { step_check(S, id); if (o.b & 1) boost::this_fiber::yield(); S.tm.unlock(); } break; }
        case O_PROP: { Props& p = boost::this_fiber::properties<Props>(); if (p.ctx() != bf::context::active()) fail("wrong-props", "this_fiber::properties() belongs to another fiber"); p.change(o.a); break; }
        case O_PROP_OTHER: case O_PAUSE: {
            // a fiber attached to this thread, in whatever state it is
            Props* t = nullptr; bf::context* tc = nullptr; int who = -1;
            { Quiet q; int n = (int)S.ctxs.size(); for (int i = 0; i < n && !t; ++i) { int k = (o.a + i) % n; if (k == id || !S.ctxs[k] || S.done[k]) continue; auto r = G->rec.find(S.ctxs[k]); if (r == G->rec.end()) continue;
                bool here = r->second.props->algo() == G->alg[sim::tid()] && (!G->handover || (r->second.ready && r->second.local)) && S.ctxs[k]->get_scheduler() == bf::context::active()->get_scheduler();
                if (here && !r->second.props->paused) { t = r->second.props; tc = S.ctxs[k]; who = k; } } }
            if (!t) break;
            if (o.k == O_PROP_OTHER || !G->pausing || G->handover) { t->change(o.b); break; }
            long s0; boost::intrusive_ptr<bf::context> keep(tc);
            t->pause(true); { Quiet q; s0 = S.steps[who]; G->pauses++; }
            for (int i = 0; i <= o.b % 3; ++i) { if (o.b & 4) boost::this_fiber::sleep_for(nanoseconds(700)); else boost::this_fiber::yield(); step_check(S, id); }
            { Quiet q; if (S.steps[who] != s0) fail("withheld-ran", "a fiber ran that the scheduler withheld"); }
            t->pause(false);
            break; }
        case O_LAUNCH: { int kid = -1; { Quiet q; if (depth < 3 && S.next_kid < (int)S.progs.size()) kid = S.next_kid++; } if (kid >= 0) launch_one(S, kid, depth, o.a, o.b); break; }
        case O_THISPROPS: { Props& p = boost::this_fiber::properties<Props>(); Quiet q; p.check("this_fiber::properties()"); if (p.ctx() != bf::context::active()) fail("wrong-props", "this_fiber::properties() belongs to another fiber"); break; }
        }
        step_check(S, id);
    }
    Quiet q; S.done[id] = true; S.ctxs[id] = nullptr; S.finished++;
}

void run_custom(bool handover) {
    sim::enable_fault(sim::F_CLOCKJUMP, 0.03); sim::enable_fault(sim::F_SPURIOUS, 0.01); sim::enable_fault(sim::F_EARLYTIMER, 0.3); sim::set_budget(100000, 500000);
    Glob g; Sys S; Fleet fl; std::vector<int> hello;
    {
        Quiet q; G = &g; g.handover = handover; g.policy = (int)choose(8); g.pausing = !handover && choose(2);
        Shape s = draw_shape(handover ? 3 : 3, 6, 1); S.nthreads = s.threads;
        int nf = 0, kids = (int)choose(5); for (int t = 0; t < s.threads; ++t) nf += s.fibers[t];
        bool late = !handover && choose(4) == 3;              // scheduler installed after fibers were launched
        for (int i = 0; i < nf + kids; ++i) {
            std::vector<Op> p; int n = 1 + (int)choose(5);
            for (int k = 0; k < n; ++k) { Op o; o.k = (int)choose(O_KINDS); o.a = (int)choose(16); o.b = (int)choose(64); p.push_back(o); }
            S.progs.push_back(p);
        }
        S.next_kid = nf; S.ctxs.assign(nf + kids, nullptr); S.steps.assign(nf + kids, 0); S.done.assign(nf + kids, false);
        for (int t = 0; t < s.threads; ++t) hello.push_back((int)choose(4));
        fl.th.resize(s.threads); int id = 0;
        for (int t = 0; t < s.threads; ++t) {
            for (int i = 0; i < s.fibers[t]; ++i, ++id) { int me = id; fl.th[t].fibers.push_back(FiberProg{[&S, me] { body(S, me, 0, nullptr); }, late ? bf::launch::post : draw_policy(), 0}); }
            int h = hello[t];
            fl.th[t].main_fn = [h, late] {
                if (late) bf::use_scheduling_algorithm<Cust>();      // the fibers launched so far have to be handed to it
                if (h & 1) { Props& p = boost::this_fiber::properties<Props>(); Quiet q; p.check("this_fiber::properties()"); if (p.ctx() != bf::context::active()) fail("wrong-props", "this_fiber::properties() of a main fiber belongs to another fiber"); }
                if (h & 2) boost::this_fiber::properties<Props>().change(2);
            };
        }
        if (!late) fl.thread_init = [](int) { bf::use_scheduling_algorithm<Cust>(); };
    }
    fl.run();
    Quiet q;
    if (g.props_live) fail("props-leak", "%ld properties objects were not destroyed", g.props_live);
    if (g.algs_live) fail("algorithm-leak", "%ld scheduler objects were not destroyed", g.algs_live);
    if (!g.pool.empty()) fail("stranded", "fibers left behind in the pool");
    for (auto d : S.steps) (void)d;
    for (size_t i = 0; i < (size_t)S.next_kid; ++i) if (!S.done[i]) fail("stranded", "fiber %d did not end", (int)i);
    if (g.changes_seen) probe("property change of a ready fiber"); if (g.pauses) probe("fiber withheld by the scheduler");
    G = nullptr;
}
} // namespace

SIM_SCENARIO(cust_local, 5, "one instrumented scheduler per thread; properties, withheld fibers, remote wakeups") { run_custom(false); }
SIM_SCENARIO(cust_handover, 4, "an instrumented scheduler that hands fibers to other threads") { run_custom(true); }
