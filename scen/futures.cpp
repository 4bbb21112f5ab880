// C11 one result for every future; C12 waits on futures always end.
#include "common.h"

namespace {

struct Ex { int id; long check; explicit Ex(int i) : id(i), check(~(long)i) {} };
enum { BROKEN = -1, USERTHROW = -2 };

static Tok* g_refs[8];                 // referents for R = Tok&
inline bool ec_is(bf::future_error const& e, bf::future_errc c) { return e.code() == std::error_code((int)c, bf::future_category()); }

template<class R> struct K;
template<> struct K<Tok> {
    static void set(bf::promise<Tok>& p, int id, bool rv) { if (rv) p.set_value(Tok(id)); else { Tok t(id); p.set_value(t); } }
    static Tok make(int id) { return Tok(id); }
    static long get(bf::future<Tok>& f) { Tok t = f.get(); return t.get(); }
    static long get(bf::shared_future<Tok> const& f) { Tok const& t = f.get(); return t.get(); }
};
template<> struct K<Tok&> {
    static void set(bf::promise<Tok&>& p, int id, bool) { p.set_value(*g_refs[id]); }
    static Tok& make(int id) { return *g_refs[id]; }
    static long at(Tok& t) { for (int i = 0; i < 8; ++i) if (&t == g_refs[i]) return t.get(); Quiet q; fail("wrong-result", "get() returned a reference to a foreign object"); }
    static long get(bf::future<Tok&>& f) { return at(f.get()); }
    static long get(bf::shared_future<Tok&> const& f) { return at(f.get()); }
};
template<> struct K<void> {
    static void set(bf::promise<void>& p, int, bool) { p.set_value(); }
    static void make(int) {}
    static long get(bf::future<void>& f) { f.get(); return 0; }
    static long get(bf::shared_future<void> const& f) { f.get(); return 0; }
};
struct Refs {                          // the referents live as long as the scenario
    Refs() { Quiet q; for (int i = 0; i < 8; ++i) g_refs[i] = new Tok(i); }
    ~Refs() { Quiet q; for (int i = 0; i < 8; ++i) { delete g_refs[i]; g_refs[i] = nullptr; } }
};

template<class F> long outcome(F& f, int me) {          // what a get() delivers, as a number
    (void)me;
    try { return K<typename F::value>::get(f.f); }
    catch (Ex const& e) { if (e.check != ~(long)e.id) fail("wrong-result", "damaged exception"); return 1000 + e.id; }
    catch (bf::broken_promise const& e) { if (!ec_is(e, bf::future_errc::broken_promise)) fail("error-code", "broken_promise with code %d", e.code().value()); return BROKEN; }
    catch (bf::future_error const& e) { fail("wrong-error", "get() threw future_error %d", e.code().value()); }
    catch (std::runtime_error const&) { return USERTHROW; }
}
template<class R> struct Fut { typedef R value; bf::future<R> f; };
template<class R> struct SFut { typedef R value; bf::shared_future<R> f; };

static long eptr_code(std::exception_ptr e) {
    if (!e) return 0;
    try { std::rethrow_exception(e); }
    catch (Ex const& x) { return 1000 + x.id; }
    catch (bf::broken_promise const&) { return BROKEN; }
    catch (std::runtime_error const&) { return USERTHROW; }
    catch (...) { return -99; }
}

enum Sat { S_NO, S_MAYBE, S_YES };
struct State {                          // what the program knows about one shared state
    Sat sat = S_NO; long result = -50;  // result once known
    int winner = -1; int wins = 0;
    sim::UData* ud = nullptr;           // one per possible satisfier
};

struct WStep { int op, pre; int64_t dur; };
static std::vector<WStep> draw_wsteps(bool far) {
    std::vector<WStep> v; int n = (int)choose(4);
    for (int i = 0; i < n; ++i) { WStep s; s.op = (int)choose(5); s.pre = (int)choose(GAPS);
        static const int64_t d[] = { 0, 1000, 5000, 30000, 200000, -1000 }; s.dur = far ? 3600000000000ll : d[choose(6)]; v.push_back(s); }
    return v;
}
// waits before the final get
template<class F> void wait_some(F& f, State& st, std::vector<WStep> const& ws, bool far, int me) {
    for (auto const& s : ws) {
        gap(s.pre);
        bool yes_before; { Quiet q; yes_before = st.sat == S_YES; }
        bf::future_status r = bf::future_status::ready; int64_t dl = 0; bool rt = false;
        switch (s.op) {
        case 0: f.wait(); break;
        case 1: dl = sim::now_ns() + s.dur; sim::deadline_hint(dl); r = f.wait_for(nanoseconds(s.dur)); break;
        case 2: dl = sim::now_ns() + s.dur; sim::deadline_hint(dl); r = f.wait_until(at_ns(dl)); break;
        case 3: rt = true; dl = sim::rt_now_ns() + s.dur; r = f.wait_until(rt_at_ns(dl)); break;
        case 4: { std::exception_ptr e = f.get_exception_ptr(); long c = eptr_code(e); { Quiet q; std::exception_ptr().swap(e); } Quiet q; if (st.sat == S_YES && st.result != -50 && c != (st.result >= 0 && st.result < 1000 ? 0 : st.result)) fail("wrong-result", "get_exception_ptr delivers %ld, expected %ld", c, st.result); break; }
        }
        Quiet q;
        sim::logf("waiter %d: op %d -> %d", me, s.op, (int)r);
        if (r == bf::future_status::ready) {
            if (st.sat == S_NO) fail("false-ready", "waiter %d: a wait (op %d) reports ready, but nobody has begun to satisfy the state", me, s.op);
            if (far && s.op && s.op != 4 && (rt ? sim::rt_now_ns() : sim::now_ns()) >= dl) fail("stranded", "waiter %d was released only at its far deadline", me);
        } else {
            if (r != bf::future_status::timeout) fail("wrong-status", "unexpected future_status %d", (int)r);
            int64_t now = rt ? sim::rt_now_ns() : sim::now_ns();
            if (now < dl) fail("early-timeout", "waiter %d: timeout %lld ns before the deadline", me, (long long)(dl - now));
            if (far) fail("stranded", "waiter %d timed out at a far deadline", me);
            if (yes_before) fail("false-timeout", "waiter %d: timeout although the state was satisfied before the call", me);
            probe("future wait timed out");
        }
    }
}

// ---- many satisfiers, many waiters -------------------------------------------------
template<class R, bool TASK> struct Owner;
template<class R> struct Owner<R, false> {
    bf::promise<R> p; Owner() {} 
    bf::future<R> fut() { return p.get_future(); }
    void satisfy(int id, int how) { if (how == 2) { p.set_exception(std::make_exception_ptr(Ex(id))); } else K<R>::set(p, id, how); }
};
template<class R> struct Owner<R, true> {
    bf::packaged_task<R(int, int)> p{ [](int id, int how) -> R { sim::sync_point(); if (how == 2) throw Ex(id); return K<R>::make(id); } };
    bf::future<R> fut() { return p.get_future(); }
    void satisfy(int id, int how) { p(id, how); }
};

template<class R, bool TASK> void race(bool far, bool throwing) {
    tok_reset(); { Refs refs; 
    State st; int nset = 1 + (int)choose(3), nwait = 1 + (int)choose(3); bool shared = nwait > 1 || choose(2);
    std::vector<sim::UData> ud((size_t)nset);
    Shape sh = draw_shape(3, 3, 1); Fleet fl; fl.th.resize(sh.threads);
    Owner<R, TASK>* own = new Owner<R, TASK>();
    Fut<R> uf; SFut<R> sf; uf.f = own->fut();
    if (shared) { sf.f = uf.f.share(); if (uf.f.valid()) fail("valid", "future valid after share()"); }
    int done = 0; std::vector<long> got((size_t)nwait, -77); int threw = 0, already = 0; bool mt = throwing && choose(2) ;
    bool destroy_now = choose(2);
    {
        Quiet q; std::vector<int> roles = draw_perm(nset + nwait);
        for (size_t i = 0; i < roles.size(); ++i) {
            int r = roles[i]; int t = (int)choose(sh.threads); FiberProg fp; fp.pol = draw_policy(); fp.stack = 0;
            if (r < nset) {
                int g = (int)choose(GAPS), how = (int)choose(3);
                fp.fn = [&, r, g, how] {
                    gap(g);
                    ud[r].set(r + 100, "data written before satisfying the promise");
                    { Quiet q; if (st.sat == S_NO) st.sat = S_MAYBE; }
                    sim::logf("setter %d: how %d", r, how);
                    try {
                        own->satisfy(r, how);
                        Quiet q; sim::logf("setter %d succeeded", r);
                        if (++st.wins > 1) fail("satisfied-twice", "setters %d and %d both succeeded", st.winner, r);
                        st.winner = r;
                        // a throwing move turns the result of a task into that exception
                        if (!(TASK && mt)) { st.result = how == 2 ? 1000 + r : std::is_void<R>::value ? 0 : r; }
                        st.sat = S_YES;
                    } catch (bf::promise_already_satisfied const& e) {
                        Quiet q; already++; sim::logf("setter %d: already satisfied", r); if (!ec_is(e, bf::future_errc::promise_already_satisfied)) fail("error-code", "promise_already_satisfied with code %d", e.code().value());
                    } catch (std::runtime_error const&) { Quiet q; threw++; sim::logf("setter %d: user type threw", r); if (!mt) fail("wrong-error", "unexpected exception from a setter"); }
                    bool last; { Quiet q; sim::hb_sync(&done); last = ++done == nset; if (last) { if (!st.wins && !threw) fail("satisfied-never", "no setter succeeded"); if (already && !st.wins) fail("satisfied-never", "a setter was told the state is satisfied but none succeeded"); if (!st.wins) st.result = BROKEN; } }
                    if (last) { if (!destroy_now) gap(4); delete own; Quiet q; st.sat = S_YES; }
                };
            } else {
                int w = r - nset; auto ws = draw_wsteps(far); bool again = choose(2);
                fp.fn = [&, w, ws, again] {
                    long v;
                    if (shared) {
                        SFut<R> mine; mine.f = sf.f;
                        wait_some(mine.f, st, ws, far, w);
                        v = outcome(mine, w);
                        if (again && outcome(mine, w) != v) fail("wrong-result", "second get() of a shared_future differs");
                        if (!mine.f.valid()) fail("valid", "shared_future invalid after get()");
                    } else {
                        wait_some(uf.f, st, ws, far, w);
                        v = outcome(uf, w);
                        if (uf.f.valid()) fail("valid", "future valid after get()");
                    }
                    { Quiet q; got[w] = v; sim::logf("waiter %d got %ld", w, v); }
                    if (v >= 0 && !std::is_void<R>::value) { if (ud[v % 1000].get("data written before satisfying the promise") != v % 1000 + 100) fail("wrong-result", "data written before set_value is not visible"); }
                };
            }
            fl.th[t].fibers.push_back(fp);
        }
    }
    Tok::may_throw = mt;
    if (mt) sim::enable_fault(sim::F_THROW, 0.5);
    fl.run();
    Tok::may_throw = false;
    Quiet q;
    for (int w = 0; w < nwait; ++w) {
        if (got[w] == -77) fail("wrong-result", "waiter %d never got a result", w);
        long want = st.result;
        if (want == -50) continue;
        if (got[w] == USERTHROW && mt && !shared) continue;      // the move out of the future threw
        if (got[w] != want) fail("wrong-result", "waiter %d got %ld, the state was satisfied with %ld", w, got[w], want);
    }
    if (st.result == -50) for (int w = 1; w < nwait; ++w) if (got[w] != got[0]) fail("wrong-result", "waiters got %ld and %ld", got[0], got[w]);
    }
    tok_done();
}

// ---- promises and tasks destroyed, assigned over, moved, swapped, reset ---------------
// Several slots hold promises (or tasks); every state ever created has a waiter.
template<class R> struct PSlot { typedef bf::promise<R> T; static T fresh() { return T(); } static T empty() { T a; T b(std::move(a)); return a; } enum { HAS_RESET = 0 };
    static void sat(T& t, int id, int how) { if (how == 2) t.set_exception(std::make_exception_ptr(Ex(id))); else K<R>::set(t, id, how); } static void reset(T&) {} };
template<class R> struct TSlot { typedef bf::packaged_task<R(int, int)> T;
    static T fresh() { return T([](int id, int how) -> R { if (how == 2) throw Ex(id); return K<R>::make(id); }); } static T empty() { return T(); } enum { HAS_RESET = 1 };
    static void sat(T& t, int id, int how) { t(id, how); } static void reset(T& t) { t.reset(); } };

struct AOp { int op, a, b, how, pre; };
template<class R, template<class> class S> void abandon(bool far) {
    tok_reset(); { Refs refs; typedef typename S<R>::T T;
    enum { MAXS = 6 };
    int nslots = 1 + (int)choose(2); int threads = 1 + (int)choose(3);
    struct St : State { bool has_fut = false, taken = false; };
    St st[MAXS]; int nst = 0; int slot_state[3] = { -1, -1, -1 };
    std::vector<T> slots; std::vector<Fut<R>> futs(MAXS); sim::UData ud[MAXS];
    std::vector<AOp> ops; bool by_throw;
    std::vector<std::vector<WStep>> ws; std::vector<long> got(MAXS, -77); std::vector<int> wthread; bool sharedf[MAXS];
    { Quiet q; slots.reserve(4);
      int n = 1 + (int)choose(6);
      for (int i = 0; i < n; ++i) { AOp o; o.op = (int)choose(8); o.a = (int)choose(nslots); o.b = (int)choose(nslots); o.how = (int)choose(3); o.pre = (int)choose(GAPS); ops.push_back(o); }
      by_throw = choose(3) == 2;
      for (int i = 0; i < MAXS; ++i) { ws.push_back(draw_wsteps(far)); wthread.push_back((int)choose(threads)); sharedf[i] = choose(2); } }
    auto settle = [&](int id, long result) { Quiet q; if (id < 0) return; if (st[id].sat != S_YES) { st[id].sat = S_YES; st[id].result = result; } };
    auto begin = [&](int id) { Quiet q; if (id >= 0 && st[id].sat == S_NO) st[id].sat = S_MAYBE; };
    auto begin_drop = [&](int id) { if (id >= 0 && st[id].has_fut) begin(id); };
    auto dropped = [&](int id) { if (id >= 0 && st[id].has_fut) settle(id, BROKEN); };
    auto adopt = [&](int a, T& t) { // the state of t becomes a new numbered state whose future is given away
        int id = nst++; futs[id].f = t.get_future(); st[id].has_fut = true; slot_state[a] = id;
    };
    for (int i = 0; i < nslots; ++i) { slots.push_back(S<R>::fresh()); adopt(i, slots[i]); }
    int initial = nst;
    Fleet fl; fl.th.resize(threads); fl.run_first_on_caller = choose(2);
    {
        Quiet q;
        for (int id = 0; id < initial; ++id) {
            FiberProg fp; fp.pol = draw_policy(); fp.stack = 0;
            fp.fn = [&, id] {
                if (sharedf[id]) { SFut<R> s; s.f = futs[id].f.share(); wait_some(s.f, st[id], ws[id], far, id); long v = outcome(s, id); Quiet q; got[id] = v; }
                else { wait_some(futs[id].f, st[id], ws[id], far, id); long v = outcome(futs[id], id); Quiet q; got[id] = v; }
                sim::logf("waiter of state %d got %ld", id, got[id]);
                if (got[id] >= 0) { if (ud[id].get("data written before satisfying the promise") != 1) fail("wrong-result", "data written before satisfying is not visible"); }
            };
            fl.th[wthread[id]].fibers.push_back(fp);
        }
        FiberProg fp; fp.pol = draw_policy(); fp.stack = 0;
        fp.fn = [&] {
            try {
                std::vector<T> mine; { Quiet q; mine.reserve(4); }
                for (auto& t : slots) mine.push_back(std::move(t));
                for (auto& o : ops) {
                    gap(o.pre);
                    T& a = mine[o.a]; int ia = slot_state[o.a], ib = slot_state[o.b];
                    sim::logf("owner: op %d on slot %d (state %d), slot %d (state %d)", o.op, o.a, ia, o.b, ib);
                    switch (o.op) {
                    case 0: case 1: {       // satisfy
                        begin(ia); bool already = ia >= 0 && st[ia].sat == S_YES;
                        if (ia >= 0 && !already) ud[ia].set(1);
                        try { S<R>::sat(a, ia < 0 ? 0 : ia, o.how); if (ia < 0) fail("wrong-error", "an empty promise or task could be satisfied"); if (already) fail("satisfied-twice", "state %d satisfied twice", ia);
                              settle(ia, o.how == 2 ? 1000 + ia : std::is_void<R>::value ? 0 : ia); }
                        catch (bf::promise_already_satisfied const&) { if (!already) fail("wrong-error", "promise_already_satisfied for the first result"); }
                        catch (bf::future_error const& e) { if (ia >= 0 || !ec_is(e, bf::future_errc::no_state)) fail("wrong-error", "future_error %d", e.code().value()); }
                        break; }
                    case 2: {               // destroy
                        begin_drop(ia); { T tmp(std::move(a)); slot_state[o.a] = -1; if (o.how == 1) gap(1); } dropped(ia); break; }
                    case 3: {               // assign over from another slot
                        if (o.a == o.b) { T& alias = mine[o.a]; a = std::move(alias); break; }
                        begin_drop(ia); a = std::move(mine[o.b]); dropped(ia); slot_state[o.a] = ib; slot_state[o.b] = -1; break; }
                    case 4: {               // swap
                        if (o.how) swap(a, mine[o.b]); else a.swap(mine[o.b]); slot_state[o.a] = ib; slot_state[o.b] = ia; break; }
                    case 5: {               // assign a fresh one over
                        if (nst >= MAXS) break;
                        T t = S<R>::fresh(); begin_drop(ia); a = std::move(t); dropped(ia); adopt(o.a, a); break; }
                    case 6: {               // second get_future
                        try { bf::future<R> f = a.get_future(); fail("wrong-error", "get_future() of slot %d (state %d) succeeded again", o.a, ia); }
                        catch (bf::future_error const& e) { bool ok = ia < 0 ? ec_is(e, bf::future_errc::no_state) : ec_is(e, bf::future_errc::future_already_retrieved); if (!ok) fail("wrong-error", "second get_future(): error %d", e.code().value()); }
                        break; }
                    case 7: {               // reset (tasks)
                        if (!S<R>::HAS_RESET || nst >= MAXS) break;
                        begin_drop(ia);
                        try { S<R>::reset(a); if (ia < 0) fail("wrong-error", "reset of an empty task succeeded"); dropped(ia); adopt(o.a, a); }
                        catch (bf::future_error const& e) { if (ia >= 0 || !ec_is(e, bf::future_errc::no_state)) fail("wrong-error", "reset(): error %d", e.code().value()); }
                        break; }
                    }
                }
                for (int i = 0; i < nslots; ++i) begin_drop(slot_state[i]);
                if (by_throw) throw Ex(7);
            } catch (Ex const&) {}
            for (int i = 0; i < nslots; ++i) dropped(slot_state[i]);
            for (int id = initial; id < nst; ++id) { // the states created on the way
                if (sharedf[id]) { SFut<R> s; s.f = futs[id].f.share(); wait_some(s.f, st[id], ws[id], far, id); long v = outcome(s, id); Quiet q; got[id] = v; }
                else { wait_some(futs[id].f, st[id], ws[id], far, id); long v = outcome(futs[id], id); Quiet q; got[id] = v; }
            }
        };
        fl.th[choose(threads)].fibers.push_back(fp);
    }
    fl.run();
    Quiet q;
    for (int id = 0; id < nst; ++id) {
        if (st[id].sat != S_YES) fail("satisfied-never", "model: state %d unsettled", id);
        if (got[id] != st[id].result) fail("wrong-result", "waiter of state %d got %ld, expected %ld", id, got[id], st[id].result);
    }
    }
    tok_done();
}

// ---- async ---------------------------------------------------------------------------
struct AsyncPlan { int how, over, take, gap1, gap2; bool post; };
template<class R> void async_mix() {
    tok_reset(); { Refs refs;
    int threads = 1 + (int)choose(3); Fleet fl; fl.th.resize(threads);
    std::vector<long> ran(16, 0); std::vector<bf::future<R>> parked(16); std::vector<sim::UData> ud(16); std::vector<int> have(16, 0);
    int n = 0; int takers = 0;
    bf::mutex m; bf::condition_variable cv;
    {
        Quiet q;
        for (int t = 0; t < threads; ++t) {
            int k = 1 + (int)choose(2);
            for (int i = 0; i < k && n < 6; ++i, ++n) {
                AsyncPlan p; p.how = (int)choose(3); p.over = (int)choose(4); p.take = (int)choose(3); p.gap1 = (int)choose(GAPS); p.gap2 = (int)choose(GAPS); p.post = choose(2);
                int id = n;
                fl.th[t].fibers.push_back(FiberProg{[&, p, id] {
                    auto body = [&, p, id](Tok a, std::unique_ptr<Tok> b) -> R {
                        { Quiet q; if (++ran[id] > 1) fail("run-twice", "async function invoked twice"); }
                        if (a.get() != id || b->get() != id + 50) fail("wrong-argument", "async argument is %ld/%ld", a.get(), b->get());
                        gap(p.gap1); ud[id].set(id, "data written by the async function");
                        if (p.how == 2) throw Ex(id);
                        return K<R>::make(id);
                    };
                    sim::logf("async %d: how %d overload %d take %d", id, p.how, p.over, p.take);
                    Fut<R> f; std::unique_ptr<Tok> b(new Tok(id + 50));
                    bf::launch pol = p.post ? bf::launch::post : bf::launch::dispatch;
                    switch (p.over) {
                    case 0: f.f = bf::async(body, Tok(id), std::move(b)); break;
                    case 1: f.f = bf::async(pol, body, Tok(id), std::move(b)); break;
                    case 2: f.f = bf::async(pol, std::allocator_arg, bf::fixedsize_stack(64 * 1024), body, Tok(id), std::move(b)); break;
                    case 3: f.f = bf::async(pol, std::allocator_arg, bf::pooled_fixedsize_stack(64 * 1024, 2), std::allocator<int>(), body, Tok(id), std::move(b)); break;
                    }
                    if (!f.f.valid()) fail("valid", "future of async is not valid");
                    gap(p.gap2);
                    if (p.take == 0) {       // park it for a fiber of another thread
                        std::unique_lock<bf::mutex> lk(m); parked[id] = std::move(f.f); have[id] = 1; cv.notify_all(); return;
                    }
                    { std::unique_lock<bf::mutex> lk(m); have[id] = 2; cv.notify_all(); }
                    if (p.take == 1) return; // dropped: the function must still run
                    long v = outcome(f, id);
                    if (v != (p.how == 2 ? 1000 + id : std::is_void<R>::value ? 0 : id)) fail("wrong-result", "async delivered %ld for %d", v, id);
                    if (ud[id].get("data written by the async function") != id) fail("wrong-result", "data of the async function not visible");
                }, draw_policy(), 0});
            }
        }
        int total = n;
        int tt = (int)choose(threads); takers = 1;
        fl.th[tt].fibers.push_back(FiberProg{[&, total] {
            for (int id = 0; id < total; ++id) {
                Fut<R> f; { std::unique_lock<bf::mutex> lk(m); cv.wait(lk, [&] { return have[id] != 0; }); if (have[id] == 1) f.f = std::move(parked[id]); }
                if (!f.f.valid()) continue;
                long v = outcome(f, id);
                if (v != 1000 + id && v != (std::is_void<R>::value ? 0 : id)) fail("wrong-result", "async delivered %ld for %d", v, id);
                if (ud[id].get("data written by the async function") != id) fail("wrong-result", "data of the async function not visible");
            }
        }, draw_policy(), 0});
    }
    fl.run();
    Quiet q;
    for (int id = 0; id < n; ++id) if (ran[id] != 1) fail("not-run", "async function %d ran %ld times before its thread ended", id, ran[id]);
    }
    tok_done();
}

template<class F> void types(F f) {
    switch (choose(3)) {
    case 0: f((Tok*)nullptr); break;
    case 1: f((std::reference_wrapper<Tok>*)nullptr); break;
    case 2: f((void*)nullptr); break;
    }
}
template<class P> struct Ty;  template<> struct Ty<Tok*> { typedef Tok R; }; template<> struct Ty<std::reference_wrapper<Tok>*> { typedef Tok& R; }; template<> struct Ty<void*> { typedef void R; };

template<class F> void must(bf::future_errc c, const char* what, F f) {
    try { f(); } catch (bf::future_error const& e) {
        if (!ec_is(e, c)) fail("wrong-error", "%s: error %d", what, e.code().value());
        Quiet q; std::error_condition ec((int)c, bf::future_category());
        if (!(e.code() == ec) || e.code().default_error_condition() != ec || e.code() == std::error_condition((int)c, std::generic_category()) || e.code().message().empty() || std::string(e.what()).empty() || std::string(bf::future_category().name()).empty()) fail("error-code", "%s: the error does not compare equal to its condition or has no text", what);
        return;
    }
    fail("wrong-error", "%s did not throw", what);
}
template<class R> struct Set { template<class P> static void v(P& p, Tok& t) { p.set_value(t); } };
template<> struct Set<void> { template<class P> static void v(P& p, Tok&) { p.set_value(); } };
template<class R> void empties() {
    bf::future<R> e; bf::shared_future<R> se; Tok t(1);
    if (e.valid() || se.valid()) fail("valid", "default constructed future is valid");
    auto ns = bf::future_errc::no_state;
    must(ns, "get of an empty future", [&] { e.get(); });
    must(ns, "wait of an empty future", [&] { e.wait(); });
    must(ns, "wait_for of an empty future", [&] { e.wait_for(nanoseconds(5)); });
    must(ns, "wait_until of an empty future", [&] { e.wait_until(at_ns(5)); });
    must(ns, "share of an empty future", [&] { e.share(); });
    must(ns, "get_exception_ptr of an empty future", [&] { e.get_exception_ptr(); });
    must(ns, "get of an empty shared_future", [&] { se.get(); });
    must(ns, "wait of an empty shared_future", [&] { se.wait(); });
    must(ns, "wait_for of an empty shared_future", [&] { se.wait_for(nanoseconds(5)); });
    must(ns, "wait_until of an empty shared_future", [&] { se.wait_until(at_ns(5)); });
    must(ns, "get_exception_ptr of an empty shared_future", [&] { se.get_exception_ptr(); });
    bf::promise<R> p, p2(std::move(p));
    must(ns, "set_value of a moved-from promise", [&] { Set<R>::v(p, t); });
    must(ns, "set_exception of a moved-from promise", [&] { p.set_exception(std::make_exception_ptr(Ex(1))); });
    must(ns, "get_future of a moved-from promise", [&] { p.get_future(); });
    p.swap(p2); e = p.get_future();
    must(ns, "get_future of a swapped-out promise", [&] { p2.get_future(); });
    must(bf::future_errc::future_already_retrieved, "second get_future", [&] { p.get_future(); });
    Set<R>::v(p, t);
    must(bf::future_errc::promise_already_satisfied, "second set_value", [&] { Set<R>::v(p, t); });
    must(bf::future_errc::promise_already_satisfied, "set_exception after set_value", [&] { p.set_exception(std::make_exception_ptr(Ex(1))); });
    if (!e.valid() || e.get_exception_ptr() || e.wait_for(nanoseconds(0)) != bf::future_status::ready || e.wait_until(at_ns(-5)) != bf::future_status::ready) fail("valid", "satisfied future: not valid, not ready or with an exception");
    if (choose(2)) { e.get(); if (e.valid()) fail("valid", "future valid after get()"); must(ns, "second get of a future", [&] { e.get(); }); }
    else { se = e.share(); if (e.valid() || !se.valid()) fail("valid", "valid() wrong after share()"); se.get(); se.get(); if (!se.valid()) fail("valid", "shared_future invalid after get()"); }
}
}

SIM_SCENARIO(fut_race, 4, "several fibers satisfy one promise or task at once, several wait for it") {
    sim::track_races(true); faults_basic(); faults_clock(); sim::weak_memory(true); sim::enable_fault(sim::F_STALE, 0.05);
    bool task = choose(2);
    types([&](auto p) { typedef typename Ty<decltype(p)>::R R; if (task) race<R, true>(false, false); else race<R, false>(false, false); });
}
SIM_SCENARIO(fut_race_far, 2, "the same with far deadlines: a timed wait must be released by the result") {
    faults_basic();
    bool task = choose(2);
    types([&](auto p) { typedef typename Ty<decltype(p)>::R R; if (task) race<R, true>(true, false); else race<R, false>(true, false); });
}
SIM_SCENARIO(fut_race_throw, 1, "the same with results whose copy or move constructor throws") {
    faults_basic();
    if (choose(2)) race<Tok, true>(false, true); else race<Tok, false>(false, true);
}
SIM_SCENARIO(fut_abandon, 3, "promises and tasks destroyed, assigned over, swapped, reset while fibers wait") {
    sim::track_races(true); faults_basic(); faults_clock(); sim::weak_memory(true); sim::enable_fault(sim::F_STALE, 0.05);
    bool task = choose(2);
    types([&](auto p) { typedef typename Ty<decltype(p)>::R R; if (task) abandon<R, TSlot>(false); else abandon<R, PSlot>(false); });
}
SIM_SCENARIO(fut_abandon_far, 1, "the same with far deadlines") {
    faults_basic();
    bool task = choose(2);
    types([&](auto p) { typedef typename Ty<decltype(p)>::R R; if (task) abandon<R, TSlot>(true); else abandon<R, PSlot>(true); });
}
SIM_SCENARIO(fut_async, 3, "async in all overloads; results taken on other threads or dropped") {
    sim::track_races(true); faults_basic(); faults_clock();
    types([&](auto p) { typedef typename Ty<decltype(p)>::R R; async_mix<R>(); });
}
SIM_SCENARIO(fut_api, 1, "validity and error codes") {
    faults_basic(); tok_reset();
    types([&](auto p) { typedef typename Ty<decltype(p)>::R R; empties<R>(); });
    {
        bf::future<Tok> e; bf::shared_future<Tok> se;
        if (e.valid() || se.valid()) fail("valid", "default constructed future is valid");
        must(bf::future_errc::no_state, "get of an empty future", [&] { e.get(); });
        must(bf::future_errc::no_state, "wait of an empty future", [&] { e.wait(); });
        must(bf::future_errc::no_state, "wait_for of an empty future", [&] { e.wait_for(nanoseconds(5)); });
        must(bf::future_errc::no_state, "share of an empty future", [&] { e.share(); });
        must(bf::future_errc::no_state, "get_exception_ptr of an empty future", [&] { e.get_exception_ptr(); });
        must(bf::future_errc::no_state, "get of an empty shared_future", [&] { se.get(); });
        must(bf::future_errc::no_state, "wait_until of an empty shared_future", [&] { se.wait_until(at_ns(5)); });
        bf::promise<Tok> p; bf::future<Tok> f = p.get_future();
        must(bf::future_errc::future_already_retrieved, "second get_future", [&] { p.get_future(); });
        bf::promise<Tok> p2(std::move(p));
        must(bf::future_errc::no_state, "set_value of a moved-from promise", [&] { p.set_value(Tok(1)); });
        must(bf::future_errc::no_state, "set_exception of a moved-from promise", [&] { p.set_exception(std::make_exception_ptr(Ex(1))); });
        must(bf::future_errc::no_state, "get_future of a moved-from promise", [&] { p.get_future(); });
        must(bf::future_errc::future_already_retrieved, "get_future after a move", [&] { p2.get_future(); });
        bf::future<Tok> g(std::move(f)); if (f.valid() || !g.valid()) fail("valid", "moved future: valid() wrong");
        bf::future<Tok> h; h = std::move(g); if (g.valid() || !h.valid()) fail("valid", "assigned future: valid() wrong");
        unsigned how = choose(3);
        if (how == 0) { bf::shared_future<Tok> s = h.share(), s2(s), s3; s3 = s2; bf::shared_future<Tok> s4(std::move(s2)); if (s2.valid() || !s3.valid() || !s4.valid() || h.valid()) fail("valid", "shared_future valid() wrong"); p2.set_value(Tok(4)); if (&s.get() != &s3.get() || s.get().get() != 4 || s4.get().get() != 4) fail("wrong-result", "shared futures deliver different objects"); }
        else if (how == 1) { p2.set_value(Tok(4)); if (h.wait_for(nanoseconds(0)) != bf::future_status::ready) fail("false-timeout", "satisfied future not ready"); if (h.get_exception_ptr()) fail("wrong-result", "exception in a state with a value"); if (!h.valid()) fail("valid", "get_exception_ptr invalidated the future"); if (h.get().get() != 4) fail("wrong-result", "wrong value"); if (h.valid()) fail("valid", "future valid after get()"); must(bf::future_errc::no_state, "second get", [&] { h.get(); }); must(bf::future_errc::promise_already_satisfied, "second set_value", [&] { p2.set_value(Tok(5)); }); must(bf::future_errc::promise_already_satisfied, "set_exception after set_value", [&] { p2.set_exception(std::make_exception_ptr(Ex(1))); }); }
        else { p2.set_exception(std::make_exception_ptr(Ex(3))); if (eptr_code(h.get_exception_ptr()) != 1003) fail("wrong-result", "wrong exception"); must(bf::future_errc::promise_already_satisfied, "set_value after set_exception", [&] { p2.set_value(Tok(5)); }); Fut<Tok> w; w.f = std::move(h); if (outcome(w, 0) != 1003) fail("wrong-result", "wrong exception"); if (w.f.valid()) fail("valid", "future valid after get() threw"); }
        bf::packaged_task<long(long)> t; if (t.valid()) fail("valid", "empty task valid");
        must(bf::future_errc::no_state, "call of an empty task", [&] { t(1); });
        must(bf::future_errc::no_state, "get_future of an empty task", [&] { t.get_future(); });
        must(bf::future_errc::no_state, "reset of an empty task", [&] { t.reset(); });
        bf::packaged_task<long(long)> t2([](long x) { return x * 3; }); bf::future<long> tf = t2.get_future();
        must(bf::future_errc::future_already_retrieved, "second get_future of a task", [&] { t2.get_future(); });
        t = std::move(t2); if (t2.valid() || !t.valid()) fail("valid", "moved task: valid() wrong");
        t(5); if (tf.get() != 15) fail("wrong-result", "task result wrong"); must(bf::future_errc::promise_already_satisfied, "second call of a task", [&] { t(5); });
        t.reset(); tf = t.get_future(); t(6); if (tf.get() != 18) fail("wrong-result", "task result wrong after reset");
        // a promise whose future was dropped can still be satisfied; a future of nobody is broken at once
        bf::promise<long> d; { bf::future<long> x = d.get_future(); } d.set_value(3);
        bf::future<long> b; { bf::promise<long> x; b = x.get_future(); } Fut<Tok> dummy; (void)dummy;
        try { b.get(); fail("wrong-result", "broken promise delivered a value"); } catch (bf::broken_promise const&) {}
    }
    tok_done();
}
