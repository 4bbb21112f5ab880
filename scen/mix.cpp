// C28 programs composed of everything: a random message-passing program without deadlock and with
// one possible result runs over all primitives at once, under every scheduler; it has to end, with
// the result of its sequential execution, and everything received is ordered after what was sent.
#ifndef WITH_NUMA
#define WITH_NUMA
#endif
#include "common.h"
#include <deque>

namespace {
enum { E_PROMISE, E_SHARED, E_TASK, E_BCHAN, E_UCHAN, E_FLAG, E_FLAG_ANY, E_BARRIER, E_SPAWN, E_JOIN, E_ASYNC, E_CRIT, E_FSS, E_SLEEP, E_EXPIRE, E_YIELD, E_CALL, E_POOL, E_SEM, E_N };
struct Flag { bf::mutex m; bf::condition_variable cv; int up = 0; };
struct FlagAny { bf::recursive_timed_mutex m; bf::condition_variable_any cv; int up = 0; };
// a pool: some participants produce elements, the others consume all of them
struct Pool {
    std::unique_ptr<bf::buffered_channel<long>> b; std::unique_ptr<bf::unbuffered_channel<long>> u; int producers = 0, left = 0, total = 0, taken = 0; bool closing = false; std::vector<int> quota, first; std::vector<std::unique_ptr<sim::UData>> data; std::vector<int> seen; bf::mutex m;
    bool push(long v, int form, int64_t d) {
        auto S = bf::channel_op_status::success;
        if (u) { if (form == 1) { while (u->push_wait_for(v, nanoseconds(d)) != S) boost::this_fiber::yield(); return true; } return u->push(v) == S; }
        if (form == 1) { while (b->push_wait_for(v, nanoseconds(d)) != S) boost::this_fiber::yield(); return true; }
        if (form == 2) { while (b->try_push(v) != S) boost::this_fiber::yield(); return true; }
        return b->push(v) == S;
    }
    template<class C> bf::channel_op_status pop(C& c, long& v, int form, int64_t d) {
        if (form == 1) for (;;) { auto s = c.pop_wait_for(v, nanoseconds(d)); if (s != bf::channel_op_status::timeout) return s; boost::this_fiber::yield(); }
        return c.pop(v);
    }
    bool pop(long& v, int form, int64_t d) { auto s = bf::channel_op_status::empty; if (u) s = pop(*u, v, form, d); else if (form == 3) { while ((s = b->try_pop(v)) == bf::channel_op_status::empty) boost::this_fiber::yield(); } else s = pop(*b, v, form, d); if (s != bf::channel_op_status::success && s != bf::channel_op_status::closed) fail("channel", "pop of a pool: status %d", (int)s); return s == bf::channel_op_status::success; }
    void close() { if (u) u->close(); else b->close(); }
};
// a semaphore over a mutex and a condition variable: posters and takers, one notification per token
struct Sem {
    int type = 0; bf::mutex m; bf::recursive_mutex rm; bf::timed_mutex tm; bf::recursive_timed_mutex rtm; bf::condition_variable cv; bf::condition_variable_any any; int tokens = 0; std::vector<int> quota; int posters = 0;
    template<class L, class C> void post(L& l, C& c, int form) { std::unique_lock<L> lk(l); ++tokens; if (form == 0) c.notify_one(); else if (form == 1) c.notify_all(); else { lk.unlock(); c.notify_one(); } }
    template<class L, class C> void take(L& l, C& c, int form, int64_t d) {
        std::unique_lock<L> lk(l);
        if (form == 1) { while (!tokens) if (c.wait_for(lk, nanoseconds(d)) == bf::cv_status::timeout && !tokens) { lk.unlock(); boost::this_fiber::yield(); lk.lock(); } }
        else if (form == 2) while (!tokens) c.wait(lk); else c.wait(lk, [&] { return tokens > 0; });
        --tokens;
    }
    // waits once and leaves without a token; a notification it got in time is passed on
    template<class L, class C> void visit(L& l, C& c, int64_t d) { std::unique_lock<L> lk(l); if (!tokens && c.wait_for(lk, nanoseconds(d)) == bf::cv_status::no_timeout) c.notify_one(); }
    void visit(int64_t d) { switch (type) { case 0: visit(m, cv, d); break; case 1: visit(m, any, d); break; case 2: visit(rm, any, d); break; case 3: visit(tm, any, d); break; default: visit(rtm, any, d); } }
    void post(int form) { switch (type) { case 0: post(m, cv, form); break; case 1: post(m, any, form); break; case 2: post(rm, any, form); break; case 3: post(tm, any, form); break; default: post(rtm, any, form); } }
    void take(int form, int64_t d) { switch (type) { case 0: take(m, cv, form, d); break; case 1: take(m, any, form, d); break; case 2: take(rm, any, form, d); break; case 3: take(tm, any, form, d); break; default: take(rtm, any, form, d); } }
};
struct MEvent {
    int kind; std::vector<int> who; std::vector<int> form; uint64_t v = 0; int64_t d = 0; int k = 0;
    std::unique_ptr<bf::promise<long>> pr; bf::future<long> fu; bf::shared_future<long> sf; std::unique_ptr<bf::packaged_task<long(long)>> task; std::unique_ptr<bf::barrier> bar; int target = 0;
    std::unique_ptr<sim::UData> data, data2; std::unique_ptr<Pool> pool; std::unique_ptr<Sem> sem; int came[4] = {0, 0, 0, 0};
};
struct Part { std::vector<int> ev; int parent = -1; bool detached = false, joined = false; bf::fiber handle; long h = 0, want = 0; int pol = 0, stack = 0, fss_live = 0; };
long mixed(long h, long v) { return (long)(((uint64_t)h * 0x9e3779b97f4a7c15ull + (uint64_t)v * 0xbf58476d1ce4e5b9ull + 12345) >> 3); }

template<class F> long caught(F get) { try { get(); } catch (long v) { return v; } fail("wrong-value", "a future with an exception returned a value"); return 0; }

struct World {
    std::vector<MEvent> ev; std::vector<Part> part;
    std::vector<std::unique_ptr<bf::buffered_channel<long>>> bch; std::vector<std::unique_ptr<bf::unbuffered_channel<long>>> uch; std::vector<std::unique_ptr<Flag>> flag; std::vector<std::unique_ptr<FlagAny>> any;
    bf::mutex m0; bf::timed_mutex m1; bf::recursive_mutex m2; bf::recursive_timed_mutex m3; sim::UData cnt[4]; long cnt_want[4] = {0, 0, 0, 0}; int in[4] = {0, 0, 0, 0};
    bf::fiber_specific_ptr<long>* fss = nullptr; long fss_freed = 0, fss_made = 0; int n = 0;
    int chan(int a, int b) { return a * n + b; }

    long receive_flag(Flag& f, int form, int64_t d, int target);
    template<class L> void crit(L& m, int k) { std::unique_lock<L> lk(m); inside(k); }
    void inside(int k) { { Quiet q; if (in[k]++) fail("mutual-exclusion", "two fibers hold mutex %d", k); } cnt[k].set(cnt[k].get("counter of a mutex") + 1, "counter of a mutex"); sim::sync_point(); Quiet q; in[k]--; }
    template<class L> void crit_timed(L& m, int k, int form, int64_t d) {
        if (form == 0) { crit(m, k); return; }
        if (form == 3 && m.try_lock_for(nanoseconds(d))) m.unlock();
        while (form == 1 ? !m.try_lock_for(nanoseconds(d)) : form == 2 ? !m.try_lock_until(SC::now() + nanoseconds(d)) : !m.try_lock()) boost::this_fiber::yield();
        inside(k); m.unlock();
    }
    void run(int p);
    void exec(int p, int e, long& h);
};
World* W;
void fss_free(long* p) { { Quiet q; W->fss_freed++; } delete p; }

void World::exec(int p, int e, long& h) {
    MEvent& x = ev[(size_t)e]; size_t role = 0; { Quiet q; while (x.who[role] != p) role++; sim::logf("part %d: event %d kind %d role %d form %d", p, e, x.kind, (int)role, x.form[role]); }
    int form = x.form[role];
    switch (x.kind) {
    case E_PROMISE: case E_SHARED:
        if (role == 0) { x.data->set(h, "payload"); if (form == 3) x.pr->set_exception(std::make_exception_ptr(h)); else if (form) x.pr->set_value(h); else { std::unique_ptr<bf::promise<long>> pr; { Quiet q; pr = std::move(x.pr); } pr->set_value(h); pr.reset(); } h = mixed(h, 1); }
        else {
            long v;
            if (x.kind == E_PROMISE) {
                if (form == 1) while (x.fu.wait_for(nanoseconds(x.d)) != bf::future_status::ready) boost::this_fiber::yield();
                else if (form == 2) while (x.fu.wait_until(SC::now() + std::chrono::hours(1)) != bf::future_status::ready) boost::this_fiber::yield();
                if (x.form[0] == 3) v = caught([&] { return x.fu.get(); }); else v = x.fu.get();
            } else { bf::shared_future<long> c(x.sf); if (form == 1) while (c.wait_for(nanoseconds(x.d)) != bf::future_status::ready) boost::this_fiber::yield(); if (x.form[0] == 3) v = caught([&] { return c.get(); }); else v = c.get(); }
            if (x.data->get("payload") != v) fail("wrong-value", "future and payload differ"); h = mixed(h, v);
        }
        break;
    case E_TASK:
        if (role == 0) { x.data->set(h, "payload"); (*x.task)(h); h = mixed(h, 2); }
        else { x.fu.wait(); long v = x.form[0] == 3 ? caught([&] { return x.fu.get(); }) : x.fu.get(); if (x.data->get("payload") + 7 != v) fail("wrong-value", "task result and payload differ"); h = mixed(h, v); }
        break;
    case E_BCHAN: {
        auto& c = *bch[(size_t)chan(x.who[0], x.who[1])]; auto S = bf::channel_op_status::success;
        if (role == 0) {
            x.data->set(h, "payload");
            if (form == 0) { if (c.push(h) != S) fail("channel", "push"); }
            else if (form == 1) { while (c.push_wait_for(h, nanoseconds(x.d)) != S) boost::this_fiber::yield(); }
            else if (form == 2) { while (c.try_push(h) != S) boost::this_fiber::yield(); }
            else { if (c.push_wait_until(h, SC::time_point::max()) != S) fail("channel", "push without deadline"); }
            h = mixed(h, 3);
        } else {
            long v = 0;
            if (form == 0) { if (c.pop(v) != S) fail("channel", "pop"); }
            else if (form == 1) { while (c.pop_wait_for(v, nanoseconds(x.d)) != S) boost::this_fiber::yield(); }
            else if (form == 2) { while (c.try_pop(v) != S) boost::this_fiber::yield(); }
            else v = c.value_pop();
            if (x.data->get("payload") != v) fail("wrong-value", "buffered channel: element and payload differ"); h = mixed(h, v);
        }
        break; }
    case E_UCHAN: {
        auto& c = *uch[(size_t)chan(x.who[0], x.who[1])]; auto S = bf::channel_op_status::success;
        if (role == 0) {
            x.data->set(h, "payload");
            if (form == 0) { if (c.push(h) != S) fail("channel", "push"); }
            else if (form == 1) { while (c.push_wait_for(h, nanoseconds(x.d)) != S) boost::this_fiber::yield(); }
            else { if (c.push_wait_until(h, SC::time_point::max()) != S) fail("channel", "push without deadline"); }
            if (x.data2->get("answer") != x.target) fail("wrong-value", "the push returned before the element was taken"); h = mixed(h, 4);
        } else {
            long v = 0; x.data2->set(x.target, "answer");
            if (form == 0) { if (c.pop(v) != S) fail("channel", "pop"); }
            else if (form == 1) { while (c.pop_wait_for(v, nanoseconds(x.d)) != S) boost::this_fiber::yield(); }
            else v = c.value_pop();
            if (x.data->get("payload") != v) fail("wrong-value", "unbuffered channel: element and payload differ"); h = mixed(h, v);
        }
        break; }
    case E_FLAG: {
        Flag& f = *flag[(size_t)chan(x.who[0], x.who[1])];
        if (role == 0) { x.data->set(h, "payload"); std::unique_lock<bf::mutex> lk(f.m); f.up++; if (form == 0) f.cv.notify_all(); else if (form == 1) f.cv.notify_one(); else { lk.unlock(); f.cv.notify_one(); } h = mixed(h, 5); }
        else {
            std::unique_lock<bf::mutex> lk(f.m); auto up = [&] { return f.up >= x.target; };
            if (form == 0) f.cv.wait(lk, up); else if (form == 1) while (!f.cv.wait_for(lk, nanoseconds(x.d), up)) { lk.unlock(); boost::this_fiber::yield(); lk.lock(); } else if (form == 2) while (!up()) { if (f.cv.wait_until(lk, SC::now() + nanoseconds(x.d)) == bf::cv_status::timeout) { lk.unlock(); boost::this_fiber::yield(); lk.lock(); } } else while (!up()) f.cv.wait(lk);
            lk.unlock(); h = mixed(h, x.data->get("payload"));
        }
        break; }
    case E_FLAG_ANY: {
        FlagAny& f = *any[(size_t)chan(x.who[0], x.who[1])];
        if (role == 0) { x.data->set(h, "payload"); f.m.lock(); if (form) f.m.lock(); f.up++; f.cv.notify_all(); if (form) f.m.unlock(); f.m.unlock(); h = mixed(h, 6); }
        else {
            std::unique_lock<bf::recursive_timed_mutex> lk(f.m); auto up = [&] { return f.up >= x.target; };
            if (form == 0) f.cv.wait(lk, up); else while (!f.cv.wait_for(lk, nanoseconds(x.d), up)) { lk.unlock(); boost::this_fiber::yield(); lk.lock(); }
            lk.unlock(); h = mixed(h, x.data->get("payload"));
        }
        break; }
    case E_BARRIER: for (int r = 0; r <= x.k; ++r) { { Quiet q; x.came[r]++; } x.bar->wait(); Quiet q; if (x.came[r] != (int)x.who.size()) fail("wrong-value", "a barrier lets a fiber pass before all have come"); } h = mixed(h, e); break;
    case E_SPAWN: {
        int c = x.who[1]; Part& ch = part[(size_t)c]; x.data->set(h, "argument"); ch.h = h;
        bf::fiber f = Fleet::launch(*[&] { Quiet q; return std::unique_ptr<FiberProg>(new FiberProg{[this, c, e] { { Quiet q; } if (ev[(size_t)e].data->get("argument") != part[(size_t)c].h) fail("wrong-value", "argument of a fiber"); run(c); }, ch.pol ? bf::launch::dispatch : bf::launch::post, ch.stack}); }());
        if (ch.detached) f.detach(); else { Quiet q; ch.handle = std::move(f); }
        h = mixed(h, 7); break; }
    case E_JOIN: { Part& ch = part[(size_t)x.who[1]]; ch.handle.join(); h = mixed(h, x.data->get("result of a fiber")); break; }
    case E_ASYNC: { long a = h; bf::future<long> f = bf::async(form ? bf::launch::dispatch : bf::launch::post, [a](long b) { boost::this_fiber::yield(); return mixed(a, b); }, 8L); h = f.get(); break; }
    case E_CRIT: switch (x.k) { case 0: if (form == 3) { while (!m0.try_lock()) boost::this_fiber::yield(); inside(0); m0.unlock(); } else crit(m0, 0); break; case 1: crit_timed(m1, 1, form, x.d); break; case 2: if (form == 3) { m2.lock(); crit(m2, 2); m2.unlock(); } else crit(m2, 2); break; case 3: crit_timed(m3, 3, form, x.d); break; } break;
    case E_FSS: {
        long* cur = fss->get(); Part& me = part[(size_t)p]; { Quiet q; if (me.fss_live ? !cur || *cur != me.fss_live : cur != nullptr) fail("fss", "a fiber reads another value from its storage than it stored"); }
        long* np; { Quiet q; np = new long(e + 1); me.fss_live = e + 1; fss_made++; } fss->reset(np); h = mixed(h, 9); break; }
    case E_SLEEP: { int64_t t = sim::now_ns() + x.d; boost::this_fiber::sleep_for(nanoseconds(x.d)); { Quiet q; if (sim::now_ns() < t) fail("early", "sleep_for() returned early"); } break; }
    case E_EXPIRE: {
        int64_t t = sim::now_ns() + x.d; bool to = false;
        switch (form) {
        case 0: { bf::mutex m; bf::condition_variable c; std::unique_lock<bf::mutex> lk(m); to = !c.wait_for(lk, nanoseconds(x.d), [] { return false; }); break; }
        case 1: { bf::buffered_channel<long> c(2); long v; to = c.pop_wait_for(v, nanoseconds(x.d)) == bf::channel_op_status::timeout; break; }
        case 2: { bf::unbuffered_channel<long> c; to = c.push_wait_for(1, nanoseconds(x.d)) == bf::channel_op_status::timeout; break; }
        default: { bf::promise<long> pr; bf::future<long> f = pr.get_future(); to = f.wait_for(nanoseconds(x.d)) == bf::future_status::timeout; break; }
        }
        Quiet q; if (!to || sim::now_ns() < t) fail("early", "a wait for nothing did not time out, or too early"); break; }
    case E_YIELD: for (int i = 0; i <= form; ++i) boost::this_fiber::yield(); break;
    case E_POOL: {
        Pool& c = *x.pool;
        if ((int)role < c.producers) {
            for (int i = 0; i < c.quota[role]; ++i) { int el = c.first[role] + i; c.data[(size_t)el]->set(el + 1000, "element of a pool"); if (!c.push(el, form, x.d)) fail("channel", "push of a pool"); }
            if (c.closing) { c.m.lock(); bool last = --c.left == 0; c.m.unlock(); if (last) c.close(); }
        } else for (int i = 0; c.closing || i < c.quota[role]; ++i) {
            long v = -1; if (!c.pop(v, form, x.d)) { if (c.closing) break; fail("channel", "pop of a pool: closed"); }
            { Quiet q; if (v < 0 || v >= c.total) fail("wrong-value", "a pool delivers an element nobody sent"); if (c.seen[(size_t)v]++) fail("wrong-value", "a pool delivers an element twice"); c.taken++; }
            if (c.data[(size_t)v]->get("element of a pool") != v + 1000) fail("wrong-value", "payload of an element of a pool");
        }
        h = mixed(h, e); break; }
    case E_SEM: { Sem& c = *x.sem; if (!c.quota[role]) c.visit(x.d); for (int i = 0; i < c.quota[role]; ++i) if ((int)role < c.posters) c.post(form); else c.take(form, x.d); h = mixed(h, e); break; }
    case E_CALL: gap((unsigned)form); break;
    }
}
void World::run(int p) {
    Part& me = part[(size_t)p]; long h = me.h; auto id = boost::this_fiber::get_id();
    for (size_t i = 0; i < me.ev.size(); ++i) { exec(p, me.ev[i], h); if (boost::this_fiber::get_id() != id) fail("wrong-id", "part %d continues in another fiber", p); }
    { Quiet q; for (auto& x : ev) if (x.kind == E_JOIN && x.who[1] == p) { q.~Quiet(); x.data->set(h, "result of a fiber"); new (&q) Quiet; } me.h = h; me.joined = true; }
}
}
SIM_SCENARIO(mix_program, 1, "random deadlock-free programs over all primitives, against their sequential execution") {
    faults_basic(); faults_clock(); sim::set_budget(80000, 500000); sim::track_races(true); sim::weak_memory(true); sim::enable_fault(sim::F_STALE, 0.05);
    World w; W = &w; bf::fiber_specific_ptr<long> fss(fss_free); w.fss = &fss;
    static const int al[] = { A_DEFAULT, A_DEFAULT, A_ROUND_ROBIN, A_SHARED, A_SHARED_SUSPEND, A_STEAL, A_STEAL_SUSPEND, A_NUMA, A_NUMA_SUSPEND };
    Fleet fl; fl.algo = al[choose(9)]; bool migrating = Fleet::migrating(fl.algo); int threads = 1 + (int)choose(3);
    {
        Quiet q; fl.th.resize((size_t)threads);
        int first = 2 + (int)choose(5), most = first + (int)choose(4), n = first; w.n = most; w.part.resize((size_t)most);
        w.bch.resize((size_t)(most * most)); w.uch.resize((size_t)(most * most)); w.flag.resize((size_t)(most * most)); w.any.resize((size_t)(most * most));
        std::vector<int> alive; for (int i = 0; i < first; ++i) { alive.push_back(i); w.part[(size_t)i].h = w.part[(size_t)i].want = i * 77 + 1; }
        int steps = 4 + (int)choose(22); std::vector<int> ups((size_t)(most * most), 0), ups2((size_t)(most * most), 0); w.ev.reserve(128); std::vector<std::function<void()>> ref;
        unsigned bias = choose(4) ? E_N : choose(E_N);
        static const int64_t ds[] = { 1500, 6000, 25000, 400000 };
        auto add = [&](int kind, std::vector<int> who) -> MEvent& {
            w.ev.emplace_back(); MEvent& x = w.ev.back(); x.kind = kind; x.who = who; for (size_t i = 0; i < who.size(); ++i) x.form.push_back((int)choose(4)); x.d = ds[choose(4)] + (int64_t)choose(1000); x.k = (int)choose(4);
            x.data.reset(new sim::UData(-1)); x.data2.reset(new sim::UData(-1)); x.target = (int)w.ev.size();
            for (int p : who) w.part[(size_t)p].ev.push_back((int)w.ev.size() - 1); return x; };
        std::function<void(int, int)> join = [&](int p, int c) {
            for (int g = 0; g < n; ++g) if (w.part[(size_t)g].parent == c) { for (int a : alive) if (a == g) { join(c, g); break; } }
            for (size_t i = 0; i < alive.size(); ++i) if (alive[i] == c) alive.erase(alive.begin() + (long)i);
            if (w.part[(size_t)c].detached) { w.part[(size_t)c].ev.size(); MEvent& x = add(E_PROMISE, {c, p}); x.pr.reset(new bf::promise<long>()); x.fu = x.pr->get_future(); Part &a = w.part[(size_t)c], &b = w.part[(size_t)p]; b.want = mixed(b.want, a.want); a.want = mixed(a.want, 1); return; }
            w.ev.emplace_back(); MEvent& x = w.ev.back(); x.kind = E_JOIN; x.who = {p, c}; x.form = {0, 0}; x.data.reset(new sim::UData(-1)); w.part[(size_t)p].ev.push_back((int)w.ev.size() - 1);
            Part &a = w.part[(size_t)p], &b = w.part[(size_t)c]; a.want = mixed(a.want, b.want); };
        for (int s = 0; s < steps; ++s) {
            int kind = (int)(bias < E_N && choose(2) ? bias : choose(E_N)); std::vector<int> pm = draw_perm((int)alive.size()); int p = alive[(size_t)pm[0]], p2 = alive.size() > 1 ? alive[(size_t)pm[1]] : -1;
            if (p2 < 0 && (kind <= E_FLAG_ANY || kind == E_BARRIER || kind == E_POOL || kind == E_SEM)) continue;
            Part &a = w.part[(size_t)p], &b = w.part[(size_t)(p2 < 0 ? 0 : p2)]; size_t ch = p2 < 0 ? 0 : (size_t)w.chan(p, p2);
            switch (kind) {
            case E_PROMISE: { MEvent& x = add(kind, {p, p2}); x.pr.reset(new bf::promise<long>()); x.fu = x.pr->get_future(); b.want = mixed(b.want, a.want); a.want = mixed(a.want, 1); break; }
            case E_SHARED: { std::vector<int> who; for (int i : pm) if (who.size() < 2 || choose(2)) who.push_back(alive[(size_t)i]); MEvent& x = add(kind, who); x.pr.reset(new bf::promise<long>()); x.sf = x.pr->get_future().share(); for (size_t i = 1; i < who.size(); ++i) { Part& r = w.part[(size_t)who[i]]; r.want = mixed(r.want, a.want); } a.want = mixed(a.want, 1); break; }
            case E_TASK: { MEvent& x = add(kind, {p, p2}); x.task.reset(new bf::packaged_task<long(long)>([thrown = x.form[0] == 3](long v) -> long { if (thrown) throw v + 7; return v + 7; })); x.fu = x.task->get_future(); b.want = mixed(b.want, a.want + 7); a.want = mixed(a.want, 2); break; }
            case E_BCHAN: { if (!w.bch[ch]) w.bch[ch].reset(new bf::buffered_channel<long>(2u << choose(2))); add(kind, {p, p2}); b.want = mixed(b.want, a.want); a.want = mixed(a.want, 3); break; }
            case E_UCHAN: { if (!w.uch[ch]) w.uch[ch].reset(new bf::unbuffered_channel<long>()); MEvent& x = add(kind, {p, p2}); x.form[0] %= 3; x.form[1] %= 3; if (x.form[0] == 1 && x.form[1] == 1) x.form[0] = 0; if (x.d < 400000) x.d = 400000; b.want = mixed(b.want, a.want); a.want = mixed(a.want, 4); break; }
            case E_FLAG: { if (!w.flag[ch]) w.flag[ch].reset(new Flag()); MEvent& x = add(kind, {p, p2}); x.target = ++ups[ch]; b.want = mixed(b.want, a.want); a.want = mixed(a.want, 5); break; }
            case E_FLAG_ANY: { if (!w.any[ch]) w.any[ch].reset(new FlagAny()); MEvent& x = add(kind, {p, p2}); x.target = ++ups2[ch]; x.form[0] %= 2; b.want = mixed(b.want, a.want); a.want = mixed(a.want, 6); break; }
            case E_BARRIER: { std::vector<int> who; for (int i : pm) if (who.size() < 2 || choose(2)) who.push_back(alive[(size_t)i]); MEvent& x = add(kind, who); x.bar.reset(new bf::barrier(who.size())); for (int i : who) w.part[(size_t)i].want = mixed(w.part[(size_t)i].want, (long)w.ev.size() - 1); break; }
            case E_POOL: case E_SEM: {
                std::vector<int> who; for (int i : pm) if (who.size() < 2 || choose(4)) who.push_back(alive[(size_t)i]);
                MEvent& x = add(kind, who); int g = (int)who.size(), prod = 1 + (int)choose((unsigned)(g - 1)), total = 0; std::vector<int> quota((size_t)g, 0), first((size_t)g, 0);
                for (int i = 0; i < prod; ++i) { first[(size_t)i] = total; quota[(size_t)i] = 1 + (int)choose(4); total += quota[(size_t)i]; }
                int takers = g - prod; if (kind == E_SEM && takers > 1) takers -= (int)choose((unsigned)takers);
                for (int i = 0; i < total; ++i) quota[(size_t)(prod + (int)choose((unsigned)takers))]++;
                if (kind == E_SEM) { x.sem.reset(new Sem()); x.sem->type = (int)choose(5); x.sem->posters = prod; x.sem->quota = quota; }
                else {
                    x.pool.reset(new Pool()); Pool& c = *x.pool; c.producers = c.left = prod; c.total = total; c.quota = quota; c.first = first; c.closing = choose(2); c.seen.assign((size_t)total, 0);
                    if (choose(2)) { c.u.reset(new bf::unbuffered_channel<long>()); if (x.d < 400000) x.d = 400000; bool left = choose(2); for (int i = 0; i < g; ++i) if ((i < prod) == left && x.form[(size_t)i] == 1) x.form[(size_t)i] = 0; } else c.b.reset(new bf::buffered_channel<long>(2u << choose(2)));
                    for (int i = 0; i < total; ++i) c.data.emplace_back(new sim::UData(-1));
                }
                for (int i : who) w.part[(size_t)i].want = mixed(w.part[(size_t)i].want, (long)w.ev.size() - 1);
                break; }
            case E_SPAWN: { if (n >= most) break; int c = n++; Part& k = w.part[(size_t)c]; MEvent& x = add(kind, {p}); x.who.push_back(c); x.form.push_back(0); k.parent = p; k.detached = !migrating && choose(3) == 2; k.pol = (int)choose(2); k.stack = (int)choose(4); k.want = a.want; alive.push_back(c); a.want = mixed(a.want, 7); break; }
            case E_JOIN: { if (a.parent >= 0 && choose(2)) join(a.parent, p); break; }
            case E_ASYNC: add(kind, {p}).form[0] %= 2; a.want = mixed(a.want, 8); break;
            case E_CRIT: w.cnt_want[add(kind, {p}).k]++; break;
            case E_FSS: add(kind, {p}); a.want = mixed(a.want, 9); break;
            case E_CALL: add(kind, {p}).form[0] = (int)choose(GAPS); break;
            default: add(kind, {p}); break;
            }
        }
        for (int c = 0; c < n; ++c) if (w.part[(size_t)c].parent >= 0) for (int x : alive) if (x == c) { join(w.part[(size_t)c].parent, c); break; }
        w.part.resize((size_t)n);
        std::vector<bool> main((size_t)threads, false);
        for (int p = 0; p < first; ++p) { int t = (int)choose((unsigned)threads); if (!main[(size_t)t] && choose(3) == 2) { main[(size_t)t] = true; fl.th[(size_t)t].main_fn = [&w, p] { w.run(p); }; } else fl.th[(size_t)t].fibers.push_back(FiberProg{[&w, p] { w.run(p); }, draw_policy(), (int)choose(4)}); }
    }
    fl.run();
    Quiet q;
    for (size_t p = 0; p < w.part.size(); ++p) { Part& a = w.part[p]; if (!a.joined) fail("lost", "part %zu has not ended", p); if (a.h != a.want) fail("wrong-value", "part %zu ends with another result than its sequential execution", p); }
    for (int k = 0; k < 4; ++k) if (w.cnt[k].v != w.cnt_want[k]) fail("mutual-exclusion", "mutex %d: %ld increments of %ld", k, w.cnt[k].v, w.cnt_want[k]);
    for (auto& x : w.ev) { if (x.pool && x.pool->taken != x.pool->total) fail("wrong-value", "%d of %d elements of a pool were delivered", x.pool->taken, x.pool->total); if (x.sem && x.sem->tokens) fail("wrong-value", "%d tokens left", x.sem->tokens); }
    if (w.fss_freed != w.fss_made) fail("fss", "%ld of %ld stored values were cleaned up", w.fss_freed, w.fss_made);
    std::vector<MEvent>().swap(w.ev); std::vector<Part>().swap(w.part); std::vector<Fleet::Th>().swap(fl.th);
}
