// C09 unbuffered channel: hand-over to exactly one consumer; C10 progress and close.
#include "chan.h"

namespace {

template<class T> struct Ren {
    bf::unbuffered_channel<T> c; std::vector<LinOp> h; bool far = false; long pushed_ok = 0, popped_ok = 0;
    uint64_t close_inv = ~0ull; bool close_returned = false;
    ~Ren() { Quiet q; std::vector<LinOp>().swap(h); }

    template<class U = T> typename std::enable_if<std::is_copy_constructible<U>::value, St>::type pushc(U& v, int kind, int64_t dur) {
        if (kind == PUSH_C) return c.push(const_cast<U const&>(v));
        if (kind == PUSHUNTIL) return c.push_wait_until(const_cast<U const&>(v), at_ns(dur));
        return c.push_wait_for(const_cast<U const&>(v), nanoseconds(dur));
    }
    template<class U = T> typename std::enable_if<!std::is_copy_constructible<U>::value, St>::type pushc(U& v, int kind, int64_t dur) {
        if (kind == PUSH_C) return c.push(std::move(v));
        if (kind == PUSHUNTIL) return c.push_wait_until(std::move(v), at_ns(dur));
        return c.push_wait_for(std::move(v), nanoseconds(dur));
    }
    int op(int me, int kind, long val, int64_t dur) {
        uint64_t inv; int64_t deadline = 0;
        bool timed = kind == PUSHFOR_C || kind == PUSHFOR_M || kind == PUSHUNTIL || kind == POPFOR || kind == POPUNTIL;
        bool closed_before;
        { Quiet q; inv = sim::seq(); deadline = sim::now_ns() + dur; if (timed) sim::deadline_hint(deadline); closed_before = close_returned; if (kind == CLOSE && close_inv == ~0ull) close_inv = inv; }
        sim::logf("fiber %d: %s %ld", me, kn[kind], val);
        int r = OK; long v = 0;
        switch (kind) {
        case PUSH_C: case PUSHFOR_C: { T t = make<T>(val); r = rs(pushc(t, kind, dur)); if (std::is_copy_constructible<T>::value && value_of(t) != val) { Quiet q; fail("altered-value", "push(const&) altered its argument"); } break; }
        case PUSH_M: r = rs(c.push(make<T>(val))); break;
        case PUSHFOR_M: r = rs(c.push_wait_for(make<T>(val), nanoseconds(dur))); break;
        case PUSHUNTIL: if (val & 1) { T t = make<T>(val); r = rs(pushc(t, kind, deadline)); } else r = rs(c.push_wait_until(make<T>(val), at_ns(deadline))); break;
        case POP: { T t; r = rs(c.pop(t)); if (r == OK) v = value_of(t); break; }
        case POPFOR: { T t; r = rs(c.pop_wait_for(t, nanoseconds(dur))); if (r == OK) v = value_of(t); break; }
        case POPUNTIL: { T t; r = rs(c.pop_wait_until(t, at_ns(deadline))); if (r == OK) v = value_of(t); break; }
        case VPOP: try { T t = c.value_pop(); v = value_of(t); } catch (bf::fiber_error const& e) { r = CLOSED; if (e.code() != std::errc::operation_not_permitted) { Quiet q; fail("error-code", "value_pop on a closed channel: error code %d", e.code().value()); } } break;
        case CLOSE: c.close(); break;
        case ISCLOSED: r = c.is_closed() ? OK : EMPTY; break;
        }
        Quiet q;
        sim::logf("fiber %d: %s -> %s %ld", me, kn[kind], sn[r], v);
        int64_t now = sim::now_ns(); uint64_t ret = sim::seq();
        if (r == EMPTY && kind != ISCLOSED) fail("status", "%s reported empty", kn[kind]);
        if (r == FULL) fail("status", "%s reported full", kn[kind]);
        if (r == TIMEOUT && !timed) fail("status", "%s reported timeout", kn[kind]);
        if (r == TIMEOUT && now < deadline) fail("early-timeout", "%s timed out %lld ns before its deadline", kn[kind], (long long)(deadline - now));
        if (far && timed && now >= deadline) fail("stranded", "%s ended only at its far deadline (%s)", kn[kind], sn[r]);
        if (closed_before && kind <= PUSHUNTIL && r != CLOSED) fail("closed-status", "%s begun after close() returned reported %s", kn[kind], sn[r]);
        if (r == CLOSED && close_inv > ret) fail("closed-status", "%s reported closed on an open channel", kn[kind]);
        if (kind == ISCLOSED && ((r == OK && close_inv > ret) || (r != OK && closed_before))) fail("closed-status", "is_closed is wrong");
        if (kind == CLOSE) close_returned = true;
        if (r == OK && kind <= PUSHUNTIL) pushed_ok++;
        if (r == OK && kind >= POP && kind <= POPUNTIL) { popped_ok++; if (v <= 0 || v >= 4096) fail("altered-value", "popped %ld, which nobody pushed", v); }
        h.push_back(LinOp{inv, ret, kind, val, r * 4096 + v});
        return r;
    }
    // at the end of the run: the history of hand-overs
    void check() {
        Quiet q;
        std::vector<std::pair<LinOp*, LinOp*>> m;        // push, pop
        for (auto& p : h) {
            if (p.kind >= POP && p.kind <= POPUNTIL && p.res / 4096 == OK) {
                long v = p.res % 4096; LinOp* src = nullptr;
                for (auto& o : h) if (o.kind <= PUSHUNTIL && o.arg == v) {
                    if (o.res / 4096 != OK) { if (o.ret < p.ret || true) fail("exactly-once", "value %ld was received although its push reported %s", v, sn[o.res / 4096]); }
                    src = &o;
                }
                if (!src) fail("altered-value", "value %ld was popped but never pushed", v);
                if (src->ret < p.inv) fail("handover", "push of %ld returned before the pop that received it began", v);
                if (p.ret < src->inv) fail("handover", "value %ld was received before it was pushed", v);
                for (auto& x : m) if (x.first == src) fail("exactly-once", "value %ld was received twice", v);
                m.push_back(std::make_pair(src, &p));
            }
        }
        for (auto& o : h) if (o.kind <= PUSHUNTIL && o.res / 4096 == OK) {
            bool f = false; for (auto& x : m) f |= x.first == &o;
            if (!f) fail("exactly-once", "push of %ld reported success but nobody received the value", o.arg);
        }
        for (auto& a : m) for (auto& b : m) if (a.first->ret < b.first->inv && b.second->ret < a.second->inv) fail("order", "value %ld was pushed before %ld but received after it", a.first->arg, b.first->arg);
    }
};

static int ukind(bool push, bool timed) {
    int k = draw_kind(push, timed);
    if (k == TRYPUSH_C) k = PUSH_C; if (k == TRYPUSH_M) k = PUSH_M; if (k == TRYPOP) k = POPFOR; return k;
}

template<class T> void random_ops() {
    Ren<T> ch; Shape sh = draw_shape(3, 6, 2); Fleet fl; fl.th.resize(sh.threads); int total = 0; for (int k : sh.fibers) total += k;
    {
        Quiet q; int id = 0; long val = 1;
        for (int t = 0; t < sh.threads; ++t) for (int f = 0; f < sh.fibers[t]; ++f, ++id) {
            int me = id; std::vector<Step> p; int n = 1 + (int)choose(5), role = (int)choose(3);
            bool closer = id == total - 1; int g = (int)choose(GAPS), rep = (int)choose(6);
            for (int i = 0; i < n; ++i) {
                Step s; bool push = role == 0 || (role == 1 && choose(2));
                s.kind = ukind(push, closer); s.dur = draw_dur(); s.pre = (int)choose(GAPS); if (choose(12) == 11) s.kind = ISCLOSED; p.push_back(s);
            }
            long base = val; val += n; bool again = choose(4) == 3;
            fl.th[t].fibers.push_back(FiberProg{[&ch, p, base, me, closer, g, rep, again] {
                for (size_t i = 0; i < p.size(); ++i) { gap(p[i].pre); ch.op(me, p[i].kind, base + (long)i, p[i].dur); }
                if (closer) { for (int i = 0; i < rep; ++i) gap(g); ch.op(me, CLOSE, 0, 0); if (again) ch.op(me, CLOSE, 0, 0); }
            }, draw_policy(), 0});
        }
    }
    fl.run();
    for (int i = 0; i < 3; ++i) { int r = ch.op(99, i ? VPOP : POP, 0, 0); if (r != CLOSED) fail("closed-status", "pop of a closed channel without pushers reported %s", sn[r]); }
    if (ch.op(99, PUSH_C, 4000, 0) != CLOSED) fail("closed-status", "push on a closed channel");
    ch.check();
}

// quotas of producers and consumers, no close: timed operations give up and come back
template<class T> void quotas(bool far) {
    Ren<T> ch; ch.far = far; Shape sh = draw_shape(3, 6, 2); Fleet fl; fl.th.resize(sh.threads); int total = 0; for (int k : sh.fibers) total += k;
    int prod = 1 + (int)choose(total - 1), cons = total - prod;
    {
        Quiet q; int id = 0; long val = 1; int goal = (prod > cons ? prod : cons) * (1 + (int)choose(2)) + (int)choose(3);
        std::vector<int> perm = draw_perm(total);
        for (int t = 0; t < sh.threads; ++t) for (int f = 0; f < sh.fibers[t]; ++f, ++id) {
            int me = id, pid = perm[id]; bool push = pid < prod; int idx = push ? pid : pid - prod, of = push ? prod : cons;
            int k = goal / of + (idx < goal % of ? 1 : 0);
            std::vector<Step> p; for (int i = 0; i < k; ++i) { Step s; s.kind = ukind(push, far && choose(2)); s.dur = far ? FAR_NS : draw_dur(); s.pre = (int)choose(GAPS); p.push_back(s); }
            long base = val; val += 3 * k;
            fl.th[t].fibers.push_back(FiberProg{[&ch, p, base, me] {
                for (size_t i = 0; i < p.size(); ++i) {
                    gap(p[i].pre);
                    for (int tries = 0;; ++tries) {
                        int kind = p[i].kind;
                        if (tries >= 2) kind = kind < POP ? PUSH_M : POP;
                        int r = ch.op(me, kind, base + 3 * (long)i + (tries > 2 ? 2 : tries), p[i].dur);
                        if (r == OK) break;
                        if (r == CLOSED) { Quiet q; fail("closed-status", "%s reported closed on an open channel", kn[kind]); }
                        probe("channel operation retried");
                    }
                }
            }, draw_policy(), 0});
        }
    }
    fl.run();
    ch.check();
}

template<class T> void close_frees() {
    Ren<T> ch; int mode = (int)choose(3); Shape sh = draw_shape(3, 6, 2); Fleet fl; fl.th.resize(sh.threads);
    {
        Quiet q; int id = 0;
        for (int t = 0; t < sh.threads; ++t) for (int f = 0; f < sh.fibers[t]; ++f, ++id) {
            int me = id, g = (int)choose(GAPS), g2 = (int)choose(GAPS), n = 1 + (int)choose(3); bool timed = choose(3) == 2, push = mode == 0 || (mode == 2 && choose(2));
            if (!me) fl.th[t].fibers.push_back(FiberProg{[&ch, me, g, g2, n] { gap(g); for (int i = 0; i < n; ++i) gap(g2); ch.op(me, CLOSE, 0, 0); if (n == 3) ch.op(me, CLOSE, 0, 0); }, draw_policy(), 0});
            else fl.th[t].fibers.push_back(FiberProg{[&ch, me, g, timed, push] {
                gap(g);
                for (long i = 0; i < 40; ++i) {
                    int r = push ? ch.op(me, timed ? i & 1 ? PUSHUNTIL : PUSHFOR_M : i & 1 ? PUSH_C : PUSH_M, me * 64 + i + 1, FAR_NS) : ch.op(me, timed ? POPUNTIL : me & 1 ? VPOP : POP, 0, FAR_NS);
                    if (r == CLOSED) break;
                    if (r != OK) { Quiet q; fail("stranded", "reported %s", sn[r]); }
                    gap(4);
                }
            }, draw_policy(), 0});
        }
    }
    ch.far = true;
    fl.run(); ch.check();
}

template<class T> void iterate() {
    Ren<T> ch; long n = choose(6); bool early = choose(3) == 2; Shape sh = draw_shape(2, 2, 2); Fleet fl; fl.th.resize(2); std::vector<long> got; long ok = 0;
    int g = (int)choose(GAPS), g2 = (int)choose(GAPS); long stop = n ? (long)choose((unsigned)n) : 0;
    {
        Quiet q; got.reserve(16);
        fl.th[0].fibers.push_back(FiberProg{[&, n, g] { for (long i = 1; i <= n; ++i) { gap(g); T t = make<T>(i); if (ch.c.push(std::move(t)) == St::success) ok++; } gap(g); ch.c.close(); }, draw_policy(), 0});
        fl.th[sh.threads - 1].fibers.push_back(FiberProg{[&, g2, early, stop] { for (auto& x : ch.c) { long v = value_of(x); { Quiet q; got.push_back(v); } gap(g2); if (early && (long)got.size() > stop) { ch.c.close(); break; } } }, draw_policy(), 0});
    }
    fl.run();
    Quiet q;
    if (ok != (long)got.size()) fail("exactly-once", "%ld pushes succeeded, %d values iterated", ok, (int)got.size());
    if (!early && (long)got.size() != n) fail("exactly-once", "iteration delivered %d of %ld values", (int)got.size(), n);
    for (size_t i = 0; i < got.size(); ++i) if (got[i] != (long)i + 1) fail("order", "iteration delivered value %ld at position %d", got[i], (int)i);
}
}

SIM_SCENARIO(uchan_random, 5, "random operations of all forms and a close racing with them; hand-over history checked") {
    faults_basic(); faults_clock();
    types([](auto* p) { random_ops<typename std::remove_pointer<decltype(p)>::type>(); });
}
SIM_SCENARIO(uchan_quota, 4, "producers and consumers with quotas; timed operations give up and come back; nothing may hang") {
    faults_basic(); faults_clock();
    types([](auto* p) { quotas<typename std::remove_pointer<decltype(p)>::type>(false); });
}
SIM_SCENARIO(uchan_far, 2, "timed operations with far deadlines must be served by their partner") {
    faults_basic();
    types([](auto* p) { quotas<typename std::remove_pointer<decltype(p)>::type>(true); });
}
SIM_SCENARIO(uchan_close, 3, "close() frees everybody blocked") {
    faults_basic();
    types([](auto* p) { close_frees<typename std::remove_pointer<decltype(p)>::type>(); });
}
SIM_SCENARIO(uchan_iterate, 1, "range iteration, left early or exhausted") {
    faults_basic(); faults_clock();
    types([](auto* p) { iterate<typename std::remove_pointer<decltype(p)>::type>(); });
}
