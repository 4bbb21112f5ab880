// C07 buffered channel: linearizable bounded FIFO; C08 progress and close.
#include "chan.h"

namespace {
// the reference: a bounded queue.  res = result code * 4096 + value
struct Queue {
    std::vector<short> q; size_t cap; bool closed = false;
    bool step(LinOp const& o) {
        int r = (int)(o.res / 4096); long v = o.res % 4096;
        if (o.kind == CLOSE) { closed = true; return true; }
        if (o.kind == ISCLOSED) return (r == OK) == closed;
        if (o.kind <= PUSHUNTIL) {
            switch (r) {
            case OK: if (closed || q.size() >= cap) return false; q.push_back((short)o.arg); return true;
            case CLOSED: return closed;
            case FULL: return (o.kind == TRYPUSH_C || o.kind == TRYPUSH_M) && !closed && q.size() == cap;
            case TIMEOUT: return o.kind >= PUSHFOR_C && !closed && q.size() == cap;
            default: return false;
            }
        }
        switch (r) {
        case OK: if (q.empty() || q.front() != (short)v) return false; q.erase(q.begin()); return true;
        case CLOSED: return closed && q.empty();
        case EMPTY: return o.kind == TRYPOP && !closed && q.empty();
        case TIMEOUT: return o.kind >= POPFOR && !closed && q.empty();
        default: return false;
        }
    }
    void key(std::string& s) const { s.push_back(closed ? 'c' : 'o'); s.append((const char*)q.data(), q.size() * 2); }
};


template<class T> struct Chan {
    bf::buffered_channel<T> c; std::vector<LinOp> h; size_t cap; bool far = false; long pushed_ok = 0, popped_ok = 0; bool close_returned = false, rt = false;
    explicit Chan(size_t n) : c(n), cap(n) {}
    ~Chan() { Quiet q; std::vector<LinOp>().swap(h); }

    template<class U = T> typename std::enable_if<std::is_copy_constructible<U>::value, St>::type pushc(U& v, int kind, int64_t dur) {
        switch (kind) { case PUSH_C: return c.push(const_cast<U const&>(v)); case TRYPUSH_C: return c.try_push(const_cast<U const&>(v)); default: return c.push_wait_for(const_cast<U const&>(v), nanoseconds(dur)); }
    }
    template<class U = T> typename std::enable_if<!std::is_copy_constructible<U>::value, St>::type pushc(U& v, int kind, int64_t dur) {
        switch (kind) { case PUSH_C: return c.push(std::move(v)); case TRYPUSH_C: return c.try_push(std::move(v)); default: return c.push_wait_for(std::move(v), nanoseconds(dur)); }
    }
    // performs one operation, returns its result code; value popped in out
    int op(int me, int kind, long val, int64_t dur, long* out) {
        uint64_t inv; int64_t deadline = 0;
        { Quiet q; inv = sim::seq(); deadline = sim::now_ns() + dur; if (kind == PUSHFOR_C || kind == PUSHFOR_M || kind == PUSHUNTIL || kind == POPFOR || kind == POPUNTIL) sim::deadline_hint(deadline); }
        bool closed_before = close_returned;
        sim::logf("fiber %d: %s %ld", me, kn[kind], val);
        int r = OK; long v = 0;
        switch (kind) {
        case PUSH_C: case TRYPUSH_C: case PUSHFOR_C: { T t = make<T>(val); r = rs(pushc(t, kind, dur)); if (std::is_copy_constructible<T>::value && value_of(t) != val) { Quiet q; fail("altered-value", "push(const&) altered its argument"); } break; }
        case PUSH_M: r = rs(c.push(make<T>(val))); break;
        case TRYPUSH_M: r = rs(c.try_push(make<T>(val))); break;
        case PUSHFOR_M: r = rs(c.push_wait_for(make<T>(val), nanoseconds(dur))); break;
        case PUSHUNTIL: if (val & 1) { T t = make<T>(val); r = rs(c.push_wait_until(std::move(t), at_ns(deadline))); } else r = rs(c.push_wait_until(make<T>(val), at_ns(deadline))); break;
        case POP: { T t; r = rs(c.pop(t)); if (r == OK) v = value_of(t); break; }
        case TRYPOP: { T t; r = rs(c.try_pop(t)); if (r == OK) v = value_of(t); break; }
        case POPFOR: { T t; r = rs(c.pop_wait_for(t, nanoseconds(dur))); if (r == OK) v = value_of(t); break; }
        case POPUNTIL: { T t; r = rs(c.pop_wait_until(t, at_ns(deadline))); if (r == OK) v = value_of(t); break; }
        case VPOP: try { T t = c.value_pop(); v = value_of(t); } catch (bf::fiber_error const& e) { r = CLOSED; if (e.code() != std::errc::operation_not_permitted) { Quiet q; fail("error-code", "value_pop on a closed channel: error code %d", e.code().value()); } } break;
        case CLOSE: c.close(); break;
        case ISCLOSED: r = c.is_closed() ? OK : EMPTY; break;
        }
        Quiet q;
        sim::logf("fiber %d: %s -> %s %ld", me, kn[kind], sn[r], v);
        int64_t now = sim::now_ns();
        if (r == TIMEOUT && now < deadline) fail("early-timeout", "%s timed out %lld ns before its deadline", kn[kind], (long long)(deadline - now));
        bool timed = kind == PUSHFOR_C || kind == PUSHFOR_M || kind == PUSHUNTIL || kind == POPFOR || kind == POPUNTIL;
        if (far && timed && now >= deadline) fail("stranded", "%s ended only at its far deadline (%s)", kn[kind], sn[r]);
        if (closed_before && kind <= PUSHUNTIL && r != CLOSED) fail("closed-status", "%s after close() returned reported %s", kn[kind], sn[r]);
        if (kind == CLOSE) close_returned = true;
        if (r == OK && kind <= PUSHUNTIL) pushed_ok++;
        if (r == OK && kind >= POP && kind <= POPUNTIL) { popped_ok++; if (v <= 0 || v >= 4096) fail("altered-value", "popped %ld, which nobody pushed", v); }
        h.push_back(LinOp{inv, sim::seq(), kind, val, r * 4096 + v});
        if (out) *out = v;
        return r;
    }
    void check() {
        Quiet q;
        // every popped value was pushed successfully, once, and is popped once
        for (size_t i = 0; i < h.size(); ++i) if (h[i].kind >= POP && h[i].kind <= POPUNTIL && h[i].res / 4096 == OK) {
            long v = h[i].res % 4096; int src = 0;
            for (auto& o : h) { if (o.kind <= PUSHUNTIL && o.arg == v && o.res / 4096 == OK) src++; }
            if (src != 1) fail("exactly-once", "value %ld was popped but not successfully pushed", v);
            for (size_t k = i + 1; k < h.size(); ++k) if (h[k].kind >= POP && h[k].kind <= POPUNTIL && h[k].res == h[i].res) fail("exactly-once", "value %ld was popped twice", v);
        }
        if (h.size() > 26) { probe("history too long for the linearizability check"); return; }
        Queue m; m.cap = cap - 1; Lin<Queue> l(h);
        if (!l.ok(m)) fail("linearizability", "no sequential order of a queue of %d elements explains this history of %d operations", (int)cap - 1, (int)h.size());
    }
};

// random operations; a closer ends it, so nothing may stay blocked; full history check
template<class T> void random_ops(bool bad) {
    size_t cap = 2u << choose(3); Chan<T> ch(cap);
    Shape sh = draw_shape(3, 6, 2); Fleet fl; fl.th.resize(sh.threads); int total = 0; for (int k : sh.fibers) total += k;
    {
        Quiet q; int id = 0; long val = 1; int budget = 22;
        for (int t = 0; t < sh.threads; ++t) for (int f = 0; f < sh.fibers[t]; ++f, ++id) {
            int me = id; std::vector<Step> p; std::vector<long> vals; int n = 1 + (int)choose(5); int role = (int)choose(4);
            for (int i = 0; i < n && budget > 0; ++i, --budget) {
                Step s; bool push = role < 3 ? role == 0 || (role == 1 && choose(2)) : false; if (role == 3) push = choose(4) == 0;
                s.kind = draw_kind(push, false); s.dur = draw_dur(); s.pre = (int)choose(GAPS);
                if (choose(12) == 11) s.kind = ISCLOSED;
                if (id == total - 1) { if (s.kind == POP || s.kind == VPOP) s.kind = POPFOR; if (s.kind == PUSH_C || s.kind == PUSH_M) s.kind = PUSHFOR_M; }   // the closer never blocks for good
                p.push_back(s); vals.push_back(val++);
            }
            bool closer = id == total - 1; int g = (int)choose(GAPS), rep = (int)choose(6);
            fl.th[t].fibers.push_back(FiberProg{[&ch, p, vals, me, closer, g, rep] {
                for (size_t i = 0; i < p.size(); ++i) { gap(p[i].pre); ch.op(me, p[i].kind, vals[i], p[i].dur, nullptr); }
                if (closer) { for (int i = 0; i < rep; ++i) gap(g); ch.op(me, CLOSE, 0, 0, nullptr); }
            }, draw_policy(), 0});
        }
    }
    fl.run(); (void)bad;
    // drain: remaining values come out in order, then closed
    for (;;) { int r = ch.op(99, choose(2) ? POP : TRYPOP, 0, 0, nullptr); if (r == CLOSED) break; if (r != OK) fail("closed-status", "pop on a closed channel reported %s", sn[r]); }
    Quiet q;
    if (ch.pushed_ok != ch.popped_ok) fail("exactly-once", "%ld values pushed successfully, %ld popped", ch.pushed_ok, ch.popped_ok);
    ch.check();
}

// producers and consumers with quotas and no close until all is done: every value must get
// through, so a lost wakeup leaves somebody blocked
template<class T> void quotas(bool far) {
    size_t cap = 2u << choose(2); Chan<T> ch(cap); ch.far = far;
    Shape sh = draw_shape(3, 6, 2); Fleet fl; fl.th.resize(sh.threads); int total = 0; for (int k : sh.fibers) total += k;
    int prod = 1 + (int)choose(total - 1), cons = total - prod; 
    {
        Quiet q; int id = 0; long val = 1; int goal = (prod > cons ? prod : cons) * (1 + (int)choose(2)) + (int)choose(3);
        std::vector<int> perm = draw_perm(total);
        for (int t = 0; t < sh.threads; ++t) for (int f = 0; f < sh.fibers[t]; ++f, ++id) {
            int me = id, pid = perm[id]; 
            bool push = pid < prod; int idx = push ? pid : pid - prod, of = push ? prod : cons;
            int k = goal / of + (idx < goal % of ? 1 : 0);
            std::vector<Step> p; for (int i = 0; i < k; ++i) { Step s; s.kind = far ? draw_kind(push, choose(2)) : draw_kind(push, false); s.dur = far ? FAR_NS : draw_dur(); s.pre = (int)choose(GAPS); if (far && (s.kind == TRYPOP || s.kind == TRYPUSH_C || s.kind == TRYPUSH_M)) s.kind = push ? PUSH_M : POP; p.push_back(s); }
            long base = val; val += k;
            fl.th[t].fibers.push_back(FiberProg{[&ch, p, base, me] {
                for (size_t i = 0; i < p.size(); ++i) {
                    gap(p[i].pre);
                    for (int tries = 0;; ++tries) {
                        int kind = p[i].kind;
                        if (tries >= 2) kind = kind < POP ? PUSH_M : POP;        // give up on timed forms, block for good
                        int r = ch.op(me, kind, base + (long)i, p[i].dur, nullptr);
                        if (r == OK) break;
                        if (r == CLOSED) { Quiet q; fail("closed-status", "%s reported closed on an open channel", kn[kind]); }
                        probe("channel operation retried");
                    }
                }
            }, draw_policy(), 0});
        }
    }
    fl.run();
    Quiet q;
    if (ch.pushed_ok != ch.popped_ok) fail("exactly-once", "%ld pushed, %ld popped", ch.pushed_ok, ch.popped_ok);
    ch.check();
}

// close() frees every blocked producer / consumer
template<class T> void close_frees() {
    Chan<T> ch(2); bool push = choose(2); Shape sh = draw_shape(3, 6, 2); Fleet fl; fl.th.resize(sh.threads);
    {
        Quiet q; int id = 0; 
        for (int t = 0; t < sh.threads; ++t) for (int f = 0; f < sh.fibers[t]; ++f, ++id) {
            int me = id; int g = (int)choose(GAPS), g2 = (int)choose(GAPS), n = 1 + (int)choose(3); bool timed = choose(3) == 2;
            if (!me) fl.th[t].fibers.push_back(FiberProg{[&ch, me, g, g2, n] { gap(g); for (int i = 0; i < n; ++i) gap(g2); ch.op(me, CLOSE, 0, 0, nullptr); if (n == 3) ch.op(me, CLOSE, 0, 0, nullptr); }, draw_policy(), 0});
            else if (push) fl.th[t].fibers.push_back(FiberProg{[&ch, me, g, timed] { gap(g); for (long i = 0; i < 6; ++i) { int r = ch.op(me, timed ? PUSHUNTIL : i & 1 ? PUSH_C : PUSH_M, me * 8 + i + 1, FAR_NS, nullptr); if (r == CLOSED) break; if (r == TIMEOUT) { Quiet q; fail("stranded", "push timed out at a far deadline on a closed channel"); } } }, draw_policy(), 0});
            else fl.th[t].fibers.push_back(FiberProg{[&ch, me, g, timed] { gap(g); for (;;) { int r = ch.op(me, timed ? POPUNTIL : me & 1 ? VPOP : POP, 0, FAR_NS, nullptr); if (r == CLOSED) break; if (r != OK) { Quiet q; fail("stranded", "pop reported %s", sn[r]); } } }, draw_policy(), 0});
        }
    }
    ch.far = true;
    fl.run();
    Quiet q; ch.check();
}

// iteration takes every value once, in order, until closed
template<class T> void iterate() {
    Chan<T> ch(2u << choose(2)); long n = choose(6); bool early = choose(3) == 2; Shape sh = draw_shape(2, 2, 2); Fleet fl; fl.th.resize(2); std::vector<long> got;
    int g = (int)choose(GAPS), g2 = (int)choose(GAPS); long stop = n ? (long)choose((unsigned)n) : 0;
    {
        Quiet q; got.reserve(16);
        fl.th[0].fibers.push_back(FiberProg{[&, n, g] { for (long i = 1; i <= n; ++i) { gap(g); T t = make<T>(i); ch.c.push(std::move(t)); } gap(g); ch.c.close(); }, draw_policy(), 0});
        fl.th[sh.threads - 1].fibers.push_back(FiberProg{[&, g2, early, stop] { 
            for (auto& x : ch.c) { long v = value_of(x); { Quiet q; got.push_back(v); } gap(g2); if (early && (long)got.size() > stop) { ch.c.close(); break; } } }, draw_policy(), 0});
    }
    fl.run();
    Quiet q;
    if (!early && (long)got.size() != n) fail("exactly-once", "iteration delivered %d of %ld values", (int)got.size(), n);
    for (size_t i = 0; i < got.size(); ++i) if (got[i] != (long)i + 1) fail("exactly-once", "iteration delivered value %ld at position %d", got[i], (int)i);
}
}

SIM_SCENARIO(bchan_random, 5, "random operations of all forms and a close, whole history checked for linearizability") {
    faults_basic(); faults_clock();
    types([](auto* p) { random_ops<typename std::remove_pointer<decltype(p)>::type>(false); });
}
SIM_SCENARIO(bchan_quota, 4, "producers and consumers with quotas; timed operations give up and come back; nothing may hang") {
    faults_basic(); faults_clock();
    types([](auto* p) { quotas<typename std::remove_pointer<decltype(p)>::type>(false); });
}
SIM_SCENARIO(bchan_far, 2, "timed operations with far deadlines must be served by their partner") {
    faults_basic();
    types([](auto* p) { quotas<typename std::remove_pointer<decltype(p)>::type>(true); });
}
SIM_SCENARIO(bchan_close, 2, "close() frees everybody blocked") {
    faults_basic();
    types([](auto* p) { close_frees<typename std::remove_pointer<decltype(p)>::type>(); });
}
SIM_SCENARIO(bchan_iterate, 1, "range iteration, left early or exhausted") {
    faults_basic(); faults_clock();
    types([](auto* p) { iterate<typename std::remove_pointer<decltype(p)>::type>(); });
}
SIM_SCENARIO(bchan_capacity, 1, "capacities that are not a power of two, or below 2, are rejected; others hold capacity-1 elements") {
    unsigned cap = choose(20); bool good = cap >= 2 && !(cap & (cap - 1)), threw = false;
    try {
        bf::buffered_channel<long> c(cap);
        if (good) {
            for (unsigned i = 0; i + 1 < cap; ++i) if (c.try_push((long)i) != St::success) fail("linearizability", "channel of %u refused element %u", cap, i);
            if (c.try_push(99) != St::full) fail("linearizability", "channel of %u took more than %u elements", cap, cap - 1);
            if (c.push_wait_for(99, microseconds(3)) != St::timeout) fail("linearizability", "timed push on a full channel did not time out");
            long v; for (unsigned i = 0; i + 1 < cap; ++i) if (c.try_pop(v) != St::success || v != (long)i) fail("linearizability", "wrong element");
            if (c.try_pop(v) != St::empty) fail("linearizability", "try_pop of an empty channel did not report empty");
        }
    } catch (bf::fiber_error const& e) { threw = true; if (e.code() != std::errc::invalid_argument) fail("error-code", "wrong error code %d", e.code().value()); }
    if (threw == good) fail("capacity", "capacity %u was %s", cap, threw ? "rejected" : "accepted");
}
