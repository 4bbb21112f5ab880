// Trees of fibers with exactly-once, join and placement checks (C13, C15, C16).
#pragma once
#include "common.h"

namespace {

// who runs on which OS thread, as seen by the program
struct Where {
    int run[sim::MAXT]; int home[64];
    Where() { for (int& r : run) r = -1; for (int& h : home) h = -1; }
    void resumed(int me, bool migrate = false) {
        Quiet q; int t = sim::tid();
        if (home[me] < 0) home[me] = t;
        else if (home[me] != t) { if (!migrate) fail("migrated", "fiber %d was started on thread %d and continues on thread %d under round_robin", me, home[me], t); home[me] = t; }
        for (int i = 0; i < sim::MAXT; ++i) if (i != t && run[i] == me) fail("two-threads", "fiber %d runs on thread %d while thread %d still runs it", me, t, i);
        run[t] = me;
    }
    void leaving(int me) { Quiet q; int t = sim::tid(); if (run[t] != me) fail("switched", "thread %d runs fiber %d without a suspension point of fiber %d", t, run[t], me); run[t] = -1; }
    void check(int me) { Quiet q; int t = sim::tid(); if (run[t] != me) fail("switched", "fiber %d was switched out for fiber %d without a suspension point", me, run[t]); }
};

// ---- trees of fibers ------------------------------------------------------------------
enum { JOIN_NOW, JOIN_LATER, DETACH, MAIL, JOIN_SWAP, JOIN_MOVE };
struct Node { int parent = -1, thread = 0, disp = 0, pol = 0, stack = 0, g1 = 0, g2 = 0, g3 = 0, form = 0; std::vector<int> kids; int starts = 0, finished = 0; sim::UData in, out; };

struct Tree {
    std::vector<std::unique_ptr<Node>> n; Where wh; bf::mutex m; bf::condition_variable cv, cv_done; int done = 0; std::vector<std::pair<int, bf::fiber>> mail; int mails = 0; bool migrate = false; bool strict_policy = true;
    std::vector<bf::fiber::id> ids;

    bool mig(int id) const { return migrate && (id < 40 || id >= 50); }     // main fibers (40..49) never migrate

    void joined(int k) {
        { Quiet q; if (!n[k]->finished) fail("early-join", "join() of fiber %d returned before its function", k); }
        if (n[k]->out.get("data written by the joined fiber") != k + 7) fail("early-join", "data written by fiber %d is not visible to its joiner", k);
    }
    struct Fn {
        Tree* t; int id; Tok tok;
        void operator()(Tok a, std::unique_ptr<Tok> b, sim::UData& r) { t->body(id, a, *b, &r, tok); }
    };
    static void free_fn(Tree* t, int id, Tok a, std::unique_ptr<Tok> const& b) { t->body(id, a, *b, &t->n[id]->in, a); }
    void body(int id, Tok& a, Tok& b, sim::UData* r, Tok& own) {
        Node& me = *n[id];
        wh.resumed(id, mig(id));
        { Quiet q; if (++me.starts > 1) fail("run-twice", "fiber %d started twice", id); ids[id] = boost::this_fiber::get_id(); sim::logf("fiber %d starts", id); }
        if (a.get() != id || b.get() != id + 50 || own.get() != id) fail("wrong-argument", "fiber %d got arguments %ld %ld", id, a.get(), b.get());
        if (r->get("data written by the launcher") != id + 3) fail("wrong-argument", "data of the launcher not visible to fiber %d", id);
        pause(id, me.g1);
        std::vector<std::pair<int, bf::fiber>> later; { Quiet q; later.reserve(8); }
        for (int k : me.kids) launch(id, k, later);
        pause(id, me.g2);
        for (auto& p : later) join(id, p.first, p.second);
        pause(id, me.g3);
        me.out.set(id + 7, "data written by the joined fiber");
        { Quiet q; me.finished = 1; sim::logf("fiber %d ends", id); if (ids[id] != boost::this_fiber::get_id()) fail("wrong-id", "id of fiber %d changed", id); }
        if (migrate) { wh.leaving(id); std::unique_lock<bf::mutex> lk(m); if (++done == (int)n.size()) cv_done.notify_all(); lk.unlock(); wh.resumed(id, true); }
        wh.leaving(id);
    }
    void pause(int id, int g) { wh.leaving(id); gap(g); wh.resumed(id, mig(id)); }
    void join(int me, int k, bf::fiber& f) {
        if (!f.joinable()) fail("joinable", "handle of fiber %d is not joinable", k);
        wh.leaving(me); f.join(); wh.resumed(me, mig(me));
        sim::logf("fiber %d joined %d", me, k);
        if (f.joinable() || f.get_id() != bf::fiber::id()) fail("joinable", "joined handle is joinable or has an id");
        joined(k);
    }
    bf::fiber make(int k) {
        Node& c = *n[k]; bf::launch pol = c.pol ? bf::launch::dispatch : bf::launch::post;
        c.in.set(k + 3, "data written by the launcher");
        std::unique_ptr<Tok> b(new Tok(k + 50));
        if (c.form == 1) return bf::fiber(pol, &Tree::free_fn, this, k, Tok(k), std::move(b));
        Fn fn{this, k, Tok(k)};
        switch (c.stack) {
        case 1: return bf::fiber(pol, std::allocator_arg, bf::fixedsize_stack(64 * 1024), std::move(fn), Tok(k), std::move(b), std::ref(c.in));
        case 2: return bf::fiber(pol, std::allocator_arg, bf::pooled_fixedsize_stack(64 * 1024, 2), std::move(fn), Tok(k), std::move(b), std::ref(c.in));
        case 3: return bf::fiber(pol, std::allocator_arg, bf::protected_fixedsize_stack(64 * 1024), fn, Tok(k), std::move(b), std::ref(c.in));
        default: if (c.form == 2) return c.pol ? bf::fiber(bf::launch::dispatch, fn, Tok(k), std::move(b), std::ref(c.in)) : bf::fiber(fn, Tok(k), std::move(b), std::ref(c.in));
                 return bf::fiber(pol, std::move(fn), Tok(k), std::move(b), std::ref(c.in));
        }
    }
    void launch(int me, int k, std::vector<std::pair<int, bf::fiber>>& later) {
        Node& c = *n[k];
        if (c.pol) wh.leaving(me);
        bf::fiber f = make(k);
        if (c.pol) wh.resumed(me, mig(me)); else wh.check(me);
        {
            Quiet q; sim::logf("fiber %d launched %d", me, k);
            if (strict_policy && c.pol && !c.starts) fail("launch-policy", "fiber %d launched with dispatch has not started when its launcher continues", k);
            if (strict_policy && !c.pol && c.starts) fail("launch-policy", "fiber %d launched with post started before its launcher suspended", k);
            if (!f.joinable() || f.get_id() == bf::fiber::id()) fail("joinable", "handle of a launched fiber is not joinable or has no id");
            if (c.starts && f.get_id() != ids[k]) fail("wrong-id", "handle and fiber %d disagree about the id", k);
        }
        switch (c.disp) {
        case JOIN_NOW: join(me, k, f); break;
        case JOIN_LATER: later.emplace_back(k, std::move(f)); if (f.joinable()) fail("joinable", "moved-from handle joinable"); break;
        case JOIN_MOVE: { bf::fiber g; g = std::move(f); if (f.joinable() || f.get_id() != bf::fiber::id()) fail("joinable", "moved-from handle joinable"); later.emplace_back(k, std::move(g)); break; }
        case JOIN_SWAP: { bf::fiber g; swap(f, g); if (f.joinable() || !g.joinable()) fail("joinable", "swap lost the fiber"); f.swap(g); later.emplace_back(k, std::move(f)); break; }
        case DETACH: f.detach(); if (f.joinable() || f.get_id() != bf::fiber::id()) fail("joinable", "detached handle joinable"); break;
        case MAIL: { wh.leaving(me); { std::unique_lock<bf::mutex> lk(m); mail.emplace_back(k, std::move(f)); cv.notify_one(); } wh.resumed(me, mig(me)); break; }
        }
    }
    void collector(int me) {
        wh.resumed(me, mig(me));
        for (int i = 0; i < mails; ++i) {
            std::pair<int, bf::fiber> p;
            { wh.leaving(me); std::unique_lock<bf::mutex> lk(m); cv.wait(lk, [&] { return !mail.empty(); }); wh.resumed(me, mig(me)); p = std::move(mail.back()); mail.pop_back(); }
            join(me, p.first, p.second);
        }
        wh.leaving(me);
    }
};

inline void tree(int algo, int maxextra = 6) {
    tok_reset(); {
    int threads = 1 + (int)choose(3); Tree t; Fleet fl; fl.th.resize(threads); fl.algo = algo; t.migrate = Fleet::migrating(algo); t.strict_policy = !t.migrate;
    std::vector<int> roots((size_t)threads); bool main_as_root[3];
    {
        Quiet q; t.mail.reserve(16); t.ids.resize(64);
        int total = threads + (int)choose(maxextra);
        for (int i = 0; i < total; ++i) {
            t.n.emplace_back(new Node()); Node& c = *t.n.back();
            if (i < threads) { c.thread = i; }
            else { c.parent = (int)choose(i); c.thread = t.n[c.parent]->thread; t.n[c.parent]->kids.push_back(i); }
            c.disp = (int)choose(6); c.pol = (int)choose(2); c.stack = (int)choose(4); c.g1 = (int)choose(GAPS); c.g2 = (int)choose(GAPS); c.g3 = (int)choose(GAPS); c.form = (int)choose(3);
            if (c.disp == MAIL) t.mails++;
        }
        int ct = (int)choose(threads);
        for (int i = 0; i < threads; ++i) {
            fl.th[i].main_fn = [&t, i, ct] {
                int me = 40 + i; t.wh.resumed(me);
                std::vector<std::pair<int, bf::fiber>> later; { Quiet q; later.reserve(4); }
                t.launch(me, i, later);
                if (i == ct && t.mails) { t.wh.leaving(me); bf::fiber c([&t] { t.collector(50); }); c.join(); t.wh.resumed(me); }
                for (auto& p : later) t.join(me, p.first, p.second);
                t.wh.leaving(me);
                if (t.migrate) { std::unique_lock<bf::mutex> lk(t.m); t.cv_done.wait(lk, [&t] { return t.done == (int)t.n.size(); }); }
            };
        }
    }
    fl.run();
    Quiet q;
    for (size_t i = 0; i < t.n.size(); ++i) if (t.n[i]->starts != 1 || !t.n[i]->finished) fail("abandoned", "fiber %d: started %d times, finished %d when its thread had ended", (int)i, t.n[i]->starts, t.n[i]->finished);
    }
    tok_done();
}

}
