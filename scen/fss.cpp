// C17 fiber-specific storage.
#include "common.h"

namespace {

enum { NP = 3 };
struct Val;
struct Rec { int fiber, p; bool stored = false, released = false, cleaned = false; bf::fiber::id id; };
struct W {
    bf::fiber_specific_ptr<Val>* ptr[NP]; std::vector<Rec> rec; std::vector<std::array<Val*, NP>> cur; bool reentrant = false, yields = false, restore = false; std::vector<int> ending; std::vector<std::array<int, NP>> resetting; std::vector<int> restored;
    std::vector<bf::fiber::id> fid;
};
static W* w;
struct Val { enum { OK = 0x77aa }; int magic = OK; int idx; explicit Val(int i) : idx(i) {} ~Val(); };

static int new_rec(int fiber, int p) { Quiet q; w->rec.push_back(Rec()); Rec& r = w->rec.back(); r.fiber = fiber; r.p = p; return (int)w->rec.size() - 1; }
static Val* make(int fiber, int p) { int i = new_rec(fiber, p); return new Val(i); }

static void cleaned(Val* v, const char* how) {
    if (!v) { Quiet q; fail("null-cleanup", "the cleanup function was called with a null pointer"); }
    if (v->magic != Val::OK) { Quiet q; fail("cleaned-twice", "cleanup of a value that was already destroyed (%s)", how); }
    int f, p; bool ending;
    {
        Quiet q; Rec& r = w->rec[v->idx]; f = r.fiber; p = r.p;
        sim::logf("value %d of fiber %d pointer %d: %s", v->idx, f, p, how);
        if (r.released) return;                      // the program deletes it itself
        if (r.cleaned) fail("cleaned-twice", "value %d cleaned twice", v->idx);
        if (!r.stored) fail("cleaned-early", "value %d cleaned but never stored", v->idx);
        r.cleaned = true;
        if (boost::this_fiber::get_id() != w->fid[f]) fail("foreign-cleanup", "value %d of fiber %d cleaned in another fiber", v->idx, f);
        ending = w->ending[f]; if (ending) w->cur[f][p] = nullptr;
    }
    if (w->reentrant) for (int q = 0; q < NP; ++q) if (q != p && w->ptr[q] && !w->resetting[f][q]) {      // during reset() the old value is still there, as documented
        Val* g = w->ptr[q]->get(); Quiet qq;
        if (g != w->cur[f][q]) fail("wrong-pointer", "during the cleanup of pointer %d, fiber %d reads %s from pointer %d", p, f, g ? "an object that was already cleaned up" : "null", q);
    }
    if (ending && w->restore) { bool again; { Quiet q; again = w->restored[f]++ < 2; } if (again) { int q = (p + 1) % NP; Val* n = make(f, q); { Quiet qq; w->rec[n->idx].stored = true; } w->resetting[f][q]++; w->ptr[q]->reset(n); w->resetting[f][q]--; Quiet qq; w->cur[f][q] = n; } }
    if (ending && w->yields) boost::this_fiber::yield();
}
Val::~Val() { if (magic != OK) { Quiet q; fail("cleaned-twice", "value deleted twice"); } cleaned(this, "destroyed"); magic = 0xdead; }
static void fn(Val* v) { if (!v) cleaned(v, "cleanup function"); delete v; }

struct FsOp { int op, p, pre; };
static void step(int me, FsOp const& o) {
    gap(o.pre);
    bf::fiber_specific_ptr<Val>& fp = *w->ptr[o.p]; Val*& cur = w->cur[me][o.p];
    Val* g = fp.get();
    { Quiet q; if (g != cur) fail("wrong-pointer", "fiber %d reads a pointer it did not store from pointer %d", me, o.p); if (g && (g->magic != Val::OK || w->rec[g->idx].fiber != me || w->rec[g->idx].cleaned)) fail("wrong-pointer", "fiber %d reads a value of fiber %d", me, w->rec[g->idx].fiber); if (g && (&*fp != g || fp.operator->() != g)) fail("wrong-pointer", "dereferencing differs from get()"); }
    switch (o.op) {
    case 0: case 1: { Val* n = make(me, o.p); { Quiet q; w->rec[n->idx].stored = true; } fp.reset(n); Quiet q; if (g && !w->rec[g->idx].cleaned) {} cur = n; break; }
    case 2: { int idx = g ? g->idx : -1; (void)idx; fp.reset(g); break; }                        // same pointer: nothing happens
    case 3: { int idx = g ? g->idx : -1; fp.reset(nullptr); Quiet q; if (idx >= 0 && !w->rec[idx].cleaned) fail("not-cleaned", "reset(nullptr) did not clean value %d", idx); cur = nullptr; break; }
    case 4: { { Quiet q; if (g) w->rec[g->idx].released = true; } Val* r = fp.release(); if (r != g) fail("wrong-pointer", "release() returned another pointer"); { Quiet q; cur = nullptr; } delete r; break; }
    case 5: break;
    }
    Val* now = fp.get(); Quiet q; if (now != cur) fail("wrong-pointer", "fiber %d: pointer %d does not hold what was stored", me, o.p);
}
static std::vector<FsOp> draw_ops() { std::vector<FsOp> v; int n = 1 + (int)choose(5); for (int i = 0; i < n; ++i) { FsOp o; o.op = (int)choose(6); o.p = (int)choose(NP); o.pre = (int)choose(GAPS); v.push_back(o); } return v; }

static void mix(int algo, int mode, bool mains) {
    { Quiet q; w = new W(); w->rec.reserve(200); }
    w->reentrant = mode >= 1; w->restore = mode == 2; w->yields = mode == 3;
    for (int p = 0; p < NP; ++p) w->ptr[p] = choose(2) ? new bf::fiber_specific_ptr<Val>(&fn) : new bf::fiber_specific_ptr<Val>();
    Shape sh = draw_shape(3, 5, 1); Fleet fl; fl.th.resize(sh.threads); fl.algo = algo;
    {
        Quiet q; int total = 0; for (int k : sh.fibers) total += k; total += sh.threads; w->cur.resize(total); for (auto& a : w->cur) a.fill(nullptr); w->ending.assign(total, 0); w->resetting.resize(total); for (auto& a : w->resetting) a.fill(0); w->restored.assign(total, 0); w->fid.resize(total);
        int id = 0;
        for (int t = 0; t < sh.threads; ++t) {
            for (int f = 0; f < sh.fibers[t]; ++f, ++id) { auto ops = draw_ops(); int me = id; fl.th[t].fibers.push_back(FiberProg{[me, ops] { { Quiet q; w->fid[me] = boost::this_fiber::get_id(); } for (auto& o : ops) step(me, o); Quiet q; w->ending[me] = 1; }, draw_policy(), 0}); }
            fl.th[t].detach = Fleet::migrating(algo) ? false : choose(3) == 2;
        }
        if (mains) for (int t = 0; t < sh.threads; ++t, ++id) { auto ops = draw_ops(); int me = id; fl.th[t].main_fn = [me, ops] { { Quiet q; w->fid[me] = boost::this_fiber::get_id(); } for (auto& o : ops) step(me, o); Quiet q; w->ending[me] = 1; }; }
    }
    fl.run();
    for (int p = 0; p < NP; ++p) { delete w->ptr[p]; w->ptr[p] = nullptr; }
    Quiet q;
    for (size_t i = 0; i < w->rec.size(); ++i) { Rec& r = w->rec[i]; if (r.stored && !r.released && !r.cleaned) fail("not-cleaned", "value %d of fiber %d (pointer %d) was never cleaned up although its fiber and thread have ended", (int)i, r.fiber, r.p); }
    delete w; w = nullptr;
}

// pointer objects created and destroyed while fibers run
static void objects() {
    { Quiet q; w = new W(); w->rec.reserve(200); for (int p = 0; p < NP; ++p) w->ptr[p] = nullptr; w->cur.resize(16); for (auto& a : w->cur) a.fill(nullptr); w->ending.assign(16, 0); w->resetting.resize(16); for (auto& a : w->resetting) a.fill(0); w->restored.assign(16, 0); w->fid.resize(16); }
    int nf = 1 + (int)choose(4); Fleet fl; int threads = 1 + (int)choose(2); fl.th.resize(threads);
    {
        Quiet q;
        for (int i = 0; i < nf; ++i) {
            int rounds = 1 + (int)choose(3); std::vector<int> k; for (int r = 0; r < rounds; ++r) { k.push_back((int)choose(6)); k.push_back((int)choose(GAPS)); }
            fl.th[i % threads].fibers.push_back(FiberProg{[i, k] {
                { Quiet q; w->fid[i] = boost::this_fiber::get_id(); }
                alignas(bf::fiber_specific_ptr<Val>) unsigned char buf[sizeof(bf::fiber_specific_ptr<Val>)];     // the same address in every round
                for (size_t r = 0; r + 1 < k.size(); r += 2) {
                    bool custom = k[r] & 1; int how = k[r] / 2;
                    auto* fp = custom ? new (buf) bf::fiber_specific_ptr<Val>(&fn) : new (buf) bf::fiber_specific_ptr<Val>();
                    if (fp->get()) fail("wrong-pointer", "a new fiber_specific_ptr is not null");
                    int idx = -1;
                    if (how) { Val* v = make(i, 0); idx = v->idx; { Quiet q; w->rec[idx].stored = true; } fp->reset(v); }
                    gap(k[r + 1]);
                    if (how == 2) { { Quiet q; w->rec[idx].released = true; } Val* v = fp->release(); delete v; }
                    fp->~fiber_specific_ptr();
                    if (how == 1) { Quiet q; if (!w->rec[idx].cleaned) fail("not-cleaned", "destroying the pointer object did not clean its value"); }
                }
                Quiet q; w->ending[i] = 1;
            }, draw_policy(), 0});
        }
    }
    fl.run();
    Quiet q; delete w; w = nullptr;
}
}

SIM_SCENARIO(fss_mix, 3, "fibers store, reset and release values; cleanup once, in the owner") {
    faults_basic(); static const int a[] = { A_DEFAULT, A_SHARED_SUSPEND, A_STEAL_SUSPEND }; mix(a[choose(3)], 0, false);
}
SIM_SCENARIO(fss_reenter, 2, "cleanup functions that use other fiber-specific pointers") {
    faults_basic(); static const int a[] = { A_DEFAULT, A_SHARED_SUSPEND, A_STEAL_SUSPEND }; unsigned m = 1 + choose(3); mix(a[choose(3)], (int)m, false);
}
SIM_SCENARIO(fss_main, 1, "values of the main fibers of threads") {
    faults_basic(); static const int a[] = { A_DEFAULT, A_SHARED_SUSPEND, A_STEAL_SUSPEND }; mix(a[choose(3)], (int)choose(2), true);
}
SIM_SCENARIO(fss_objects, 1, "fiber_specific_ptr objects destroyed and created anew at the same address") {
    faults_basic(); objects();
}
