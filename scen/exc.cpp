// Exceptions of tasks and async() calls whose shared state is contended, under every scheduler: each
// reaches its getters, exception objects are destroyed exactly once, and no fiber finds itself in
// the exception handler of another one.
#ifndef WITH_NUMA
#define WITH_NUMA
#endif
#include "common.h"
#include <exception>

namespace {
int g_live, g_made;
struct Boom {
    long id; explicit Boom(long i) : id(i) { Quiet q; g_live++; g_made++; }
    Boom(Boom const& o) : id(o.id) { Quiet q; g_live++; }
    ~Boom() { Quiet q; if (--g_live < 0) fail("double-destruction", "an exception object is destroyed twice"); id = -1; }
};
void clean(const char* where) {
    if (std::current_exception()) fail("foreign-exception", "%s: a fiber outside all handlers has a current exception", where);
    if (std::uncaught_exceptions()) fail("foreign-exception", "%s: %d uncaught exceptions where none is in flight", where, std::uncaught_exceptions());
}
void own(long id) {                           // a handler of the fiber itself, without suspending inside
    bool caught = false;
    try { throw Boom(id); } catch (Boom const& b) {
        if (b.id != id) fail("foreign-exception", "caught another exception than thrown");
        try { throw; } catch (Boom const& c) { if (&c != &b) fail("foreign-exception", "rethrow raised another exception"); caught = true; }
    }
    if (!caught) fail("foreign-exception", "an exception was not rethrown");
    clean("after a handler");
}
template<class F> void expect(long id, bool thrown, F get) {
    bool got = false; long v = 0;
    try { v = get(); } catch (Boom const& b) { got = true; v = b.id; }
    if (got != thrown || v != id) fail("wrong-result", "%s %ld instead of %s %ld", got ? "exception" : "value", v, thrown ? "exception" : "value", id);
    clean("after get()");
}
struct Job {
    long id = 0; bool thrown = false; int kind = 0; std::unique_ptr<bf::packaged_task<long(int)>> task; std::unique_ptr<bf::packaged_task<void()>> vtask; std::unique_ptr<bf::promise<long>> pr; bf::shared_future<long> f; bf::shared_future<void> vf;
};
long body(Job* j, int y) { for (int i = 0; i < y; ++i) boost::this_fiber::yield(); if (j->thrown) throw Boom(j->id); return j->id; }
}
SIM_SCENARIO(exc_tasks, 1, "throwing tasks with contended shared states") {
    faults_basic(); sim::set_budget(60000, 400000); sim::weak_memory(true);
    { Quiet q; g_live = g_made = 0; }
    static const int al[] = { A_DEFAULT, A_ROUND_ROBIN, A_SHARED, A_SHARED, A_SHARED_SUSPEND, A_STEAL, A_STEAL_SUSPEND, A_NUMA };
    Fleet fl; fl.algo = al[choose(8)]; std::vector<std::unique_ptr<Job>> jobs;
    {
        Quiet q; fl.th.resize(1 + choose(3)); int n = 1 + (int)choose(4);
        for (int i = 0; i < n; ++i) {
            jobs.emplace_back(new Job()); Job* j = jobs.back().get(); j->id = 100 + i; j->thrown = choose(4) != 0; j->kind = (int)choose(3);
            int y = (int)choose(3), more = (int)choose(3);
            if (j->kind == 0) { j->task.reset(new bf::packaged_task<long(int)>([j](int y) { return body(j, y); })); j->f = j->task->get_future().share(); }
            else if (j->kind == 1) { j->vtask.reset(new bf::packaged_task<void()>([j, y] { body(j, y); })); j->vf = j->vtask->get_future().share(); }
            else { j->pr.reset(new bf::promise<long>()); j->f = j->pr->get_future().share(); }
            auto at = [&]() -> Fleet::Th& { return fl.th[choose((unsigned)fl.th.size())]; };
            at().fibers.push_back(FiberProg{[j, y, more] {
                for (int r = 0; r <= more; ++r) {
                    if (r == 0) { if (j->kind == 0) (*j->task)(y); else if (j->kind == 1) (*j->vtask)(); else if (j->thrown) { std::exception_ptr e; { Quiet q; } try { throw Boom(j->id); } catch (...) { e = std::current_exception(); } j->pr->set_exception(e); } else j->pr->set_value(j->id); }
                    else { bf::future<long> f = bf::async(r == 1 ? bf::launch::post : bf::launch::dispatch, [j, y] { return body(j, y); }); expect(j->id, j->thrown, [&] { return f.get(); }); }
                    clean("after a task"); own(j->id + 1000 * r);
                }
            }, draw_policy(), (int)choose(4)});
            int getters = (int)choose(4);
            for (int g = 0; g < getters; ++g) {
                int form = (int)choose(3), before = (int)choose(3);
                at().fibers.push_back(FiberProg{[j, form, before] {
                    for (int i = 0; i < before; ++i) boost::this_fiber::yield();
                    own(j->id + 7);
                    if (j->kind == 1) {
                        if (form == 1) while (j->vf.wait_for(nanoseconds(5000)) != bf::future_status::ready) boost::this_fiber::yield(); else if (form == 2) j->vf.wait();
                        expect(j->id, j->thrown, [&] { j->vf.get(); return j->id; });
                    } else {
                        if (form == 1) while (j->f.wait_for(nanoseconds(5000)) != bf::future_status::ready) boost::this_fiber::yield(); else if (form == 2) j->f.wait();
                        expect(j->id, j->thrown, [&] { return j->f.get(); });
                    }
                    own(j->id + 8);
                }, draw_policy(), (int)choose(4)});
            }
        }
    }
    fl.run();
    clean("at the end");
    Quiet q; jobs.clear(); std::vector<Fleet::Th>().swap(fl.th);
    if (g_live) fail("leak", "%d exception objects of %d are left", g_live, g_made);
}
