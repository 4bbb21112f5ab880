// C27 a thread without ready fibers sleeps in the operating system: suspend_until() gets the next deadline (or "for ever")
// and blocks; the idle loop turns only for a notification, a deadline or a fiber that became ready.
#ifndef WITH_NUMA
#define WITH_NUMA
#endif
#include "common.h"

namespace {
struct IdleBook {                                // of all threads of the run
    long suspends = 0, notes = 0, awakened = 0; std::vector<int64_t> deadlines; bool open = false; int threads = 0; bool migrating = false;
    void check(SC::time_point tp) {
        Quiet q; suspends++;
        int64_t lo = INT64_MAX; for (int64_t d : deadlines) if (d < lo) lo = d;
        if (tp == SC::time_point::max()) return;
        int64_t t = std::chrono::duration_cast<nanoseconds>(tp.time_since_epoch()).count();
        if (t < lo) fail("early-deadline", "suspend_until() is given a time point %lld ns earlier than any deadline", lo == INT64_MAX ? -1ll : (long long)(lo - t));
    }
    void busy() { Quiet q; long most = 2 * (notes + awakened) + 4 * threads; if (suspends > most) fail("busy-waiting", "%ld turns of the idle loop for %ld notifications and %ld fibers made ready", suspends, notes, awakened); }
};
// composition: a class derived from work_stealing would still be under construction when other threads steal from it
template<class Base> struct Idle final : bf::algo::algorithm {
    IdleBook* b; boost::intrusive_ptr<Base> in;
    template<class... A> explicit Idle(IdleBook* b_, A&&... a) : b(b_), in(new Base(std::forward<A>(a)...)) {}
    void suspend_until(SC::time_point const& tp) noexcept override { b->check(tp); b->busy(); in->suspend_until(tp); }
    void notify() noexcept override { { Quiet q; b->notes++; } in->notify(); }
    void awakened(bf::context* c) noexcept override { { Quiet q; if (!c->is_context(bf::type::dispatcher_context)) b->awakened++; } in->awakened(c); }
    bf::context* pick_next() noexcept override { return in->pick_next(); }
    bool has_ready_fibers() const noexcept override { return in->has_ready_fibers(); }
};
struct Deadline { IdleBook& b; int64_t d; Deadline(IdleBook& b_, int64_t d_) : b(b_), d(d_) { Quiet q; b.deadlines.push_back(d); sim::deadline_hint(d); } ~Deadline() { Quiet q; for (size_t i = 0; i < b.deadlines.size(); ++i) if (b.deadlines[i] == d) { b.deadlines.erase(b.deadlines.begin() + (long)i); break; } } };

enum { I_RR, I_SHARED, I_STEAL, I_NUMA, I_ALGOS };
enum { W_WAIT, W_SLEEP, W_TIMED, W_EXPIRE, W_FUTURE, W_CHAN, W_YIELD, W_N };
struct Item { int kind; int64_t d; };

struct Post {                                    // mailbox that another fiber fills after a while
    bf::mutex m; bf::condition_variable cv; int full = 0;
};
void idle_run() {
    IdleBook b; int threads = 1 + (int)choose(3), algo = (int)choose(I_ALGOS), sleepers = 1 + (int)choose(3);
    bf::barrier end((size_t)threads); std::vector<bf::numa::node> topo; std::vector<std::vector<std::vector<Item>>> prog; std::vector<std::unique_ptr<Post>> post;
    std::vector<std::unique_ptr<bf::promise<int>>> pr; std::vector<bf::future<int>> fu; std::vector<std::unique_ptr<bf::buffered_channel<int>>> ch; int total = threads * sleepers;
    {
        Quiet q; b.threads = threads; b.deadlines.reserve(64); prog.resize((size_t)threads);
        bf::numa::node n; n.id = 0; n.distance.push_back(10); for (int i = 0; i < threads; ++i) n.logical_cpus.insert((std::uint32_t)i); topo.push_back(n);
        for (int t = 0; t < threads; ++t) for (int s = 0; s < sleepers; ++s) {
            std::vector<Item> v; int k = 1 + (int)choose(3); static const int64_t ds[] = { 400, 15000, 90000, 700000 };
            for (int i = 0; i < k; ++i) v.push_back(Item{(int)choose(W_N), ds[choose(4)] + 331 * choose(3)});
            prog[t].push_back(v);
        }
        for (int i = 0; i < total; ++i) { post.emplace_back(new Post()); pr.emplace_back(new bf::promise<int>()); fu.push_back(pr.back()->get_future()); ch.emplace_back(new bf::buffered_channel<int>(4)); }
    }
    auto body = [&](int t) {
        switch (algo) {
        case I_RR: bf::use_scheduling_algorithm<Idle<bf::algo::round_robin>>(&b); break;
        case I_SHARED: bf::use_scheduling_algorithm<Idle<bf::algo::shared_work>>(&b, true); break;
        case I_STEAL: bf::use_scheduling_algorithm<Idle<bf::algo::work_stealing>>(&b, (std::uint32_t)threads, true); break;
        case I_NUMA: bf::use_scheduling_algorithm<Idle<bf::numa::algo::work_stealing>>(&b, (std::uint32_t)t, 0u, topo, true); break;
        }
        std::vector<bf::fiber> fs; { Quiet q; fs.reserve(16); }
        for (int s = 0; s < sleepers; ++s) {
            int me = t * sleepers + s, to = (me + 1) % total;      // me waits for what its predecessor sends
            std::vector<Item>* items = &prog[t][s];
            fs.emplace_back([&, items, me] {       // waits
                bool futured = false;
                for (auto& i : *items) switch (i.kind) {
                case W_WAIT: { std::unique_lock<bf::mutex> lk(post[me]->m); post[me]->cv.wait(lk, [&] { return post[me]->full > 0; }); break; }
                case W_SLEEP: { int64_t d = sim::now_ns() + i.d; Deadline dl(b, d); boost::this_fiber::sleep_until(at_ns(d)); break; }
                case W_TIMED: { int64_t d = sim::now_ns() + 3600000000000ll; Deadline dl(b, d); std::unique_lock<bf::mutex> lk(post[me]->m); if (!post[me]->cv.wait_until(lk, at_ns(d), [&] { return post[me]->full > 0; })) fail("lost", "timed out after an hour"); break; }
                case W_EXPIRE: { int64_t d = sim::now_ns() + i.d; Deadline dl(b, d); bf::mutex m; bf::condition_variable cv; std::unique_lock<bf::mutex> lk(m); cv.wait_until(lk, at_ns(d), [] { return false; }); break; }
                case W_FUTURE: if (!futured) { futured = true; if (fu[me].get() != 1) fail("lost", "future"); } break;
                case W_CHAN: { int x; int64_t d = sim::now_ns() + i.d; Deadline dl(b, d); ch[me]->pop_wait_until(x, at_ns(d)); break; }
                case W_YIELD: boost::this_fiber::yield(); break;
                }
            });
            int64_t d; { Quiet q; static const int64_t ds[] = { 900, 30000, 500000, 2500000 }; d = ds[choose(4)] + 157 * me; }
            fs.emplace_back([&, to, d] {           // and sends to its neighbour, after a long time
                { int64_t e = sim::now_ns() + d; Deadline dl(b, e); boost::this_fiber::sleep_until(at_ns(e)); }
                { std::unique_lock<bf::mutex> lk(post[to]->m); post[to]->full++; post[to]->cv.notify_all(); }
                ch[to]->push(1); pr[to]->set_value(1);
            });
        }
        for (auto& f : fs) f.join();
        end.wait();                                // no thread of a migrating scheduler ends early
        Quiet q; std::vector<bf::fiber>().swap(fs);
    };
    std::vector<std::thread> ts; { Quiet q; ts.reserve(4); }
    for (int t = 0; t < threads; ++t) ts.emplace_back([&, t] { body(t); });
    for (auto& t : ts) t.join();
    b.busy();
    Quiet q; if (b.suspends > threads) probe("threads went idle"); std::vector<std::thread>().swap(ts);
}
}
SIM_SCENARIO(idle_threads, 1, "1..3 threads that are mostly idle under every suspending scheduler; the idle loop is counted") {
    idle_run();                                  // no spurious or early wakeups here: they are turns of their own
}
