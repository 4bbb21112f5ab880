// C24: waits for GPU streams.  The GPU and its runtime are simulated: streams execute work in
// order, driver threads run the completion callbacks, adding a callback may fail, work may fail.
#include "common.h"
#include <condition_variable>
#include <deque>
#include <map>
#include <set>
#include <cuda.h>
#include <hip/hip_runtime.h>
#include <boost/fiber/cuda/waitfor.hpp>
#include <boost/fiber/hip/waitfor.hpp>

namespace boost { namespace fibers {
struct not_provided {};                 // what the calls below find if the library has no such function
namespace cuda { inline not_provided waitfor_all(...) { return {}; } }
namespace hip { inline not_provided waitfor_all(...) { return {}; } }
}}

namespace {

struct Call { std::map<void*, int> want; std::set<void*> pending; int id; };  // stream -> status; callbacks not begun yet
struct Op { int kind; int64_t dur; int gate; int status; void (*fn)(void* raw_fn, void* st, int status, void* arg); void* raw; void* arg; Call* call; };
struct Stream { std::deque<Op> q; sim::UData out; long written = 0; bool busy = false; };

struct Gpu {
    std::mutex m; std::condition_variable cv;                // of the runtime
    std::vector<std::unique_ptr<Stream>> st; std::vector<char> gates; bool stop = false;
    std::map<bf::context*, Call*> calling;
    int ndrivers = 1, idle = 0;
    static void sleep_os(int64_t d) { std::this_thread::sleep_for(nanoseconds(d)); }
    void push(int s, Op const& op) {
        std::unique_lock<std::mutex> lk(m);
        { Quiet q; st[s]->q.push_back(op); }
        cv.notify_all();
    }
    void open(int g) { std::unique_lock<std::mutex> lk(m); { Quiet q; gates[g] = 1; } cv.notify_all(); }
    void driver(int d) {
        std::unique_lock<std::mutex> lk(m);
        for (;;) {
            int pick = -1; bool left = false;
            { Quiet q; for (size_t i = 0; i < st.size(); ++i) { Stream& s = *st[i]; if (s.q.empty()) continue; left = true; if (s.busy || (int)(i % ndrivers) != d) continue; Op& o = s.q.front(); if (o.kind == 0 && o.gate >= 0 && !gates[o.gate]) continue; pick = (int)i; break; } }
            if (pick < 0) { if (stop && !left) return; cv.wait(lk); continue; }
            Stream& s = *st[pick]; Op o;
            { Quiet q; o = s.q.front(); s.busy = true; }
            lk.unlock();
            if (o.kind == 0) { if (o.dur) sleep_os(o.dur); s.out.set(++s.written, "result of the stream's work"); }
            else {
                { Quiet q; sim::logf("driver %d: callback of stream %d, call %d, status %d", d, pick, o.call->id, o.status); o.call->pending.erase((void*)&s); }
                o.fn(o.raw, (void*)&s, o.status, o.arg);
                Quiet q; sim::logf("driver %d: callback done", d);
            }
            lk.lock();
            { Quiet q; s.busy = false; s.q.pop_front(); }
            cv.notify_all();
        }
    }
    // status of the runtime call; the callback is run later
    int add(void* s, void (*fn)(void*, void*, int, void*), void* raw, void* arg) {
        Call* c; int idx = -1, err = 0, cb = 0;
        {
            Quiet q; for (size_t i = 0; i < st.size(); ++i) if ((void*)st[i].get() == s) idx = (int)i;
            if (idx < 0) fail("wrong-stream", "a callback was added to a stream nobody waits for");
            auto it = calling.find(bf::context::active()); if (it == calling.end()) fail("wrong-stream", "a callback was added outside of a call");
            c = it->second; if (!c->want.count(s)) fail("wrong-stream", "a callback was added to a stream call %d does not wait for", c->id);
            if (c->want[s] != -1) fail("wrong-stream", "call %d added two callbacks to one stream", c->id);
        }
        if (sim::fault(sim::F_GPU)) err = 400; else if (sim::fault(sim::F_GPU)) cb = 719;
        { Quiet q; sim::logf("call %d: callback for stream %d: %d, %d", c->id, idx, err, cb); c->want[s] = err ? err : cb; if (!err) c->pending.insert(s); }
        if (err) return err;
        push(idx, Op{1, 0, -1, cb, fn, raw, arg, c});
        sim::sync_point();                                   // the callback may run before the runtime call returns
        return 0;
    }
};
Gpu* gpu;
static void cuda_tr(void* raw, void* st, int status, void* arg) { ((cudaStreamCallback_t)raw)((cudaStream_t)st, (cudaError_t)status, arg); }
static void hip_tr(void* raw, void* st, int status, void* arg) { ((hipStreamCallback_t)raw)((hipStream_t)st, (hipError_t)status, arg); }

struct Cuda { typedef cudaStream_t S; template<typename... A> static auto wait(A... a) { return bf::cuda::waitfor_all(a...); } static const char* name() { return "cuda"; } };
struct Hip { typedef hipStream_t S; template<typename... A> static auto wait(A... a) { return bf::hip::waitfor_all(a...); } static const char* name() { return "hip"; } };

typedef std::vector<std::pair<void*, int>> Res;
template<typename S, typename E> void put(Res& r, std::tuple<S, E> const& t) { Quiet q; r.emplace_back((void*)std::get<0>(t), (int)std::get<1>(t)); }
template<typename S, typename E> void put(Res& r, std::vector<std::tuple<S, E>> const& v) { for (auto& t : v) put(r, t); }
inline void put(Res&, bf::not_provided) { Quiet q; fail("missing", "the library provides no waitfor_all for these streams"); }
template<typename S, typename E> void shape(std::tuple<S, E> const&, int n) { }
template<typename T> void shape(T const&, int) { }

struct Step { std::vector<int> streams; std::vector<int> work; std::vector<int64_t> dur; std::vector<int> gate; int pre; };

template<typename G> Res do_wait(std::vector<void*> const& s) {
    typedef typename G::S S; Res r;
    switch (s.size()) {
    case 1: put(r, G::wait((S)s[0])); break;
    case 2: put(r, G::wait((S)s[0], (S)s[1])); break;
    case 3: put(r, G::wait((S)s[0], (S)s[1], (S)s[2])); break;
    default: put(r, G::wait((S)s[0], (S)s[1], (S)s[2], (S)s[3])); break;
    }
    return r;
}

template<typename G> void caller(Gpu& g, int me, std::vector<Step> const& prog, int& ids) {
    for (auto& s : prog) {
        gap(s.pre);
        Call c; std::vector<void*> ss; std::vector<bf::fiber> helpers; std::vector<long> before;
        { Quiet q; c.id = ids++; helpers.reserve(4); for (int i : s.streams) { ss.push_back(g.st[i].get()); c.want[g.st[i].get()] = -1; } }
        std::vector<long> expect;
        for (size_t k = 0; k < s.streams.size(); ++k) if (s.work[k]) {
            int gate = -1;
            if (s.gate[k]) { Quiet q; gate = (int)g.gates.size(); g.gates.push_back(0); }
            g.push(s.streams[k], Op{0, s.dur[k], gate, 0, nullptr, nullptr, nullptr, nullptr});
            if (gate >= 0) helpers.emplace_back(bf::launch::post, [&g, gate] { boost::this_fiber::yield(); g.open(gate); });
        }
        { Quiet q; g.calling[bf::context::active()] = &c; sim::logf("fiber %d: call %d on %d streams", me, c.id, (int)ss.size()); }
        Res r = do_wait<G>(ss);
        {
            Quiet q; g.calling.erase(bf::context::active()); sim::logf("fiber %d: call %d returned", me, c.id);
            if (!c.pending.empty()) fail("early-return", "call %d returned while %d of its streams have not completed", c.id, (int)c.pending.size());
            if (r.size() != c.want.size()) fail("wrong-result", "call %d on %d streams returned %d results", c.id, (int)c.want.size(), (int)r.size());
            std::set<void*> seen;
            for (auto& x : r) {
                if (!c.want.count(x.first)) fail("wrong-result", "call %d returned a stream it was not given", c.id);
                if (!seen.insert(x.first).second) fail("wrong-result", "call %d returned one stream twice", c.id);
                if (c.want[x.first] == -1) fail("wrong-result", "call %d never asked the runtime about one of its streams", c.id);
                if (c.want[x.first] != x.second) fail("wrong-status", "call %d: status %d returned for a stream whose status was %d", c.id, x.second, c.want[x.first]);
            }
        }
        for (auto& h : helpers) h.join();
        Quiet q; ss = {}; r = Res(); std::vector<bf::fiber>().swap(helpers); c.want.clear(); c.pending.clear();
    }
}

// own: nobody else uses a stream, so that its results may be read after the wait
template<typename G> void gpu_run(int max_streams, bool gates) {
    faults_basic(); sim::enable_fault(sim::F_GPU, 0.4);
    Gpu* gp; { Quiet q; gp = new Gpu; }
    Gpu& g = *gp; gpu = gp; int ids = 0;
    Fleet f; Shape sh = draw_shape(2, 4, 1);
    {
        Quiet q;
        static const int algos[] = {A_DEFAULT, A_DEFAULT, A_ROUND_ROBIN, A_SHARED, A_SHARED_SUSPEND, A_STEAL, A_STEAL_SUSPEND};
        f.algo = algos[choose(7)];
        int ns = 1 + (int)choose(max_streams); g.ndrivers = 1 + (int)choose(2);
        for (int i = 0; i < ns; ++i) g.st.emplace_back(new Stream);
        f.th.resize(sh.threads); int me = 0;
        for (int t = 0; t < sh.threads; ++t) for (int k = 0; k < sh.fibers[t]; ++k, ++me) {
            std::vector<Step> prog; int n = 1 + (int)choose(3);
            for (int j = 0; j < n; ++j) {
                Step s; std::vector<int> p = draw_perm(ns); int cnt = 1 + (int)choose(ns);
                for (int i = 0; i < cnt; ++i) { s.streams.push_back(p[i]); s.work.push_back((int)choose(3) != 0); s.dur.push_back((int64_t)choose(4) * 700); s.gate.push_back(gates ? (int)choose(2) : 0); }
                s.pre = (int)choose(GAPS); prog.push_back(s);
            }
            auto fn = [&g, &ids, me, prog] { caller<G>(g, me, prog, ids); };
            if (k == 0 && choose(3) == 0) f.th[t].main_fn = fn;
            else f.th[t].fibers.push_back(FiberProg{fn, draw_policy(), 0});
        }
    }
    std::vector<std::thread> dr; { Quiet q; dr.reserve(2); }
    for (int d = 0; d < g.ndrivers; ++d) dr.emplace_back([&g, d] { g.driver(d); });
    f.run();
    { std::unique_lock<std::mutex> lk(g.m); g.stop = true; g.cv.notify_all(); }
    for (auto& t : dr) t.join();
    Quiet q; std::vector<std::thread>().swap(dr); gpu = nullptr; delete gp;
}

} // namespace

extern "C" cudaError_t cudaStreamAddCallback(cudaStream_t s, cudaStreamCallback_t fn, void* arg, unsigned int flags) {
    if (flags) fail("wrong-stream", "flags must be 0");
    return (cudaError_t)gpu->add((void*)s, cuda_tr, (void*)fn, arg);
}
extern "C" hipError_t hipStreamAddCallback(hipStream_t s, hipStreamCallback_t fn, void* arg, unsigned int flags) {
    if (flags) fail("wrong-stream", "flags must be 0");
    return (hipError_t)gpu->add((void*)s, hip_tr, (void*)fn, arg);
}

SIM_SCENARIO(gpu_cuda_single, 2, "fibers wait for single CUDA streams") { gpu_run<Cuda>(1, true); }
SIM_SCENARIO(gpu_cuda_many, 4, "fibers wait for sets of CUDA streams") { gpu_run<Cuda>(4, true); }
SIM_SCENARIO(gpu_hip_single, 1, "fibers wait for single HIP streams") { gpu_run<Hip>(1, true); }
SIM_SCENARIO(gpu_hip_many, 3, "fibers wait for sets of HIP streams") { gpu_run<Hip>(4, true); }
