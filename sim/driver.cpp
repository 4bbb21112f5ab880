// Search driver: seeds -> forked runs, gate, minimiser, replay files, statistics.
#include "core.h"
#include <algorithm>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace sim;
typedef std::vector<std::string> SV;

static SV split(const std::string& s, char c) { SV v; std::string cur; for (char ch : s) if (ch == c) { if (!cur.empty()) v.push_back(cur); cur.clear(); } else cur += ch; if (!cur.empty()) v.push_back(cur); return v; }

static SV g_only; static SV g_ignore; static SV g_classes; static unsigned g_opts;
static std::vector<Scenario*> active_scens() {
    std::vector<Scenario*> v;
    for (auto* s : scenarios()) if (g_only.empty() || std::find(g_only.begin(), g_only.end(), s->name) != g_only.end()) v.push_back(s);
    return v;
}
static Scenario* find_scen(const std::string& n) { for (auto* s : scenarios()) if (n == s->name) return s; return nullptr; }

// run one simulated execution in a child process
static void run_one(const Spec& s) {
    g_res->status = ST_NONE;
    pid_t p = fork();
    if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); if (!s.verbose) { int n = open("/dev/null", O_WRONLY); if (n >= 0) { dup2(n, 2); close(n); } } run_in_child(s); _exit(9); }
    if (p < 0) { g_res->status = ST_ERROR; return; }
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
    if (g_res->status == ST_NONE) {
        g_res->status = ST_FAIL;
        if (WIFEXITED(st)) { snprintf(g_res->cls, 48, "exit"); snprintf(g_res->msg, 200, "the process called exit(%d)", WEXITSTATUS(st)); }
        else { snprintf(g_res->cls, 48, "crash"); snprintf(g_res->msg, 200, "killed by signal %d", WTERMSIG(st)); }
    }
}
static bool is_viol() {
    if (g_res->status != ST_FAIL) return false;
    for (auto& i : g_ignore) if (i == g_res->cls) return false;
    if (g_classes.empty()) return true;
    for (auto& i : g_classes) if (i == g_res->cls) return true;
    return false;
}
static Spec capture(const Spec& base) {       // turn the run just made into an explicit replay
    Spec s = base; s.have_ch = s.have_sched = true;
    s.ch.assign(g_res->ch, g_res->ch + g_res->nch);
    if (!base.have_sched) s.sw.assign(g_res->sw, g_res->sw + g_res->nsw);
    std::stable_sort(s.sw.begin(), s.sw.end(), [](const Sw& a, const Sw& b) { return a.tid != b.tid ? a.tid < b.tid : a.k < b.k; });
    s.fl.assign(g_res->fl, g_res->fl + g_res->nfl);
    return s;
}

// ------------------------------------------------------------------ minimiser
struct Min {
    std::string cls; int64_t deadline; uint64_t runs = 0;
    bool still(const Spec& s) { if (real_ns() > deadline) return false; ++runs; run_one(s); return g_res->status == ST_FAIL && cls == g_res->cls && !g_res->overflow; }
    template<class T> void ddmin(Spec& s, std::vector<T> Spec::*f) {
        size_t n = 2;
        { Spec c = s; (c.*f).clear(); if (still(c)) { s = c; return; } }
        while ((s.*f).size() >= 2 && real_ns() < deadline) {
            size_t sz = (s.*f).size(); size_t chunk = (sz + n - 1) / n; bool red = false;
            for (size_t i = 0; i < sz; i += chunk) {
                Spec c = s; auto& v = c.*f; v.erase(v.begin() + i, v.begin() + std::min(sz, i + chunk));
                if (still(c)) { s = c; red = true; if (n > 2) --n; break; }
            }
            if (!red) { if (chunk <= 1) break; n = std::min(sz, n * 2); }
        }
        if ((s.*f).size() == 1) { Spec c = s; (c.*f).clear(); if (still(c)) s = c; }
    }
    // try a candidate workload: first the same schedule, then fresh seeds
    bool attempt(Spec& s, const std::vector<uint32_t>& ch, int seeds) {
        Spec c = s; c.ch = ch;
        if (still(c)) { c = capture(c); s = c; return true; }
        for (int i = 0; i < seeds && real_ns() < deadline; ++i) {
            Spec d = s; d.ch = ch; d.have_sched = false; d.sw.clear(); d.fl.clear(); d.seed = Rng::mix(s.seed + 77 * i + 1);
            if (still(d)) { d = capture(d); if (still(d)) { s = d; return true; } }
        }
        return false;
    }
    void go(Spec& s) {
        int64_t end = deadline;
        deadline = real_ns() + (end - real_ns()) * 6 / 10;
        for (int round = 0; round < 2; ++round) {
            bool any = false;
            for (size_t i = 0; i < s.ch.size() && real_ns() < deadline; ++i) {
                if (!s.ch[i]) continue;
                auto ch = s.ch; ch[i] = 0;
                if (attempt(s, ch, 25)) { any = true; continue; }
                if (s.ch[i] > 2) { ch = s.ch; ch[i] = s.ch[i] / 2; if (attempt(s, ch, 10)) any = true; }
                if (s.ch[i] > 1) { ch = s.ch; ch[i] = 1; if (attempt(s, ch, 10)) any = true; }
            }
            if (!any) break;
        }
        deadline = end;
        for (int round = 0; round < 2; ++round) { ddmin(s, &Spec::fl); ddmin(s, &Spec::sw); }
        while (!s.ch.empty() && s.ch.back() == 0) s.ch.pop_back();
    }
};

static std::string g_prop = "C00", g_build = "default";
static bool write_replay(const std::string& path, const Spec& s) {
    FILE* f = fopen(path.c_str(), "w"); if (!f) return false;
    fprintf(f, "# boostorg/fiber simulation replay: one exactly repeatable execution\n");
    fprintf(f, "property %s\nbuild %s\nscenario %s\nseed %llu\nclass %s\nmessage %s\nhash %llu\n", g_prop.c_str(), g_build.c_str(), s.scen->name, (unsigned long long)s.seed, g_res->cls, g_res->msg, (unsigned long long)g_res->hash_full);
    if (s.opts) fprintf(f, "options %u\n", s.opts);
    if (!s.have_sched) { fprintf(f, "# too long to be listed: all decisions follow from the seed\ngenerated 1\nend\n"); fclose(f); return true; }
    fprintf(f, "# workload: choices made by the generator, in order\nchoices %zu", s.ch.size());
    for (auto c : s.ch) fprintf(f, " %u", c);
    fprintf(f, "\n# schedule: at point k of thread t, run thread u instead of the default\n");
    for (auto& w : s.sw) fprintf(f, "switch %u %u %u\n", w.tid, w.k, w.to);
    fprintf(f, "# faults: kind, n-th opportunity of that kind, argument\n");
    for (auto& x : s.fl) fprintf(f, "fault %s %u %lld\n", fault_names[x.kind], x.n, (long long)x.arg);
    fprintf(f, "end\n"); fclose(f); return true;
}
static bool read_replay(const char* path, Spec& s, std::string& cls, uint64_t& hash) {
    FILE* f = fopen(path, "r"); if (!f) return false;
    char key[64]; bool ok = false; s.have_ch = s.have_sched = true; char line[4096];
    while (fscanf(f, "%63s", key) == 1) {
        if (key[0] == '#') { if (!fgets(line, sizeof line, f)) break; continue; }
        std::string k = key;
        if (k == "end") { ok = true; break; }
        if (k == "property" || k == "build" || k == "scenario" || k == "class") { char v[200]; if (fscanf(f, "%199s", v) != 1) break; if (k == "scenario") s.scen = find_scen(v); if (k == "class") cls = v; if (k == "property") g_prop = v; }
        else if (k == "message") { if (!fgets(line, sizeof line, f)) break; }
        else if (k == "seed") { unsigned long long v; if (fscanf(f, "%llu", &v) != 1) break; s.seed = v; }
        else if (k == "options") { if (fscanf(f, "%u", &s.opts) != 1) break; }
        else if (k == "hash") { unsigned long long v; if (fscanf(f, "%llu", &v) != 1) break; hash = v; }
        else if (k == "generated") { unsigned v; if (fscanf(f, "%u", &v) != 1) break; s.have_ch = s.have_sched = false; }
        else if (k == "choices") { size_t n; if (fscanf(f, "%zu", &n) != 1) break; for (size_t i = 0; i < n; ++i) { unsigned c; if (fscanf(f, "%u", &c) != 1) break; s.ch.push_back(c); } }
        else if (k == "switch") { unsigned a, b, c; if (fscanf(f, "%u %u %u", &a, &b, &c) != 3) break; s.sw.push_back(Sw{(uint16_t)a, (uint16_t)c, b}); }
        else if (k == "fault") { char n[64]; unsigned o; long long a; if (fscanf(f, "%63s %u %lld", n, &o, &a) != 3) break; for (int i = 0; i < F_NKINDS; ++i) if (!strcmp(n, fault_names[i])) s.fl.push_back(Fl{(uint16_t)i, 0, o, a}); }
    }
    fclose(f); return ok && s.scen;
}

// ------------------------------------------------------------------ statistics shared by the workers
struct WStats {
    uint64_t runs, viol, ignored, aborted_ok, errors, points, syncs, switches, fair, races, hb;
    int64_t sim_ns; uint64_t fired[F_NKINDS], runs_with[F_NKINDS];
    uint64_t per_scen[64]; uint64_t first_bad_idx; char bad_cls[48]; uint64_t nontrivial;
    uint64_t nhash; uint64_t nprobe; Probe probes[MAXPROBE]; uint64_t nt_hist[MAXT + 1]; char ign_cls[8][48]; uint64_t ign_n[8]; 
};
enum { MAXH = 1 << 20 };

static void json_str(FILE* f, const char* s) { fputc('"', f); for (; *s; ++s) { if (*s == '"' || *s == '\\') fputc('\\', f); if ((unsigned char)*s >= 32) fputc(*s, f); } fputc('"', f); }

static void pin(int cpu) { cpu_set_t all, one; if (sched_getaffinity(0, sizeof all, &all)) return; int n = CPU_COUNT(&all); if (!n) return; int want = cpu % n; CPU_ZERO(&one); for (int c = 0; c < CPU_SETSIZE; ++c) if (CPU_ISSET(c, &all) && want-- == 0) { CPU_SET(c, &one); break; } sched_setaffinity(0, sizeof one, &one); }

static Spec make_spec(uint64_t seed, uint64_t idx, const std::vector<Scenario*>& sc) {
    unsigned tot = 0; for (auto* s : sc) tot += s->weight;
    Spec sp; sp.opts = g_opts; sp.seed = Rng::mix(seed * 0x100000001b3ull + idx * 2 + 1);
    unsigned r = (unsigned)(Rng::mix(sp.seed ^ 0x5ca1ab1e) % tot);
    for (auto* s : sc) { if (r < s->weight) { sp.scen = s; break; } r -= s->weight; }
    return sp;
}
static Result* shared_result() { return (Result*)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }

static int replay_file(const char* path, bool verbose) {
    Spec s; std::string cls; uint64_t hash = 0;
    if (!read_replay(path, s, cls, hash)) { fprintf(stderr, "cannot read replay %s\n", path); return 2; }
    s.verbose = verbose;
    run_one(s);
    if (verbose) fwrite(g_res->log, 1, g_res->log_len, stdout);
    bool same = g_res->status == ST_FAIL && cls == g_res->cls;
    printf("replay: %s class=%s hash=%s message: %s\n", g_res->status == ST_FAIL ? "violation" : "no violation", g_res->cls, same && hash == g_res->hash_full ? "identical" : "different", g_res->msg);
    return same && hash == g_res->hash_full ? 1 : same ? 4 : g_res->status == ST_FAIL ? 5 : 0;
}

int main(int argc, char** argv) {
    int per = personality(0xffffffff);
    if (per >= 0 && !(per & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) { setenv("SIM_REEXEC", "1", 1); if (personality(per | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv); }
    setvbuf(stdout, nullptr, _IOLBF, 0);
    std::string mode, out, replay, rdir = ".", one; uint64_t seed = 1, runs = 1000, oneseed = 0; double wall = 20; int jobs = 8; bool verbose = false; double minwall = 25;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--list" || a == "--run" || a == "--selftest") mode = a;
        else if (a == "--replay") { mode = a; replay = nx(); }
        else if (a == "--one") { mode = a; one = nx(); oneseed = strtoull(nx().c_str(), 0, 10); }
        else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
        else if (a == "--runs") runs = strtoull(nx().c_str(), 0, 10);
        else if (a == "--wall") wall = atof(nx().c_str());
        else if (a == "--minwall") minwall = atof(nx().c_str());
        else if (a == "--jobs") jobs = atoi(nx().c_str());
        else if (a == "--out") out = nx();
        else if (a == "--scen") g_only = split(nx(), ',');
        else if (a == "--ignore") g_ignore = split(nx(), ',');
        else if (a == "--classes") g_classes = split(nx(), ',');
        else if (a == "--leak") g_opts |= 1;
        else if (a == "--races") g_opts |= 2;
        else if (a == "--hb") g_opts |= 4;
        else if (a == "--hbww") g_opts |= 8;
        else if (a == "--prop") g_prop = nx();
        else if (a == "--build") g_build = nx();
        else if (a == "--replaydir") rdir = nx();
        else if (a == "-v") verbose = true;
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
    }
    runtime_init();
    if (mode == "--list") { for (auto* s : scenarios()) printf("%s\t%u\t%s\n", s->name, s->weight, s->doc); return 0; }
    g_res = shared_result();
    if (mode == "--replay") { pin(0); return replay_file(replay.c_str(), verbose); }
    auto sc = active_scens();
    if (sc.empty()) { fprintf(stderr, "no scenario\n"); return 2; }
    if (mode == "--one") {
        Spec s; s.scen = find_scen(one); s.seed = oneseed; s.verbose = verbose; pin(0);
        if (!s.scen) return 2;
        run_one(s); fwrite(g_res->log, 1, g_res->log_len, stdout);
        printf("status %d class %s: %s\npoints %llu syncs %llu switches %llu sim %lld ns hash %llx choices %u sw %u fl %u\n", g_res->status, g_res->cls, g_res->msg, (unsigned long long)g_res->points, (unsigned long long)g_res->syncs,
            (unsigned long long)g_res->switches, (long long)g_res->sim_ns, (unsigned long long)g_res->hash_full, g_res->nch, g_res->nsw, g_res->nfl);
        Spec c = capture(s); uint64_t h = g_res->hash_full; std::string k = g_res->cls; run_one(c);
        printf("replayed: %s\n", h == g_res->hash_full && k == g_res->cls ? "identical" : "DIFFERENT");
        return 0;
    }
    if (mode == "--selftest") {      // determinism: every seed twice with the generator, once as explicit replay; different processes, different cpus
        uint64_t bad = 0;
        std::vector<pid_t> ps;
        for (int j = 0; j < jobs; ++j) {
            pid_t p = fork();
            if (p == 0) {
                pin(j); g_res = shared_result(); int bad = 0;
                for (uint64_t i = j; i < runs; i += jobs) {
                    Spec s = make_spec(seed, i, sc); run_one(s); uint64_t h = g_res->hash_full; std::string c = g_res->cls; int st = g_res->status; bool of = g_res->overflow; Spec e = capture(s);
                    pin(j + 1 + (int)(i % 5)); run_one(s); bool same = h == g_res->hash_full && c == g_res->cls;
                    run_one(e); bool same2 = of || (h == g_res->hash_full && c == g_res->cls);
                    if (st == ST_ERROR) same = false;
                    if (!same || !same2) { printf("nondeterministic: scenario %s seed %llu (%s) again=%d replay=%d status=%d\n", s.scen->name, (unsigned long long)s.seed, c.c_str(), same, same2, st); bad++; }
                }
                _exit(bad ? 1 : 0);
            }
            ps.push_back(p);
        }
        for (auto p : ps) { int st; waitpid(p, &st, 0); if (st) bad++; }
        printf("selftest: %llu seeds, %s\n", (unsigned long long)runs, bad ? "NOT deterministic" : "deterministic");
        return bad ? 2 : 0;
    }
    if (mode != "--run") { fprintf(stderr, "nothing to do\n"); return 2; }

    // ---- parallel search
    WStats* ws = (WStats*)mmap(nullptr, sizeof(WStats) * jobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    uint64_t* hs = (uint64_t*)mmap(nullptr, sizeof(uint64_t) * MAXH * jobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    volatile int* stop = (volatile int*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    int64_t t0 = real_ns(); int64_t tend = t0 + (int64_t)(wall * 1e9);
    std::vector<pid_t> ps;
    for (int j = 0; j < jobs; ++j) {
        ws[j].first_bad_idx = ~0ull;
        pid_t p = fork();
        if (p == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            pin(j); g_res = shared_result(); WStats& w = ws[j]; std::unordered_set<uint64_t> seen;
            for (uint64_t i = j; i < runs && real_ns() < tend && !*stop; i += jobs) {
                Spec s = make_spec(seed, i, sc); run_one(s); Result* r = g_res;
                w.runs++; w.points += r->points; w.syncs += r->syncs; w.switches += r->switches; w.fair += r->fair_used; w.sim_ns += r->sim_ns; w.races += r->races; w.hb += r->hb_checks;
                w.nt_hist[r->threads <= MAXT ? r->threads : MAXT]++;
                for (int k = 0; k < F_NKINDS; ++k) { w.fired[k] += r->fired[k]; if (r->fired[k]) w.runs_with[k]++; }
                for (uint32_t k = 0; k < r->nprobe; ++k) {
                    uint64_t q = 0; while (q < w.nprobe && strcmp(w.probes[q].name, r->probes[k].name)) ++q;
                    if (q == w.nprobe) { if (q >= MAXPROBE) continue; w.probes[q] = r->probes[k]; w.nprobe++; } else w.probes[q].n += r->probes[k].n;
                }
                for (size_t q = 0; q < sc.size() && q < 64; ++q) if (sc[q] == s.scen) w.per_scen[q]++;
                bool nontriv = r->threads > 2 ? r->nsw > 0 : r->syncs > 50;
                if (seen.insert(r->hash_sched ^ Rng::mix(r->nch + (uintptr_t)s.scen)).second && nontriv) { w.nontrivial++; if (w.nhash < MAXH) hs[(uint64_t)j * MAXH + w.nhash++] = r->hash_sched ^ Rng::mix(r->nch + (uintptr_t)s.scen); }
                if (r->status == ST_ERROR) w.errors++;
                else if (r->status == ST_OK_ABORT) w.aborted_ok++;
                else if (r->status == ST_FAIL) {
                    if (is_viol()) { w.viol++; if (w.first_bad_idx == ~0ull) { w.first_bad_idx = i; snprintf(w.bad_cls, 48, "%s", r->cls); } *stop = 1; }
                    else { w.ignored++; for (int q = 0; q < 8; ++q) { if (!w.ign_n[q] || !strcmp(w.ign_cls[q], r->cls)) { snprintf(w.ign_cls[q], 48, "%s", r->cls); w.ign_n[q]++; break; } } }
                }
            }
            _exit(0);
        }
        ps.push_back(p);
    }
    for (auto p : ps) { int st; waitpid(p, &st, 0); }
    double secs = (real_ns() - t0) / 1e9;
    WStats T; memset(&T, 0, sizeof T); T.first_bad_idx = ~0ull; std::unordered_set<uint64_t> all; std::map<std::string, uint64_t> pr, ig;
    for (int j = 0; j < jobs; ++j) {
        WStats& w = ws[j];
        T.runs += w.runs; T.viol += w.viol; T.ignored += w.ignored; T.aborted_ok += w.aborted_ok; T.errors += w.errors; T.points += w.points; T.syncs += w.syncs; T.switches += w.switches; T.fair += w.fair; T.sim_ns += w.sim_ns; T.races += w.races; T.hb += w.hb;
        for (int k = 0; k < F_NKINDS; ++k) { T.fired[k] += w.fired[k]; T.runs_with[k] += w.runs_with[k]; }
        for (int k = 0; k < 64; ++k) T.per_scen[k] += w.per_scen[k];
        for (int k = 0; k <= MAXT; ++k) T.nt_hist[k] += w.nt_hist[k];
        for (uint64_t k = 0; k < w.nprobe; ++k) pr[w.probes[k].name] += w.probes[k].n;
        for (int q = 0; q < 8; ++q) if (w.ign_n[q]) ig[w.ign_cls[q]] += w.ign_n[q];
        for (uint64_t k = 0; k < w.nhash; ++k) all.insert(hs[(uint64_t)j * MAXH + k]);
        if (w.first_bad_idx < T.first_bad_idx) T.first_bad_idx = w.first_bad_idx;
    }
    int rc = T.errors ? 2 : 0; std::string rpath, vcls, vmsg; uint64_t minruns = 0; size_t osw = 0, ofl = 0, nsw = 0, nfl = 0; std::string gate = "none";
    pin(0);
    if (T.first_bad_idx != ~0ull) {
        // the violation has to repeat exactly, from the seed and from the recorded decisions; should it not (a
        // corrupted process may depend on what no simulator controls), the next violation found is taken
        rc = 2; gate = "FAILED"; int64_t gend = real_ns() + 30000000000ll; unsigned tries = 0;
        for (uint64_t idx = T.first_bad_idx; rc == 2 && tries < 12 && real_ns() < gend; ++idx) {
            Spec s = make_spec(seed, idx, sc);
            run_one(s); if (!is_viol()) continue;
            ++tries;
            uint64_t h = g_res->hash_full; std::string c = g_res->cls; Spec e = capture(s); bool of = g_res->overflow; osw = e.sw.size(); ofl = e.fl.size(); vmsg = g_res->msg;
            run_one(s); bool same = is_viol() && h == g_res->hash_full && c == g_res->cls;
            run_one(e); bool same2 = !of && is_viol() && h == g_res->hash_full && c == g_res->cls;
            if (!same || (!same2 && !of)) fprintf(stderr, "gate: seed %llu scenario %s (%s) did not repeat (generator %d, replay %d)\n", (unsigned long long)s.seed, s.scen->name, c.c_str(), same, same2);
            if (!same) continue;
            gate = same2 ? "passed" : "seed only";
            Spec best = s;
            if (same2) {
                best = e;
                Min m; m.cls = c; m.deadline = real_ns() + (int64_t)(minwall * 1e9);
                m.go(best);
                minruns = m.runs;
                run_one(best); if (!(is_viol() && c == g_res->cls)) best = e;
            }
            run_one(best);
            nsw = best.sw.size(); nfl = best.fl.size(); vcls = c; vmsg = g_res->msg;
            rpath = rdir + "/" + g_prop + "-" + g_build + "-" + s.scen->name + "-" + std::to_string((unsigned long long)best.seed) + ".replay";
            rc = write_replay(rpath, best) ? 1 : 2;
        }
    }
    if (!out.empty()) {
        FILE* f = fopen(out.c_str(), "w"); if (!f) return 2;
        fprintf(f, "{\"runs\":%llu,\"seconds\":%.3f,\"violations\":%llu,\"ignored_other_property\":%llu,\"terminate_expected_and_seen\":%llu,\"errors\":%llu,\"points\":%llu,\"sync_points\":%llu,\"switches\":%llu,\"fair_runs\":%llu,\"sim_ns\":%lld,\"hb_checks\":%llu,\"races\":%llu,\"distinct\":%zu,\"seed\":%llu,",
            (unsigned long long)T.runs, secs, (unsigned long long)T.viol, (unsigned long long)T.ignored, (unsigned long long)T.aborted_ok, (unsigned long long)T.errors, (unsigned long long)T.points, (unsigned long long)T.syncs, (unsigned long long)T.switches, (unsigned long long)T.fair, (long long)T.sim_ns, (unsigned long long)T.hb, (unsigned long long)T.races, all.size(), (unsigned long long)seed);
        fprintf(f, "\"faults\":{"); bool first = true;
        for (int k = 0; k < F_NKINDS; ++k) { fprintf(f, "%s\"%s\":{\"fired\":%llu,\"runs\":%llu}", first ? "" : ",", fault_names[k], (unsigned long long)T.fired[k], (unsigned long long)T.runs_with[k]); first = false; }
        fprintf(f, "},\"probes\":{"); first = true; for (auto& p : pr) { fprintf(f, first ? "" : ","); json_str(f, p.first.c_str()); fprintf(f, ":%llu", (unsigned long long)p.second); first = false; }
        fprintf(f, "},\"ignored\":{"); first = true; for (auto& p : ig) { fprintf(f, first ? "" : ","); json_str(f, p.first.c_str()); fprintf(f, ":%llu", (unsigned long long)p.second); first = false; }
        fprintf(f, "},\"scenarios\":{"); first = true; for (size_t q = 0; q < sc.size() && q < 64; ++q) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", sc[q]->name, (unsigned long long)T.per_scen[q]); first = false; }
        fprintf(f, "},\"os_threads\":{"); first = true; for (int k = 0; k <= MAXT; ++k) if (T.nt_hist[k]) { fprintf(f, "%s\"%d\":%llu", first ? "" : ",", k, (unsigned long long)T.nt_hist[k]); first = false; }
        fprintf(f, "},\"gate\":\"%s\",\"class\":", gate.c_str()); json_str(f, vcls.c_str()); fprintf(f, ",\"message\":"); json_str(f, vmsg.c_str()); fprintf(f, ",\"replay\":"); json_str(f, rpath.c_str());
        fprintf(f, ",\"min\":{\"runs\":%llu,\"switches_before\":%zu,\"switches_after\":%zu,\"faults_before\":%zu,\"faults_after\":%zu}}\n", (unsigned long long)minruns, osw, nsw, ofl, nfl);
        fclose(f);
    }
    if (rc == 1) printf("FOUND class=%s scenario-replay=%s message: %s\n", vcls.c_str(), rpath.c_str(), vmsg.c_str());
    return rc;
}
