// C23: NUMA topology discovery and pinning, over a simulated /sys/devices/system: open, read and
// directory scans fail or are short or interrupted, CPUs are plugged and unplugged meanwhile.
#include "common.h"
#include <array>
#include <cstring>
#include <map>
#include <mutex>
#include <condition_variable>
#include <thread>
#include <set>
#include <algorithm>
#include <system_error>
#include <boost/system/system_error.hpp>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

extern "C" { extern int sim_affinity_bits[]; extern int (*sim_affinity_hook)(int, int); }

namespace {

struct Cpu { int node; bool online, exists; };
struct SysFs {
    std::map<unsigned, Cpu> cpus; std::map<unsigned, std::vector<unsigned>> nodes;      // node -> distance line
    std::set<unsigned> unsteady;            // CPUs whose state changed during the call
    bool node_links = true, node_dirs = true, has_online = true; unsigned style = 0, shuffle = 0;
    bool failed = false, plugged = false;   // an error was reported to the library; a CPU came or went
    std::map<int, int> fds;                 // descriptors of our files
    struct Dir { std::vector<std::pair<std::string, int>> ents; size_t pos = 0; bool bad = false; dirent64 d; };
    std::set<Dir*> dirs; std::map<int, Dir*> dirfds;
};
SysFs* fs_;
bool mine(const char* p) { return fs_ && p && std::strncmp(p, "/sys/", 5) == 0; }

std::string cpulist(std::vector<unsigned> const& v, unsigned style) {
    std::string s;
    for (size_t i = 0; i < v.size();) {
        size_t j = i; while (j + 1 < v.size() && v[j + 1] == v[j] + 1) ++j;
        if (style == 1) j = i;                                  // never a range
        if (!s.empty()) s += ",";
        s += std::to_string(v[i]); if (j > i) s += "-" + std::to_string(v[j]);
        i = j + 1;
    }
    return s;
}
void plug() {                               // a CPU appears, disappears, goes online or offline
    SysFs& f = *fs_; if (f.cpus.size() < 2) return;
    auto it = f.cpus.begin(); std::advance(it, sim::seq() % f.cpus.size());
    Cpu& c = it->second; int on = 0; for (auto& x : f.cpus) on += x.second.online;
    if (c.online) { if (on < 2) return; c.online = false; c.exists = sim::seq() & 1; } else { c.online = c.exists = true; }
    f.unsteady.insert(it->first); f.plugged = true;
    sim::logf("cpu %u is %s", it->first, c.online ? "online" : c.exists ? "offline" : "removed");
}
// one look at the file system; 0 or the error it reports
int look(const char* what, const char* path, bool may_fail) {
    sim::sync_point();
    Quiet q; sim::logf("%s %s", what, path);
    if (sim::fault(sim::F_IO)) {
        static const int e[] = { EACCES, EIO, ENOENT, EMFILE };
        if (sim::seq() % 3 || !may_fail) plug(); else { fs_->failed = true; sim::logf("fails: %s", std::strerror(e[sim::seq() / 3 % 4])); return e[sim::seq() / 3 % 4]; }
    }
    return 0;
}
// 0: no such thing, 1: directory, 2: file
int lookup(std::string p, std::string* content, std::vector<std::pair<std::string, int>>* ents) {
    SysFs& f = *fs_; while (p.size() > 1 && p.back() == '/') p.pop_back();
    unsigned n; char tail[64]; 
    auto kern = [&](const char* root) { return p == root; };
    if (kern("/sys") || kern("/sys/devices") || kern("/sys/devices/system") || kern("/sys/devices/system/cpu")) { if (ents && kern("/sys/devices/system/cpu")) for (auto& c : f.cpus) if (c.second.exists) ents->emplace_back("cpu" + std::to_string(c.first), DT_DIR); return 1; }
    if (kern("/sys/devices/system/node")) { if (!f.node_dirs) return 0; if (ents) for (auto& x : f.nodes) ents->emplace_back("node" + std::to_string(x.first), DT_DIR); return 1; }
    if (p == "/sys/devices/system/cpu/online") {
        if (!f.has_online) return 0;
        if (content) { std::vector<unsigned> v; for (auto& c : f.cpus) if (c.second.online) v.push_back(c.first); *content = cpulist(v, f.style) + "\n"; }
        return 2;
    }
    if (p == "/sys/devices/system/cpu/possible" || p == "/sys/devices/system/cpu/present") { if (content) { std::vector<unsigned> v; for (auto& c : f.cpus) v.push_back(c.first); *content = cpulist(v, f.style) + "\n"; } return 2; }
    tail[0] = 0;
    if (std::sscanf(p.c_str(), "/sys/devices/system/cpu/cpu%u%63s", &n, tail) >= 1) {
        auto it = f.cpus.find(n); if (it == f.cpus.end() || !it->second.exists) return 0;
        Cpu& c = it->second; std::string t = tail, link = "/node" + std::to_string(c.node);
        if (t.empty()) {
            if (ents) {
                for (const char* s : { "cache", "crash_notes", "firmware_node", "hotplug", "node", "nodex0", "online", "power", "subsystem", "topology", "uevent" }) ents->emplace_back(s, s[0] == 'f' || s[0] == 's' ? DT_LNK : s[0] == 'u' || s[0] == 'o' ? DT_REG : DT_DIR);
                if (f.node_links && c.online) ents->emplace_back(link.substr(1), DT_LNK);
            }
            return 1;
        }
        return f.node_links && c.online && t == link ? 1 : 0;
    }
    tail[0] = 0;
    if (std::sscanf(p.c_str(), "/sys/devices/system/node/node%u%63s", &n, tail) >= 1) {
        if (!f.node_dirs || !f.nodes.count(n)) return 0;
        std::string t = tail; if (t.empty()) return 1;
        if (t == "/distance") { if (content) { for (size_t i = 0; i < f.nodes[n].size(); ++i) *content += (i ? " " : "") + std::to_string(f.nodes[n][i]); *content += "\n"; } return 2; }
        if (t == "/cpulist") { if (content) { std::vector<unsigned> v; for (auto& c : f.cpus) if (c.second.online && c.second.node == (int)n) v.push_back(c.first); *content = cpulist(v, f.style) + "\n"; } return 2; }
    }
    return 0;
}
int memfile(std::string const& s) { int fd = (int)::syscall(SYS_memfd_create, "sysfs", 0); if (fd >= 0) { if (::write(fd, s.data(), s.size()) < 0) {} ::lseek(fd, 0, SEEK_SET); fs_->fds[fd] = 1; } return fd; }
int open_fd(const char* path, int flags) {
    if (int e = look("open", path, true)) { errno = e; return -1; }
    Quiet q; std::string c; std::vector<std::pair<std::string, int>> ents; int k = lookup(path, &c, &ents);
    if (!k) { errno = ENOENT; return -1; }
    if (k == 2) { if (flags & O_DIRECTORY) { errno = ENOTDIR; return -1; } return memfile(c); }
    int fd = memfile("");
    // the order of a directory is the file system's choice
    for (size_t i = ents.size(); i > 1; --i) std::swap(ents[i - 1], ents[(fs_->shuffle >> (i % 16)) % i]);
    auto* d = new SysFs::Dir; d->ents.emplace_back(".", DT_DIR); d->ents.emplace_back("..", DT_DIR); d->ents.insert(d->ents.end(), ents.begin(), ents.end());
    fs_->dirfds[fd] = d; return fd;
}
int stat_fill(const char* path, mode_t* mode) {
    if (int e = look("stat", path, false)) { errno = e; return -1; }
    Quiet q; int k = lookup(path, nullptr, nullptr); if (!k) { errno = ENOENT; return -1; }
    *mode = k == 1 ? S_IFDIR | 0755 : S_IFREG | 0444; return 0;
}
// looked up before main(): the first call must not differ from later ones, a run would otherwise depend on what
// the process did before it
struct Real {
    FILE* (*fopen)(const char*, const char*); int (*fclose)(FILE*); DIR* (*fdopendir)(int); DIR* (*opendir)(const char*); struct dirent64* (*readdir64)(DIR*); int (*closedir)(DIR*); bool set;
    template<class F> static void next(F& f, const char* name) { f = (F)::dlsym(RTLD_NEXT, name); }
    void init() { if (set) return; set = true; next(fopen, "fopen"); next(fclose, "fclose"); next(fdopendir, "fdopendir"); next(opendir, "opendir"); next(readdir64, "readdir64"); next(closedir, "closedir"); }
} real;
__attribute__((constructor(101))) void init_real() { real.init(); }
}

extern "C" {
FILE* fopen(const char* p, const char* mode) {
    real.init();
    if (!mine(p)) return real.fopen(p, mode);
    int fd = open_fd(p, 0); if (fd < 0) return nullptr;
    Quiet q; return ::fdopen(fd, mode);
}
int fclose(FILE* fp) {
    real.init();
    Quiet q; if (fs_ && fp) fs_->fds.erase(::fileno(fp)); return real.fclose(fp);
}
FILE* fopen64(const char* p, const char* mode) { return fopen(p, mode); }
int open(const char* p, int flags, ...) {
    va_list ap; va_start(ap, flags); int m = va_arg(ap, int); va_end(ap);
    return mine(p) ? open_fd(p, flags) : (int)::syscall(SYS_openat, AT_FDCWD, p, flags, m);
}
int open64(const char* p, int flags, ...) { va_list ap; va_start(ap, flags); int m = va_arg(ap, int); va_end(ap); return open(p, flags, m); }
int openat(int d, const char* p, int flags, ...) { va_list ap; va_start(ap, flags); int m = va_arg(ap, int); va_end(ap); return mine(p) ? open_fd(p, flags) : (int)::syscall(SYS_openat, d, p, flags, m); }
int openat64(int d, const char* p, int flags, ...) { va_list ap; va_start(ap, flags); int m = va_arg(ap, int); va_end(ap); return openat(d, p, flags, m); }
int __openat64_2(int d, const char* p, int flags) { return openat(d, p, flags, 0); }
int __openat_2(int d, const char* p, int flags) { return openat(d, p, flags, 0); }
int __open_2(const char* p, int flags) { return open(p, flags, 0); }
int __open64_2(const char* p, int flags) { return open(p, flags, 0); }
ssize_t read(int fd, void* b, size_t n) {
    if (fs_ && fs_->fds.count(fd)) {
        sim::sync_point();
        if (sim::fault(sim::F_IO)) {
            Quiet q;
            switch (sim::seq() % 4) {
            case 0: sim::logf("read interrupted"); errno = EINTR; return -1;
            case 1: case 2: if (n > 1) { n = 1 + sim::seq() / 4 % 3; sim::logf("short read, %d bytes", (int)n); } break;
            case 3: if (::lseek(fd, 0, SEEK_CUR) == 0) { sim::logf("read fails"); fs_->failed = true; errno = EIO; return -1; } break;
            }
        }
    }
    return ::syscall(SYS_read, fd, b, n);
}
DIR* fdopendir(int fd) {
    real.init();
    Quiet q; if (!fs_ || !fs_->dirfds.count(fd)) return real.fdopendir(fd);
    auto* d = fs_->dirfds[fd]; fs_->dirfds.erase(fd); fs_->dirs.insert(d); fs_->fds[fd] = 2; d->d.d_off = fd; return (DIR*)d;
}
DIR* opendir(const char* p) {
    real.init();
    if (!mine(p)) return real.opendir(p);
    int fd = open_fd(p, O_DIRECTORY); return fd < 0 ? nullptr : fdopendir(fd);
}
struct dirent64* readdir64(DIR* dp) {
    real.init();
    auto* d = (SysFs::Dir*)dp; bool ours; { Quiet q; ours = fs_ && fs_->dirs.count(d); }
    if (!ours) return real.readdir64(dp);
    if (int e = look("readdir", "", d->pos > 0)) { errno = e; return nullptr; }
    Quiet q; if (d->pos >= d->ents.size()) return nullptr;
    auto& x = d->ents[d->pos++]; auto off = d->d.d_off; std::memset(&d->d, 0, sizeof d->d); d->d.d_off = off; d->d.d_ino = 7; d->d.d_reclen = sizeof d->d; d->d.d_type = (unsigned char)x.second; std::snprintf(d->d.d_name, sizeof d->d.d_name, "%s", x.first.c_str());
    return &d->d;
}
struct dirent* readdir(DIR* dp) { return (struct dirent*)readdir64(dp); }
int closedir(DIR* dp) {
    real.init();
    auto* d = (SysFs::Dir*)dp; Quiet q; if (!fs_ || !fs_->dirs.count(d)) return real.closedir(dp);
    int fd = (int)d->d.d_off; fs_->dirs.erase(d); fs_->fds.erase(fd); delete d; return (int)::syscall(SYS_close, fd);
}
int close(int fd) {
    if (fs_ && sim::tid() >= 0) { Quiet q; fs_->fds.erase(fd); auto it = fs_->dirfds.find(fd); if (it != fs_->dirfds.end()) { delete it->second; fs_->dirfds.erase(it); } }
    return (int)::syscall(SYS_close, fd);
}
int statx(int d, const char* __restrict p, int flags, unsigned mask, struct statx* __restrict b) {
    if (!mine(p)) return (int)::syscall(SYS_statx, d, p, flags, mask, b);
    mode_t m; if (stat_fill(p, &m)) return -1;
    std::memset(b, 0, sizeof *b); b->stx_mask = STATX_BASIC_STATS; b->stx_mode = m; b->stx_nlink = 1; b->stx_size = 4096; return 0;
}
static int stat_any(int d, const char* p, struct stat* b, int flags) {
    if (!mine(p)) return (int)::syscall(SYS_newfstatat, d, p, b, flags);
    mode_t m; if (stat_fill(p, &m)) return -1;
    std::memset(b, 0, sizeof *b); b->st_mode = m; b->st_nlink = 1; b->st_size = 4096; return 0;
}
int stat(const char* __restrict p, struct stat* __restrict b) { return stat_any(AT_FDCWD, p, b, 0); }
int lstat(const char* __restrict p, struct stat* __restrict b) { return stat_any(AT_FDCWD, p, b, AT_SYMLINK_NOFOLLOW); }
int fstatat(int d, const char* __restrict p, struct stat* __restrict b, int flags) { return stat_any(d, p, b, flags); }
int access(const char* p, int mode) { if (!mine(p)) return (int)::syscall(SYS_faccessat, AT_FDCWD, p, mode); mode_t m; return stat_fill(p, &m); }
}

namespace {
std::string show(std::vector<bf::numa::node> const& v) {
    std::string s; for (auto& n : v) { s += "node " + std::to_string(n.id) + " cpus"; for (auto c : n.logical_cpus) s += " " + std::to_string(c); s += " distance"; for (auto d : n.distance) s += " " + std::to_string(d); s += "; "; } return s;
}
// 0 ok, 1 the library reported a system error, 2 out of memory
int discover(std::vector<bf::numa::node>& topo) {
    try { topo = bf::numa::topology(); return 0; }
    catch (std::system_error const& e) { Quiet q; sim::logf("std::system_error"); return 1; }
    catch (boost::system::system_error const& e) { Quiet q; sim::logf("boost system_error"); return 1; }
    catch (std::exception const& e) { Quiet q; fail("wrong-error", "topology() threw %s (%s) instead of a system error", typeid(e).name(), e.what()); }
}
void draw(SysFs& f) {
    int shape = (int)choose(5);                     // 0: one node, else several
    int nodes = shape == 0 ? 1 : 1 + (int)choose(5), id = 0; std::vector<unsigned> ids;
    bool sparse = choose(3) == 2;
    for (int i = 0; i < nodes; ++i) { ids.push_back(id); id += sparse ? 1 + (int)choose(12) : 1; }
    for (int i = 0; i < nodes; ++i) { auto& d = f.nodes[ids[i]]; for (int j = 0; j < nodes; ++j) d.push_back(i == j ? 10 : 11 + (i > j ? (j * 7 + i * 3) : (i * 7 + j * 3)) % 40 + (unsigned)(choose(20) == 19 ? 200 : 0)); }
    int cpus = 1 + (int)choose(12); unsigned c = 0; bool blocks = choose(2);
    for (int i = 0; i < cpus; ++i) {
        f.cpus[c] = Cpu{ (int)ids[blocks ? i * nodes / cpus : choose(nodes)], choose(4) != 3, true };
        unsigned k = choose(8); c += k < 6 ? 1 : k == 6 ? 2 + choose(8) : 90 + choose(40);
    }
    f.cpus.begin()->second.online = true;
    f.node_links = choose(6) != 5; f.node_dirs = choose(6) != 5; if (!f.node_dirs) f.node_links = f.node_links && choose(2);
    f.style = choose(3); f.shuffle = choose(1 << 16);
}
void check(SysFs const& f, std::map<unsigned, Cpu> const& before, std::vector<bf::numa::node> const& topo) {
    std::string s = show(topo); std::map<unsigned, unsigned> where; const bf::numa::node* prev = nullptr;
    for (auto& n : topo) {
        if (prev && !(prev->id < n.id)) fail("wrong-topology", "nodes not in order or listed twice: %s", s.c_str());
        prev = &n;
        for (auto c : n.logical_cpus) if (!where.emplace(c, n.id).second) fail("wrong-topology", "cpu %u is in two nodes: %s", c, s.c_str());
        if (n.logical_cpus.empty()) fail("wrong-topology", "node %u without cpus: %s", n.id, s.c_str());
    }
    bool links = f.node_links;
    bool all0 = topo.size() == 1 && topo[0].id == 0;
    for (auto& b : before) {
        auto w = where.find(b.first); bool steady = !f.unsteady.count(b.first);
        if (steady && b.second.online && w == where.end()) { if (f.failed) continue; fail("wrong-topology", "online cpu %u is missing: %s", b.first, s.c_str()); }
        if (steady && !b.second.online && w != where.end()) fail("wrong-topology", "offline cpu %u is listed: %s", b.first, s.c_str());
        if (w != where.end() && links && (int)w->second != b.second.node && !(all0 && (f.plugged || f.failed))) fail("wrong-topology", "cpu %u belongs to node %d: %s", b.first, b.second.node, s.c_str());
        if (w != where.end() && !links && w->second != 0) fail("wrong-topology", "cpu %u is put into node %u of a machine without nodes: %s", b.first, w->second, s.c_str());
    }
    for (auto& w : where) if (!before.count(w.first)) fail("wrong-topology", "cpu %u does not exist: %s", w.first, s.c_str());
    for (auto& n : topo) {
        std::vector<unsigned> want{ 10 }; auto it = f.nodes.find(n.id);
        if (f.node_dirs && it != f.nodes.end()) want = it->second;
        std::vector<unsigned> got(n.distance.begin(), n.distance.end());
        if (got != want && !(f.failed && got == std::vector<unsigned>{ 10 })) fail("wrong-topology", "wrong distances of node %u: %s", n.id, s.c_str());
    }
    if (topo.empty() && !f.failed && f.has_online) fail("wrong-topology", "no nodes reported");
}
struct Off { ~Off() { Quiet q; delete fs_; fs_ = nullptr; sim_affinity_hook = nullptr; } };

static void run(bool faults, bool pin) {
    sim::set_budget(600000, 4000000);       // parsing takes many points
    if (faults) sim::enable_fault(sim::F_IO, 0.3);
    { Quiet q; fs_ = new SysFs; draw(*fs_); } Off off; SysFs& f = *fs_;
    if (faults && choose(8) == 7) { f.has_online = false; f.failed = true; }
    int rounds = 1 + (int)choose(2);
    for (int r = 0; r < rounds; ++r) {
        std::map<unsigned, Cpu> before;
        { Quiet q; f.unsteady.clear(); f.failed = !f.has_online; f.plugged = false; before = f.cpus; for (auto& c : f.cpus) sim::logf("cpu %u node %d %s", c.first, c.second.node, c.second.online ? "online" : "offline"); }
        std::vector<bf::numa::node> topo; int e = discover(topo);
        {
            Quiet q; sim::logf("result %d: %s", e, show(topo).c_str());
            if (f.failed) probe("sysfs error reported to the library");
            if (f.plugged) probe("cpu plugged or unplugged during discovery");
            if (e && !f.failed && !f.plugged) fail("wrong-error", "topology() failed although nothing went wrong");
            if (!e) check(f, before, topo);
            if (!f.dirs.empty() || !f.dirfds.empty() || !f.fds.empty()) fail("leak", "topology() leaves %d files open", (int)(f.fds.size() + f.dirfds.size()));
        }
        if (pin && !e) {
            // threads pin themselves to the cpus found; the system refuses those that went offline
            static std::set<int> refused; { Quiet q; refused.clear(); }
            sim_affinity_hook = [](int, int cpu) { Quiet q; bool on = cpu >= 0 && fs_->cpus.count(cpu) && fs_->cpus[cpu].online; if (sim::fault(sim::F_IO)) plug(); return on ? 0 : EINVAL; };
            std::vector<std::thread> ts; { Quiet q; ts.reserve(16); } int other = (int)choose(3), n = 0; std::mutex hm; std::condition_variable hc; bool go = false; static std::map<int, int> ids; std::vector<unsigned> cpus; { Quiet q; ids.clear(); cpus.reserve(8); }
            for (auto& nd : topo) for (auto c : nd.logical_cpus) {
                if (++n > 4) break;
                unsigned cpu = c;
                if (other == 2) {           // pinned by the main thread; its handle is all that is known of it
                    int k = n; { Quiet q; cpus.push_back(cpu); }
                    ts.emplace_back([&, k] { std::unique_lock<std::mutex> lk(hm); { Quiet q; ids[k] = sim::tid(); } hc.notify_all(); while (!go) hc.wait(lk); });
                    continue;
                }
                auto body = [cpu, other] {
                    bool ok = true; int t = sim::tid(), was = sim_affinity_cpu[t], code = 0; bool on0; { Quiet q; on0 = fs_->cpus[cpu].online; }
                    try { if (other) bf::numa::pin_thread(cpu, ::pthread_self()); else bf::numa::pin_thread(cpu); }
                    catch (std::system_error const& x) { ok = false; code = x.code().value(); }
                    Quiet q; bool on1 = fs_->cpus[cpu].online;
                    if (ok && (sim_affinity_cpu[t] != (int)cpu || sim_affinity_bits[t] != 1)) fail("not-pinned", "pin_thread(%u) returned but the thread may run on %d cpus, first %d", cpu, sim_affinity_bits[t], sim_affinity_cpu[t]);
                    if (!ok && on0 && on1) fail("wrong-error", "pin_thread(%u) failed although the system accepts it", cpu);
                    if (!ok && code != EINVAL) fail("wrong-error", "pin_thread(%u) reports error %d", cpu, code);
                    if (!ok) probe("pin_thread refused");
                };
                ts.emplace_back(body);
            }
            if (other == 2) {
                { std::unique_lock<std::mutex> lk(hm); for (;;) { { Quiet q; if (ids.size() == ts.size()) break; } hc.wait(lk); } }
                for (size_t i = 0; i < ts.size(); ++i) {
                    int t = ids[(int)i + 1], me = sim::tid(), code = 0; bool ok = true; unsigned cpu = cpus[i]; std::vector<int> was; bool on0;
                    { Quiet q; was.assign(sim_affinity_cpu, sim_affinity_cpu + sim::MAXT); on0 = f.cpus[cpu].online; }
                    try { bf::numa::pin_thread(cpu, ts[i].native_handle()); } catch (std::system_error const& x) { ok = false; code = x.code().value(); }
                    Quiet q; bool on1 = f.cpus[cpu].online;
                    for (int k = 0; k < sim::MAXT; ++k) if (k != t && sim_affinity_cpu[k] != was[k]) fail("not-pinned", "pin_thread(%u, handle of thread %d) pins thread %d%s", cpu, t, k, k == me ? ", the caller" : "");
                    if (ok && (sim_affinity_cpu[t] != (int)cpu || sim_affinity_bits[t] != 1)) fail("not-pinned", "pin_thread(%u, handle) returned but the thread may run on %d cpus, first %d", cpu, sim_affinity_bits[t], sim_affinity_cpu[t]);
                    if (!ok && ((on0 && on1) || code != EINVAL)) fail("wrong-error", "pin_thread(%u, handle) reports error %d", cpu, code);
                    if (!ok) probe("pin_thread refused");
                    std::vector<int>().swap(was);
                }
                { std::unique_lock<std::mutex> lk(hm); go = true; hc.notify_all(); }
            }
            for (auto& t : ts) t.join();
            Quiet q; std::vector<std::thread>().swap(ts); std::vector<unsigned>().swap(cpus);
        }
        Quiet q; std::vector<bf::numa::node>().swap(topo);
    }
}
}

SIM_SCENARIO(topo_plain, 2, "discovery on drawn machines, no faults") { run(false, false); }
SIM_SCENARIO(topo_faults, 4, "discovery while opens, reads and scans fail and CPUs come and go") { run(true, false); }
SIM_SCENARIO(topo_pin, 1, "threads pin themselves to the CPUs found") { run(true, true); }
