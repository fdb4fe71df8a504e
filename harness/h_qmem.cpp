// Element lifetime (C05) and doubly mapped memory resources (C06).
#include "vmon.hpp"
#include "cler.hpp"
#include <deque>
#include <memory>
#include <unordered_map>
#include <cassert>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/syscall.h>
using vmon::Rng; using vmon::violation;

// ------------------------------------------------------------------ C05
namespace life {
static std::unordered_map<const void*, int> live;  // address -> 1 while alive
static long constructed, destroyed;
static const char* bad = nullptr;
static void born(const void* p, size_t al) { constructed++; if ((uintptr_t)p % al) bad = "misaligned object"; if (!live.emplace(p, 1).second) bad = "object constructed over a live one"; }
static void died(const void* p) { destroyed++; if (!live.erase(p)) bad = "destruction of something not alive"; }
static void used(const void* p) { if (!live.count(p)) bad = "assignment to or from an object that is not alive"; }

template <size_t PAD, size_t AL> struct alignas(AL) Tracked {
    std::shared_ptr<int> tok; char pad[PAD];
    Tracked() noexcept { born(this, AL); }
    Tracked(std::shared_ptr<int> t) noexcept : tok(std::move(t)) { born(this, AL); }
    Tracked(const Tracked& o) noexcept : tok(o.tok) { used(&o); born(this, AL); }
    Tracked(Tracked&& o) noexcept : tok(std::move(o.tok)) { used(&o); born(this, AL); }
    Tracked& operator=(const Tracked& o) noexcept { used(this); used(&o); tok = o.tok; return *this; }
    Tracked& operator=(Tracked&& o) noexcept { used(this); used(&o); tok = std::move(o.tok); return *this; }
    ~Tracked() { died(this); }
};
template <size_t PAD> struct MoveOnly {
    std::shared_ptr<int> tok; char pad[PAD];
    MoveOnly() noexcept { born(this, alignof(MoveOnly)); }
    MoveOnly(std::shared_ptr<int> t) noexcept : tok(std::move(t)) { born(this, alignof(MoveOnly)); }
    MoveOnly(const MoveOnly&) = delete; MoveOnly& operator=(const MoveOnly&) = delete;
    MoveOnly(MoveOnly&& o) noexcept : tok(std::move(o.tok)) { used(&o); born(this, alignof(MoveOnly)); }
    MoveOnly& operator=(MoveOnly&& o) noexcept { used(this); used(&o); tok = std::move(o.tok); return *this; }
    ~MoveOnly() { died(this); }
};
template <class T, size_t N> static void run(Rng& rng, size_t req, const char* tn) {
    live.clear(); constructed = destroyed = 0; bad = nullptr;
    std::vector<std::shared_ptr<int>> toks;      // our own reference to every token
    std::deque<int> m; unsigned nops = 40 + rng.below(300); uint64_t sig = vmon::mix(sizeof(T) * 64 + N, req); size_t wraps = 0, w = 0, left = 0; bool dbf = false;
    {
        std::unique_ptr<dro::SPSCQueue<T, N>> q; if constexpr (N == 0) q.reset(new dro::SPSCQueue<T, 0>(req)); else q.reset(new dro::SPSCQueue<T, N>());
        dbf = q->is_doubly_mapped(); size_t cap = q->capacity();
        auto where = [&] { return vmon::fmt("%s %s cap=%zu", tn, N ? "stack" : dbf ? "dbf" : "heap", cap); };
        auto expect = [&](int id, long n, const char* op) { if (toks[id].use_count() != n) violation("life:refs", "%s after %s: token %d has %ld owners, expected %ld", where().c_str(), op, id, toks[id].use_count(), n); };
        auto pushed = [&](int id) { m.push_back(id); if (++w > cap) { w = 0; wraps++; } };
        if (bad) violation("life:object", "%s at construction: %s", where().c_str(), bad);
        int nv = vmon::st().nviol.load();
        for (unsigned o = 0; o < nops && vmon::st().nviol.load() == nv; ++o) {
            unsigned op = rng.below(6); if (m.size() == cap && op < 4 && rng.chance(2, 3)) op = 4 + rng.below(2); sig = vmon::mix(sig, op);
            int id = (int)toks.size();
            if (op <= 3) {
                toks.push_back(std::make_shared<int>(id));
                T v(toks[id]); bool full = m.size() >= cap; bool ok = true;
                if (op == 0 && !full) { q->push(std::move(v)); expect(id, 2, "push&&"); }
                else if (op == 1) { ok = q->try_push(std::move(v)); expect(id, 2, ok ? "try_push&&" : "failed try_push&&"); if (!ok && v.tok != toks[id]) violation("life:failed-push-consumed", "%s a try_push that failed took the value", where().c_str()); }
                else if constexpr (std::is_copy_constructible_v<T>) {
                    if (op == 2 && !full) { q->push(v); expect(id, 3, "push"); if (v.tok != toks[id]) violation("life:copy-push-moved", "%s", where().c_str()); }
                    else { ok = q->try_push(v); expect(id, ok ? 3 : 2, "try_push"); }
                } else { ok = q->try_push(std::move(v)); expect(id, 2, "try_push&&"); }
                if (ok) pushed(id);
            } else {
                T v; bool ok = true; if (m.empty()) { ok = q->try_pop(v); if (ok) { violation("life:phantom", "%s pop from empty", where().c_str()); break; } continue; }
                if (op == 4) q->pop(v); else ok = q->try_pop(v);
                if (!ok) { violation("life:pop-failed", "%s try_pop failed with %zu elements", where().c_str(), m.size()); break; }
                int x = m.front(); m.pop_front();
                if (v.tok != toks[x]) violation("life:value", "%s popped the wrong object", where().c_str());
                expect(x, 2, "pop");      // ours and v's: the slot must not keep it
            }
            if (bad) violation("life:object", "%s op %u: %s", where().c_str(), op, bad);
        }
        for (int x : m) expect(x, 2, "history"); left = m.size();
    }
    if (bad) violation("life:object", "%s at destruction: %s", tn, bad);
    if (!live.empty() || constructed != destroyed) violation("life:balance", "%s N=%zu req=%zu: %ld constructed, %ld destroyed, %zu alive after destruction", tn, N, req, constructed, destroyed, live.size());
    for (size_t i = 0; i < toks.size(); ++i) if (toks[i].use_count() != 1) { violation("life:leak", "%s token %zu still owned after destruction (%ld)", tn, i, toks[i].use_count()); break; }
    vmon::evals(); vmon::stat("objects_tracked", constructed); vmon::stat("left_in_channel", left); vmon::stat("dbf", dbf);
    if (wraps || left) vmon::nontrivial(sig);
    vmon::sample("%s N=%zu requested=%zu dbf=%d ops=%u constructed=%ld left inside=%zu wraps=%zu", tn, N, req, (int)dbf, nops, constructed, left, wraps);
}
template <class S> static void run_std(Rng& rng, size_t req, S (*mk)(int)) {
    // standard types under the address/leak sanitizers
    dro::SPSCQueue<S> q(req); std::deque<int> m; int id = 0;
    for (unsigned o = 0; o < 200; ++o) {
        if (rng.chance(1, 2) && m.size() < q.capacity()) { S v = mk(id); if (rng.chance(1, 2)) q.push(std::move(v)); else if (!q.try_push(std::move(v))) { violation("life:std-push", "push failed"); return; } m.push_back(id++); }
        else if (!m.empty()) { S v{}; if (rng.chance(1, 2)) q.pop(v); else if (!q.try_pop(v)) { violation("life:std-pop", "pop failed"); return; } if (!(v == mk(m.front()))) { violation("life:std-value", "wrong value"); return; } m.pop_front(); }
    }
    vmon::evals(); vmon::nontrivial(vmon::mix(sizeof(S), req * 1000 + id));
}
static std::string mks(int i) { return "string-with-heap-storage-" + std::to_string(i); }
static std::vector<int> mkv(int i) { return std::vector<int>(1 + i % 30, i); }
static void c(uint64_t i, Rng& r) {
    size_t req = (i / 10) % 2 ? 1 + r.below(400) : 1 + r.below(12);
    switch (i % 10) {
        case 0: run<Tracked<1, 8>, 0>(r, req, "tracked24"); break;
        case 1: run<Tracked<100, 64>, 0>(r, req, "tracked128-align64"); break;
        case 2: run<Tracked<8, 16>, 4>(r, 4, "tracked32"); break;
#ifndef Q_NO_MOVE_ONLY
        case 3: run<MoveOnly<1>, 0>(r, req, "moveonly24"); break;
        case 4: run<MoveOnly<200>, 0>(r, 1 + r.below(60), "moveonly216"); break;
        case 5: run<MoveOnly<8>, 1>(r, 1, "moveonly24"); break;
#endif
        case 6: run<Tracked<4080, 16>, 0>(r, 1 + r.below(4), "tracked4096"); break;
        case 7: run<Tracked<8, 8>, 37>(r, 37, "tracked24"); break;
        case 8: run_std<std::string>(r, req, mks); break;
        default: run_std<std::vector<int>>(r, req, mkv); break;
    }
}
} // namespace life

// ------------------------------------------------------------------ C06: interposed system calls
extern "C" {
void* __real_mmap(void*, size_t, int, int, int, off_t); int __real_munmap(void*, size_t); int __real_ftruncate(int, off_t); int __real_close(int);
int __real_shm_open(const char*, int, mode_t);
}
namespace sysmon {
enum Kind { MMAP_RESERVE, MMAP_SHARED, FTRUNC, MEMFD, SHM, NK };
static const char* KN[] = {"mmap(reserve)", "mmap(shared)", "ftruncate", "memfd_create", "shm_open"};
static std::mutex mu; static std::map<uintptr_t, size_t> maps; static std::set<int> fds; static std::vector<std::string> bad;
static bool tracking = false; static std::vector<std::string> names; static long calls[NK]; static int fail_kind = -1; static long fail_at = 0; static bool persistent = false, lie = false; static int delay_us = 0; static bool fired = false, memfd_off = false;
static bool should_fail(Kind k) { calls[k]++; if ((int)k == fail_kind && (calls[k] == fail_at || (persistent && calls[k] >= fail_at))) { fired = true; return true; } return false; }
static void add(uintptr_t a, size_t n) { // a fixed mapping replaces whatever was there
    uintptr_t e = a + n; for (auto it = maps.begin(); it != maps.end();) { uintptr_t b = it->first, f = b + it->second; if (f <= a || b >= e) { ++it; continue; } it = maps.erase(it); if (b < a) maps[b] = a - b; if (f > e) { maps[e] = f - e; } it = maps.lower_bound(a); if (it != maps.end() && it->first == a) ++it; } maps[a] = n; }
static bool owns(uintptr_t a, size_t n) { uintptr_t p = a; while (p < a + n) { auto it = maps.upper_bound(p); if (it == maps.begin()) return false; --it; if (p >= it->first + it->second) return false; p = it->first + it->second; } return true; }
static void del(uintptr_t a, size_t n) { add(a, n); maps.erase(a); }
static void reset() { for (auto& c : calls) c = 0; fail_kind = -1; persistent = lie = fired = false; fail_at = 0; bad.clear(); maps.clear(); fds.clear(); names.clear(); tracking = true; }
}
extern "C" void* __wrap_mmap(void* a, size_t n, int prot, int fl, int fd, off_t off) {
    using namespace sysmon; if (!tracking) return __real_mmap(a, n, prot, fl, fd, off);
    if (delay_us) usleep(delay_us);
    std::lock_guard<std::mutex> g(mu); Kind k = (fl & MAP_SHARED) ? MMAP_SHARED : MMAP_RESERVE;
    if (fl & MAP_FIXED && !owns((uintptr_t)a, n)) bad.push_back(vmon::fmt("fixed mapping of %zu bytes over memory not reserved by the channel", n));
    if (k == MMAP_SHARED && fds.count(fd) && !(fcntl(fd, F_GETFD) & FD_CLOEXEC)) bad.push_back("the descriptor would be inherited by programs the process starts");
    if (should_fail(k)) { if (lie && k == MMAP_SHARED) { void* r = __real_mmap(a, n, prot, MAP_PRIVATE | MAP_ANONYMOUS | (fl & MAP_FIXED), -1, 0); if (r != MAP_FAILED) add((uintptr_t)r, n); return r; } errno = ENOMEM; return MAP_FAILED; }
    void* r = __real_mmap(a, n, prot, fl, fd, off); if (r != MAP_FAILED) add((uintptr_t)r, n); return r;
}
extern "C" int __wrap_munmap(void* a, size_t n) {
    using namespace sysmon; if (!tracking) return __real_munmap(a, n); std::lock_guard<std::mutex> g(mu); size_t pg = 4096; n = (n + pg - 1) / pg * pg;
    if (!owns((uintptr_t)a, n)) { bad.push_back(vmon::fmt("munmap of %zu bytes that are not the channel's own mapping", n)); errno = EINVAL; return -1; }
    del((uintptr_t)a, n); return __real_munmap(a, n);
}
extern "C" int __wrap_ftruncate(int fd, off_t n) { using namespace sysmon; if (!tracking) return __real_ftruncate(fd, n); { std::lock_guard<std::mutex> g(mu); if (should_fail(FTRUNC)) { errno = ENOSPC; return -1; } } return __real_ftruncate(fd, n); }
extern "C" int __wrap_close(int fd) { using namespace sysmon; if (!tracking) return __real_close(fd); { std::lock_guard<std::mutex> g(mu); if (!fds.erase(fd)) { bad.push_back(vmon::fmt("close(%d) of a descriptor the channel does not hold", fd)); errno = EBADF; return -1; } } return __real_close(fd); }
extern "C" int __wrap_shm_open(const char* nme, int fl, mode_t m) { using namespace sysmon; if (!tracking) return __real_shm_open(nme, fl, m); std::lock_guard<std::mutex> g(mu); if (should_fail(SHM)) { errno = EACCES; return -1; } int r = __real_shm_open(nme, fl, m); if (r >= 0) { fds.insert(r); if (fl & O_CREAT) names.push_back(nme); } return r; }
extern "C" long __wrap_syscall(long no, long a, long b, long c, long d, long e, long f) {
    using namespace sysmon; long r; register long r10 asm("r10") = d; register long r8 asm("r8") = e; register long r9 asm("r9") = f;
    if (tracking && no == SYS_memfd_create) { std::lock_guard<std::mutex> g(mu); if (memfd_off || should_fail(MEMFD)) { errno = ENOSYS; return -1; } }
    asm volatile("syscall" : "=a"(r) : "0"(no), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    if (tracking && no == SYS_memfd_create) { std::lock_guard<std::mutex> g(mu); fds.insert((int)r); }
    return r;
}
extern "C" int __wrap_memfd_create(const char* n, unsigned fl) { return (int)__wrap_syscall(SYS_memfd_create, (long)n, fl, 0, 0, 0, 0); }

namespace res {
static int count_fds() { int n = 0; DIR* d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
static int shared_maps(size_t* bytes = nullptr) { FILE* f = fopen("/proc/self/maps", "r"); char l[512]; int n = 0; size_t tot = 0; while (fgets(l, sizeof l, f)) { unsigned long a, b; char p[8]; if (sscanf(l, "%lx-%lx %7s", &a, &b, p) == 3 && p[3] == 's') { n++; tot += b - a; } } fclose(f); if (bytes) *bytes = tot; return n; }
struct Chan { virtual ~Chan() = default; virtual bool use(uint64_t seed) = 0; virtual bool dbf() = 0; virtual void plant(uint64_t) = 0; virtual bool intact(uint64_t) = 0; };
template <class T> struct ChanT : Chan {
    cler::Channel<T> c; explicit ChanT(size_t n) : c(n) {} bool dbf() override { return c._queue.is_doubly_mapped(); }
    static T val(uint64_t x) { T t; uint64_t h = vmon::mix(x, 1); for (size_t i = 0; i < sizeof(T); ++i) ((unsigned char*)&t)[i] = (unsigned char)(h >> (8 * (i & 7))) + (unsigned char)i; return t; }
    bool use(uint64_t seed) override { // fill, drain, twice around, through copies and (if offered) views
        uint64_t w = seed, r = seed; Rng g(seed); size_t cap = c._queue.capacity();
        for (int k = 0; k < 6; ++k) {
            if (dbf() && (k & 1)) { auto p = c.write_dbf(); if (p.second != c.space()) return false; for (size_t i = 0; i < p.second; ++i) p.first[i] = val(w++); c.commit_write(p.second); }
            else { std::vector<T> b(g.below(cap + 3)); for (size_t i = 0; i < b.size(); ++i) b[i] = val(w + i); w += c.writeN(b.data(), b.size()); }
            if (c.size() != w - r) return false; size_t n = k == 5 ? w - r : g.below(w - r + 1);
            if (dbf() && (k & 2)) { auto p = c.read_dbf(); if (p.second != w - r) return false; for (size_t i = 0; i < n; ++i) { T v = val(r++); if (memcmp(&v, &p.first[i], sizeof(T))) return false; } c.commit_read(n); }
            else { std::vector<T> b(n); if (c.readN(b.data(), n) != n) return false; for (size_t i = 0; i < n; ++i) { T v = val(r++); if (memcmp(&v, &b[i], sizeof(T))) return false; } }
        }
        return c.size() == 0; }
    void plant(uint64_t s) override { while (c.try_push(val(s))) s++; }
    bool intact(uint64_t s) override { T t; size_t n = 0; while (c.try_pop(t)) { T v = val(s++); if (memcmp(&v, &t, sizeof(T))) return false; n++; } return n == c._queue.capacity(); }
};
struct Odd { unsigned char b[24]; };
static std::unique_ptr<Chan> make(Rng& r, bool big) {
    size_t bytes = big && r.chance(1, 4) ? (2u << 20) + 4096 * r.below(600) : 4096 * (1 + r.below(20)) + r.below(4096);
    switch (r.below(4)) { case 0: return std::unique_ptr<Chan>(new ChanT<float>(bytes / 4)); case 1: return std::unique_ptr<Chan>(new ChanT<Odd>(bytes / 24)); case 2: return std::unique_ptr<Chan>(new ChanT<char>(bytes)); default: return std::unique_ptr<Chan>(new ChanT<double>(1 + r.below(200))); }
}
// run body in a fresh child; it returns a text ("" = fine) through a pipe
static std::string in_child(const std::function<std::string()>& body, int* status) {
    int p[2]; if (pipe(p)) return "pipe"; pid_t pid = fork();
    if (!pid) { __real_close(p[0]); std::string s = body(); ssize_t r = write(p[1], s.data(), s.size()); (void)r; __real_close(p[1]); _exit(0); }
    __real_close(p[1]); std::string s; char b[4096]; ssize_t n; while ((n = read(p[0], b, sizeof b)) > 0) s.append(b, n); __real_close(p[0]); waitpid(pid, status, 0); return s;
}
static std::string leftovers(int fd0, int sm0) {
    std::string e;
    for (auto& b : sysmon::bad) e += b + "; ";
    if (!sysmon::fds.empty()) e += vmon::fmt("%zu descriptors still open; ", sysmon::fds.size());
    if (!sysmon::maps.empty()) e += vmon::fmt("%zu mappings (%zu bytes) still present; ", sysmon::maps.size(), sysmon::maps.begin()->second);
    for (auto& n : sysmon::names) { int f = __real_shm_open(n.c_str(), O_RDWR, 0); if (f >= 0) { __real_close(f); shm_unlink(n.c_str()); e += "shared memory object " + n + " left in the system; "; } }
    sysmon::tracking = false; int fd1 = count_fds(), sm1 = shared_maps(); if (fd1 != fd0) e += vmon::fmt("/proc/self/fd went from %d to %d; ", fd0, fd1); if (sm1 != sm0) e += vmon::fmt("shared mappings went from %d to %d; ", sm0, sm1);
    return e;
}
// Every failing call position of every kind, once and persistently.
static const int NSCEN = 5 * 2 * 8 + 8;
static void c_fault(uint64_t i, Rng& rng) {
    int sc = i % NSCEN, kind, at; bool pers, lie = false;
    if (sc < 80) { kind = sc / 16; pers = (sc / 8) & 1; at = 1 + sc % 8; } else { kind = sysmon::MMAP_SHARED; pers = false; lie = true; at = 1 + (sc - 80); }
    uint64_t s = rng.next(); int st = 0; bool withshm = kind == sysmon::SHM;
    std::string out = in_child([&]() -> std::string {
        int fd0 = count_fds(), sm0 = shared_maps(); sysmon::reset(); sysmon::fail_kind = kind; sysmon::fail_at = at; sysmon::persistent = pers; sysmon::lie = lie; std::string e; int ndbf = 0, tot = 0;
        sysmon::memfd_off = withshm;    // the shm path is reached only without memfd
        Rng r(s); { std::vector<std::unique_ptr<Chan>> v; for (int k = 0; k < 5; ++k) { v.push_back(make(r, true)); tot++; if (v.back()->dbf()) ndbf++; if (!v.back()->use(r.next())) e += vmon::fmt("channel %d (doubly mapped %d) corrupts or refuses data; ", k, (int)v.back()->dbf()); if (r.chance(1, 3)) v.erase(v.begin() + r.below(v.size())); }
            while (!v.empty()) v.erase(v.begin() + r.below(v.size())); }
        bool fired = sysmon::fired; e += leftovers(fd0, sm0); return vmon::fmt("%d %d %d|", (int)fired, ndbf, tot) + e; }, &st);
    int fired = 0, ndbf = 0, tot = 0; sscanf(out.c_str(), "%d %d %d", &fired, &ndbf, &tot); auto bar = out.find('|'); std::string e = bar == std::string::npos ? "no report" : out.substr(bar + 1);
    std::string what = vmon::fmt("%s %s call %d%s", lie ? "lying" : "failing", sysmon::KN[kind], at, pers ? " and later" : "");
    if (!WIFEXITED(st) || WEXITSTATUS(st)) violation("res:crash", "%s: child died, status %x", what.c_str(), st);
    else if (!e.empty()) violation("res:fault", "%s: %s", what.c_str(), e.c_str());
    vmon::evals(); vmon::stat("faults_fired", fired); vmon::stat("channels_dbf", ndbf); vmon::stat("channels_fallback", tot - ndbf); if (fired) vmon::nontrivial(sc * 64 + ndbf); vmon::sample("%s: fired=%d, %d of %d channels doubly mapped, all usable, nothing left behind", what.c_str(), fired, ndbf, tot);
}
static void c_hist(uint64_t, Rng& rng) {
    uint64_t s = rng.next(); int st = 0;
    std::string out = in_child([&]() -> std::string {
        Rng r(s); { auto w = make(r, false); } int fd0 = count_fds(), sm0 = shared_maps(); sysmon::reset(); std::string e; int created = 0, ndbf = 0, moves = 0;
        { std::vector<std::pair<uint64_t, std::unique_ptr<Chan>>> v;
          for (int k = 0; k < 60 && e.empty(); ++k) { if (v.size() < 12 && r.chance(3, 5)) { auto c = make(r, k < 20); uint64_t t = r.next(); c->plant(t); created++; ndbf += c->dbf(); v.emplace_back(t, std::move(c)); }
              else if (!v.empty()) { size_t x = r.below(v.size()); if (!v[x].second->intact(v[x].first)) e += "contents of a channel changed while others were created and destroyed; "; else if (!v[x].second->use(v[x].first)) e += "channel unusable; "; v.erase(v.begin() + x); } }
          for (auto& p : v) if (e.empty() && !p.second->intact(p.first)) e += "contents of a surviving channel changed; "; }
        // the allocation object itself: re-create, move, self-consistency
        { using cler::vmem::DoublyMappedAllocation; std::vector<DoublyMappedAllocation> a; a.reserve(8);
          for (int k = 0; k < 40 && e.empty(); ++k) { DoublyMappedAllocation d; size_t n = 4096 * (1 + r.below(64)); if (!d.create(n)) { e += "create failed; "; break; } if (r.chance(1, 4)) { n = 4096 * (1 + r.below(64)); d.create(n); }
              volatile char* p = (volatile char*)d.data(); p[n - 1] = 77; if (!d.valid() || d.size() < n || p[d.size() + n - 1] != 77 || d.second_mapping() != (void*)(p + d.size())) e += "mapping is not double; ";
              if (a.size() < 6) a.push_back(std::move(d)); else { size_t x = r.below(6); a[x] = std::move(d); moves++; } if (d.valid() || d.data()) e += "moved-from allocation still valid; ";
              DoublyMappedAllocation& q = a[r.below(a.size())]; volatile char* z = (volatile char*)q.data(); z[0] = (char)k; if (z[q.size()] != (char)k) e += "moved allocation lost its double mapping; "; } }
        return vmon::fmt("%d %d %d|", created, ndbf, moves) + e + leftovers(fd0, sm0); }, &st);
    int c = 0, d = 0, mv = 0; sscanf(out.c_str(), "%d %d %d", &c, &d, &mv); auto bar = out.find('|'); std::string e = bar == std::string::npos ? "no report" : out.substr(bar + 1);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) violation("res:crash", "create/destroy history: child died, status %x", st); else if (!e.empty()) violation("res:history", "%s", e.c_str());
    vmon::evals(); vmon::stat("channels_created", c); vmon::stat("channels_dbf", d); if (d > 1) vmon::nontrivial(s); vmon::sample("history of %d channels (%d doubly mapped), %d allocation moves: descriptors and mappings as before", c, d, mv);
}
static void c_threads(uint64_t i, Rng& rng) {
    uint64_t s = rng.next(); int nt = 2 + rng.below(6), st = 0; int dl = (i % 3) * 300; std::string ref = in_child([&]() -> std::string { Rng r(s); ChanT<float> c(5000); return c.dbf() ? "dbf" : "heap"; }, &st);
    std::string out = in_child([&]() -> std::string {
        sysmon::reset(); sysmon::delay_us = dl; std::atomic<int> ready{0}; std::vector<int> d(nt, -1); std::vector<int> ok(nt, 0); std::vector<std::thread> t; int fd0 = count_fds();
        for (int k = 0; k < nt; ++k) t.emplace_back([&, k] { ready++; while (ready < nt) {} { ChanT<float> c(3000 + 500 * k); d[k] = c.dbf(); ok[k] = c.use(k); } });
        for (auto& x : t) x.join(); int n = 0, u = 0; for (int k = 0; k < nt; ++k) { n += d[k]; u += ok[k]; }
        std::string e; for (auto& b : sysmon::bad) e += b + "; "; if (!sysmon::fds.empty() || !sysmon::maps.empty()) e += "left behind; "; sysmon::tracking = false; (void)fd0; return vmon::fmt("%d %d|", n, u) + e; }, &st);
    int n = -1, u = -1; sscanf(out.c_str(), "%d %d", &n, &u); auto bar = out.find('|'); std::string e = bar == std::string::npos ? "no report" : out.substr(bar + 1);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) violation(WIFEXITED(st) && WEXITSTATUS(st) == 66 ? "res:race" : "res:crash", "concurrent construction: child died, status %x %s", st, e.c_str());
    else if (n != (ref == "dbf" ? nt : 0)) violation("res:concurrent-kind", "%d of %d concurrently created channels are doubly mapped; one alone is %s", n, nt, ref.c_str());
    else if (u != nt || !e.empty()) violation("res:concurrent", "%d of %d usable; %s", u, nt, e.c_str());
    vmon::evals(); vmon::stat("threads", nt); vmon::nontrivial(vmon::mix(s, nt)); vmon::sample("%d threads creating their first channel at once (injected delay %d us): %d doubly mapped, reference %s", nt, dl, n, ref.c_str());
}
// the same without fork, for the race detector: one case per process
static void c_threads1(uint64_t i, Rng& rng) {
    int nt = 2 + rng.below(6); sysmon::delay_us = (i % 3) * 200; std::atomic<int> ready{0}; std::vector<std::thread> t; std::vector<int> d(nt, -1);
    for (int k = 0; k < nt; ++k) t.emplace_back([&, k] { ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < nt) {} ChanT<float> c(3000 + 500 * k); d[k] = c.dbf() && c.use(k); });
    for (auto& x : t) x.join(); int n = 0; for (int k : d) n += k;
    if (n != nt && n != 0) violation("res:concurrent-kind", "%d of %d concurrently created channels are doubly mapped", n, nt);
    vmon::evals(); vmon::nontrivial(rng.next()); vmon::stat("threads", nt);
}
} // namespace res
int main(int argc, char** argv) { return vmon::run(argc, argv, {{"life", life::c}, {"fault", res::c_fault}, {"hist", res::c_hist}, {"threads", res::c_threads}, {"threads1", res::c_threads1}}); }
