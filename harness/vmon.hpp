// vmon: the monitor-side runtime shared by every harness in /verif/harness.
//
// A harness binary is started by run.py as
//     h_x MODE --seed S --from I --count N --log FILE [--param k=v]...
// and runs cases I .. I+N-1.  A case is a deterministic workload description
// (mode, seed, index); monitors report what they saw through the log, one
// record per line, written with write(2) so that it survives a crash:
//     B i            case i begins          E i          case i ends
//     V key \t text  a monitor fired        N hex        signature of a non-trivial observation
//     C n            n evaluations          S name v     add v to statistic
//     M name v       max statistic          X text       sample
#pragma once
#include <atomic>
#include <chrono>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <vector>
#include <fcntl.h>
#include <unistd.h>

namespace vmon {

inline uint64_t splitmix(uint64_t& s) {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
inline uint64_t mix(uint64_t a, uint64_t b) { uint64_t s = a * 0x9E3779B97F4A7C15ull + b; splitmix(s); return splitmix(s); }

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) { splitmix(s); }
    uint64_t next() { return splitmix(s); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    uint64_t range(uint64_t a, uint64_t b) { return a + below(b - a + 1); }   // inclusive
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double real(double a, double b) { return a + (b - a) * unit(); }
    template <class V> auto& pick(V& v) { return v[below(v.size())]; }
    template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
};

struct State {
    int fd = -1;
    std::atomic<uint64_t> progress{0};
    std::atomic<int64_t> cur{-1};
    std::atomic<int> nviol{0};
    std::mutex m;
    std::map<std::string, std::string> params;
    std::map<std::string, double> sums, maxs;
    std::set<uint64_t> sigs;
    uint64_t evals = 0;
    int samples = 0;
    uint64_t seed = 1;
    bool thorough = false;
};
inline State& st() { static State* s = new State; return *s; }

inline void rawline(const std::string& l) {
    std::string t = l; t += '\n';
    if (st().fd >= 0) { ssize_t r = ::write(st().fd, t.data(), t.size()); (void)r; }
    else fputs(t.c_str(), stderr);
}
inline std::string vfmt(const char* f, va_list ap) {
    char buf[2048]; vsnprintf(buf, sizeof buf, f, ap); 
    for (char* p = buf; *p; ++p) if (*p == '\n') *p = ' ';
    return buf;
}
inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...) { va_list ap; va_start(ap, f); auto s = vfmt(f, ap); va_end(ap); return s; }

// A monitor fired.  `key` identifies the kind (and call site/input class); detail is free text.
inline void violation(const std::string& key, const char* f, ...) __attribute__((format(printf, 2, 3)));
inline void violation(const std::string& key, const char* f, ...) {
    va_list ap; va_start(ap, f); auto s = vfmt(f, ap); va_end(ap);
    if (st().nviol.fetch_add(1) < 200) rawline("V " + key + "\t" + s);
}
inline void stat(const std::string& n, double v) { std::lock_guard<std::mutex> g(st().m); st().sums[n] += v; }
inline void statmax(const std::string& n, double v) { std::lock_guard<std::mutex> g(st().m); auto it = st().maxs.find(n); if (it == st().maxs.end() || it->second < v) st().maxs[n] = v; }
inline void evals(uint64_t n = 1) { std::lock_guard<std::mutex> g(st().m); st().evals += n; }
inline void nontrivial(uint64_t sig) { std::lock_guard<std::mutex> g(st().m); st().sigs.insert(sig); }
inline const std::string*& ctxp() { static const std::string* p = nullptr; return p; }   // a harness may name its description of the current case
inline bool& sampled() { static bool b = false; return b; }
inline void sample(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline void sample(const char* f, ...) {
    sampled() = true;
    { std::lock_guard<std::mutex> g(st().m); if (st().samples >= 3) return; st().samples++; }
    va_list ap; va_start(ap, f); auto s = vfmt(f, ap); va_end(ap); rawline("X " + s);
}
inline void tick() { st().progress.fetch_add(1, std::memory_order_relaxed); }
inline std::string param(const std::string& k, const std::string& d = "") { auto it = st().params.find(k); return it == st().params.end() ? d : it->second; }
inline bool thorough() { return st().thorough; }

inline void flush_stats() {
    std::lock_guard<std::mutex> g(st().m);
    for (auto& kv : st().sums) rawline("S " + kv.first + " " + fmt("%.17g", kv.second));
    for (auto& kv : st().maxs) rawline("M " + kv.first + " " + fmt("%.17g", kv.second));
    if (st().evals) rawline("C " + std::to_string(st().evals));
    std::string l = "N";
    size_t k = 0;
    for (auto s : st().sigs) { char b[24]; snprintf(b, sizeof b, " %llx", (unsigned long long)s); l += b; if (++k % 200 == 0) { rawline(l); l = "N"; } }
    if (l.size() > 1) rawline(l);
    st().sums.clear(); st().maxs.clear(); st().evals = 0; st().sigs.clear();
}

using CaseFn = std::function<void(uint64_t idx, Rng& rng)>;

// hang_s: a case that makes no progress (no case end, no vmon::tick()) for this long is a hang.
inline int run(int argc, char** argv, const std::map<std::string, CaseFn>& modes, int hang_s = 60) {
    if (argc < 2) { for (auto& m : modes) printf("%s\n", m.first.c_str()); return 2; }
    std::string mode = argv[1], log;
    uint64_t from = 0, count = 1;
    for (int i = 2; i + 1 < argc; i += 2) {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--seed") st().seed = strtoull(v.c_str(), 0, 10);
        else if (a == "--from") from = strtoull(v.c_str(), 0, 10);
        else if (a == "--count") count = strtoull(v.c_str(), 0, 10);
        else if (a == "--log") log = v;
        else if (a == "--hang") hang_s = atoi(v.c_str());
        else if (a == "--tier") st().thorough = (v == "thorough");
        else if (a == "--param") { auto p = v.find('='); st().params[v.substr(0, p)] = v.substr(p + 1); }
    }
    auto it = modes.find(mode);
    if (it == modes.end()) { fprintf(stderr, "no mode %s\n", mode.c_str()); return 2; }
    if (!log.empty()) st().fd = open(log.c_str(), O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
    std::atomic<bool> done{false}, up{false};
    // The watchdog holds no lock and allocates nothing once up, so cases may fork.
    std::thread wd([&] {
        up = true;
        uint64_t last = ~0ull; auto t0 = std::chrono::steady_clock::now();
        while (!done) {
            std::this_thread::sleep_for(std::chrono::milliseconds(50));
            uint64_t p = st().progress.load();
            auto now = std::chrono::steady_clock::now();
            if (p != last) { last = p; t0 = now; }
            else if (now - t0 > std::chrono::seconds(hang_s)) {
                rawline("H " + std::to_string(st().cur.load()));
                _exit(97);
            }
        }
    });
    while (!up) std::this_thread::yield();
    std::this_thread::sleep_for(std::chrono::milliseconds(2));
    for (uint64_t i = from; i < from + count; ++i) {
        st().cur = (int64_t)i;
        rawline("B " + std::to_string(i));
        tick();
        uint64_t h = st().seed; for (char c : mode) h = mix(h, (unsigned char)c);
        Rng rng(mix(h, i));
        sampled() = false; it->second(i, rng); if (!sampled() && ctxp() && !ctxp()->empty()) sample("%s", ctxp()->c_str());
        tick();
        if (i % 64 == 63 || i + 1 == from + count) flush_stats();
        rawline("E " + std::to_string(i));
        if (st().nviol.load() >= 20) break;
    }
    flush_stats();
    done = true; wd.join();
    rawline("D");
    return 0;
}

// Schedule perturbation: cheap random delays inserted by worker threads.
struct Jitter {
    Rng r; unsigned level;
    Jitter(uint64_t seed, unsigned lvl) : r(seed), level(lvl) {}
    void operator()() {
        if (!level) return;
        uint64_t x = r.next();
        if (level == 1) { if ((x & 31) == 0) for (volatile int i = 0; i < (int)((x >> 8) & 63); i = i + 1) {} }
        else if (level == 2) { if ((x & 15) == 0) std::this_thread::yield(); }
        else if (level == 3) { if ((x & 127) == 0) std::this_thread::sleep_for(std::chrono::microseconds((x >> 8) & 63)); }
        else { unsigned k = x & 63; if (k == 0) std::this_thread::sleep_for(std::chrono::microseconds((x >> 8) & 127)); else if (k < 8) std::this_thread::yield(); else if (k < 16) for (volatile int i = 0; i < (int)((x >> 8) & 255); i = i + 1) {} }
    }
};
} // namespace vmon
