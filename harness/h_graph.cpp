// Flowgraph monitors: stream integrity (C07), serialisation (C08), fairness (C09), lifecycle (C10),
// error handling (C11), statistics (C12), micro-batch / adaptive-sleep policy (C13).
#include "graph.hpp"
#include <dirent.h>
#include <dlfcn.h>
#include <cmath>
using namespace g; using vmon::Rng; using vmon::violation;
using Cfg = cler::FlowGraphConfig; using cler::Error;
namespace g {
std::unique_ptr<IGraph> make_chain(size_t n, const Nodes& b, const Chans& c) { return n <= 5 ? make_chain_small(n, b, c) : make_chain_big(n, b, c); }
std::unique_ptr<IGraph> make_indep(size_t n, bool rec, const Nodes& b) { return rec ? make_indep_rec(n, b) : n > 9 ? make_indep_big(n, b) : make_indep_desk(n, b); }
}
static int thread_count() { int n = 0; DIR* d = opendir("/proc/self/task"); while (auto* e = readdir(d)) if (e->d_name[0] != '.') n++; closedir(d); return n; }
// the wall clock is set while a flowgraph runs: now and then a reading of it is displaced, in either direction
static std::atomic<bool> WALL{false}; static std::atomic<int64_t> g_skew{0}; static std::atomic<uint64_t> g_reads{0}, g_sets{0};
extern "C" int clock_gettime(clockid_t c, struct timespec* ts) {
    static std::atomic<int (*)(clockid_t, struct timespec*)> real{nullptr}; auto f = real.load(std::memory_order_relaxed); if (!f) real.store(f = (int (*)(clockid_t, struct timespec*))dlsym(RTLD_NEXT, "clock_gettime"), std::memory_order_relaxed); int k = f(c, ts);
    if (k == 0 && c == CLOCK_REALTIME && WALL.load(std::memory_order_relaxed)) { uint64_t h = vmon::mix(g_reads.fetch_add(1, std::memory_order_relaxed), 77); if (h % 23 == 0) { static const int64_t D[] = {0, 0, 3000000, -3000000, 200000000, -200000000, 12000000000ll, -12000000000ll}; g_skew.store(D[(h >> 20) & 7], std::memory_order_relaxed); g_sets.fetch_add(1, std::memory_order_relaxed); } int64_t t = ts->tv_sec * 1000000000ll + ts->tv_nsec + g_skew.load(std::memory_order_relaxed); ts->tv_sec = t / 1000000000ll; ts->tv_nsec = t % 1000000000ll; }
    return k;
}
static double now_s() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
#if defined(VMON_TSAN)
static const double SLOW = 4;
#else
static const double SLOW = 1;
#endif

struct Scn {
    std::vector<std::unique_ptr<Node>> nodes; std::vector<std::unique_ptr<CB>> ch; std::unique_ptr<IGraph> g; std::string desc; uint64_t total = 0;
    Nodes np; Chans cp;
    Node& node(const char* base, int i) { nodes.emplace_back(new Node((std::string(base) + std::to_string(i)).c_str())); nodes.back()->index = i; return *nodes.back(); }
};
static CB* mkchan(Rng& r, size_t& cap) {
    switch (r.below(6)) {
        case 0: cap = 1 + r.below(3); return new cler::Channel<uint64_t>(cap);
        case 1: cap = 4; return new cler::Channel<uint64_t, 4>();
        case 2: cap = 100; return new cler::Channel<uint64_t, 100>();
        case 3: cap = 511 + r.below(600); return new cler::Channel<uint64_t>(cap);
        default: cap = 2 + r.below(60); return new cler::Channel<uint64_t>(cap);
    }
}
struct Edge { int from, to; };
static void wire(Scn& s, Rng& r, int n, const std::vector<Edge>& e) {
    for (int i = 0; i < n; ++i) s.np.push_back(&s.node("node", i));
    size_t mincap = 1e9;
    for (auto& x : e) { size_t cap; s.ch.emplace_back(mkchan(r, cap)); mincap = std::min(mincap, cap); s.cp.push_back(s.ch.back().get()); s.np[x.from]->expect_out.push_back(s.cp.back()); s.np[x.to]->in.push_back(s.cp.back()); }
    s.total = (mincap <= 3 ? 300 : 1500) + r.below(1500); if (n > 8) s.total /= 2; if (SLOW > 1) s.total = s.total / 3 + 50;
    std::vector<uint64_t> A(n, 0), B(n, 0);
    for (auto& p : s.np) { p->source = p->in.empty(); p->sink = p->expect_out.empty(); p->add = r.below(1000); p->total = s.total; p->rng = Rng(r.next()); p->method = r.below(16); p->polite = r.chance(4, 5); p->chunk = r.chance(1, 2) ? 0 : 1 + r.below(20); p->jl = r.chance(1, 3) ? r.below(5) : 0; }
    for (int round = 0; round < n; ++round) for (int i = 0; i < n; ++i) { if (s.np[i]->source) { A[i] = 1; B[i] = s.np[i]->add; continue; } A[i] = 0; B[i] = s.np[i]->add; for (auto& x : e) if (x.to == i) { A[i] += A[x.from]; B[i] += B[x.from]; } }
    for (int i = 0; i < n; ++i) { s.np[i]->A = A[i]; s.np[i]->Bc = B[i]; }
}
static void build(Scn& s, Rng& r, int topo) {
    WALL = r.chance(1, 2); g_skew = 0;
    std::vector<Edge> e; alarms = 0;
    static const int L[] = {2, 3, 5, 12, 20};
    if (topo < 5) { for (int i = 0; i + 1 < L[topo]; ++i) e.push_back({i, i + 1}); wire(s, r, L[topo], e); s.g = make_chain(L[topo], s.np, s.cp); s.desc = vmon::fmt("chain of %d", L[topo]); }
    else if (topo == 5) { wire(s, r, 4, {{0, 1}, {0, 2}, {0, 3}}); s.g = make_mesh(0, s.np, s.cp); s.desc = "fan-out 1:3"; }
    else if (topo == 6) { wire(s, r, 5, {{1, 4}, {2, 4}, {3, 4}, {4, 0}}); s.g = make_mesh(1, s.np, s.cp); s.desc = "fan-in 3:1 listed backwards"; }
    else if (topo == 7) { wire(s, r, 6, {{0, 1}, {1, 2}, {1, 3}, {2, 4}, {3, 4}, {4, 5}}); s.g = make_mesh(2, s.np, s.cp); s.desc = "diamond"; }
    else { wire(s, r, 10, {{0, 2}, {1, 3}, {2, 4}, {2, 5}, {3, 4}, {3, 5}, {4, 6}, {5, 7}, {6, 8}, {7, 9}}); s.g = make_mesh(3, s.np, s.cp); s.desc = "cross mesh of 10"; }
}
static Cfg rndcfg(Rng& r, size_t n) {
    Cfg c; c.scheduler = r.chance(1, 2) ? cler::SchedulerType::ThreadPerBlock : cler::SchedulerType::FixedThreadPool;
    c.num_workers = 2 + r.below(r.chance(1, 2) ? 5 : n + 4); c.max_calls_per_tick = r.pick({1, 1, 2, 4, 4, 8, 16}); c.collect_detailed_stats = r.chance(1, 2);
    c.adaptive_sleep = r.chance(1, 3); c.adaptive_sleep_multiplier = r.pick({1.1, 1.5, 2.0, 4.0}); c.adaptive_sleep_max_us = r.pick({1.0, 50.0, 500.0, 2000.0}); c.adaptive_sleep_fail_threshold = r.pick({0, 1, 10, 30}); c.pin_workers = r.chance(1, 4);
    return c;
}
static std::string cs(const Cfg& c) { return vmon::fmt("%s workers=%zu batch=%zu sleep=%d(x%.1f<=%.0fus>%zu) stats=%d pin=%d", c.scheduler == cler::SchedulerType::ThreadPerBlock ? "thread-per-block" : "fixed-pool", c.num_workers, c.max_calls_per_tick, (int)c.adaptive_sleep, c.adaptive_sleep_multiplier, c.adaptive_sleep_max_us, c.adaptive_sleep_fail_threshold, (int)c.collect_detailed_stats, (int)c.pin_workers); }
static uint64_t progress(Scn& s) { uint64_t x = 0; for (auto* n : s.np) x += n->pos.load(std::memory_order_relaxed); return x; }
static bool sinks_done(Scn& s) { for (auto* n : s.np) if (n->sink && !n->done.load(std::memory_order_relaxed)) return false; return true; }
static void wait_done(Scn& s) { uint64_t last = ~0ull; while (!sinks_done(s) && !alarms.load(std::memory_order_relaxed)) { uint64_t p = progress(s); if (p != last) { last = p; vmon::tick(); } std::this_thread::sleep_for(std::chrono::microseconds(300)); } }

// ---- statistics oracle (C12), used by every mode that runs with detailed statistics
struct Snap { std::vector<uint64_t> ok, err; double t0; };
static Snap snap(Scn& s) { Snap x; x.t0 = now_s(); for (auto* n : s.np) { x.ok.push_back(n->ok.load()); x.err.push_back(n->err.load()); } return x; }
static void check_stats(Scn& s, const Snap& a, const Cfg& c, const char* how) {
    if (!c.collect_detailed_stats) return; double wall = now_s() - a.t0;
    for (size_t i = 0; i < s.np.size(); ++i) {
        auto& t = s.g->stat(i); uint64_t ok = s.np[i]->ok.load() - a.ok[i], er = s.np[i]->err.load() - a.err[i];
        auto w = [&] { return vmon::fmt("%s, %s, %s, block %zu:", s.desc.c_str(), cs(c).c_str(), how, i); };
        if (t.successful_procedures != ok || t.failed_procedures != er) { violation("stats:counts", "%s reported %zu/%zu calls, monitor saw %llu/%llu", w().c_str(), t.successful_procedures, t.failed_procedures, (unsigned long long)ok, (unsigned long long)er); return; }
        if (strcmp(t.name.c_str(), s.np[i]->name())) { violation("stats:name", "%s name '%s'", w().c_str(), t.name.c_str()); return; }
        if (t.total_runtime_s < 0 || (ok + er > 0 && t.total_runtime_s <= 0) || t.total_runtime_s > wall + 1e-3) { violation("stats:runtime", "%s runtime %.6f s, run took %.6f s", w().c_str(), t.total_runtime_s, wall); return; }
        if (!(t.total_dead_time_s >= 0) || t.total_dead_time_s > t.total_runtime_s + 1e-6) { violation("stats:dead-time", "%s dead time %.6f s of %.6f s", w().c_str(), t.total_dead_time_s, t.total_runtime_s); return; }
        double u = t.get_cpu_utilization_percent(); if (!(u >= -1e-3 && u <= 100 + 1e-9)) { violation("stats:utilization", "%s utilization %.3f%%", w().c_str(), u); return; }
        double av = t.get_avg_execution_time_us(), ad = t.get_avg_dead_time_per_fail(); if (!(av >= 0) || (ok && std::fabs(av - t.total_runtime_s * 1e6 / ok) > 1e-6 * av + 1e-9) || !(ad >= 0) || (er && std::fabs(ad - t.total_dead_time_s / er) > 1e-6 * ad + 1e-12)) { violation("stats:averages", "%s averages %.6f %.6f", w().c_str(), av, ad); return; }
        if (t.final_adaptive_sleep_us < 0 || (!c.adaptive_sleep && t.final_adaptive_sleep_us != 0) || (c.adaptive_sleep && t.final_adaptive_sleep_us > std::max(1.0, c.adaptive_sleep_max_us)) || (c.adaptive_sleep && t.final_adaptive_sleep_us != t.current_adaptive_sleep_us.load())) { violation("stats:sleep", "%s final sleep %.3f, reached %.3f", w().c_str(), t.final_adaptive_sleep_us, t.current_adaptive_sleep_us.load()); return; }
    }
    vmon::stat("stat_reports_checked", s.np.size());
}
static void begin_run(Scn& s) { for (auto* n : s.np) { n->owner.store(0); } phase.store(1); }
static void end_run() { phase.store(0); }
// after stop: threads gone, nothing executing
static void check_stopped(Scn& s, int base, const char* how) {
    for (auto* n : s.np) if (n->inside.load()) violation("serial:late", "%s: block %s still executing after %s", s.desc.c_str(), n->name(), how);
    if (!s.g || s.g->is_stopped()) {} else violation("life:is_stopped", "%s: not reported stopped after %s", s.desc.c_str(), how);
    double t = now_s(); int c; while ((c = thread_count()) > base && now_s() - t < 5) std::this_thread::sleep_for(std::chrono::microseconds(200));
    if (c > base) violation("life:threads", "%s: %d task threads still exist after %s", s.desc.c_str(), c - base, how);
}
static uint64_t interleaving(Scn& s) { uint64_t h = s.np.size(); for (auto* n : s.np) h = vmon::mix(h, n->calls.load() * 7 + n->err.load()); return h; }

static void final_stream(Scn& s) {
    if (alarms.load()) return;
    for (auto* n : s.np) if (n->pos.load() != s.total) { violation("stream:position", "%s: block %s handled %llu of %llu elements", s.desc.c_str(), n->name(), (unsigned long long)n->pos.load(), (unsigned long long)s.total); return; }
    for (auto* c : s.cp) if (c->size() != 0) { violation("stream:leftover", "%s: %zu elements left in a channel", s.desc.c_str(), c->size()); return; }
}

// ---- C07/C08: whole streams through topologies, with restarts
static void c_stream(uint64_t i, Rng& r) {
    Scn s; build(s, r, i % 9); int base = thread_count(); Cfg c = rndcfg(r, s.np.size()); unsigned restarts = r.chance(1, 3) ? 1 + r.below(3) : 0; Cfg first = c;
    for (unsigned k = 0; k < restarts && !alarms; ++k) { begin_run(s); Snap a = snap(s); s.g->run(c); std::this_thread::sleep_for(std::chrono::microseconds(r.below(3000))); s.g->stop(); end_run(); check_stats(s, a, c, "stop"); check_stopped(s, base, "stop"); c = rndcfg(r, s.np.size()); }
    begin_run(s); Snap a = snap(s); s.g->run(c); if (s.g->is_stopped()) violation("life:is_stopped", "reported stopped while running"); wait_done(s);
    s.g->stop(); end_run(); check_stats(s, a, c, "stop"); check_stopped(s, base, "stop"); final_stream(s);
    uint64_t calls = 0, er = 0; for (auto* n : s.np) { calls += n->calls; er += n->err; }
    vmon::evals(); vmon::stat("elements_at_sinks", (double)s.total); vmon::stat("procedure_calls", (double)calls); vmon::stat("starved_calls", (double)er); vmon::stat("restarts", restarts);
    if (er) vmon::nontrivial(interleaving(s)); vmon::sample("%s, %s, %u restarts: %llu elements, %llu calls (%llu without work)", s.desc.c_str(), cs(c).c_str(), restarts, (unsigned long long)s.total, (unsigned long long)calls, (unsigned long long)er);
}

// ---- C10: random lifecycle histories
static void c_life(uint64_t i, Rng& r) {
    Scn s; build(s, r, i % 9); int base = thread_count(); std::string h; unsigned ops = 3 + r.below(8); Cfg c; bool running = false; Snap a; bool everran = false; uint64_t sig = i % 9;
    s.total *= 50; for (auto* n : s.np) n->total = s.total;      // long enough that a run is rarely finished
    for (unsigned k = 0; k < ops && !alarms; ++k) {
        unsigned op = r.below(7); sig = vmon::mix(sig, op); vmon::tick();
        if (op <= 1 && !running) { c = rndcfg(r, s.np.size()); begin_run(s); a = snap(s); s.g->run(c); running = everran = true; h += "run "; if (s.g->is_stopped()) violation("life:is_stopped", "%s: reported stopped right after run", s.desc.c_str());
            auto& g = s.g->config(); if (g.scheduler != c.scheduler || g.num_workers != c.num_workers || g.max_calls_per_tick != c.max_calls_per_tick || g.adaptive_sleep != c.adaptive_sleep || g.adaptive_sleep_max_us != c.adaptive_sleep_max_us || g.collect_detailed_stats != c.collect_detailed_stats || g.pin_workers != c.pin_workers) violation("life:config", "%s: config() is not the one given to run", s.desc.c_str()); }
        else if (op == 2 && !running) { c = rndcfg(r, s.np.size()); /* a worker pinned to a busy core may wait long for its turn there: that is the machine's doing */ int64_t us = r.chance(1, 6) ? 100000 + r.below(60000) : r.below(20000); begin_run(s); a = snap(s); double t = now_s(); s.g->run_for_us(us, c); t = now_s() - t; end_run(); everran = true; h += vmon::fmt("run_for(%lldus) ", (long long)us);
            if (t * 1e6 < us - 1) violation("life:run_for-short", "%s: a timed run of %lld us returned after %.0f us", s.desc.c_str(), (long long)us, t * 1e6);
            if (t * 1e6 > us + (c.pin_workers ? 40e6 : 8e6)) violation("life:run_for-long", "%s: a timed run of %lld us returned after %.0f us", s.desc.c_str(), (long long)us, t * 1e6);
            check_stats(s, a, c, "timed run"); check_stopped(s, base, "a timed run"); vmon::stat("timed_runs", 1); }
        else if (op == 3 || op == 4) { bool was = running; s.g->stop(); if (r.chance(1, 2)) s.g->stop(); end_run(); if (was) check_stats(s, a, c, "stop"); running = false; h += was ? "stop " : "stop(idle) "; check_stopped(s, base, "stop");
            std::vector<uint64_t> x; for (auto* n : s.np) x.push_back(n->calls.load()); std::this_thread::sleep_for(std::chrono::microseconds(500)); for (size_t q = 0; q < x.size(); ++q) if (s.np[q]->calls.load() != x[q]) violation("serial:outside", "%s: block called after stop", s.desc.c_str()); }
        else { std::this_thread::sleep_for(std::chrono::microseconds(r.below(4000))); h += "wait "; if (running && s.g->is_stopped()) violation("life:is_stopped", "%s: reported stopped while running", s.desc.c_str()); }
    }
    int how = r.below(3);
    if (how == 0 || alarms) { h += running ? "destroy(running)" : "destroy"; s.g.reset(); end_run(); check_stopped(s, base, "destruction"); }
    else { if (!running) { c = rndcfg(r, s.np.size()); begin_run(s); a = snap(s); s.g->run(c); }
        // finish the stream with what the channels hold: shrink the total to something reachable
        s.g->stop(); end_run(); uint64_t top = 0; for (auto* n : s.np) if (n->source) top = std::max(top, n->seq); s.total = top + 200; for (auto* n : s.np) { n->total = s.total; n->done = n->seq >= s.total; }
        c = rndcfg(r, s.np.size()); begin_run(s); a = snap(s); s.g->run(c); wait_done(s); s.g->stop(); end_run(); check_stats(s, a, c, "stop"); check_stopped(s, base, "stop"); final_stream(s); h += "finish"; }
    uint64_t calls = 0; for (auto* n : s.np) calls += n->calls; vmon::evals(); vmon::stat("lifecycle_ops", ops); vmon::stat("procedure_calls", (double)calls); if (everran && calls) vmon::nontrivial(sig); vmon::sample("%s: %s; %llu calls", s.desc.c_str(), h.c_str(), (unsigned long long)calls);
}

// ---- independent scripted blocks
static void build_indep(Scn& s, Rng& r, size_t n, bool rec) { alarms = 0; for (size_t i = 0; i < n; ++i) { s.np.push_back(&s.node("block", i)); s.np.back()->rng = Rng(r.next()); } s.g = make_indep(n, rec, s.np); s.desc = vmon::fmt("%zu independent blocks", n); }

static std::atomic<int> cb_calls; static std::atomic<void*> cb_ctx; static std::atomic<int> cb_phase_bad; static std::atomic<int> cb_after_stop;
static std::atomic<bool> stop_returned; static Scn* cb_slow = nullptr; static std::atomic<uint64_t> cb_during;      // cb_slow: the callback takes its time; the others must come to rest all the same
static void term_cb(void* x) { if (cb_slow) { std::vector<uint64_t> a; for (auto* b : cb_slow->np) a.push_back(b->calls.load()); std::this_thread::sleep_for(std::chrono::milliseconds(25)); uint64_t m = 0; for (size_t k = 0; k < a.size(); ++k) m += cb_slow->np[k]->calls.load() - a[k]; cb_during = m; }
    cb_ctx = x; cb_calls++; if (stop_returned) cb_after_stop++; std::this_thread::sleep_for(std::chrono::microseconds(300)); }
// ---- C11
static const int SOFTS[] = {(int)Error::Unknown, (int)Error::NotEnoughSamples, (int)Error::NotEnoughSpace, (int)Error::NotEnoughSpaceOrSamples, (int)Error::ProcedureError, (int)Error::BadData};
static const int FATALS[] = {(int)Error::TERMINATE_FLOWGRAPH, (int)Error::TERM_InvalidChannelIndex, (int)Error::TERM_ProcedureError, (int)Error::TERM_IOError, (int)Error::TERM_EOFReached};
static void c_err(uint64_t i, Rng& r) {
    static const size_t NS[] = {1, 2, 3, 5, 9, 17}; size_t n = NS[i % 6]; Scn s; build_indep(s, r, n, false); int base = thread_count(); bool fatal = (i / 6) % 2 == 0; size_t bad = r.below(n); uint64_t at = r.chance(1, 3) ? r.below(3) : r.below(300);
    int code = fatal ? FATALS[(i / 12) % 5] : SOFTS[(i / 12) % 6]; bool withcb = r.chance(4, 5); int ctx1, ctx2; unsigned runs = fatal ? 1 + r.below(2) : 1; uint64_t pat = r.next(); Cfg c;
    for (auto* b : s.np) { bool me = b == s.np[bad]; int kind = r.below(4); b->script = [=](uint64_t k) -> int { if (me && fatal && k == at) return code; if (me && !fatal && (k == at || (k > at && k % 3 == 0))) return code; if (kind == 0) return 0; if (kind == 1) return SOFTS[(vmon::mix(pat, k)) % 6]; return vmon::mix(pat, k + kind) & 1 ? 0 : (int)Error::NotEnoughSamples; }; }
    for (unsigned q = 0; q < runs; ++q) {
        c = rndcfg(r, n); if (c.adaptive_sleep) c.adaptive_sleep_max_us = std::min(c.adaptive_sleep_max_us, 500.0); void* ctx = q ? &ctx2 : &ctx1; cb_calls = 0; cb_ctx = nullptr; cb_after_stop = 0; stop_returned = false; s.g->cb(withcb ? term_cb : nullptr, ctx);
        for (auto* b : s.np) { b->plain_calls = 0; b->calls = 0; b->fatal_done = false; b->after_fatal = 0; }
        cb_slow = fatal && r.chance(1, 6) ? &s : nullptr; cb_during = 0; if (cb_slow && withcb) vmon::stat("slow_callbacks", 1);
        begin_run(s); Snap a = snap(s); auto w = [&] { return vmon::fmt("%s, %s, error %d from block %zu at call %llu, callback %d", s.desc.c_str(), cs(c).c_str(), code, bad, (unsigned long long)at, (int)withcb); };
        s.g->run(c); double t0 = now_s();
        if (fatal) {
            double dl = 15 * SLOW; while (!s.g->is_stopped() && now_s() - t0 < dl) { std::this_thread::sleep_for(std::chrono::microseconds(100)); if (s.np[bad]->calls.load() <= at) { t0 = now_s(); } else if (!s.np[bad]->fatal_done) t0 = now_s(); if (s.np[bad]->calls.load() & 1) vmon::tick(); }
            if (!s.g->is_stopped()) { violation("err:not-stopped", "%s: graph still running after the fatal error", w().c_str()); s.g->stop(); end_run(); return; }
            bool early = r.chance(1, 2);
            if (!early) { // every task must end by itself
                double t = now_s(); while (thread_count() > base && now_s() - t < dl) std::this_thread::sleep_for(std::chrono::microseconds(200)); 
                std::vector<uint64_t> x; for (auto* b : s.np) x.push_back(b->calls); std::this_thread::sleep_for(std::chrono::milliseconds(3)); uint64_t more = 0; for (size_t k = 0; k < n; ++k) more += s.np[k]->calls - x[k]; if (more > n) violation("err:still-running", "%s: %llu further calls long after the stop", w().c_str(), (unsigned long long)more); }
            if (q + 1 == runs && r.chance(1, 3)) { s.g.reset(); stop_returned = true; end_run(); vmon::stat("destroyed_after_fatal", 1); }   // destruction instead of stop
            else { s.g->stop(); stop_returned = true; end_run(); }
            if (cb_during > n * (c.max_calls_per_tick + 2)) violation("err:runs-on", "%s: %llu calls of other blocks while the callback ran: the graph was not stopping", w().c_str(), (unsigned long long)cb_during.load());
            if (withcb && cb_calls != 1) violation("err:callback-count", "%s: callback invoked %d times", w().c_str(), (int)cb_calls);
            if (withcb && cb_calls && cb_ctx != ctx) violation("err:callback-context", "%s: wrong context", w().c_str());
            if (!withcb && cb_calls) violation("err:callback-unset", "%s", w().c_str());
            if (s.np[bad]->after_fatal || s.np[bad]->calls != at + 1) violation("err:called-after-fatal", "%s: %llu calls to the failed block, expected %llu", w().c_str(), (unsigned long long)s.np[bad]->calls, (unsigned long long)at + 1);
            std::this_thread::sleep_for(std::chrono::microseconds(300)); if (cb_after_stop) violation("err:callback-late", "%s: callback after stop returned", w().c_str());
        } else {
            // must go on: wait for 25 more calls of every block after the error
            bool ok = false; double dl = 25 * SLOW; while (now_s() - t0 < dl && !ok && !s.g->is_stopped()) { ok = true; for (size_t k = 0; k < n; ++k) if (s.np[k]->calls < at + 25) ok = false; std::this_thread::sleep_for(std::chrono::microseconds(100)); vmon::tick(); }
            if (s.g->is_stopped()) violation("err:soft-stopped", "%s: non-fatal error stopped the graph", w().c_str()); else if (!ok) violation("err:soft-starved", "%s: some block no longer called after a non-fatal error", w().c_str());
            s.g->stop(); stop_returned = true; end_run(); if (cb_calls) violation("err:soft-callback", "%s: callback invoked for a non-fatal error", w().c_str());
        }
        if (s.g) check_stats(s, a, c, fatal ? "a fatal error" : "non-fatal errors"); check_stopped(s, base, "stop");
    }
    vmon::evals(); vmon::stat(fatal ? "fatal_injected" : "nonfatal_injected", runs); vmon::stat("callbacks_seen", cb_calls.load()); uint64_t calls = 0; for (auto* b : s.np) calls += b->calls; vmon::stat("procedure_calls", (double)calls);
    vmon::nontrivial(vmon::mix(code * 100 + n, at * 8 + (c.scheduler == cler::SchedulerType::FixedThreadPool) * 4 + withcb)); vmon::sample("%s, %s: error code %d at call %llu of block %zu, %u runs", s.desc.c_str(), cs(c).c_str(), code, (unsigned long long)at, bad, runs);
}

// ---- C09 / C12: mixed outcomes on many blocks, real scheduler
static std::function<int(uint64_t)> pattern(Rng& r, int kind) {
    uint64_t p = r.next(); unsigned per = 2 + r.below(30), work = 1 + r.below(20);
    switch (kind) { case 0: return [](uint64_t) { return 0; }; case 1: return [](uint64_t) { return (int)Error::NotEnoughSamples; }; case 2: return [p](uint64_t k) { return SOFTS[vmon::mix(p, k) % 6]; };
        case 3: return [p](uint64_t k) { return vmon::mix(p, k) & 1 ? 0 : (int)Error::NotEnoughSpace; }; default: return [per, work](uint64_t k) { return k % (per + work) < work ? 0 : (int)Error::NotEnoughSpaceOrSamples; } ; }
}
static void c_fair(uint64_t i, Rng& r) {
    static const size_t NS[] = {1, 2, 3, 5, 9, 17, 40}; size_t n = NS[i % 7]; Scn s; build_indep(s, r, n, false); int base = thread_count(); Cfg c = rndcfg(r, n);
    int mode = r.below(4); for (size_t k = 0; k < n; ++k) s.np[k]->script = pattern(r, mode == 0 ? (int)r.below(5) : mode == 1 ? (k == 0 ? 0 : 1) : mode == 2 ? 0 : (k % 2 ? 1 : 4));
    begin_run(s); Snap a = snap(s); s.g->run(c); double t0 = now_s(), dl = 30 * SLOW; bool ok = false; uint64_t want = 40;
    while (now_s() - t0 < dl && !ok) { ok = true; for (auto* b : s.np) if (b->calls.load(std::memory_order_relaxed) < want) ok = false; vmon::tick(); if (!ok) std::this_thread::sleep_for(std::chrono::microseconds(200)); }
    uint64_t mn = ~0ull, mx = 0; size_t who = 0; for (size_t k = 0; k < n; ++k) { uint64_t x = s.np[k]->calls; if (x < mn) mn = x, who = k; mx = std::max(mx, x); }
    if (!ok) violation("fair:starved", "%s, %s: block %zu was called %llu times in %.0f s while another was called %llu times", s.desc.c_str(), cs(c).c_str(), who, (unsigned long long)mn, dl, (unsigned long long)mx);
    s.g->stop(); end_run(); check_stats(s, a, c, "stop"); check_stopped(s, base, "stop");
    vmon::evals(); vmon::stat("blocks", n); vmon::stat("procedure_calls", (double)mx); vmon::nontrivial(vmon::mix(n * 16 + mode, c.num_workers * 2 + (c.scheduler == cler::SchedulerType::FixedThreadPool)) ^ c.max_calls_per_tick); vmon::sample("%s, %s: calls per block between %llu and %llu", s.desc.c_str(), cs(c).c_str(), (unsigned long long)mn, (unsigned long long)mx);
}

// ---- C12: dead time of blocks that are always, or never, starved, against the time their calls took
static void c_dead(uint64_t i, Rng& r) {
    static const size_t NS[] = {1, 2, 3, 5, 9}; size_t n = NS[i % 5]; Scn s; build_indep(s, r, n, false); int base = thread_count(); Cfg c = rndcfg(r, n); c.collect_detailed_stats = true; c.adaptive_sleep_max_us = std::min(c.adaptive_sleep_max_us, 500.0);
    struct Own { double sum = 0, last = 0, most = 0; }; std::vector<Own> own(n); std::vector<int> kind(n);
    for (size_t k = 0; k < n; ++k) { kind[k] = r.below(3); uint64_t p = r.next(); unsigned us = 20 + r.below(300); Own* o = &own[k]; int kd = kind[k]; s.np[k]->script = [=](uint64_t q) -> int { double t = now_s(); if (vmon::mix(p, q) % 4) std::this_thread::sleep_for(std::chrono::microseconds(vmon::mix(p, q) % us)); int e = kd == 0 ? SOFTS[1 + vmon::mix(p, q) % 3] : kd == 1 ? 0 : vmon::mix(p, q) & 64 ? 0 : SOFTS[vmon::mix(p, q + 7) % 6]; o->last = now_s() - t; o->sum += o->last; o->most = std::max(o->most, o->last); return e; }; }
    begin_run(s); Snap a = snap(s); s.g->run(c); bool ok = false; double t0 = now_s(); while (!ok && now_s() - t0 < 30 * SLOW) { ok = true; for (auto* b : s.np) if (b->calls.load(std::memory_order_relaxed) < 30) ok = false; std::this_thread::sleep_for(std::chrono::microseconds(200)); vmon::tick(); }
    s.g->stop(); end_run(); check_stats(s, a, c, "stop"); check_stopped(s, base, "stop"); std::string w = vmon::fmt("%s, %s", s.desc.c_str(), cs(c).c_str());
    for (size_t k = 0; k < n; ++k) { auto& t = s.g->stat(k); Own& o = own[k];
        if (kind[k] == 0 && t.total_dead_time_s < (o.sum - o.most) * 0.9999 - 1e-6) { violation("stats:dead-time", "%s: block %zu was starved in each of %zu calls that took %.6f s, dead time reported: %.6f s", w.c_str(), k, t.failed_procedures, o.sum, t.total_dead_time_s); break; }
        if (kind[k] == 1 && t.total_dead_time_s > t.total_runtime_s - o.sum * 0.9999 + 1e-6) { violation("stats:dead-time", "%s: block %zu worked in each of %zu calls that took %.6f of %.6f s, dead time reported: %.6f s", w.c_str(), k, t.successful_procedures, o.sum, t.total_runtime_s, t.total_dead_time_s); break; }
        vmon::stat(kind[k] == 0 ? "always_starved_blocks" : kind[k] == 1 ? "never_starved_blocks" : "mixed_blocks", 1); }
    vmon::evals(); vmon::nontrivial(vmon::mix(interleaving(s), c.num_workers)); vmon::sample("%s: dead time of block 0 %.6f of %.6f s", w.c_str(), s.g->stat(0).total_dead_time_s, s.g->stat(0).total_runtime_s);
}

// ---- C09 / C13: recorded turns and waits against the policy
static void c_policy(uint64_t i, Rng& r) {
    static const size_t NS[] = {1, 2, 3, 5, 11, 17}; size_t n = NS[i % 6]; Scn s; build_indep(s, r, n, true); Cfg c = rndcfg(r, n); c.pin_workers = false; c.adaptive_sleep = r.chance(4, 5); c.adaptive_sleep_max_us = r.pick({1.0, 7.0, 50.0, 5000.0, 123.4}); if (r.chance(1, 3)) c.max_calls_per_tick = 1;
    std::vector<int> kinds; for (auto* b : s.np) { int k = r.below(6); if (k == 5) k = 1; kinds.push_back(k); b->script = pattern(r, k); }
    { std::lock_guard<std::mutex> g(logs_mu); logs.clear(); }
    begin_run(s); Snap a = snap(s); s.g->run(c); bool ok = false; double t0 = now_s(); while (!ok && now_s() - t0 < 30 * SLOW) { ok = true; for (auto* b : s.np) if (b->calls.load(std::memory_order_relaxed) < 250) ok = false; std::this_thread::sleep_for(std::chrono::microseconds(100)); vmon::tick(); }
    s.g->stop(); end_run(); std::string w = vmon::fmt("%s, %s", s.desc.c_str(), cs(c).c_str());
    if (!ok) violation("fair:starved", "%s: a block was not called 250 times in 30 s", w.c_str());
    check_stats(s, a, c, "stop");
    std::vector<int> seen_in(n, -1); uint64_t nsleep = 0, ncall = 0, sig = n; double maxsleep = 0;
    std::lock_guard<std::mutex> lg(logs_mu);
    for (size_t li = 0; li < logs.size(); ++li) {
        auto& ev = logs[li]->ev; std::set<int> mine; for (auto& e : ev) if (e.t == Ev::CALL) mine.insert(e.block);
        for (int b : mine) { if (seen_in[b] >= 0) violation("serial:two-owners", "%s: block %d ran on two threads in one run", w.c_str(), b); seen_in[b] = (int)li; }
        // turns: with two or more blocks on a thread a turn is a maximal sequence of calls of one block
        if (mine.size() >= 2) { int cur = -1; size_t len = 0; bool errd = false; std::vector<size_t> since(n, 0);
            for (auto& e : ev) if (e.t == Ev::CALL) {
                if (e.block != cur) { cur = e.block; len = 0; errd = false; }
                len++; if (len > c.max_calls_per_tick) { violation("batch:length", "%s: block %d called %zu times in one turn", w.c_str(), cur, len); break; }
                if (errd) { violation("batch:error-continues", "%s: block %d called again in the turn after an error", w.c_str(), cur); break; }
                if (e.outcome != OK) errd = true;
                for (int b : mine) since[b]++; 
                if (since[e.block] > 3 * mine.size() * c.max_calls_per_tick + 3) { violation("fair:gap", "%s: block %d waited for %zu calls of its neighbours", w.c_str(), e.block, since[e.block]); break; }
                since[e.block] = 0; }
            size_t lim = 3 * mine.size() * c.max_calls_per_tick + 3; for (int b : mine) if (since[b] > lim) violation("fair:gap", "%s: block %d not called during the last %zu calls on its thread", w.c_str(), b, since[b]); }
        // adaptive sleep
        struct St { uint64_t fails = 0; double lo = 0, hi = 0; uint64_t run = 0; bool vague = false; }; std::vector<St> st(n); int last = -1; int lastout = 0; bool expect = false, slept = true; double elo = 0, ehi = 0;
        auto finish = [&](bool end) { if (last >= 0 && expect && !slept && !end) { violation("sleep:missing", "%s: block %d was starved %llu times in a row and did not sleep", w.c_str(), last, (unsigned long long)st[last].fails); return false; } return true; };
        bool good = true;
        for (size_t k = 0; k < ev.size() && good; ++k) { auto& e = ev[k];
            if (e.t == Ev::CALL) { ncall++; good = finish(false); if (!good) break; last = e.block; lastout = e.outcome; St& x = st[last]; expect = false; slept = false;
                if (e.outcome == OK) { x.run++; x.fails = 0; }
                else { if (x.run) { double b = std::ceil(x.run / (double)c.max_calls_per_tick); x.lo *= std::pow(0.5, (double)x.run) * 0.99; x.hi = x.hi > 0 ? std::max(x.hi * std::pow(0.5, b) * 1.01, 1e-320) : 0; if (x.hi < 1e-300) x.lo = 0; x.run = 0; x.vague = x.hi > 0 && x.lo < 1e-200; } /* underflow to 0 restarts at 1 us */
                    if (e.outcome == STARVED) { x.fails++; if (c.adaptive_sleep && x.fails > c.adaptive_sleep_fail_threshold) { if (x.hi == 0) { elo = ehi = 1; } else { elo = std::min(x.lo * c.adaptive_sleep_multiplier * 0.949, c.adaptive_sleep_max_us); ehi = std::min(x.hi * c.adaptive_sleep_multiplier * 1.051, c.adaptive_sleep_max_us); if (x.vague) { ehi = std::max(ehi, 1.0); elo = 0; } } expect = elo >= 1; x.lo = elo; x.hi = ehi; } } } }
            else if (e.t == Ev::SLEEP) { if (e.us > 0) nsleep++; maxsleep = std::max(maxsleep, e.us); if (last < 0 || (lastout != STARVED && e.us <= 10)) continue;
                if (!c.adaptive_sleep) { if (e.us > 10) { violation("sleep:when-off", "%s: slept %.0f us with adaptive sleep off", w.c_str(), e.us); good = false; } continue; }
                St& x = st[last];
                if (e.us > c.adaptive_sleep_max_us) { violation("sleep:above-max", "%s: block %d slept %.0f us", w.c_str(), last, e.us); good = false; break; }
                if (lastout != STARVED) { violation("sleep:not-starved", "%s: block %d slept %.0f us after a call that was not starved", w.c_str(), last, e.us); good = false; break; }
                if (x.fails <= c.adaptive_sleep_fail_threshold) { if (e.us > 1) { violation("sleep:too-early", "%s: block %d slept %.0f us after %llu consecutive starved calls", w.c_str(), last, e.us, (unsigned long long)x.fails); good = false; } continue; }
                if (slept) { if (e.us > 1) { violation("sleep:twice", "%s: block %d slept twice for one call", w.c_str(), last); good = false; } continue; }
                slept = true; if (e.us + 1 < std::floor(elo) || e.us > ehi + 1e-9) { violation("sleep:law", "%s: block %d slept %.0f us, the policy gives %.2f..%.2f us (consecutive starved %llu)", w.c_str(), last, e.us, elo, ehi, (unsigned long long)x.fails); good = false; break; }
                x.lo = std::max(x.lo, e.us); x.hi = std::min(x.hi, e.us + 1); if (x.lo > x.hi) x.hi = x.lo; if (x.hi > c.adaptive_sleep_max_us) x.hi = c.adaptive_sleep_max_us; x.vague = false; }
        }
        for (auto& e : ev) sig = vmon::mix(sig, e.t * 64 + e.outcome);
    }
    for (size_t b = 0; b < n; ++b) if (seen_in[b] < 0) violation("fair:never", "%s: block %zu never ran", w.c_str(), b);
    logs.clear();
    vmon::evals(); vmon::stat("calls_checked", (double)ncall); vmon::stat("sleeps_checked", (double)nsleep); vmon::statmax("longest_sleep_us", maxsleep); if (nsleep || n > 1) vmon::nontrivial(sig); vmon::sample("%s: %llu calls and %llu sleeps checked against the policy, longest %.0f us", w.c_str(), (unsigned long long)ncall, (unsigned long long)nsleep, maxsleep);
}
int main(int argc, char** argv) { return vmon::run(argc, argv, {{"stream", c_stream}, {"life", c_life}, {"err", c_err}, {"fair", c_fair}, {"dead", c_dead}, {"policy", c_policy}}); }
