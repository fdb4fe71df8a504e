// RTOS task policies (C14) on the monitored kernel stand-in of harness/rtos.
#include "rtos/rk.hpp"
#include "task_policies/cler_freertos_tpolicy.hpp"
#include "task_policies/cler_threadx_tpolicy.hpp"
#include "task_policies/cler_zephyr_tpolicy.hpp"
#include "graph.hpp"
#include <array>
using vmon::Rng; using vmon::violation; using namespace g;

static std::atomic<int> live_fn{0};
struct Shared { std::atomic<int> started[64]{}, finished[64]{}, wrong{0}; };
struct Fn {
    Shared* s; int id; unsigned char payload[40]; int work; std::vector<int>* heap;
    Fn(Shared* sh, int i, int w) : s(sh), id(i), work(w), heap(new std::vector<int>(10, i)) { memset(payload, 0x40 + i, sizeof payload); live_fn++; }
    Fn(const Fn& o) : s(o.s), id(o.id), work(o.work), heap(new std::vector<int>(*o.heap)) { memcpy(payload, o.payload, sizeof payload); live_fn++; }
    Fn(Fn&& o) : s(o.s), id(o.id), work(o.work), heap(new std::vector<int>(std::move(*o.heap))) { memcpy(payload, o.payload, sizeof payload); live_fn++; }
    ~Fn() { delete heap; memset(payload, 0xDD, sizeof payload); id = -1; live_fn--; }
    void operator()() {
        rk::Body b; s->started[id]++;
        for (int k = 0; k < work; ++k) { rk::nap(60); bool ok = heap->size() == 10; for (int v : *heap) ok = ok && v == id; for (auto c : payload) ok = ok && c == (unsigned char)(0x40 + id); if (!ok) s->wrong++; }
        s->finished[id]++;
    }
};
// a wait takes at least a tick and, to within a tick, the time asked for
template <class P> static void waits(Rng& r, const char* name) {
    rk::tick_hz = r.pick({1000, 1000, 100, 250}); double tick = strcmp(name, "Zephyr") == 0 ? 1 : strcmp(name, "ThreadX") == 0 ? 1e3 : 1e6 / rk::tick_hz;
    for (int k = 0; k < 20; ++k) { size_t us = 1 + (r.chance(1, 2) ? r.below(3000) : r.chance(1, 2) ? r.below(100000) : r.below(3) ? 1000 * r.below(60) : r.below(3000000)); rk::tl_slept = 0; P::sleep_us(us); double s = rk::tl_slept;
        if (s <= 0 || s < us - tick - 1000 || s > us + tick) violation("rtos:sleep", "%s policy: a wait of %zu us takes %.0f us (tick %.0f us)", name, us, s, tick);
        rk::tl_slept = 0; P::relax(); if (rk::tl_slept > std::max(tick, 1e3)) violation("rtos:relax", "%s policy: the brief back-off takes %.0f us (tick %.0f us)", name, rk::tl_slept, tick); }
    vmon::stat("waits_checked", 20); rk::tick_hz = 1000;
}
template <class P> static void tasks(Rng& r, const char* name, bool fault, uint64_t i) {
    rk::reset(r.next()); rk::K().jitter = r.chance(1, 6) ? 0 : 3; live_fn = 0; int n = 1 + (int)r.below(r.chance(1, 2) ? 4 : 12); Shared sh; std::string plan = "no fault";
    if (fault) { auto& k = rk::K(); int at = r.chance(1, 4) ? -2 : (int)r.below(n); if (r.chance(1, 2) && strcmp(name, "Zephyr")) { k.fail_sem = at; plan = vmon::fmt("semaphore creation %d fails", at); } else if (strcmp(name, "Zephyr")) { k.fail_task = at; plan = vmon::fmt("task creation %d fails", at); } }
    std::string w = vmon::fmt("%s policy, %d tasks, %s", name, n, plan.c_str()); waits<P>(r, name);
    {
        struct Slot { typename P::task_type t; }; std::vector<std::unique_ptr<Slot>> sl; for (int k = 0; k < n; ++k) sl.emplace_back(new Slot{});
        int style = (int)r.below(3); std::vector<int> order; for (int k = 0; k < n; ++k) order.push_back(k); for (int k = n - 1; k > 0; --k) std::swap(order[k], order[r.below(k + 1)]);
        size_t faults_before = 0; std::vector<bool> failed(n, false);
        for (int k = 0; k < n; ++k) {
            Fn f(&sh, k, 1 + (int)r.below(8));
            if (style == 0) sl[k]->t = P::create_task(f); else if (style == 1) sl[k]->t = P::create_task(std::move(f)); else { auto tmp = P::create_task([f]() mutable { f(); }); rk::nap(100); sl[k]->t = std::move(tmp); }
            { std::lock_guard<std::mutex> g(rk::K().m); failed[k] = rk::K().faults > faults_before; faults_before = rk::K().faults; }
            if (r.chance(1, 3)) { auto n2 = std::unique_ptr<Slot>(new Slot{}); n2->t = std::move(sl[k]->t); sl[k] = std::move(n2); }      // the flowgraph stores tasks by assignment; so does this
            if (k && r.chance(1, 3)) { size_t a = r.below(k + 1); if ((int)a != k) std::swap(sl[a]->t, sl[k]->t); }
        }
        uint64_t naps = r.below(3); for (uint64_t q = 0; q < naps; ++q) rk::nap(600);
        for (int k : order) { P::join_task(sl[k]->t); if (r.chance(1, 3)) P::join_task(sl[k]->t); vmon::tick(); }
        // after the last join every function has finished
        for (int k = 0; k < n; ++k) { int st = sh.started[k], fi = sh.finished[k]; int want = failed[k] ? 0 : 1;
            if (fi < want) violation("rtos:join-early", "%s: join returned before task %d finished (started %d, finished %d)", w.c_str(), k, st, fi);
            else if (st != want || fi != want) violation("rtos:exactly-once", "%s: task %d ran %d times", w.c_str(), k, st); }
        if (sh.wrong) violation("rtos:state", "%s: a task saw captured state that is not its own", w.c_str());
        if (live_fn) violation("rtos:leak:function", "%s: %d function objects still exist after all joins", w.c_str(), (int)live_fn);
        std::this_thread::sleep_for(std::chrono::microseconds(r.below(200)));
    }
    // let every thread end, then nothing may be left behind
    auto t0 = std::chrono::steady_clock::now(); while (rk::census().unfinished && std::chrono::steady_clock::now() - t0 < std::chrono::seconds(10)) std::this_thread::sleep_for(std::chrono::microseconds(50));
    auto c = rk::census(); if (c.unfinished) violation("rtos:thread-stuck", "%s: %zu threads never end", w.c_str(), c.unfinished);
    else if (c.threads) violation("rtos:leak:thread", "%s: %zu threads were never released", w.c_str(), c.threads);
    if (c.sems) violation("rtos:leak:semaphore", "%s: %zu semaphores were never deleted", w.c_str(), c.sems);
    vmon::evals(); vmon::stat("tasks_created", (double)rk::K().created); vmon::stat("kernel_calls_audited", (double)rk::K().calls.exchange(0)); vmon::stat("faults_injected", (double)rk::K().faults);
    vmon::nontrivial(vmon::mix(i, n)); vmon::sample("%s", w.c_str());
    if (!c.unfinished) rk::reset(1);
}
static void c_tasks(uint64_t i, Rng& r) { bool fault = (i / 3) % 3 == 2; switch (i % 3) { case 0: tasks<cler::FreeRTOSTaskPolicy>(r, "FreeRTOS", fault, i); break; case 1: tasks<cler::ThreadXTaskPolicy>(r, "ThreadX", fault, i); break; default: tasks<cler::ZephyrTaskPolicy>(r, "Zephyr", false, i); } }

template <class P> static void graph(Rng& r, const char* name, bool fault, uint64_t i) {
    rk::reset(r.next()); rk::K().jitter = r.chance(1, 3) ? 0 : 3; alarms = 0;
    std::vector<std::unique_ptr<Node>> ns; Nodes np; std::vector<std::unique_ptr<CB>> cs; Chans cp; const int N = 4; uint64_t total = 300 + r.below(600);
    for (int k = 0; k < N; ++k) { ns.emplace_back(new Node(("n" + std::to_string(k)).c_str())); np.push_back(ns.back().get()); np.back()->rng = Rng(r.next()); np.back()->index = k; np.back()->total = total; np.back()->add = k; np.back()->polite = true; np.back()->method = r.below(16); np.back()->chunk = r.below(40); }
    for (int k = 0; k + 1 < N; ++k) { cs.emplace_back(new cler::Channel<uint64_t>(1 + r.below(64))); cp.push_back(cs.back().get()); np[k]->expect_out.push_back(cp[k]); np[k + 1]->in.push_back(cp[k]); }
    np[0]->source = true; np[N - 1]->sink = true; np[N - 1]->A = 1; np[N - 1]->Bc = 0 + 1 + 2 + 3;
    std::string plan = "no fault"; if (fault && strcmp(name, "Zephyr")) { int at = r.chance(1, 4) ? -2 : (int)r.below(N); auto& k = rk::K(); if (r.chance(1, 2)) k.fail_sem = at; else k.fail_task = at; plan = vmon::fmt("creation %d fails", at); } else fault = false;
    cler::FlowGraphConfig c; if (r.chance(1, 3)) { c.scheduler = cler::SchedulerType::FixedThreadPool; c.num_workers = 2 + r.below(3); } c.collect_detailed_stats = r.chance(1, 2); c.max_calls_per_tick = 1 + r.below(5); c.adaptive_sleep = r.chance(1, 4); c.adaptive_sleep_max_us = 40;
    std::string w = vmon::fmt("%s flowgraph, %s, %s", name, plan.c_str(), c.scheduler == cler::SchedulerType::FixedThreadPool ? "fixed pool" : "thread per block");
    {
        auto gr = mk<P>(R1(np[0], cp[0]), R1(np[1], cp[1]), R1(np[2], cp[2]), R0(np[3])); unsigned pre = fault ? 0 : r.below(3);
        for (unsigned q = 0; q < pre; ++q) { phase = 1; gr->run(c); std::this_thread::sleep_for(std::chrono::microseconds(r.below(1500))); gr->stop(); phase = 0; if (r.chance(1, 3)) gr->stop(); for (auto* p : np) if (p->inside) violation("rtos:graph-join", "%s: a procedure is executing after stop", w.c_str()); }
        phase = 1; gr->run(c);
        if (!fault) { uint64_t last = 0; auto t0 = std::chrono::steady_clock::now(); while (!np[3]->done && std::chrono::steady_clock::now() - t0 < std::chrono::seconds(30)) { std::this_thread::sleep_for(std::chrono::microseconds(100)); uint64_t p = np[3]->pos; if (p != last) { last = p; t0 = std::chrono::steady_clock::now(); vmon::tick(); } }
            if (!np[3]->done) violation("rtos:graph-stalled", "%s: stream stopped at %llu of %llu", w.c_str(), (unsigned long long)np[3]->pos, (unsigned long long)total); }
        else std::this_thread::sleep_for(std::chrono::microseconds(r.below(2000)));
        if (r.chance(2, 3)) { gr->stop(); phase = 0; for (auto* p : np) if (p->inside) violation("rtos:graph-join", "%s: a procedure is executing after stop", w.c_str()); }
    }
    phase = 0;
    auto t0 = std::chrono::steady_clock::now(); while (rk::census().unfinished && std::chrono::steady_clock::now() - t0 < std::chrono::seconds(10)) std::this_thread::sleep_for(std::chrono::microseconds(50));
    auto ce = rk::census(); if (ce.unfinished) violation("rtos:thread-stuck", "%s: %zu threads never end", w.c_str(), ce.unfinished); else if (ce.threads || ce.sems) violation("rtos:leak:graph", "%s: %zu threads, %zu semaphores were never released", w.c_str(), ce.threads, ce.sems);
    uint64_t calls = 0; for (auto* p : np) calls += p->calls; vmon::evals(); vmon::stat("procedure_calls", (double)calls); vmon::stat("kernel_calls_audited", (double)rk::K().calls.exchange(0)); vmon::stat("tasks_created", (double)rk::K().created); vmon::nontrivial(vmon::mix(i, calls)); vmon::sample("%s: %llu calls, %llu kernel tasks", w.c_str(), (unsigned long long)calls, (unsigned long long)rk::K().created);
    if (!ce.unfinished) rk::reset(1);
}
static void c_graph(uint64_t i, Rng& r) { bool fault = (i / 3) % 3 == 2; switch (i % 3) { case 0: graph<cler::FreeRTOSTaskPolicy>(r, "FreeRTOS", fault, i); break; case 1: graph<cler::ThreadXTaskPolicy>(r, "ThreadX", fault, i); break; default: graph<cler::ZephyrTaskPolicy>(r, "Zephyr", false, i); } }
int main(int argc, char** argv) { return vmon::run(argc, argv, {{"tasks", c_tasks}, {"graph", c_graph}}); }
