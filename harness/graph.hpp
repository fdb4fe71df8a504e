// Monitored flowgraph pieces shared by the flowgraph harness (C07..C13).
#pragma once
#include "vmon.hpp"
#include "cler.hpp"
#include "task_policies/cler_desktop_tpolicy.hpp"
#include <memory>
#include <thread>

namespace g {
using CB = cler::ChannelBase<uint64_t>;
enum Outcome : uint8_t { OK, STARVED, SOFT, FATAL };

// Recording task policy: real threads, but waiting requests are recorded, not performed.
struct Ev { enum T : uint8_t { CALL, SLEEP, RELAX } t; uint8_t outcome; uint16_t block; double us; };
struct ThreadLog { std::vector<Ev> ev; bool truncated = false; size_t cap = 60000; void add(Ev e) { if (ev.size() < cap) ev.push_back(e); else truncated = true; } };
inline thread_local ThreadLog* tl_log = nullptr;
inline std::mutex logs_mu; inline std::vector<std::unique_ptr<ThreadLog>> logs;
struct RecPolicy : cler::TaskPolicyBase<RecPolicy> {
    using task_type = std::thread;
    template <typename F> static task_type create_task(F&& f) {
        return std::thread([fn = std::decay_t<F>(std::forward<F>(f))]() mutable { auto l = std::make_unique<ThreadLog>(); l->ev.reserve(4096); tl_log = l.get(); fn(); tl_log = nullptr; std::lock_guard<std::mutex> g(logs_mu); logs.push_back(std::move(l)); });
    }
    static void join_task(task_type& t) { if (t.joinable()) t.join(); }
    static void yield() { std::this_thread::yield(); }
    static void sleep_us(size_t us) { if (tl_log) tl_log->add({Ev::SLEEP, 0, 0, (double)us}); std::this_thread::yield(); }
    static void relax() { if (tl_log) tl_log->add({Ev::RELAX, 0, 0, 0}); std::this_thread::yield(); }
};

// What a running node reports; only relaxed atomics, so that the monitor adds no ordering of its own.
inline std::atomic<int> phase{0};                      // 1 between run() and the return of stop()
inline std::atomic<uint64_t> alarms{0};
inline void alarm(const char* key, const char* what, const char* name, uint64_t a = 0, uint64_t b = 0) { if (alarms.fetch_add(1, std::memory_order_relaxed) < 3) vmon::violation(key, "%s: block %s (%llu, %llu)", what, name, (unsigned long long)a, (unsigned long long)b); }

struct Node : cler::BlockBase {
    // structure
    std::vector<CB*> in; std::vector<void*> expect_out; int index = 0; bool source = false, sink = false; uint64_t add = 0;
    uint64_t total = 0; uint64_t A = 0, Bc = 0;        // sink: expected value at position k is A*k + Bc
    // workload
    vmon::Rng rng; unsigned method = 0; bool polite = true; unsigned chunk = 0; unsigned jl = 0;
    std::function<int(uint64_t call)> script;           // -1: work; otherwise an Error value to return (0 = pretend success)
    // plain state, protected only by the scheduler's own serialisation
    uint64_t plain_calls = 0, seq = 0; std::vector<uint64_t> buf[4];
    // monitor state
    std::atomic<int> inside{0}; std::atomic<uint64_t> calls{0}, ok{0}, err{0}, pos{0}, after_fatal{0}; std::atomic<bool> fatal_done{false}; std::atomic<bool> done{false};
    std::atomic<uint64_t> owner{0};                     // thread executing this node in the current run
    bool check_owner = false;
    explicit Node(const char* n) : cler::BlockBase(n) {}

    cler::Result<cler::Empty, cler::Error> leave(cler::Result<cler::Empty, cler::Error> r, Outcome o) {
        if (o == OK) ok.fetch_add(1, std::memory_order_relaxed); else err.fetch_add(1, std::memory_order_relaxed);
        if (tl_log) tl_log->add({Ev::CALL, (uint8_t)o, (uint16_t)index, 0});
        if (o == FATAL) fatal_done.store(true, std::memory_order_relaxed);
        if (phase.load(std::memory_order_relaxed) != 1) alarm("serial:late", "procedure still executing after stop returned", name());
        inside.store(0, std::memory_order_relaxed);
        return r;
    }
    template <class... O> cler::Result<cler::Empty, cler::Error> procedure(O*... outs) {
        using cler::Error;
        if (inside.exchange(1, std::memory_order_relaxed)) alarm("serial:overlap", "procedure entered while already executing", name());
        if (phase.load(std::memory_order_relaxed) != 1) alarm("serial:outside", "procedure called outside a run", name());
        if (fatal_done.load(std::memory_order_relaxed)) { after_fatal.fetch_add(1, std::memory_order_relaxed); }
        uint64_t me = std::hash<std::thread::id>()(std::this_thread::get_id()) | 1, ow = owner.load(std::memory_order_relaxed);
        if (ow == 0) owner.store(me, std::memory_order_relaxed);
        uint64_t c = plain_calls++; calls.store(c + 1, std::memory_order_relaxed);
        CB* o[] = {static_cast<CB*>(outs)..., nullptr}; constexpr size_t no = sizeof...(O);
        if (expect_out.size() != no) alarm("serial:channels", "wrong number of output channels", name(), expect_out.size(), no);
        else for (size_t i = 0; i < no; ++i) if ((void*)o[i] != expect_out[i]) alarm("serial:channels", "procedure received another block's channel", name(), i);
        if (jl) { vmon::Jitter j(rng.next(), jl); j(); }
        if (script) {
            int s = script(c);
            if (s == 0) { return leave(cler::Empty{}, OK); }
            if (s > 0) { Error e = (Error)s; bool st = e == Error::NotEnoughSamples || e == Error::NotEnoughSpace || e == Error::NotEnoughSpaceOrSamples; return leave(e, e >= Error::TERMINATE_FLOWGRAPH ? FATAL : st ? STARVED : SOFT); }
        }
        size_t n = chunk ? 1 + rng.below(chunk) : ~0ull; size_t lim = n;
        for (auto* x : in) n = std::min(n, x->size());
        if (n == 0) { if (polite) std::this_thread::yield(); return leave(Error::NotEnoughSamples, STARVED); }
        for (size_t i = 0; i < no; ++i) n = std::min(n, o[i]->space());
        if (n == 0) { if (polite) std::this_thread::yield(); return leave(rng.chance(1, 2) ? Error::NotEnoughSpace : Error::NotEnoughSpaceOrSamples, STARVED); }
        if (source) { n = std::min<uint64_t>(n, total - seq); n = std::min<size_t>(n, 4096); if (n == 0) { if (polite) std::this_thread::yield(); return leave(Error::NotEnoughSamples, STARVED); } }
        (void)lim;
        buf[0].assign(n, add); std::vector<uint64_t>& acc = buf[0];
        if (source) for (size_t i = 0; i < n; ++i) acc[i] += seq + i;
        for (auto* x : in) {
            unsigned m = (method + rng.below(2)) % 4; std::vector<uint64_t>& t = buf[1]; t.resize(n);
            if (m == 0) { for (size_t i = 0; i < n; ++i) x->pop(t[i]); }
            else if (m == 1) { size_t k = x->readN(t.data(), n); if (k != n) alarm("stream:short-read", "fewer elements than size() announced", name(), n, k); }
            else if (m == 2) { const uint64_t *p, *q; size_t a, b; size_t k = x->peek_read(p, a, q, b); if (k < n) { alarm("stream:short-read", "peek offered fewer than size()", name(), n, k); } else { for (size_t i = 0; i < n; ++i) t[i] = i < a ? p[i] : q[i - a]; x->commit_read(n); } }
            else { for (size_t i = 0; i < n; ++i) if (!x->try_pop(t[i])) alarm("stream:short-read", "try_pop failed", name(), n, i); }
            for (size_t i = 0; i < n; ++i) acc[i] += t[i];
        }
        if (sink) {
            for (size_t i = 0; i < n; ++i) { uint64_t k = seq + i; if (acc[i] != A * k + Bc) { alarm("stream:content", "sink received the wrong element (position, value)", name(), k, acc[i]); break; } }
            if (seq + n > total) alarm("stream:extra", "sink received more than was sent", name(), seq + n, total);
        }
        for (size_t j = 0; j < no; ++j) {
            unsigned m = (method / 4 + rng.below(2)) % 4; CB* y = o[j];
            if (m == 0) for (size_t i = 0; i < n; ++i) y->push(acc[i]);
            else if (m == 1) { size_t k = y->writeN(acc.data(), n); if (k != n) alarm("stream:short-write", "less room than space() announced", name(), n, k); }
            else if (m == 2) { uint64_t *p, *q; size_t a, b; size_t k = y->peek_write(p, a, q, b); if (k < n) alarm("stream:short-write", "peek offered less than space()", name(), n, k); else { for (size_t i = 0; i < n; ++i) (i < a ? p[i] : q[i - a]) = acc[i]; y->commit_write(n); } }
            else for (size_t i = 0; i < n; ++i) if (!y->try_push(acc[i])) alarm("stream:short-write", "try_push failed", name(), n, i);
        }
        seq += n; pos.store(seq, std::memory_order_relaxed);
        if (seq >= total) done.store(true, std::memory_order_relaxed);
        return leave(cler::Empty{}, OK);
    }
};

struct IGraph {
    size_t n = 0; virtual ~IGraph() = default;
    virtual void run(const cler::FlowGraphConfig&) = 0; virtual void run_for_us(int64_t, const cler::FlowGraphConfig&) = 0; virtual void stop() = 0; virtual bool is_stopped() = 0;
    virtual const cler::FlowGraphConfig& config() = 0; virtual const cler::BlockExecutionStats& stat(size_t) = 0; virtual void cb(void (*)(void*), void*) = 0;
};
template <class FG> struct GraphT final : IGraph {
    FG fg; template <class... R> explicit GraphT(R... r) : fg(r...) { n = sizeof...(R); }
    void run(const cler::FlowGraphConfig& c) override { fg.run(c); }
    void run_for_us(int64_t us, const cler::FlowGraphConfig& c) override { fg.run_for(std::chrono::microseconds(us), c); }
    void stop() override { fg.stop(); } bool is_stopped() override { return fg.is_stopped(); }
    const cler::FlowGraphConfig& config() override { return fg.config(); } const cler::BlockExecutionStats& stat(size_t i) override { return fg.stats()[i]; }
    void cb(void (*f)(void*), void* x) override { fg.set_on_err_terminate_cb(f, x); }
};
template <class Policy, class... R> std::unique_ptr<IGraph> mk(R... r) { return std::unique_ptr<IGraph>(new GraphT<cler::FlowGraph<Policy, R...>>(r...)); }
using R0 = cler::BlockRunner<Node>; using R1 = cler::BlockRunner<Node, CB>; using R2 = cler::BlockRunner<Node, CB, CB>; using R3 = cler::BlockRunner<Node, CB, CB, CB>;
using Nodes = std::vector<Node*>; using Chans = std::vector<CB*>;
// independent blocks, no channels
template <class P, size_t... I> std::unique_ptr<IGraph> indep_(const Nodes& b, std::index_sequence<I...>) { return mk<P>(R0(b[I])...); }
template <class P, size_t N> std::unique_ptr<IGraph> indep(const Nodes& b) { return indep_<P>(b, std::make_index_sequence<N>{}); }
template <class P, size_t... I> std::unique_ptr<IGraph> chain_(const Nodes& b, const Chans& c, std::index_sequence<I...>) { return mk<P>(R1(b[I], c[I])..., R0(b[sizeof...(I)])); }
template <class P, size_t N> std::unique_ptr<IGraph> chain(const Nodes& b, const Chans& c) { return chain_<P>(b, c, std::make_index_sequence<N - 1>{}); }

// factories compiled in separate translation units
std::unique_ptr<IGraph> make_chain(size_t n, const Nodes&, const Chans&);
std::unique_ptr<IGraph> make_mesh(int kind, const Nodes&, const Chans&);
std::unique_ptr<IGraph> make_indep(size_t n, bool rec, const Nodes&);
std::unique_ptr<IGraph> make_chain_small(size_t n, const Nodes&, const Chans&);
std::unique_ptr<IGraph> make_chain_big(size_t n, const Nodes&, const Chans&);
std::unique_ptr<IGraph> make_indep_desk(size_t n, const Nodes&);
std::unique_ptr<IGraph> make_indep_rec(size_t n, const Nodes&);
std::unique_ptr<IGraph> make_indep_big(size_t n, const Nodes&);
} // namespace g
