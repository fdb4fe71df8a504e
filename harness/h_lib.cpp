// Library blocks in a running flowgraph against the same blocks called by hand.
#include "vmon.hpp"
#include "cler.hpp"
#include "cler_utils.hpp"
#include "task_policies/cler_desktop_tpolicy.hpp"
#include <thread>
#include <random>
#include <algorithm>
#include "math/add.hpp"
#include "math/complex_demux.hpp"
#include "math/frequency_shift.hpp"
#include "math/gain.hpp"
#include "filters/kaiser_lpf.hpp"
#include "resamplers/multistage_resampler.hpp"
#include "channelizers/polyphase_channelizer.hpp"
#include "fm/fm_demod.hpp"
#include "utils/fanout.hpp"
#include "utils/throughput.hpp"
#include "utils/throttle.hpp"
#include "sources/source_file.hpp"
#include "sources/source_cw.hpp"
#include "sources/source_chirp.hpp"
#include "sinks/sink_file.hpp"
#include "sinks/sink_null.hpp"
#include <memory>
using vmon::Rng; using vmon::violation; using cf = std::complex<float>; using cler::BlockRunner;
static double now_s() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

template<typename T> struct Cap : cler::BlockBase {          // keeps what arrives
    cler::Channel<T> in; std::vector<T> got; std::atomic<size_t> n{0};
    Cap(const char* nm) : BlockBase(nm), in(4096) {}
    cler::Result<cler::Empty, cler::Error> procedure() { size_t k = in.size(); if (!k) return cler::Error::NotEnoughSamples; size_t o = got.size(); got.resize(o + k); in.readN(got.data() + o, k); n.store(got.size(), std::memory_order_relaxed); return cler::Empty{}; }
};
using Streams = std::vector<std::vector<float>>;
template<typename T> static std::vector<float> flat(const std::vector<T>& v) { std::vector<float> f(v.size() * sizeof(T) / 4); if (!f.empty()) memcpy(f.data(), v.data(), f.size() * 4); return f; }
template<typename T> static std::vector<float> slurp(const std::string& p) { std::vector<float> f; FILE* h = fopen(p.c_str(), "rb"); if (!h) return f; fseek(h, 0, SEEK_END); long n = ftell(h); rewind(h); f.resize(n / 4); if (n && fread(f.data(), 1, n, h) != (size_t)n) f.clear(); fclose(h); return f; }

struct Par { std::string dir, in_f, in_c; double a, b, c; int uid; uint64_t seed = 0; size_t bs(int k, size_t elem) const { uint64_t h = vmon::mix(seed, k); size_t m = cler::DOUBLY_MAPPED_MIN_SIZE / elem; return h % 3 == 0 ? 0 : h % 3 == 1 ? m * (1 + h / 3 % 8) : m + h / 3 % 3000; } };     // parameters of one chain
// ---- chains: blocks, runners, channels, outputs
struct File {       // file to file, floats
    SourceFileBlock<float> src; GainBlock<float> g; ThroughputBlock<float> tp; GainBlock<float> g2; std::unique_ptr<SinkFileBlock<float>> out; std::string path; static constexpr bool endless = false, exact = true;
    File(const Par& p) : src("src", p.in_f.c_str(), false), g("g", (float)p.a, p.bs(0, 4)), tp("tp", p.bs(1, 4)), g2("g2", (float)p.b, p.bs(2, 4)), path(p.dir + "/out" + std::to_string(p.uid)) { out = std::make_unique<SinkFileBlock<float>>("out", path.c_str(), p.bs(3, 4)); }
    auto runners() { return std::make_tuple(BlockRunner(&src, &g.in), BlockRunner(&g, &tp.in), BlockRunner(&tp, &g2.in), BlockRunner(&g2, &out->in), BlockRunner(out.get())); }
    std::vector<size_t> occ() { return {g.in.size(), tp.in.size(), g2.in.size(), out->in.size()}; }
    size_t count() { return 0; }
    Streams result() { out.reset(); auto f = slurp<float>(path); unlink(path.c_str()); return {f}; }
    static constexpr const char* name = "file-gain-throughput-gain-file";
};
struct Fm {         // receiver
    SourceFileBlock<cf> src; FrequencyShiftBlock sh; KaiserLPFBlock<cf> lpf; MultiStageResamplerBlock<cf> rs; FMDemodBlock dm; Cap<float> out; static constexpr bool endless = false, exact = false;
    Fm(const Par& p) : src("src", p.in_c.c_str(), false), sh("sh", 1e3 * p.a, 48e3, p.bs(0, 8)), lpf("lpf", 48e3, 5e3 + 4e3 * std::fabs(p.b), 4e3, 60, p.bs(1, 8)), rs("rs", float(0.3 + 0.5 * std::fabs(p.c)), 60, p.bs(2, 8)), dm("dm", 24e3, 3e3, p.bs(3, 8)), out("out") {}
    auto runners() { return std::make_tuple(BlockRunner(&src, &sh.in), BlockRunner(&sh, &lpf.in), BlockRunner(&lpf, &rs.in), BlockRunner(&rs, &dm.in), BlockRunner(&dm, &out.in), BlockRunner(&out)); }
    std::vector<size_t> occ() { return {sh.in.size(), lpf.in.size(), rs.in.size(), dm.in.size(), out.in.size()}; }
    size_t count() { return out.n; }
    Streams result() { return {flat(out.got)}; }
    static constexpr const char* name = "shift-filter-resample-demodulate";
};
struct Split {      // fan out, different paths, add up again
    SourceFileBlock<cf> src; FanoutBlock<cf> fo; GainBlock<cf> g1, g2; FrequencyShiftBlock sh; AddBlock<cf> add; ComplexToMagPhaseBlock dx; Cap<float> re, im; static constexpr bool endless = false, exact = true;
    Split(const Par& p) : src("src", p.in_c.c_str(), false), fo("fo", 3, p.bs(0, 8)), g1("g1", cf(p.a, p.b), p.bs(1, 8)), g2("g2", cf(p.c, 0), p.bs(2, 8)), sh("sh", 500 * p.b, 8000, p.bs(3, 8)), add("add", 3, p.bs(4, 8)), dx("dx", ComplexToMagPhaseBlock::Mode::RealImag, p.bs(5, 8)), re("re"), im("im") {}
    auto runners() { return std::make_tuple(BlockRunner(&src, &fo.in), BlockRunner(&fo, &g1.in, &g2.in, &sh.in), BlockRunner(&g1, &add.in[0]), BlockRunner(&g2, &add.in[1]), BlockRunner(&sh, &add.in[2]), BlockRunner(&add, &dx.in), BlockRunner(&dx, &re.in, &im.in), BlockRunner(&re), BlockRunner(&im)); }
    std::vector<size_t> occ() { return {fo.in.size(), g1.in.size(), g2.in.size(), sh.in.size(), add.in[0].size(), add.in[1].size(), add.in[2].size(), dx.in.size(), re.in.size(), im.in.size()}; }
    size_t count() { return re.n; }
    Streams result() { return {flat(re.got), flat(im.got)}; }
    static constexpr const char* name = "fanout-gains-shift-add-demux";
};
struct Gen {        // generated, endless
    SourceCWBlock<cf> cw; SourceChirpBlock<cf> ch; AddBlock<cf> add; ComplexToMagPhaseBlock dx; Cap<float> a, b; static constexpr bool endless = true, exact = true;
    Gen(const Par& p) : cw("cw", (float)(1 + p.a * p.a), float(100 * p.b), 8000), ch("ch", 1.f, 10.f, float(200 + 300 * p.c), 8000, 0.37f), add("add", 2, p.bs(0, 8)), dx("dx", ComplexToMagPhaseBlock::Mode::MagPhase, p.bs(1, 8)), a("a"), b("b") {}
    auto runners() { return std::make_tuple(BlockRunner(&cw, &add.in[0]), BlockRunner(&ch, &add.in[1]), BlockRunner(&add, &dx.in), BlockRunner(&dx, &a.in, &b.in), BlockRunner(&a), BlockRunner(&b)); }
    std::vector<size_t> occ() { return {add.in[0].size(), add.in[1].size(), dx.in.size(), a.in.size(), b.in.size()}; }
    size_t count() { return std::min<size_t>(a.n, b.n); }
    size_t most() { return std::max<size_t>(a.n, b.n); }
    Streams result() { return {flat(a.got), flat(b.got)}; }
    static constexpr const char* name = "tone-chirp-add-demux";
};
struct Chan {       // channelizer
    SourceFileBlock<cf> src; PolyphaseChannelizerBlock pc; Cap<cf> o0, o1, o2, o3; static constexpr bool endless = false, exact = false;
    Chan(const Par& p) : src("src", p.in_c.c_str(), false), pc("pc", 4, float(40 + 20 * std::fabs(p.a)), 3 + (size_t)(4 * std::fabs(p.b)), p.bs(0, 8) / 4 * 4), o0("o0"), o1("o1"), o2("o2"), o3("o3") {}
    auto runners() { return std::make_tuple(BlockRunner(&src, &pc.in), BlockRunner(&pc, &o0.in, &o1.in, &o2.in, &o3.in), BlockRunner(&o0), BlockRunner(&o1), BlockRunner(&o2), BlockRunner(&o3)); }
    std::vector<size_t> occ() { return {pc.in.size(), o0.in.size(), o1.in.size(), o2.in.size(), o3.in.size()}; }
    size_t count() { return o3.n; }
    Streams result() { return {flat(o0.got), flat(o1.got), flat(o2.got), flat(o3.got)}; }
    static constexpr const char* name = "channelizer";
};
struct Rep {        // a repeated file, a callback sink next to a filter
    struct K { std::vector<float> v; std::atomic<size_t> n{0}; } k; SourceFileBlock<float> src; FanoutBlock<float> fo; KaiserLPFBlock<float> lpf; MultiStageResamplerBlock<float> rs; SinkNullBlock<float> nul; Cap<float> out; static constexpr bool endless = true, exact = false;
    static size_t take(cler::Channel<float>* c, void* x) { K* k = (K*)x; auto [p, n] = c->read_dbf(); k->v.insert(k->v.end(), p, p + n); k->n.store(k->v.size(), std::memory_order_relaxed); return n; }
    Rep(const Par& p) : src("src", p.in_f.c_str(), true), fo("fo", 2, p.bs(0, 4)), lpf("lpf", 1000, 100 + 200 * std::fabs(p.a), 120, 60, p.bs(1, 4)), rs("rs", float(1.1 + std::fabs(p.b)), 50, p.bs(2, 4)), nul("nul", take, &k, p.bs(3, 4)), out("out") {}
    auto runners() { return std::make_tuple(BlockRunner(&src, &fo.in), BlockRunner(&fo, &nul.in, &lpf.in), BlockRunner(&lpf, &rs.in), BlockRunner(&rs, &out.in), BlockRunner(&nul), BlockRunner(&out)); }
    std::vector<size_t> occ() { return {fo.in.size(), nul.in.size(), lpf.in.size(), rs.in.size(), out.in.size()}; }
    size_t count() { return std::min<size_t>(k.n, out.n); }
    size_t most() { return std::max<size_t>(k.n, out.n); }
    Streams result() { return {k.v, flat(out.got)}; }
    static constexpr const char* name = "repeated file-fanout-filter-resample, callback sink";
};

// a call of every block, in order or backwards
template<typename R> static bool call(R& r) { auto res = std::apply([&](auto*... o) { return r.block->procedure(o...); }, r.outputs); return !res.is_err(); }
template<typename C> static bool pass(C& c, bool back, bool sources) { bool more = false;      // whether a source had more to give
    auto rs = c.runners(); std::vector<std::function<void()>> f; size_t idx = 0; const size_t nsrc = std::is_same_v<C, Gen> ? 2 : 1;
    std::apply([&](auto&... r) { ((idx < nsrc ? (sources ? f.push_back([&] { more |= call(r); }) : void()) : f.push_back([&] { call(r); }), idx++), ...); }, rs);
    if (back) std::reverse(f.begin(), f.end()); for (auto& x : f) x(); return more;
}
template<typename C> static void drain(C& c, bool sources) { int idle = 0; auto o = c.occ(); size_t n = c.count(); while (idle < 6) { bool more = pass(c, false, sources) | pass(c, true, sources); auto o2 = c.occ(); size_t n2 = c.count(); idle = o2 == o && n2 == n && !more ? idle + 1 : 0; o = o2; n = n2; vmon::tick(); } }
template<typename C> static size_t most(C& c) { if constexpr (C::endless) return c.most(); else return c.count(); }
template<typename C> static Streams byhand(const Par& p, size_t want) { C c(p); if (C::endless) { while (c.count() < want) pass(c, false, true), vmon::tick(); } else { for (int i = 0; i < 3; ++i) pass(c, false, true); drain(c, true); } return c.result(); }

static void cmp(const char* what, const std::string& w, const Streams& ref, const Streams& got, bool exact, bool prefix) {
    for (size_t s = 0; s < ref.size(); ++s) {
        auto &a = ref[s], &b = got[s]; if (prefix ? b.size() > a.size() : b.size() != a.size()) { violation("lib:length", "%s %s: output %zu has %zu values, %zu by hand", what, w.c_str(), s, b.size(), a.size()); return; }
        double mx = 1e-6; for (float x : a) if (std::isfinite(x)) mx = std::max(mx, (double)std::fabs(x));
        for (size_t i = 0; i < b.size(); ++i) if (exact ? memcmp(&a[i], &b[i], 4) != 0 : !(std::fabs(a[i] - b[i]) <= 1e-4 * mx)) { violation("lib:content", "%s %s: output %zu, value %zu is %g, by hand %g", what, w.c_str(), s, i, b[i], a[i]); return; }
    }
}
static cler::FlowGraphConfig rndcfg(Rng& r, size_t n) {
    cler::FlowGraphConfig c; c.scheduler = r.chance(1, 2) ? cler::SchedulerType::ThreadPerBlock : cler::SchedulerType::FixedThreadPool; c.num_workers = 2 + r.below(n > 8 ? 6 : n); c.max_calls_per_tick = r.pick({1, 2, 4, 16}); c.collect_detailed_stats = r.chance(1, 2);
    c.adaptive_sleep = r.chance(1, 3); c.adaptive_sleep_max_us = r.pick({1.0, 50.0, 500.0}); c.adaptive_sleep_fail_threshold = r.pick({0, 1, 10}); return c;
}
#if defined(VMON_TSAN) || defined(VMON_ASAN)
static const size_t LEN = 9000;
#else
static const size_t LEN = 30000;
#endif
static Par par(Rng& r, const std::string& dir, int uid) { auto u = [&] { return (double(r.below(2001)) - 1000) / 1000; }; Par p{dir, dir + "/f" + std::to_string(uid), dir + "/c" + std::to_string(uid), u(), u(), u(), uid};
    p.seed = r.next(); size_t n = LEN + r.below(LEN); std::vector<float> v(2 * n); for (size_t i = 0; i < n; ++i) { double ph = 0.1 * i + 3 * std::sin(i * 1e-3) + 0.05 * u(); v[2 * i] = std::cos(ph) * (1 + 0.1 * u()); v[2 * i + 1] = std::sin(ph); }
    FILE* f = fopen(p.in_f.c_str(), "wb"); fwrite(v.data(), 4, n, f); fclose(f); f = fopen(p.in_c.c_str(), "wb"); fwrite(v.data(), 8, n, f); fclose(f); return p; }

// two chains in one flowgraph, run, interrupted and continued; what is left in the channels is drained by hand
template<typename A, typename B> static void pair_case(uint64_t, Rng& r) {
    const char* d = getenv("VMON_SCRATCH"); std::string dir = d ? d : "/tmp"; Par pa = par(r, dir, 0), pb = par(r, dir, 1); std::string w; size_t na, nb; uint64_t sig = 0; Streams ga, gb; unsigned runs = 0; double t = now_s();
    {
        auto a = std::make_unique<A>(pa); auto b = std::make_unique<B>(pb); auto rs = std::tuple_cat(a->runners(), b->runners()); size_t n = std::tuple_size_v<decltype(rs)>;
        auto fg = std::apply([](auto... x) { return std::make_unique<cler::FlowGraph<cler::DesktopTaskPolicy, decltype(x)...>>(x...); }, rs);
        unsigned restarts = r.below(4); cler::FlowGraphConfig c;
        for (unsigned k = 0; k <= restarts; ++k) {
            c = rndcfg(r, n); runs++; sig = vmon::mix(sig, c.num_workers * 64 + c.max_calls_per_tick * 2 + (c.scheduler == cler::SchedulerType::FixedThreadPool)); bool last = k == restarts; fg->run(c);
            if (!last) std::this_thread::sleep_for(std::chrono::microseconds(r.below(2500)));
            else { double t0 = now_s(); while (now_s() - t0 < 0.5 && !fg->is_stopped()) { if ((A::endless && a->count() > LEN) || (B::endless && b->count() > LEN)) break; std::this_thread::sleep_for(std::chrono::microseconds(200)); vmon::tick(); } }   // a file that ends ends the graph
            fg->stop(); vmon::tick(); sig = vmon::mix(sig, a->count() / 512 * 31 + b->count() / 512);
        }
        w = vmon::fmt("(%s | %s), %u runs, last %s with %zu workers, batch %zu", A::name, B::name, runs, c.scheduler == cler::SchedulerType::ThreadPerBlock ? "thread per block" : "pool", c.num_workers, c.max_calls_per_tick);
        drain(*a, !A::endless); drain(*b, !B::endless);
        na = most(*a); nb = most(*b); fg.reset(); ga = a->result(); gb = b->result(); 
    }
    cmp("first chain of", w, byhand<A>(pa, na), ga, A::exact, A::endless); cmp("second chain of", w, byhand<B>(pb, nb), gb, B::exact, B::endless);
    size_t tot = 0; for (auto& v : ga) tot += v.size(); for (auto& v : gb) tot += v.size(); vmon::evals(); vmon::stat("values_compared", (double)tot); vmon::stat("runs", runs); if (tot > 1000) vmon::nontrivial(sig);
    vmon::sample("%s: %zu values compared in %.2f s", w.c_str(), tot, now_s() - t); for (auto& p : {pa, pb}) { unlink(p.in_f.c_str()); unlink(p.in_c.c_str()); }
}
static void c_lib(uint64_t i, Rng& r) {
    switch (i % 10) {
        case 0: pair_case<File, File>(i, r); break; case 1: pair_case<Fm, Fm>(i, r); break; case 2: pair_case<Split, Split>(i, r); break; case 3: pair_case<Gen, Gen>(i, r); break; case 4: pair_case<Chan, Chan>(i, r); break;
        case 5: pair_case<Rep, Rep>(i, r); break; case 6: pair_case<File, Fm>(i, r); break; case 7: pair_case<Split, Chan>(i, r); break; case 8: pair_case<Gen, Rep>(i, r); break; default: pair_case<Fm, Split>(i, r); break;
    }
}
// liquid-dsp itself leaks this object while designing some filters
extern "C" const char* __lsan_default_suppressions() { return "leak:qs1dsearch_create\n"; }
int main(int argc, char** argv) { return vmon::run(argc, argv, {{"lib", c_lib}}, 60); }
