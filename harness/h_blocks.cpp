// Direct-drive monitors for the plain blocks: arithmetic and plumbing (C15), generators (C17), files (C18), throttle (C19), noise (C20).
#include "pump.hpp"
#include <dlfcn.h>
#include <stdarg.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <csignal>
#include <ctime>
#include <cerrno>
#include <fstream>
#include "math/add.hpp"
#include "math/gain.hpp"
#include "math/frequency_shift.hpp"
#include "math/complex_demux.hpp"
#include "utils/fanout.hpp"
#include "utils/throughput.hpp"
#include "utils/throttle.hpp"
#include "sinks/sink_null.hpp"
#include "sinks/sink_file.hpp"
#include "sources/source_cw.hpp"
#include "sources/source_chirp.hpp"
#include "sources/source_file.hpp"
#include "noise/awgn.hpp"
using namespace pump;

// ---------- element values: small integers, exact in every type, non-zero, position dependent
template <class T> T val(uint64_t k) { return (T)(int)(1 + (k * 7 + k / 97 * 13) % 120); }
template <> cf val<cf>(uint64_t k) { return {(float)(1 + (k * 7 + k / 97 * 13) % 1000), (float)(-3 - (int)((k * 3 + k / 89) % 900))}; }
template <> cd val<cd>(uint64_t k) { auto c = val<cf>(k); return {c.real(), c.imag()}; }
template <class T> std::vector<T> stream(size_t n, uint64_t salt = 0) { std::vector<T> v(n); for (size_t i = 0; i < n; ++i) v[i] = val<T>(i + salt * 7919); return v; }
template <class T> double dist(T a, T b) { if constexpr (std::is_same_v<T, cf> || std::is_same_v<T, cd>) return std::abs(cd(a) - cd(b)); else return std::fabs((double)a - (double)b); }
template <class T> void compare(const std::vector<T>& got, size_t want, std::function<T(size_t)> ex, double tol, const char* what, std::function<double(size_t)> tolf = nullptr) {
    for (size_t i = 0; i < got.size(); ++i) { if (i >= want) { bad("arith:extra", "%s: %zu samples out, %zu expected", what, got.size(), want); return; } T e = ex(i); double t = tolf ? tolf(i) : tol; if (!(dist(got[i], e) <= t)) { bad("arith:value", "%s: sample %zu of %zu is wrong (off by %g)", what, i, want, dist(got[i], e)); return; } }
    if (got.size() < want) bad("arith:lost", "%s: %zu of %zu samples came out", what, got.size(), want);
}
static std::function<void(const std::vector<size_t>&, const std::vector<size_t>&, bool)> one2one() { return [](const std::vector<size_t>& c, const std::vector<size_t>& p, bool) { size_t n = c.empty() ? p[0] : c[0]; for (auto v : c) if (v != n) { bad("chunk:unequal", "inputs consumed unequally (%zu, %zu)", n, v); return; } for (auto v : p) if (v != n) { bad("chunk:unequal", "%zu samples consumed, %zu emitted on one output", n, v); return; } }; }
template <class P> void finish(P& p, uint64_t i, const char* name) { vmon::evals(); vmon::stat("procedure_calls", (double)p.calls); uint64_t n = 0; for (auto& g : p.got) n += g.size(); vmon::stat("samples_checked", (double)n); if (p.worked > 1 && p.worked < p.calls) vmon::nontrivial(p.sig); vmon::sample("%s: %llu calls, %llu moved samples, %llu samples checked", ctx().c_str(), (unsigned long long)p.calls, (unsigned long long)p.worked, (unsigned long long)n); }
template <class TI, class TO> bool all_out(Pump<TI, TO>& p, size_t n) { for (auto& g : p.got) if (g.size() < n) return false; return true; }
template <class TI, class TO> void go(Pump<TI, TO>& p, Rng& r, size_t n) { p.run(r, "arith:stalled", [&p, n] { return all_out(p, n); }); for (int k = 0; k < 5; ++k) p.step_call(); for (size_t i = 0; i < p.outs.size(); ++i) p.drain(i, SIZE_MAX); }

template <class T> void t_add(uint64_t i, Rng& r) {
    size_t k = 2 + r.below(4), n = 500 + r.below(6000), bs = r.chance(1, 2) ? 0 : widecap<T>(r); n = grown<T>(n, bs); ctx() = vmon::fmt("add<%zu bytes>, %zu inputs, buffer %zu, %zu samples", sizeof(T), k, bs, n);
    AddBlock<T> b("b", k, bs); std::vector<std::vector<T>> d; for (size_t j = 0; j < k; ++j) d.push_back(stream<T>(n, j)); for (auto& v : d) for (auto& x : v) x = x / T(8); if constexpr (std::is_integral_v<T>) {}
    Pump<T, T> p; for (size_t j = 0; j < k; ++j) p.ins.push_back({&b.in[j], &d[j]}); size_t cap = wide<T>(bs) ? bs : dbfcap<T>(r); p.addout(cap, r.below(2 * cap)); p.call = [&] { return b.procedure(p.outs[0].get()); }; p.each = one2one(); go(p, r, n);
    compare<T>(p.got[0], n, [&](size_t q) { T s{}; for (auto& v : d) s = (T)(s + v[q]); return s; }, 1e-4, "sum"); finish(p, i, "add");
}
template <class T> void t_gain(uint64_t i, Rng& r, T g) {
    size_t n = 300 + r.below(5000), bs = r.chance(1, 3) ? 0 : anycap<T>(r); ctx() = vmon::fmt("gain<%zu bytes>, buffer %zu, %zu samples", sizeof(T), bs, n); GainBlock<T> b("b", g, bs); auto d = stream<T>(n);
    Pump<T, T> p; p.ins.push_back({&b.in, &d}); size_t cap = anycap<T>(r); p.addout(cap, r.below(2 * cap)); p.call = [&] { return b.procedure(p.outs[0].get()); }; p.each = one2one(); go(p, r, n);
    compare<T>(p.got[0], n, [&](size_t q) { return (T)(d[q] * g); }, 0, "product", [&](size_t q) { if constexpr (std::is_integral_v<T>) return 0.0; else return 1e-5 * (1 + std::abs(d[q] * g)); }); finish(p, i, "gain");
}
static void t_shift(uint64_t i, Rng& r) {
    size_t n = 500 + r.below(9000), bs = r.chance(1, 3) ? 0 : anycap<cf>(r); double fs = r.pick({1.0, 1000.0, 48000.0, 2e6, 12345.6}), f = fs * r.pick({0.0, 0.25, -0.1, 0.5, 0.013, 0.9, -1.7}) ; ctx() = vmon::fmt("frequency shift %.3f of %.1f Hz, buffer %zu, %zu samples", f, fs, bs, n); FrequencyShiftBlock b("b", f, fs, bs); auto d = stream<cf>(n);
    Pump<cf, cf> p; p.ins.push_back({&b.in, &d}); size_t cap = anycap<cf>(r); p.addout(cap, r.below(2 * cap)); p.call = [&] { return b.procedure(p.outs[0].get()); }; p.each = one2one(); go(p, r, n);
    compare<cf>(p.got[0], n, [&](size_t q) { double ph = 2 * M_PI * std::fmod(f / fs * (double)q, 1.0); return cf(cd(d[q]) * std::polar(1.0, ph)); }, 0, "rotation", [&](size_t q) { return (double)std::abs(d[q]) * (1e-4 + 1.5e-6 * q); }); finish(p, i, "shift");
}
static void t_demux(uint64_t i, Rng& r) {
    size_t n = 500 + r.below(4000), bs = r.chance(1, 2) ? 0 : widecap<cf>(r); bool mp = r.chance(1, 2); n = grown<cf>(n, bs); ctx() = vmon::fmt("complex demux (%s), buffer %zu, %zu samples", mp ? "magnitude/phase" : "real/imaginary", bs, n); ComplexToMagPhaseBlock b("b", mp ? ComplexToMagPhaseBlock::MagPhase : ComplexToMagPhaseBlock::RealImag, bs);
    auto d = stream<cf>(n); for (auto& x : d) { if (r.chance(1, 2)) x = -x; if (r.chance(1, 4)) x = std::conj(x); if (r.chance(1, 50)) x = {0, 0}; }
    Pump<cf, float> p; p.ins.push_back({&b.in, &d}); for (int q = 0; q < 2; ++q) { size_t cap = wide<cf>(bs) ? bs : anycap<float>(r); p.addout(cap, r.below(2 * cap)); } p.call = [&] { return b.procedure(p.outs[0].get(), p.outs[1].get()); }; p.each = one2one(); go(p, r, n);
    compare<float>(p.got[0], n, [&](size_t q) { return mp ? std::abs(d[q]) : d[q].real(); }, 0, "first output", [&](size_t q) { return mp ? 1e-5 * (1 + std::abs(d[q])) : 0.0; });
    compare<float>(p.got[1], n, [&](size_t q) { return mp ? std::arg(d[q]) : d[q].imag(); }, mp ? 1e-5 : 0, "second output"); finish(p, i, "demux");
}
template <class T, size_t... I> Res callN(FanoutBlock<T>& b, Pump<T, T>& p, std::index_sequence<I...>) { return b.procedure(p.outs[I].get()...); }
template <class T, size_t N> void t_fan(uint64_t i, Rng& r) {
    size_t n = 500 + r.below(6000), bs = r.chance(1, 2) ? 0 : widecap<T>(r); n = grown<T>(n, bs); ctx() = vmon::fmt("fan-out<%zu bytes> to %zu, buffer %zu, %zu samples", sizeof(T), N, bs, n); FanoutBlock<T> b("b", N, bs); auto d = stream<T>(n);
    Pump<T, T> p; p.ins.push_back({&b.in, &d}); for (size_t q = 0; q < N; ++q) { size_t cap = wide<T>(bs) ? bs : dbfcap<T>(r); p.addout(cap, r.below(2 * cap)); } p.call = [&] { return callN<T>(b, p, std::make_index_sequence<N>{}); }; p.each = one2one(); go(p, r, n);
    for (size_t q = 0; q < N; ++q) compare<T>(p.got[q], n, [&](size_t x) { return d[x]; }, 0, "copy"); finish(p, i, "fan");
}
// a virtual clock; the wall clock can be set, the steady one cannot
struct VClock { bool on = false; long long ns = 1000000000000ll; long long sleeps = 0, slept = 0; Rng r{1}; long long over = 0; long long skew = 0; }; static thread_local VClock* vc = nullptr;
extern "C" int clock_gettime(clockid_t c, struct timespec* ts) { static int (*real)(clockid_t, struct timespec*) = nullptr; if (vc && vc->on) { vc->ns += 40; long long t = vc->ns + (c == CLOCK_REALTIME ? vc->skew : 0); ts->tv_sec = t / 1000000000ll; ts->tv_nsec = t % 1000000000ll; return 0; } if (!real) real = (int (*)(clockid_t, struct timespec*))dlsym(RTLD_NEXT, "clock_gettime"); return real(c, ts); }
static void vsleep(long long d) { if (d < 0) d = 0; vc->sleeps++; vc->slept += d; vc->ns += d + (vc->over ? (long long)vc->r.below(vc->over) : 0); }
extern "C" int nanosleep(const struct timespec* q, struct timespec* rem) { static int (*real)(const struct timespec*, struct timespec*) = nullptr; if (vc && vc->on) { vsleep(q->tv_sec * 1000000000ll + q->tv_nsec); return 0; } if (!real) real = (int (*)(const struct timespec*, struct timespec*))dlsym(RTLD_NEXT, "nanosleep"); return real(q, rem); }
extern "C" int clock_nanosleep(clockid_t c, int fl, const struct timespec* q, struct timespec* rem) { static int (*real)(clockid_t, int, const struct timespec*, struct timespec*) = nullptr; if (vc && vc->on) { long long t = q->tv_sec * 1000000000ll + q->tv_nsec; vsleep((fl & TIMER_ABSTIME) ? t - vc->ns - (c == CLOCK_REALTIME ? vc->skew : 0) : t); return 0; } if (!real) real = (int (*)(clockid_t, int, const struct timespec*, struct timespec*))dlsym(RTLD_NEXT, "clock_nanosleep"); return real(c, fl, q, rem); }
extern "C" int usleep(unsigned us) { struct timespec t{us / 1000000, (long)(us % 1000000) * 1000}; return nanosleep(&t, nullptr); }
template <class T> void t_tput(uint64_t i, Rng& r) {
    size_t n = 500 + r.below(6000), bs = r.chance(1, 2) ? 0 : widecap<T>(r); n = grown<T>(n, bs); ctx() = vmon::fmt("throughput<%zu bytes>, buffer %zu, %zu samples", sizeof(T), bs, n); ThroughputBlock<T> b("b", bs); auto d = stream<T>(n);
    Pump<T, T> p; p.ins.push_back({&b.in, &d}); size_t cap = wide<T>(bs) ? bs : dbfcap<T>(r); p.addout(cap, r.below(2 * cap)); p.call = [&] { return b.procedure(p.outs[0].get()); }; auto o = one2one(); uint64_t tot = 0; p.each = [&](auto& c, auto& q, bool ok) { o(c, q, ok); tot += q[0]; if (b.samples_passed() != tot) bad("arith:count", "%zu samples counted, %llu passed", b.samples_passed(), (unsigned long long)tot); }; go(p, r, n);
    compare<T>(p.got[0], n, [&](size_t x) { return d[x]; }, 0, "pass-through"); if (b.samples_passed() != n) bad("arith:count", "%zu samples counted, %zu passed", b.samples_passed(), n);
    {   // its report: count, elapsed time, quotient, whatever happens to the wall clock
        VClock c; c.r = Rng(r.next()); vc = &c; c.on = true; ThroughputBlock<T> t("meter", bs); size_t m = std::min(n, t.in.space()), k = 0; MonChan<T> o(std::max<size_t>(m + 1, 4096), 0); long long t0 = c.ns; t.in.writeN(d.data(), m); while (k < 50 && t.in.size()) { t.procedure(&o); k++; c.ns += (long long)r.below(900000000); if (r.chance(1, 4)) c.skew = (r.chance(1, 2) ? -1 : 1) * (long long)r.below(30000000000ll); } c.ns += (long long)r.below(5000000000ll) + 1000000; std::ostringstream os; auto* sb = std::cout.rdbuf(os.rdbuf()); t.report(); std::cout.rdbuf(sb); double lived = (double)(c.ns - t0) / 1e9; c.on = false; vc = nullptr;
        std::string x = os.str(); std::vector<double> num; for (size_t q = 0; (q = x.find(": ", q)) != std::string::npos; q += 2) num.push_back(atof(x.c_str() + q + 2)); if (x.find("meter") == std::string::npos || num.size() != 3) bad("arith:report", "report without its name and three figures: %s", x.c_str()); else if (std::fabs(num[0] - (double)t.samples_passed()) > 1e-5 * num[0] || std::fabs(num[1] - lived) > 1e-4 * lived + 1e-3 || std::fabs(num[2] - num[0] / lived) > 2e-3 * num[2] + 1) bad("arith:report", "reports %g samples in %g s, %g samples/s; there were %zu in %g s", num[0], num[1], num[2], t.samples_passed(), lived); vmon::stat("throughput_reports", 1); }
    finish(p, i, "tput");
}
struct NullCtx { std::vector<float> seen; Rng* r; uint64_t calls = 0; void* chan = nullptr; };
static void t_null(uint64_t i, Rng& r) {
    size_t n = 300 + r.below(5000), bs = r.chance(1, 3) ? 0 : anycap<float>(r); bool cb = r.chance(1, 2); ctx() = vmon::fmt("null sink, buffer %zu, %s, %zu samples", bs, cb ? "callback" : "no callback", n); NullCtx c; c.r = &r;
    SinkNullBlock<float> b("b", cb ? +[](cler::Channel<float>* ch, void* x) -> size_t { auto& c = *(NullCtx*)x; c.calls++; c.chan = ch; size_t k = c.r->below(ch->size() + 1); const float *p, *q; size_t a, bb; ch->peek_read(p, a, q, bb); for (size_t j = 0; j < k; ++j) c.seen.push_back(j < a ? p[j] : q[j - a]); return k; } : nullptr, &c, bs);
    auto d = stream<float>(n); Pump<float, float> p; p.ins.push_back({&b.in, &d}); p.call = [&] { return b.procedure(); };
    p.each = [&](auto& cc, auto&, bool ok) { if (!ok) bad("arith:sink-error", "null sink failed"); if (!cb && b.in.size()) bad("arith:sink-left", "%zu samples left in the null sink", b.in.size()); (void)cc; };
    p.run(r, "arith:stalled", [&] { return p.ins[0].pos == n && b.in.size() == 0; });
    if (cb) { if (c.chan != &b.in) bad("arith:sink-context", "callback got another channel"); compare<float>(c.seen, n, [&](size_t x) { return d[x]; }, 0, "callback"); } finish(p, i, "null");
}
static void c_arith(uint64_t i, Rng& r) {
    switch (i % 16) { case 0: t_add<float>(i, r); break; case 1: t_add<cf>(i, r); break; case 2: t_add<double>(i, r); break; case 3: t_gain<float>(i, r, r.pick({2.5f, 0.f, 1.f, -1e-3f, 1000.f, (float)r.real(-5, 5)})); break; case 4: t_gain<cf>(i, r, r.pick({cf(0.5f, -2), cf(0, 0), cf(1, 0), cf(0, 1), cf((float)r.real(-5, 5), (float)r.real(-5, 5))})); break; case 5: t_gain<double>(i, r, r.pick({-3.0, 0.0, 1.0, r.real(-1e6, 1e6)})); break; case 6: t_gain<int32_t>(i, r, r.pick({-7, 0, 1, -1, 13})); break; case 7: t_shift(i, r); break; case 8: t_demux(i, r); break;
        case 9: t_fan<float, 2>(i, r); break; case 10: t_fan<cf, 3>(i, r); break; case 11: t_fan<uint8_t, 5>(i, r); break; case 12: t_fan<double, 1>(i, r); break; case 13: t_tput<float>(i, r); break; case 14: t_tput<cf>(i, r); break; default: t_null(i, r); }
}

// ---------- C17 generators
template <class T> cd as_c(T x) { if constexpr (std::is_same_v<T, cf>) return cd(x); else return cd(x, 0); }
template <class T> void t_cw(uint64_t i, Rng& r) {
    size_t n = 1500 + r.below(vmon::thorough() ? 60000 : 20000); size_t sps = r.pick({8000u, 48000u, 1000000u, 2000000u, 7u, 1u}); float f = (float)(sps * r.pick({0.0, 0.125, -0.2, 0.4999, 0.0031, 0.73})), A = (float)r.pick({1.0, 0.01, 250.0, -2.0}); ctx() = vmon::fmt("tone %s amplitude %g, %g Hz at %zu S/s, %zu samples", sizeof(T) == 4 ? "real" : "complex", A, f, sps, n);
    SourceCWBlock<T> b("b", A, f, sps); Pump<T, T> p; size_t cap = anycap<T>(r); p.addout(cap, r.below(2 * cap)); p.want = n; p.call = [&] { return b.procedure(p.outs[0].get()); }; size_t sp = 0; p.each = [&](auto&, auto& q, bool ok) { if (!ok && q[0] == 0 && p.outs[0]->space() > 0) bad("gen:no-output", "nothing generated with room for %zu", p.outs[0]->space()); if (ok && q[0] == 0) bad("gen:no-output", "success without output"); (void)sp; };
    p.run(r, "gen:stalled", nullptr); double w = 2 * M_PI * (double)f / (double)sps;
    for (size_t k = 0; k < p.got[0].size(); ++k) { cd e = (double)A * std::polar(1.0, std::fmod(w * (double)k, 2 * M_PI)), g = as_c(p.got[0][k]); if (sizeof(T) == 4) e = e.real(); double tol = std::fabs(A) * (2e-4 + 2e-6 * (double)k); if (!(std::abs(g - e) <= tol)) { bad("gen:tone", "sample %zu differs from the tone by %g", k, std::abs(g - e)); break; } if (sizeof(T) == 8 && std::fabs(std::abs(g) - std::fabs(A)) > 1e-4 * std::fabs(A)) { bad("gen:amplitude", "sample %zu has amplitude %g", k, std::abs(g)); break; }
        if (sizeof(T) == 8 && k) { double d = std::arg(g * std::conj(as_c(p.got[0][k - 1]))), x = std::remainder(d - w, 2 * M_PI); if (std::fabs(x) > 2e-5) { bad("gen:discontinuous", "phase step at sample %zu is off by %g rad", k, x); break; } } }
    vmon::evals(); vmon::stat("samples_checked", (double)p.got[0].size()); vmon::stat("procedure_calls", (double)p.calls); if (p.worked > 1) vmon::nontrivial(p.sig); vmon::sample("%s: %llu calls", ctx().c_str(), (unsigned long long)p.calls);
}
template <class T> void t_chirp(uint64_t i, Rng& r) {
    size_t sps = (size_t)1 << r.range(8, 20); size_t per = 2 + r.below(r.chance(1, 2) ? 600 : 6000); float dur = (float)per / (float)sps; size_t n = std::max<size_t>(3000, 2 * per) + r.below(5000); float A = (float)r.pick({1.0, 0.5, 30.0}), f0 = (float)(sps * r.pick({0.0, 0.1, -0.3, 0.01})), f1 = (float)(sps * r.pick({0.0, 0.25, -0.25, 0.45, 0.02})); ctx() = vmon::fmt("chirp %s %g..%g Hz in %zu samples at %zu S/s", sizeof(T) == 4 ? "real" : "complex", f0, f1, per, sps);
    SourceChirpBlock<T> b("b", A, f0, f1, sps, dur); Pump<T, T> p; size_t cap = dbfcap<T>(r); p.addout(cap, r.below(2 * cap)); p.want = n; p.call = [&] { return b.procedure(p.outs[0].get()); }; p.each = [&](auto&, auto& q, bool ok) { if (!ok && q[0] == 0 && p.outs[0]->space() > 0) bad("gen:no-output", "nothing generated with room for %zu", p.outs[0]->space()); if (ok && q[0] == 0) bad("gen:no-output", "success without output"); };
    p.run(r, "gen:stalled", nullptr); double w0 = 2 * M_PI * (double)f0 / sps, a = 2 * M_PI * ((double)f1 - f0) / ((double)dur * sps * sps);
    for (size_t k = 0; k < p.got[0].size(); ++k) { double m = (double)(k % per), mm = m; double ph = w0 * m + a * m * (m - 1) / 2; cd e = (double)A * std::polar(1.0, std::fmod(ph, 2 * M_PI)), g = as_c(p.got[0][k]); if (sizeof(T) == 4) e = e.real();
        double tol = 5e-4 + 2e-6 * mm + 2.5e-7 * mm * mm; if (tol < 1.5 && !(std::abs(g - e) <= std::fabs(A) * tol)) { bad("gen:chirp", "sample %zu (%zu of the sweep) differs from the chirp by %g", k, k % per, std::abs(g - e)); break; }
        if (!std::isfinite(std::abs(g)) || std::abs(g) > std::fabs(A) * 1.001) { bad("gen:amplitude", "sample %zu has amplitude %g", k, std::abs(g)); break; }
        if (sizeof(T) == 8) { if (std::fabs(std::abs(g) - A) > 1e-3 * A) { bad("gen:amplitude", "sample %zu has amplitude %g", k, std::abs(g)); break; } if (m > 0) { double d = std::arg(g * std::conj(as_c(p.got[0][k - 1]))), x = std::remainder(d - (w0 + a * (m - 1)), 2 * M_PI); if (std::fabs(x) > 1e-4 + 1e-6 * m) { bad("gen:discontinuous", "phase step at sample %zu is off by %g rad", k, x); break; } } else if (std::abs(g - cd(A, 0)) > 1e-3 * A) { bad("gen:restart", "sweep at sample %zu does not start at phase 0", k); break; } } }
    vmon::evals(); vmon::stat("samples_checked", (double)p.got[0].size()); vmon::stat("procedure_calls", (double)p.calls); if (p.worked > 1) vmon::nontrivial(p.sig); vmon::sample("%s: %llu calls", ctx().c_str(), (unsigned long long)p.calls);
}
static void c_gen(uint64_t i, Rng& r) { switch (i % 4) { case 0: t_cw<float>(i, r); break; case 1: t_cw<cf>(i, r); break; case 2: t_chirp<float>(i, r); break; default: t_chirp<cf>(i, r); } }

// ---------- C18 files, with an interposed read()
struct ReadPlan { bool on = false; ino_t ino = 0; long long fail_after = -1; bool shorts = false; Rng r{1}; uint64_t short_reads = 0, failed = 0; long long total = 0; int err = EIO; }; static ReadPlan plan;
extern "C" ssize_t read(int fd, void* buf, size_t n) {
    static ssize_t (*real)(int, void*, size_t) = nullptr; if (!real) real = (ssize_t(*)(int, void*, size_t))dlsym(RTLD_NEXT, "read");
    if (plan.on) { struct stat st; if (fstat(fd, &st) == 0 && st.st_ino == plan.ino) { if (plan.fail_after >= 0 && plan.total >= plan.fail_after) { plan.failed++; errno = plan.err; return -1; } if (plan.fail_after >= 0) n = (size_t)std::min<long long>((long long)n, plan.fail_after - plan.total); if (plan.shorts && n > 1 && plan.r.chance(1, 2)) { n = 1 + plan.r.below(n); plan.short_reads++; } ssize_t k = real(fd, buf, n); if (k > 0) plan.total += k; return k; } }
    return real(fd, buf, n);
}
static std::string slurp(const std::string& f) { std::ifstream s(f, std::ios::binary); return std::string(std::istreambuf_iterator<char>(s), {}); }
struct S12 { float a, b; int c; }; template <> S12 val<S12>(uint64_t k) { return {(float)k, (float)(k * 3), (int)(k ^ 0x5a5a)}; }
template <class T> bool same(const std::vector<T>& a, const T* b, size_t n) { return a.size() == n && (n == 0 || memcmp(a.data(), b, n * sizeof(T)) == 0); }
static int eof_calls; static std::string eof_name; static void on_eof(const char* f) { eof_calls++; eof_name = f ? f : "(null)"; }
template <class T> void t_sink(uint64_t i, Rng& r) {
    size_t n = r.chance(1, 8) ? r.below(3) : r.below(20000), bs = r.chance(1, 2) ? 0 : dbfcap<T>(r); std::string f = "sink.bin"; bool pre = r.chance(1, 3); if (pre) std::ofstream(f) << std::string(5000, 'x'); else unlink(f.c_str()); unsigned fault = r.chance(1, 3) ? 1 + r.below(2) : 0; if (n < 4000) fault = 0;
    ctx() = vmon::fmt("file sink <%zu bytes>, buffer %zu, %zu samples%s%s", sizeof(T), bs, n, pre ? ", existing file" : "", fault == 1 ? ", /dev/full" : fault == 2 ? ", file size limit" : ""); auto d = stream<T>(n); size_t consumed = 0; bool err = false; uint64_t calls = 0, after = 0; size_t lim = 0;
    std::unique_ptr<SinkFileBlock<T>> b; Pump<T, T> p;
    auto unlimit = [&] { if (fault == 2) { struct rlimit rl; getrlimit(RLIMIT_FSIZE, &rl); rl.rlim_cur = rl.rlim_max; setrlimit(RLIMIT_FSIZE, &rl); } };
    std::vector<std::string> later;
    try { b.reset(new SinkFileBlock<T>("b", fault == 1 ? "/dev/full" : f.c_str(), bs)); } catch (const std::exception& e) { unlimit(); bad("file:open", "constructor failed: %s", e.what()); return; }
    if (fault == 2) { lim = 1 + r.below(n * sizeof(T) * 3 / 4); struct rlimit rl; getrlimit(RLIMIT_FSIZE, &rl); rl.rlim_cur = lim; signal(SIGXFSZ, SIG_IGN); setrlimit(RLIMIT_FSIZE, &rl); }
    int logfd = vmon::st().fd; if (fault == 2) vmon::st().fd = -1;
    p.ins.push_back({&b->in, &d}); size_t idle = 0; size_t big = b->in.space();
    while ((p.ins[0].pos < n || b->in.size()) && !err && idle < 50) { p.feed(0, Pump<T, T>::slice(r, big)); size_t w = b->in.size(); bool ok = b->procedure().is_ok(); calls++; size_t now = b->in.size(); if (now > w) later.push_back("input grew"); size_t c = w - now; consumed += c; if (!ok && w > 0 && now == 0) later.push_back(vmon::fmt("drop a failing call consumed all of the %zu waiting samples", w)); if (!ok) err = true; else if (c == 0 && w > 0) idle++; else idle = 0; vmon::tick(); }
    for (int k = 0; k < 3; ++k) { if (err) p.feed(0, Pump<T, T>::slice(r, big)); size_t w = b->in.size(); bool ok = b->procedure().is_ok(); if (ok) after++; else if (w > 0 && b->in.size() == 0) later.push_back(vmon::fmt("drop a failing call consumed all of the %zu waiting samples", w)); }
    // sometimes it is destroyed while samples wait: what it consumed is in the file, and its descriptor is given back
    bool waiting = !fault && r.chance(1, 2); std::vector<T> tail; if (waiting) { size_t k = std::min<size_t>(1 + r.below(3 * big), b->in.space()); tail = stream<T>(k, 7); if (k) b->in.writeN(tail.data(), k); if (r.chance(1, 4)) { size_t w = b->in.size(); for (auto& q : tail) d.push_back(q); if (!b->procedure().is_ok()) err = true; consumed += w - b->in.size(); n = consumed; } }
    size_t left = b->in.size(); b.reset(); unlimit(); vmon::st().fd = logfd; if (waiting) { vmon::stat("destroyed_while_waiting", left > 0); struct stat fs; if (stat(f.c_str(), &fs) == 0) for (int fd = 3; fd < 200; ++fd) { struct stat st; if (fstat(fd, &st) == 0 && st.st_ino == fs.st_ino && st.st_dev == fs.st_dev) { bad("file:descriptor", "the file is still open after the sink is gone"); close(fd); break; } } }
    for (auto& s : later) bad(s[0] == 'd' ? "file:dropped" : "file:input", "%s", s.c_str());
    if (idle >= 50) bad("file:stalled", "%zu samples wait, nothing is written and no error reported", left);
    if (!fault) { std::string s = slurp(f); if (err) bad("file:error", "error reported without a fault"); if (consumed != n) bad("file:lost", "%zu of %zu samples consumed", consumed, n); if (s.size() != consumed * sizeof(T) || (s.size() && memcmp(s.data(), d.data(), s.size()))) bad("file:content", "file of %zu bytes differs from the %zu bytes consumed", s.size(), consumed * sizeof(T)); }
    else { if (!err && consumed * sizeof(T) > (fault == 1 ? 0 : lim) + 2 * std::max<size_t>(4096, std::max(bs, dbfmin<T>()) * sizeof(T)) + 8192) bad("file:unreported", "%zu bytes consumed, nothing reported although the device takes %zu", consumed * sizeof(T), fault == 1 ? (size_t)0 : lim); if (fault == 2) { std::string s = slurp(f); if (s.size() > n * sizeof(T) || (s.size() && memcmp(s.data(), d.data(), s.size()))) bad("file:content", "after a write error the file is not a prefix of the stream"); } vmon::stat("write_faults_reported", err); }
    unlink(f.c_str()); vmon::evals(); vmon::stat("samples_checked", (double)consumed); vmon::stat("procedure_calls", (double)calls); if (calls > 1) vmon::nontrivial(vmon::mix(n, calls * 4 + fault)); vmon::sample("%s: %llu calls, %zu consumed", ctx().c_str(), (unsigned long long)calls, consumed);
}
template <class T> void t_source(uint64_t i, Rng& r) {
    size_t cap0 = dbfcap<T>(r), rot0 = r.below(2 * cap0); bool lock = r.chance(1, 4); Pump<T, T> p; p.addout(cap0, rot0); // lock-step: the output is emptied before every call and the file ends where a call does
    size_t n = lock ? p.outs[0]->space() * (1 + r.below(3)) : r.chance(1, 6) ? r.below(3) : r.below(9000), extra = r.chance(1, lock ? 1 : 3) ? r.below(sizeof(T)) : 0; bool rep = r.chance(1, 2), cb = r.chance(3, 4); unsigned fault = r.chance(1, 4) ? 1 + r.below(3) : 0; if (n == 0 && rep) rep = false; std::string f = "source.bin"; auto d = stream<T>(n, 3); { std::ofstream s(f, std::ios::binary); s.write((const char*)d.data(), n * sizeof(T)); for (size_t k = 0; k < extra; ++k) s.put('z'); }
    size_t fb = 0; if (fault == 3) { unlink(f.c_str()); mkdir("source.dir", 0755); f = "source.dir"; } else if (fault) fb = r.below(n * sizeof(T) * 2 + 1); if (fault && fault != 3 && !rep && fb >= n * sizeof(T)) fb = n * sizeof(T) / 2;
    ctx() = vmon::fmt("file source <%zu bytes>, %zu samples + %zu bytes, %s%s", sizeof(T), n, extra, rep ? "repeating" : "once", fault == 3 ? ", directory" : fault ? vmon::fmt(", read error after %zu bytes", fb).c_str() : "");
    eof_calls = 0; struct stat st; stat(f.c_str(), &st); plan = ReadPlan(); plan.ino = st.st_ino; plan.shorts = r.chance(1, 3); plan.r = Rng(r.next()); if (fault && fault != 3) plan.fail_after = (long long)fb; plan.on = true;
    { std::unique_ptr<SourceFileBlock<T>> b; try { b.reset(new SourceFileBlock<T>("b", f.c_str(), rep, cb ? on_eof : nullptr)); } catch (const std::exception& e) { plan.on = false; if (fault != 3) bad("file:open", "constructor failed: %s", e.what()); goto out; }
      size_t cap = cap0; std::vector<T> all; size_t target = rep ? n * 2 + 1 + r.below(3 * n + 1) : n; bool err = false, early = false; uint64_t calls = 0, idle = 0, okidle = 0;
      while (idle < 60 && !err) { size_t m = p.outs[0]->made; bool ok = b->procedure(p.outs[0].get()).is_ok(); calls++; size_t c = p.outs[0]->made - m; if (!ok && c) bad("chunk:error-after-work", "error after emitting"); if (!ok && p.outs[0]->space() > 0) { err = true; } if (c == 0) { idle++; okidle += ok; } else { idle = 0; if (eof_calls) early = true; } if (lock) p.drain(0, SIZE_MAX); else if (r.chance(2, 3)) p.drain(0, Pump<T, T>::slice(r, cap)); if (rep && p.got[0].size() >= target) break; vmon::tick(); }
      p.drain(0, SIZE_MAX); auto& g = p.got[0]; size_t bad_at = SIZE_MAX; for (size_t k = 0; k < g.size() && bad_at == SIZE_MAX; ++k) if (n == 0 || (!rep && k >= n) || memcmp(&g[k], &d[n ? k % n : 0], sizeof(T))) bad_at = k; if (bad_at != SIZE_MAX) bad("file:stream", "sample %zu emitted is not the sample of the file", bad_at);
      bool hit = plan.failed > 0; plan.on = false;
      if (early) bad("file:after-eof", "samples emitted after the end was reported");
      if (fault == 3 || hit) { if (!err) bad("file:read-error", "a read error was not reported (%zu samples emitted, end reported %d times)", g.size(), eof_calls); else if (eof_calls) bad("file:read-error", "a read error was reported as the end of the file"); vmon::stat("read_faults_hit", 1); }
      else { if (rep) { if (g.size() < target) bad("file:repeat", "%zu of %zu samples emitted", g.size(), target); if (eof_calls) bad("file:eof", "end reported while repeating"); } else { if (g.size() != n) bad("file:lost", "%zu of %zu samples emitted", g.size(), n); if (cb && eof_calls != 1) bad("file:eof", "end reported %d times", eof_calls); if (cb && eof_name != f) bad("file:eof", "callback got name '%s'", eof_name.c_str()); } }
      vmon::stat("short_reads", (double)plan.short_reads); vmon::stat("samples_checked", (double)g.size()); vmon::stat("procedure_calls", (double)calls); vmon::nontrivial(vmon::mix(n * 8 + rep, calls * 16 + fault * 4 + extra)); vmon::sample("%s: %llu calls, %zu emitted, end reported %d times", ctx().c_str(), (unsigned long long)calls, g.size(), eof_calls); }
out: plan.on = false; unlink("source.bin"); rmdir("source.dir"); vmon::evals();
}
static void c_file(uint64_t i, Rng& r) { switch (i % 10) { case 0: t_sink<float>(i, r); break; case 1: t_sink<uint8_t>(i, r); break; case 2: t_sink<cf>(i, r); break; case 3: t_sink<S12>(i, r); break; case 4: t_sink<int16_t>(i, r); break; case 5: t_source<float>(i, r); break; case 6: t_source<uint8_t>(i, r); break; case 7: t_source<cf>(i, r); break; case 8: t_source<S12>(i, r); break; default: t_source<int16_t>(i, r); } }

// ---------- C19 throttle on a virtual clock
static void c_throttle(uint64_t i, Rng& r) {
    size_t sps = r.pick({1u, 3u, 50u, 1000u, 44100u, 250000u, 1000000u, 700u, 700000u, 384000u}), n = 200 + r.below(2500), bs = 1 + r.below(2000), cap = 1 + r.below(200); bool exact = r.chance(1, 2), steps = r.chance(1, 3); if (r.chance(1, 4)) cap = 1 + r.below(3); ctx() = vmon::fmt("throttle %zu S/s, buffer %zu, output %zu, %zu samples, %s sleeps%s", sps, bs, cap, n, exact ? "exact" : "overshooting", steps ? ", wall clock being set" : "");
    VClock c; c.r = Rng(r.next()); c.over = exact ? 0 : 3 * 1000000000ll / (long long)sps + 100000; vc = &c; c.on = true; auto now = [&] { return (double)c.ns; };
    ThrottleBlock<float> b("b", sps, bs); auto d = stream<float>(n); for (size_t k = 0; k < n; ++k) d[k] = (float)k; cler::Channel<float> out(cap); double iv = 1e9 / (double)sps; size_t pos = 0, got = 0; std::vector<double> at; double busy = 0; size_t busyn = 0; uint64_t calls = 0, blocked = 0; std::vector<float> o; double t_start = now(); unsigned style = r.below(3);
    while (o.size() < n && calls < 40 * n + 1000) {
        if (style == 0 || r.chance(1, 3)) { size_t k = std::min({style == 0 ? SIZE_MAX : 1 + r.below(60), n - pos, b.in.space()}); b.in.writeN(d.data() + pos, k); pos += k; }
        if (style != 0 && r.chance(1, 20)) c.ns += (long long)(iv * (double)r.below(40));                      // idle time
        if (steps && r.chance(1, 40)) { c.skew = r.chance(1, 4) ? 0 : (r.chance(1, 2) ? -1 : 1) * (long long)r.below(r.pick({1000000ull, 1000000000ull, 3600000000000ull / 4})); vmon::stat("wall_clock_set", 1); }
        bool could = b.in.size() > 0 && out.space() > 0; double t0 = now(); size_t before = out.size(), bi = b.in.size(); size_t fin0 = b.in.size(); (void)fin0; double tin = now(); bool ok = b.procedure(&out).is_ok(); calls++; size_t made = out.size() - before; double dt = now() - t0;
        if (bi - b.in.size() != made) { c.on = false; bad("throttle:conservation", "%zu consumed, %zu delivered", bi - b.in.size(), made); c.on = true; }
        if (could && !made) blocked++; if (could && ok && made) { busy += dt; busyn += made; }
        if (!could && (ok || made) && made) { c.on = false; bad("throttle:invented", "sample delivered without input or space"); c.on = true; }
        for (size_t k = 0; k < made; ++k) at.push_back(tin); 
        if (r.chance(1, 2)) { float t; size_t k = 1 + r.below(5); while (k-- && out.try_pop(t)) o.push_back(t); } got += made;
    }
    double total = now() - t_start; c.on = false; vc = nullptr; (void)total;
    for (size_t k = 0; k < o.size(); ++k) if (o[k] != (float)k) { bad("throttle:stream", "sample %zu delivered is %g", k, o[k]); break; }
    if (o.size() < n) bad("throttle:stalled", "%zu of %zu samples delivered", o.size(), n);
    // rate: k samples need at least (k - burst) intervals, whatever the window
    const size_t burst = 3; double worst = 0; size_t wa = 0, wb = 0; for (size_t a = 0; a < at.size(); ++a) for (size_t q : {4ul, 5ul, 8ul, 20ul, 100ul, 1000ul}) if (a + q < at.size()) { double need = (double)(q + 1 - burst) * iv * 0.998 - 2000, have = at[a + q] - at[a]; if (need - have > worst) worst = need - have, wa = a, wb = a + q; }
    if (worst > 0) bad("throttle:rate", "samples %zu..%zu delivered %.0f ns too fast for %zu S/s", wa, wb, worst, sps);
    if (exact && busyn > 20) { double per = busy / (double)busyn; if (per > iv * 1.05 + 3000) bad("throttle:slow", "%.0f ns per sample while input and space were available, %.0f configured", per, iv); }
    vmon::evals(); vmon::stat("samples_checked", (double)o.size()); vmon::stat("sleeps_observed", (double)c.sleeps); vmon::nontrivial(vmon::mix(sps * 4096 + n, calls)); vmon::sample("%s: %llu calls, %lld sleeps, %.3f s of virtual time", ctx().c_str(), (unsigned long long)calls, c.sleeps, total / 1e9);
}

// ---------- C20 noise
template <class T, class S> void t_noise(uint64_t i, Rng& r) {
    size_t n = 60000 + r.below(20000), bs = r.chance(1, 3) ? 0 : anycap<T>(r); double sd = r.pick({0.0, 1.0, 0.05, 3.0}); ctx() = vmon::fmt("noise<%zu bytes> stddev %g, buffer %zu, %zu samples", sizeof(T), sd, bs, n);
    NoiseAWGNBlock<T> b("b", (S)sd, bs); std::vector<T> d(n); bool quiet = r.chance(1, 2); if (!quiet) for (size_t k = 0; k < n; ++k) { d[k] = val<T>(k) ; d[k] *= (S)(1.0 / 16); }
    Pump<T, T> p; p.ins.push_back({&b.in, &d}); size_t cap = bs && bs < 20 ? 20 + r.below(200) : anycap<T>(r) + 30; p.addout(cap, r.below(cap)); p.call = [&] { return b.procedure(p.outs[0].get()); }; p.each = one2one(); p.run(r, "noise:stalled", [&] { return p.got[0].size() >= n; }); for (int k = 0; k < 3; ++k) p.step_call(); p.drain(0, SIZE_MAX); auto& g = p.got[0]; if (g.size() != n) { bad("noise:count", "%zu samples in, %zu out", n, g.size()); return; }
    constexpr int C = sizeof(T) / sizeof(S); std::vector<double> x[2]; for (size_t k = 0; k < n; ++k) { if constexpr (C == 2) { x[0].push_back((double)g[k].real() - (double)d[k].real()); x[1].push_back((double)g[k].imag() - (double)d[k].imag()); } else x[0].push_back((double)g[k] - (double)d[k]); }
    if (sd == 0) { for (size_t k = 0; k < n; ++k) if (memcmp(&g[k], &d[k], sizeof(T)) && g[k] != d[k]) { bad("noise:zero", "sample %zu changed with zero noise", k); break; } }
    else {
        double N = (double)n, z = 7; 
        for (int c = 0; c < C; ++c) { auto& v = x[c]; double m = 0, s2 = 0, s4 = 0, mx = 0; size_t i1 = 0, i2 = 0; for (double& q : v) { q /= sd; m += q; } m /= N; for (double q : v) { double e = q - m; s2 += e * e; s4 += e * e * e * e; mx = std::max(mx, std::fabs(q)); i1 += std::fabs(q) < 1; i2 += std::fabs(q) < 2; } s2 /= N; s4 /= N;
            double rnd = sizeof(S) == 4 ? 1e-4 / sd : 1e-9; // rounding of the additions
            if (std::fabs(m) > z / std::sqrt(N) + rnd) bad("noise:mean", "mean %.5f standard deviations", m); if (std::fabs(std::sqrt(s2) - 1) > z / std::sqrt(2 * N) + rnd) bad("noise:stddev", "standard deviation is %.4f times the configured one", std::sqrt(s2)); if (std::fabs(s4 / (s2 * s2) - 3) > z * std::sqrt(96 / N)) bad("noise:shape", "kurtosis %.3f", s4 / (s2 * s2));
            if (std::fabs(i1 / N - 0.682689) > z * std::sqrt(0.2166 / N) || std::fabs(i2 / N - 0.9545) > z * std::sqrt(0.0434 / N)) bad("noise:shape", "%.4f within one, %.4f within two deviations", i1 / N, i2 / N); if (mx > 7.5) bad("noise:shape", "a sample is %.1f deviations out", mx);
            std::vector<size_t> lags; for (size_t l = 1; l <= 24; ++l) lags.push_back(l); for (size_t l : {bs, cap, (size_t)512, (size_t)1024, (size_t)4096, 4096 / sizeof(T), (size_t)624}) if (l > 24 && l < n / 2) lags.push_back(l);
            for (size_t l : lags) { double a = 0; for (size_t k = 0; k + l < n; ++k) a += (v[k] - m) * (v[k + l] - m); a /= s2 * (double)(n - l); if (std::fabs(a) > z / std::sqrt((double)(n - l))) { bad("noise:correlated", "correlation %.4f at lag %zu", a, l); break; } }
            size_t dup = 0; std::vector<double> srt(v); std::sort(srt.begin(), srt.end()); for (size_t k = 1; k < n; ++k) dup += srt[k] == srt[k - 1]; if (sizeof(S) == 8 && dup > 50) bad("noise:repeats", "%zu noise values occur more than once", dup); }
        if (C == 2) { double a = 0; for (size_t k = 0; k < n; ++k) a += x[0][k] * x[1][k]; a /= N; if (std::fabs(a) > z / std::sqrt(N)) bad("noise:iq", "real and imaginary noise correlate (%.4f)", a); a = 0; for (size_t k = 0; k + 1 < n; ++k) a += x[1][k] * x[0][k + 1]; a /= N; if (std::fabs(a) > z / std::sqrt(N)) bad("noise:iq", "imaginary noise predicts the next real noise (%.4f)", a); }
        if (quiet) { size_t eq = 0; for (int c = 0; c < C; ++c) for (size_t k = 0; k + 1 < n; ++k) eq += x[c][k] == x[c][k + 1]; if (C == 2) for (size_t k = 0; k + 1 < n; ++k) eq += (x[0][k] == x[1][k]) + (x[1][k] == x[0][k + 1]); if (eq > 12) bad("noise:repeats", "%zu pairs of neighbouring noise values are equal", eq); }   // on silence the noise is seen unrounded
        // a second block of the same parameters must not replay the same noise
        NoiseAWGNBlock<T> b2("c", (S)sd, 0); MonChan<T> o2(4096, 0); size_t m2 = std::min<size_t>({b2.in.space(), 200}); b2.in.writeN(d.data(), m2); b2.procedure(&o2); std::vector<T> g2(o2.ch.size()); o2.ch.readN(g2.data(), g2.size()); size_t eq = 0; for (size_t k = 0; k < g2.size(); ++k) eq += g2[k] == g[k]; if (g2.size() > 50 && eq > g2.size() / 2) bad("noise:replay", "two blocks produced the same noise");
    }
    finish(p, i, "noise");
}
static void c_noise(uint64_t i, Rng& r) { switch (i % 4) { case 0: t_noise<float, float>(i, r); break; case 1: t_noise<cf, float>(i, r); break; case 2: t_noise<double, double>(i, r); break; default: t_noise<cd, double>(i, r); } }
int main(int argc, char** argv) { return vmon::run(argc, argv, {{"arith", c_arith}, {"gen", c_gen}, {"file", c_file}, {"throttle", c_throttle}, {"noise", c_noise}}); }
