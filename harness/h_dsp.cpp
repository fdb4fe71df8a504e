// Direct-drive monitors for the liquid-dsp blocks (C16): every slicing against the same operation on the whole stream.
#include "pump.hpp"
#include "liquid.h"
#include "filters/kaiser_lpf.hpp"
#include "resamplers/multistage_resampler.hpp"
#include "channelizers/polyphase_channelizer.hpp"
#include "fm/fm_demod.hpp"
using namespace pump;
using L = liquid_float_complex;
static cf nrm(Rng& r) { return {(float)r.real(-1, 1), (float)r.real(-1, 1)}; }
template <class T> std::vector<T> noise(Rng& r, size_t n) { std::vector<T> v(n); for (auto& x : v) { if constexpr (std::is_same_v<T, float>) x = (float)r.real(-1, 1); else x = nrm(r); } return v; }
template <class T> void check(const std::vector<T>& got, const std::vector<T>& ref, const char* what) {
    double mx = 1e-6; for (auto& x : ref) mx = std::max(mx, (double)std::abs(x));
    size_t n = std::min(got.size(), ref.size());
    for (size_t i = 0; i < n; ++i) if (!(std::abs(got[i] - ref[i]) <= 2e-5 * mx)) { bad("dsp:value", "%s: sample %zu of %zu differs from the whole-stream result by %g (scale %g)", what, i, ref.size(), (double)std::abs(got[i] - ref[i]), mx); return; }
    if (got.size() < ref.size()) bad("dsp:lost", "%s: %zu samples out, the whole stream gives %zu", what, got.size(), ref.size());
    if (got.size() > ref.size()) bad("dsp:extra", "%s: %zu samples out, the whole stream gives %zu", what, got.size(), ref.size());
}
template <class P> void finish(P& p, const char* name) { vmon::evals(); vmon::stat("procedure_calls", (double)p.calls); uint64_t n = 0; for (auto& g : p.got) n += g.size(); vmon::stat("samples_checked", (double)n); if (p.worked > 1 && p.worked < p.calls) vmon::nontrivial(vmon::mix(p.sig, name[0])); vmon::sample("%s: %llu calls, %llu moved samples, %llu samples checked", ctx().c_str(), (unsigned long long)p.calls, (unsigned long long)p.worked, (unsigned long long)n); }
template <class P> void tail(P& p) { for (int k = 0; k < 5; ++k) { p.step_call(); for (size_t i = 0; i < p.outs.size(); ++i) p.drain(i, SIZE_MAX); } }
template <class TI, class TO> void reach(Pump<TI, TO>& p, Rng& r, size_t n, size_t m) { p.run(r, "dsp:stalled", [&p, n, m] { if (p.ins[0].pos < n) return false; for (auto& g : p.got) if (g.size() < m) return false; return true; }); tail(p); }

template <class T> void t_lpf(Rng& r) {
    double fs = r.pick({1.0, 48000.0, 2e6}), fc = fs * r.real(0.01, 0.48), att = r.pick({20.0, 40.0, 60.0, 83.5}); double tb = fs * r.real(0.005, 0.2); unsigned order = (unsigned)std::ceil(att / (22.0f * (float)(tb / fs)));
    while (order < 5) { tb /= 2; order = (unsigned)std::ceil(att / (22.0f * (float)(tb / fs))); }
    if (order % 2 == 0) order++;
    size_t n = 1000 + r.below(8000), bs = r.chance(1, 2) ? 0 : widecap<T>(r); n = grown<T>(n, bs); ctx() = vmon::fmt("low-pass <%zu bytes> cutoff %.3f width %.3f of rate, %g dB, order %u, buffer %zu, %zu samples", sizeof(T), fc / fs, tb / fs, att, order, bs, n);
    KaiserLPFBlock<T> b("b", fs, fc, tb, att, bs); auto d = noise<T>(r, n); std::vector<T> ref(n);
    if constexpr (std::is_same_v<T, float>) { auto q = firfilt_rrrf_create_kaiser(order, (float)(fc / fs), (float)att, 0); for (size_t i = 0; i < n; ++i) { firfilt_rrrf_push(q, d[i]); firfilt_rrrf_execute(q, &ref[i]); } firfilt_rrrf_destroy(q); }
    else { auto q = firfilt_crcf_create_kaiser(order, (float)(fc / fs), (float)att, 0); for (size_t i = 0; i < n; ++i) { firfilt_crcf_push(q, d[i]); firfilt_crcf_execute(q, &ref[i]); } firfilt_crcf_destroy(q); }
    Pump<T, T> p; p.ins.push_back({&b.in, &d}); size_t cap = wide<T>(bs) ? bs : dbfcap<T>(r); p.addout(cap, r.below(2 * cap)); p.call = [&] { return b.procedure(p.outs[0].get()); };
    p.each = [&](auto& c, auto& q, bool) { if (c[0] != q[0]) bad("chunk:unequal", "%zu samples consumed, %zu emitted", c[0], q[0]); };
    reach(p, r, n, n); check(p.got[0], ref, "filter"); finish(p, "lpf");
}
template <class T> void t_resamp(Rng& r) {
    double x = r.unit(); float ratio = x < 0.25 ? (float)r.pick({0.5, 1.0, 2.0, 0.25, 4.0, 0.1, 10.0}) : x < 0.6 ? (float)r.real(0.02, 1.0) : x < 0.9 ? (float)r.real(1.0, 9.0) : (float)r.real(20, 300); float att = (float)r.pick({40.0, 60.0, 80.0});
    size_t n = ratio > 15 ? 60 + r.below(1500) : 1000 + r.below(9000), bs = r.chance(1, 2) ? 0 : ratio < 4 ? widecap<T>(r) : dbfcap<T>(r); n = grown<T>(n, bs); ctx() = vmon::fmt("resampler <%zu bytes> ratio %.5f, %g dB, buffer %zu, %zu samples", sizeof(T), ratio, att, bs, n);
    MultiStageResamplerBlock<T> b("b", ratio, att, bs); auto d = noise<T>(r, n); std::vector<T> ref((size_t)(n * ratio) + 8 * (size_t)std::ceil(ratio) + 1000); unsigned m = 0, k = 0;
    if constexpr (std::is_same_v<T, float>) { auto q = msresamp_rrrf_create(ratio, att); for (size_t i = 0; i < n; ++i) { msresamp_rrrf_execute(q, &d[i], 1, ref.data() + m, &k); m += k; } msresamp_rrrf_destroy(q); }
    else { auto q = msresamp_crcf_create(ratio, att); for (size_t i = 0; i < n; ++i) { msresamp_crcf_execute(q, (L*)&d[i], 1, (L*)ref.data() + m, &k); m += k; } msresamp_crcf_destroy(q); }
    ref.resize(m);
    Pump<T, T> p; p.ins.push_back({&b.in, &d}); size_t cap = wide<T>(bs) ? bs : anycap<T>(r); p.addout(cap, r.below(2 * cap)); p.call = [&] { return b.procedure(p.outs[0].get()); };
    reach(p, r, n, ref.size()); if (b.in.size()) bad("dsp:stalled", "%zu samples left in the input", b.in.size()); check(p.got[0], ref, "resampler"); vmon::statmax("largest_ratio", ratio); finish(p, "resamp");
}
template <size_t... I> Res callN(PolyphaseChannelizerBlock& b, Pump<cf, cf>& p, std::index_sequence<I...>) { return b.procedure((cler::ChannelBase<cf>*)p.outs[I].get()...); }
template <size_t N> void t_chan(Rng& r) {
    size_t frames = 300 + r.below(3000), n = frames * N + r.below(N), semi = 1 + r.below(8); float att = (float)r.pick({40.0, 60.0, 80.0}); size_t bs = r.chance(1, 2) ? 0 : (widecap<cf>(r) / N + 1) * N; if (wide<cf>(bs)) { frames = std::max(frames, bs / N * 5 / 4); n = frames * N + r.below(N); } ctx() = vmon::fmt("channelizer %zu ways, semilength %zu, %g dB, buffer %zu, %zu samples", N, semi, att, bs, n);
    PolyphaseChannelizerBlock b("b", N, att, semi, bs); auto d = noise<cf>(r, n); std::vector<std::vector<cf>> ref(N, std::vector<cf>(frames)); auto q = firpfbch_crcf_create_kaiser(LIQUID_ANALYZER, N, semi, att); std::vector<cf> t(N);
    for (size_t f = 0; f < frames; ++f) { std::vector<cf> x(d.begin() + f * N, d.begin() + (f + 1) * N); firpfbch_crcf_analyzer_execute(q, (L*)x.data(), (L*)t.data()); for (size_t c = 0; c < N; ++c) ref[c][f] = t[c]; } firpfbch_crcf_destroy(q);
    Pump<cf, cf> p; p.ins.push_back({&b.in, &d}); for (size_t c = 0; c < N; ++c) { size_t cap = wide<cf>(bs) ? bs : dbfcap<cf>(r); p.addout(cap, r.below(2 * cap)); } p.call = [&] { return callN(b, p, std::make_index_sequence<N>{}); };
    p.each = [&](auto& c, auto& o, bool) { for (auto v : o) if (v * N != c[0]) { bad("chunk:unequal", "%zu samples consumed, %zu emitted on one of %zu channels", c[0], v, N); return; } };
    reach(p, r, n, frames); if (b.in.size() != n - frames * N) bad("dsp:lost", "%zu samples left in the input, %zu expected", b.in.size(), n - frames * N); for (size_t c = 0; c < N; ++c) check(p.got[c], ref[c], vmon::fmt("channel %zu", c).c_str()); finish(p, "chan");
}
static void t_fm(Rng& r) {
    double fs = r.chance(1, 3) ? r.real(10, 1e6) : r.pick({48000.0, 250000.0, 2e6}), dev = fs * r.real(0.02, 0.45); size_t n = 1000 + r.below(9000), bs = r.chance(1, 2) ? 0 : widecap<cf>(r); n = grown<cf>(n, bs); ctx() = vmon::fmt("FM demodulator deviation %.4f of rate, buffer %zu, %zu samples", dev / fs, bs, n); FMDemodBlock b("b", fs, dev, bs);
    std::vector<cf> d(n); double ph = r.real(0, 6), A = r.pick({1.0, 0.1, 50.0}); std::vector<double> dphi(n, 0); for (size_t i = 0; i < n; ++i) { dphi[i] = r.real(-2.9, 2.9); ph = std::remainder(ph + dphi[i], 2 * M_PI); d[i] = cf(std::polar(A, ph)); }
    std::vector<float> ref(n); auto q = freqdem_create((float)(dev / fs)); for (size_t i = 0; i < n; ++i) freqdem_demodulate(q, d[i], &ref[i]); freqdem_destroy(q);
    Pump<cf, float> p; p.ins.push_back({&b.in, &d}); size_t cap = wide<cf>(bs) ? bs : dbfcap<float>(r); p.addout(cap, r.below(2 * cap)); p.call = [&] { return b.procedure(p.outs[0].get()); };
    p.each = [&](auto& c, auto& o, bool) { if (c[0] != o[0]) bad("chunk:unequal", "%zu samples consumed, %zu emitted", c[0], o[0]); };
    reach(p, r, n, n); check(p.got[0], ref, "demodulator");
    for (size_t i = 1; i < p.got[0].size() && i < n; ++i) { double e = dphi[i] / (2 * M_PI * dev / fs); if (!(std::fabs(p.got[0][i] - e) <= 1e-2 * (1 + std::fabs(e)))) { bad("dsp:fm", "sample %zu is %g, the phase step of the input says %g", i, p.got[0][i], e); break; } }
    finish(p, "fm");
}
static void c_dsp(uint64_t i, Rng& r) { switch (i % 12) { case 0: t_lpf<float>(r); break; case 1: t_lpf<cf>(r); break; case 2: case 3: t_resamp<float>(r); break; case 4: case 5: t_resamp<cf>(r); break; case 6: t_fm(r); break; case 7: t_chan<2>(r); break; case 8: t_chan<3>(r); break; case 9: t_chan<4>(r); break; case 10: t_chan<5>(r); break; default: t_chan<8>(r); } }
// liquid-dsp itself leaks this object while designing some filters
extern "C" const char* __lsan_default_suppressions() { return "leak:qs1dsearch_create\n"; }
int main(int argc, char** argv) { return vmon::run(argc, argv, {{"dsp", c_dsp}}, 60); }
