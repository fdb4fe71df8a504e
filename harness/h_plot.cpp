// Plot blocks: what reaches the plotting library compared with the samples that went in (C34).
#include "vmon.hpp"
#include "imgui.h"
#include "implot.h"
#include "cler.hpp"
#include "plots/plot_timeseries.hpp"
#include "plots/plot_cspectrum.hpp"
#include "plots/plot_cspectrogram.hpp"
#include <memory>
#include <cmath>
#include <complex>
#include <deque>
using vmon::Rng; using std::string; using std::vector; typedef std::complex<float> cf; typedef std::complex<double> cd;
extern "C" const char* __lsan_default_suppressions() { return "leak:qs1dsearch_create\nleak:libfftw3f\n"; }
static string CTX; static const bool ctx_named = (vmon::ctxp() = &CTX, true);
#define bad(key, ...) vmon::violation(key, "%s", (CTX + ": " + vmon::fmt(__VA_ARGS__)).c_str())
static vector<string> labels(size_t n) { vector<string> v; for (size_t k = 0; k < n; ++k) v.push_back("signal " + std::to_string(k)); return v; }
static void begin() { auto& s = implotstub::st(); s = implotstub::State(); auto& i = imstub::st(); i.button = false; i.slide = false; i.open = 0; }
static void balance(const char* what) { auto& s = implotstub::st(); if (imstub::st().open) bad("plot:balance", "%s left %d windows open", what, imstub::st().open); if (s.open) bad("plot:balance", "%s left %d plots open", what, s.open); if (s.colormaps) bad("plot:balance", "%s left %d colour maps", what, s.colormaps); imstub::st().open = 0; s.open = s.colormaps = 0; }

// ---------------- time series: sample q of signal k has the value 8 q + k
struct Line { string label; vector<float> x, y; };
static void c_series(uint64_t i, Rng& r) {
    begin(); size_t n = 1 + r.below(4), sps = r.chance(1, 4) ? 1 + r.below(10) : 100 + r.below(60000); float dur = (float)r.real(0.001, 0.4); if (r.chance(1, 6)) dur = (float)(1024.0 / (double)sps * r.real(0.9, 1.1)); if (sps < 100) dur = (float)r.real(0.1, 30); 
    CTX = vmon::fmt("%zu signals, %zu samples/s, %g s", n, sps, dur); PlotTimeSeriesBlock b("series", labels(n), sps, dur); if (r.chance(1, 2)) b.set_initial_window(10, 10, 100, 100);
    double want = std::max(1024.0, (double)sps * (double)dur); vector<size_t> sent(n, 0); size_t done = 0, cap = 0, shown_upto = 0; bool paused = false, drawn = false; vector<Line> frozen; uint64_t sig = vmon::mix(n, sps);
    auto value = [](size_t q, size_t k) { return (float)((q * 8 + k) & 0xFFFFFF); };
    bool fill = r.chance(1, 3); size_t rounds = 4 + r.below(40);
    for (size_t q = 0; q < rounds; ++q) {
        unsigned op = (unsigned)r.below(6);
        if (op < 3) { size_t same = r.chance(1, 2) ? r.below(3000) : 0; for (size_t k = 0; k < n; ++k) { size_t c = fill && r.chance(2, 3) ? SIZE_MAX : same ? same : r.chance(1, 5) ? 0 : r.below(2500); c = std::min(c, b.in[k].space()); vector<float> v(c); for (size_t j = 0; j < c; ++j) v[j] = value(sent[k] + j, k); if (c) { size_t w = b.in[k].writeN(v.data(), c); if (w != c) bad("plot:consume", "channel took %zu of %zu", w, c); } sent[k] += c; vmon::stat("samples", (double)c); } }
        else if (op < 5) { size_t avail = SIZE_MAX; vector<size_t> before(n); for (size_t k = 0; k < n; ++k) { before[k] = b.in[k].size(); avail = std::min(avail, before[k]); } auto res = b.procedure(); if (paused) { for (size_t k = 0; k < n; ++k) if (b.in[k].size() != before[k]) bad("plot:pause", "a paused plot took samples"); if (res.is_err()) bad("plot:pause", "a paused plot reports an error"); }
            else if (!avail) { if (!res.is_err() || res.unwrap_err() != cler::Error::NotEnoughSamples) bad("plot:result", "no samples on some input, but no such report"); for (size_t k = 0; k < n; ++k) if (b.in[k].size() != before[k]) bad("plot:consume", "samples taken without partners"); }
            else { if (res.is_err()) bad("plot:result", "error %s with %zu samples", cler::to_str(res.unwrap_err()), avail); size_t took = before[0] - b.in[0].size(); for (size_t k = 0; k < n; ++k) if (before[k] - b.in[k].size() != took) bad("plot:consume", "took %zu samples of signal 0 and %zu of signal %zu", took, before[k] - b.in[k].size(), k); if (!took || took > avail) bad("plot:consume", "took %zu of %zu", took, avail); done += took; sig = vmon::mix(sig, took); } vmon::stat("calls", 1); }
        else { vector<Line> L; auto& s = implotstub::st(); s.line = [&](const char* l, const float* x, const float* y, int c) { L.push_back({l, vector<float>(x, x + c), vector<float>(y, y + c)}); }; s.show = !r.chance(1, 8); bool press = imstub::st().button = r.chance(1, 6); uint64_t wins = imstub::st().windows; b.render(); s.line = nullptr; balance("render"); bool window = imstub::st().windows != wins; vmon::stat("renders", 1); 
            if (press && window) paused = !paused; if (done && !window) bad("plot:missing", "%zu samples, but nothing drawn", done); if (!window) { if (!L.empty()) bad("plot:missing", "lines outside a window"); continue; } if (!s.show) { if (!L.empty()) bad("plot:hidden", "lines drawn into a hidden plot"); shown_upto = done; continue; }
            if (L.size() != n) { bad("plot:missing", "%zu lines for %zu signals", L.size(), n); continue; }
            for (size_t k = 0; k < n; ++k) { auto& l = L[k]; if (l.label != "signal " + std::to_string(k)) bad("plot:label", "signal %zu is drawn as %s", k, l.label.c_str()); size_t c = l.x.size(); if (c > done) { bad("plot:count", "%zu points of %zu samples", c, done); break; } if (done > c && !cap) { cap = c; if (std::fabs((double)cap - want) > 1 + want * 1e-5) bad("plot:count", "holds %zu samples, %g expected", cap, want); } if (cap && c != std::min(done, cap)) bad("plot:count", "%zu points, %zu expected (%zu samples, room for %zu)", c, std::min(done, cap), done, cap); size_t first = done - c; for (size_t j = 0; j < c; ++j) if (l.y[j] != value(first + j, k)) { bad("plot:value", "signal %zu, point %zu of %zu (sample %zu): %g, expected %g", k, j, c, first + j, (double)l.y[j], (double)value(first + j, k)); break; } for (size_t j = 0; j < c; ++j) { double t = (double)(first + j) / (double)sps; if (std::fabs(l.x[j] - t) > 1e-6 * t + 1e-12) { bad("plot:time", "signal %zu, point %zu (sample %zu): time %.9g, expected %.9g", k, j, first + j, (double)l.x[j], t); break; } } vmon::stat("points", (double)c); }
            drawn = true; shown_upto = done; vmon::evals(); }
    }
    (void)drawn; (void)shown_upto; (void)frozen; if (done) vmon::nontrivial(vmon::mix(sig, done)); vmon::tick(); (void)i;
}
// a thread feeding and running the block, another drawing
template <class B> static void feed(B& b, size_t n, std::atomic<bool>& stop, uint64_t seed, const std::function<void(size_t, size_t, size_t)>& put, std::atomic<size_t>& calls) { Rng r(seed); vector<size_t> sent(n, 0); while (!stop) { for (size_t k = 0; k < n; ++k) { size_t c = std::min<size_t>(b.in[k].space(), r.below(900)); put(k, sent[k], c); sent[k] += c; } b.procedure(); calls++; if (r.chance(1, 8)) std::this_thread::yield(); } }
static void c_series_mt(uint64_t, Rng& r) {
    begin(); size_t n = 1 + r.below(3); CTX = vmon::fmt("%zu signals, drawing during the run", n); const size_t sps = 1000; PlotTimeSeriesBlock b("series", labels(n), sps, (float)r.real(0.5, 4)); std::atomic<bool> stop{false}; std::atomic<size_t> calls{0}; uint64_t seed = r.next();
    std::thread t([&] { vector<float> v; feed(b, n, stop, seed, [&](size_t k, size_t at, size_t c) { v.resize(c); for (size_t j = 0; j < c; ++j) v[j] = (float)((at + j) % 4000000); b.in[k].writeN(v.data(), c); }, calls); });
    uint64_t sig = 0; size_t draws = 0; vector<double> last; auto& s = implotstub::st(); size_t lines = 0; s.line = [&](const char*, const float* x, const float* y, int c) { lines++; double base = y[0]; for (int j = 0; j < c; ++j) { double e = base + j; if (e >= 4000000) e -= 4000000; if (y[j] != e) { bad("plot:torn", "point %d of %d is sample %g, expected %g", j, c, (double)y[j], e); return; } } double q = (double)x[0] * sps; double off = q - base; off -= std::round(off / 4000000.0) * 4000000.0; if (std::fabs(off) > 1 + q * 2e-7) { bad("plot:torn", "sample %g has the time stamp of sample %g", base, q); return; } for (int j = 1; j < c; ++j) if (x[j] < x[j - 1]) { bad("plot:torn", "time goes back at point %d", j); return; } sig = vmon::mix(sig, (uint64_t)base * 4096 + (uint64_t)c); };
    auto t0 = std::chrono::steady_clock::now(); while (draws < 400 && std::chrono::steady_clock::now() - t0 < std::chrono::milliseconds(150)) { imstub::st().button = r.chance(1, 50); b.render(); balance("render"); draws++; if (imstub::st().button) { imstub::st().button = true; b.render(); } if (r.chance(1, 3)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(300))); }
    stop = true; t.join(); s.line = nullptr; vmon::stat("renders", (double)draws); vmon::stat("lines", (double)lines); vmon::stat("calls", (double)calls.load()); if (lines) vmon::nontrivial(sig); vmon::evals(); vmon::tick();
}
// ---------------- spectra
static double win(SpectralWindow w, double x) { const double P = 2 * M_PI * x; switch (w) { case SpectralWindow::BlackmanHarris: return 0.35875 - 0.48829 * std::cos(P) + 0.14128 * std::cos(2 * P) - 0.01168 * std::cos(3 * P); case SpectralWindow::Hamming: return 0.54 - 0.46 * std::cos(P); case SpectralWindow::Hann: return 0.5 - 0.5 * std::cos(P); case SpectralWindow::Rectangular: return 1; case SpectralWindow::FlatTop: return 1 - 1.93 * std::cos(P) + 1.29 * std::cos(2 * P) - 0.388 * std::cos(3 * P) + 0.0322 * std::cos(4 * P); case SpectralWindow::Kaiser: { double t = 2 * x - 1; return std::cyl_bessel_i(0, 8.6 * std::sqrt(std::max(0.0, 1 - t * t))) / std::cyl_bessel_i(0, 8.6); } } return 0; }
// power spectrum of a block of samples, lowest frequency first, normalised so that a full-scale tone has power 1; also the error scale
static vector<double> spectrum(const vector<cf>& v, SpectralWindow w, double& scale_err) { size_t n = v.size(); vector<cd> a(n); double g = 0, rms = 0; for (size_t k = 0; k < n; ++k) { double c = win(w, (double)k / (double)(n - 1)); g += c; a[k] = cd(v[k].real(), v[k].imag()) * c; rms += std::abs(v[k]); } vector<double> p(n); vector<cd> tw(n); for (size_t k = 0; k < n; ++k) tw[k] = std::polar(1.0, -2 * M_PI * (double)k / (double)n); for (size_t f = 0; f < n; ++f) { cd s = 0; for (size_t k = 0; k < n; ++k) s += a[k] * tw[f * k % n]; p[(f + n / 2) % n] = std::norm(s) / (g * g); } scale_err = rms * rms / (g * g); return p; }
static const SpectralWindow WINS[] = {SpectralWindow::BlackmanHarris, SpectralWindow::Hamming, SpectralWindow::Hann, SpectralWindow::Rectangular, SpectralWindow::Kaiser, SpectralWindow::FlatTop};
struct Signal { double f, a, noise; uint64_t s; int kind; double dc; }; 
static cf sample_of(const Signal& g, size_t q) { if (g.kind == 3) return cf(0, 0); if (g.kind == 2) { uint64_t h = vmon::mix(g.s, q / 400); return q % 400 == h % 400 ? cf((float)g.a, 0) : cf(0, 0); } cd v = std::polar(g.a, 2 * M_PI * g.f * (double)q); uint64_t h = vmon::mix(g.s, q); v += g.noise * cd((double)(h & 0xFFFFFF) / 8388608.0 - 1, (double)(h >> 40) / 8388608.0 - 1); return cf(v); }
static Signal signal(Rng& r) { return {r.real(-0.5, 0.5), std::pow(10, r.real(-3, 2)), std::pow(10, r.real(-6, 0)), r.next(), (int)r.below(4), 0}; }
// levels compared in power with an allowance for single precision
static bool level(double got, double p, double err) { double tol = 3e-5 * p + 1e-11 * err + 6e-6 * std::sqrt(p * err) + 1e-20, g = std::pow(10, got / 10); (void)err; return std::isfinite(got) && g - 1e-20 <= p + tol + 4e-5 * g && g + 1e-21 >= p - tol - 4e-5 * g; }
static size_t fft_len(Rng& r) { return r.chance(1, 3) ? 4 + 2 * r.below(40) : r.chance(1, 2) ? (size_t)4 << r.below(8) : 100 + 2 * r.below(150); }
static void c_spectrum(uint64_t i, Rng& r) {
    begin(); size_t n = 1 + r.below(3), N = fft_len(r), sps = 1 + r.below(4000000); SpectralWindow w = WINS[r.below(6)]; CTX = vmon::fmt("spectrum of %zu signals, %zu points, window %d, %zu samples/s", n, N, (int)w, sps); PlotCSpectrumBlock b("spectrum", labels(n), sps, N, w); vector<Signal> g; for (size_t k = 0; k < n; ++k) g.push_back(signal(r));
    vector<size_t> sent(n, 0); size_t done = 0; bool paused = false, first = true; float alpha = 0.7f; vector<vector<double>> avg(n, vector<double>(N)); vector<vector<double>> got_prev(n); uint64_t sig = vmon::mix(N, n * 8 + (int)w); bool small = r.chance(1, 4), big = r.chance(1, 4);
    for (size_t q = 0, rounds = 4 + r.below(24); q < rounds; ++q) { unsigned op = (unsigned)r.below(5);
        if (op < 2) for (size_t k = 0; k < n; ++k) { size_t c = std::min<size_t>(b.in[k].space(), big ? SIZE_MAX : small ? r.below(N) : r.chance(1, 8) ? SIZE_MAX : r.below(3 * N)); vector<cf> v(c); for (size_t j = 0; j < c; ++j) v[j] = sample_of(g[k], sent[k] + j); if (c) b.in[k].writeN(v.data(), c); sent[k] += c; vmon::stat("samples", (double)c); }
        else if (op < 3) { size_t avail = SIZE_MAX; vector<size_t> before(n); for (size_t k = 0; k < n; ++k) { before[k] = b.in[k].size(); avail = std::min(avail, before[k]); } auto res = b.procedure(); size_t took = before[0] - b.in[0].size(); for (size_t k = 0; k < n; ++k) if (before[k] - b.in[k].size() != took) bad("plot:consume", "took %zu samples of signal 0 and %zu of signal %zu", took, before[k] - b.in[k].size(), k); if (paused ? took != 0 : avail ? !took || took > avail || res.is_err() : took || !res.is_err()) bad(paused ? "plot:pause" : "plot:consume", "took %zu of %zu samples, error %d", took, avail, res.is_err()); done += took; sig = vmon::mix(sig, took); vmon::stat("calls", 1); }
        else { vector<Line> L; auto& s = implotstub::st(); s.line = [&](const char* l, const float* x, const float* y, int c) { L.push_back({l, vector<float>(x, x + c), vector<float>(y, y + c)}); }; s.show = !r.chance(1, 8); bool press = imstub::st().button = r.chance(1, 6); imstub::st().slide = false; if (r.chance(1, 3)) { imstub::st().slide = true; imstub::st().slider = r.chance(1, 4) ? 1.f : r.chance(1, 3) ? 0.f : (float)r.unit(); } b.render(); s.line = nullptr; balance("render"); vmon::stat("renders", 1);
            if (done < N) { if (!L.empty()) bad("plot:early", "a spectrum of %zu points after %zu samples", N, done); continue; } if (press) paused = !paused; if (imstub::st().slide) alpha = imstub::st().slider; if (!s.show) { if (!L.empty()) bad("plot:hidden", "lines drawn into a hidden plot"); continue; } if (L.size() != n) { bad("plot:missing", "%zu lines for %zu signals", L.size(), n); continue; }
            for (size_t k = 0; k < n; ++k) { auto& l = L[k]; if (l.label != "signal " + std::to_string(k)) bad("plot:label", "signal %zu is drawn as %s", k, l.label.c_str()); if (l.x.size() != N) { bad("plot:count", "%zu points, expected %zu", l.x.size(), N); continue; } for (size_t j = 0; j < N; ++j) { double f = ((double)j / (double)N - 0.5) * (double)sps; if (std::fabs(l.x[j] - f) > 1e-6 * (double)sps) { bad("plot:frequency", "point %zu at %g Hz, expected %g", j, (double)l.x[j], f); break; } }
                vector<cf> v(N); for (size_t j = 0; j < N; ++j) v[j] = sample_of(g[k], done - N + j); double err; auto p = spectrum(v, w, err); 
                if (first || got_prev[k].empty()) { for (size_t j = 0; j < N; ++j) if (!level(l.y[j], p[j], err)) { bad("plot:level", "signal %zu, point %zu: %g dB, expected %g (samples up to %zu)", k, j, (double)l.y[j], 10 * std::log10(p[j] + 1e-20), done); break; } }
                else for (size_t j = 0; j < N; ++j) { // the level of the newest block implied by the average
                    double now = 10 * std::log10(p[j] + 1e-20), e = alpha * now + (1 - (double)alpha) * got_prev[k][j]; double lo = 10 * std::log10(std::max(0.0, p[j] - 3e-5 * p[j] - 1e-11 * err - 6e-6 * std::sqrt(p[j] * err)) + 1e-20), hi = 10 * std::log10(p[j] * (1 + 3e-5) + 1e-11 * err + 6e-6 * std::sqrt(p[j] * err) + 1e-20); double tol = 2e-3 + 1e-5 * std::fabs(e); if (!(l.y[j] >= alpha * lo + (1 - (double)alpha) * got_prev[k][j] - tol && l.y[j] <= alpha * hi + (1 - (double)alpha) * got_prev[k][j] + tol)) { bad("plot:average", "signal %zu, point %zu: %g dB, expected %g (average %g, weight %g)", k, j, (double)l.y[j], e, got_prev[k][j], (double)alpha); break; } }
                got_prev[k].assign(l.y.begin(), l.y.end()); vmon::stat("spectra", 1); }
            first = false; vmon::evals(); }
    }
    if (done >= N) vmon::nontrivial(sig); vmon::tick(); (void)i; (void)avg;
}
static void c_spectrum_mt(uint64_t, Rng& r) {
    // the spectrum of a tone stays a tone of the right level, whenever it is drawn
    begin(); size_t n = 1 + r.below(2), N = (size_t)16 << r.below(4); CTX = vmon::fmt("spectrum of %zu signals, %zu points, drawing during the run", n, N); PlotCSpectrumBlock b("spectrum", labels(n), 1000, N, SpectralWindow::Rectangular); std::atomic<bool> stop{false}; std::atomic<size_t> calls{0}; uint64_t seed = r.next(); size_t bin = r.below(N);
    std::thread t([&] { vector<cf> v; feed(b, n, stop, seed, [&](size_t k, size_t at, size_t c) { v.resize(c); for (size_t j = 0; j < c; ++j) v[j] = std::polar(1.f, (float)(2 * M_PI * (double)((at + j) * bin % N) / (double)N)); b.in[k].writeN(v.data(), c); }, calls); });
    auto& s = implotstub::st(); size_t lines = 0, draws = 0; s.line = [&](const char*, const float*, const float* y, int c) { lines++; for (int j = 0; j < c; ++j) { bool tone = (size_t)j == (bin + N / 2) % N; if (tone ? std::fabs(y[j]) > 0.01 : y[j] > -60) { bad("plot:torn", "point %d of the spectrum of a tone is %g dB", j, (double)y[j]); return; } } }; imstub::st().slide = true; imstub::st().slider = 1.f;
    auto t0 = std::chrono::steady_clock::now(); while (draws < 400 && std::chrono::steady_clock::now() - t0 < std::chrono::milliseconds(150)) { imstub::st().button = r.chance(1, 50); b.render(); balance("render"); draws++; if (imstub::st().button) b.render(); if (r.chance(1, 3)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(300))); }
    stop = true; t.join(); s.line = nullptr; vmon::stat("renders", (double)draws); vmon::stat("spectra", (double)lines); vmon::stat("calls", (double)calls.load()); if (lines) vmon::nontrivial(vmon::mix(calls.load(), lines)); vmon::evals(); vmon::tick();
}
// ---------------- spectrogram
static void c_gram(uint64_t i, Rng& r) {
    begin(); size_t n = 1 + r.below(3), N = fft_len(r), tall = 1 + r.below(12), sps = 1 + r.below(4000000); SpectralWindow w = WINS[r.below(6)]; CTX = vmon::fmt("spectrogram of %zu signals, %zu points, %zu rows, window %d", n, N, tall, (int)w); PlotCSpectrogramBlock b("gram", labels(n), sps, N, tall, w); vector<Signal> g; for (size_t k = 0; k < n; ++k) g.push_back(signal(r)); vector<size_t> sent(n, 0); size_t rows = 0; bool paused = false; uint64_t sig = vmon::mix(N, tall * 16 + n);
    for (size_t q = 0, rounds = 10 + r.below(40); q < rounds; ++q) { unsigned op = (unsigned)r.below(6);
        if (op < 2) for (size_t k = 0; k < n; ++k) { size_t c = std::min<size_t>(b.in[k].space(), r.chance(1, 6) ? SIZE_MAX : r.below(3 * N)); vector<cf> v(c); for (size_t j = 0; j < c; ++j) v[j] = sample_of(g[k], sent[k] + j); if (c) b.in[k].writeN(v.data(), c); sent[k] += c; vmon::stat("samples", (double)c); }
        else if (op < 5) { size_t avail = SIZE_MAX; vector<size_t> before(n); for (size_t k = 0; k < n; ++k) { before[k] = b.in[k].size(); avail = std::min(avail, before[k]); } auto res = b.procedure(); size_t took = before[0] - b.in[0].size(); for (size_t k = 0; k < n; ++k) if (before[k] - b.in[k].size() != took) bad("plot:consume", "took %zu samples of signal 0 and %zu of signal %zu", took, before[k] - b.in[k].size(), k); bool e = res.is_err(); if (paused ? took || e : avail < N ? took || !e : !took || took % N || took > avail || e) bad(paused ? "plot:pause" : "plot:consume", "took %zu of %zu samples for blocks of %zu, error %d", took, avail, N, e); rows += took / N; sig = vmon::mix(sig, took + 1); vmon::stat("calls", 1); }
        else { struct Heat { string l; vector<float> v; int rows, cols; }; vector<Heat> H; auto& s = implotstub::st(); s.plots = 0; s.heat = [&](const char* l, const float* v, int ro, int co, ImPlotPoint a, ImPlotPoint z) { H.push_back({l, vector<float>(v, v + (size_t)ro * co), ro, co}); if (std::fabs(std::min(a.x, z.x) + sps / 2.0) > 1 || std::fabs(std::max(a.x, z.x) - sps / 2.0) > 1) bad("plot:frequency", "frequencies from %g to %g at %zu samples/s", a.x, z.x, sps); }; s.show = !r.chance(1, 8); bool press = imstub::st().button = r.chance(1, 6); b.render(); s.heat = nullptr; balance("render"); if (press) paused = !paused; vmon::stat("renders", 1); if (!s.show) { if (!H.empty()) bad("plot:hidden", "drawn into a hidden plot"); continue; } if (H.size() != n) { bad("plot:missing", "%zu pictures for %zu signals", H.size(), n); continue; }
            for (size_t k = 0; k < n; ++k) { auto& h = H[k]; if ((size_t)h.rows != tall || (size_t)h.cols != N) { bad("plot:count", "%d by %d, expected %zu by %zu", h.rows, h.cols, tall, N); continue; } bool ok = true; for (size_t row = 0; row < tall && ok; ++row) { if (row >= rows) { for (size_t j = 0; j < N; ++j) if (h.v[row * N + j] > -100) { bad("plot:level", "row %zu of %zu shows %g dB after %zu blocks", row, tall, (double)h.v[row * N + j], rows); ok = false; break; } continue; } size_t at = (rows - 1 - row) * N; vector<cf> v(N); for (size_t j = 0; j < N; ++j) v[j] = sample_of(g[k], at + j); double err; auto p = spectrum(v, w, err); for (size_t j = 0; j < N; ++j) if (!level(h.v[row * N + j], p[j], err)) { bad("plot:level", "signal %zu, row %zu (block %zu), point %zu: %g dB, expected %g", k, row, rows - 1 - row, j, (double)h.v[row * N + j], 10 * std::log10(p[j] + 1e-20)); ok = false; break; } } vmon::stat("spectra", (double)std::min(rows, tall)); }
            vmon::evals(); }
    }
    if (rows) vmon::nontrivial(sig); vmon::tick(); (void)i;
}
static void c_gram_mt(uint64_t, Rng& r) {
    begin(); size_t n = 1 + r.below(2), N = (size_t)16 << r.below(4), tall = 2 + r.below(20); CTX = vmon::fmt("spectrogram of %zu signals, %zu points, drawing during the run", n, N); PlotCSpectrogramBlock b("gram", labels(n), 1000, N, tall, SpectralWindow::Rectangular); std::atomic<bool> stop{false}; std::atomic<size_t> calls{0}; uint64_t seed = r.next();
    // block q holds a tone in bin q mod N
    std::thread t([&] { vector<cf> v; feed(b, n, stop, seed, [&](size_t k, size_t at, size_t c) { v.resize(c); for (size_t j = 0; j < c; ++j) { size_t q = at + j; v[j] = std::polar(1.f, (float)(2 * M_PI * (double)((q / N % N) * (q % N) % N) / (double)N)); } b.in[k].writeN(v.data(), c); }, calls); });
    auto& s = implotstub::st(); size_t pics = 0, draws = 0; uint64_t sig = 0; s.heat = [&](const char*, const float* v, int ro, int co, ImPlotPoint, ImPlotPoint) { pics++; long prev = -1; for (int row = 0; row < ro; ++row) { int tone = -1, high = 0; for (int j = 0; j < co; ++j) { if (std::fabs(v[row * co + j]) < 0.01) tone = j; else if (v[row * co + j] > -60) high++; } if (tone < 0) { if (v[row * co] > -100) bad("plot:torn", "row %d is no block of the signal", row); break; } if (high) { bad("plot:torn", "row %d mixes blocks", row); break; } long q = (tone + co - co / 2) % co; if (prev >= 0 && (q + 1) % co != prev) { bad("plot:torn", "row %d holds block %ld below block %ld (modulo %d)", row, q, prev, co); break; } prev = q; } sig = vmon::mix(sig, (uint64_t)prev); };
    auto t0 = std::chrono::steady_clock::now(); while (draws < 400 && std::chrono::steady_clock::now() - t0 < std::chrono::milliseconds(150)) { imstub::st().button = r.chance(1, 50); b.render(); balance("render"); draws++; if (imstub::st().button) b.render(); if (r.chance(1, 3)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(300))); }
    stop = true; t.join(); s.heat = nullptr; vmon::stat("renders", (double)draws); vmon::stat("pictures", (double)pics); vmon::stat("calls", (double)calls.load()); if (pics) vmon::nontrivial(vmon::mix(sig, calls.load())); vmon::evals(); vmon::tick();
}
int main(int argc, char** argv) { return vmon::run(argc, argv, {{"series", c_series}, {"spectrum", c_spectrum}, {"gram", c_gram}, {"series_mt", c_series_mt}, {"spectrum_mt", c_spectrum_mt}, {"gram_mt", c_gram_mt}}, 20); }
