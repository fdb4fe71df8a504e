// Core utility types: strings, results, powers of two, error codes, windows, presets, report (C27).
#include "vmon.hpp"
#include "cler.hpp"
#include "cler_utils.hpp"
#include "cler_desktop_utils.hpp"
#include "plots/spectral_windows.hpp"
#include <sstream>
#include <memory>
#include <cmath>
#include <limits>
#include <sys/mman.h>
using vmon::Rng; using std::string; using std::vector;
static string CTX; static const bool ctx_named = (vmon::ctxp() = &CTX, true);
#define bad(key, ...) vmon::violation(key, "%s", (CTX + ": " + vmon::fmt(__VA_ARGS__)).c_str())

// ---------------- fixed-size strings
static string text(Rng& r, size_t n) { string s; for (size_t k = 0; k < n; ++k) s += (char)(1 + r.below(255)); return s; }
template <size_t N> static void strings(Rng& r) {
    typedef cler::EmbeddableString<N> S; const size_t cap = N - 1; CTX = vmon::fmt("string of %zu bytes", N); uint64_t sig = N;
    struct Cell { unsigned char pre[16]; alignas(S) unsigned char mem[sizeof(S)]; unsigned char post[16]; };
    const int M = 4; vector<std::unique_ptr<Cell>> cell(M); S* s[M]; string model[M];
    auto chk = [&](const S& x, const string& m, const char* what) { if (x.length() != m.size() || std::strlen(x.c_str()) != m.size() || m != x.c_str() || x.empty() != m.empty() || (const char*)x != x.c_str()) bad("str:content", "after %s: '%s' (length %zu), expected '%s' (length %zu)", what, x.c_str(), x.length(), m.c_str(), m.size()); if (x.length() > cap) bad("str:overflow", "after %s: length %zu", what, x.length()); };
    for (int k = 0; k < M; ++k) { cell[k].reset(new Cell); memset((void*)cell[k].get(), 0xA7, sizeof(Cell)); string t = text(r, r.below(2 * N + 3)); model[k] = t.substr(0, cap); switch (r.below(3)) { case 0: s[k] = new (cell[k]->mem) S(t.c_str()); break; case 1: s[k] = new (cell[k]->mem) S(t); break; default: s[k] = new (cell[k]->mem) S(); model[k].clear(); } chk(*s[k], model[k], "construction"); }
    for (int q = 0; q < 60; ++q) { int a = (int)r.below(M), b = (int)r.below(M), c = (int)r.below(M); const char* what = "";
        switch (r.below(7)) {
            case 0: *s[a] = *s[b]; model[a] = model[b]; what = "assignment"; break;
            case 1: *s[a] = *s[b] + *s[c]; model[a] = (model[b] + model[c]).substr(0, cap); what = "concatenation"; break;
            case 2: { string t = text(r, r.chance(1, 3) ? cap - std::min(cap, model[b].size()) + r.below(2) : r.below(N + 3)); *s[a] = *s[b] + t.c_str(); model[a] = (model[b] + t).substr(0, cap); what = "concatenation with text"; break; }
            case 3: { string t = text(r, r.chance(1, 2) ? cap + r.below(3) - (cap ? 1 : 0) : r.below(N + 3)); *s[a] = S(t.c_str()); model[a] = t.substr(0, cap); what = "assignment from text"; break; }
            case 4: { S x(*s[b]); chk(x, model[b], "copy"); *s[a] = x + (const char*)nullptr; model[a] = model[b]; what = "concatenation with no text"; break; }
            case 5: { S x((const char*)nullptr); chk(x, "", "construction from null"); *s[a] = *s[a] + *s[a]; model[a] = (model[a] + model[a]).substr(0, cap); what = "doubling"; break; }
            default: { S& me = *s[a]; *s[a] = me; what = "self assignment"; }
        }
        chk(*s[a], model[a], what); chk(*s[b], model[b], what); sig = vmon::mix(sig, model[a].size() * 4 + a);
        for (auto& x : cell) { for (auto v : x->pre) if (v != 0xA7) bad("str:overflow", "wrote before the object"); for (auto v : x->post) if (v != 0xA7) bad("str:overflow", "wrote behind the object"); } vmon::stat("string_operations", 1); }
    vmon::nontrivial(sig); vmon::evals();
}
static void c_str(uint64_t i, Rng& r) { switch (i % 9) { case 0: strings<1>(r); break; case 1: strings<2>(r); break; case 2: strings<3>(r); break; case 3: strings<8>(r); break; case 4: strings<16>(r); break; case 5: strings<63>(r); break; case 6: strings<64>(r); break; case 7: strings<65>(r); break; default: strings<256>(r); } vmon::tick(); }

// ---------------- results
struct Live { static long n; int v; explicit Live(int x) : v(x) { n++; } Live(const Live& o) : v(o.v) { n++; } Live& operator=(const Live& o) { v = o.v; return *this; } ~Live() { n--; } }; long Live::n = 0;
struct E2 { int code; };
static void c_result(uint64_t i, Rng& r) {
    CTX = "result"; { typedef cler::Result<Live, E2> R; vector<R> v; vector<std::pair<bool, int>> m; auto chk = [&](R& x, std::pair<bool, int> w) { if (x.is_ok() != w.first || x.is_err() == w.first) bad("result:state", "is_ok %d, is_err %d, expected %d", x.is_ok(), x.is_err(), w.first); bool thrown = false; int got = 0; try { got = x.unwrap().v; } catch (const std::exception&) { thrown = true; } if (thrown == w.first || (w.first && got != w.second)) bad("result:unwrap", "unwrap gives %d (thrown %d), expected %d", got, thrown, w.second); thrown = false; try { got = x.unwrap_err().code; } catch (const std::exception&) { thrown = true; } if (thrown != w.first || (!w.first && got != w.second)) bad("result:unwrap", "unwrap_err gives %d (thrown %d), expected %d", got, thrown, w.second); };
        for (int q = 0; q < 80; ++q) { int x = (int)r.next(); bool ok = r.chance(1, 2); switch (v.empty() ? 0 : r.below(4)) { case 0: v.push_back(ok ? R(Live(x)) : R(E2{x})); m.push_back({ok, x}); break; case 1: { size_t k = r.below(v.size()); v[k] = ok ? R(Live(x)) : R(E2{x}); m[k] = {ok, x}; break; } case 2: { size_t k = r.below(v.size()), l = r.below(v.size()); v[k] = v[l]; m[k] = m[l]; break; } default: { size_t k = r.below(v.size()); if (m[k].first) { v[k].unwrap().v = x; } else v[k].unwrap_err().code = x; m[k].second = x; } } size_t k = r.below(v.size()); chk(v[k], m[k]); vmon::stat("result_operations", 1); } for (size_t k = 0; k < v.size(); ++k) chk(v[k], m[k]); }
    if (Live::n) bad("result:leak", "%ld values left", Live::n); Live::n = 0;
    { cler::Result<cler::Empty, cler::Error> a = cler::Empty{}, b = cler::Error::BadData; if (!a.is_ok() || a.is_err() || b.is_ok() || !b.is_err() || b.unwrap_err() != cler::Error::BadData) bad("result:state", "block results"); }
    vmon::tick(); vmon::evals(); vmon::nontrivial(vmon::mix(i, r.next()));
}
// ---------------- powers of two, error codes
static void c_numbers(uint64_t i, Rng& r) {
    CTX = "powers of two"; auto one = [&](size_t x) { size_t f = 0, c = 1; if (x) { f = 1; while (f <= x / 2) f *= 2; } bool rep = true; while (c < x) { if (c > SIZE_MAX / 2) { rep = false; break; } c *= 2; } bool p = false; for (int b = 0; b < 64; ++b) p |= x == (size_t)1 << b;
        if (cler::floor2p2(x) != f) bad("pow2:floor", "floor of %zu is %zu", x, cler::floor2p2(x)); if (rep && cler::ceil2p2(x) != c) bad("pow2:ceil", "ceiling of %zu is %zu", x, cler::ceil2p2(x)); if (cler::is_power_of_2(x) != p) bad("pow2:test", "%zu counts as %d", x, cler::is_power_of_2(x)); vmon::stat("numbers", 1); };
    for (int b = 0; b < 64; ++b) for (int d = -2; d <= 2; ++d) one(((size_t)1 << b) + (size_t)d); for (size_t x = 0; x < 300; ++x) one(i * 300 + x); for (int k = 0; k < 2000; ++k) one((size_t)r.next() >> r.below(64));
    CTX = "error codes"; using cler::Error; struct { Error e; const char* name; bool fatal; } all[] = {{Error::OK, "OK", false}, {Error::Unknown, "Unknown", false}, {Error::NotEnoughSamples, "NotEnoughSamples", false}, {Error::NotEnoughSpace, "NotEnoughSpace", false}, {Error::NotEnoughSpaceOrSamples, "NotEnoughSpaceOrSamples", false}, {Error::ProcedureError, "ProcedureError", false}, {Error::BadData, "BadData", false}, {Error::TERMINATE_FLOWGRAPH, "TERMINATE_FLOWGRAPH", true}, {Error::TERM_InvalidChannelIndex, "TERM_InvalidChannelIndex", true}, {Error::TERM_ProcedureError, "TERM_ProcedureError", true}, {Error::TERM_IOError, "TERM_IOError", true}, {Error::TERM_EOFReached, "TERM_EOFReached", true}};
    std::map<string, string> seen; for (auto& x : all) { if (cler::is_fatal(x.e) != x.fatal) bad("error:fatal", "%s counts as %s", x.name, x.fatal ? "harmless" : "fatal"); const char* t = cler::to_str(x.e); if (!t || !*t) { bad("error:text", "%s has no text", x.name); continue; } auto ins = seen.insert({t, x.name}); if (!ins.second) bad("error:text", "%s and %s share the text '%s'", x.name, ins.first->second.c_str(), t); if (std::strcmp(cler::error_to_cstring(x.e), t)) bad("error:text", "%s has two texts", x.name); std::ostringstream o; o << x.e; if (o.str() != t) bad("error:text", "%s prints as '%s'", x.name, o.str().c_str()); }
    for (int k = 0; k < 20; ++k) { int v = (int)r.below(1000) + 12; const char* t = cler::to_str((Error)v); if (!t || !*t) bad("error:text", "code %d has no text", v); }
    vmon::tick(); vmon::evals(); vmon::nontrivial(i + 1);
}
// ---------------- windows
static double i0_ref(double x) { double s = 1, t = 1; for (int k = 1; k < 400; ++k) { t *= (x / 2 / k) * (x / 2 / k); s += t; if (t < s * 1e-17) break; } return s; }
static double win_ref(SpectralWindow w, double x, double beta) { auto c = [&](int k) { return std::cos(2 * M_PI * k * x); }; switch (w) { case SpectralWindow::BlackmanHarris: return 0.35875 - 0.48829 * c(1) + 0.14128 * c(2) - 0.01168 * c(3); case SpectralWindow::Hamming: return 0.54 - 0.46 * c(1); case SpectralWindow::Hann: return 0.5 - 0.5 * c(1); case SpectralWindow::Rectangular: return 1; case SpectralWindow::Kaiser: { double t = 2 * x - 1; return i0_ref(beta * std::sqrt(std::max(0.0, 1 - t * t))) / i0_ref(beta); } default: return 1 - 1.93 * c(1) + 1.29 * c(2) - 0.388 * c(3) + 0.0322 * c(4); } }
static void c_window(uint64_t i, Rng& r) {
    SpectralWindow w[] = {SpectralWindow::BlackmanHarris, SpectralWindow::Hamming, SpectralWindow::Hann, SpectralWindow::Rectangular, SpectralWindow::Kaiser, SpectralWindow::FlatTop}; const char* nm[] = {"Blackman-Harris", "Hamming", "Hann", "rectangular", "Kaiser", "flat top"};
    for (int k = 0; k < 6; ++k) { size_t n = r.chance(1, 4) ? 2 + r.below(6) : r.chance(1, 2) ? (size_t)1 << (2 + r.below(12)) : 2 + r.below(5000); bool dflt = r.chance(1, 3); float beta = dflt ? 8.6f : (float)(r.chance(1, 5) ? 0 : r.real(0, 30)); CTX = vmon::fmt("%s window of %zu points, beta %g", nm[k], n, beta); vector<float> v(n); double tol = k == 5 ? 1e-5 : 4e-6; if (k == 4) tol = 2e-5;
        for (size_t j = 0; j < n; ++j) { float x = (float)j / (float)(n - 1); v[j] = dflt ? spectral_window_function(w[k], x) : spectral_window_function(w[k], x, beta); double ref = win_ref(w[k], (double)j / (double)(n - 1), beta); if (!std::isfinite(v[j])) { bad("window:finite", "point %zu is %g", j, v[j]); break; } if (std::fabs(v[j] - ref) > tol * (k == 4 ? 1 + beta : 1)) { bad("window:value", "point %zu is %.8g, by definition %.8g", j, v[j], ref); break; } if (v[j] > (k == 5 ? 4.641 : 1.00001) || v[j] < (k == 5 ? -0.46 : -0.0001)) { bad("window:range", "point %zu is %g", j, v[j]); break; } }
        for (size_t j = 0; j < n / 2; ++j) if (std::fabs(v[j] - v[n - 1 - j]) > 2 * tol * (k == 4 ? 1 + beta : 1)) { bad("window:symmetry", "points %zu and %zu are %.8g and %.8g", j, n - 1 - j, v[j], v[n - 1 - j]); break; } vmon::stat("window_points", (double)n); }
    vmon::tick(); vmon::evals(); vmon::nontrivial(vmon::mix(i, r.next()));
}
// ---------------- presets and report
struct Src : cler::BlockBase { long left; int every; Src(const string& n, long l, int e) : BlockBase(n.c_str()), left(l), every(e) {} cler::Result<cler::Empty, cler::Error> procedure(cler::ChannelBase<int>* o) { if (left <= 0) return cler::Error::TERM_EOFReached; if (every && left-- % every == 0) return cler::Error::NotEnoughSamples; if (!every) left--; if (!o->space()) return cler::Error::NotEnoughSpace; o->push(1); return cler::Empty{}; } };
struct Snk : cler::BlockBase { cler::Channel<int> in; Snk(const string& n) : BlockBase(n.c_str()), in(64) {} cler::Result<cler::Empty, cler::Error> procedure() { int v; if (!in.try_pop(v)) return cler::Error::NotEnoughSamples; return cler::Empty{}; } };
static void c_report(uint64_t i, Rng& r) {
    CTX = "presets"; { auto e = cler::flowgraph_config::embedded_optimized(), d = cler::flowgraph_config::desktop_performance(), t = cler::flowgraph_config::thread_per_block_adaptive_sleep(); cler::FlowGraphConfig z; using S = cler::SchedulerType;
        if (e.scheduler != S::FixedThreadPool || e.num_workers != 2 || d.scheduler != S::FixedThreadPool || d.num_workers != 4 || t.scheduler != S::ThreadPerBlock || !t.adaptive_sleep || t.adaptive_sleep_multiplier != 1.5 || t.adaptive_sleep_max_us != 5000.0 || t.adaptive_sleep_fail_threshold != 10) bad("preset:value", "a predefined configuration differs from its description");
        if (e.adaptive_sleep || d.adaptive_sleep || e.pin_workers || d.pin_workers || t.pin_workers || e.collect_detailed_stats || d.collect_detailed_stats || t.collect_detailed_stats || e.max_calls_per_tick != z.max_calls_per_tick || d.max_calls_per_tick != z.max_calls_per_tick || t.max_calls_per_tick != z.max_calls_per_tick) bad("preset:value", "a predefined configuration changes more than described");
        if (z.scheduler != S::ThreadPerBlock || z.num_workers != 4 || z.adaptive_sleep || z.adaptive_sleep_multiplier != 1.5 || z.adaptive_sleep_max_us != 5000.0 || z.adaptive_sleep_fail_threshold != 10 || z.collect_detailed_stats || z.max_calls_per_tick != 4 || z.pin_workers) bad("preset:value", "the default configuration differs from its description"); }
    // a run, and what the report says about it
    cler::FlowGraphConfig c = r.pick({cler::flowgraph_config::embedded_optimized(), cler::flowgraph_config::desktop_performance(), cler::flowgraph_config::thread_per_block_adaptive_sleep(), cler::FlowGraphConfig()}); c.collect_detailed_stats = r.chance(3, 4); if (r.chance(1, 3)) c.adaptive_sleep = !c.adaptive_sleep; string n1 = "src" + string(r.below(20), 'x'), n2 = "sink" + string(r.below(20), 'y'); CTX = vmon::fmt("report case %llu", (unsigned long long)i);
    Src a(n1, 50 + (long)r.below(400), (int)r.below(3)); Snk b(n2); auto fg = cler::make_desktop_flowgraph(cler::BlockRunner(&a, &b.in), cler::BlockRunner(&b)); fg.run(c); for (int k = 0; k < 4000 && !fg.is_stopped() && a.left > 0; ++k) std::this_thread::sleep_for(std::chrono::microseconds(500)); fg.stop();
    fflush(stdout); int mem = memfd_create("out", 0), save = dup(1); dup2(mem, 1); cler::print_flowgraph_execution_report(fg); fflush(stdout); dup2(save, 1); close(save); off_t len = lseek(mem, 0, SEEK_END); string out((size_t)len, 0); if (pread(mem, &out[0], (size_t)len, 0) != len) out.clear(); close(mem);
    auto has = [&](const string& t) { if (out.find(t) == string::npos) bad("report:content", "'%s' is missing in: %s", t.c_str(), out.c_str()); }; auto has_not = [&](const string& t) { if (out.find(t) != string::npos) bad("report:content", "'%s' is reported", t.c_str()); };
    has(c.scheduler == cler::SchedulerType::ThreadPerBlock ? "Scheduler: ThreadPerBlock" : "Scheduler: FixedThreadPool"); has(c.adaptive_sleep ? "Adaptive Sleep: ENABLED" : "Adaptive Sleep: DISABLED"); has(c.collect_detailed_stats ? "Detailed Stats: ENABLED" : "Detailed Stats: DISABLED"); if (c.scheduler != cler::SchedulerType::ThreadPerBlock) has(vmon::fmt("Workers: %zu", fg.config().num_workers) + "\n"); else has_not("Workers:");
    if (c.collect_detailed_stats) { for (const auto& s : fg.stats()) { size_t tot = s.successful_procedures + s.failed_procedures; double rate = tot ? 100.0 * (double)s.successful_procedures / (double)tot : 0; size_t p = out.find(string("\n") + s.name.c_str() + " "); if (p == string::npos) { bad("report:content", "block %s is missing", s.name.c_str()); continue; } double x = -1, cpu = -1, avg = -1; size_t bar = out.find('|', p); if (sscanf(out.c_str() + bar, "| %lf | %lf | %lf", &x, &cpu, &avg) != 3 || std::fabs(x - rate) > 0.0501) bad("report:rate", "block %s: success rate %.1f, counted %.2f", s.name.c_str(), x, rate); else if (std::fabs(cpu - s.get_cpu_utilization_percent()) > 0.06 || std::fabs(avg - s.get_avg_execution_time_us()) > 0.06 + 1e-5 * std::fabs(avg)) bad("report:rate", "block %s: other figures than its statistics", s.name.c_str()); if (out.find(string("\n") + s.name.c_str() + " ", p + 1) != string::npos) bad("report:content", "block %s is listed twice", s.name.c_str()); } }
    vmon::stat("reports", 1); vmon::tick(); vmon::evals(); vmon::nontrivial(vmon::mix(out.size(), c.num_workers * 8 + c.adaptive_sleep * 4 + c.collect_detailed_stats * 2));
}
int main(int argc, char** argv) { return vmon::run(argc, argv, {{"str", c_str}, {"result", c_result}, {"numbers", c_numbers}, {"window", c_window}, {"report", c_report}}); }
