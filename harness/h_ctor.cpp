// Construction and destruction of blocks: parameter domains, exceptions, leaks, independent inputs (C30).
#include "vmon.hpp"
#include "imgui.h"
#include "implot.h"
#include "cler.hpp"
#include "math/add.hpp"
#include "math/gain.hpp"
#include "math/complex_demux.hpp"
#include "math/frequency_shift.hpp"
#include "channelizers/polyphase_channelizer.hpp"
#include "resamplers/multistage_resampler.hpp"
#include "filters/kaiser_lpf.hpp"
#include "fm/fm_demod.hpp"
#include "noise/awgn.hpp"
#include "sources/source_cw.hpp"
#include "sources/source_chirp.hpp"
#include "sources/source_file.hpp"
#include "sinks/sink_file.hpp"
#include "sinks/sink_null.hpp"
#include "utils/fanout.hpp"
#include "utils/throttle.hpp"
#include "utils/throughput.hpp"
#include "udp/source_udp.hpp"
#include "udp/sink_udp.hpp"
#include "plots/plot_timeseries.hpp"
#include "plots/plot_cspectrum.hpp"
#include "plots/plot_cspectrogram.hpp"
#include "adsb/adsb_decoder.hpp"
#include <memory>
#include <cmath>
#include <fstream>
#include <sstream>
#include <new>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/socket.h>
using vmon::Rng; using std::string; using std::vector; typedef std::complex<float> cf;
extern "C" const char* __lsan_default_suppressions() { return "leak:qs1dsearch_create\nleak:libfftw3f\n"; }
extern "C" int __lsan_do_recoverable_leak_check() __attribute__((weak));
static string CTX; static const bool ctx_named = (vmon::ctxp() = &CTX, true);
#define bad(key, ...) vmon::violation(key, "%s", (CTX + ": " + vmon::fmt(__VA_ARGS__)).c_str())

// ---------------- memory under observation
namespace mem { static thread_local bool on = false; static std::atomic<long> live{0}; static long count = 0, fail_at = 0; static bool fired = false, nomap = false; static const size_t LIMIT = (size_t)1 << 30;
    // what was allocated while observed, whoever releases it and when
    static std::atomic_flag busy = ATOMIC_FLAG_INIT; static void* kept[4096];
    struct Lock { Lock() { while (busy.test_and_set(std::memory_order_acquire)) {} } ~Lock() { busy.clear(std::memory_order_release); } };
    static void note(void* p) { Lock l; for (auto& k : kept) if (!k) { k = p; live++; return; } }
    static void forget(void* p) { Lock l; for (auto& k : kept) if (k == p) { k = nullptr; live--; return; } }
    static void clear() { Lock l; memset(kept, 0, sizeof kept); live = 0; } }
static void* take(size_t n, size_t al) { if (mem::on) { if (n > mem::LIMIT) return nullptr; if (++mem::count == mem::fail_at) { mem::fired = true; return nullptr; } } void* p = al > alignof(std::max_align_t) ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1); if (p && mem::on) mem::note(p); return p; }
static void give(void* p) { if (p && mem::live) mem::forget(p); free(p); }
static void* need(void* p) { if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n) { return need(take(n, 0)); } void* operator new[](size_t n) { return need(take(n, 0)); } void* operator new(size_t n, std::align_val_t a) { return need(take(n, (size_t)a)); } void* operator new[](size_t n, std::align_val_t a) { return need(take(n, (size_t)a)); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return take(n, 0); } void* operator new[](size_t n, const std::nothrow_t&) noexcept { return take(n, 0); }
void operator delete(void* p) noexcept { give(p); } void operator delete[](void* p) noexcept { give(p); } void operator delete(void* p, size_t) noexcept { give(p); } void operator delete[](void* p, size_t) noexcept { give(p); } void operator delete(void* p, std::align_val_t) noexcept { give(p); } void operator delete[](void* p, std::align_val_t) noexcept { give(p); } void operator delete(void* p, size_t, std::align_val_t) noexcept { give(p); } void operator delete[](void* p, size_t, std::align_val_t) noexcept { give(p); } void operator delete(void* p, const std::nothrow_t&) noexcept { give(p); } void operator delete[](void* p, const std::nothrow_t&) noexcept { give(p); }
// channels that cannot be mapped twice live on the heap, where every one of their allocations can fail
extern "C" { int __real_ftruncate(int, off_t); int __real_ftruncate64(int, off_t); int __wrap_ftruncate(int fd, off_t n) { if (mem::nomap) { errno = ENOSPC; return -1; } return __real_ftruncate(fd, n); } int __wrap_ftruncate64(int fd, off_t n) { if (mem::nomap) { errno = ENOSPC; return -1; } return __real_ftruncate64(fd, n); } }
static int open_files() { int n = 0; DIR* d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
static int mappings() { int n = 0; FILE* f = fopen("/proc/self/maps", "r"); char b[512]; while (fgets(b, sizeof b, f)) if (strstr(b, "memfd:") || strstr(b, "/dev/shm")) n++; fclose(f); return n; }

enum Want { REJECT, ACCEPT, ANY };
static uint64_t SIG;
template <class Make, class Use> static void trial(const string& what, Want want, Rng& r, Make make, Use use) {
    CTX = what; SIG = vmon::mix(SIG, std::hash<string>()(what)); vmon::tick(); const bool faults = want != REJECT && r.chance(1, 6), nomap = faults && r.chance(1, 2);
    for (long k = 0;; ++k) { // 0: nothing fails; k: the k-th allocation in the constructor fails
        int f0 = open_files(), m0 = mappings(); bool ok = false, thrown = false; string msg; mem::clear(); mem::count = 0; mem::fail_at = k; mem::fired = false; mem::nomap = nomap; mem::on = true;
        { typedef decltype(make()) P; P b{}; try { b = make(); ok = true; } catch (const std::exception& e) { thrown = true; mem::on = false; msg = e.what(); mem::on = true; } catch (...) { mem::on = false; bad("ctor:type", "throws something that is no std::exception"); mem::on = true; } mem::fail_at = 0; mem::on = mem::nomap = false; if (ok && !nomap && !mem::fired) use(*b); mem::on = true; b.reset(); }
        mem::on = false; vmon::stat(ok ? "constructed" : "refused", 1); if (mem::fired) vmon::stat(nomap ? "failed_allocations_unmapped" : "failed_allocations", 1);
        if (!mem::fired && want == REJECT && ok) bad("ctor:accepts", "accepted"); if (!mem::fired && !nomap && want == ACCEPT && !ok) bad("ctor:rejects", "refused: %s", msg.c_str()); if (thrown && msg.empty()) bad("ctor:type", "no message"); 
        // a channel may survive a failing allocation by its own means, so success is no fault
        if (mem::live) bad("ctor:leak", "%ld allocations left %s%s", mem::live.load(), ok ? "after destruction" : "by a failed construction", mem::fired ? " (out of memory)" : ""); int f1 = open_files(), m1 = mappings(); if (f1 != f0) bad("ctor:leak", "%d descriptors left %s", f1 - f0, ok ? "after destruction" : "by a failed construction"); if (m1 != m0) bad("ctor:leak", "%d mappings left %s%s", m1 - m0, ok ? "after destruction" : "by a failed construction", mem::fired ? " (out of memory)" : ""); vmon::evals();
        if (!faults || (k && !mem::fired) || k > 60 || vmon::st().nviol.load() > 100) break; }
}
template <class B> static void nouse(B&) {}
template <class T> static T val(Rng& r) { if constexpr (std::is_same_v<T, cf>) return cf((float)r.unit(), (float)r.unit()); else return (T)r.below(100); }
template <class T, class C> static void fill(Rng& r, C& c) { size_t n = std::min<size_t>(c.space(), r.below(3000)); vector<T> v(n); for (auto& x : v) x = val<T>(r); if (n) c.writeN(v.data(), n); }
// capacities, addresses and independence of a block's inputs
template <class T> static void inputs(Rng& r, cler::Channel<T>* in, size_t n, size_t least) { for (size_t k = 0; k < n; ++k) { if (in[k].space() < least) bad("ctor:inputs", "input %zu has room for %zu, asked for %zu", k, in[k].space(), least); if (in[k].size()) bad("ctor:inputs", "input %zu is not empty", k); } vector<size_t> m(n); for (size_t k = 0; k < n; ++k) { m[k] = r.below(least + 1); vector<T> v(m[k]); for (size_t j = 0; j < v.size(); ++j) v[j] = (T)(float)(j * 8 + k); if (m[k]) in[k].writeN(v.data(), v.size()); } for (size_t k = 0; k < n; ++k) { if (in[k].size() != m[k]) bad("ctor:inputs", "input %zu holds %zu samples, got %zu", k, in[k].size(), m[k]); vector<T> v(m[k]); if (m[k]) in[k].readN(v.data(), v.size()); for (size_t j = 0; j < v.size(); ++j) if (v[j] != (T)(float)(j * 8 + k)) { bad("ctor:inputs", "input %zu shares its memory", k); break; } } }

static size_t bufsize(Rng& r, size_t elem, bool& small) { size_t min = 4096 / elem; small = false; switch (r.below(6)) { case 0: case 1: return 0; case 2: small = true; return r.chance(1, 3) ? 1 : 1 + r.below(min - 1); case 3: return min; case 4: small = true; return min - 1; default: return min + r.below(4 * min); } }
static float special(Rng& r) { return r.pick({0.f, -0.f, -1.f, std::numeric_limits<float>::quiet_NaN(), -std::numeric_limits<float>::infinity(), -1e-30f, -1e30f}); }
static string scratch() { static string d; if (d.empty()) { char t[] = "/tmp/vmon_ctor_XXXXXX"; if (!mkdtemp(t)) abort(); d = t; static struct Rm { string d; ~Rm() { string c = d; DIR* p = opendir(c.c_str()); if (!p) return; while (dirent* e = readdir(p)) if (e->d_name[0] != '.') remove((c + "/" + e->d_name).c_str()); closedir(p); rmdir(c.c_str()); } } rm{t}; } return d; }
template <class T> using CH = cler::Channel<T>;
template <class T> static void arithmetic(Rng& r) {
    bool small; size_t bs = bufsize(r, sizeof(T), small); size_t n = r.chance(1, 3) ? r.below(3) : 2 + r.below(12);
    trial(vmon::fmt("AddBlock<%zu bytes>(%zu inputs, buffer %zu)", sizeof(T), n, bs), small || n < 2 ? REJECT : ACCEPT, r, [&] { return std::make_unique<AddBlock<T>>("b", n, bs); }, [&](AddBlock<T>& b) { inputs<T>(r, b.in, n, bs ? bs : 4096 / sizeof(T)); CH<T> out(8192); for (int k = 0; k < 3; ++k) { for (size_t j = 0; j < n; ++j) fill<T>(r, b.in[j]); b.procedure(&out); } });
    size_t any = bs ? bs : 0; trial(vmon::fmt("GainBlock(buffer %zu)", any), ACCEPT, r, [&] { return std::make_unique<GainBlock<T>>("b", T(2), any); }, [&](GainBlock<T>& b) { inputs<T>(r, &b.in, 1, any ? any : 4096 / sizeof(T)); CH<T> out(8192); fill<T>(r, b.in); b.procedure(&out); fill<T>(r, b.in); });
    trial(vmon::fmt("NoiseAWGNBlock(buffer %zu)", any), ACCEPT, r, [&] { return std::make_unique<NoiseAWGNBlock<T>>("b", 0.5f, any); }, [&](NoiseAWGNBlock<T>& b) { inputs<T>(r, &b.in, 1, any ? any : 4096 / sizeof(T)); CH<T> out(8192); fill<T>(r, b.in); b.procedure(&out); fill<T>(r, b.in); });
    size_t outs = r.below(4); trial(vmon::fmt("FanoutBlock(%zu outputs, buffer %zu)", outs, bs), small || !outs ? REJECT : ACCEPT, r, [&] { return std::make_unique<FanoutBlock<T>>("b", outs, bs); }, [&](FanoutBlock<T>& b) { inputs<T>(r, &b.in, 1, bs ? bs : 4096 / sizeof(T)); CH<T> o1(8192), o2(8192); fill<T>(r, b.in); if (outs == 1) b.procedure(&o1); if (outs == 2) b.procedure(&o1, &o2); });
    trial(vmon::fmt("ThroughputBlock(buffer %zu)", bs), small ? REJECT : ACCEPT, r, [&] { return std::make_unique<ThroughputBlock<T>>("b", bs); }, [&](ThroughputBlock<T>& b) { inputs<T>(r, &b.in, 1, bs ? bs : 4096 / sizeof(T)); CH<T> out(8192); fill<T>(r, b.in); b.procedure(&out); fill<T>(r, b.in); });
    size_t sps = r.chance(1, 3) ? 0 : 1 + r.below(1000000000); trial(vmon::fmt("ThrottleBlock(%zu samples/s)", sps), sps ? ACCEPT : REJECT, r, [&] { return std::make_unique<ThrottleBlock<T>>("b", sps); }, nouse<ThrottleBlock<T>>);
    trial("SinkNullBlock", ACCEPT, r, [&] { return std::make_unique<SinkNullBlock<T>>("b", nullptr, nullptr, any); }, [&](SinkNullBlock<T>& b) { inputs<T>(r, &b.in, 1, any ? any : 4096 / sizeof(T)); fill<T>(r, b.in); b.procedure(); fill<T>(r, b.in); });
}
template <class T> static void filters(Rng& r) {
    bool small; size_t bs = bufsize(r, sizeof(T), small); float ratio = r.chance(1, 4) ? r.chance(1, 3) ? std::numeric_limits<float>::infinity() : special(r) : (float)std::pow(10, r.real(-2, 2)), att = r.chance(1, 5) ? (r.chance(1, 2) ? std::numeric_limits<float>::quiet_NaN() : -(float)r.real(1e-6, 100)) : (float)r.real(10, 120);
    bool badp = !(ratio > 0) || std::isinf(ratio) || !(att >= 0); trial(vmon::fmt("MultiStageResamplerBlock(ratio %g, attenuation %g, buffer %zu)", ratio, att, bs), small || badp ? REJECT : ACCEPT, r, [&] { return std::make_unique<MultiStageResamplerBlock<T>>("b", ratio, att, bs); }, [&](MultiStageResamplerBlock<T>& b) { inputs<T>(r, &b.in, 1, bs ? bs : 4096 / sizeof(T)); CH<T> out(8192); for (int k = 0; k < 3; ++k) { fill<T>(r, b.in); b.procedure(&out); } });
    double rate = r.chance(1, 6) ? special(r) : std::pow(10, r.real(1, 7)), cut = r.chance(1, 6) ? special(r) : rate * r.real(0.0, 0.7), bw = r.chance(1, 6) ? r.chance(1, 3) ? rate * std::pow(10, r.real(-30, -13)) : special(r) : rate * std::pow(10, r.real(-3, 0)), as = r.chance(1, 6) ? special(r) : r.real(10, 100); double order = as / (22 * bw / rate); bool rej = small || !(rate > 0) || !(cut > 0) || !(cut < rate / 2) || !(bw > 0) || !(as > 0) || !(std::ceil(order) >= 5) || order > 4e9; bool edge = std::fabs(order - 4) < 1e-3 || std::fabs(cut / rate - 0.5) < 1e-6 || std::isnan(order);
    trial(vmon::fmt("KaiserLPFBlock(%g, %g, %g, %g, buffer %zu)", rate, cut, bw, as, bs), rej && !(edge && order > 0) ? REJECT : edge ? ANY : ACCEPT, r, [&] { return std::make_unique<KaiserLPFBlock<T>>("b", rate, cut, bw, as, bs); }, [&](KaiserLPFBlock<T>& b) { inputs<T>(r, &b.in, 1, bs ? bs : 4096 / sizeof(T)); CH<T> out(8192); for (int k = 0; k < 2; ++k) { fill<T>(r, b.in); b.procedure(&out); } });
    float amp = (float)r.real(0, 2), hz = (float)r.real(-1000, 1000); size_t sps = r.chance(1, 4) ? 0 : 1 + r.below(1000000); trial(vmon::fmt("SourceCWBlock(%zu samples/s)", sps), sps ? ACCEPT : REJECT, r, [&] { return std::make_unique<SourceCWBlock<T>>("b", amp, hz, sps); }, [&](SourceCWBlock<T>& b) { CH<T> out(4096); b.procedure(&out); });
    float dur = r.chance(1, 3) ? special(r) : (float)r.real(0.01, 3); bool chirp_bad = !sps || !(dur > 0); bool tiny = (double)dur * (double)sps < 2; trial(vmon::fmt("SourceChirpBlock(%zu samples/s, %g s)", sps, dur), chirp_bad ? REJECT : tiny ? ANY : ACCEPT, r, [&] { return std::make_unique<SourceChirpBlock<T>>("b", amp, hz, hz * 2, sps, dur); }, [&](SourceChirpBlock<T>& b) { CH<T> out(4096); b.procedure(&out); });
}
static void complexes(Rng& r) {
    bool small; size_t bs = bufsize(r, 8, small); int mode = (int)r.below(2); trial(vmon::fmt("ComplexToMagPhaseBlock(mode %d, buffer %zu)", mode, bs), small ? REJECT : ACCEPT, r, [&] { return std::make_unique<ComplexToMagPhaseBlock>("b", (ComplexToMagPhaseBlock::Mode)mode, bs); }, [&](ComplexToMagPhaseBlock& b) { inputs<cf>(r, &b.in, 1, bs ? bs : 512); CH<float> o1(8192), o2(8192); fill<cf>(r, b.in); b.procedure(&o1, &o2); fill<cf>(r, b.in); });
    trial(vmon::fmt("FrequencyShiftBlock(buffer %zu)", bs), ACCEPT, r, [&] { return std::make_unique<FrequencyShiftBlock>("b", 10.0, 1000.0, bs); }, [&](FrequencyShiftBlock& b) { inputs<cf>(r, &b.in, 1, bs ? bs : 512); CH<cf> out(8192); fill<cf>(r, b.in); b.procedure(&out); fill<cf>(r, b.in); });
    size_t ch = r.chance(1, 4) ? 0 : 1 + r.below(8), semi = r.chance(1, 5) ? 0 : 1 + r.below(12); size_t cb = bs; if (r.chance(1, 2) && ch) cb = cb / ch * ch; bool rej = !ch || !semi || (cb && (cb < 512 || cb % (ch ? ch : 1))); trial(vmon::fmt("PolyphaseChannelizerBlock(%zu channels, semilength %zu, buffer %zu)", ch, semi, cb), rej ? REJECT : ACCEPT, r, [&] { return std::make_unique<PolyphaseChannelizerBlock>("b", ch, 60.f, semi, cb); }, [&](PolyphaseChannelizerBlock& b) { inputs<cf>(r, &b.in, 1, cb ? cb : 512); CH<cf> o1(8192), o2(8192); if (ch == 2) { fill<cf>(r, b.in); b.procedure(&o1, &o2); } });
    double rate = r.chance(1, 4) ? special(r) : std::pow(10, r.real(2, 7)), dev = r.chance(1, 4) ? special(r) : rate * r.real(0.01, 0.5); if (rate != rate) dev = 1; bool fb = small || !(rate > 0) || !(dev > 0); trial(vmon::fmt("FMDemodBlock(%g, %g, buffer %zu)", rate, dev, bs), fb ? REJECT : ACCEPT, r, [&] { return std::make_unique<FMDemodBlock>("b", rate, dev, bs); }, [&](FMDemodBlock& b) { inputs<cf>(r, &b.in, 1, bs ? bs : 512); CH<float> out(8192); fill<cf>(r, b.in); b.procedure(&out); fill<cf>(r, b.in); });
    uint32_t df = r.chance(1, 3) ? 0 : (uint32_t)r.next() | 1; trial(vmon::fmt("ADSBDecoderBlock(filter %x)", df), df ? ACCEPT : REJECT, r, [&] { return std::make_unique<ADSBDecoderBlock>("b", r.chance(1, 2) ? ADSBDecoderBlock::SampleRateMode::RATE_2MHZ : ADSBDecoderBlock::SampleRateMode::RATE_2_4MHZ, df); }, [&](ADSBDecoderBlock& b) { inputs<uint16_t>(r, &b.in, 1, 2048); CH<mode_s_msg> out(64); fill<uint16_t>(r, b.in); b.procedure(&out); });
}
template <class T> static void files(Rng& r) {
    bool small; size_t bs = bufsize(r, sizeof(T), small); string d = scratch(); string f = d + "/f" + std::to_string(r.below(3)); { std::ofstream o(f, std::ios::binary); o << "untouched"; } int kind = (int)r.below(6); const char* path = f.c_str(); string other; Want w = ACCEPT; switch (kind) { case 0: path = ""; w = REJECT; break; case 1: path = nullptr; w = REJECT; break; case 2: other = d + "/missing/f"; path = other.c_str(); w = REJECT; break; case 3: path = d.c_str(); w = REJECT; break; default: break; } if (small) w = REJECT;
    trial(vmon::fmt("SinkFileBlock(%s, buffer %zu)", path ? path : "null", bs), w, r, [&] { return std::make_unique<SinkFileBlock<T>>("b", path, bs); }, [&](SinkFileBlock<T>& b) { inputs<T>(r, &b.in, 1, bs ? bs : 4096 / sizeof(T)); fill<T>(r, b.in); b.procedure(); fill<T>(r, b.in); });
    if (w == REJECT) { std::ifstream i(f); string s; std::getline(i, s); if (s != "untouched") bad("ctor:effect", "a refused sink changed the file"); }
    int sk = (int)r.below(4); string sp = sk == 0 ? d + "/none" : sk == 1 ? string() : f; trial(vmon::fmt("SourceFileBlock(%s)", sp.c_str()), sk < 2 ? REJECT : ACCEPT, r, [&] { return std::make_unique<SourceFileBlock<T>>("b", sp.c_str(), r.chance(1, 2)); }, [&](SourceFileBlock<T>& b) { CH<T> out(4096); b.procedure(&out); });
}
static void sockets(Rng& r) {
    using namespace UDPBlock; string d = scratch(); struct A { SocketType t; string a; Want recv, send; }; vector<A> v = {{SocketType::INET_UDP, "127.0.0.1:0", ACCEPT, ANY}, {SocketType::INET_UDP, "127.0.0.1:40000", ANY, ACCEPT}, {SocketType::INET_UDP, "127.0.0.1", REJECT, REJECT}, {SocketType::INET_UDP, "127.0.0.1:", REJECT, REJECT}, {SocketType::INET_UDP, "127.0.0.1:70000", REJECT, REJECT}, {SocketType::INET_UDP, "127.0.0.1:65536", REJECT, REJECT}, {SocketType::INET_UDP, "127.0.0.1:65535", ANY, ACCEPT}, {SocketType::INET_UDP, "127.0.0.1:99999999999999999999", REJECT, REJECT}, {SocketType::INET_UDP, "127.0.0.1:-1", REJECT, REJECT}, {SocketType::INET_UDP, "127.0.0.1:12x", REJECT, REJECT}, {SocketType::INET_UDP, "no.such.number:1234", REJECT, REJECT}, {SocketType::INET_UDP, "300.0.0.1:1234", REJECT, REJECT}, {SocketType::INET6_UDP, "::1:0", ANY, ANY}, {SocketType::INET6_UDP, "zz:1234", REJECT, REJECT}, {SocketType::UNIX_DGRAM, d + "/sock", ACCEPT, ACCEPT}, {SocketType::UNIX_DGRAM, d + "/" + string(200, 'x'), REJECT, REJECT}, {SocketType::UNIX_DGRAM, d + "/missing/sock", REJECT, ACCEPT}, {SocketType::INET_UDP, "203.0.113.7:4000", REJECT, ACCEPT}, {(SocketType)7, "x:1", REJECT, REJECT}};
    A& a = r.pick(v); if (r.chance(1, 2)) { remove((d + "/sock").c_str()); trial(vmon::fmt("SourceUDPSocketBlock(%d, %s)", (int)a.t, a.a.c_str()), a.recv, r, [&] { return std::make_unique<SourceUDPSocketBlock<Blob>>("b", a.t, a.a, nullptr, nullptr, nullptr, 1 + r.below(100), 1 + r.below(10)); }, nouse<SourceUDPSocketBlock<Blob>>); struct stat st; if (!stat((d + "/sock").c_str(), &st)) bad("ctor:leak", "the socket's file is left"); }
    else if (r.chance(1, 2)) trial(vmon::fmt("SinkUDPSocketBlock(%d, %s)", (int)a.t, a.a.c_str()), a.send, r, [&] { return std::make_unique<SinkUDPSocketBlock<float>>("b", a.t, a.a); }, [&](SinkUDPSocketBlock<float>& b) { inputs<float>(r, &b.in, 1, 512); fill<float>(r, b.in); });
    else { remove((d + "/sock").c_str()); trial(vmon::fmt("SourceUDPSocketBlock<int>(%d, %s)", (int)a.t, a.a.c_str()), a.recv, r, [&] { return std::make_unique<SourceUDPSocketBlock<int>>("b", a.t, a.a); }, nouse<SourceUDPSocketBlock<int>>); }
}
static void plots(Rng& r) {
    size_t n = r.below(4); vector<string> l; for (size_t k = 0; k < n; ++k) l.push_back(r.chance(1, 3) ? string(60, 'l') : "l"); size_t sps = 1 + r.below(50000); float dur = r.chance(1, 3) ? special(r) : (float)r.real(0.01, 1); size_t N = r.chance(1, 3) ? r.below(7) : 4 + r.below(300), tall = r.below(5); SpectralWindow w = (SpectralWindow)r.below(6);
    trial(vmon::fmt("PlotTimeSeriesBlock(%zu signals, %zu samples/s, %g s)", n, sps, dur), !n || !(dur > 0) ? REJECT : ACCEPT, r, [&] { return std::make_unique<PlotTimeSeriesBlock>("b", l, sps, dur); }, [&](PlotTimeSeriesBlock& b) { inputs<float>(r, b.in, n, 1024); for (int k = 0; k < 3; ++k) { for (size_t j = 0; j < n; ++j) fill<float>(r, b.in[j]); b.procedure(); b.render(); } });
    bool rej = !n || N <= 2 || N % 2; trial(vmon::fmt("PlotCSpectrumBlock(%zu signals, %zu points)", n, N), rej ? REJECT : ACCEPT, r, [&] { return std::make_unique<PlotCSpectrumBlock>("b", l, sps, N, w); }, [&](PlotCSpectrumBlock& b) { inputs<cf>(r, b.in, n, 512); for (int k = 0; k < 3; ++k) { for (size_t j = 0; j < n; ++j) fill<cf>(r, b.in[j]); b.procedure(); b.render(); } });
    trial(vmon::fmt("PlotCSpectrogramBlock(%zu signals, %zu points, %zu rows)", n, N, tall), rej || !tall ? REJECT : ACCEPT, r, [&] { return std::make_unique<PlotCSpectrogramBlock>("b", l, sps, N, tall, w); }, [&](PlotCSpectrogramBlock& b) { inputs<cf>(r, b.in, n, 512); for (int k = 0; k < 3; ++k) { for (size_t j = 0; j < n; ++j) fill<cf>(r, b.in[j]); b.procedure(); b.render(); } });
}
static void c_ctor(uint64_t i, Rng& r) {
    SIG = i % 9; for (int k = 0; k < 6; ++k) switch (i % 9) { case 0: arithmetic<float>(r); break; case 1: arithmetic<cf>(r); break; case 2: filters<float>(r); break; case 3: filters<cf>(r); break; case 4: complexes(r); break; case 5: files<float>(r); break; case 6: files<cf>(r); break; case 7: sockets(r); break; default: plots(r); }
    if (__lsan_do_recoverable_leak_check) if (__lsan_do_recoverable_leak_check()) bad("ctor:leak", "LeakSanitizer found memory that nothing points to, after group %d", (int)(i % 9)); vmon::nontrivial(SIG);
}
int main(int argc, char** argv) { scratch(); { cler::Channel<float> first(8192); } return vmon::run(argc, argv, {{"ctor", c_ctor}}, 60); }
