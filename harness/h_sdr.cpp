// SDR and audio device blocks against devices of our own: exactly-once hand-over, faults, life cycle (C33).
#include "vmon.hpp"
#include <complex>
#include <iostream>
#include <memory>
#include <algorithm>
#include <stdexcept>
#include <cmath>
#include <deque>
#include <map>
#include <mutex>
#include <set>
#include <atomic>
#include <thread>
#include "cler.hpp"
#include "task_policies/cler_desktop_tpolicy.hpp"
#include <SoapySDR/Registry.hpp>
#include "sources/source_soapysdr.hpp"
#define get_soapy_format get_soapy_format_tx // both headers define it
#include "sinks/sink_soapysdr.hpp"
#undef get_soapy_format
#include "sources/source_hackrf.hpp"
#include "sinks/sink_hackrf.hpp"
#include "sinks/sink_audio.hpp"
#include "sources/source_cariboulite.hpp"
#include "sources/source_uhd.hpp"
#include "sinks/sink_uhd.hpp"
using vmon::Rng; using std::string; using std::vector; typedef std::complex<float> cf;
static string CTX; static const bool ctx_named = (vmon::ctxp() = &CTX, true);
#define bad(key, ...) vmon::violation(key, "%s", (CTX + ": " + vmon::fmt(__VA_ARGS__)).c_str())
template <class T> using CH = cler::Channel<T>;
struct Quiet { std::streambuf *a, *b; Quiet() : a(std::cout.rdbuf(nullptr)), b(std::cerr.rdbuf(nullptr)) {} ~Quiet() { std::cout.rdbuf(a); std::cerr.rdbuf(b); } };
static bool fatal(cler::Error e) { return (int)e >= (int)cler::Error::TERMINATE_FLOWGRAPH; }
// value number k of a stream
template <class T> static T val(uint64_t k) { uint64_t h = vmon::mix(k, 77); if constexpr (std::is_same_v<T, cf>) return cf((float)(k % 16000001), (float)(h % 1000)); else if constexpr (std::is_floating_point_v<T>) return (T)(k % 16000001); else if constexpr (std::is_integral_v<T>) return (T)(h ^ (h >> 32)); else { typedef typename T::value_type V; return T((V)h, (V)(h >> 20)); } }
template <class T> static size_t least() { return 4096 / sizeof(T); }
template <class T> static void compare(const char* key, const vector<T>& got, const vector<T>& want, bool whole) { size_t n = std::min(got.size(), want.size()); for (size_t i = 0; i < n; ++i) if (got[i] != want[i]) { bad(key, "sample %zu of %zu is not the one that was handed over", i, got.size()); return; } if (got.size() > want.size()) bad(key, "%zu samples, only %zu were handed over", got.size(), want.size()); else if (whole && got.size() < want.size()) bad(key, "%zu samples, %zu were handed over", got.size(), want.size()); }
template <class T> static void drain(Rng& r, CH<T>& c, vector<T>& to, bool all) { size_t n = c.size(); if (!all) n = r.below(n + 1); size_t b = to.size(); to.resize(b + n); if (n) c.readN(to.data() + b, n); }
struct Broken : std::runtime_error { using std::runtime_error::runtime_error; };
static long FAIL; static bool BROKE; // the FAIL-th call into the device fails
static bool broken() { if (FAIL && --FAIL == 0) { BROKE = true; return true; } return false; }

// ================= SoapySDR: the real library, our driver
namespace soapy {
struct Dev; static int devices, streams, active; static vector<string> errors; static Dev* last;
static double rmin = 1e5, rmax = 2e7, fmin = 1e6, fmax = 6e9, gmin = -10, gmax = 60; static bool has_bw = true, has_gm = true; static size_t MTU = 1024; static int setup_mode = 0; // 1: no stream, 2: activation fails
static void err(const string& s) { if (errors.size() < 5) errors.push_back(s); }
struct Dev : SoapySDR::Device {
    int dir = -1; size_t ch = 99; string format; double rate = 0, freq = 0, gain = -99, bw = 0; bool up = false, is_open = false, agc = true; size_t mtu = MTU; string ant = "A";
    std::function<int(void*, size_t)> rx; std::function<int(const void*, size_t)> tx;
    Dev() { devices++; last = this; } ~Dev() override { if (is_open) err("a device was released with a stream still open"); if (up) err("a device was released while streaming"); devices--; if (last == this) last = nullptr; }
    void b(const char* w) const { if (broken()) throw Broken(string(w) + " failed"); }
    void where(int d, size_t c) { if (dir < 0) dir = d, ch = c; if (d != dir || c != ch) err(vmon::fmt("direction %d channel %zu was set up, %d %zu is addressed", dir, ch, d, c)); }
    string getDriverKey() const override { return "vmon"; } string getHardwareKey() const override { return "none"; }
    SoapySDR::RangeList getSampleRateRange(const int, const size_t) const override { b("getSampleRateRange"); return {SoapySDR::Range(rmin / 4, rmin / 2), SoapySDR::Range(rmin, rmax)}; }
    SoapySDR::RangeList getFrequencyRange(const int, const size_t) const override { b("getFrequencyRange"); return {SoapySDR::Range(fmin, fmax)}; }
    SoapySDR::Range getGainRange(const int, const size_t) const override { b("getGainRange"); return SoapySDR::Range(gmin, gmax); }
    SoapySDR::RangeList getBandwidthRange(const int, const size_t) const override { b("getBandwidthRange"); return has_bw ? SoapySDR::RangeList{SoapySDR::Range(0, 1e9)} : SoapySDR::RangeList{}; }
    bool hasGainMode(const int, const size_t) const override { b("hasGainMode"); return has_gm; } void setGainMode(const int d, const size_t c, const bool a) override { where(d, c); b("setGainMode"); agc = a; }
    void setSampleRate(const int d, const size_t c, const double v) override { where(d, c); b("setSampleRate"); rate = v; } void setFrequency(const int d, const size_t c, const double v, const SoapySDR::Kwargs&) override { where(d, c); b("setFrequency"); freq = v; } void setGain(const int d, const size_t c, const double v) override { where(d, c); b("setGain"); gain = v; } void setBandwidth(const int d, const size_t c, const double v) override { where(d, c); b("setBandwidth"); bw = v; } double getBandwidth(const int, const size_t) const override { return bw; }
    vector<string> listAntennas(const int, const size_t) const override { b("listAntennas"); return {"A", "B"}; } void setAntenna(const int d, const size_t c, const string& n) override { where(d, c); if (n != "A" && n != "B") throw std::runtime_error("no such antenna"); ant = n; } string getAntenna(const int, const size_t) const override { return ant; }
    SoapySDR::Stream* setupStream(const int d, const string& f, const vector<size_t>& c, const SoapySDR::Kwargs&) override { b("setupStream"); if (setup_mode == 1) return nullptr; if (c.size() != 1) err("not one channel"); else where(d, c[0]); if (is_open) err("opened twice"); is_open = true; streams++; format = f; return reinterpret_cast<SoapySDR::Stream*>(this); }
    void chk(SoapySDR::Stream* s, bool need) { if (s != reinterpret_cast<SoapySDR::Stream*>(this) || !is_open) err("a stream that is not open is used"); if (need && !up) err("an inactive stream is used"); }
    void closeStream(SoapySDR::Stream* s) override { chk(s, false); if (up) err("an active stream was closed"); is_open = false; streams--; }
    size_t getStreamMTU(SoapySDR::Stream*) const override { b("getStreamMTU"); return mtu; }
    int activateStream(SoapySDR::Stream* s, const int, const long long, const size_t) override { chk(s, false); if (broken()) return SOAPY_SDR_STREAM_ERROR; if (setup_mode == 2) return SOAPY_SDR_NOT_SUPPORTED; up = true; active++; return 0; }
    int deactivateStream(SoapySDR::Stream* s, const int, const long long) override { chk(s, true); if (up) active--; up = false; return 0; }
    int readStream(SoapySDR::Stream* s, void* const* bu, const size_t n, int&, long long&, const long t) override { chk(s, true); if (t > 1000000) err("a read that blocks for more than a second"); return rx ? rx(bu[0], n) : SOAPY_SDR_TIMEOUT; }
    int writeStream(SoapySDR::Stream* s, const void* const* bu, const size_t n, int& flags, const long long, const long t) override { chk(s, true); if (t > 1000000) err("a write that blocks for more than a second"); if (flags) err("flags set"); return tx ? tx(bu[0], n) : SOAPY_SDR_TIMEOUT; }
};
static SoapySDR::KwargsList find(const SoapySDR::Kwargs&) { return {}; }
static SoapySDR::Device* make(const SoapySDR::Kwargs&) { if (broken()) throw Broken("make failed"); return new Dev; }
static void clean(const char* when) { for (auto& e : errors) bad("sdr:life", "%s: %s", when, e.c_str()); errors.clear(); if (devices || streams || active) bad("sdr:leak", "%s: %d devices, %d streams, %d active streams left", when, devices, streams, active); devices = streams = active = 0; }
static int FATAL[] = {SOAPY_SDR_STREAM_ERROR, SOAPY_SDR_CORRUPTION, SOAPY_SDR_NOT_SUPPORTED, SOAPY_SDR_TIME_ERROR};
struct Par { double f, ra, g; size_t ch; bool ok; int nd = 0; };
static Par par(Rng& r) { Par p{r.real(fmin, fmax), r.real(rmin, rmax), r.real(gmin, gmax), r.below(3), true}; int w = r.chance(1, 3) ? 1 + (int)r.below(6) : 0; const double nan = std::numeric_limits<double>::quiet_NaN(); if (w == 1) p.ra = r.chance(1, 4) ? nan : r.chance(1, 2) ? rmax * (1 + r.real(1e-9, 3)) : rmin * r.real(0.51, 0.999); if (w == 2) p.f = r.chance(1, 4) ? nan : r.chance(1, 2) ? fmax * (1 + r.real(1e-9, 3)) : fmin * r.real(-1, 0.999); if (w == 3) p.g = r.chance(1, 4) ? nan : r.chance(1, 2) ? gmax + r.real(1e-6, 50) : gmin - r.real(1e-6, 50); if (w == 4) setup_mode = 1; if (w == 5) setup_mode = 2; if (w == 6) { p.ra = r.chance(1, 2) ? rmin : rmax; p.f = r.chance(1, 2) ? fmin : fmax; p.g = r.chance(1, 2) ? gmin : gmax; } p.ok = w == 0 || w == 6; return p; }
static bool verdict(const Par& p, bool made, const string& what) { if (!BROKE && made != p.ok) bad("sdr:verdict", "%s%s", made ? "accepted what the device does not support" : "refused: ", what.c_str()); if (BROKE && made) bad("sdr:verdict", "built although a call into the device failed"); if (!made) { if (what.empty()) bad("sdr:verdict", "refused without a message"); clean("after a failed construction"); } return made; }
static void setup_seen(const Par& p, int dir, const string& format) { Dev& d = *last; if (d.dir != dir || d.ch != p.ch || d.rate != p.ra || d.freq != p.f || d.gain != p.g || d.format != format || (has_bw && d.bw != p.ra) || (has_gm && d.agc) || !d.up) bad("sdr:setup", "the device got direction %d channel %zu rate %g frequency %g gain %g bandwidth %g format %s", d.dir, d.ch, d.rate, d.freq, d.gain, d.bw, d.format.c_str()); }
template <class B, class MK> static std::unique_ptr<B> build(Rng& r, const Par& p, MK mk) { std::unique_ptr<B> b; string what; BROKE = false; FAIL = r.chance(1, 4) ? 1 + (long)r.below(20) : 0; if (FAIL) vmon::stat("device_faults", 1); try { b = mk(); } catch (const std::exception& e) { what = e.what(); } FAIL = 0; verdict(p, !!b, what); vmon::stat(b ? "constructed" : "refused", 1); return b; }
template <class B> static void knobs(Rng& r, B& b) { Dev& d = *last; double v = r.real(1, 1e9); switch (r.below(6)) { case 0: b.set_frequency(v); if (d.freq != v || b.get_frequency() != v) bad("sdr:setup", "set_frequency"); break; case 1: b.set_gain(v); if (d.gain != v || b.get_gain() != v) bad("sdr:setup", "set_gain"); break; case 2: b.set_sample_rate(v); if (d.rate != v || b.get_sample_rate() != v || (has_bw && d.bw != v)) bad("sdr:setup", "set_sample_rate"); break; case 3: b.set_bandwidth(v); if (d.bw != v) bad("sdr:setup", "set_bandwidth"); break; case 4: b.set_antenna("B"); if (d.ant != "B" || b.get_antenna() != "B") bad("sdr:setup", "set_antenna"); break; default: { bool t = false; try { b.set_antenna("Z"); } catch (const std::exception&) { t = true; } if (!t) bad("sdr:setup", "an unknown antenna was accepted"); } } }
template <class T> static void source(Rng& r) {
    MTU = r.chance(1, 3) ? 1 + r.below(50) : 1 + r.below(5000); has_bw = r.chance(1, 2); has_gm = r.chance(1, 2); setup_mode = 0; Par p = par(r); CTX = vmon::fmt("SourceSoapySDRBlock<%zu bytes>(rate %g, frequency %g, gain %g, channel %zu, MTU %zu)", sizeof(T), p.ra, p.f, p.g, p.ch, MTU);
    auto b = build<SourceSoapySDRBlock<T>>(r, p, [&] { return std::make_unique<SourceSoapySDRBlock<T>>("b", "driver=vmon", p.f, p.ra, p.g, p.ch); }); if (!b) return; setup_seen(p, SOAPY_SDR_RX, get_soapy_format<T>());
    Dev& d = *last; vector<T> gave, got; uint64_t k = r.next() >> 20; int last_ret = 0; size_t room = 0; uint64_t sig = MTU, over = 0; bool dead = false; const bool flaky = r.chance(2, 3), storm = r.chance(1, 10); const int only = (int)r.below(3);   // a storm: one kind of hitch hundreds of times on end
    d.rx = [&](void* bu, size_t n) { if (!n) err("a read of nothing"); if (n > d.mtu) err("a read beyond the MTU"); if (n > room) err("a read beyond the room in the output"); int what = storm && !r.chance(1, 100) ? (only == 2 ? (int)r.below(2) : only) : flaky ? (int)r.below(8) : 7; int ret; if (what == 0) ret = SOAPY_SDR_TIMEOUT; else if (what == 1) { ret = SOAPY_SDR_OVERFLOW; k += 1 + r.below(1000); over++; } else if (what == 2 && r.chance(1, 20)) { ret = FATAL[r.below(4)]; } else { size_t m = r.chance(1, 2) ? n : 1 + r.below(n); T* o = (T*)bu; for (size_t i = 0; i < m; ++i) { o[i] = val<T>(k++); gave.push_back(o[i]); } ret = (int)m; } last_ret = ret; sig = vmon::mix(sig, (uint64_t)(ret + 100)); return ret; };
    CH<T> out(least<T>() + r.below(4 * least<T>())); size_t calls = storm ? 100 + r.below(500) : 30 + r.below(100);
    for (size_t c = 0; c < calls && !dead; ++c) { room = out.space(); size_t had = out.size(); last_ret = 1 << 30; auto res = b->procedure(&out); vmon::evals(); size_t now = out.size(); if (!room) { if (last_ret != 1 << 30) bad("sdr:lost", "read from the device without room for the samples"); if (!res.is_err() || fatal(res.unwrap_err())) bad("sdr:result", "a full output is no reason for this result"); } else if (last_ret == 1 << 30) bad("sdr:idle", "did not ask the device although there was room for %zu", room); else if (last_ret > 0) { if (now - had != (size_t)last_ret) bad("sdr:lost", "the device handed over %d samples, %zu arrived", last_ret, now - had); if (res.is_err()) bad("sdr:result", "an error although samples arrived"); } else { if (now != had) bad("sdr:lost", "samples arrived that the device did not hand over"); if (last_ret == SOAPY_SDR_TIMEOUT || last_ret == SOAPY_SDR_OVERFLOW) { if (res.is_err() && fatal(res.unwrap_err())) bad("sdr:result", "a time-out or overflow ended the flowgraph"); } else { dead = true; if (!res.is_err() || !fatal(res.unwrap_err())) bad("sdr:result", "device error %d did not end the flowgraph", last_ret); } } if (r.chance(1, 2)) drain(r, out, got, r.chance(1, 3)); if (r.chance(1, 20)) knobs(r, *b); }
    drain(r, out, got, true); compare("sdr:lost", got, gave, true); vmon::stat("samples_received", gave.size()); vmon::stat("overflows", over); b.reset(); clean("after destruction"); vmon::nontrivial(sig);
}
template <class T> static void sink(Rng& r) {
    MTU = r.chance(1, 3) ? 1 + r.below(50) : 1 + r.below(5000); has_bw = r.chance(1, 2); has_gm = r.chance(1, 2); setup_mode = 0; Par p = par(r); size_t cs = r.chance(1, 3) ? 0 : r.chance(1, 8) ? (r.chance(1, 3) ? 1 : r.chance(1, 3) ? least<T>() - 1 : 1 + r.below(least<T>() - 1)) : least<T>() + r.below(4 * least<T>()); if (cs && cs < least<T>()) p.ok = false; CTX = vmon::fmt("SinkSoapySDRBlock<%zu bytes>(rate %g, frequency %g, gain %g, channel %zu, size %zu, MTU %zu)", sizeof(T), p.ra, p.f, p.g, p.ch, cs, MTU);
    auto b = build<SinkSoapySDRBlock<T>>(r, p, [&] { return std::make_unique<SinkSoapySDRBlock<T>>("b", "driver=vmon", p.f, p.ra, p.g, p.ch, cs); }); if (!b) return; setup_seen(p, SOAPY_SDR_TX, get_soapy_format_tx<T>());
    Dev& d = *last; vector<T> fed, got; uint64_t k = r.next() >> 20; uint64_t sig = MTU; bool died = false; int zeros = 0; const bool flaky = r.chance(2, 3); bool timed = false; const bool storm = r.chance(1, 10); const int only = (int)r.below(2);
    d.tx = [&](const void* bu, size_t n) { if (!n) err("a write of nothing"); if (n > d.mtu) err("a write beyond the MTU"); int what = storm && !r.chance(1, 100) ? only : flaky ? (int)r.below(9) : 8; size_t m = r.chance(1, 2) ? n : 1 + r.below(n); int ret; if (what == 0) { ret = SOAPY_SDR_TIMEOUT; timed = true; } else if (what == 2 && r.chance(1, 20)) { ret = FATAL[r.below(4)]; died = true; } else if (what == 3 && zeros < 3) { zeros++; return 0; } else { if (what == 1) { m = n; ret = SOAPY_SDR_UNDERFLOW; } else ret = (int)m; const T* i = (const T*)bu; got.insert(got.end(), i, i + m); } if (what != 3) zeros = 0; sig = vmon::mix(sig, (uint64_t)(ret + 100)); return ret; };
    size_t calls = storm ? 100 + r.below(300) : 20 + r.below(60); for (size_t c = 0; c < calls && !died; ++c) { if (r.chance(2, 3)) { size_t n = std::min(b->in.space(), r.chance(1, 3) ? SIZE_MAX : r.below(3000)); vector<T> v(n); for (auto& x : v) x = val<T>(k++); if (n) b->in.writeN(v.data(), n); fed.insert(fed.end(), v.begin(), v.end()); } size_t had = b->in.size(), g0 = got.size(); timed = false; auto res = b->procedure(); vmon::evals(); size_t took = had - b->in.size(); if (took != got.size() - g0) bad("sdr:lost", "%zu samples left the input, the device took %zu", took, got.size() - g0); if (!had && (!res.is_err() || fatal(res.unwrap_err()))) bad("sdr:result", "nothing to send, result %d", res.is_err()); if (died && (!res.is_err() || !fatal(res.unwrap_err()))) bad("sdr:result", "a device error did not end the flowgraph"); if (!died && res.is_err() && fatal(res.unwrap_err())) bad("sdr:result", "ended the flowgraph although the device is well"); if (had && !timed && !died && took != had) bad("sdr:idle", "sent %zu of %zu samples", took, had); if (r.chance(1, 20)) if (!r.chance(1, 8)) { double v = r.real(1, 1e9); b->set_frequency(v); if (d.freq != v) bad("sdr:setup", "set_frequency"); b->set_gain(1); if (d.gain != 1) bad("sdr:setup", "set_gain"); b->set_sample_rate(v); if (d.rate != v || (has_bw && d.bw != v)) bad("sdr:setup", "set_sample_rate"); } }
    compare("sdr:lost", got, fed, false); if (fed.size() - got.size() != b->in.size()) bad("sdr:lost", "%zu fed, %zu sent, %zu waiting", fed.size(), got.size(), b->in.size()); vmon::stat("samples_sent", got.size()); b.reset(); clean("after destruction"); vmon::nontrivial(sig);
}
}
static void c_soapy(uint64_t i, Rng& r) { static SoapySDR::Registry reg("vmon", soapy::find, soapy::make, SOAPY_SDR_ABI_VERSION); Quiet q; switch (i % 8) { case 0: soapy::source<cf>(r); soapy::sink<cf>(r); break; case 1: soapy::source<std::complex<int16_t>>(r); soapy::sink<std::complex<int16_t>>(r); break; case 2: soapy::source<std::complex<int8_t>>(r); soapy::sink<std::complex<int8_t>>(r); break; case 3: soapy::source<std::complex<uint8_t>>(r); soapy::sink<std::complex<uint8_t>>(r); break; case 4: soapy::source<int32_t>(r); soapy::sink<int32_t>(r); break; case 5: soapy::source<int16_t>(r); soapy::sink<int16_t>(r); break; case 6: soapy::source<uint8_t>(r); soapy::sink<uint8_t>(r); break; default: soapy::source<float>(r); soapy::sink<float>(r); } }

// ================= HackRF: callbacks from the library's own thread
struct hackrf_device { hackrf_sample_block_cb_fn cb = nullptr; void* ctx = nullptr; bool rx = false, tx = false; uint64_t freq = 0; double rate = 0; uint32_t lna = 99, vga = 99, txvga = 99; int amp = -1; std::thread th; std::atomic<bool> run{false}; };
namespace hrf { static hackrf_device* dev; static int open, init; static std::function<void(hackrf_device*)> worker; static std::mutex em; static vector<string> errors; static void err(const string& s) { std::lock_guard<std::mutex> l(em); if (errors.size() < 5) errors.push_back(s); }
static void chk(hackrf_device* d, const char* f) { if (!d || d != dev) err(vmon::fmt("%s on a device that is not open", f)); } 
static int start(hackrf_device* d, hackrf_sample_block_cb_fn f, void* ctx, bool rx) { chk(d, "start"); if (broken()) return HACKRF_ERROR_LIBUSB; d->cb = f; d->ctx = ctx; (rx ? d->rx : d->tx) = true; if (worker) { d->run = true; d->th = std::thread([d] { worker(d); }); } return HACKRF_SUCCESS; }
static int stop(hackrf_device* d) { chk(d, "stop"); d->run = false; if (d->th.joinable()) d->th.join(); d->rx = d->tx = false; d->cb = nullptr; return HACKRF_SUCCESS; } 
static void clean(const char* when) { for (auto& e : errors) bad("sdr:life", "%s: %s", when, e.c_str()); errors.clear(); if (open) bad("sdr:leak", "%s: %d devices left open", when, open); open = 0; dev = nullptr; } }
extern "C" { int hackrf_init(void) { if (broken()) return HACKRF_ERROR_LIBUSB; hrf::init = 1; return 0; } int hackrf_exit(void) { if (!hrf::open) hrf::init = 0; return 0; } int hackrf_open(hackrf_device** d) { if (!hrf::init) hrf::err("opened without initialisation"); if (broken()) return HACKRF_ERROR_NOT_FOUND; *d = hrf::dev = new hackrf_device; hrf::open++; return 0; }
int hackrf_close(hackrf_device* d) { hrf::chk(d, "close"); if (d->rx || d->tx) { hrf::stop(d); } delete d; hrf::dev = nullptr; hrf::open--; return 0; }
int hackrf_start_rx(hackrf_device* d, hackrf_sample_block_cb_fn f, void* c) { return hrf::start(d, f, c, true); } int hackrf_stop_rx(hackrf_device* d) { return hrf::stop(d); } int hackrf_start_tx(hackrf_device* d, hackrf_sample_block_cb_fn f, void* c) { return hrf::start(d, f, c, false); } int hackrf_stop_tx(hackrf_device* d) { return hrf::stop(d); }
#define SETTER(name, type, field) int hackrf_set_##name(hackrf_device* d, type v) { hrf::chk(d, "set_" #name); if (broken()) return HACKRF_ERROR_INVALID_PARAM; d->field = v; return 0; }
SETTER(freq, const uint64_t, freq) SETTER(sample_rate, const double, rate) SETTER(amp_enable, const uint8_t, amp) SETTER(lna_gain, uint32_t, lna) SETTER(vga_gain, uint32_t, vga) SETTER(txvga_gain, uint32_t, txvga) }
static int8_t rxI(uint64_t k) { return (int8_t)(k % 251 - 125); } static int8_t rxQ(uint64_t k) { return (int8_t)(k / 251 % 256 - 128); }
// sample k of the transmit stream; full scale and beyond included; never close to the zeros that fill gaps
static cf txS(uint64_t k) { float q = (float)(k / 127 % 100) - 50; return cf(((float)(k % 127) + 1.5f) / 127 * (k % 53 == 0 ? 3.f : 1.f) * (k & 1 ? 1.f : -1.f), q / 40); }
static float lim(float v) { return v < -1 ? -1 : v > 1 ? 1 : v; }
static bool txsame(const uint8_t* p, cf s) { return std::fabs((float)(int8_t)p[0] - lim(s.real()) * 127.5f) <= 1.51f && std::fabs((float)(int8_t)p[1] - lim(s.imag()) * 127.5f) <= 1.51f; }
template <class B, class MK> static std::unique_ptr<B> hbuild(Rng& r, bool ok, MK mk) { std::unique_ptr<B> b; string what; BROKE = false; FAIL = r.chance(1, 4) ? 1 + (long)r.below(9) : 0; try { b = mk(); } catch (const std::exception& e) { what = e.what(); } FAIL = 0; if (BROKE) { vmon::stat("device_faults", 1); if (b) bad("sdr:verdict", "built although a call into the device failed"); } else if (!!b != ok) bad("sdr:verdict", "%s%s", b ? "accepted" : "refused: ", what.c_str()); if (!b) hrf::clean("after a failed construction"); vmon::stat(b ? "constructed" : "refused", 1); return b; }
static size_t hsize(Rng& r) { return r.chance(1, 3) ? 0 : r.chance(1, 8) ? (r.chance(1, 3) ? 1 : 1 + r.below(511)) : 512 + r.below(4000); }
static void hackrf_rx(Rng& r) {
    size_t bs = hsize(r); uint64_t f = r.next() >> 30; uint32_t ra = (uint32_t)r.next(); int lna = (int)r.below(6) * 8, vga = (int)r.below(32) * 2; bool amp = r.chance(1, 2); CTX = vmon::fmt("SourceHackRFBlock(buffer %zu)", bs); hrf::worker = nullptr;
    auto b = hbuild<SourceHackRFBlock>(r, !(bs && bs < 512), [&] { return std::make_unique<SourceHackRFBlock>("b", f, ra, lna, vga, amp, bs); }); if (!b) return; hackrf_device* d = hrf::dev; if (d->freq != f || d->rate != ra || d->lna != (uint32_t)lna || d->vga != (uint32_t)vga || d->amp != (amp ? 1 : 0) || !d->rx) bad("sdr:setup", "the device was set up differently");
    CH<cf> out(512 + r.below(3000)); vector<cf> got, want; uint64_t k = r.next() >> 30, sig = bs; size_t lost = 0, total = 0, in_block = 0, cap = SIZE_MAX;
    auto proc = [&] { size_t room = out.space(), had = out.size(); auto res = b->procedure(&out); vmon::evals(); size_t m = out.size() - had; if (res.is_err() && (fatal(res.unwrap_err()) || m)) bad("sdr:result", "error after %zu samples", m); if (m != std::min(room, in_block)) bad("sdr:idle", "moved %zu of %zu samples with room for %zu", m, in_block, room); in_block -= m; };
    for (int c = 0, n = 20 + (int)r.below(40); c < n; ++c) { if (r.chance(1, 2)) { int len = 2 * (int)(r.chance(1, 3) ? r.below(4) : r.below(3000)); vector<uint8_t> buf((size_t)len + 2 * r.below(2)); for (int i = 0; i < len; i += 2) { buf[i] = (uint8_t)rxI(k); buf[i + 1] = (uint8_t)rxQ(k); ++k; } uint64_t k0 = k - (uint64_t)len / 2; size_t o0 = b->get_overflow_count(); hackrf_transfer t{d, buf.data(), (int)buf.size(), len, d->ctx, nullptr}; if (d->cb(&t)) bad("sdr:result", "the callback asks to stop"); size_t l = b->get_overflow_count() - o0; if (l > (size_t)len / 2) { bad("sdr:lost", "%zu overflows for %d samples", l, len / 2); break; } size_t kept = (size_t)len / 2 - l; for (size_t i = 0; i < kept; ++i) want.emplace_back((float)rxI(k0 + i) / 128, (float)rxQ(k0 + i) / 128); in_block += kept; if (l) { if (cap == SIZE_MAX) cap = in_block; if (in_block != cap) bad("sdr:lost", "overflow with %zu samples waiting, before with %zu", in_block, cap); if (in_block < (bs ? bs : 512)) bad("sdr:lost", "overflow with only %zu samples waiting", in_block); } lost += l; total += (size_t)len / 2; sig = vmon::mix(sig, (uint64_t)len * 3 + l); } else proc(); if (r.chance(1, 2)) drain(r, out, got, r.chance(1, 2));
        if (r.chance(1, 10)) { FAIL = r.chance(1, 3) ? 1 : 0; BROKE = false; uint64_t was = b->get_frequency(); b->set_frequency(123); if (b->get_frequency() != (BROKE ? was : 123) || (!BROKE && d->freq != 123)) bad("sdr:setup", "set_frequency"); FAIL = 0; b->set_lna_gain(8); b->set_vga_gain(10); b->set_amp_enable(true); if (d->lna != 8 || d->vga != 10 || d->amp != 1 || b->get_lna_gain() != 8 || b->get_vga_gain() != 10 || !b->get_amp_enable()) bad("sdr:setup", "gain"); } }
    for (int z = 0; z < 50 && in_block; ++z) { drain(r, out, got, true); proc(); } drain(r, out, got, true); compare("sdr:lost", got, want, true); vmon::stat("samples_received", total); vmon::stat("overflows", lost); b.reset(); hrf::clean("after destruction"); vmon::nontrivial(sig);
}
static void hackrf_tx(Rng& r) {
    size_t bs = hsize(r); int vga = (int)r.below(48); bool amp = r.chance(1, 2); uint64_t f = r.next() >> 30; CTX = vmon::fmt("SinkHackRFBlock(buffer %zu)", bs); hrf::worker = nullptr;
    auto b = hbuild<SinkHackRFBlock>(r, !(bs && bs < 512), [&] { return std::make_unique<SinkHackRFBlock>("b", f, 2000000, vga, amp, bs); }); if (!b) return; hackrf_device* d = hrf::dev; if (d->freq != f || d->rate != 2e6 || d->txvga != (uint32_t)vga || d->amp != (amp ? 1 : 0) || !d->tx) bad("sdr:setup", "the device was set up differently");
    uint64_t in = 0, out = 0, sig = bs; size_t under = 0; uint64_t base = r.next() >> 30; for (int c = 0, n = 20 + (int)r.below(60); c < n; ++c) { if (r.chance(1, 2)) { size_t m = std::min(b->in.space(), r.below(3000)); vector<cf> v(m); for (auto& x : v) x = txS(base + in++); if (m) b->in.writeN(v.data(), m); } if (r.chance(1, 4)) { auto res = b->procedure(); if (res.is_err() && fatal(res.unwrap_err())) bad("sdr:result", "ended the flowgraph"); } if (r.chance(1, 2)) { size_t len = 1 + (r.chance(1, 4) ? r.below(4) : r.below(3000)); vector<uint8_t> buf(2 * len, 0x55); hackrf_transfer t{d, buf.data(), (int)buf.size(), (int)buf.size(), nullptr, d->ctx}; if (d->cb(&t)) bad("sdr:result", "the callback asks to stop"); vmon::evals(); size_t m = std::min<size_t>(len, in - out); for (size_t i = 0; i < m; ++i) if (!txsame(&buf[2 * i], txS(base + out + i))) { cf s = txS(base + out + i); bad("sdr:lost", "sample %zu of %zu goes out as (%d, %d), should be (%g, %g) of full scale", i, len, (int8_t)buf[2 * i], (int8_t)buf[2 * i + 1], lim(s.real()), lim(s.imag())); break; } out += m; for (size_t i = m; i < len; ++i) if (buf[2 * i] || buf[2 * i + 1]) { bad("sdr:lost", "a gap is not silent"); break; } if (m < len) under++; if (b->get_underrun_count() != under) bad("sdr:count", "%zu underruns counted, %zu happened", b->get_underrun_count(), under); under = b->get_underrun_count(); if (b->in.size() != in - out) bad("sdr:lost", "%zu samples waiting, should be %zu", b->in.size(), (size_t)(in - out)); sig = vmon::mix(sig, len * 5000 + m); } }
    vmon::stat("samples_sent", out); b.reset(); hrf::clean("after destruction"); vmon::nontrivial(sig);
}
static void c_hackrf(uint64_t, Rng& r) { Quiet q; hackrf_rx(r); hackrf_tx(r); }
// with the library's thread, in a running flowgraph
struct Keep : cler::BlockBase { CH<cf> in{4096}; vector<cf> got; std::atomic<size_t> n_got{0}; Keep() : BlockBase("keep") {} cler::Result<cler::Empty, cler::Error> procedure() { auto [p, n] = in.read_dbf(); if (!n) return cler::Error::NotEnoughSamples; got.insert(got.end(), p, p + n); in.commit_read(n); n_got += n; return cler::Empty{}; } };
struct Feed : cler::BlockBase { uint64_t k = 0, base = 0; size_t max; Feed(size_t m) : BlockBase("feed"), max(m) {} cler::Result<cler::Empty, cler::Error> procedure(cler::ChannelBase<cf>* out) { auto [p, n] = out->write_dbf(); n = std::min(n, max); if (!n) return cler::Error::NotEnoughSpace; for (size_t i = 0; i < n; ++i) p[i] = txS(base + k++); out->commit_write(n); return cler::Empty{}; } };
static void c_hackrf_mt(uint64_t i, Rng& r) {
    Quiet q; FAIL = 0; cler::FlowGraphConfig cfg; cfg.scheduler = r.chance(1, 2) ? cler::SchedulerType::ThreadPerBlock : cler::SchedulerType::FixedThreadPool; int blocks = 20 + (int)r.below(60); size_t len = r.chance(1, 2) ? 1 + r.below(40) : 1 + r.below(3000); unsigned us = (unsigned)r.below(300); size_t bs = r.chance(1, 2) ? 512 : 512 + r.below(8000); CTX = vmon::fmt("%s in a flowgraph, %d transfers of %zu samples every %u us, buffer %zu", i & 1 ? "SinkHackRFBlock" : "SourceHackRFBlock", blocks, len, us, bs);
    if (!(i & 1)) {
        std::atomic<int> done{0}; hrf::worker = [&](hackrf_device* d) { uint64_t k = 0; for (int c = 0; c < blocks && d->run; ++c) { vector<uint8_t> buf(2 * len); for (size_t j = 0; j < len; ++j) { buf[2 * j] = (uint8_t)rxI(k); buf[2 * j + 1] = (uint8_t)rxQ(k); ++k; } hackrf_transfer t{d, buf.data(), (int)buf.size(), (int)buf.size(), d->ctx, nullptr}; d->cb(&t); done++; if (us) std::this_thread::sleep_for(std::chrono::microseconds(us)); } };
        auto b = std::make_unique<SourceHackRFBlock>("b", 1, 2, 0, 0, false, bs); Keep keep; { auto fg = cler::make_desktop_flowgraph(cler::BlockRunner(b.get(), &keep.in), cler::BlockRunner(&keep)); fg.run(cfg); bool early = r.chance(1, 4); if (early) { std::this_thread::sleep_for(std::chrono::microseconds(r.below(3000))); } else { while (done < blocks) { std::this_thread::sleep_for(std::chrono::milliseconds(1)); } for (int z = 0; z < 20000 && keep.n_got + b->get_overflow_count() != (size_t)blocks * len; ++z) std::this_thread::sleep_for(std::chrono::milliseconds(1)); } fg.stop(); if (!early) { size_t lost = b->get_overflow_count(); if (keep.got.size() + lost != (size_t)blocks * len) bad("sdr:lost", "%zu samples arrived and %zu were lost of %zu", keep.got.size(), lost, (size_t)blocks * len); } }
        vmon::tick(); size_t lost = b->get_overflow_count(); uint64_t k = 0, skipped = 0; const uint64_t per = 251 * 256; for (size_t j = 0; j < keep.got.size(); ++j) { int a = (int)std::lround(keep.got[j].real() * 128), c = (int)std::lround(keep.got[j].imag() * 128); uint64_t x = 0; { uint64_t lo = (uint64_t)(a + 125), hi = (uint64_t)(c + 128); x = hi * 251 + lo; } uint64_t gap = (x + per - k % per) % per; skipped += gap; k += gap + 1; if (a < -125 || a > 125) { bad("sdr:lost", "a sample that was never received"); break; } } if (skipped > lost) bad("sdr:lost", "samples are missing or out of order: %llu skipped, %zu overflows counted", (unsigned long long)skipped, lost); vmon::stat("samples_received", keep.got.size()); vmon::stat("overflows", lost); b.reset(); vmon::nontrivial(vmon::mix(keep.got.size(), lost)); vmon::evals();
    } else {
        vector<uint8_t> sent; std::atomic<int> done{0}; hrf::worker = [&](hackrf_device* d) { for (int c = 0; c < blocks && d->run; ++c) { vector<uint8_t> buf(2 * len, 0x55); hackrf_transfer t{d, buf.data(), (int)buf.size(), (int)buf.size(), nullptr, d->ctx}; d->cb(&t); sent.insert(sent.end(), buf.begin(), buf.end()); done++; if (us) std::this_thread::sleep_for(std::chrono::microseconds(us)); } };
        auto b = std::make_unique<SinkHackRFBlock>("b", 1, 2, 0, false, bs); Feed feed(r.chance(1, 2) ? SIZE_MAX : 1 + r.below(500)); { auto fg = cler::make_desktop_flowgraph(cler::BlockRunner(&feed, &b->in), cler::BlockRunner(b.get())); fg.run(cfg); while (done < blocks) std::this_thread::sleep_for(std::chrono::milliseconds(1)); fg.stop(); }
        vmon::tick(); size_t under = b->get_underrun_count(), waiting = b->in.size(); b.reset(); uint64_t k = 0; size_t gaps = 0; for (size_t t = 0; t < (size_t)done; ++t) { bool gap = false; for (size_t j = 0; j < len; ++j) { const uint8_t* p = &sent[2 * (t * len + j)]; if (!p[0] && !p[1]) { gap = true; continue; } if (gap) { bad("sdr:lost", "samples after a gap within a transfer"); break; } if (!txsame(p, txS(k))) { bad("sdr:lost", "sample %llu goes out as (%d, %d)", (unsigned long long)k, (int8_t)p[0], (int8_t)p[1]); t = 1 << 30; break; } ++k; } gaps += gap; } if (gaps != under) bad("sdr:count", "%zu underruns counted, %zu transfers fell short", under, gaps); if (k + waiting != feed.k) bad("sdr:lost", "%llu made, %llu sent, %zu waiting", (unsigned long long)feed.k, (unsigned long long)k, waiting); vmon::stat("samples_sent", k); vmon::nontrivial(vmon::mix(k, under)); vmon::evals();
    }
    hrf::worker = nullptr; hrf::clean("after destruction");
}

// ================= PortAudio
namespace pa { static int inits, open, started, ndev = 3, defdev = 1; static vector<string> errors; static std::function<PaError(const void*, unsigned long)> write; static void err(const string& s) { if (errors.size() < 5) errors.push_back(s); } static PaStreamParameters par; static double rate; static int in_open; static PaDeviceInfo info;
static void clean(const char* when) { for (auto& e : errors) bad("sdr:life", "%s: %s", when, e.c_str()); errors.clear(); if (inits || open || started) bad("sdr:leak", "%s: %d initialisations, %d streams open, %d started left", when, inits, open, started); inits = open = started = 0; } }
extern "C" { PaError Pa_Initialize(void) { if (broken()) return paInternalError; pa::inits++; return paNoError; } PaError Pa_Terminate(void) { if (!pa::inits) pa::err("terminated more often than initialised"); else pa::inits--; if (!pa::inits) { pa::open = pa::started = 0; } return paNoError; } const char* Pa_GetErrorText(PaError) { return "error text"; }
PaDeviceIndex Pa_GetDeviceCount(void) { if (!pa::inits) pa::err("used before initialisation"); if (broken()) return paInternalError; return pa::ndev; } PaDeviceIndex Pa_GetDefaultOutputDevice(void) { if (broken()) return paNoDevice; return pa::defdev; } const PaDeviceInfo* Pa_GetDeviceInfo(PaDeviceIndex i) { if (i < 0 || i >= pa::ndev) return nullptr; pa::info.defaultHighOutputLatency = 0.1; pa::info.maxOutputChannels = 1; pa::info.name = "fake"; return &pa::info; }
PaError Pa_OpenStream(PaStream** s, const PaStreamParameters* in, const PaStreamParameters* out, double rate, unsigned long, PaStreamFlags, PaStreamCallback* cb, void*) { if (!pa::inits) pa::err("opened before initialisation"); if (in || cb || !out) pa::err("not a blocking output stream"); if (broken()) return paDeviceUnavailable; if (!(rate > 0)) return paInvalidSampleRate; pa::par = *out; pa::rate = rate; pa::open++; *s = (PaStream*)&pa::info; return paNoError; }
PaError Pa_StartStream(PaStream*) { if (broken()) return paUnanticipatedHostError; pa::started++; return paNoError; } PaError Pa_StopStream(PaStream*) { if (!pa::started) pa::err("stopped when not started"); else pa::started--; return paNoError; } PaError Pa_CloseStream(PaStream*) { if (!pa::open) pa::err("closed when not open"); else pa::open--; return paNoError; }
PaError Pa_WriteStream(PaStream* s, const void* p, unsigned long n) { if (s != (PaStream*)&pa::info || !pa::open || !pa::started) pa::err("written to a stream that is not running"); return pa::write(p, n); } }
static void c_audio(uint64_t, Rng& r) {
    Quiet q; size_t bs = r.chance(1, 3) ? 0 : r.chance(1, 8) ? (r.chance(1, 3) ? 1 : r.chance(1, 3) ? 1023 : 1 + r.below(1023)) : 1024 + r.below(8000); double rate = r.chance(1, 6) ? r.pick({0., -1., 1000001., 1e9, std::numeric_limits<double>::quiet_NaN()}) : r.real(1, 1e6); int dev = r.chance(1, 2) ? paNoDevice : (int)r.range(-3, 5); pa::ndev = (int)r.below(5); pa::defdev = pa::ndev ? (int)r.below((uint64_t)pa::ndev) : -1; bool ok = !(bs && bs < 1024) && rate > 0 && rate <= 1e6 && (dev == paNoDevice ? pa::defdev >= 0 : dev >= 0 && dev < pa::ndev); CTX = vmon::fmt("SinkAudioBlock(rate %g, device %d of %d, buffer %zu)", rate, dev, pa::ndev, bs);
    std::unique_ptr<SinkAudioBlock> b; string what; BROKE = false; FAIL = r.chance(1, 4) ? 1 + (long)r.below(5) : 0; try { b = std::make_unique<SinkAudioBlock>("b", rate, dev, bs); } catch (const std::exception& e) { what = e.what(); } FAIL = 0; if (BROKE) { vmon::stat("device_faults", 1); if (b) bad("sdr:verdict", "built although a call into the library failed"); } else if (!!b != ok) bad("sdr:verdict", "%s%s", b ? "accepted" : "refused: ", what.c_str()); vmon::stat(b ? "constructed" : "refused", 1); if (!b) { pa::clean("after a failed construction"); return; }
    if (pa::par.channelCount != 1 || pa::par.sampleFormat != paFloat32 || pa::rate != rate || pa::par.device != (dev == paNoDevice ? pa::defdev : dev)) bad("sdr:setup", "the stream was opened differently");
    vector<float> fed, got; uint64_t k = r.next() >> 44, sig = bs; bool died = false; pa::write = [&](const void* p, unsigned long n) -> PaError { if (!n) pa::err("a write of nothing"); int w = (int)r.below(12); if (w == 0 && r.chance(1, 6)) { died = true; return r.chance(1, 2) ? paUnanticipatedHostError : paTimedOut; } const float* f = (const float*)p; got.insert(got.end(), f, f + n); sig = vmon::mix(sig, n * 2 + (w == 1)); return w == 1 ? paOutputUnderflowed : paNoError; };
    for (int c = 0, n = 20 + (int)r.below(60); c < n && !died; ++c) { if (r.chance(2, 3)) { size_t m = std::min(b->in.space(), r.chance(1, 3) ? SIZE_MAX : r.below(3000)); vector<float> v(m); for (auto& x : v) x = val<float>(k++); if (m) b->in.writeN(v.data(), m); fed.insert(fed.end(), v.begin(), v.end()); } size_t had = b->in.size(), g0 = got.size(); auto res = b->procedure(); vmon::evals(); size_t took = had - b->in.size(); if (took != got.size() - g0) bad("sdr:lost", "%zu samples left the input, %zu were played", took, got.size() - g0); bool f = res.is_err() && fatal(res.unwrap_err()); if (f != died) bad("sdr:result", died ? "an error of the audio stream did not end the flowgraph" : "ended the flowgraph"); if (!died && took != had) bad("sdr:idle", "played %zu of %zu samples", took, had); }
    compare("sdr:lost", got, fed, false); if (fed.size() - got.size() != b->in.size()) bad("sdr:lost", "%zu fed, %zu played, %zu waiting", fed.size(), got.size(), b->in.size()); vmon::stat("samples_sent", got.size()); b.reset(); pa::clean("after destruction"); vmon::nontrivial(sig);
}

// ================= CaribouLite
namespace cl { static bool board = true, radio = true; static CaribouLiteRadio dev; static int receiving, starts; static size_t mtu = 1000; static float freq, rate, gain; static int agc; static vector<string> errors; static std::function<int(void*, size_t)> rx; static void err(const string& s) { if (errors.size() < 5) errors.push_back(s); } static CaribouLite inst; static CaribouLiteRadio::RadioType type; }
bool CaribouLite::DetectBoard(SysVersion* v, string& n, string& g) { if (!cl::board) return false; *v = eV1; n = "n"; g = "g"; return true; } string CaribouLite::GetSystemVersionStr(SysVersion) { return "v"; } CaribouLite& CaribouLite::GetInstance(bool) { return cl::inst; } CaribouLiteRadio* CaribouLite::GetRadioChannel(CaribouLiteRadio::RadioType t) { cl::type = t; return cl::radio ? &cl::dev : nullptr; }
vector<CaribouLiteFreqRange> CaribouLiteRadio::GetFrequencyRange() { return {{1e8, 2e8}, {3e8, 4e8}}; } float CaribouLiteRadio::GetRxSampleRateMax() { return 4e6f; } float CaribouLiteRadio::GetRxSampleRateMin() { return 4e5f; } size_t CaribouLiteRadio::GetNativeMtuSample() { return cl::mtu; } void CaribouLiteRadio::SetFrequency(float f) { cl::freq = f; } void CaribouLiteRadio::SetRxSampleRate(float f) { cl::rate = f; } void CaribouLiteRadio::SetAgc(bool a) { cl::agc = a; } void CaribouLiteRadio::SetRxGain(float g) { cl::gain = g; } void CaribouLiteRadio::StartReceiving() { cl::receiving++; cl::starts++; } void CaribouLiteRadio::StopReceiving() { if (!cl::receiving) cl::err("stopped when not receiving"); else cl::receiving--; } int CaribouLiteRadio::ReadSamples(std::complex<float>* p, size_t n) { return cl::rx(p, n); } int CaribouLiteRadio::ReadSamples(std::complex<short>* p, size_t n) { return cl::rx(p, n); }
template <class T> static void caribou(Rng& r) {
    cl::mtu = 1 + r.below(3000); cl::board = !r.chance(1, 12); cl::radio = !r.chance(1, 12); cl::gain = -1; float f = r.chance(1, 5) ? r.pick({5e7f, 2.5e8f, 5e8f}) : r.chance(1, 2) ? (float)r.real(1.01e8, 1.99e8) : (float)r.real(3.01e8, 3.99e8), ra = r.chance(1, 6) ? r.pick({3e5f, 5e6f}) : (float)r.real(4e5, 4e6); bool agc = r.chance(1, 2); bool ok = cl::board && cl::radio && ((f > 1e8f && f < 2e8f) || (f > 3e8f && f < 4e8f)) && ra >= 4e5f && ra <= 4e6f; auto ty = r.chance(1, 2) ? CaribouLiteRadio::RadioType::S1G : CaribouLiteRadio::RadioType::HiF; CTX = vmon::fmt("SourceCaribouliteBlock(%g Hz, %g samples/s, MTU %zu)", f, ra, cl::mtu);
    std::unique_ptr<SourceCaribouliteBlock<T>> b; try { b = std::make_unique<SourceCaribouliteBlock<T>>("b", ty, f, ra, agc, 17.f); } catch (const std::exception&) {} if (!!b != ok) bad("sdr:verdict", "%s", b ? "accepted" : "refused"); if (!b) { if (cl::receiving) bad("sdr:leak", "receives after a failed construction"); cl::receiving = 0; return; } if (cl::freq != f || cl::rate != ra || cl::agc != (int)agc || (!agc && cl::gain != 17.f) || cl::type != ty || cl::receiving != 1) bad("sdr:setup", "the radio was set up differently");
    vector<T> gave, got; uint64_t k = r.next() >> 30, sig = cl::mtu; size_t room = 0; int last = 0; bool asked = false; cl::rx = [&](void* p, size_t n) { asked = true; if (n > cl::mtu) cl::err("a read beyond the MTU"); if (n > room) cl::err("a read beyond the room in the output"); int w = (int)r.below(8); if (w == 0) last = 0; else if (w == 1) last = -(int)(1 + r.below(4)); else { size_t m = r.chance(1, 2) ? n : 1 + r.below(n); T* o = (T*)p; for (size_t i = 0; i < m; ++i) { o[i] = val<T>(k++); gave.push_back(o[i]); } last = (int)m; } sig = vmon::mix(sig, (uint64_t)(last + 10)); return last; };
    CH<T> out(least<T>() + r.below(3000)); for (int c = 0, n = 30 + (int)r.below(60); c < n; ++c) { room = out.space(); size_t had = out.size(); asked = false; last = 0; auto res = b->procedure(&out); vmon::evals(); size_t m = out.size() - had; if (m != (size_t)std::max(last, 0)) bad("sdr:lost", "the radio handed over %d samples, %zu arrived", last, m); if (asked != (room > 0)) bad("sdr:idle", "room for %zu, radio asked: %d", room, asked); if (last < 0 && !res.is_err()) bad("sdr:result", "an error of the radio is not reported"); if (last > 0 && res.is_err()) bad("sdr:result", "an error although samples arrived"); if (asked && last == 0 && res.is_err() && fatal(res.unwrap_err())) bad("sdr:result", "no samples for a moment ended the flowgraph"); if (r.chance(1, 2)) drain(r, out, got, r.chance(1, 2)); }
    drain(r, out, got, true); compare("sdr:lost", got, gave, true); b.reset(); if (cl::receiving) bad("sdr:leak", "still receives after destruction"); cl::receiving = 0; for (auto& e : cl::errors) bad("sdr:life", "%s", e.c_str()); cl::errors.clear(); vmon::stat("samples_received", gave.size()); vmon::nontrivial(sig);
}
static void c_caribou(uint64_t i, Rng& r) { Quiet q; if (i & 1) caribou<cf>(r); else caribou<std::complex<short>>(r); }

// ================= UHD
namespace uhdf { static int devs, rxs, txs; static size_t nrx = 4; static int mode; static vector<string> errors; static void err(const string& s) { if (errors.size() < 5) errors.push_back(s); }
struct Set { double rate = 0, freq = 0, gain = -99, bw = 0; }; static std::map<size_t, Set> rx, tx; static string fmt_rx, fmt_tx; static vector<size_t> ch_rx, ch_tx; static bool streaming; static double reply = 1;
static std::function<size_t(vector<void*>, size_t, uhd::rx_metadata_t&)> recv; static std::function<size_t(vector<const void*>, size_t)> send; static std::deque<uhd::async_metadata_t> async;
struct Rx : uhd::rx_streamer { size_t n; Rx(size_t n) : n(n) { rxs++; } ~Rx() { rxs--; streaming = false; } size_t get_num_channels() const override { return n; } size_t get_max_num_samps() const override { return 364; } void issue_stream_cmd(const uhd::stream_cmd_t& c) override { streaming = c.stream_mode == uhd::stream_cmd_t::STREAM_MODE_START_CONTINUOUS; }
    size_t recv(const buffs_type& b, size_t k, uhd::rx_metadata_t& md, double t, bool) override { if (b.size() != n) { err(vmon::fmt("recv with %zu buffers on a streamer of %zu channels", b.size(), n)); return 0; } if (t > 1) err("a read that blocks for more than a second"); if (!streaming) err("receives without streaming"); vector<void*> v; for (size_t i = 0; i < n; ++i) v.push_back(b[i]); return uhdf::recv(v, k, md); } };
struct Tx : uhd::tx_streamer { size_t n; Tx(size_t n) : n(n) { txs++; } ~Tx() { txs--; } size_t get_num_channels() const override { return n; } size_t get_max_num_samps() const override { return 364; } bool recv_async_msg(uhd::async_metadata_t& md, double) override { if (async.empty()) return false; md = async.front(); async.pop_front(); return true; }
    size_t send(const buffs_type& b, size_t k, const uhd::tx_metadata_t& md, double t) override { if (b.size() != n) { err(vmon::fmt("send with %zu buffers on a streamer of %zu channels", b.size(), n)); return k; } if (t > 1) err("a write that blocks for more than a second"); if (md.end_of_burst || md.has_time_spec) err("burst or time set"); vector<const void*> v; for (size_t i = 0; i < n; ++i) v.push_back(b[i]); return uhdf::send(v, k); } };
static void B(const char* w) { if (broken()) throw Broken(string(w) + " failed"); }
static void clean(const char* when) { for (auto& e : errors) bad("sdr:life", "%s: %s", when, e.c_str()); errors.clear(); if (devs || rxs || txs) bad("sdr:leak", "%s: %d devices, %d streams left", when, devs, rxs + txs); devs = rxs = txs = 0; } }
namespace uhd { namespace usrp { using namespace uhdf; multi_usrp::multi_usrp() { devs++; } multi_usrp::~multi_usrp() { devs--; } multi_usrp::sptr multi_usrp::make(const string&) { B("make"); if (mode == 1) return nullptr; return std::make_shared<multi_usrp>(); } size_t multi_usrp::get_rx_num_channels() { return nrx; } size_t multi_usrp::get_tx_num_channels() { return nrx; }
void multi_usrp::set_rx_rate(double v, size_t c) { B("set_rx_rate"); uhdf::rx[c].rate = v; } void multi_usrp::set_tx_rate(double v, size_t c) { B("set_tx_rate"); uhdf::tx[c].rate = v; } void multi_usrp::set_rx_gain(double v, size_t c) { B("set_rx_gain"); uhdf::rx[c].gain = v; } void multi_usrp::set_tx_gain(double v, size_t c) { B("set_tx_gain"); uhdf::tx[c].gain = v; } void multi_usrp::set_rx_bandwidth(double v, size_t c) { uhdf::rx[c].bw = v; } void multi_usrp::set_tx_bandwidth(double v, size_t c) { B("set_tx_bandwidth"); uhdf::tx[c].bw = v; } void multi_usrp::set_rx_freq(const tune_request_t& t, size_t c) { B("set_rx_freq"); uhdf::rx[c].freq = t.target_freq; } void multi_usrp::set_tx_freq(const tune_request_t& t, size_t c) { B("set_tx_freq"); uhdf::tx[c].freq = t.target_freq; } double multi_usrp::get_rx_rate(size_t c) { return uhdf::rx[c].rate; } double multi_usrp::get_tx_rate(size_t c) { return uhdf::tx[c].rate; } freq_range_t multi_usrp::get_rx_freq_range(size_t) { return {0, 6e9}; } freq_range_t multi_usrp::get_tx_freq_range(size_t) { return {0, 6e9}; } gain_range_t multi_usrp::get_rx_gain_range(size_t) { return {0, 90}; } gain_range_t multi_usrp::get_tx_gain_range(size_t) { return {0, 90}; }
rx_streamer::sptr multi_usrp::get_rx_stream(const stream_args_t& a) { B("get_rx_stream"); if (mode == 2) return nullptr; fmt_rx = a.cpu_format + "/" + a.otw_format; ch_rx = a.channels; return std::make_shared<uhdf::Rx>(a.channels.size()); } tx_streamer::sptr multi_usrp::get_tx_stream(const stream_args_t& a) { B("get_tx_stream"); if (mode == 2) return nullptr; fmt_tx = a.cpu_format + "/" + a.otw_format; ch_tx = a.channels; return std::make_shared<uhdf::Tx>(a.channels.size()); } string multi_usrp::get_mboard_name() { return "m"; } string multi_usrp::get_pp_string() { return "p"; } time_spec_t multi_usrp::get_time_last_pps() { return {}; } void multi_usrp::set_time_next_pps(const time_spec_t&) {} } }
template <class T, size_t... I> static auto callN(SourceUHDBlock<T>& b, vector<std::unique_ptr<CH<T>>>& o, std::index_sequence<I...>) { return b.procedure(static_cast<cler::ChannelBase<T>*>(o[I].get())...); }
template <class B, class MK> static std::unique_ptr<B> ubuild(Rng& r, bool ok, MK mk) { std::unique_ptr<B> b; string what; BROKE = false; FAIL = r.chance(1, 4) ? 1 + (long)r.below(12) : 0; try { b = mk(); } catch (const std::exception& e) { what = e.what(); } FAIL = 0; if (BROKE) { vmon::stat("device_faults", 1); if (b) bad("sdr:verdict", "built although a call into the device failed"); } else if (!!b != ok) bad("sdr:verdict", "%s%s", b ? "accepted" : "refused: ", what.c_str()); vmon::stat(b ? "constructed" : "refused", 1); if (!b) uhdf::clean("after a failed construction"); return b; }
template <class T, size_t N> static void uhd_rx(Rng& r) {
    uhdf::mode = r.chance(1, 8) ? 1 + (int)r.below(2) : 0; uhdf::nrx = r.chance(1, 8) ? N - 1 : N + r.below(3); double f = r.real(1e6, 6e9), ra = r.real(1e5, 6e7), g = r.real(0, 90); uhdf::rx.clear(); CTX = vmon::fmt("SourceUHDBlock<%zu bytes>(%zu channels)", sizeof(T), N);
    auto b = ubuild<SourceUHDBlock<T>>(r, !uhdf::mode && uhdf::nrx >= N, [&] { return std::make_unique<SourceUHDBlock<T>>("b", f, ra, "", g, N); }); if (!b) return; for (size_t c = 0; c < N; ++c) { auto& s = uhdf::rx[c]; if (s.rate != ra || s.freq != f || s.gain != g) bad("sdr:setup", "channel %zu of the device was set up differently", c); } if (uhdf::ch_rx.size() != N || uhdf::fmt_rx != get_uhd_format<T>() + "/sc16" || !uhdf::streaming) bad("sdr:setup", "the stream was set up differently");
    vector<std::unique_ptr<CH<T>>> out; vector<vector<T>> got(N), gave(N); for (size_t c = 0; c < N; ++c) out.push_back(std::make_unique<CH<T>>(least<T>() + r.below(3000))); uint64_t k = r.next() >> 30, sig = N; size_t over = 0; int lastk = -1; size_t lastn = 0; bool died = false; size_t room = 0; const bool storm = r.chance(1, 10); const int only = (int)r.below(2);
    uhdf::recv = [&](vector<void*> bu, size_t n, uhd::rx_metadata_t& md) { md = {}; if (n > room) uhdf::err("a read beyond the room in the outputs"); int w = storm && !r.chance(1, 100) ? only : (int)r.below(9); lastk = w; lastn = 0; if (w == 0) { md.error_code = uhd::rx_metadata_t::ERROR_CODE_TIMEOUT; return (size_t)0; } if (w == 1) { md.error_code = uhd::rx_metadata_t::ERROR_CODE_OVERFLOW; over++; k += r.below(1000); return (size_t)0; } if (w == 2 && r.chance(1, 10)) { md.error_code = r.pick({uhd::rx_metadata_t::ERROR_CODE_BROKEN_CHAIN, uhd::rx_metadata_t::ERROR_CODE_LATE_COMMAND, uhd::rx_metadata_t::ERROR_CODE_BAD_PACKET, uhd::rx_metadata_t::ERROR_CODE_ALIGNMENT}); died = true; return (size_t)0; } lastn = r.chance(1, 2) ? n : 1 + r.below(n); for (size_t c = 0; c < N; ++c) { T* o = (T*)bu[c]; for (size_t i = 0; i < lastn; ++i) { o[i] = val<T>((k + i) * 8 + c); gave[c].push_back(o[i]); } } k += lastn; sig = vmon::mix(sig, lastn); return lastn; };
    for (int c = 0, n = storm ? 400 : 30 + (int)r.below(60); c < n && !died; ++c) { room = SIZE_MAX; vector<size_t> had; for (auto& o : out) { room = std::min(room, o->space()); had.push_back(o->size()); } lastk = -1; lastn = 0; auto res = callN<T>(*b, out, std::make_index_sequence<N>{}); vmon::evals(); for (size_t q = 0; q < N; ++q) if (out[q]->size() - had[q] != lastn) bad("sdr:lost", "channel %zu: the device handed over %zu samples, %zu arrived", q, lastn, out[q]->size() - had[q]); if ((lastk >= 0) != (room > 0)) bad("sdr:idle", "room for %zu, device asked: %d", room, lastk >= 0); bool fa = res.is_err() && fatal(res.unwrap_err()); if (fa != died) bad("sdr:result", died ? "a device error did not end the flowgraph" : "ended the flowgraph although the device is well"); if (b->get_overflow_count() != over) bad("sdr:count", "%zu overflows counted, %zu happened", b->get_overflow_count(), over); over = b->get_overflow_count(); for (size_t q = 0; q < N; ++q) if (r.chance(1, 2)) drain(r, *out[q], got[q], r.chance(1, 2));
        if (r.chance(1, 20)) { UHDConfig cfg; cfg.center_freq_Hz = r.real(1, 1e9); cfg.gain = r.real(0, 90); size_t ch = r.below(N); FAIL = r.chance(1, 3) ? 1 + (long)r.below(3) : 0; BROKE = false; bool okc = b->configure(cfg, ch); FAIL = 0; auto& s = uhdf::rx[ch]; if (okc == BROKE) bad("sdr:setup", "configure returned %d", okc); if (okc && (s.freq != cfg.center_freq_Hz || s.gain != cfg.gain || s.rate != cfg.sample_rate_Hz || s.bw != cfg.bandwidth_Hz)) bad("sdr:setup", "configured differently"); } if (!uhdf::errors.empty()) break; }
    for (size_t q = 0; q < N; ++q) { drain(r, *out[q], got[q], true); compare("sdr:lost", got[q], gave[q], true); } vmon::stat("samples_received", gave[0].size() * N); b.reset(); uhdf::clean("after destruction"); vmon::nontrivial(sig);
}
template <class T> static void uhd_tx(Rng& r) {
    size_t N = r.below(4), bs = r.chance(1, 2) ? 0 : r.chance(1, 8) ? (r.chance(1, 3) ? 1 : r.chance(1, 3) ? least<T>() - 1 : 1 + r.below(least<T>() - 1)) : least<T>() + r.below(3000); uhdf::mode = r.chance(1, 8) ? 1 + (int)r.below(2) : 0; uhdf::tx.clear(); UHDConfig cfg; bool given = r.chance(1, 2); if (given) { cfg.center_freq_Hz = r.real(1e6, 6e9); cfg.sample_rate_Hz = r.real(1e5, 6e7); cfg.gain = r.real(0, 90); cfg.bandwidth_Hz = r.chance(1, 2) ? 0 : 1e6; } CTX = vmon::fmt("SinkUHDBlock<%zu bytes>(%zu channels, size %zu, %s configuration)", sizeof(T), N, bs, given ? "given" : "default");
    auto b = ubuild<SinkUHDBlock<T>>(r, N > 0 && !uhdf::mode && !(bs && bs < least<T>()), [&] { return std::make_unique<SinkUHDBlock<T>>("b", "", N, bs, "sc16", given ? &cfg : nullptr); }); if (!b) return; for (size_t c = 0; c < N; ++c) { auto& s = uhdf::tx[c]; if (s.rate != cfg.sample_rate_Hz || s.freq != cfg.center_freq_Hz || s.gain != cfg.gain || s.bw != cfg.bandwidth_Hz) bad("sdr:setup", "channel %zu of the device was set up differently", c); } if (uhdf::ch_tx.size() != N || uhdf::fmt_tx != get_uhd_format<T>() + "/sc16") bad("sdr:setup", "the stream was set up differently");
    vector<vector<T>> fed(N), got(N); vector<uint64_t> k(N, 0); uint64_t sig = N; size_t under = 0, took = 0; bool slow = r.chance(1, 4); uhdf::async.clear(); uhdf::send = [&](vector<const void*> bu, size_t n) { size_t m = r.chance(1, 8) ? 0 : r.chance(1, 2) ? n : 1 + r.below(n); for (size_t c = 0; c < N; ++c) { const T* p = (const T*)bu[c]; got[c].insert(got[c].end(), p, p + m); } took += m; sig = vmon::mix(sig, m); return m; };
    for (int c = 0, n = 30 + (int)r.below(60); c < n; ++c) { for (size_t q = 0; q < N; ++q) if (r.chance(2, 3)) { size_t m = std::min(b->in[q].space(), slow ? r.below(300) : r.below(3000)); vector<T> v(m); for (auto& x : v) x = val<T>(k[q]++ * 8 + q); if (m) b->in[q].writeN(v.data(), m); fed[q].insert(fed[q].end(), v.begin(), v.end()); } int un = 0; if (r.chance(1, 6)) for (int e = 0, m = (int)r.below(4); e < m; ++e) { uhd::async_metadata_t a; a.event_code = r.pick({uhd::async_metadata_t::EVENT_CODE_BURST_ACK, uhd::async_metadata_t::EVENT_CODE_UNDERFLOW, uhd::async_metadata_t::EVENT_CODE_UNDERFLOW_IN_PACKET, uhd::async_metadata_t::EVENT_CODE_TIME_ERROR, uhd::async_metadata_t::EVENT_CODE_SEQ_ERROR}); un += a.event_code == uhd::async_metadata_t::EVENT_CODE_UNDERFLOW || a.event_code == uhd::async_metadata_t::EVENT_CODE_UNDERFLOW_IN_PACKET; uhdf::async.push_back(a); } under += un; vector<size_t> had; size_t lo = SIZE_MAX; for (size_t q = 0; q < N; ++q) { had.push_back(b->in[q].size()); lo = std::min(lo, had[q]); } size_t t0 = took; took = 0; auto res = b->procedure(); vmon::evals(); (void)t0; if (res.is_err() && fatal(res.unwrap_err())) bad("sdr:result", "ended the flowgraph although the device is well"); for (size_t q = 0; q < N; ++q) if (had[q] - b->in[q].size() != took) bad("sdr:lost", "channel %zu: %zu samples left the input, the device took %zu", q, had[q] - b->in[q].size(), took); if (lo >= least<T>() / 4 && uhdf::async.empty() && b->get_underflow_count() != under) bad("sdr:count", "%zu underflows counted, %zu happened", b->get_underflow_count(), under); if (!uhdf::errors.empty()) break; }
    for (int z = 0; z < 200; ++z) { size_t lo = SIZE_MAX; for (size_t q = 0; q < N; ++q) lo = std::min(lo, b->in[q].size()); if (lo < least<T>() / 4 || !uhdf::errors.empty()) break; b->procedure(); if (z == 199) bad("sdr:idle", "%zu samples are not sent", lo); }
    for (size_t q = 0; q < N; ++q) { compare("sdr:lost", got[q], fed[q], false); if (fed[q].size() - got[q].size() != b->in[q].size()) bad("sdr:lost", "channel %zu: %zu fed, %zu sent, %zu waiting", q, fed[q].size(), got[q].size(), b->in[q].size()); } vmon::stat("samples_sent", got[0].size() * N); b.reset(); uhdf::clean("after destruction"); vmon::nontrivial(sig);
}
static void c_uhd(uint64_t i, Rng& r) { Quiet q; switch (i % 5) { case 0: uhd_rx<cf, 1>(r); break; case 1: uhd_rx<std::complex<int16_t>, 2>(r); break; case 2: uhd_rx<std::complex<int8_t>, 3>(r); break; case 3: uhd_tx<cf>(r); break; default: uhd_tx<std::complex<int16_t>>(r); } }
int main(int argc, char** argv) { return vmon::run(argc, argv, {{"soapy", c_soapy}, {"hackrf", c_hackrf}, {"hackrf_mt", c_hackrf_mt}, {"audio", c_audio}, {"caribou", c_caribou}, {"uhd", c_uhd}}, 60); }
