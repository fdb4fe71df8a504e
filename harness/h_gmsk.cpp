// GMSK modem blocks (C32): frames against a reference modulation, payloads round the loop, slicing, hostile streams, parameters.
#include "pump.hpp"
#include "liquid.h"
#include "ezgmsk/ezgmsk_mod.hpp"
#include "ezgmsk/ezgmsk_demod.hpp"
#include "task_policies/cler_desktop_tpolicy.hpp"
#include <thread>
#include <climits>
#include <fcntl.h>
#include <unistd.h>
using namespace pump; using std::vector; using std::string; using Bytes = vector<uint8_t>;
extern "C" int __lsan_do_recoverable_leak_check() __attribute__((weak));
extern "C" const char* __lsan_default_suppressions() { return "leak:qs1dsearch_create\n"; }
static bool fatal(cler::Error e) { return cler::is_fatal(e); }
struct Quiet { int was; Quiet() { fflush(stderr); was = dup(2); int n = open("/dev/null", O_WRONLY); dup2(n, 2); close(n); } ~Quiet() { fflush(stderr); dup2(was, 2); close(was); } };
static Bytes symbols(const Bytes& b) { Bytes s; for (auto x : b) for (int i = 7; i >= 0; --i) s.push_back(x >> i & 1); return s; }
static Bytes rnd(Rng& r, size_t n) { Bytes b(n); switch (r.below(5)) { case 0: { uint8_t v = r.pick({0, 255, 0x55, 0xaa, 0x33}); for (auto& x : b) x = v; break; } default: for (auto& x : b) x = (uint8_t)r.next(); } return b; }

// ---------------- modulator
struct Par { unsigned k, m; float BT; unsigned P; };
static size_t framelen(const Par& p, size_t bytes) { return (p.P + 8 * bytes + 2 * p.m) * p.k; }
static double ham(size_t i, size_t n) { return 0.53836 - 0.46164 * std::cos(2 * M_PI * (double)i / (double)(n - 1)); }
static void checkframe(const Par& p, const Bytes& d, const cf* got, size_t idx) {
    auto q = gmskmod_create(p.k, p.m, p.BT); vector<cf> s(p.k); Bytes sy; for (unsigned i = 0; i < p.P; ++i) sy.push_back(i & 1); for (auto x : symbols(d)) sy.push_back(x); size_t n = 0;
    for (size_t i = 0; i < sy.size(); ++i) { gmskmod_modulate(q, sy[i], (liquid_float_complex*)s.data()); for (unsigned j = 0; j < p.k; ++j, ++n) { cf want = s[j]; if (i < p.m && i < p.P) want *= (float)ham(i * p.k + j, 2 * p.m * p.k); if (!(std::abs(got[n] - want) <= 1e-3f)) { bad("gmsk:frame", "frame %zu of %zu bytes: sample %zu is (%g, %g), should be (%g, %g)", idx, d.size(), n, got[n].real(), got[n].imag(), want.real(), want.imag()); gmskmod_destroy(q); return; } } }
    gmskmod_destroy(q);
    for (size_t i = 0; i < 2 * p.m; ++i) for (unsigned j = 0; j < p.k; ++j, ++n) { double a = i < p.m ? 1 : ham(i * p.k + j, 2 * p.m * p.k); if (!(std::fabs(std::abs(got[n]) - a) <= 1e-3)) { bad("gmsk:frame", "frame %zu of %zu bytes: tail sample %zu has amplitude %g, should be %g", idx, d.size(), n, std::abs(got[n]), a); return; } }
}
static void c_mod(uint64_t, Rng& r) {
    Par p{2 + (unsigned)r.below(7), 1 + (unsigned)r.below(6), (float)r.real(0.1, 0.9), 1 + (unsigned)r.below(70)}; size_t nf = 1 + r.below(30), maxb = 1 + r.below(r.chance(1, 4) ? 400 : 60), slots = 1 + r.below(8); size_t big = framelen(p, maxb);
    size_t cap = std::max<size_t>(512, r.chance(1, 3) ? big : r.chance(1, 2) ? big + r.below(big) : big * (2 + r.below(10))); ctx() = vmon::fmt("modulator k %u m %u BT %.3f preamble %u, %zu frames of up to %zu bytes, output channel %zu", p.k, p.m, p.BT, p.P, nf, maxb, cap); vmon::tick();
    EZGmskModBlock b("b", p.k, p.m, p.BT, p.P, 1 + r.below(20)); Slab slab(slots, maxb); MonChan<cf> out(cap, r.below(2 * cap)); vector<Bytes> fed; vector<cf> got; size_t want = 0, idle = 0, sig = cap; size_t frames_out = 0; vector<size_t> ends;
    for (int it = 0; it < 100000 && (fed.size() < nf || got.size() < want); ++it) {
        bool moved = false;
        if (fed.size() < nf && b.in.space() && r.chance(1, 2)) { auto t = slab.take_slot(); if (t.is_ok()) { Blob bl = t.unwrap(); Bytes d = rnd(r, r.chance(1, 12) ? r.below(2) : 1 + r.below(maxb)); d.resize(std::min(d.size(), maxb)); if (d.size()) memcpy(bl.data, d.data(), d.size()); bl.len = d.size(); b.in.push(bl); fed.push_back(d); want += framelen(p, d.size()); ends.push_back(want); moved = true; } }
        for (uint64_t c = r.below(3); c-- > 0;) { size_t had = out.made, q = b.in.size(); auto res = b.procedure(&out); vmon::evals(); size_t m = out.made - had, f = q - b.in.size(); if (res.is_err() && fatal(res.unwrap_err())) bad("gmsk:result", "ended the flowgraph"); size_t len = 0; for (size_t j = 0; j < f && frames_out + j < fed.size(); ++j) len += framelen(p, fed[frames_out + j].size()); if (len != m) bad("gmsk:lost", "%zu blobs taken, %zu samples made, should be %zu", f, m, len); frames_out += f; moved |= m > 0; sig = vmon::mix(sig, m); 
            if (b.in.size() && frames_out < fed.size() && out.space() >= framelen(p, fed[frames_out].size())) bad("gmsk:stalled", "a frame of %zu samples is not sent with room for %zu", framelen(p, fed[frames_out].size()), out.space()); if (vmon::st().nviol > 20) return; }
        if (slab.available_slots() + b.in.size() != slots) { bad("gmsk:slots", "%zu of %zu slots free with %zu blobs waiting", slab.available_slots(), slots, b.in.size()); return; }
        if (r.chance(1, 2)) { size_t n = std::min(out.size(), r.chance(1, 2) ? out.size() : r.below(3000)); size_t g = got.size(); got.resize(g + n); n = out.readN(got.data() + g, n); got.resize(g + n); moved |= n > 0; }
        idle = moved ? 0 : idle + 1; if (idle > 2000) { bad("gmsk:stalled", "nothing moves any more: %zu of %zu frames, %zu of %zu samples", fed.size(), nf, got.size(), want); return; }
    }
    size_t at = 0; for (size_t f = 0; f < fed.size(); ++f) { size_t n = framelen(p, fed[f].size()); if (at + n > got.size()) { bad("gmsk:lost", "only %zu samples of %zu", got.size(), want); break; } checkframe(p, fed[f], &got[at], f); at += n; if (vmon::st().nviol > 20) return; }
    if (got.size() + out.size() > want) bad("gmsk:extra", "%zu samples more than the frames have", got.size() + out.size() - want); vmon::stat("frames_modulated", (double)fed.size()); vmon::nontrivial(sig);
}

// ---------------- demodulator
struct Event { unsigned at; int state; Bytes h, p; float rssi, snr; bool operator==(const Event& o) const { return at == o.at && state == o.state && h == o.h && p == o.p && !memcmp(&rssi, &o.rssi, 4) && !memcmp(&snr, &o.snr, 4); } };
struct Seen { unsigned hl; std::function<int(const Bytes&)> len; vector<Event> ev; bool hdr_on_p = true; string err; size_t n_pay() const { size_t n = 0; for (auto& e : ev) n += e.state == 3; return n; } std::atomic<size_t> pays{0}; };
static int cb(unsigned at, ezgmsk::ezgmsk_demod_state_en st, unsigned char* h, unsigned char* p, unsigned n, float rs, float sn, void* u) {
    auto c = (Seen*)u; Event e{at, (int)st, {}, {}, rs, sn}; if (st >= 2) { if (!h) c->err = "no header given"; else e.h.assign(h, h + c->hl); } else if (h) c->err = "a header too early"; if (st == 3) { if (!p || !n) c->err = "no payload given"; else e.p.assign(p, p + n); } else if (p || n) c->err = "a payload too early"; int ret = st == 2 ? c->len(e.h) : 0; c->ev.push_back(e); if (st == 3) c->pays++; return ret; }
// a sync word that no shifted copy within the preamble can imitate
static bool unique(const Bytes& sw, unsigned P) { Bytes all; for (unsigned i = 0; i < P; ++i) all.push_back(i & 1); all.insert(all.end(), sw.begin(), sw.end()); for (size_t s = 0; s < P; ++s) { size_t d = 0; for (size_t i = 0; i < sw.size(); ++i) d += all[s + i] != sw[i]; if (d == 0) return false; } return true; }
struct Link { Par p; Bytes sync, ss; unsigned hl, max; };
static Link link(Rng& r) { Link l; l.p = {2, 3 + (unsigned)r.below(3), (float)r.real(0.3, 0.5), 16 + 2 * (unsigned)r.below(5)}; if (r.chance(1, 2)) l.p = {2, 3, 0.3f, 24}; do { l.sync = Bytes(2 + r.below(4)); for (auto& x : l.sync) x = (uint8_t)r.next(); if (r.chance(1, 2)) l.sync = {0x55, 0x90, 0x4e}; l.ss = symbols(l.sync); } while (!unique(l.ss, l.p.P)); l.hl = 1 + (unsigned)r.below(6); l.max = 255; return l; }
static Bytes frame(Rng& r, const Link& l, Bytes& h, Bytes& pay) { pay = rnd(r, 1 + r.below(r.chance(1, 4) ? l.max : 40)); h = rnd(r, l.hl); h[l.hl - 1] = (uint8_t)pay.size(); Bytes d = l.sync; d.insert(d.end(), h.begin(), h.end()); d.insert(d.end(), pay.begin(), pay.end()); return d; }
static void c_loop(uint64_t, Rng& r) {
    Link l = link(r); size_t nf = 1 + r.below(20), cap = 512 + r.below(8000), mcap = std::max<size_t>(512, framelen(l.p, l.sync.size() + l.hl + l.max) + r.below(3000)); float gain = (float)std::pow(10, r.real(-3, 3)), sig = 0; cf ph = std::polar(gain, (float)r.real(-3, 3)); bool gaps = r.chance(1, 2), holes = gaps && r.chance(1, 3); 
    ctx() = vmon::fmt("loop k %u m %u BT %.3f preamble %u sync of %zu bytes header %u, %zu frames, gain %g, noise %g%s%s", l.p.k, l.p.m, l.p.BT, l.p.P, l.sync.size(), l.hl, nf, gain, sig, gaps ? ", gaps" : "", holes ? " with samples that are no numbers" : ""); vmon::tick();
    Seen c; c.hl = l.hl; c.len = [](const Bytes& h) { return (int)h.back(); }; EZGmskModBlock mod("m", l.p.k, l.p.m, l.p.BT, l.p.P, 4); EZGmskDemodBlock dem("d", l.p.k, l.p.m, l.p.BT, l.p.P, l.ss.data(), (unsigned)l.ss.size(), l.hl, l.max, cb, &c, 0.9f, 0.1f, r.chance(1, 3) ? 0 : cap); Slab slab(4, 600); MonChan<cf> mid(mcap, r.below(mcap)); 
    vector<std::pair<Bytes, Bytes>> sent; size_t s2 = cap; vector<cf> hold(r.below(300)); auto push = [&](bool all) { do { size_t n = std::min(hold.size(), r.chance(1, 3) ? r.below(20) : r.below(3000)); n = std::min(n, dem.in.space()); if (n) { dem.in.writeN(hold.data(), n); hold.erase(hold.begin(), hold.begin() + (long)n); } for (uint64_t q = r.below(3); q-- > 0;) { size_t was = dem.in.size(); auto res = dem.procedure(); vmon::evals(); if (res.is_err() && fatal(res.unwrap_err())) bad("gmsk:result", "ended the flowgraph"); if (was && (res.is_err() || dem.in.size() == was)) { bad("gmsk:stalled", "the demodulator takes nothing of %zu samples", was); return; } s2 = vmon::mix(s2, was); } } while (all && hold.size()); };
    auto noise = [&] { double a = std::sqrt(-2 * std::log(1 - r.unit())), b = 2 * M_PI * r.unit(); return cf((float)(a * std::cos(b)), (float)(a * std::sin(b))) * sig; };
    for (size_t f = 0; f < nf; ++f) { Bytes h, p, d = frame(r, l, h, p); sent.push_back({h, p}); auto t = slab.take_slot(); if (t.is_err()) { bad("gmsk:slots", "no slot left"); return; } Blob b = t.unwrap(); memcpy(b.data, d.data(), d.size()); b.len = d.size(); mod.in.push(b); for (int z = 0; mod.in.size() && z < 20; ++z) mod.procedure(&mid); size_t n = mid.size(); vector<cf> x(n); mid.readN(x.data(), n); if (n != framelen(l.p, d.size())) { bad("gmsk:stalled", "%zu samples of a frame of %zu", n, framelen(l.p, d.size())); return; } for (auto& y : x) hold.push_back((y + noise()) * ph); 
        if (gaps || f + 1 == nf) { size_t g = 2 * l.p.k * (l.p.m + 2) + 40 + r.below(400); size_t at = hold.size(); for (size_t i = 0; i < g; ++i) hold.push_back(noise() * ph); if (holes && r.chance(1, 2)) for (uint64_t z = 1 + r.below(3); z-- > 0;) { float v = r.pick({NAN, INFINITY, -INFINITY}); cf& y = hold[at + 2 * l.p.k * (l.p.m + 2) + r.below(g - 2 * l.p.k * (l.p.m + 2) - 20)]; y = r.chance(1, 2) ? cf(v, 0) : cf(0, v); } } push(false); }
    push(true); for (int z = 0; dem.in.size() && z < 100; ++z) dem.procedure(); if (!c.err.empty()) bad("gmsk:callback", "%s", c.err.c_str());
    vector<std::pair<Bytes, Bytes>> got; for (auto& e : c.ev) if (e.state == 3) got.push_back({e.h, e.p}); size_t ok = 0; for (size_t i = 0; i < sent.size(); ++i) { if (i < got.size() && got[i] == sent[i]) { ok++; continue; } bad("gmsk:lost", "frame %zu of %zu (%zu bytes) %s; %zu frames received", i, sent.size(), sent[i].second.size(), i >= got.size() ? "was not received" : got[i].first != sent[i].first ? "has a different header" : "has a different payload", got.size()); break; } if (ok == sent.size() && got.size() > sent.size()) bad("gmsk:extra", "%zu frames received, %zu sent", got.size(), sent.size());
    vmon::stat("frames_received", (double)got.size()); vmon::stat("samples_demodulated", c.ev.empty() ? 0 : c.ev.back().at); vmon::nontrivial(s2);
}
// any stream: the same events for every slicing, and nothing touched that should not be
static void c_slice(uint64_t, Rng& r) {
    Link l = link(r); if (r.chance(1, 2)) { l.p.k = 2 + (unsigned)r.below(5); l.p.m = 1 + (unsigned)r.below(6); l.p.BT = (float)r.real(0.15, 0.9); l.p.P = l.p.m + (unsigned)r.below(60); l.sync = rnd(r, r.below(5)); l.ss = symbols(l.sync); } l.max = r.chance(1, 3) ? (unsigned)r.below(4) : 1 + (unsigned)r.below(300); float thr = r.chance(1, 3) ? (float)r.real(0.05, 0.9) : 0.9f, dph = r.chance(1, 3) ? (float)r.real(0, 0.3) : 0.1f; int how = (int)r.below(4); 
    ctx() = vmon::fmt("stream k %u m %u BT %.3f preamble %u sync of %zu bytes header %u payload up to %u, threshold %.2f", l.p.k, l.p.m, l.p.BT, l.p.P, l.sync.size(), l.hl, l.max, thr); vmon::tick();
    auto len = [how, &l](const Bytes& h) -> int { switch (how) { case 0: return (int)(h.back() % (l.max + 3)) - 1; case 1: return h.back() & 1 ? (int)l.max : -(int)h.back(); case 2: return INT_MAX - h.back(); default: return h.back(); } };
    vector<cf> x; auto q = ezgmsk::ezgmsk_mod_create_set(l.p.k, l.p.m, l.p.BT, l.p.P); for (uint64_t f = 1 + r.below(8); f-- > 0;) { Bytes d = l.sync, e = rnd(r, l.hl + r.below(60)); d.insert(d.end(), e.begin(), e.end()); ezgmsk::ezgmsk_mod_assemble(q, d.data(), (unsigned)d.size()); vector<cf> s(ezgmsk::ezgmsk_mod_get_frame_len(q)); ezgmsk::ezgmsk_mod_execute(q, (liquid_float_complex*)s.data(), (unsigned)s.size()); if (r.chance(1, 4)) s.resize(r.below(s.size())); double w = r.chance(1, 2) ? 0 : r.real(-0.2, 0.2), sg = r.chance(1, 3) ? 0 : r.real(0, 0.5), ph = r.real(-3, 3); size_t n0 = x.size(); float fr = (float)(r.chance(1, 2) ? 0 : r.unit()); cf last = 0; for (auto& y : s) { cf v = y * (1 - fr) + last * fr; last = y; x.push_back((v + cf((float)r.real(-sg, sg), (float)r.real(-sg, sg))) * std::polar(1.f, (float)(ph + w * (double)(x.size() - n0)))); } for (uint64_t g = r.below(200); g-- > 0;) x.push_back(r.chance(1, 2) ? cf() : cf((float)r.real(-1, 1), (float)r.real(-1, 1))); }
    ezgmsk::ezgmsk_mod_destroy(q); if (r.chance(1, 3)) for (uint64_t z = r.below(20); z-- > 0;) { float v = r.pick({NAN, INFINITY, -INFINITY, 1e30f, 1e-30f, 3e38f}); x[r.below(x.size())] = r.chance(1, 2) ? cf(v, 1) : cf(v, -v); }
    Seen a, b; a.hl = b.hl = l.hl; a.len = b.len = len; static uint8_t none = 0; auto w = ezgmsk::ezgmsk_demod_create_set(l.p.k, l.p.m, l.p.BT, l.p.P, l.ss.empty() ? &none : l.ss.data(), (unsigned)l.ss.size(), l.hl, l.max, thr, dph, cb, &a); if (!w) { bad("gmsk:verdict", "refused"); return; } { vector<cf> y = x; ezgmsk::ezgmsk_demod_execute(w, (liquid_float_complex*)y.data(), (unsigned)y.size()); } bool openw = ezgmsk::ezgmsk_demod_is_frame_open(w); ezgmsk::ezgmsk_demod_destroy(w);
    { size_t bs = r.chance(1, 3) ? 0 : 512 + r.below(3000); EZGmskDemodBlock d("d", l.p.k, l.p.m, l.p.BT, l.p.P, l.ss.empty() ? &none : l.ss.data(), (unsigned)l.ss.size(), l.hl, l.max, cb, &b, thr, dph, bs); size_t i = 0; int st = (int)r.below(3); while (i < x.size()) { size_t n = std::min({d.in.space(), x.size() - i, st == 0 ? 1 + r.below(3) : st == 1 ? 1 + r.below(100) : SIZE_MAX}); if (n) d.in.writeN(&x[i], n); i += n; if (r.chance(1, 2) || !n) { d.procedure(); vmon::evals(); } } d.procedure(); if (d.in.size()) bad("gmsk:stalled", "%zu samples left", d.in.size()); }
    (void)openw; if (!a.err.empty() || !b.err.empty()) bad("gmsk:callback", "%s", (a.err + b.err).c_str()); for (auto& e : a.ev) { if (e.at == 0 || e.at > x.size()) bad("gmsk:callback", "sample count %u", e.at); if (e.p.size() > l.max) bad("gmsk:callback", "a payload of %zu bytes", e.p.size()); }
    for (size_t i = 0; i < a.ev.size(); ++i) { if (a.ev[i].state == 3) { bool fine = i && a.ev[i - 1].state == 2 && a.ev[i - 1].h == a.ev[i].h && (int)a.ev[i].p.size() == len(a.ev[i].h); if (!fine) bad("gmsk:callback", "a payload of %zu bytes that its header does not announce", a.ev[i].p.size()); } if (a.ev[i].state == 2 && !(i && a.ev[i - 1].state == 1)) bad("gmsk:callback", "a header without sync word"); if (a.ev[i].state == 1 && !(i && a.ev[i - 1].state == 0)) bad("gmsk:callback", "a sync word without preamble"); }
    if (!(a.ev == b.ev)) { size_t i = 0; while (i < a.ev.size() && i < b.ev.size() && a.ev[i] == b.ev[i]) ++i; bad("gmsk:slicing", "event %zu differs between whole and sliced: %zu and %zu events", i, a.ev.size(), b.ev.size()); }
    uint64_t sig = x.size(); for (auto& e : a.ev) sig = vmon::mix(sig, e.at * 4 + (unsigned)e.state); vmon::stat("events_compared", (double)a.ev.size()); vmon::stat("samples_demodulated", (double)x.size()); if (a.ev.size()) vmon::nontrivial(sig);
}
// parameters
static void c_ctor(uint64_t, Rng& r) {
    Quiet q; vmon::tick(); unsigned k = r.chance(1, 5) ? (unsigned)r.below(2) : 2 + (unsigned)r.below(6), m = r.chance(1, 8) ? 0 : 1 + (unsigned)r.below(6), P = r.chance(1, 8) ? 0 : r.chance(1, 6) && m ? (unsigned)r.below(m) : m + 1 + (unsigned)r.below(60), h = r.chance(1, 8) ? 0 : 1 + (unsigned)r.below(6); float BT = r.chance(1, 6) ? r.pick({0.f, -1.f, 1.f, 2.f, NAN, INFINITY}) : (float)r.real(0.1, 0.9), th = r.chance(1, 8) ? r.pick({0.f, -1.f, NAN}) : (float)r.real(0.1, 0.9), dp = r.chance(1, 8) ? r.pick({-1.f, NAN, INFINITY}) : (float)r.real(0, 0.3); size_t bs = r.chance(1, 2) ? 0 : r.chance(1, 4) ? 1 + r.below(511) : 512 + r.below(900);
    bool base = k >= 2 && m >= 1 && BT > 0 && BT < 1, okm = base && P > 0, okd = okm && P >= m && h > 0 && th > 0 && dp >= 0 && dp < 3 && !(bs && bs < 512); Bytes ss = symbols(rnd(r, 3)); Seen c; c.hl = h; c.len = [](const Bytes&) { return 1; };
    ctx() = vmon::fmt("k %u m %u BT %g preamble %u", k, m, BT, P); string what; vmon::evals(2);
    { std::unique_ptr<EZGmskModBlock> b; try { b = std::make_unique<EZGmskModBlock>("m", k, m, BT, P); } catch (const std::exception& e) { what = e.what(); } if (!!b != okm) bad("gmsk:verdict", "modulator %s%s", b ? "accepted" : "refused: ", what.c_str()); if (b && r.chance(1, 2)) { Slab s(2, 8); Blob x = s.take_slot().unwrap(); memset(x.data, 7, 8); b->in.push(x); cler::Channel<cf> o(20000); b->procedure(&o); } }
    { ctx() += vmon::fmt(" header %u threshold %g offset %g buffer %zu", h, th, dp, bs); std::unique_ptr<EZGmskDemodBlock> b; try { b = std::make_unique<EZGmskDemodBlock>("d", k, m, BT, P, ss.data(), (unsigned)ss.size(), h, (unsigned)r.below(300), cb, &c, th, dp, bs); } catch (const std::exception& e) { what = e.what(); } if (!!b != okd) bad("gmsk:verdict", "demodulator %s%s", b ? "accepted" : "refused: ", what.c_str()); if (b) { cf z[9] = {}; b->in.writeN(z, 9); b->procedure(); } }
    vmon::stat(okm && okd ? "constructed" : "refused", 1); if (__lsan_do_recoverable_leak_check && r.chance(1, 8) && __lsan_do_recoverable_leak_check()) bad("gmsk:leak", "LeakSanitizer finds memory that nothing refers to"); vmon::nontrivial(vmon::mix(k * 1000 + m * 100 + P, vmon::mix(h, bs * 7 + (uint64_t)(okm * 2 + okd))));
}
// in a running flowgraph
struct Src : cler::BlockBase { Slab slab; const vector<Bytes>* f; size_t i = 0; Src(size_t n, const vector<Bytes>* v) : BlockBase("src"), slab(n, 400), f(v) {} cler::Result<cler::Empty, cler::Error> procedure(cler::ChannelBase<Blob>* out) { if (i >= f->size()) return cler::Error::NotEnoughSamples; if (!out->space()) return cler::Error::NotEnoughSpace; auto t = slab.take_slot(); if (t.is_err()) return t.unwrap_err(); Blob b = t.unwrap(); memcpy(b.data, (*f)[i].data(), (*f)[i].size()); b.len = (*f)[i++].size(); out->push(b); return cler::Empty{}; } };
struct Pad : cler::BlockBase { cler::Channel<cf> in{1024}; size_t n = 0, pad; size_t total; Pad(size_t t, size_t p) : BlockBase("pad"), pad(p), total(t) {} cler::Result<cler::Empty, cler::Error> procedure(cler::ChannelBase<cf>* out) { auto [w, room] = out->write_dbf(); if (n < total) { auto [p, k] = in.read_dbf(); k = std::min(k, room); if (!k) return cler::Error::NotEnoughSamples; memcpy(w, p, k * sizeof(cf)); in.commit_read(k); out->commit_write(k); n += k; return cler::Empty{}; } size_t k = std::min(room, pad); if (!k) return cler::Error::NotEnoughSpace; for (size_t j = 0; j < k; ++j) w[j] = 0; pad -= k; out->commit_write(k); return cler::Empty{}; } };
static void c_graph(uint64_t, Rng& r) {
    Link l = link(r); size_t nf = 3 + r.below(25); vector<Bytes> fr; vector<std::pair<Bytes, Bytes>> want; size_t total = 0, big = 0; for (size_t i = 0; i < nf; ++i) { Bytes h, p; fr.push_back(frame(r, l, h, p)); want.push_back({h, p}); size_t n = framelen(l.p, fr.back().size()); total += n; big = std::max(big, n); }
    ctx() = vmon::fmt("flowgraph of source, modulator, demodulator, k %u m %u BT %.3f preamble %u, %zu frames", l.p.k, l.p.m, l.p.BT, l.p.P, nf); vmon::tick(); Seen c; c.hl = l.hl; c.len = [](const Bytes& h) { return (int)h.back(); };
    size_t slots = 2 + r.below(6); Src src(slots, &fr); EZGmskModBlock mod("m", l.p.k, l.p.m, l.p.BT, l.p.P, 1 + r.below(6)); Pad pad(total, 200); EZGmskDemodBlock dem("d", l.p.k, l.p.m, l.p.BT, l.p.P, l.ss.data(), (unsigned)l.ss.size(), l.hl, l.max, cb, &c); 

    cler::Channel<cf> mid(std::max<size_t>(512, big + r.below(2000)));
    struct Mv : cler::BlockBase { cler::Channel<cf>* in; Mv(cler::Channel<cf>* i) : BlockBase("mv"), in(i) {} cler::Result<cler::Empty, cler::Error> procedure(cler::ChannelBase<cf>* out) { auto [p, k] = in->read_dbf(); auto [w, n] = out->write_dbf(); k = std::min(k, n); if (!k) return cler::Error::NotEnoughSamples; memcpy(w, p, k * sizeof(cf)); in->commit_read(k); out->commit_write(k); return cler::Empty{}; } } mv(&mid);
    { cler::FlowGraphConfig cfg; cfg.scheduler = r.chance(1, 2) ? cler::SchedulerType::ThreadPerBlock : cler::SchedulerType::FixedThreadPool; auto fg = cler::make_desktop_flowgraph(cler::BlockRunner(&src, &mod.in), cler::BlockRunner(&mod, &mid), cler::BlockRunner(&mv, &pad.in), cler::BlockRunner(&pad, &dem.in), cler::BlockRunner(&dem)); fg.run(cfg); for (int z = 0; z < 20000 && c.pays < nf; ++z) std::this_thread::sleep_for(std::chrono::milliseconds(1)); fg.stop(); }
    vmon::evals(); vector<std::pair<Bytes, Bytes>> got; for (auto& e : c.ev) if (e.state == 3) got.push_back({e.h, e.p}); if (got != want) bad("gmsk:lost", "%zu frames sent, %zu received%s", nf, got.size(), got.size() == nf ? ", not the same" : ""); if (src.slab.available_slots() != slots) bad("gmsk:slots", "%zu of %zu slots free in the end", src.slab.available_slots(), slots); vmon::stat("frames_received", (double)got.size()); uint64_t sig = l.p.P; for (auto& e : c.ev) sig = vmon::mix(sig, e.at); vmon::nontrivial(sig);
}
// a thread fills the input as fast as it can while another one modulates: full and empty queues all the time
static void c_modmt(uint64_t, Rng& r) {
    Par p{2, 1 + (unsigned)r.below(3), 0.3f, 1 + (unsigned)r.below(8)}; size_t nf = 300 + r.below(500), qs = 1 + r.below(3), slots = qs + 1 + r.below(4), maxb = 1 + r.below(12); ctx() = vmon::fmt("modulator fed by a thread, input queue %zu, %zu slots, %zu frames", qs, slots, nf); vmon::tick();
    EZGmskModBlock b("b", p.k, p.m, p.BT, p.P, qs); Slab slab(slots, maxb); cler::Channel<cf> out(4096); vector<Bytes> fed; for (size_t i = 0; i < nf; ++i) fed.push_back(rnd(r, 1 + r.below(maxb))); std::atomic<size_t> stuck{0}, full{0}; std::atomic<bool> give_up{false};
    std::thread prod([&] { for (size_t i = 0; i < nf && !give_up;) { if (!b.in.space()) { full++; continue; } auto t = slab.take_slot(); if (t.is_err()) { if (++stuck > 20000000) return; continue; } stuck = 0; Blob bl = t.unwrap(); memcpy(bl.data, fed[i].data(), fed[i].size()); bl.len = fed[i].size(); b.in.push(bl); i++; } });
    vector<cf> got; size_t want = 0; for (auto& f : fed) want += framelen(p, f.size()); vector<cf> buf(5000); size_t idle = 0; while (got.size() < want && idle < 20000000) { (void)b.procedure(&out); size_t n = out.readN(buf.data(), buf.size()); got.insert(got.end(), buf.begin(), buf.begin() + (long)n); idle = n ? 0 : idle + 1; } give_up = true; prod.join();
    if (got.size() != want) bad("gmsk:lost", "%zu of %zu samples", got.size(), want); else { size_t at = 0; for (size_t f = 0; f < nf; ++f) { checkframe(p, fed[f], &got[at], f); at += framelen(p, fed[f].size()); if (vmon::st().nviol > 20) return; } }
    if (slab.available_slots() != slots) bad("gmsk:slots", "%zu of %zu slots free in the end", slab.available_slots(), slots); vmon::evals(); vmon::stat("frames_modulated", (double)nf); vmon::stat("found_full", (double)full); vmon::nontrivial(vmon::mix(full, slots * 8 + qs));
}
int main(int argc, char** argv) { vmon::ctxp() = &ctx(); return vmon::run(argc, argv, {{"mod", c_mod}, {"modmt", c_modmt}, {"loop", c_loop}, {"slice", c_slice}, {"ctor", c_ctor}, {"graph", c_graph}}, 60); }
