// ADS-B: Mode S decoding, position decoding, aggregation, detection (C23, C24, C25).
#include "pump.hpp"
#include "desktop_blocks/adsb/adsb_decoder.hpp"
#include "desktop_blocks/adsb/adsb_aggregate.hpp"
#include <deque>
#include <thread>
using namespace pump; using std::string; using std::vector;

// ---------------- clock under control: the address list of the decoder ages with time()
static std::atomic<long> g_now{1700000000};
extern "C" time_t __wrap_time(time_t* t) { time_t v = g_now.load(); if (t) *t = v; return v; }

// ---------------- independent reference: parity by long division, CPR encoding by its formulas
static uint32_t crc_ref(const uint8_t* m, int bits) { uint32_t r = 0; for (int i = 0; i < bits - 24; ++i) { int b = (m[i / 8] >> (7 - i % 8)) & 1, top = (r >> 23) & 1; r = (r << 1) & 0xffffff; if (b ^ top) r ^= 0xFFF409; } return r; }
struct Msg { uint8_t b[14] = {}; int bits = 112; };
static void put(Msg& m, int pos, int len, uint32_t v) { for (int i = 0; i < len; ++i) { int p = pos + i, x = (v >> (len - 1 - i)) & 1; m.b[p / 8] = (uint8_t)((m.b[p / 8] & ~(1 << (7 - p % 8))) | (x << (7 - p % 8))); } }
static uint32_t get(const Msg& m, int pos, int len) { uint32_t v = 0; for (int i = 0; i < len; ++i) { int p = pos + i; v = v << 1 | ((m.b[p / 8] >> (7 - p % 8)) & 1); } return v; }
static void seal(Msg& m, uint32_t xr) { put(m, m.bits - 24, 24, crc_ref(m.b, m.bits) ^ xr); }
static void flip(Msg& m, int p) { m.b[p / 8] ^= (uint8_t)(1 << (7 - p % 8)); }
static bool crc_ok(const Msg& m) { return crc_ref(m.b, m.bits) == get(m, m.bits - 24, 24); }
static string hex(const uint8_t* b, int bits) { string s; for (int i = 0; i < bits / 8; ++i) s += vmon::fmt("%02x", b[i]); return s; }

static double nl_formula(double lat) { lat = std::fabs(lat); if (lat >= 87) return lat > 87 ? 1 : 2; if (lat == 0) return 59; double a = 1 - std::cos(M_PI / 30), c = std::cos(M_PI / 180 * lat); return std::floor(2 * M_PI / std::acos(1 - a / (c * c))); }
static double mod_pos(double a, double b) { return a - b * std::floor(a / b); }
struct Cpr { int lat, lon; double rlat, dlon; int nl; };
static Cpr cpr_encode(double lat, double lon, int odd, bool surface = false) {
    double span = surface ? 90.0 : 360.0, dlat = span / (odd ? 59 : 60); double yz = std::floor(131072 * mod_pos(lat, dlat) / dlat + 0.5); double rlat = dlat * (yz / 131072 + std::floor(lat / dlat));
    int nl = (int)nl_formula(rlat); double dlon = span / std::max(1, nl - odd); double xz = std::floor(131072 * mod_pos(lon, dlon) / dlon + 0.5);
    return {(int)mod_pos(yz, 131072), (int)mod_pos(xz, 131072), rlat, dlon, nl};
}
static double lon_err(double a, double b) { return std::fabs(std::remainder(a - b, 360.0)); }

// ---------------- message generator with the values it encodes
struct Fields { int df = 17; uint32_t addr = 0; int ca = 0, fs = 0, dr = 0, um = 0; int alt = 0; bool has_alt = false; int squawk = 0; int metype = 0, mesub = 0; string flight; int actype = 0; int odd = 0, tflag = 0, rlat = 0, rlon = 0; int ewr = 0, nsr = 0, ewd = 0, nsd = 0, vsrc = 0, vsign = 0, vr = 0; int hvalid = 0, hraw = 0; };
static const char* AIS = "#ABCDEFGHIJKLMNOPQRSTUVWXYZ##### ###############0123456789######";
static void put_ac13(Msg& m, int pos, Rng& r, Fields& f) {
    switch (r.below(5)) { case 0: put(m, pos, 13, (uint32_t)r.below(8192) & ~0x40u & ~0x10u); f.has_alt = false; break;       // neither unit decodable
        case 1: put(m, pos, 13, ((uint32_t)r.below(8192) & ~0x40u) | 0x40u); f.has_alt = false; break;                        // metric
        default: { uint32_t n = r.chance(1, 8) ? r.pick({0u, 40u, 41u, 2047u}) : (uint32_t)r.below(2048); put(m, pos, 13, ((n & 0x7e0) << 2) | ((n & 0x10) << 1) | 0x10 | (n & 0xf)); f.alt = (int)n * 25 - 1000; f.has_alt = true; } }
}
static Msg make(Rng& r, Fields& f, int df, uint32_t addr) {
    Msg m; f = Fields(); f.df = df; f.addr = addr; m.bits = (df == 16 || df == 17 || df == 20 || df == 21) ? 112 : 56; for (int i = 0; i < 14; ++i) m.b[i] = i < m.bits / 8 ? (uint8_t)r.next() : 0; put(m, 0, 5, df);
    if (df == 11 || df == 17) { f.ca = (int)r.below(8); put(m, 5, 3, f.ca); put(m, 8, 24, addr); }
    if (df == 4 || df == 5 || df == 20 || df == 21) { f.fs = (int)r.below(8); f.dr = (int)r.below(32); f.um = (int)r.below(64); put(m, 5, 3, f.fs); put(m, 8, 5, f.dr); put(m, 13, 6, f.um); }
    if (df == 0 || df == 4 || df == 16 || df == 20) put_ac13(m, 19, r, f);
    if (df == 5 || df == 21) { int a = r.below(8), b = r.below(8), c = r.below(8), d = r.below(8); f.squawk = a * 1000 + b * 100 + c * 10 + d; auto bit = [](int v, int w) { return (v & w) ? 1u : 0u; };
        uint32_t v = 0; for (uint32_t x : {bit(c, 1), bit(a, 1), bit(c, 2), bit(a, 2), bit(c, 4), bit(a, 4), 0u, bit(b, 1), bit(d, 1), bit(b, 2), bit(d, 2), bit(b, 4), bit(d, 4)}) v = v << 1 | x; put(m, 19, 13, v); }
    if (df == 17) {
        f.metype = r.chance(1, 5) ? (int)r.below(32) : r.pick({1, 2, 3, 4, 9, 11, 14, 18, 19, 19, 19}); f.mesub = (int)r.below(8); if (f.metype == 19 && r.chance(4, 5)) f.mesub = 1 + (int)r.below(4); put(m, 32, 5, f.metype); put(m, 37, 3, f.mesub);
        if (f.metype >= 1 && f.metype <= 4) { f.actype = f.metype - 1; for (int i = 0; i < 8; ++i) { int c; do c = (int)r.below(64); while (AIS[c] == '#'); f.flight += AIS[c]; put(m, 40 + 6 * i, 6, c); } }
        if (f.metype >= 9 && f.metype <= 18) { if (r.chance(1, 5)) { put(m, 40, 12, (uint32_t)r.below(4096) & ~0x10u); f.has_alt = false; } else { uint32_t n = r.chance(1, 8) ? r.pick({0u, 40u, 2047u}) : (uint32_t)r.below(2048); put(m, 40, 12, ((n & 0x7f0) << 1) | 0x10 | (n & 0xf)); f.alt = (int)n * 25 - 1000; f.has_alt = true; }
            f.tflag = (int)r.below(2); f.odd = (int)r.below(2); f.rlat = (int)r.below(131072); f.rlon = (int)r.below(131072); put(m, 52, 1, f.tflag); put(m, 53, 1, f.odd); put(m, 54, 17, f.rlat); put(m, 71, 17, f.rlon); }
        if (f.metype == 19 && f.mesub >= 1 && f.mesub <= 2) { auto sp = [&] { return r.chance(1, 6) ? (int)r.pick({0, 1, 2, 1023}) : (int)r.below(1024); }; f.ewd = r.below(2); f.nsd = r.below(2); f.ewr = sp(); f.nsr = sp(); f.vsrc = r.below(2); f.vsign = r.below(2); f.vr = r.chance(1, 6) ? (int)r.pick({0, 1, 511}) : (int)r.below(512);
            put(m, 45, 1, f.ewd); put(m, 46, 10, f.ewr); put(m, 56, 1, f.nsd); put(m, 57, 10, f.nsr); put(m, 67, 1, f.vsrc); put(m, 68, 1, f.vsign); put(m, 69, 9, f.vr); }
        if (f.metype == 19 && f.mesub >= 3 && f.mesub <= 4) { f.hvalid = r.below(2); f.hraw = (int)r.below(1024); put(m, 45, 1, f.hvalid); put(m, 46, 10, f.hraw); f.vsign = r.below(2); f.vr = (int)r.below(512); put(m, 68, 1, f.vsign); put(m, 69, 9, f.vr); }
    }
    seal(m, (df == 11 || df == 17) ? 0 : addr); return m;
}
static bool is_pi(int df) { return df == 11 || df == 17; }
// ground speed and track that the velocity message encodes (subtypes 1 and 2); false when not available
static bool speed_of(const Fields& f, double& v, double& trk) { if (!f.ewr || !f.nsr) return false; double k = f.mesub == 2 ? 4 : 1, e = (f.ewr - 1) * k * (f.ewd ? -1 : 1), n = (f.nsr - 1) * k * (f.nsd ? -1 : 1); v = std::hypot(e, n); trk = mod_pos(std::atan2(e, n) * 180 / M_PI, 360); return true; }

static void check_fields(const mode_s_msg& mm, const Msg& m, const Fields& f, bool seen, int errbits) {
    string id = vmon::fmt("DF%d %s", f.df, hex(m.b, m.bits).c_str());
    auto eq = [&](const char* what, long got, long want) { if (got != want) bad("fields:value", "%s: %s is %ld, encoded %ld", id.c_str(), what, got, want); };
    eq("type", mm.msgtype, f.df); eq("length", mm.msgbits, m.bits); if (memcmp(mm.msg, m.b, m.bits / 8)) bad("fields:bits", "%s: message bytes are %s", id.c_str(), hex(mm.msg, m.bits).c_str());
    eq("crcok", mm.crcok, seen); if (!mm.crcok) return;
    if (is_pi(f.df)) eq("crc", mm.crc, get(m, m.bits - 24, 24)); if (!errbits) eq("errorbit", mm.errorbit, -1); else if (mm.errorbit == -1) bad("fields:errorbit", "%s: corrected, but no error position", id.c_str());
    eq("address", mm.aa1 << 16 | mm.aa2 << 8 | mm.aa3, f.addr); if (is_pi(f.df)) eq("capability", mm.ca, f.ca);
    if (f.df == 4 || f.df == 5 || f.df == 20 || f.df == 21) { eq("flight status", mm.fs, f.fs); eq("downlink request", mm.dr, f.dr); eq("utility message", mm.um, f.um); }
    if (f.df == 5 || f.df == 21) eq("squawk", mm.identity, f.squawk);
    eq("altitude", mm.altitude, f.has_alt ? f.alt : 0); if (f.has_alt) eq("unit", mm.unit, MODE_S_UNIT_FEET);
    bool es = f.df == 17; if (es) { eq("ME type", mm.metype, f.metype); eq("ME subtype", mm.mesub, f.mesub); }
    if (es && f.metype >= 1 && f.metype <= 4) { eq("aircraft type", mm.aircraft_type, f.actype); if (mm.flight[8] || f.flight != mm.flight) bad("fields:callsign", "%s: callsign '%.8s', encoded '%s'", id.c_str(), mm.flight, f.flight.c_str()); } else if (mm.flight[0]) bad("fields:invented", "%s: a callsign in a message without one", id.c_str());
    if (es && f.metype >= 9 && f.metype <= 18) { eq("odd", !!mm.fflag, f.odd); eq("UTC", !!mm.tflag, f.tflag); eq("raw latitude", mm.raw_latitude, f.rlat); eq("raw longitude", mm.raw_longitude, f.rlon); } else if (mm.raw_latitude || mm.raw_longitude || mm.fflag || mm.tflag) bad("fields:invented", "%s: a position in a message without one", id.c_str());
    if (es && f.metype == 19 && (f.mesub == 1 || f.mesub == 2)) { eq("E/W direction", mm.ew_dir, f.ewd); eq("N/S direction", mm.ns_dir, f.nsd); eq("E/W field", mm.ew_velocity, f.ewr); eq("N/S field", mm.ns_velocity, f.nsr); eq("rate source", mm.vert_rate_source, f.vsrc); eq("rate sign", mm.vert_rate_sign, f.vsign); eq("rate field", mm.vert_rate, f.vr);
        double v, t; if (speed_of(f, v, t)) { if (std::fabs(mm.velocity - v) >= 1.001) bad("fields:velocity", "%s: speed %d, encoded %.1f", id.c_str(), mm.velocity, v); if (v >= 1 && std::fabs(std::remainder(mm.heading - t, 360)) >= 1.001) bad("fields:heading", "%s: heading %d, encoded %.2f", id.c_str(), mm.heading, t); if (mm.heading < 0 || mm.heading > 360) bad("fields:heading", "%s: heading %d", id.c_str(), mm.heading); } else if (mm.velocity) bad("fields:invented", "%s: speed %d although it is not available", id.c_str(), mm.velocity); }
    else if (es && f.metype == 19 && (f.mesub == 3 || f.mesub == 4)) { eq("heading valid", !!mm.heading_is_valid, f.hvalid); double h = f.hraw * 360.0 / 1024; if (f.hvalid && std::fabs(std::remainder(mm.heading - h, 360)) > 3.82) bad("fields:heading", "%s: heading %d, encoded %.2f", id.c_str(), mm.heading, h); if (mm.velocity) bad("fields:invented", "%s: a ground speed in an airspeed message", id.c_str()); }
    else if (mm.velocity || mm.heading || mm.heading_is_valid || mm.ew_velocity || mm.ns_velocity || mm.vert_rate) bad("fields:invented", "%s: a velocity in a message without one", id.c_str());
}
static void poison() { volatile unsigned char junk[6000]; static std::atomic<unsigned> s{0}; unsigned v = s++ * 37 + 0xa5; for (size_t i = 0; i < sizeof junk; ++i) junk[i] = (unsigned char)v; }

// ---------------- C24: fields of single messages, error correction, address list
static void c_fields(uint64_t i, Rng& r) {
    std::unique_ptr<mode_s_t> st(new mode_s_t); memset((void*)st.get(), (int)r.below(256), sizeof *st); mode_s_init(st.get()); ctx() = vmon::fmt("decode case %llu", (unsigned long long)i); uint64_t sig = 1; st->aggressive = r.chance(1, 8);
    uint32_t last = 0; long last_t = 0; std::map<uint32_t, long> heard; int n = 60;
    for (int k = 0; k < n; ++k) {
        int df = r.pick({17, 17, 17, 11, 0, 4, 5, 16, 20, 21}); uint32_t addr = r.chance(1, 10) ? r.pick({1u, 0xffffffu, 0x800000u}) : 1 + (uint32_t)r.below(0xffffff); bool seen = true; Fields f; if (r.chance(1, 6)) g_now += (long)r.below(70);
        if (!is_pi(df)) { if (last && r.chance(4, 5)) addr = last; seen = addr == last && g_now - last_t <= 60; if (addr != last && heard.count(addr) && g_now - heard[addr] <= 60) continue; /* may have been displaced in the list */ }
        Msg m = make(r, f, df, addr), sent = m; int errs = 0; bool correctable = true;
        if (is_pi(df) && r.chance(1, 3)) { // errors behind the type field
            errs = r.chance(2, 3) ? 1 : (st->aggressive && df == 17 ? (int)r.range(1, 2) : (int)r.range(1, 6)); std::set<int> ps; while ((int)ps.size() < errs) ps.insert(r.chance(1, 4) ? m.bits - 1 - (int)r.below(24) : 5 + (int)r.below(m.bits - 5)); for (int p : ps) flip(sent, p);
            correctable = errs == 1 || (errs == 2 && st->aggressive && df == 17);
            if (!correctable) { // make sure that no single-bit (or, when aggressive, double-bit) repair exists
                bool fix = crc_ok(sent); Msg t = sent; for (int a = 0; a < m.bits && !fix; ++a) { flip(t, a); fix = crc_ok(t); if (st->aggressive) for (int b = a + 1; b < m.bits && !fix; ++b) { flip(t, b); fix = crc_ok(t); flip(t, b); } flip(t, a); } if (fix) continue; } }
        mode_s_msg mm; memset((void*)&mm, (int)(r.below(255) + 1), sizeof mm); poison(); uint8_t raw[14]; for (int q = 0; q < 14; ++q) raw[q] = q < m.bits / 8 ? sent.b[q] : (uint8_t)r.next(); vector<uint8_t> exact(raw, raw + 14);
        mode_s_decode(st.get(), &mm, exact.data()); if (memcmp(exact.data(), raw, 14)) bad("fields:input-changed", "decoding changed the caller's message");
        if (!correctable) { if (mm.crcok) bad("fields:accepted", "DF%d %s with %d errors is accepted", df, hex(sent.b, m.bits).c_str(), errs); }
        else check_fields(mm, m, f, seen, errs);
        if (is_pi(df) && !errs) { last = addr; last_t = heard[addr] = g_now; }
        sig = vmon::mix(sig, df * 64 + f.metype * 8 + f.mesub + errs * 4096 + (uint64_t)seen * 65536); vmon::stat("messages_decoded", 1); vmon::stat("corrected", errs && correctable); vmon::stat("rejected", !correctable || !seen); vmon::tick(); }
    vmon::evals(); vmon::nontrivial(sig); vmon::sample("%s: %d messages", ctx().c_str(), n);
}

// ---------------- C24: positions
static void c_cpr(uint64_t i, Rng& r) {
    ctx() = vmon::fmt("position case %llu", (unsigned long long)i); uint64_t sig = 1, ok = 0, crossed = 0;
    static const std::vector<double> zones = [] { std::vector<double> z; for (int nl = 59; nl > 2; --nl) { double a = 0, b = 89; for (int k = 0; k < 80; ++k) { double m = (a + b) / 2; (nl_formula(m) >= nl ? a : b) = m; } z.push_back(a); } z.push_back(87.0); return z; }();   // every latitude zone boundary
    for (int k = 0; k < 400; ++k) {
        double lat = r.chance(1, 5) ? r.pick({0.0, 1e-5, -1e-5, 6.0, -6.0, 89.99, -89.99, 45.0, 359.0 / 59}) + r.real(-1e-4, 1e-4) : r.chance(1, 3) ? (r.chance(1, 2) ? 1 : -1) * (r.pick(zones) + (r.chance(1, 2) ? 1 : -1) * std::pow(10.0, r.real(-6.5, -2.7))) : r.real(-89.999, 89.999); if (std::fabs(lat) > 89.999) continue;
        double lon = r.chance(1, 4) ? r.pick({0.0, 180.0, -180.0, 179.9999, -179.9999, 90.0, -90.0, 6.1}) + r.real(-1e-4, 1e-4) : r.real(-180, 180);
        Cpr e = cpr_encode(lat, lon, 0), o = cpr_encode(lat, lon, 1); int odd = (int)r.below(2); double la = 777, lo = 777; int res = decodeCPRairborne(e.lat, e.lon, o.lat, o.lon, odd ? r.pick({1, 4}) : 0, &la, &lo);
        bool near = false; for (double z : {e.rlat, o.rlat}) if (nl_formula(z + 2e-7) != nl_formula(z - 2e-7)) near = true;
        if (near) { vmon::stat("positions_on_a_boundary", 1); continue; }
        if (e.nl != o.nl) { crossed++; if (res == 0) bad("cpr:zone", "(%.6f, %.6f): the pair lies in two latitude zones but was decoded to (%.6f, %.6f)", lat, lon, la, lo); else if (la != 777 || lo != 777) bad("cpr:touched", "a rejected pair changed the output"); }
        else { ok++; Cpr& c = odd ? o : e; double tl = 360.0 / (odd ? 59 : 60) / 131072 * 0.51 + 1e-9, tn = c.dlon / 131072 * 0.51 + 1e-9; if (res != 0) bad("cpr:rejected", "(%.6f, %.6f): the pair was rejected with %d", lat, lon, res); else if (std::fabs(la - lat) > tl || lon_err(lo, lon) > tn) bad("cpr:position", "(%.6f, %.6f) decoded to (%.6f, %.6f)", lat, lon, la, lo); else if (lo < -180 - 1e-9 || lo > 180 + 1e-9 || la < -90 || la > 90) bad("cpr:range", "decoded to (%.6f, %.6f)", la, lo); }
        sig = vmon::mix(sig, (uint64_t)(e.nl * 4 + odd * 2 + (res == 0)));
        // relative to a reference within half a cell
        { bool surf = r.chance(1, 2); int od = (int)r.below(2); Cpr c = cpr_encode(lat, lon, od, surf); double dl = (surf ? 90.0 : 360.0) / (od ? 59 : 60); double rl = lat + r.real(-0.49, 0.49) * dl, rn = lon + r.real(-0.49, 0.49) * c.dlon; bool nr = nl_formula(c.rlat + 2e-7) != nl_formula(c.rlat - 2e-7);
          if (std::fabs(rl) < 90 && !nr && std::fabs(lon) < 180 - 0.5 * c.dlon && std::fabs(rn) < 180 && std::fabs(lat) < 89.99) { double x = 777, y = 777; int q = decodeCPRrelative(rl, rn, c.lat, c.lon, od, surf, &x, &y); if (q != 0) bad("cpr:relative-rejected", "(%.6f, %.6f) from (%.6f, %.6f), %s: rejected", lat, lon, rl, rn, surf ? "surface" : "airborne"); else if (std::fabs(x - lat) > dl / 131072 * 0.51 + 1e-9 || lon_err(y, lon) > c.dlon / 131072 * 0.51 + 1e-9) bad("cpr:relative", "(%.6f, %.6f) from (%.6f, %.6f), %s: decoded to (%.6f, %.6f)", lat, lon, rl, rn, surf ? "surface" : "airborne", x, y); vmon::stat("relative_positions", 1); } }
        // surface pair near a reference
        { Cpr se = cpr_encode(lat, lon, 0, true), so = cpr_encode(lat, lon, 1, true); double rl = lat + r.real(-40, 40), rn = lon + r.real(-40, 40); bool nr = false; for (double z : {se.rlat, so.rlat}) if (nl_formula(z + 2e-7) != nl_formula(z - 2e-7)) nr = true;
          if (std::fabs(rl) <= 90 && !nr && se.nl != so.nl && std::fabs(lat) > 1e-3) { double x = 777, y = 777; if (decodeCPRsurface(rl, rn, se.lat, se.lon, so.lat, so.lon, odd, &x, &y) == 0) bad("cpr:zone", "(%.6f, %.6f): the surface pair lies in two latitude zones but was decoded to (%.6f, %.6f)", lat, lon, x, y); else if (x != 777 || y != 777) bad("cpr:touched", "a rejected pair changed the output"); vmon::stat("surface_pairs_in_two_zones", 1); }
          if (std::fabs(rl) <= 90 && !nr && se.nl == so.nl && std::fabs(lat) > 1e-3 && std::fabs(lat) < 89.99) { double x = 777, y = 777; int q = decodeCPRsurface(rl, rn, se.lat, se.lon, so.lat, so.lon, odd, &x, &y); Cpr& c = odd ? so : se; if (q != 0) bad("cpr:surface-rejected", "(%.6f, %.6f) from (%.6f, %.6f): rejected with %d", lat, lon, rl, rn, q); else if (std::fabs(x - lat) > 90.0 / 59 / 131072 * 0.51 + 1e-9 || lon_err(y, lon) > c.dlon / 131072 * 0.51 + 1e-9) bad("cpr:surface", "(%.6f, %.6f) from (%.6f, %.6f): decoded to (%.6f, %.6f)", lat, lon, rl, rn, x, y); vmon::stat("surface_positions", 1); } }
    }
    // any field values: a decoded pair lies on the globe
    for (int k = 0; k < 200; ++k) { double la = 777, lo = 777; int res = decodeCPRairborne((int)r.below(131072), (int)r.below(131072), (int)r.below(131072), (int)r.below(131072), (int)r.below(2), &la, &lo); if (res == 0 && !(la >= -90 && la <= 90 && lo >= -180 - 1e-9 && lo <= 180 + 1e-9)) bad("cpr:range", "arbitrary pair decoded to (%.6f, %.6f)", la, lo); }
    vmon::stat("pairs_decoded", (double)ok); vmon::stat("pairs_in_two_zones", (double)crossed); vmon::tick(); vmon::evals(); vmon::nontrivial(sig); vmon::sample("%s: %llu pairs decoded, %llu in two zones", ctx().c_str(), (unsigned long long)ok, (unsigned long long)crossed);
}

// ---------------- C24: the aircraft table
struct Plane { double lat, lon; string call; double alt = 0, speed = 0, track = -1, rate = 0; bool pos = false; int count = 0; bool even = false, odd = false; Cpr ce{}, co{}; bool unsure = false; time_t te = 0, to = 0, moved = 0; double vx = 0, vy = 0; vector<std::pair<double, double>> at; bool mayinv = true; Fields lv; };
struct Cb { std::map<uint32_t, ADSBState> last; uint64_t calls = 0; }; static void on_update(const ADSBState& s, void* c) { auto& x = *(Cb*)c; x.last[s.icao] = s; x.calls++; }
static void c_agg(uint64_t i, Rng& r) {
    std::unique_ptr<mode_s_t> st(new mode_s_t); mode_s_init(st.get()); bool cb = r.chance(3, 4); Cb seen; ctx() = vmon::fmt("aggregator case %llu", (unsigned long long)i);
    std::unique_ptr<ADSBAggregateBlock> agg(new ADSBAggregateBlock("agg", 32, 34, cb ? on_update : nullptr, &seen, "missing.shp")); int np = 1 + (int)r.below(6); vector<uint32_t> addr; std::map<uint32_t, Plane> model; for (int k = 0; k < np; ++k) { uint32_t a = 1 + (uint32_t)r.below(0xffffff); addr.push_back(a); Plane p; p.lat = r.real(-88, 88); p.lon = r.real(-180, 180); p.vx = r.real(-1.5e-3, 1.5e-3); p.vy = r.real(-1.5e-3, 1.5e-3); p.moved = g_now; model[a] = p; }
    uint64_t total = 0, sig = 1; int rounds = 20 + (int)r.below(40);
    if (agg->procedure().is_ok()) bad("agg:idle", "success without a message");
    for (int q = 0; q < rounds; ++q) {
        size_t n = r.chance(1, 10) ? agg->in.space() : 1 + r.below(30); g_now += r.chance(1, 8) ? (long)r.below(240) : (long)r.below(3);
        for (size_t k = 0; k < n; ++k) {
            uint32_t a = r.pick(addr); Plane& p = model[a]; Fields f; int df = r.pick({17, 17, 17, 17, 17, 11, 4, 5, 20, 0}); Msg m = make(r, f, df, a); bool usepos = df == 17 && f.metype >= 9 && f.metype <= 18;
            // often a field differs from the one before only a little
            if (df == 17 && f.metype >= 1 && f.metype <= 4 && !p.call.empty() && r.chance(1, 2)) { f.flight = p.call; if (r.chance(4, 5)) { int c; do c = (int)r.below(64); while (AIS[c] == '#'); f.flight[r.below(8)] = AIS[c]; } for (int x = 0; x < 8; ++x) put(m, 40 + 6 * x, 6, (uint32_t)(std::strchr(AIS, f.flight[x]) - AIS)); seal(m, 0); }
            if (df == 17 && f.metype == 19 && (f.mesub == 1 || f.mesub == 2)) { if (p.lv.mesub && r.chance(1, 2)) { const Fields& o = p.lv; f.ewr = o.ewr; f.nsr = o.nsr; f.ewd = o.ewd; f.nsd = o.nsd; f.vr = o.vr; f.vsign = o.vsign; int& x = *r.pick({&f.vr, &f.ewr, &f.nsr}); if (x > 1 && x < 510) x += r.chance(1, 2) ? 1 : -1; if (r.chance(1, 6)) f.vsign ^= 1; put(m, 45, 1, f.ewd); put(m, 46, 10, f.ewr); put(m, 56, 1, f.nsd); put(m, 57, 10, f.nsr); put(m, 68, 1, f.vsign); put(m, 69, 9, f.vr); seal(m, 0); } p.lv = f; }
            if (df == 17 && usepos && f.has_alt && p.alt > 100 && r.chance(1, 3)) { int n = (int)(p.alt + 1000) / 25 + (int)r.below(3) - 1; if (n > 0 && n < 2048) { put(m, 40, 12, (((uint32_t)n & 0x7f0) << 1) | 0x10 | ((uint32_t)n & 0xf)); f.alt = n * 25 - 1000; seal(m, 0); } }
            if (usepos) { // the aircraft has flown on since its last position message
                double dt = (double)(g_now - p.moved), w = 1 / std::max(0.05, std::cos(p.lat * M_PI / 180)); p.moved = g_now; p.lat += p.vy * dt + r.real(-2e-5, 2e-5); if (p.lat > 88 || p.lat < -88) { p.lat = p.lat > 0 ? 88 : -88; p.vy = -p.vy; } p.lon = std::remainder(p.lon + w * p.vx * dt + r.real(-2e-5, 2e-5), 360);
                Cpr c = cpr_encode(p.lat, p.lon, f.odd); f.rlat = c.lat; f.rlon = c.lon; put(m, 54, 17, f.rlat); put(m, 71, 17, f.rlon); seal(m, 0); if (f.odd) { p.co = c; p.odd = true; p.to = g_now; } else { p.ce = c; p.even = true; p.te = g_now; }
                bool must = false; long age = std::labs((long)(p.te - p.to));
                if (p.even && p.odd) { bool near = false; for (double z : {p.ce.rlat, p.co.rlat}) if (nl_formula(z + 2e-7) != nl_formula(z - 2e-7)) near = true; if (near) p.unsure = true; else if (p.ce.nl == p.co.nl) must = age <= 9; else p.even = p.odd = false; if (age > 10) vmon::stat("old_position_pairs", 1); }
                if (must) { p.at.clear(); p.mayinv = p.unsure = false; } p.pos |= must; p.at.push_back({p.lat, p.lon}); }
            if (!is_pi(df)) { Fields g; Msg w = make(r, g, 11, a); mode_s_msg t; mode_s_decode(st.get(), &t, w.b); }
            mode_s_msg mm; memset((void*)&mm, (int)r.below(256), sizeof mm); poison(); mode_s_decode(st.get(), &mm, m.b); if (!mm.crcok) { bad("agg:decode", "a valid message was not decoded"); return; }
            if (df == 17 && f.metype >= 1 && f.metype <= 4) p.call = f.flight; if (f.has_alt && f.alt > 0) p.alt = f.alt;
            if (df == 17 && f.metype == 19 && (f.mesub == 1 || f.mesub == 2)) { double v, t; if (speed_of(f, v, t) && v >= 1) { p.speed = v; p.track = t; } if (f.vr) p.rate = (f.vr - 1) * 64 * (f.vsign ? -1 : 1); }
            if (df == 17 && f.metype == 19 && (f.mesub == 3 || f.mesub == 4) && f.hvalid) p.track = f.hraw * 360.0 / 1024;
            p.count++; if (!agg->in.try_push(mm)) { bad("agg:input", "input full"); return; } total++; }
        bool ok = agg->procedure().is_ok(); for (int c = 0; c < 3 && agg->in.size(); ++c) ok &= agg->procedure().is_ok(); if (!ok || agg->in.size()) bad("agg:consumed", "%zu messages left after a call", agg->in.size());
        size_t cnt = agg->aircraft_count(), expect = 0; for (auto& kv : model) expect += kv.second.count > 0; if (cnt != expect) bad("agg:count", "%zu aircraft, expected %zu", cnt, expect);
        vector<ADSBState> buf(cnt + 3); size_t lim = r.chance(1, 4) ? r.below(cnt + 1) : cnt + 3; size_t got = agg->get_aircrafts(buf.data(), lim); if (got != std::min(cnt, lim)) bad("agg:list", "%zu of %zu aircraft listed", got, cnt); std::set<uint32_t> uniq;
        for (size_t k = 0; k < got; ++k) { ADSBState& s = buf[k]; if (!uniq.insert(s.icao).second || !model.count(s.icao)) { bad("agg:list", "aircraft %06x listed twice or unknown", s.icao); continue; } Plane& p = model[s.icao]; string id = vmon::fmt("aircraft %06x", s.icao);
            if (p.call != s.callsign) bad("agg:callsign", "%s: callsign '%s', latest '%s'", id.c_str(), s.callsign, p.call.c_str()); if (s.altitude != p.alt) bad("agg:altitude", "%s: altitude %d, latest %g", id.c_str(), s.altitude, p.alt); if (std::fabs(s.groundspeed - p.speed) >= 1.001) bad("agg:speed", "%s: speed %g, latest %g", id.c_str(), s.groundspeed, p.speed);
            if (p.track >= 0 && std::fabs(std::remainder(s.track - p.track, 360)) > 3.82) bad("agg:track", "%s: track %g, latest %g", id.c_str(), s.track, p.track); if (p.track < 0 && s.track != 0) bad("agg:track", "%s: track %g, none received", id.c_str(), s.track); if (s.vertical_rate != (int)p.rate) bad("agg:rate", "%s: vertical rate %d ft/min, latest %g", id.c_str(), s.vertical_rate, p.rate); if (s.message_count != p.count) bad("agg:messages", "%s: %d messages counted of %d", id.c_str(), s.message_count, p.count);
            if (!p.unsure && !s.position_valid && !p.mayinv) bad("agg:position-valid", "%s: no position, but a pair of position messages less than ten seconds apart has arrived", id.c_str()); if (!p.unsure && s.position_valid) { bool any = false; for (auto& z : p.at) any |= std::fabs(s.lat - z.first) <= 3e-5 && lon_err(s.lon, z.second) <= 360.0 / std::max(1.0, nl_formula(z.first) - 1) / 131072; if (!any) { if (p.at.empty()) bad("agg:position-valid", "%s: has a position, none was received", id.c_str()); else bad("agg:position", "%s: at (%.6f, %.6f), flies at (%.6f, %.6f)", id.c_str(), s.lat, s.lon, p.at.back().first, p.at.back().second); } }
            if (cb && seen.last.count(s.icao)) { ADSBState& l = seen.last[s.icao]; if (l.altitude != s.altitude || std::strcmp(l.callsign, s.callsign) || l.groundspeed != s.groundspeed || l.track != s.track || l.vertical_rate != s.vertical_rate || l.position_valid != s.position_valid || l.lat != s.lat || l.lon != s.lon) bad("agg:callback", "%s: the last update reported differs from the table", id.c_str()); }
            else if (cb && (p.alt > 0 || !p.call.empty() || p.pos)) bad("agg:callback", "%s: changed without an update call", id.c_str()); }
        if (r.chance(1, 6)) { agg->render(); if (imstub::st().open != 0) bad("agg:render", "window left open"); }
        sig = vmon::mix(sig, total * 8 + cnt); vmon::tick(); }
    vmon::stat("messages_aggregated", (double)total); vmon::stat("updates_reported", (double)seen.calls); vmon::evals(); vmon::nontrivial(sig); vmon::sample("%s: %llu messages of %d aircraft, %llu updates", ctx().c_str(), (unsigned long long)total, np, (unsigned long long)seen.calls);
}
// table read by the window's thread while messages arrive
static void c_aggmt(uint64_t i, Rng& r) {
    std::unique_ptr<mode_s_t> st(new mode_s_t); mode_s_init(st.get()); Cb heard; ADSBAggregateBlock* agg = new ADSBAggregateBlock("agg", 32, 34, i & 1 ? on_update : nullptr, &heard, "missing.shp"); ctx() = vmon::fmt("aggregator with a reader, case %llu", (unsigned long long)i); vector<mode_s_msg> ms; std::set<uint32_t> all; int n = 1500; for (int k = 0; k < n; ++k) { Fields f; uint32_t a = 1 + (uint32_t)r.below(400); all.insert(a); Msg m = make(r, f, 17, a); mode_s_msg mm; memset((void*)&mm, 0, sizeof mm); mode_s_decode(st.get(), &mm, m.b); ms.push_back(mm); }
    std::atomic<bool> stop{false}; std::atomic<uint64_t> wrong{0}, reads{0}; uint64_t sd = r.next();
    std::thread proc([&] { Rng q(sd); size_t k = 0; while (k < ms.size()) { size_t c = 1 + q.below(20); for (size_t x = 0; x < c && k < ms.size(); ++x) if (agg->in.try_push(ms[k])) k++; (void)agg->procedure(); } while (agg->procedure().is_ok()) {} stop = true; });
    std::thread win([&] { vector<ADSBState> b(500); size_t lastc = 0; while (!stop) { size_t c = agg->aircraft_count(); size_t g = agg->get_aircrafts(b.data(), b.size()); if (c < lastc || g < c) wrong++; lastc = c; for (size_t x = 0; x < g; ++x) if (b[x].icao == 0 || b[x].icao > 400 || b[x].message_count < 0) wrong++; agg->render(); reads++; } });
    proc.join(); win.join(); if (wrong) bad("agg:reader", "the reading thread saw %llu inconsistent tables", (unsigned long long)wrong.load()); if (agg->aircraft_count() != all.size()) bad("agg:count", "%zu aircraft, expected %zu", agg->aircraft_count(), all.size()); delete agg;
    vmon::stat("tables_read", (double)reads); vmon::tick(); vmon::evals(); vmon::nontrivial(vmon::mix(reads, all.size())); vmon::sample("%s: table read %llu times", ctx().c_str(), (unsigned long long)reads.load());
}

// ---------------- C25: arbitrary samples and bytes
struct Got { vector<string> v; }; static void collect(mode_s_t*, struct mode_s_msg* mm, void* c) { ((Got*)c)->v.push_back(string((const char*)mm, sizeof *mm)); }
static void draw2(uint16_t* p, const Msg& m, uint32_t A, size_t len) { const int pre[] = {0, 2, 7, 9}; for (int x : pre) if ((size_t)x < len) p[x] = (uint16_t)A; for (int k = 0; k < m.bits; ++k) { size_t s = 16 + 2 * (size_t)k + ((m.b[k / 8] >> (7 - k % 8)) & 1 ? 0 : 1); if (s < len) p[s] = (uint16_t)A; } }
static void add24(vector<double>& w, double t0, const Msg& m, double A) { auto pulse = [&](double us) { double a = (t0 + us * 2.4), b = a + 1.2; for (size_t k = (size_t)std::floor(a); k <= (size_t)std::floor(b) && k < w.size(); ++k) { double o = std::min(b, (double)k + 1) - std::max(a, (double)k); if (o > 0) w[k] += A * o; } }; for (double x : {0.0, 1.0, 3.5, 4.5}) pulse(x); for (int k = 0; k < m.bits; ++k) pulse(8 + k + ((m.b[k / 8] >> (7 - k % 8)) & 1 ? 0.0 : 0.5)); }
static vector<uint16_t> wild(Rng& r, size_t n) {
    vector<uint16_t> v(n); unsigned style = (unsigned)r.below(6); for (size_t k = 0; k < n; ++k) switch (style) { case 0: v[k] = (uint16_t)r.next(); break; case 1: v[k] = r.chance(1, 2) ? 65535 : 0; break; case 2: v[k] = (uint16_t)(r.chance(1, 8) ? r.below(65536) : r.below(50)); break; case 3: v[k] = 65535; break; case 4: v[k] = (uint16_t)((k & 1) ? 40000 + r.below(20000) : r.below(3000)); break; default: v[k] = (uint16_t)r.below(200); }
    int nm = (int)r.below(4); for (int q = 0; q < nm && n > 4; ++q) { Fields f; Msg m = make(r, f, r.pick({17, 11, 0, 4, 20, 19, 24}), 1 + (uint32_t)r.below(0xffffff)); if (r.chance(1, 3)) flip(m, (int)r.below(m.bits)); size_t p = r.below(n); if (r.chance(1, 2)) { for (size_t k = p; k < std::min(n, p + 240); ++k) v[k] = (uint16_t)r.below(100); draw2(v.data() + p, m, r.pick({3000u, 20000u, 53000u, 65535u}), n - p); } else { vector<double> w(n); add24(w, (double)p + r.unit(), m, 30000); for (size_t k = p; k < std::min(n, p + 289); ++k) v[k] = (uint16_t)std::min(65535.0, w[k] + r.below(100)); } }
    return v;
}
static void c_wild(uint64_t i, Rng& r) {
    bool m24 = i & 1; size_t n = r.chance(1, 3) ? r.below(16) : r.chance(1, 2) ? r.pick({239ul, 240ul, 241ul, 288ul, 299ul, 300ul, 301ul, 302ul, 20ul, 480ul}) + r.below(3) : r.below(3000); ctx() = vmon::fmt("%s detector on %zu arbitrary samples", m24 ? "2.4 MHz" : "2 MHz", n);
    vector<uint16_t> v = wild(r, n); bool aggr = r.chance(1, 6), fix = r.chance(3, 4), chk = r.chance(3, 4); Got g[2]; vector<uint16_t> after[2];
    for (int pass = 0; pass < 2; ++pass) { std::unique_ptr<mode_s_t> st(new mode_s_t); memset((void*)st.get(), 0x5a + pass, sizeof *st); mode_s_init(st.get()); st->aggressive = aggr; st->fix_errors = fix; st->check_crc = chk; uint16_t* b = (uint16_t*)malloc(n ? n * 2 : 1); if (n) memcpy(b, v.data(), n * 2); poison(); poison(); if (pass) poison(); (m24 ? mode_s_detect_2400 : mode_s_detect)(st.get(), b, (uint32_t)n, collect, &g[pass]); after[pass].assign(b, b + n); free(b); vmon::tick(); }
    if (g[0].v != g[1].v) { string d = "counts"; if (g[0].v.size() == g[1].v.size()) for (size_t k = 0; k < g[0].v.size(); ++k) if (g[0].v[k] != g[1].v[k]) { size_t x = 0; while (g[0].v[k][x] == g[1].v[k][x]) x++; d = vmon::fmt("message %zu of type %d, byte %zu of the decoded structure", k, ((const mode_s_msg*)g[0].v[k].data())->msgtype, x); break; } bad("mem:nondeterministic", "two runs over the same samples differ: %s", d.c_str()); }
    if (after[0] != v && r.chance(1, 1)) bad("mem:input-changed", "the detector left the samples changed");
    for (auto& s : g[0].v) { auto* mm = (const mode_s_msg*)s.data(); if (mm->msgtype != mm->msg[0] >> 3) bad("mem:inconsistent", "type %d reported for a message of type %d", mm->msgtype, mm->msg[0] >> 3); }
    vmon::stat("samples_scanned", 2.0 * n); vmon::stat("messages_reported", (double)g[0].v.size()); vmon::evals(); vmon::nontrivial(vmon::mix(n, g[0].v.size() * 16 + i % 2 * 8 + aggr * 4 + fix * 2 + chk)); vmon::sample("%s: %zu messages", ctx().c_str(), g[0].v.size());
}
static void c_bytes(uint64_t i, Rng& r) {
    ctx() = vmon::fmt("arbitrary messages, case %llu", (unsigned long long)i); std::unique_ptr<mode_s_t> st[2]; for (int p = 0; p < 2; ++p) { st[p].reset(new mode_s_t); memset((void*)st[p].get(), 17 * p, sizeof(mode_s_t)); mode_s_init(st[p].get()); st[p]->aggressive = i % 3 == 0; } uint64_t ok = 0;
    FILE* so = stdout; FILE* nul = fopen("/dev/null", "w"); 
    for (int k = 0; k < 300; ++k) { Fields f; Msg m; if (r.chance(1, 2)) { m = make(r, f, (int)r.below(32), (uint32_t)r.below(0x1000000)); if (r.chance(1, 2)) flip(m, (int)r.below(m.bits)); } else for (auto& b : m.b) b = (uint8_t)r.next();
        mode_s_msg a[2]; for (int p = 0; p < 2; ++p) { memset((void*)&a[p], 0x11 + 0x44 * p, sizeof a[p]); uint8_t* e = (uint8_t*)malloc(14); memcpy(e, m.b, 14); poison(); mode_s_decode(st[p].get(), &a[p], e); free(e); }
        if (memcmp((void*)&a[0], (void*)&a[1], sizeof a[0])) { size_t x = 0; while (((char*)&a[0])[x] == ((char*)&a[1])[x]) x++; bad("mem:nondeterministic", "decoding %s twice differs at byte %zu of the structure", hex(m.b, 112).c_str(), x); }
        if (a[0].msgtype != a[0].msg[0] >> 3) bad("mem:inconsistent", "type %d reported for a message of type %d", a[0].msgtype, a[0].msg[0] >> 3);
        if (nul) { stdout = nul; mode_s_display_message(&a[0]); stdout = so; } ok += a[0].crcok; vmon::tick(); }
    if (nul) fclose(nul); vmon::stat("messages_decoded", 600); vmon::stat("accepted", (double)ok); vmon::evals(); vmon::nontrivial(vmon::mix(ok, i)); vmon::sample("%s: %llu of 300 accepted", ctx().c_str(), (unsigned long long)ok);
}

// ---------------- C23: whole receiver on clean streams
struct Sent { Msg m; int df; bool expect, optional; };
static void c_stream(uint64_t i, Rng& r, bool m24) {
    // what is transmitted
    vector<Sent> sent; vector<std::pair<double, Msg>> air; uint32_t last = 0; int n = 3 + (int)r.below(25); double t = 20 + r.below(400); bool tight = r.chance(1, 2); double top = 0; uint32_t filter = r.chance(1, 3) ? (uint32_t)r.next() | (r.chance(1, 2) ? 1u << 17 : 0u) : 0xFFFFFFFFu; if (!filter) filter = 1u << 17;
    double us = m24 ? 2.4 : 2.0; vector<double> amp;
    for (int k = 0; k < n; ++k) {
        Fields f; int df = r.pick({17, 17, 17, 11, 11, 0, 4, 5, 16, 20, 21}); uint32_t a = 1 + (uint32_t)r.below(0xffffff); bool ok = true, opt = false; if (!is_pi(df)) { if (last && r.chance(4, 5)) a = last; ok = a == last && last; }
        Msg m = make(r, f, df, a), tx = m; if (is_pi(df) && r.chance(1, 6)) { int e = r.chance(1, 2) ? 1 : (int)r.range(2, 6); std::set<int> ps; while ((int)ps.size() < e) ps.insert(5 + (int)r.below(m.bits - 5)); for (int p : ps) flip(tx, p); if (e == 1) { if (m24) opt = true; } else { bool fix = crc_ok(tx); Msg q = tx; for (int b = 0; b < m.bits && !fix; ++b) { flip(q, b); fix = crc_ok(q); flip(q, b); } if (fix) tx = m; else ok = false; } }
        if (is_pi(df) && !memcmp(tx.b, m.b, 14)) last = a;
        sent.push_back({m, df, ok && ((filter >> df) & 1), opt && ((filter >> df) & 1)}); air.push_back({t, tx}); double A = r.pick({4000.0, 9000.0, 30000.0, 60000.0}); amp.push_back(A); top = std::max(top, A); t += (8 + m.bits) * us + (tight ? r.below(5) : 10 + r.below(900)) + (m24 ? r.unit() : 0); if (tight && m24) t += 2; }
    size_t len = (size_t)t + 700; vector<uint16_t> d(len); unsigned nf = 1 + (unsigned)r.below(m24 ? 30 : 60); 
    if (!m24) { for (auto& x : d) x = (uint16_t)r.below(nf); for (size_t k = 0; k < air.size(); ++k) draw2(d.data() + (size_t)air[k].first, air[k].second, (uint32_t)amp[k], d.size() - (size_t)air[k].first); }
    else { vector<double> w(len); for (size_t k = 0; k < air.size(); ++k) add24(w, air[k].first, air[k].second, amp[k]); for (size_t k = 0; k < len; ++k) d[k] = (uint16_t)std::min(65535.0, w[k] + r.below(nf)); }
    ctx() = vmon::fmt("%s MHz, %d messages in %zu samples, filter %08x", m24 ? "2.4" : "2", n, len, filter);
    ADSBDecoderBlock b("adsb", m24 ? ADSBDecoderBlock::SampleRateMode::RATE_2_4MHZ : ADSBDecoderBlock::SampleRateMode::RATE_2MHZ, r.chance(1, 4) ? 0xFFFFFFFFu : filter); b.set_df_filter(filter);
    Pump<uint16_t, mode_s_msg> p; p.ins.push_back({&b.in, &d}); size_t cap = r.pick({1ul, 2ul, 5ul, 64ul}); p.addout(cap, r.below(cap)); p.call = [&] { return b.procedure(p.outs[0].get()); };
    size_t idle = 0; while (idle < 40) { bool m = p.step_call(); size_t w = p.ins[0].pos; if (r.chance(2, 3)) p.feed(0, Pump<uint16_t, mode_s_msg>::slice(r, 2048)); m |= p.ins[0].pos != w; if (p.outs[0]->ch.size()) m = true; if (r.chance(1, 2)) p.drain(0, r.below(4)); idle = m ? 0 : idle + 1; vmon::tick(); }
    p.drain(0, SIZE_MAX); auto& g = p.got[0]; if (p.ins[0].pos != len) bad("recv:stalled", "%zu of %zu samples taken", p.ins[0].pos, len);
    // transmitted and expected, in order, against received
    size_t k = 0; uint64_t hits = 0; for (size_t s = 0; s < sent.size(); ++s) { auto& x = sent[s]; auto is = [&](const mode_s_msg& mm) { return mm.msgtype == x.df && mm.msgbits == x.m.bits && !memcmp(mm.msg, x.m.b, x.m.bits / 8); }; if (x.expect) { if (k < g.size() && is(g[k])) { k++; hits++; } else if (!x.optional) { if (k && is(g[k > 0 ? k - 1 : 0])) {} bad(m24 ? "recv24:missing" : "recv:missing", "message %zu (DF%d, sample %.2f, amplitude %g) was not reported in its place; %zu received", s, x.df, air[s].first, amp[s], g.size()); return; } } }
    if (k < g.size()) { string h = hex(g[k].msg, g[k].msgbits); Msg q; memcpy(q.b, g[k].msg, 14); q.bits = g[k].msgbits; 
        bool dup = false; for (auto& x : sent) if (!memcmp(x.m.b, q.b, q.bits / 8)) dup = true; 
        bool filtered = !((filter >> g[k].msgtype) & 1); bool coincidence = false; if (!dup && !filtered && crc_ok(q) && !m24) for (size_t j = 0; j + 240 <= d.size() && !coincidence; ++j) { int dist = 0; for (int z = 0; z < q.bits; ++z) { int bit = d[j + 16 + 2 * z] > d[j + 17 + 2 * z]; dist += bit != (int)get(q, z, 1); } coincidence = dist <= 1; }
        if (coincidence) vmon::stat("accidental_codewords", 1); else bad(filtered ? "recv:filter" : dup ? "recv:duplicate" : "recv:invented", "message %zu received (%s, DF%d) %s", k, h.c_str(), g[k].msgtype, filtered ? "is not selected by the filter" : dup ? "was reported again" : "was never transmitted"); }
    for (auto& mm : g) if (!mm.crcok) bad("recv:crc", "a message with a wrong checksum was passed on");
    vmon::stat("messages_transmitted", n); vmon::stat("messages_received", (double)g.size()); vmon::stat("samples", (double)len); vmon::stat("procedure_calls", (double)p.calls); vmon::evals(); if (hits) vmon::nontrivial(p.sig); vmon::sample("%s: %zu received in %llu calls", ctx().c_str(), g.size(), (unsigned long long)p.calls);
}
static void c_noise(uint64_t i, Rng& r) { // nothing on the air
    bool m24 = i & 1; size_t len = 20000; vector<uint16_t> d(len); unsigned style = (unsigned)r.below(3); unsigned amp = m24 ? 65535 : 2500; for (auto& x : d) x = (uint16_t)(style == 0 ? r.below(amp) : style == 1 ? r.below(100) : (r.chance(1, 2) ? amp : 0)); if (m24 && style != 1) for (auto& x : d) x = (uint16_t)r.below(300);
    ctx() = vmon::fmt("noise at %s MHz, style %u", m24 ? "2.4" : "2", style); ADSBDecoderBlock b("adsb", m24 ? ADSBDecoderBlock::SampleRateMode::RATE_2_4MHZ : ADSBDecoderBlock::SampleRateMode::RATE_2MHZ); Pump<uint16_t, mode_s_msg> p; p.ins.push_back({&b.in, &d}); p.addout(64, 0); p.call = [&] { return b.procedure(p.outs[0].get()); };
    size_t idle = 0; while (idle < 20) { size_t w = p.ins[0].pos; p.feed(0, Pump<uint16_t, mode_s_msg>::slice(r, 2048)); bool m = p.step_call() || p.ins[0].pos != w; p.drain(0, SIZE_MAX); idle = m ? 0 : idle + 1; vmon::tick(); }
    if (p.ins[0].pos != len) bad("recv:stalled", "%zu of %zu samples taken", p.ins[0].pos, len); for (auto& mm : p.got[0]) { Msg q; memcpy(q.b, mm.msg, 14); q.bits = mm.msgbits; if (!m24 || !is_pi(mm.msgtype) || !crc_ok(q)) bad("recv:noise", "a message of type %d was reported from noise", mm.msgtype); else vmon::stat("accidental_codewords", 1); }
    vmon::stat("noise_samples", (double)len); vmon::evals(); vmon::nontrivial(p.sig);
}
static void c_race(uint64_t i, Rng& r) { // two receivers in two threads, filters changed from a third
    ctx() = vmon::fmt("two receivers, case %llu", (unsigned long long)i); vector<vector<uint16_t>> d(2); vector<vector<Msg>> tx(2); for (int q = 0; q < 2; ++q) { d[q].resize(9000); for (auto& x : d[q]) x = (uint16_t)r.below(40); for (size_t t = 100; t < 8500; t += 300 + r.below(200)) { Fields f; Msg m = make(r, f, 17, 1 + (uint32_t)r.below(0xffffff)); draw2(d[q].data() + t, m, 20000, 9000 - t); tx[q].push_back(m); } }
    std::unique_ptr<ADSBDecoderBlock> b[2]; size_t got[2] = {0, 0}; bool wrong[2] = {false, false}; for (int q = 0; q < 2; ++q) b[q].reset(new ADSBDecoderBlock("adsb", ADSBDecoderBlock::SampleRateMode::RATE_2MHZ, 1u << 17)); std::atomic<int> done{0};
    auto work = [&](int q) { cler::Channel<mode_s_msg> out(64); size_t pos = 0; int idle = 0; while (idle < 5) { size_t k = b[q]->in.writeN(d[q].data() + pos, std::min<size_t>(700, d[q].size() - pos)); pos += k; bool ok = b[q]->procedure(&out).is_ok(); mode_s_msg mm; while (out.try_pop(mm)) { if (got[q] < tx[q].size() && memcmp(mm.msg, tx[q][got[q]].b, 14)) wrong[q] = true; got[q]++; } idle = (k || ok) ? 0 : idle + 1; if (pos == d[q].size() && ++idle > 30) break; } done++; };
    std::thread a([&] { work(0); }), c([&] { work(1); }); std::thread f([&] { while (done < 2) { b[0]->set_df_filter(0xFFFFFFFFu); b[0]->set_df_filter(1u << 17); std::this_thread::yield(); } }); a.join(); c.join(); f.join();
    for (int q = 0; q < 2; ++q) if (wrong[q] || got[q] != tx[q].size()) bad("recv:two", "receiver %d reported %zu of %zu messages%s", q, got[q], tx[q].size(), wrong[q] ? ", some wrong" : "");
    vmon::tick(); vmon::evals(); vmon::nontrivial(vmon::mix(i, got[0] * 64 + got[1]));
}
int main(int argc, char** argv) {
    return vmon::run(argc, argv, {{"fields", c_fields}, {"cpr", c_cpr}, {"agg", c_agg}, {"aggmt", c_aggmt}, {"wild", c_wild}, {"bytes", c_bytes}, {"stream2", [](uint64_t i, Rng& r) { c_stream(i, r, false); }}, {"stream24", [](uint64_t i, Rng& r) { c_stream(i, r, true); }}, {"noise", c_noise}, {"race", c_race}});
}
