// Coastline loader: valid shapefiles load exactly, damaged ones harm nothing (C26).
#include "vmon.hpp"
#include "desktop_blocks/adsb/adsb_coastline_loader.hpp"
#include <sys/mman.h>
#include <unistd.h>
#include <string>
#include <new>
using vmon::Rng; using std::string; using std::vector;
static string CTX; static const bool ctx_named = (vmon::ctxp() = &CTX, true);
#define bad(key, ...) vmon::violation(key, "%s", (CTX + ": " + vmon::fmt(__VA_ARGS__)).c_str())

// ---------------- memory the loader asks for
static bool g_watch = false; static size_t g_live = 0, g_peak = 0;
static void* take(size_t n) { size_t* p = (size_t*)malloc(n + 16); if (!p) throw std::bad_alloc(); p[0] = n; p[1] = g_watch; if (g_watch) { g_live += n; if (g_live > g_peak) g_peak = g_live; if (n > (1ull << 30)) { free(p); throw std::bad_alloc(); } } return p + 2; }
static void give(void* v) { if (!v) return; size_t* p = (size_t*)v - 2; if (p[1] && g_watch) g_live -= p[0]; free(p); }
void* operator new(size_t n) { return take(n); } void* operator new[](size_t n) { return take(n); } void operator delete(void* p) noexcept { give(p); } void operator delete[](void* p) noexcept { give(p); } void operator delete(void* p, size_t) noexcept { give(p); } void operator delete[](void* p, size_t) noexcept { give(p); }

typedef vector<vector<std::pair<float, float>>> Lines;
struct Shp { string b; Lines want; size_t records = 0; vector<size_t> fields; };
static void be32(string& s, uint32_t v) { for (int k = 3; k >= 0; --k) s += (char)(v >> (8 * k)); }
static void le32(string& s, uint32_t v) { for (int k = 0; k < 4; ++k) s += (char)(v >> (8 * k)); }
static void f64(string& s, double d) { uint64_t v; memcpy(&v, &d, 8); for (int k = 0; k < 8; ++k) s += (char)(v >> (8 * k)); }
static Shp build(Rng& r) {
    Shp f; be32(f.b, 9994); for (int k = 0; k < 5; ++k) be32(f.b, 0); be32(f.b, 0); le32(f.b, 1000); le32(f.b, 3); for (int k = 0; k < 8; ++k) f64(f.b, r.real(-180, 180)); 
    f.records = r.chance(1, 12) ? 0 : r.below(r.chance(1, 5) ? 200 : 12);
    for (size_t q = 0; q < f.records; ++q) {
        string c; unsigned kind = (unsigned)r.below(8);
        if (kind == 0) { le32(c, r.pick({0u, 1u, 5u, 8u, 13u, 23u})); size_t n = 2 * r.below(60); for (size_t k = 0; k < n; ++k) c += (char)r.next(); }      // another kind of shape is skipped
        else { uint32_t np = 1 + (uint32_t)(r.chance(1, 4) ? r.below(30) : r.below(3)); vector<uint32_t> start; uint32_t n = 0; for (uint32_t k = 0; k < np; ++k) { start.push_back(n); n += r.chance(1, 12) ? 0 : (uint32_t)(r.chance(1, 10) ? r.below(400) : r.below(12)); }
            le32(c, 3); for (int k = 0; k < 4; ++k) f64(c, r.real(-180, 180)); if (kind == 1 && r.chance(1, 3)) { np = 0; start.clear(); if (r.chance(1, 2)) n = 0; } le32(c, np); le32(c, n); for (uint32_t s : start) le32(c, s); 
            vector<std::pair<float, float>> pts; for (uint32_t k = 0; k < n; ++k) { double lon = r.chance(1, 20) ? r.pick({180.0, -180.0, 0.0}) : r.real(-180, 180), lat = r.chance(1, 20) ? r.pick({90.0, -90.0, 0.0}) : r.real(-90, 90); f64(c, lon); f64(c, lat); pts.push_back({(float)lat, (float)lon}); }
            for (uint32_t k = 0; k < np; ++k) { uint32_t e = k + 1 < np ? start[k + 1] : n; if (e > start[k]) f.want.push_back(vector<std::pair<float, float>>(pts.begin() + start[k], pts.begin() + e)); } }
        f.fields.push_back(f.b.size() + 4); f.fields.push_back(f.b.size() + 8); f.fields.push_back(f.b.size() + 44); f.fields.push_back(f.b.size() + 48); f.fields.push_back(f.b.size() + 52); f.fields.push_back(f.b.size() + 56);
        be32(f.b, (uint32_t)q + 1); be32(f.b, (uint32_t)c.size() / 2); f.b += c; }
    uint32_t words = (uint32_t)f.b.size() / 2; for (int k = 0; k < 4; ++k) f.b[24 + k] = (char)(words >> (24 - 8 * k)); return f;
}
static bool load(const string& bytes, CoastlineData& d, bool& ret) {
    int fd = memfd_create("shp", 0); if (fd < 0) return false; size_t o = 0; while (o < bytes.size()) { ssize_t w = write(fd, bytes.data() + o, bytes.size() - o); if (w <= 0) { close(fd); return false; } o += (size_t)w; }
    string path = "/proc/self/fd/" + std::to_string(fd); g_live = g_peak = 0; g_watch = true; try { ret = d.load_from_shapefile(path.c_str()); } catch (const std::exception& e) { g_watch = false; bad("coast:exception", "loading threw %s", e.what()); close(fd); return false; } g_watch = false; close(fd); return true;
}
static void same(const Lines& a, const Lines& w) {
    if (a.size() != w.size()) { bad("coast:lines", "%zu polylines, the file holds %zu", a.size(), w.size()); return; }
    for (size_t k = 0; k < a.size(); ++k) { if (a[k].size() != w[k].size()) { bad("coast:points", "polyline %zu has %zu points, the file holds %zu", k, a[k].size(), w[k].size()); return; } for (size_t p = 0; p < a[k].size(); ++p) if (a[k][p] != w[k][p]) { bad("coast:points", "point %zu of polyline %zu is (%g, %g), the file holds (%g, %g)", p, k, a[k][p].first, a[k][p].second, w[k][p].first, w[k][p].second); return; } }
}
static void memory(size_t bytes, size_t points) { if (g_peak > 65536 + 12 * bytes) bad("coast:memory", "%zu bytes of memory for a file of %zu bytes", g_peak, bytes); if (points * 16 > bytes) bad("coast:more", "%zu points from a file of %zu bytes", points, bytes); }

static void c_valid(uint64_t i, Rng& r) {
    Shp f = build(r); CTX = vmon::fmt("valid file %llu: %zu bytes, %zu records", (unsigned long long)i, f.b.size(), f.records); CoastlineData d; bool ret = false; if (!load(f.b, d, ret)) return; same(d.polylines, f.want); if (ret != !f.want.empty()) bad("coast:result", "result %d with %zu polylines", ret, f.want.size()); size_t n = 0; for (auto& l : d.polylines) n += l.size(); memory(f.b.size(), n);
    vmon::stat("polylines_loaded", (double)d.polylines.size()); vmon::stat("points_loaded", (double)n); vmon::tick(); vmon::evals(); if (!f.want.empty()) vmon::nontrivial(vmon::mix(f.want.size(), vmon::mix(n, f.records)));
}
static void c_broken(uint64_t i, Rng& r) {
    Shp f = build(r); string b = f.b; size_t cuts = 0; bool trunc = r.chance(1, 4); unsigned style = (unsigned)r.below(6);
    if (trunc) b.resize(r.chance(1, 3) ? r.below(std::min<size_t>(b.size(), 170) + 1) : r.below(b.size() + 1));
    if (style == 0) { for (auto& c : b) if (r.chance(1, 2)) c = (char)r.next(); }
    else if (style <= 3 && !f.fields.empty()) { int n = 1 + (int)r.below(3); for (int k = 0; k < n; ++k) { size_t p = f.fields[r.below(f.fields.size())]; if (p + 4 > b.size()) continue; uint32_t v = r.pick({0u, 1u, 2u, 0xffffffffu, 0x7fffffffu, 0x80000000u, 0x7ffffffcu, 0xfffffff0u, 0x10000000u, 0x01000000u, 0x3fffffffu, 0xfcffff7fu, 100000u, (uint32_t)r.next(), (uint32_t)r.below(64)}); if (r.chance(1, 4)) { uint32_t o; memcpy(&o, &b[p], 4); v = o + (uint32_t)r.range(-3, 3); } if (r.chance(1, 2)) v = __builtin_bswap32(v); memcpy(&b[p], &v, 4); cuts++; } }
    else if (style == 4) { int n = 1 + (int)r.below(8); for (int k = 0; k < n && !b.empty(); ++k) b[r.below(b.size())] ^= (char)(1 << r.below(8)); }
    else { size_t n = r.below(60); for (size_t k = 0; k < n; ++k) b.insert(b.begin() + (long)r.below(b.size() + 1), (char)r.next()); }
    CTX = vmon::fmt("damaged file %llu (style %u%s, %zu bytes)", (unsigned long long)i, style, trunc ? ", truncated" : "", b.size()); CoastlineData d; bool ret = false; if (!load(b, d, ret)) return; size_t n = 0; for (auto& l : d.polylines) n += l.size(); memory(b.size(), n); if (ret != !d.polylines.empty()) bad("coast:result", "result %d with %zu polylines", ret, d.polylines.size());
    // every polyline reported stands in the file, at an even offset behind the header
    const char* raw = b.data(); size_t cursor = 100;
    for (size_t k = 0; k < d.polylines.size(); ++k) { auto& l = d.polylines[k]; if (l.empty()) { bad("coast:lines", "an empty polyline"); continue; } bool found = false; auto at = [&](size_t o) { double v; memcpy(&v, raw + o, 8); return (float)v; }; auto eq = [](float x, float y) { return !memcmp(&x, &y, 4) || x == y || (x != x && y != y); };
        for (size_t from : {cursor, (size_t)100}) for (size_t o = from; o + l.size() * 16 <= b.size() && !found; o += 1) { bool m = true; for (size_t p = 0; p < l.size() && m; ++p) m = eq(at(o + 16 * p), l[p].second) && eq(at(o + 16 * p + 8), l[p].first); found = m; if (m) cursor = o + 16 * l.size(); } if (!found) bad("coast:invented", "polyline %zu with %zu points does not stand in the file", k, l.size()); }
    vmon::stat("damaged_files", 1); vmon::stat("points_loaded", (double)n); vmon::stat("refused", !ret); vmon::tick(); vmon::evals(); vmon::nontrivial(vmon::mix(vmon::mix(n, b.size()), style * 2 + trunc));
}
static void c_special(uint64_t i, Rng&) {
    CoastlineData d; CTX = "special paths"; const vector<const char*> paths = {"/nonexistent/x.shp", "", "/", "/dev/null", "/proc/self/fd"}; for (auto p : paths) if (d.load_from_shapefile(p) || !d.polylines.empty()) bad("coast:result", "'%s' was loaded", p);
    const char* repo = getenv("VERIF_REPO"); string path = string(repo ? repo : "/repo") + "/desktop_blocks/adsb/coastlines_map/ne_110m_coastline.shp"; FILE* fp = fopen(path.c_str(), "rb"); if (fp) { string b; char buf[4096]; size_t n; while ((n = fread(buf, 1, sizeof buf, fp)) > 0) b.append(buf, n); fclose(fp);
        Lines w; size_t o = 100; auto l32 = [&](size_t p) { uint32_t v; memcpy(&v, &b[p], 4); return v; }; while (o + 12 <= b.size()) { size_t len = 2 * (size_t)__builtin_bswap32(l32(o + 4)); size_t c = o + 8; if (l32(c) == 3) { uint32_t np = l32(c + 36), nn = l32(c + 40); for (uint32_t k = 0; k < np; ++k) { uint32_t s = l32(c + 44 + 4 * k), e = k + 1 < np ? l32(c + 48 + 4 * k) : nn; vector<std::pair<float, float>> l; for (uint32_t p = s; p < e; ++p) { double x, y; memcpy(&x, &b[c + 44 + 4 * np + 16 * p], 8); memcpy(&y, &b[c + 52 + 4 * np + 16 * p], 8); l.push_back({(float)y, (float)x}); } w.push_back(l); } } o = c + len; }
        CTX = "the bundled map"; CoastlineData m; if (!m.load_from_shapefile(path.c_str())) bad("coast:result", "refused"); same(m.polylines, w); vmon::stat("bundled_polylines", (double)w.size());
        // a second load into the same object adds the file once more, a failed one changes nothing
        size_t before = m.polylines.size(); if (m.load_from_shapefile("/nonexistent/x.shp") || m.polylines.size() != before) bad("coast:result", "a missing file changed the map"); }
    vmon::tick(); vmon::evals(); vmon::nontrivial(i + 1);
}
int main(int argc, char** argv) { return vmon::run(argc, argv, {{"valid", c_valid}, {"broken", c_broken}, {"special", c_special}}); }
