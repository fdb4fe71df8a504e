// Logging backend: what a log line holds, where it is cut, memory dumps, levels (C38).
#include "vmon.hpp"
#define ZF_LOG_LEVEL ZF_LOG_VERBOSE
#include "h_zflog.hpp"
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <cmath>
#include <memory>
using vmon::Rng; using std::string; using std::vector;
static thread_local string CTX; static string CTX0; static const bool ctx_named = (vmon::ctxp() = &CTX0, true);
#define bad(key, ...) vmon::violation(key, "%s", (CTX + ": " + vmon::fmt(__VA_ARGS__)).c_str())

// the clock as the library sees it, per thread
static thread_local bool g_faked = false; static thread_local timeval g_now; static thread_local int g_asked = 0;
extern "C" int __real_gettimeofday(timeval*, void*);
extern "C" int __wrap_gettimeofday(timeval* tv, void* z) { if (!g_faked) return __real_gettimeofday(tv, z); g_asked++; *tv = g_now; return 0; }
extern "C" int __real_clock_gettime(clockid_t, timespec*);
extern "C" int __wrap_clock_gettime(clockid_t c, timespec* t) { if (!g_faked || c != CLOCK_REALTIME) return __real_clock_gettime(c, t); g_asked++; t->tv_sec = g_now.tv_sec; t->tv_nsec = g_now.tv_usec * 1000; return 0; }
static const long ZONE = 5 * 3600 + 1800;   // TZ=VRF-05:30
static string stamp(const timeval& tv) { long t = tv.tv_sec + ZONE; long days = t / 86400, s = t % 86400; if (s < 0) { s += 86400; days--; } int y = 1970; for (;;) { int len = y % 4 == 0 && (y % 100 || y % 400 == 0) ? 366 : 365; if (days < len) break; days -= len; y++; } static const int md[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; int m = 0; for (;; ++m) { int len = md[m] + (m == 1 && y % 4 == 0 && (y % 100 || y % 400 == 0)); if (days < len) break; days -= len; } return vmon::fmt("%02d-%02ld %02ld:%02ld:%02ld.%03ld", m + 1, days + 1, s / 3600, s / 60 % 60, s % 60, (long)tv.tv_usec / 1000); }

struct Got { string line, tagtext, head; int lvl; const char* tag; size_t cap; bool order, aux = false; void* arg; const char *buf, *msgb; };
static thread_local vector<Got>* g_got = nullptr; static thread_local unsigned g_mask = 0xffff;
static void on_line(const zf_log_message* m, void* arg) {
    if (!g_got) return; Got g; g.order = m->buf && m->buf <= m->p && m->p <= m->e; g.lvl = m->lvl; g.tag = m->tag; g.arg = arg; g.cap = (size_t)(m->e - m->buf); g.buf = m->buf; g.msgb = nullptr;
    if (g.order) { g.line.assign(m->buf, m->p); if (g_mask & ZF_LOG_PUT_TAG) { if (m->tag_b < m->buf || m->tag_e < m->tag_b || m->tag_e > m->p) g.order = false; else g.tagtext.assign(m->tag_b, m->tag_e); } if (g_mask & ZF_LOG_PUT_MSG) { if (m->msg_b < m->buf || m->msg_b > m->p) g.order = false; else { g.msgb = m->msg_b; g.head.assign(m->buf, m->msg_b); for (char* c = m->msg_b; c < m->e; ++c) *c = '#'; } } m->p[0] = '\n'; m->p[1] = 0; }   // an output may put its line end there and change the text
    g_got->push_back(g);
}
static void on_aux(const zf_log_message* m, void* arg) { on_line(m, arg); if (g_got && !g_got->empty()) g_got->back().aux = true; }
static void rtext(Rng& r, string& s, size_t n) { static const char* u[] = {"\xc3\xa4", "\xe2\x82\xac", "%s", "%n", "\t"}; s.clear(); while (s.size() < n) { if (r.chance(1, 12)) s += u[r.below(5)]; else s += (char)(' ' + r.below(95)); } s.resize(n); }
static size_t len(Rng& r) { switch (r.below(6)) { case 0: return r.below(3); case 1: return 380 + r.below(140); case 2: return 500 + r.below(20); case 3: return r.below(3000); default: return r.below(120); } }

struct Setup { unsigned mask, width, awidth, amask; int outlvl; string prefix; bool hasprefix; };
static int lvl_of(const Call& c) { if (c.kind >= 6 && c.kind < 36) return 1 + c.kind % 6; return c.lvl; }
static bool is_aux(int k) { return k == 2 || k == 3 || (k >= 18 && k < 24) || (k >= 30 && k < 36); }
static bool is_mem(int k) { return k == 1 || k == 3 || (k >= 24 && k < 36); }
static const char* file_of(int k) { return k < 6 ? "site.cpp" : k < 12 ? "another_file_name.cxx" : k < 18 ? "x.c" : k < 24 ? nullptr : k < 36 ? "mem.cpp" : "secret.cpp"; }
static string expected_file(int k) { if (const char* f = file_of(k)) return f; string s = "a_rather_long_file_name_that_goes_on"; for (int j = 0; j < 27; ++j) s += "_and_on"; return s + ".cpp"; }
// one statement: what must come out
static void judge(const Unit& u, Call& c, const Setup& st, const vector<Got>& got, const timeval& tv, void* garg, void* aarg, bool global_aux = false) {
    int lvl = lvl_of(c); bool aux = is_aux(c.kind); bool due = lvl >= u.level && lvl >= st.outlvl; if (c.kind == 36 && u.censored) due = false; if (c.kind == 37 && !(c.i & 1)) due = false; if (c.kind >= 38) { if (!got.empty()) bad("zf:level", "a question about the level logged something"); if ((c.kind == 38 ? due : lvl >= u.level) != (c.on > 0)) bad("zf:level", "level %d, enabled from %d, output from %d: asked %s, answered %d", lvl, u.level, st.outlvl, c.kind == 38 ? "ON" : "ENABLED", c.on); return; }
    if (!due) { if (!got.empty()) bad("zf:level", "a line of level %d came out (enabled from %d, output from %d)", lvl, u.level, st.outlvl); if (c.evals) bad("zf:evaluated", "the arguments of a line of level %d that is not output were evaluated", lvl); return; }
    if (c.evals != 1) bad("zf:evaluated", "the arguments were evaluated %d times", c.evals);
    if (got.empty()) { bad("zf:lost", "a line of level %d did not come out (enabled from %d, output from %d)", lvl, u.level, st.outlvl); return; }
    unsigned mask = aux ? st.amask : st.mask; const char* tag = c.kind < 6 || c.kind >= 36 ? c.tag : u.tag; string pt = st.hasprefix ? st.prefix : ""; if (tag && *tag) { if (!pt.empty()) pt += "."; pt += tag; }
    string e; if (mask & ZF_LOG_PUT_CTX) e += stamp(tv) + vmon::fmt(" %5d %5d %c ", (int)getpid(), (int)syscall(SYS_gettid), "?VDIWEF"[lvl]); size_t tb = e.size(); if (mask & ZF_LOG_PUT_TAG) { e += pt; if (!pt.empty()) e += " "; } if (u.srcloc && (mask & ZF_LOG_PUT_SRC)) e += string(u.srcloc == 2 ? c.func : "") + "@" + expected_file(c.kind) + ":" + std::to_string(c.line) + " "; size_t hb = e.size();
    if (mask & ZF_LOG_PUT_MSG) { if (c.kind == 4) { vector<char> b(std::strlen(c.s) + 600); snprintf(b.data(), b.size(), "n=%d, x=%08x, f=%.3f, s=%s, 100%%", c.i, (unsigned)c.i, c.f, c.s); e += b.data(); } else if (c.kind == 5) e += string(c.s) + "|x"; else e += c.s; }
    auto& g = got[0]; if (g.cap < 480 || g.cap >= 512 || !g.order) { bad("zf:fields", "the line handed over is inconsistent (buffer of %zu)", g.cap); return; }
    string full = e; if (e.size() > g.cap) { e.resize(g.cap); vmon::statmax("longest_line_cut", (double)full.size()); }
    if (g.line != e) { size_t k = 0; while (k < e.size() && k < g.line.size() && e[k] == g.line[k]) k++; bad(k < hb ? "zf:header" : k >= g.line.size() && g.line.size() < e.size() ? "zf:cut" : "zf:text", "%zu characters instead of %zu (of %zu); at %zu '%s' instead of '%s'", g.line.size(), e.size(), full.size(), k, g.line.substr(k, 30).c_str(), e.substr(k, 30).c_str()); return; }
    if (g.lvl != lvl || g.tag != tag) bad("zf:fields", "level %d and another tag handed over for level %d", g.lvl, lvl); for (auto& x : got) if (x.aux != (aux && !global_aux)) { bad("zf:output", "a line reached the wrong output"); return; }
    if (g.arg != (aux ? aarg : garg)) bad("zf:fields", "another argument handed over");
    if ((mask & ZF_LOG_PUT_TAG) && g.tagtext != (tb > g.cap ? "" : pt.substr(0, g.cap - std::min(g.cap, tb)))) bad("zf:fields", "tag '%s' handed over as '%s'", pt.c_str(), g.tagtext.c_str()); if ((mask & ZF_LOG_PUT_MSG) && g.head.size() != std::min(hb, g.cap)) bad("zf:fields", "the message starts at %zu, handed over as %zu", hb, g.head.size());
    vector<string> dump; unsigned w = aux ? st.awidth : st.width; size_t at = std::min(hb, g.cap);
    if (is_mem(c.kind) && (mask & ZF_LOG_PUT_MSG) && c.d && c.n && at + 3 * (size_t)w + 2 <= g.cap) { auto* p = (const unsigned char*)c.d; for (size_t k = 0; k < c.n; k += w) { string h, a; for (size_t j = k; j < std::min<size_t>(k + w, c.n); ++j) { h += "0123456789abcdef"[p[j] >> 4]; h += "0123456789abcdef"[p[j] & 15]; a += (p[j] >= 32 && p[j] < 127) ? (char)p[j] : '\0'; } h.resize(2 * (size_t)w + 2, ' '); dump.push_back(h + a); } }
    if (got.size() != 1 + dump.size()) { bad("zf:dump", "%zu dump lines instead of %zu for %u bytes, %u a line, room for %zu", got.size() - 1, dump.size(), c.n, w, g.cap - at); return; }
    for (size_t k = 0; k < dump.size(); ++k) { auto& x = got[k + 1]; string d = x.line.size() >= at ? x.line.substr(at) : ""; bool ok = x.order && x.lvl == lvl && x.arg == g.arg && x.head == e.substr(0, at) && d.size() == dump[k].size(); for (size_t j = 0; ok && j < d.size(); ++j) ok = dump[k][j] ? d[j] == dump[k][j] : d[j] >= 32 && d[j] < 127; if (!ok) { bad("zf:dump", "dump line %zu of %zu (%u bytes, %u a line): '%s' instead of '%s'", k, dump.size(), c.n, w, x.line.substr(0, 200).c_str(), dump[k].substr(0, 200).c_str()); return; } }
}
static const Unit* units[] = {&unit_a, &unit_b, &unit_c};
static timeval when(Rng& r) { timeval t; static const long edges[] = {0, 951782399 - ZONE, 951782400 - ZONE, 1709164799 - ZONE, 1709251200 - ZONE, 1735689599 - ZONE, 1735689600 - ZONE, 2147483647}; t.tv_sec = r.chance(1, 2) ? edges[r.below(8)] + (long)r.below(3) : (long)r.below(4000000000ull); if (t.tv_sec < 0) t.tv_sec = 0; t.tv_usec = (long)(r.chance(1, 2) ? r.pick({0, 999, 1000, 999999, 999000, 100000, 10000, 9999}) : (int)r.below(1000000)); return t; }
static unsigned masks(Rng& r) { return r.chance(1, 2) ? 0xffffu : (unsigned)r.below(16); }
static void c_line(uint64_t i, Rng& r) {
    Setup st; st.mask = masks(r); st.amask = masks(r); st.width = r.chance(1, 2) ? 32 : 1 + (unsigned)r.below(r.chance(1, 4) ? 1000 : 170); st.awidth = 1 + (unsigned)r.below(170); st.outlvl = r.pick({0, 1, 2, 3, 4, 5, 6, 7, 255, 1, 1, 0}); st.hasprefix = r.chance(2, 3); rtext(r, st.prefix, r.chance(1, 5) ? len(r) : r.below(12)); int ga, aa; zf_log_format af = {st.awidth}; bool gf = r.chance(1, 4); if (gf) st.awidth = st.width; zf_log_output ao = {st.amask, &aa, on_aux}; zf_log_spec spec = {gf ? ZF_LOG_GLOBAL_FORMAT : &af, &ao}; bool go = r.chance(1, 4); if (go) { st.amask = st.mask; spec.output = ZF_LOG_GLOBAL_OUTPUT; }
    zf_log_set_tag_prefix(st.hasprefix ? st.prefix.c_str() : nullptr); zf_log_set_mem_width(st.width); zf_log_set_output_level(st.outlvl); if (r.chance(1, 2)) zf_log_set_output_v(st.mask, &ga, on_line); else { zf_log_output o = {st.mask, &ga, on_line}; zf_log_set_output_p(&o); } g_faked = true; timeval tv = when(r); uint64_t h = st.mask; size_t lines = 0;
    for (int k = 0; k < 12; ++k) { auto& u = *units[r.below(3)]; Call c; string s, tag; c.kind = (int)r.below(40); c.lvl = 1 + (int)r.below(6); rtext(r, s, len(r)); std::unique_ptr<char[]> sp(new char[s.size() + 1]); std::memcpy(sp.get(), s.c_str(), s.size() + 1); c.s = sp.get(); if (r.chance(3, 4)) { rtext(r, tag, r.chance(1, 6) ? len(r) : r.below(10)); c.tag = tag.c_str(); } size_t n = r.chance(1, 6) ? 0 : r.chance(1, 2) ? r.below(70) : r.below(2000); if (r.chance(1, 4)) n = (r.below(4)) * (size_t)st.width + r.below(2); std::unique_ptr<unsigned char[]> d(new unsigned char[n]); for (size_t j = 0; j < n; ++j) d[j] = (unsigned char)(r.chance(1, 2) ? r.below(256) : 'a' + j % 26); c.d = r.chance(1, 12) ? nullptr : d.get(); c.n = (unsigned)n; c.spec = &spec; c.i = (int)r.next(); c.f = r.real(-1e6, 1e6); if (!r.chance(1, 3)) tv = when(r); else tv.tv_usec = (long)r.below(1000000); g_now = tv;
        CTX = CTX0 = vmon::fmt("%s, statement %d, level %d, masks %x/%x, %s, text of %zu, %zu bytes to dump, %u/%u a line", u.name, c.kind, lvl_of(c), st.mask, st.amask, st.hasprefix ? vmon::fmt("prefix of %zu", st.prefix.size()).c_str() : "no prefix", s.size(), n, st.width, st.awidth);
        vector<Got> got; g_got = &got; g_mask = is_aux(c.kind) ? st.amask : st.mask; u.statement(c); g_got = nullptr; judge(u, c, st, got, tv, &ga, go ? (void*)&ga : (void*)&aa, go); lines += got.size(); h = vmon::mix(h, got.size() * 64 + c.kind); vmon::evals(); vmon::tick(); }
    g_faked = false; zf_log_set_tag_prefix(nullptr); vmon::stat("lines_compared", (double)lines); if (lines) vmon::nontrivial(h); vmon::sample("%s", CTX.c_str());
}
// what reaches standard error
static void c_stderr(uint64_t i, Rng& r) {
    zf_log_set_tag_prefix("p"); unsigned w = 1 + (unsigned)r.below(100); zf_log_set_mem_width(w); zf_log_set_output_level(r.chance(1, 2) ? 0 : 1); zf_log_set_output_v(ZF_LOG_OUT_STDERR); int f = memfd_create("e", 0), keep = dup(2); string want; size_t cap = 0; { vector<Got> got; g_got = &got; int x; zf_log_output o = {0, &x, on_line}; zf_log_spec s = {ZF_LOG_GLOBAL_FORMAT, &o}; g_mask = 0; ZF_LOG_WRITE_AUX(&s, 6, nullptr, "%s", ""); g_got = nullptr; if (!got.empty()) cap = got[0].cap; } CTX = CTX0 = vmon::fmt("standard error, %u a line", w); g_faked = true; size_t n = 0; dup2(f, 2);
    for (int k = 0; k < 20; ++k) { string s, d; rtext(r, s, len(r)); rtext(r, d, r.below(200)); g_now = when(r); int lvl = 1 + (int)r.below(6); bool mem = r.chance(1, 3), aux = r.chance(1, 2); unsigned line; string hd = stamp(g_now) + vmon::fmt(" %5d %5d %c p.T ", (int)getpid(), (int)syscall(SYS_gettid), "?VDIWEF"[lvl]); if (mem) { if (aux) { line = __LINE__; ZF_LOG_WRITE_MEM_AUX(ZF_LOG_STDERR, lvl, "T", d.data(), (unsigned)d.size(), "%s", s.c_str()); } else { line = __LINE__; ZF_LOG_WRITE_MEM(lvl, "T", d.data(), (unsigned)d.size(), "%s", s.c_str()); } } else if (aux) { line = __LINE__; ZF_LOG_WRITE_AUX(ZF_LOG_STDERR, lvl, "T", "%s", s.c_str()); } else { line = __LINE__; ZF_LOG_WRITE(lvl, "T", "%s", s.c_str()); }
        hd += string("c_stderr@h_zflog.cpp:") + std::to_string(line) + " "; want += (hd + s).substr(0, cap) + "\n"; n++; if (mem && hd.size() + 3 * (size_t)w + 2 <= cap) for (size_t j = 0; j < d.size(); j += w) { string h, a; for (size_t q = j; q < std::min(j + w, d.size()); ++q) { h += vmon::fmt("%02x", (unsigned char)d[q]); a += (unsigned char)d[q] >= 32 && (unsigned char)d[q] < 127 ? d[q] : '?'; } h.resize(2 * (size_t)w + 2, ' '); want += hd + h + a + "\n"; n++; } vmon::evals(); }
    dup2(keep, 2); close(keep); g_faked = false; off_t len = lseek(f, 0, SEEK_END); string got((size_t)len, 0); if (len && pread(f, &got[0], (size_t)len, 0) != len) got.clear(); close(f); if (got != want) { size_t k = 0; while (k < got.size() && k < want.size() && got[k] == want[k]) k++; size_t b = k > 60 ? k - 60 : 0; bad("zf:stderr", "%zu characters instead of %zu; at %zu '%s' instead of '%s'", got.size(), want.size(), k, got.substr(b, 120).c_str(), want.substr(b, 120).c_str()); }
    vmon::stat("lines_compared", (double)n); vmon::nontrivial(vmon::mix(want.size(), w)); vmon::tick(); zf_log_set_tag_prefix(nullptr);
}
// threads log at once, each at a time of its own
static void c_mt(uint64_t i, Rng& r) {
    int T = 2 + (int)r.below(5), per = 60 + (int)r.below(200); Setup st; st.mask = 0xffff; st.amask = 0xffff; st.width = 8 + (unsigned)r.below(30); st.awidth = st.width; st.outlvl = 1 + (int)r.below(4); st.prefix = "threads"; st.hasprefix = true; int ga, aa; zf_log_output ao = {0xffff, &aa, on_aux}; zf_log_spec spec = {ZF_LOG_GLOBAL_FORMAT, &ao}; zf_log_set_tag_prefix(st.prefix.c_str()); zf_log_set_mem_width(st.width); zf_log_set_output_level(st.outlvl); zf_log_set_output_v(0xffff, &ga, on_line); int secs = 1 + (int)r.below(4); long base = (long)r.below(2000000000); long step = r.pick({1l, 1l, 3600l, 86400l, 40000000l}); vector<uint64_t> seed; for (int t = 0; t < T; ++t) seed.push_back(r.next()); CTX0 = vmon::fmt("%d threads of %d statements, times %ld s apart", T, per, step); std::atomic<uint64_t> lines{0}; std::atomic<int> go{0}; vector<std::thread> th;
    for (int t = 0; t < T; ++t) th.emplace_back([&, t] { Rng q(seed[t]); CTX = CTX0; go++; while (go < T) std::this_thread::yield(); g_faked = true; g_mask = 0xffff; vector<Got> got; string s; unsigned char d[64]; for (int k = 0; k < per; ++k) { auto& u = *units[q.below(3)]; Call c; c.kind = (int)q.below(38); c.lvl = 1 + (int)q.below(6); rtext(q, s, q.chance(1, 8) ? 520 : q.below(40)); c.s = s.c_str(); c.tag = "tag"; for (auto& b : d) b = (unsigned char)q.below(256); c.d = d; c.n = (unsigned)q.below(65); c.spec = &spec; c.i = (int)q.next(); c.f = q.real(-10, 10); g_now.tv_sec = base + step * (long)q.below(secs); g_now.tv_usec = (long)q.below(1000000); got.clear(); g_got = &got; u.statement(c); g_got = nullptr; judge(u, c, st, got, g_now, &ga, &aa); lines += got.size(); } g_faked = false; });
    for (auto& t : th) t.join(); vmon::stat("lines_compared", (double)lines); vmon::evals((uint64_t)T * per); vmon::nontrivial(vmon::mix(lines, T)); vmon::tick(); zf_log_set_tag_prefix(nullptr);
}
int main(int argc, char** argv) { setenv("TZ", "VRF-05:30", 1); tzset(); return vmon::run(argc, argv, {{"line", c_line}, {"stderr", c_stderr}, {"mt", c_mt}}); }
