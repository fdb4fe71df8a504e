// Logger: whole lines, exactly once, in order, across rotation, reconfiguration and kills (C28).
#include "vmon.hpp"
#define ZF_LOG_LEVEL ZF_LOG_VERBOSE
#include "zf_log.h"
#include "desktop_logger.hpp"
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <dirent.h>
#include <signal.h>
using vmon::Rng; using std::string; using std::vector;
// the formatted time is written by instrumented code, so that a buffer shared between threads is seen
extern "C" size_t __real_strftime(char*, size_t, const char*, const struct tm*);
extern "C" size_t __wrap_strftime(char* s, size_t max, const char* f, const struct tm* t) { char b[256]; size_t n = __real_strftime(b, std::min(max, sizeof b), f, t); if (n || max) for (size_t k = 0; k <= n && k < max; ++k) { s[k] = k < n ? b[k] : 0; asm volatile("" ::: "memory"); } return n; }
static string CTX; static const bool ctx_named = (vmon::ctxp() = &CTX, true);
#define bad(key, ...) vmon::violation(key, "%s", (CTX + ": " + vmon::fmt(__VA_ARGS__)).c_str())

struct Dir { string p; Dir() { char t[] = "/tmp/vlogXXXXXX"; p = mkdtemp(t) ? t : ""; } ~Dir() { wipe(p); }
    static void wipe(const string& d) { if (d.compare(0, 9, "/tmp/vlog")) return; if (DIR* h = opendir(d.c_str())) { while (dirent* e = readdir(h)) { string n = e->d_name; if (n == "." || n == "..") continue; string f = d + "/" + n; if (unlink(f.c_str())) wipe(f); } closedir(h); } rmdir(d.c_str()); } };
static uint32_t sum(const string& s) { uint32_t h = 2166136261u; for (unsigned char c : s) h = (h ^ c) * 16777619u; return h; }
static string payload(uint64_t run, int th, int n, Rng& r, size_t maxlen, int lvl) { string t = vmon::fmt("{%llx|%d|%d|", (unsigned long long)run, th * 8 + lvl, n); size_t k = r.chance(1, 4) ? r.below(4) : r.below(maxlen); for (size_t x = 0; x < k; ++x) t += (char)('!' + r.below(90) + (0)); for (auto& c : t) if (&c != &t[0] && (c == '{' || c == '}' || c == '%')) c = '+'; return t + vmon::fmt("|%08x}", sum(t)); }
static void emit(int lvl, const string& p) { switch (lvl) { case 1: ZF_LOGV("%s", p.c_str()); break; case 2: ZF_LOGD("%s", p.c_str()); break; case 3: ZF_LOGI("%s", p.c_str()); break; case 4: ZF_LOGW("%s", p.c_str()); break; case 5: ZF_LOGE("%s", p.c_str()); break; default: ZF_LOGF("%s", p.c_str()); } }

// standard output is collected in a file of its own
static int g_out = -1, g_real = -1;
static void begin() { static bool once = [] { cler::start_logging(nullptr); return true; }(); (void)once; fflush(stdout); g_real = dup(1); g_out = memfd_create("stdout", 0); dup2(g_out, 1); }
static string end() { fflush(stdout); dup2(g_real, 1); close(g_real); off_t n = lseek(g_out, 0, SEEK_END); string s((size_t)n, 0); if (n && pread(g_out, &s[0], (size_t)n, 0) != n) s.clear(); close(g_out); return s; }
static string slurp(const string& p) { string s; if (FILE* f = fopen(p.c_str(), "rb")) { char b[8192]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); } return s; }
static bool exists(const string& p) { struct stat st; return !stat(p.c_str(), &st); }

struct Line { int th, n; };
// every line of a file must be one whole message of this run
static void lines(const string& text, uint64_t run, const string& where, vector<Line>& out, bool file, bool foreign = false, bool cut = false) {
    size_t p = 0; while (p < text.size()) { size_t e = text.find('\n', p); if (e == string::npos) { if (!cut) bad("log:torn", "%s ends within a line: '%s'", where.c_str(), text.substr(p, 80).c_str()); return; } string l = text.substr(p, e - p); p = e + 1; size_t a = l.find('{'), b = l.find('}'); unsigned long long rn; int th, n;
        if (foreign && l.compare(0, 5, "older") == 0) continue;
        if (!file) { size_t c = l.find(cler::COLOR_RESET); if (c == string::npos || c + std::strlen(cler::COLOR_RESET) != l.size() || l[0] != '\x1b') { bad("log:torn", "%s holds a broken line: '%s'", where.c_str(), l.substr(0, 80).c_str()); continue; } l.resize(c); }
        else if (l.size() < 24 || l[0] != '[') { bad("log:torn", "%s holds a broken line: '%s'", where.c_str(), l.substr(0, 80).c_str()); continue; }
        if (a == string::npos || b == string::npos || b + 1 != l.size() || l.find('{', a + 1) != string::npos || sscanf(l.c_str() + a, "{%llx|%d|%d|", &rn, &th, &n) != 3 || rn != run) { bad("log:torn", "%s holds a broken line: '%s'", where.c_str(), l.substr(0, 80).c_str()); continue; }
        size_t q = l.rfind('|'); if (l.substr(q + 1, b - q - 1) != vmon::fmt("%08x", sum(l.substr(a, q - a)))) { bad("log:torn", "%s holds a damaged message: '%s'", where.c_str(), l.substr(0, 80).c_str()); continue; } size_t lv = l.find("] ["); if (th < 0 || lv == string::npos || l[lv + 3] != "?vdIWEF"[th & 7]) bad("log:level", "%s holds a line with another level than it was logged with: '%s'", where.c_str(), l.substr(0, 80).c_str()); out.push_back({th / 8, n}); }
}
struct Want { vector<vector<int>> ids; };   // per thread: the messages it logged, in order
static void match(const vector<Line>& got, const Want& w, const char* what, bool suffix, bool subset = false) {
    vector<vector<int>> g(w.ids.size()); for (auto& l : got) { if (l.th < 0 || (size_t)l.th >= g.size()) { bad("log:invented", "%s: a line of thread %d", what, l.th); return; } g[l.th].push_back(l.n); }
    for (size_t t = 0; t < g.size(); ++t) { auto& e = w.ids[t]; auto& a = g[t]; for (size_t k = 1; k < a.size(); ++k) if (a[k] <= a[k - 1]) { bad(a[k] == a[k - 1] ? "log:twice" : "log:order", "%s: thread %zu: line %d after line %d", what, t, a[k], a[k - 1]); return; }
        if (subset) { std::set<int> s(e.begin(), e.end()); for (int x : a) if (!s.count(x)) { bad("log:invented", "%s: thread %zu never logged line %d", what, t, x); return; } continue; }
        if (a.size() > e.size()) { bad("log:invented", "%s: thread %zu: %zu lines of %zu", what, t, a.size(), e.size()); return; } size_t off = suffix ? e.size() - a.size() : 0; if (!suffix && a.size() != e.size()) { size_t k = 0; while (k < a.size() && a[k] == e[k]) k++; bad("log:lost", "%s: thread %zu: %zu of %zu lines, line %d is missing", what, t, a.size(), e.size(), e[k]); return; }
        for (size_t k = 0; k < a.size(); ++k) if (a[k] != e[k + off]) { bad("log:lost", "%s: thread %zu: line %d where line %d is due", what, t, a[k], e[k + off]); return; } }
}
static vector<string> chain(const string& base, int maxb, bool strict, bool gaps = false) { vector<string> f; if (gaps) { for (int j = 129; j >= 1; --j) if (exists(base + "." + std::to_string(j))) f.push_back(base + "." + std::to_string(j)); if (exists(base)) f.push_back(base); return f; } int k = 1; while (exists(base + "." + std::to_string(k))) k++; if (strict && k - 1 > maxb) bad("log:backups", "%d backups, at most %d are configured", k - 1, maxb); for (int j = k; j < 130; ++j) if (exists(base + "." + std::to_string(j))) bad("log:backups", "backup %d exists, but not backup %d", j, k); for (int j = k - 1; j >= 1; --j) f.push_back(base + "." + std::to_string(j)); f.push_back(base); return f; }

// threads log, the file rotates; settings stay as they are
static void c_rotate(uint64_t i, Rng& r) {
    Dir d; string base = d.p + "/" + r.pick({string("log.txt"), string("a"), string("x.y.z")}); int T = 1 + (int)r.below(6), per = 20 + (int)r.below(150), level = 1 + (int)r.below(4); size_t maxsz = r.pick({(size_t)0, (size_t)1, (size_t)600, (size_t)1000, (size_t)1024, (size_t)1025, (size_t)2000, (size_t)5000, (size_t)20000}); int maxb = r.pick({-1, 1, 2, 3, 10, 100, 500}); bool rot = r.chance(5, 6); size_t mlen = r.pick({20ul, 100ul, 300ul}); int older = r.chance(1, 3) ? (int)r.below(std::min(4, std::max(1, maxb)) + 1) : -1; bool jam = rot && r.chance(1, 8);
    CTX = vmon::fmt("%d threads, %d lines each, level %d, %s, files of %zu, %d backups%s", T, per, level, rot ? "rotating" : "no rotation", maxsz, maxb, jam ? ", renaming fails" : ""); uint64_t run = r.next() >> 20; Want all, out; all.ids.resize(T); vector<uint64_t> seed; for (int t = 0; t < T; ++t) seed.push_back(r.next());
    if (older >= 0) { for (int k = 0; k <= older; ++k) { FILE* f = fopen((base + (k ? "." + std::to_string(k) : "")).c_str(), "w"); fprintf(f, "older %d\n", k); fclose(f); } } if (jam) { unlink((base + ".1").c_str()); mkdir((base + ".1").c_str(), 0755); FILE* f = fopen((base + ".1/keep").c_str(), "w"); fclose(f); maxb = 1; }
    begin(); cler::set_log_level(level); if (rot) cler::enable_log_rotation(maxsz, maxb); else cler::disable_log_rotation(); auto rc = cler::reset_logfile(base.c_str()); if (rc != cler::LOGGER_SUCCESS) bad("log:open", "the log file could not be opened: %d", rc);
    vector<std::thread> th; for (int t = 0; t < T; ++t) th.emplace_back([&, t] { Rng q(seed[t]); for (int k = 0; k < per; ++k) { int lvl = 1 + (int)q.below(6); if (lvl >= level) all.ids[t].push_back(k); emit(lvl, payload(run, t, k, q, mlen, lvl)); if (q.chance(1, 60)) std::this_thread::yield(); } }); for (auto& t : th) t.join();
    if (cler::verify_logfile() != cler::LOGGER_SUCCESS) bad("log:verify", "verification fails"); string so = end(); cler::close_log_file(); if (cler::verify_logfile() != cler::LOGGER_FILE_PTR_IS_NULL) bad("log:verify", "a closed file verifies");
    int eb = std::min(100, std::max(1, maxb)); size_t es = std::max<size_t>(1024, maxsz); vector<Line> got, sl; size_t rotations = 0;
    if (jam) { lines(slurp(base), run, base, got, true, true); match(got, all, "log file", false); }
    else { auto fs = chain(base, eb, rot); rotations = fs.size() - 1; for (size_t k = 0; k < fs.size(); ++k) { string t = slurp(fs[k]); size_t n0 = got.size(); lines(t, run, fs[k].substr(d.p.size() + 1), got, true, older >= 0); if (!rot) continue; if (t.size() > es + 1100) bad("log:size", "%s has %zu bytes, limit %zu", fs[k].c_str() + d.p.size(), t.size(), es); if (k + 1 < fs.size() && t.size() < es && got.size() > n0) bad("log:size", "%s was rotated at %zu bytes, limit %zu", fs[k].c_str() + d.p.size(), t.size(), es); if (k + 1 == fs.size() && t.empty()) bad("log:size", "an empty log file"); } bool may = rot && (int)fs.size() - 1 == eb; match(got, all, "log files", may); if (!rot && fs.size() > (size_t)std::max(older, 0) + 1) bad("log:backups", "rotated although disabled"); }
    lines(so, run, "standard output", sl, false); match(sl, all, "standard output", false);
    size_t total = 0; for (auto& v : all.ids) total += v.size(); vmon::stat("lines_logged", (double)total); vmon::stat("lines_found", (double)got.size()); vmon::stat("backup_files", (double)rotations); vmon::evals(); uint64_t h = 0; for (auto& l : got) h = vmon::mix(h, l.th); vmon::nontrivial(h); vmon::tick(); vmon::sample("%s: %zu lines in %zu files", CTX.c_str(), got.size(), rotations + 1);
}
// the logger is reconfigured while threads log
static void c_reconf(uint64_t i, Rng& r) {
    Dir d; int T = 1 + (int)r.below(5), per = 60 + (int)r.below(200); bool closing = r.chance(1, 4); CTX = vmon::fmt("%d threads of %d lines, reconfigured%s", T, per, closing ? " and closed" : ""); uint64_t run = r.next() >> 20; Want all; all.ids.resize(T); vector<uint64_t> seed; for (int t = 0; t <= T; ++t) seed.push_back(r.next()); vector<string> base = {d.p + "/a", d.p + "/b", d.p + "/c"};
    begin(); cler::set_log_level(1); cler::enable_log_rotation(4000, 100); cler::reset_logfile(base[0].c_str()); std::atomic<int> done{0}; vector<std::thread> th; std::atomic<uint64_t> ops{0}, odd{0};
    for (int t = 0; t < T; ++t) th.emplace_back([&, t] { Rng q(seed[t]); for (int k = 0; k < per; ++k) { all.ids[t].push_back(k); int lvl = 1 + (int)q.below(6); emit(lvl, payload(run, t, k, q, 150, lvl)); } done++; });
    std::thread ctl([&] { Rng q(seed[T]); while (done < T) { switch (q.below(closing ? 6 : 5)) { case 0: case 1: if (cler::reset_logfile(base[q.below(3)].c_str()) != cler::LOGGER_SUCCESS) odd++; break; case 2: cler::enable_log_rotation(1024 + q.below(6000), 100); break; case 3: cler::disable_log_rotation(); break; case 4: { auto v = cler::verify_logfile(); if (v != cler::LOGGER_SUCCESS && !(closing && v == cler::LOGGER_FILE_PTR_IS_NULL)) odd++; break; } default: cler::close_log_file(); } ops++; if (q.chance(1, 2)) std::this_thread::sleep_for(std::chrono::microseconds(q.below(200))); } });
    for (auto& t : th) t.join(); ctl.join(); string so = end(); cler::close_log_file(); if (odd) bad("log:open", "%llu configuration calls failed", (unsigned long long)odd.load());
    vector<Line> got, sl; for (auto& b : base) { vector<Line> part; if (!exists(b) && !exists(b + ".1")) continue; for (auto& f : chain(b, 100, true)) lines(slurp(f), run, f.substr(d.p.size() + 1), part, true); match(part, all, "one log", false, true); got.insert(got.end(), part.begin(), part.end()); }
    std::stable_sort(got.begin(), got.end(), [](const Line& a, const Line& b) { return a.th != b.th ? a.th < b.th : a.n < b.n; }); match(got, all, "all logs", false, closing); lines(so, run, "standard output", sl, false); match(sl, all, "standard output", false);
    vmon::stat("lines_found", (double)got.size()); vmon::stat("reconfigurations", (double)ops); vmon::evals(); vmon::nontrivial(vmon::mix(got.size(), ops)); vmon::tick();
}
// several threads start the logger and set its file at once; needs a fresh process
static void c_start(uint64_t i, Rng& r) {
    Dir d; CTX = vmon::fmt("start case %llu", (unsigned long long)i); string sd = std::to_string(r.next() >> 1); fflush(stdout); pid_t p = vfork(); if (!p) { execl("/proc/self/exe", "h_log", "--child-start", d.p.c_str(), sd.c_str(), (char*)nullptr); _exit(9); }
    int st = 0; waitpid(p, &st, 0); if (WIFEXITED(st) && WEXITSTATUS(st) == 66) bad("log:race", "a data race while the logger is started and its file set by several threads"); else if (!WIFEXITED(st) || WEXITSTATUS(st)) bad("log:start", "child status %x", st); vmon::evals(); vmon::nontrivial(i + 1); vmon::tick();
}
static int child_start(const char* dir, uint64_t sd) {
    int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); string f = string(dir) + "/s"; Rng r(sd); vector<uint64_t> seed; for (int k = 0; k < 5; ++k) seed.push_back(r.next()); std::atomic<int> ok{0}, again{0}, wrong{0}, go{0}; vector<std::thread> th;
    for (int k = 0; k < 5; ++k) th.emplace_back([&, k] { Rng q(seed[k]); go++; while (go < 5) {} for (uint64_t w = q.below(3000); w; --w) std::atomic_signal_fence(std::memory_order_seq_cst); if (k % 2) { auto v = cler::start_logging(f.c_str()); if (v == cler::LOGGER_SUCCESS) ok++; else if (v == cler::LOGGER_ALREADY_STARTED) again++; else wrong++; } else { auto v = cler::reset_logfile(f.c_str()); if (v != cler::LOGGER_SUCCESS && v != cler::LOGGER_NOT_STARTED) wrong++; } });
    for (auto& t : th) t.join(); emit(6, payload(1, 0, 0, r, 20, 6)); vector<Line> g; lines(slurp(f), 1, "s", g, true); exit(ok == 1 && again == 1 && wrong == 0 && g.size() == 1 ? 0 : 3);
}
// killed at any point: what was logged before is in the files
static void c_kill(uint64_t i, Rng& r) {
    Dir d; string base = d.p + "/log"; int T = 1 + (int)r.below(3); bool rot = r.chance(1, 2); CTX = vmon::fmt("killed while %d threads log%s", T, rot ? ", rotating" : ""); uint64_t run = r.next() >> 20; vector<uint64_t> seed; for (int t = 0; t < T; ++t) seed.push_back(r.next()); auto* ack = (std::atomic<int>*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); for (int t = 0; t < T; ++t) ack[t] = 0; fflush(stdout); int per = r.chance(1, 3) ? 1 + (int)r.below(12) : 400; useconds_t delay = (useconds_t)r.below(4000);
    pid_t p = fork(); if (!p) { int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); cler::start_logging(nullptr); cler::set_log_level(1); if (rot) cler::enable_log_rotation(3000, 100); cler::reset_logfile(base.c_str()); ack[T] = 1; vector<std::thread> th; for (int t = 0; t < T; ++t) th.emplace_back([&, t] { Rng q(seed[t]); for (int k = 0; k < per; ++k) { int lvl = 1 + (int)q.below(6); emit(lvl, payload(run, t, k, q, 200, lvl)); ack[t] = k + 1; } }); for (auto& t : th) t.join(); for (;;) pause(); }
    for (int k = 0; k < 20000 && !ack[T]; ++k) usleep(100); usleep(delay); kill(p, SIGKILL); int st; waitpid(p, &st, 0); Want w; w.ids.resize(T); vector<Line> got; for (auto& f : chain(base, 100, true, true)) { string t = slurp(f); lines(t, run, f.substr(d.p.size() + 1), got, true, false, f == base); }
    size_t n = 0; vector<int> have(T, 0); for (auto& l : got) if (l.th >= 0 && l.th < T) have[l.th] = std::max(have[l.th], l.n + 1); for (int t = 0; t < T; ++t) { int c = ack[t]; n += (size_t)c; if (have[t] < c || have[t] > c + 1) bad("log:lost", "thread %d had logged %d lines, the files hold %d", t, c, have[t]); for (int k = 0; k < have[t]; ++k) w.ids[t].push_back(k); } match(got, w, "log files", false);
    munmap((void*)ack, 4096); vmon::stat("kills", 1); vmon::stat("lines_before_kill", (double)n); vmon::evals(); vmon::nontrivial(vmon::mix(n, T * 2 + rot)); vmon::tick();
}
static void c_api(uint64_t i, Rng& r) {
    CTX = "interface"; begin(); char buf[cler::LOGGER_MAX_ENUM_STR_LEN]; std::set<string> names; for (int k = 0; k <= 8; ++k) { cler::logger_enum_to_cstr((cler::logger_retval_enum)k, buf); if (!names.insert(buf).second || !buf[0]) bad("log:names", "code %d is called '%s'", k, buf); } cler::logger_enum_to_cstr((cler::logger_retval_enum)99, buf); if (names.count(buf)) bad("log:names", "an unknown code is called '%s'", buf); cler::logger_enum_to_cstr(cler::LOGGER_SUCCESS, nullptr);
    if (cler::start_logging(nullptr) != cler::LOGGER_ALREADY_STARTED) bad("log:start", "started twice"); if (cler::reset_logfile(nullptr) != cler::LOGGER_FILEPATH_EMPTY) bad("log:open", "no path accepted"); Dir d; if (cler::reset_logfile((d.p + "/no/such/dir/x").c_str()) != cler::LOGGER_COULD_NOT_OPEN_FILE) bad("log:open", "an impossible path accepted"); emit(6, "{0|0|0||x}"); if (cler::verify_logfile() == cler::LOGGER_SUCCESS) bad("log:verify", "no file verifies"); 
    string f = d.p + "/later"; if (cler::reset_logfile(f.c_str()) != cler::LOGGER_SUCCESS) bad("log:open", "not usable after a failure"); emit(6, payload(7, 0, 0, r, 10, 6)); if (slurp(f).empty()) bad("log:lost", "a line logged is not in the file"); cler::close_log_file(); cler::close_log_file(); if (cler::filename("/a/b/c.cpp") != string("c.cpp") || cler::filename("c.cpp") != string("c.cpp") || cler::filename("a\\b\\c.cpp") != string("c.cpp") || *cler::filename("a/")) bad("log:names", "file name extraction"); end(); vmon::evals(); vmon::nontrivial(i + 1); vmon::tick();
}
int main(int argc, char** argv) { setenv("TZ", "UTC", 1); if (argc == 4 && !std::strcmp(argv[1], "--child-start")) return child_start(argv[2], strtoull(argv[3], nullptr, 10)); return vmon::run(argc, argv, {{"rotate", c_rotate}, {"reconf", c_reconf}, {"start", c_start}, {"kill", c_kill}, {"api", c_api}}); }
