// Channel / SPSC queue monitors: C01 (FIFO), C02 (races), C03 (occupancy), C04 (views).
#include "vmon.hpp"
#include "cler.hpp"
#include <deque>
#include <memory>
#include <numeric>
#include <cassert>
using vmon::Rng; using vmon::violation;

// Elements are raw byte blocks of a given size; every byte is a function of the sequence
// number, so torn, stale, duplicated or misplaced elements are recognised from content.
typedef unsigned char B;
static void fill(B* e, size_t S, uint64_t seq) {
    uint64_t h = seq * 0x9E3779B97F4A7C15ull + 0x1234567; h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32;
    size_t n = S < 8 ? S : 8; memcpy(e, &h, n);
    for (size_t i = n; i < S; ++i) e[i] = (B)(e[i & 7] + i * 13);
}
static bool is(const B* e, size_t S, uint64_t seq) {
    uint64_t h = seq * 0x9E3779B97F4A7C15ull + 0x1234567; h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32;
    B x[8]; memcpy(x, &h, 8); size_t n = S < 8 ? S : 8; if (memcmp(x, e, n)) return false;
    for (size_t i = n; i < S; ++i) if (e[i] != (B)(x[i & 7] + i * 13)) return false;
    return true;
}
// Thin type-erased adapter over Channel<T,N> so that the monitors are compiled once.
struct IChan {
    size_t S = 0; const char* kind = ""; bool dbf = false; size_t cap = 0, N = 0;
    virtual ~IChan() = default;
    virtual size_t size() = 0; virtual size_t space() = 0; virtual bool empty() = 0;
    virtual void push(const B*, bool rv) = 0; virtual bool try_push(const B*, bool rv) = 0;
    virtual void pop(B*) = 0; virtual bool try_pop(B*) = 0;
    virtual size_t writeN(const B*, size_t) = 0; virtual size_t readN(B*, size_t) = 0;
    virtual size_t peek_write(B*&, size_t&, B*&, size_t&) = 0; virtual size_t peek_read(const B*&, size_t&, const B*&, size_t&) = 0;
    virtual void commit_read(size_t) = 0; virtual void commit_write(size_t) = 0;
    virtual std::pair<const B*, size_t> read_dbf() = 0; virtual std::pair<B*, size_t> write_dbf() = 0;
};
template <size_t SZ, size_t NN> struct Adapter final : IChan {
    struct T { B b[SZ]; };
    std::unique_ptr<cler::Channel<T, NN>> c; cler::ChannelBase<T>& ch;
    static cler::Channel<T, NN>* mk(size_t req) { if constexpr (NN == 0) return new cler::Channel<T, 0>(req); else { (void)req; return new cler::Channel<T, NN>(); } }
    explicit Adapter(size_t req) : c(mk(req)), ch(*c) { S = SZ; N = NN; dbf = c->_queue.is_doubly_mapped(); kind = NN ? "stack" : dbf ? "dbf" : "heap"; cap = c->_queue.capacity(); }
    size_t size() override { return ch.size(); } size_t space() override { return ch.space(); } bool empty() override { return c->_queue.empty(); }
    void push(const B* p, bool rv) override { T t; memcpy(&t, p, SZ); if (rv) c->_queue.push(std::move(t)); else ch.push(t); }
    bool try_push(const B* p, bool rv) override { T t; memcpy(&t, p, SZ); return rv ? c->_queue.try_push(std::move(t)) : ch.try_push(t); }
    void pop(B* p) override { T t; memcpy(&t, p, SZ); ch.pop(t); memcpy(p, &t, SZ); }
    bool try_pop(B* p) override { T t; memcpy(&t, p, SZ); bool r = ch.try_pop(t); memcpy(p, &t, SZ); return r; }
    size_t writeN(const B* p, size_t n) override { return ch.writeN((const T*)p, n); } size_t readN(B* p, size_t n) override { return ch.readN((T*)p, n); }
    size_t peek_write(B*& a, size_t& x, B*& b, size_t& y) override { T *p = nullptr, *q = nullptr; size_t r = ch.peek_write(p, x, q, y); a = (B*)p; b = (B*)q; return r; }
    size_t peek_read(const B*& a, size_t& x, const B*& b, size_t& y) override { const T *p = nullptr, *q = nullptr; size_t r = ch.peek_read(p, x, q, y); a = (const B*)p; b = (const B*)q; return r; }
    void commit_read(size_t n) override { ch.commit_read(n); } void commit_write(size_t n) override { ch.commit_write(n); }
    std::pair<const B*, size_t> read_dbf() override { auto p = ch.read_dbf(); return {(const B*)p.first, p.second}; }
    std::pair<B*, size_t> write_dbf() override { auto p = ch.write_dbf(); return {(B*)p.first, p.second}; }
};
template <size_t SZ, size_t NN> static std::unique_ptr<IChan> mk(size_t req) { return std::unique_ptr<IChan>(new Adapter<SZ, NN>(req)); }
static std::unique_ptr<IChan> make_heap(size_t S, size_t req) {
    switch (S) {
        case 1: return mk<1, 0>(req); case 2: return mk<2, 0>(req); case 3: return mk<3, 0>(req); case 4: return mk<4, 0>(req); case 5: return mk<5, 0>(req);
        case 6: return mk<6, 0>(req); case 7: return mk<7, 0>(req); case 8: return mk<8, 0>(req); case 12: return mk<12, 0>(req); case 16: return mk<16, 0>(req);
        case 20: return mk<20, 0>(req); case 24: return mk<24, 0>(req); case 40: return mk<40, 0>(req); case 48: return mk<48, 0>(req); case 64: return mk<64, 0>(req);
        case 100: return mk<100, 0>(req); case 1000: return mk<1000, 0>(req); case 4096: return mk<4096, 0>(req); case 5000: return mk<5000, 0>(req); case 8192: return mk<8192, 0>(req);
    }
    abort();
}
static const size_t HEAP_SIZES[] = {1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 20, 24, 40, 48, 64, 100, 1000, 4096, 5000};
static const size_t VIEW_SIZES[] = {1, 2, 3, 4, 6, 8, 12, 16, 20, 24, 40, 100, 1000, 4096, 5000, 8192};
static std::unique_ptr<IChan> make_stack(unsigned k, size_t& req) {
    switch (k % 12) {
        case 0: req = 1; return mk<4, 1>(1); case 1: req = 2; return mk<8, 2>(2); case 2: req = 3; return mk<12, 3>(3); case 3: req = 7; return mk<1, 7>(7);
        case 4: req = 16; return mk<8, 16>(16); case 5: req = 33; return mk<40, 33>(33); case 6: req = 100; return mk<4, 100>(100); case 7: req = 1; return mk<40, 1>(1);
        case 8: req = 5; return mk<24, 5>(5); case 9: req = 600; return mk<8, 600>(600); case 10: req = 2; return mk<100, 2>(2); default: req = 64; return mk<2, 64>(64);
    }
}

// ---------------------------------------------------------------- single-threaded model
static void model(Rng& rng, IChan& ch, size_t req, unsigned nops, bool big) {
    const size_t S = ch.S, N = ch.N, cap = ch.cap; const bool dbf = ch.dbf; const char* kind = ch.kind;
    if (cap < req || (N && cap != req)) violation("occ:capacity", "S=%zu N=%zu requested=%zu capacity=%zu", S, N, req, cap);
    if (dbf) vmon::stat("dbf_channels", 1);
    std::deque<uint64_t> m;      // unread elements, by sequence number
    uint64_t wseq = 0, sig = vmon::mix(S * 131 + N, cap);
    size_t widx = 0, wraps = 0;
    std::vector<B> buf, one(S);
    auto occ = [&](const char* op) {
        size_t s = ch.size(), sp = ch.space();
        if (s != m.size()) violation(vmon::fmt("occ:size"), "%s S=%zu cap=%zu after %s: size()=%zu expected %zu", kind, S, cap, op, s, m.size());
        if (s + sp != cap) violation("occ:sum", "%s S=%zu after %s: size %zu + space %zu != capacity %zu", kind, S, op, s, sp, cap);
        if (ch.empty() != (m.empty())) violation("occ:empty", "%s S=%zu after %s: empty()=%d model %zu", kind, S, op, (int)ch.empty(), m.size());
    };
    auto chk = [&](const B* e, size_t k, const char* op) {     // k-th unread element
        if (k >= m.size()) { violation(std::string("fifo:phantom"), "%s S=%zu cap=%zu %s returned an element beyond the %zu unread ones", kind, S, cap, op, m.size()); return false; }
        if (!is(e, S, m[k])) {
            int64_t found = -1; for (uint64_t q = m[k] > 64 ? m[k] - 64 : 0; q < m[k] + 4096 && q < wseq; ++q) if (is(e, S, q)) { found = (int64_t)q; break; }
            violation(std::string("fifo:content:") + op, "%s S=%zu cap=%zu %s element %zu: expected seq %llu, found %lld (unread %zu)", kind, S, cap, op, k, (unsigned long long)m[k], (long long)found, m.size());
            return false;
        }
        return true;
    };
    auto pushed = [&](size_t k) { for (size_t i = 0; i < k; ++i) m.push_back(wseq++); widx += k; if (widx > cap) { widx -= cap + 1; ++wraps; } };
    auto popped = [&](size_t k) { for (size_t i = 0; i < k && !m.empty(); ++i) m.pop_front(); };
    auto count = [&](uint64_t& total) { // how many to ask for
        switch (rng.below(5)) { case 0: total = rng.below(3); break; case 1: total = rng.below(cap + 1); break; case 2: total = cap + rng.below(5); break; case 3: total = 1 + rng.below(cap < 8 ? cap : 8); break; default: total = rng.below(cap / 2 + 2); }
        return (size_t)total; };
    int nv0 = vmon::st().nviol.load();
    unsigned opsdone = 0;
    for (unsigned o = 0; o < nops; ++o) {
        if (vmon::st().nviol.load() != nv0) break;       // model diverged
        uint64_t tmp; unsigned op = rng.below(big ? 10 : 16);
        sig = vmon::mix(sig, op * 4 + (m.empty() ? 1 : m.size() == cap ? 2 : 0)); ++opsdone;
        if (big) op += 6;
        const char* nm = "?";
        if (op == 0 || op == 1) { // try_push
            nm = op ? "try_push&&" : "try_push"; fill(&one[0], S, wseq); bool ok = ch.try_push(&one[0], op);
            if (ok != (m.size() < cap)) violation(vmon::fmt("occ:%s", nm), "%s S=%zu cap=%zu size=%zu returned %d", kind, S, cap, m.size(), (int)ok);
            if (ok) pushed(1);
        } else if (op == 2) { nm = "push"; if (m.size() < cap && ch.space() > 0) { fill(&one[0], S, wseq); ch.push(&one[0], rng.chance(1, 2)); pushed(1); }
        } else if (op == 3 || op == 4) { nm = "try_pop"; memset(&one[0], 0xEE, S); bool ok = ch.try_pop(&one[0]);
            if (ok && m.empty()) violation("fifo:pop-from-empty", "%s S=%zu cap=%zu try_pop succeeded on an empty channel", kind, S, cap);
            else if (ok) { chk(&one[0], 0, "try_pop"); popped(1); }
            else if (!m.empty()) violation("occ:try_pop", "%s S=%zu cap=%zu try_pop failed with %zu unread", kind, S, cap, m.size());
        } else if (op == 5) { nm = "pop"; if (!m.empty() && ch.size() > 0) { memset(&one[0], 0xEE, S); ch.pop(&one[0]); chk(&one[0], 0, "pop"); popped(1); }
        } else if (op == 6) { nm = "writeN"; size_t n = count(tmp); buf.resize(n * S + 1); for (size_t i = 0; i < n; ++i) fill(&buf[i * S], S, wseq + i);
            size_t k = ch.writeN(buf.data(), n); size_t ex = std::min(n, cap - m.size());
            if (k != ex) violation("occ:writeN", "%s S=%zu cap=%zu size=%zu writeN(%zu)=%zu", kind, S, cap, m.size(), n, k);
            pushed(k);
        } else if (op == 7) { nm = "readN"; size_t n = count(tmp); buf.assign((n + 1) * S, 0xEE);
            size_t k = ch.readN(buf.data(), n); size_t ex = std::min(n, m.size());
            if (k != ex) violation("occ:readN", "%s S=%zu cap=%zu size=%zu readN(%zu)=%zu", kind, S, cap, m.size(), n, k);
            if (k > n) { violation("fifo:readN-overrun", "readN(%zu) returned %zu", n, k); break; }
            if (std::any_of(buf.begin() + n * S, buf.end(), [](B x) { return x != 0xEE; })) violation("fifo:readN-overrun", "readN(%zu) wrote past its buffer", n);
            for (size_t i = 0; i < k; ++i) if (!chk(&buf[i * S], i, "readN")) break;
            popped(k);
        } else if (op == 8 || op == 9) { nm = "peek_write"; B *p1 = nullptr, *p2 = nullptr; size_t s1 = 0, s2 = 0;
            size_t tot = ch.peek_write(p1, s1, p2, s2);
            if (tot != cap - m.size() || s1 + s2 != tot) violation("occ:peek_write", "%s S=%zu cap=%zu size=%zu peek_write=%zu (%zu+%zu)", kind, S, cap, m.size(), tot, s1, s2);
            else { if (s1) memset(p1, 0xEE, s1 * S); if (s2) memset(p2, 0xEE, s2 * S);
                if (s1 && s2) { uintptr_t a = (uintptr_t)p1, b = (uintptr_t)p2; if (a < b + s2 * S && b < a + s1 * S) violation("fifo:peek_write-overlap", "regions overlap"); }
                size_t k = rng.chance(1, 3) ? tot : rng.below(tot + 1); for (size_t i = 0; i < k; ++i) fill(i < s1 ? p1 + i * S : p2 + (i - s1) * S, S, wseq + i);
                ch.commit_write(k); pushed(k); }
        } else if (op == 10 || op == 11) { nm = "peek_read"; const B *p1 = nullptr, *p2 = nullptr; size_t s1 = 0, s2 = 0;
            size_t tot = ch.peek_read(p1, s1, p2, s2);
            if (tot != m.size() || s1 + s2 != tot) violation("occ:peek_read", "%s S=%zu cap=%zu size=%zu peek_read=%zu (%zu+%zu)", kind, S, cap, m.size(), tot, s1, s2);
            else { for (size_t i = 0; i < tot; ++i) if (!chk(i < s1 ? p1 + i * S : p2 + (i - s1) * S, i, "peek_read")) break;
                size_t k = rng.chance(1, 3) ? tot : rng.below(tot + 1); ch.commit_read(k); popped(k); }
        } else if (op == 12) { nm = "commit_read"; size_t s = ch.size(); if (s == m.size()) { size_t k = rng.chance(1, 2) ? s : rng.below(s + 1); ch.commit_read(k); popped(k); }
        } else if (op == 13) { nm = "write_dbf"; if (!dbf) continue; auto pr = ch.write_dbf();
            if (pr.second != cap - m.size()) violation("view:write_dbf-size", "S=%zu cap=%zu size=%zu write view %zu", S, cap, m.size(), pr.second);
            else { if (pr.second) memset(pr.first, 0xEE, pr.second * S); size_t k = rng.chance(1, 3) ? pr.second : rng.below(pr.second + 1); for (size_t i = 0; i < k; ++i) fill(pr.first + i * S, S, wseq + i); ch.commit_write(k); pushed(k); }
        } else if (op == 14 || op == 15) { nm = "read_dbf"; if (!dbf) continue; auto pr = ch.read_dbf();
            if (pr.second != m.size()) violation("view:read_dbf-size", "S=%zu cap=%zu size=%zu read view %zu", S, cap, m.size(), pr.second);
            else { for (size_t i = 0; i < pr.second; ++i) if (!chk(pr.first + i * S, i, "read_dbf")) break;
                size_t k = rng.chance(1, 3) ? pr.second : rng.below(pr.second + 1); ch.commit_read(k); popped(k); }
        }
        if (rng.chance(3, 4)) occ(nm);
        if ((o & 63) == 0) vmon::tick();
    }
    // drain: everything still inside must come out, then nothing
    if (vmon::st().nviol.load() == nv0) {
        B* e = &one[0]; while (!m.empty()) { if (!ch.try_pop(e)) { violation("fifo:lost", "%s S=%zu cap=%zu %zu elements never came out", kind, S, cap, m.size()); break; } if (!chk(&one[0], 0, "drain")) break; popped(1); }
        if (vmon::st().nviol.load() == nv0 && ch.try_pop(e)) violation("fifo:pop-from-empty", "%s S=%zu cap=%zu extra element after drain", kind, S, cap);
        if (vmon::st().nviol.load() == nv0) occ("drain");
    }
    vmon::stat("ops", opsdone); vmon::stat("elements", (double)wseq); vmon::stat("index_wraps", (double)wraps); vmon::evals();
    if (wraps >= 1) vmon::nontrivial(sig);
    vmon::sample("%s elem=%zuB requested=%zu capacity=%zu ops=%u elements=%llu wraps=%zu", kind, S, req, cap, opsdone, (unsigned long long)wseq, wraps);
}

static void model_heap(Rng& rng, size_t S, uint64_t idx) {
    size_t perpage = 4096 / S + 1; size_t req;
    if (idx % 3 == 0) req = 1 + rng.below(20);
    else if (idx % 3 == 1) { size_t base = perpage * (1 + rng.below(4)); size_t d = rng.below(5); req = base + d > 2 ? base + d - 2 : 1; }
    else req = 1 + rng.below(2 * perpage + 50);
    bool dbfish = (req + 1) * S >= 4096;
    auto c = make_heap(S, req); model(rng, *c, req, dbfish ? 60 + rng.below(60) : 200 + rng.below(400), dbfish && rng.chance(1, 2));
}
static void c_model(uint64_t i, Rng& r) {
    uint64_t k = i / 24;
    if (i % 24 < 19) model_heap(r, HEAP_SIZES[i % 24], k);
    else { size_t req; auto c = make_stack(k * 5 + i % 24, req); model(r, *c, req, 150 + r.below(300), false); }
}
// C04: doubly mapped only, many element sizes, including multi-megabyte capacities
static void c_view(uint64_t i, Rng& rng) {
    uint64_t k = i / 16; size_t S = VIEW_SIZES[i % 16], bytes;
    switch (k % 4) {
        case 0: bytes = 4096 + rng.below(4096 * 6); break;
        case 1: bytes = 4096 * (1 + rng.below(40)) - S * rng.below(3); break;
        case 2: bytes = 65536 + rng.below(900000); break;
        default: { size_t mb = 1024 * 1024; static const size_t f[] = {2, 2, 3, 4, 5, 2, 6, 1}; bytes = f[rng.below(8)] * mb; switch (rng.below(5)) { case 0: break; case 1: bytes += 4096 * (1 + rng.below(20)); break; case 2: bytes -= 4096 * (1 + rng.below(20)); break; case 3: bytes += rng.below(mb); break; default: bytes += mb / 2; } }
    }
    size_t req = bytes / S; if (req < 1) req = 1; if ((req + 1) * S < 4096) req = 4096 / S;
    auto c = make_heap(S, req); model(rng, *c, req, k % 4 == 3 ? 16 : k % 4 == 2 ? 30 : 80, true);
}

// ---------------------------------------------------------------- two threads, random operation mix
static void conc(Rng& rng, IChan& ch, uint64_t total, unsigned jl, bool homog, bool dbf_only = false) {
    const size_t S = ch.S, cap = ch.cap; const bool dbf = ch.dbf; const char* kind = ch.kind;
    const uint64_t ps = rng.next(), cs = rng.next(); const unsigned pfix = rng.below(dbf ? 7 : 6), cfix = rng.below(dbf ? 6 : 5);
    // A side may leave the loop only when told so: a monitor that fired in one thread stops both.
    std::atomic<bool> abort{false}; std::atomic<int> pfull{0}, cempty{0}; std::atomic<uint64_t> sent{0};
    auto fail = [&](const char* key, uint64_t a, uint64_t b) { if (!abort.exchange(true)) violation(key, "%s S=%zu cap=%zu mix=%s(%u,%u) at %llu / %llu", kind, S, cap, homog ? "fixed" : "random", pfix, cfix, (unsigned long long)a, (unsigned long long)b); };
    uint64_t sig = 0;
    std::thread prod([&] {
        Rng r(ps); vmon::Jitter j(ps ^ 5, jl); std::vector<B> buf, one(S); uint64_t seq = 0;
        while (seq < total && !abort.load(std::memory_order_relaxed)) {
            j(); unsigned op = homog ? pfix : r.below(dbf ? 7 : 6); if (dbf_only) op = 6;
            uint64_t left = total - seq; size_t before = 0; bool checked = r.chance(1, 2); if (checked) { before = ch.space(); if (before > cap) { fail("occ:space-range", before, cap); return; } }
            if (op <= 2) { B* e = &one[0]; fill(e, S, seq); bool ok;
                if (op < 2) ok = ch.try_push(e, op); else { if (checked && before == 0) { std::this_thread::yield(); continue; } if (!checked && ch.space() == 0) { std::this_thread::yield(); continue; } ch.push(e, r.chance(1, 2)); ok = true; }
                if (!ok && checked && before > 0) { fail("occ:producer-space-decreased", before, seq); return; }
                if (ok) seq++; else pfull.fetch_add(1, std::memory_order_relaxed);
            } else if (op == 3) { size_t n = std::min<uint64_t>(left, 1 + r.below(r.chance(1, 3) ? cap + 2 : 4)); buf.resize(n * S); for (size_t i = 0; i < n; ++i) fill(&buf[i * S], S, seq + i);
                size_t k = ch.writeN(buf.data(), n); if (k > n || (checked && k < std::min(n, before))) { fail("occ:producer-space-decreased", before, k); return; }
                if (!k) pfull.fetch_add(1, std::memory_order_relaxed); seq += k;
            } else if (op == 4 || op == 5) { B *p1 = nullptr, *p2 = nullptr; size_t s1 = 0, s2 = 0; size_t tot = ch.peek_write(p1, s1, p2, s2);
                if (s1 + s2 != tot || tot > cap || (checked && tot < before)) { fail("occ:peek_write", before, tot); return; }
                size_t k = std::min<uint64_t>(left, r.chance(1, 2) ? tot : r.below(tot + 1)); for (size_t i = 0; i < k; ++i) fill(i < s1 ? p1 + i * S : p2 + (i - s1) * S, S, seq + i);
                j(); ch.commit_write(k); if (!k) pfull.fetch_add(1, std::memory_order_relaxed); seq += k;
            } else { auto pr = ch.write_dbf(); if (pr.second > cap || (checked && pr.second < before)) { fail("view:write_dbf-size", before, pr.second); return; }
                size_t k = std::min<uint64_t>(left, r.chance(1, 2) ? pr.second : r.below(pr.second + 1)); for (size_t i = 0; i < k; ++i) fill(pr.first + i * S, S, seq + i);
                j(); ch.commit_write(k); if (!k) pfull.fetch_add(1, std::memory_order_relaxed); seq += k; }
            sent.store(seq, std::memory_order_relaxed);
            if ((r.next() & 255) == 0) vmon::tick();
        }
    });
    {
        Rng r(cs); vmon::Jitter j(cs ^ 9, jl); std::vector<B> buf, one(S); uint64_t seq = 0;
        auto chk = [&](const B* e, const char* op) { if (!is(e, S, seq)) { int64_t f = -1; for (uint64_t q = seq > 5000 ? seq - 5000 : 0; q < seq + 5000; ++q) if (is(e, S, q)) { f = (int64_t)q; break; }
                (void)op; fail((std::string("fifo:conc:") + op).c_str(), seq, (uint64_t)f); return false; } seq++; return true; };
        while (seq < total && !abort.load(std::memory_order_relaxed)) {
            j(); unsigned op = homog ? cfix : r.below(dbf ? 6 : 5); if (dbf_only) op = 5; size_t got = 0; size_t before = 0; bool checked = r.chance(1, 2); if (checked) { before = ch.size(); if (before > cap) { fail("occ:size-range", before, cap); break; } }
            if (op == 0) { B* e = &one[0]; bool ok = ch.try_pop(e); if (!ok && checked && before > 0) { fail("occ:consumer-size-decreased", before, seq); break; } if (ok) { if (!chk(e, "try_pop")) break; got = 1; } }
            else if (op == 1) { if (ch.size() == 0) { cempty.fetch_add(1, std::memory_order_relaxed); std::this_thread::yield(); continue; } B* e = &one[0]; ch.pop(e); if (!chk(e, "pop")) break; got = 1; }
            else if (op == 2) { size_t n = 1 + r.below(r.chance(1, 3) ? cap + 2 : 4); buf.resize(n * S); size_t k = ch.readN(buf.data(), n); if (k > n || (checked && k < std::min(n, before))) { fail("occ:consumer-size-decreased", before, k); break; } bool ok = true; for (size_t i = 0; i < k && ok; ++i) ok = chk(&buf[i * S], "readN"); if (!ok) break; got = k; }
            else if (op == 3 || op == 4) { const B *p1 = nullptr, *p2 = nullptr; size_t s1 = 0, s2 = 0; size_t tot = ch.peek_read(p1, s1, p2, s2); if (s1 + s2 != tot || tot > cap || (checked && tot < before)) { fail("occ:peek_read", before, tot); break; }
                j(); size_t k = r.chance(1, 2) ? tot : r.below(tot + 1); bool ok = true; for (size_t i = 0; i < k && ok; ++i) ok = chk(i < s1 ? p1 + i * S : p2 + (i - s1) * S, "peek_read"); if (!ok) break; ch.commit_read(k); got = k; }
            else { auto pr = ch.read_dbf(); if (pr.second > cap || (checked && pr.second < before)) { fail("view:read_dbf-size", before, pr.second); break; }
                j(); size_t k = r.chance(1, 2) ? pr.second : r.below(pr.second + 1); bool ok = true; for (size_t i = 0; i < k && ok; ++i) ok = chk(pr.first + i * S, "read_dbf"); if (!ok) break; ch.commit_read(k); got = k; }
            if (!got) cempty.fetch_add(1, std::memory_order_relaxed);
            if (seq < 4000) sig = vmon::mix(sig, got);
            if ((r.next() & 255) == 0) vmon::tick();
        }
        if (seq < total) abort = true;
    }
    prod.join();
    if (!abort) { std::vector<B> one(S); B* e = &one[0]; if (ch.size() != 0 || ch.space() != cap) violation("occ:final", "size %zu space %zu cap %zu after full transfer", ch.size(), ch.space(), cap); if (ch.try_pop(e)) violation("fifo:phantom", "extra element after full transfer"); }
    vmon::evals(); vmon::stat("elements", (double)sent.load()); vmon::stat("producer_saw_full", pfull.load()); vmon::stat("consumer_saw_empty", cempty.load());
    if (pfull.load() && cempty.load()) vmon::nontrivial(vmon::mix(sig, S * 1000 + cap));
    vmon::sample("two threads: %s elem=%zuB capacity=%zu elements=%llu producer saw full %d times, consumer saw empty %d times", kind, S, cap, (unsigned long long)sent.load(), pfull.load(), cempty.load());
}
static uint64_t scale(uint64_t n) {
#if defined(__SANITIZE_THREAD__)
    return n / 6 + 50;
#else
    return n;
#endif
}
static void c_conc(uint64_t i, Rng& r) {
    unsigned jl = r.below(5); bool homog = r.chance(1, 2); size_t small = 1 + r.below(r.chance(1, 2) ? 6 : 60);
    uint64_t tot = scale(jl >= 3 ? 6000 : 40000);
    std::unique_ptr<IChan> c; bool dbfo = false; size_t req;
    switch (i % 12) {
        case 0: c = make_heap(8, small); break;
        case 1: c = make_heap(4, small); break;
        case 2: c = make_heap(40, small); break;
        case 3: c = make_stack(r.below(12), req); break;
        case 4: c = make_stack(0, req); tot /= 2; break;
        case 5: c = make_heap(8, 511 + r.below(600)); tot *= 4; break;
        case 6: c = make_heap(64, 63 + r.below(100)); tot *= 2; break;
        case 7: c = make_heap(1000, 4 + r.below(10)); break;
        case 8: c = make_heap(2, small); break;
        case 9: c = make_stack(r.below(12), req); break;
        case 10: c = make_heap(12, 350 + r.below(800)); tot *= 2; dbfo = r.chance(1, 2); break;
        case 11: c = make_heap(4096, 1 + r.below(3)); tot /= 2; break;
    }
    conc(r, *c, tot, jl, homog, dbfo && c->dbf);
}

// ---------------------------------------------------------------- C02: operation-pair matrix under ThreadSanitizer
// One pair of operations per case; nothing but the channel connects the threads, so any
// missing release/acquire in either direction is visible to the race detector.
struct Pay { uint64_t* p; uint64_t seq; uint64_t pad; };
template <size_t N>
static void race(Rng& rng, size_t req, unsigned pop_, unsigned cop, uint64_t total) {
    std::unique_ptr<cler::Channel<Pay, N>> own;
    if constexpr (N == 0) own.reset(new cler::Channel<Pay, 0>(req)); else own.reset(new cler::Channel<Pay, N>());
    cler::Channel<Pay, N>& c = *own; cler::ChannelBase<Pay>& ch = c; const bool dbf = c._queue.is_doubly_mapped(); const size_t cap = c._queue.capacity();
    if (pop_ == 6 && !dbf) pop_ = 5; if (cop == 4 && !dbf) cop = 3;
    std::vector<uint64_t> heap(total, 0);
    bool bad = false; uint64_t s1_ = rng.next(), s2_ = rng.next(); unsigned jl = rng.below(5); uint64_t pf = 0, ce = 0;
    std::thread prod([&] {
        Rng r(s1_); vmon::Jitter j(s1_, jl); uint64_t seq = 0; std::vector<Pay> buf;
        auto mk = [&](uint64_t q) { heap[q] = q * 7 + 1; return Pay{&heap[q], q, ~q}; };
        while (seq < total) { j(); uint64_t left = total - seq;
            switch (pop_) {
                case 0: { Pay e = mk(seq); ch.push(e); seq++; break; }
                case 1: { Pay e = mk(seq); c._queue.push(std::move(e)); seq++; break; }
                case 2: { Pay e = mk(seq); if (ch.try_push(e)) seq++; else pf++; break; }
                case 3: { Pay e = mk(seq); if (c._queue.try_push(std::move(e))) seq++; else pf++; break; }
                case 4: { size_t n = std::min<uint64_t>(left, 1 + r.below(cap < 5 ? cap + 1 : 9)); buf.resize(n); for (size_t i = 0; i < n; ++i) buf[i] = mk(seq + i); size_t k = ch.writeN(buf.data(), n); if (!k) pf++; seq += k; break; }
                case 5: { Pay *p1, *p2; size_t a, b; size_t t = ch.peek_write(p1, a, p2, b); size_t k = std::min<uint64_t>(left, r.chance(1, 2) ? t : r.below(t + 1)); for (size_t i = 0; i < k; ++i) (i < a ? p1[i] : p2[i - a]) = mk(seq + i); ch.commit_write(k); if (!k) pf++; seq += k; break; }
                default: { auto pr = ch.write_dbf(); size_t k = std::min<uint64_t>(left, r.chance(1, 2) ? pr.second : r.below(pr.second + 1)); for (size_t i = 0; i < k; ++i) pr.first[i] = mk(seq + i); ch.commit_write(k); if (!k) pf++; seq += k; }
            }
        }
    });
    {
        Rng r(s2_); vmon::Jitter j(s2_, jl); uint64_t seq = 0; std::vector<Pay> buf; 
        auto use = [&](const Pay& e) { if (e.seq != seq || e.pad != ~seq || *e.p != seq * 7 + 1) bad = true; seq++; };
        while (seq < total && !bad) { j();
            switch (cop) {
                case 0: { Pay e; ch.pop(e); use(e); break; }
                case 1: { Pay e; if (ch.try_pop(e)) use(e); else ce++; break; }
                case 2: { size_t n = 1 + r.below(cap < 5 ? cap + 1 : 9); buf.resize(n); size_t k = ch.readN(buf.data(), n); for (size_t i = 0; i < k; ++i) use(buf[i]); if (!k) ce++; break; }
                case 3: { const Pay *p1, *p2; size_t a, b; size_t t = ch.peek_read(p1, a, p2, b); size_t k = r.chance(1, 2) ? t : r.below(t + 1); for (size_t i = 0; i < k; ++i) use(i < a ? p1[i] : p2[i - a]); ch.commit_read(k); if (!k) ce++; break; }
                case 4: { auto pr = ch.read_dbf(); size_t k = r.chance(1, 2) ? pr.second : r.below(pr.second + 1); for (size_t i = 0; i < k; ++i) use(pr.first[i]); ch.commit_read(k); if (!k) ce++; break; }
                default: { // the pattern used by blocks that only count: size() then peek
                    size_t s = ch.size(); if (!s) { ce++; break; } Pay e; if (ch.try_pop(e)) use(e); else bad = true; }
            }
        }
        if (bad) violation("fifo:race-content", "pair (%u,%u) cap=%zu corrupted element at %llu", pop_, cop, cap, (unsigned long long)seq);
        if (bad) { // unblock a blocking producer
            Pay e; while (seq < total) { if (ch.try_pop(e)) seq++; else { std::this_thread::yield(); if (pop_ > 1) break; } } }
    }
    if (bad) { vmon::flush_stats(); _exit(96); }
    prod.join();
    vmon::evals(); vmon::stat("elements", (double)total); vmon::stat("producer_saw_full", (double)pf); vmon::stat("consumer_saw_empty", (double)ce);
    vmon::nontrivial(pop_ * 64 + cop * 8 + (N ? 2 : dbf) + 1000 * cap);
    vmon::sample("race pair producer-op=%u consumer-op=%u %s capacity=%zu elements=%llu", pop_, cop, N ? "stack" : dbf ? "dbf" : "heap", cap, (unsigned long long)total);
}
static void c_race(uint64_t i, Rng& r) {
    unsigned p = i % 7, c = (i / 7) % 6; unsigned kind = (i / 42) % 3; uint64_t tot = 1500;
    if (p == 6 || c == 4) kind = 1;
    if (kind == 0) race<0>(r, 1 + r.below(12), p, c, tot);
    else if (kind == 1) race<0>(r, 171 + r.below(300), p, c, tot * 2);
    else race<5>(r, 5, p, c, tot);
}
// non-trivially copyable payloads through the queue itself
static void c_race_obj(uint64_t i, Rng& rng) {
    uint64_t total = 2000; size_t cap = 1 + rng.below(i % 2 ? 5 : 300); bool bad = false; unsigned pm = rng.below(4), cm = rng.below(2); unsigned jl = rng.below(5); uint64_t s1 = rng.next(), s2 = rng.next();
    dro::SPSCQueue<std::string> q(cap); 
#ifdef Q_NO_MOVE_ONLY
    dro::SPSCQueue<std::shared_ptr<uint64_t>> u(cap); using Ptr = std::shared_ptr<uint64_t>;
#else
    dro::SPSCQueue<std::unique_ptr<uint64_t>> u(cap); using Ptr = std::unique_ptr<uint64_t>;
#endif
    std::thread prod([&] { vmon::Jitter j(s1, jl);
        for (uint64_t k = 0; k < total; ++k) { j(); std::string s = "element-number-" + std::to_string(k) + "-with-heap-storage";
            if (pm == 0) q.push(s); else if (pm == 1) q.push(std::move(s)); else if (pm == 2) { while (!q.try_push(s)) std::this_thread::yield(); } else { while (!q.try_push(std::move(s))) std::this_thread::yield(); }
            Ptr p(new uint64_t(k)); if (pm & 1) u.push(std::move(p)); else while (!u.try_push(std::move(p))) std::this_thread::yield(); } });
    vmon::Jitter j(s2, jl);
    for (uint64_t k = 0; k < total; ++k) { j(); std::string s; Ptr p;
        if (cm) q.pop(s); else while (!q.try_pop(s)) std::this_thread::yield();
        if (cm) u.pop(p); else while (!u.try_pop(p)) std::this_thread::yield();
        if (s != "element-number-" + std::to_string(k) + "-with-heap-storage" || !p || *p != k) bad = true; }
    prod.join();
    if (bad) violation("fifo:object-content", "string/unique_ptr element corrupted cap=%zu", cap);
    vmon::evals(); vmon::stat("elements", 2.0 * total); vmon::nontrivial(vmon::mix(pm * 2 + cm + 77, cap));
}

int main(int argc, char** argv) {
    return vmon::run(argc, argv, {{"model", c_model}, {"view", c_view}, {"conc", c_conc}, {"race", c_race}, {"raceobj", c_race_obj}});
}
