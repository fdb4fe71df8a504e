// Drives one block directly: random slices in, random calls, random drains, every transfer watched.
#pragma once
#include "vmon.hpp"
#include "cler.hpp"
#include <memory>
#include <complex>
#include <cmath>
namespace pump {
using vmon::Rng; using vmon::violation;
using Res = cler::Result<cler::Empty, cler::Error>;
inline std::string& ctx() { static std::string s; return s; }                     // description of the current case
inline void bad(const char* key, const char* f, ...) __attribute__((format(printf, 2, 3)));
inline void bad(const char* key, const char* f, ...) { va_list ap; va_start(ap, f); auto s = vmon::vfmt(f, ap); va_end(ap); violation(key, "%s: %s", ctx().c_str(), s.c_str()); }

// A channel that forwards to a real one and checks how the block uses it.
template <class T> struct MonChan final : cler::ChannelBase<T> {
    cler::Channel<T> ch; uint64_t made = 0; bool in_call = false;
    MonChan(size_t cap, size_t rotate, uint64_t = 0) : ch(cap) { for (size_t i = 0; i < rotate; ++i) { T t{}; ch.push(t); ch.pop(t); } }
    size_t size() const override { return ch.size(); }
    size_t space() const override { return ch.space(); }
    void push(const T& v) override { if (ch.space() == 0) { bad("chunk:push-full", "push into a full channel would block for ever"); return; } ch.push(v); made++; }
    void pop(T& v) override { ch.pop(v); }
    bool try_push(const T& v) override { bool b = ch.try_push(v); made += b; return b; }
    bool try_pop(T& v) override { return ch.try_pop(v); }
    size_t writeN(const T* d, size_t n) override { size_t k = ch.writeN(d, n); made += k; return k; }
    size_t readN(T* d, size_t n) override { return ch.readN(d, n); }
    size_t peek_write(T*& a, size_t& x, T*& b, size_t& y) override { return ch.peek_write(a, x, b, y); }
    size_t peek_read(const T*& a, size_t& x, const T*& b, size_t& y) override { return ch.peek_read(a, x, b, y); }
    void commit_read(size_t n) override { ch.commit_read(n); }
    void commit_write(size_t n) override { if (n > ch.space()) { bad("chunk:overcommit", "committed %zu samples with room for %zu", n, ch.space()); n = ch.space(); } ch.commit_write(n); made += n; }
    std::pair<const T*, size_t> read_dbf() override { return ch.read_dbf(); }
    std::pair<T*, size_t> write_dbf() override { return ch.write_dbf(); }
};
template <class T> struct In { cler::Channel<T>* ch; const std::vector<T>* data; size_t pos = 0; };
template <class TI, class TO> struct Pump {
    std::vector<In<TI>> ins; std::vector<std::unique_ptr<MonChan<TO>>> outs; std::vector<std::vector<TO>> got;
    std::function<Res()> call; uint64_t calls = 0, worked = 0; uint64_t sig = 1; size_t want = SIZE_MAX;   // stop once every output delivered `want`
    std::function<void(const std::vector<size_t>&, const std::vector<size_t>&, bool)> each;               // consumed, produced, result ok
    size_t ratio_num = 1;
    void addout(size_t cap, size_t rotate) { outs.emplace_back(new MonChan<TO>(cap, rotate)); got.emplace_back(); }
    void feed(size_t i, size_t n) { auto& x = ins[i]; n = std::min({n, x.data->size() - x.pos, x.ch->space()}); if (n) { size_t k = x.ch->writeN(x.data->data() + x.pos, n); x.pos += k; } }
    void drain(size_t i, size_t n) { auto& o = *outs[i]; n = std::min(n, o.ch.size()); size_t b = got[i].size(); got[i].resize(b + n); size_t k = o.ch.readN(got[i].data() + b, n); got[i].resize(b + k); }
    static size_t slice(Rng& r, size_t big) { switch (r.below(5)) { case 0: return 1; case 1: return 1 + r.below(8); case 2: return 1 + r.below(big / 4 + 1); default: return big; } }
    bool step_call() {
        std::vector<size_t> c, p; for (auto& x : ins) c.push_back(x.ch->size()); for (auto& o : outs) p.push_back(o->made);
        bool ok = call().is_ok(); calls++; bool moved = false;
        for (size_t i = 0; i < ins.size(); ++i) { size_t now = ins[i].ch->size(); if (now > c[i]) bad("chunk:input-grew", "input %zu grew from %zu to %zu", i, c[i], now); c[i] -= std::min(c[i], now); moved |= c[i] > 0; }
        for (size_t i = 0; i < outs.size(); ++i) { p[i] = outs[i]->made - p[i]; moved |= p[i] > 0; }
        if (!ok && moved) bad("chunk:error-after-work", "an error was returned although samples were moved");
        if (each) each(c, p, ok);
        for (auto v : c) sig = vmon::mix(sig, v); for (auto v : p) sig = vmon::mix(sig, v * 3 + 1);
        worked += moved; return moved;
    }
    // everything fed must come out; gives up after many calls without any movement
    void run(Rng& r, const char* stallkey, std::function<bool()> complete) {
        size_t big = 1; for (auto& o : outs) big = std::max(big, o->ch.space() + o->ch.size()); for (auto& x : ins) big = std::max(big, x.ch->space() + x.ch->size());
        unsigned style = (unsigned)r.below(4);       // 0 balanced, 1 starved input, 2 full output, 3 one port lags
        size_t lag = r.below(std::max<size_t>(1, outs.size() + ins.size())); size_t idle = 0; 
        while (true) {
            vmon::tick();
            for (size_t i = 0; i < ins.size(); ++i) { if (style == 3 && i == lag && !r.chance(1, 6)) continue; if (r.chance(2, 3)) feed(i, style == 1 ? 1 + r.below(3) : slice(r, big)); }
            unsigned n = 1 + (unsigned)r.below(3); bool m = false; for (unsigned k = 0; k < n; ++k) m |= step_call();
            for (size_t i = 0; i < outs.size(); ++i) { if (style == 3 && i + ins.size() == lag && !r.chance(1, 6)) continue; if (r.chance(2, 3)) drain(i, style == 2 ? 1 + r.below(3) : slice(r, big)); }
            bool done = complete ? complete() : false; if (!complete) { done = true; for (auto& g : got) if (g.size() < want) done = false; }
            if (done) break;
            idle = m ? 0 : idle + 1;
            if (idle > 200) { // help out: everything in, everything out, and look whether calls move anything
                bool any = false; for (int k = 0; k < 50 && !any; ++k) { for (size_t i = 0; i < ins.size(); ++i) { size_t b = ins[i].pos; feed(i, SIZE_MAX); any |= ins[i].pos != b; } for (size_t i = 0; i < outs.size(); ++i) { any |= outs[i]->ch.size() > 0; drain(i, SIZE_MAX); } any |= step_call(); }
                if (!any) { bool fin = complete ? complete() : true; if (!complete) for (auto& g : got) if (g.size() < want) fin = false; if (!fin) { std::string s; for (auto& x : ins) s += vmon::fmt(" in %zu/%zu fed, %zu waiting;", x.pos, x.data->size(), x.ch->size()); for (auto& g : got) s += vmon::fmt(" out %zu;", g.size()); bad(stallkey, "no progress with free outputs:%s", s.c_str()); } break; }
                idle = 0;
            }
        }
        for (size_t i = 0; i < outs.size(); ++i) drain(i, SIZE_MAX);
    }
};
// capacity usable for doubly mapped channels of T, and a random one above it
template <class T> size_t dbfmin() { return (4096 + sizeof(T) - 1) / sizeof(T); }
template <class T> size_t dbfcap(Rng& r) { size_t m = dbfmin<T>(); switch (r.below(4)) { case 0: return m; case 1: return m + r.below(5); case 2: return m + r.below(m); default: return 2 * m + r.below(6 * m); } }
// now and then a channel far larger than any block's working buffer, and a stream long enough to fill it
template <class T> size_t widecap(Rng& r) { return r.chance(1, 8) ? 16 * dbfmin<T>() + r.below(48 * dbfmin<T>()) : dbfcap<T>(r); }
template <class T> bool wide(size_t cap) { return cap >= 16 * dbfmin<T>(); }
template <class T> size_t grown(size_t n, size_t cap) { return wide<T>(cap) ? std::max(n, cap * 5 / 4) : n; }
template <class T> size_t anycap(Rng& r) { switch (r.below(4)) { case 0: return 1 + r.below(4); case 1: return 1 + r.below(100); default: return dbfcap<T>(r); } }
using cf = std::complex<float>; using cd = std::complex<double>;
} // namespace pump
