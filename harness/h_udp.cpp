// UDP source/sink blocks and blob slabs (C21, C22): every datagram is seen at the system call, every element at the channel.
#include "pump.hpp"
#include <dlfcn.h>
#include <poll.h>
#include <csignal>
#include <array>
#include <deque>
#include <atomic>
#include "udp/source_udp.hpp"
#include "udp/sink_udp.hpp"
using namespace pump; using UDPBlock::SocketType;
using Bytes = std::vector<uint8_t>;
struct Hook {
    int mode = 0;                       // 0 pass through, 1 source under test, 2 sink under test, 3 pipeline: only never block
    int fd = -1, bound = -1; sockaddr_storage at{}; Rng r{1}; unsigned fault = 0;     // faults 1 in `fault`
    std::function<void(const uint8_t*, size_t, bool)> got; std::function<void(const uint8_t*, size_t, bool)> sent;
    size_t accepted = 0; uint64_t injected = 0, wouldblock = 0, hard = 0;
};
static Hook H;
template <class F> static F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
extern "C" int bind(int fd, const struct sockaddr* a, socklen_t l) { static auto f = real<int (*)(int, const sockaddr*, socklen_t)>("bind"); int k = f(fd, a, l); if (k == 0) { H.bound = fd; socklen_t n = sizeof H.at; getsockname(fd, (sockaddr*)&H.at, &n); } return k; }
static bool pending(int fd) { pollfd p{fd, POLLIN, 0}; return poll(&p, 1, 0) > 0; }
static bool bounded(int fd, int flags) { if (flags & MSG_DONTWAIT) return true; if (fcntl(fd, F_GETFL) & O_NONBLOCK) return true; timeval tv{}; socklen_t l = sizeof tv; getsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, &l); return tv.tv_sec || tv.tv_usec; }
static int before_recv(int fd, int flags) {
    if (H.mode == 3) { if (fd == H.fd && !pending(fd)) { usleep(50); errno = EAGAIN; return -1; } return 0; }
    if (H.mode != 1 || fd != H.fd) return 0;
    if (H.fault && H.r.chance(1, H.fault)) { H.injected++; errno = H.r.pick({EINTR, EAGAIN, EIO, ENOBUFS, ENETDOWN, EINTR}); H.hard += errno != EINTR && errno != EAGAIN; return -1; }
    if (!pending(fd)) { H.wouldblock++; bool dw = (flags & MSG_DONTWAIT) || (fcntl(fd, F_GETFL) & O_NONBLOCK); if (H.accepted && !dw) bad("udp:blocks", "waits for more datagrams while %zu received in this call are not delivered", H.accepted); else if (!bounded(fd, flags)) bad("udp:blocks-forever", "waits without limit for a datagram"); errno = EAGAIN; return -1; }
    return 0;
}
static void after_recv(int fd, const uint8_t* p, ssize_t n, bool trunc) { if (H.mode == 1 && fd == H.fd && n >= 0) H.got(p, (size_t)n, trunc); }
extern "C" ssize_t recvmsg(int fd, struct msghdr* m, int fl) { static auto f = real<ssize_t (*)(int, msghdr*, int)>("recvmsg"); if (before_recv(fd, fl)) return -1; ssize_t k = f(fd, m, fl); if (m->msg_iovlen == 1) after_recv(fd, (uint8_t*)m->msg_iov[0].iov_base, k, m->msg_flags & MSG_TRUNC); return k; }
// recv and recvfrom cannot tell truncation unless asked with MSG_TRUNC, so ask
extern "C" ssize_t recvfrom(int fd, void* b, size_t n, int fl, struct sockaddr* a, socklen_t* l) { static auto f = real<ssize_t (*)(int, void*, size_t, int, sockaddr*, socklen_t*)>("recvfrom"); if (before_recv(fd, fl)) return -1; ssize_t k = f(fd, b, n, fl | MSG_TRUNC, a, l); bool t = k > (ssize_t)n; after_recv(fd, (uint8_t*)b, t ? (ssize_t)n : k, t); return t && !(fl & MSG_TRUNC) ? (ssize_t)n : k; }
extern "C" ssize_t recv(int fd, void* b, size_t n, int fl) { return recvfrom(fd, b, n, fl, nullptr, nullptr); }
static ssize_t on_send(const uint8_t* p, size_t n, std::function<ssize_t()> go) { if (H.mode != 2) return go(); if (H.fault && H.r.chance(1, H.fault)) { H.injected++; H.sent(p, n, false); errno = H.r.pick({ENOBUFS, EPERM, ECONNREFUSED, EIO, EMSGSIZE, EHOSTUNREACH}); return -1; } ssize_t k = go(); int e = errno; H.sent(p, n, k == (ssize_t)n); errno = e; return k; }
extern "C" ssize_t sendto(int fd, const void* b, size_t n, int fl, const struct sockaddr* a, socklen_t l) { static auto f = real<ssize_t (*)(int, const void*, size_t, int, const sockaddr*, socklen_t)>("sendto"); if (fd != H.fd && H.mode == 2) { H.fd = fd; } return on_send((const uint8_t*)b, n, [&] { return f(fd, b, n, fl, a, l); }); }
extern "C" ssize_t sendmsg(int fd, const struct msghdr* m, int fl) { static auto f = real<ssize_t (*)(int, const msghdr*, int)>("sendmsg"); if (m->msg_iovlen != 1) return f(fd, m, fl); return on_send((const uint8_t*)m->msg_iov[0].iov_base, m->msg_iov[0].iov_len, [&] { return f(fd, m, fl); }); }

static const char* tname(SocketType t) { return t == SocketType::INET_UDP ? "IPv4" : t == SocketType::INET6_UDP ? "IPv6" : "UNIX"; }
static bool have6() { static int v = -1; if (v < 0) { int s = socket(AF_INET6, SOCK_DGRAM, 0); sockaddr_in6 a{}; a.sin6_family = AF_INET6; a.sin6_addr = in6addr_loopback; v = s >= 0 && ::bind(s, (sockaddr*)&a, sizeof a) == 0; if (s >= 0) close(s); } return v; }
static SocketType pick_type(Rng& r) { auto t = r.pick({SocketType::INET_UDP, SocketType::INET6_UDP, SocketType::UNIX_DGRAM, SocketType::UNIX_DGRAM}); return t == SocketType::INET6_UDP && !have6() ? SocketType::INET_UDP : t; }
// a raw socket of the harness, bound when path/port is to be received on
struct Raw {
    int fd; SocketType t; std::string addr;
    Raw(SocketType t, bool rx) : t(t) { fd = socket(t == SocketType::UNIX_DGRAM ? AF_UNIX : t == SocketType::INET_UDP ? AF_INET : AF_INET6, SOCK_DGRAM | SOCK_NONBLOCK, 0); int big = 1 << 20; setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &big, sizeof big); setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &big, sizeof big); if (!rx) return;
        if (t == SocketType::UNIX_DGRAM) { addr = "rx.sock"; unlink(addr.c_str()); sockaddr_un a{}; a.sun_family = AF_UNIX; strcpy(a.sun_path, addr.c_str()); ::bind(fd, (sockaddr*)&a, sizeof a); }
        else if (t == SocketType::INET_UDP) { sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); socklen_t l = sizeof a; ::bind(fd, (sockaddr*)&a, l); getsockname(fd, (sockaddr*)&a, &l); addr = "127.0.0.1:" + std::to_string(ntohs(a.sin_port)); }
        else { sockaddr_in6 a{}; a.sin6_family = AF_INET6; a.sin6_addr = in6addr_loopback; socklen_t l = sizeof a; ::bind(fd, (sockaddr*)&a, l); getsockname(fd, (sockaddr*)&a, &l); addr = "::1:" + std::to_string(ntohs(a.sin6_port)); } }
    void to(const sockaddr_storage& s, const std::string& path) { if (t == SocketType::UNIX_DGRAM) { sockaddr_un a{}; a.sun_family = AF_UNIX; strcpy(a.sun_path, path.c_str()); connect(fd, (sockaddr*)&a, sizeof a); } else if (t == SocketType::INET_UDP) { sockaddr_in a = *(sockaddr_in*)&s; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); connect(fd, (sockaddr*)&a, sizeof a); } else { sockaddr_in6 a = *(sockaddr_in6*)&s; a.sin6_addr = in6addr_loopback; connect(fd, (sockaddr*)&a, sizeof a); } }
    bool put(const Bytes& b) { return ::write(fd, b.data(), b.size()) == (ssize_t)b.size(); }
    bool get(Bytes& b) { b.resize(70000); ssize_t k = ::read(fd, b.data(), b.size()); if (k < 0) return false; b.resize(k); return true; }
    ~Raw() { close(fd); if (!addr.empty() && t == SocketType::UNIX_DGRAM) unlink(addr.c_str()); }
};
static Bytes datagram(Rng& r, size_t n) { Bytes b(n); for (auto& x : b) x = (uint8_t)r.next(); return b; }
static bool rejected(const uint8_t* p) { return (p[0] & 3) == 1; }
// ownership of blob slots as seen from outside
struct Owners {
    struct O { uint8_t* p; Bytes content; }; std::map<size_t, O> live; size_t maxlen; uint64_t taken = 0;
    void take(const Blob& b, const char* who) { taken++; for (auto& o : live) if (b.data < o.second.p + maxlen && o.second.p < b.data + maxlen) { bad("slab:overlap", "%s: slot %zu overlaps slot %zu, which is owned", who, b.slot_idx, o.first); break; } if (live.count(b.slot_idx)) bad("slab:two-owners", "%s: slot %zu handed out while owned", who, b.slot_idx); live[b.slot_idx] = {b.data, Bytes(b.data, b.data + b.len)}; }
    void check(const Blob& b) { auto& o = live[b.slot_idx]; if (o.content.size() > b.len || memcmp(o.content.data(), b.data, o.content.size())) bad("slab:changed", "bytes of slot %zu changed while owned", b.slot_idx); }
    void give(Blob& b) { check(b); live.erase(b.slot_idx); b.release(); }
};
struct Ctx { uint64_t valid = 0, cb = 0; bool wrong = false; bool use_validate; };
template <class T> const uint8_t* raw(const T& t) { if constexpr (std::is_same_v<T, Blob>) return t.data; else return (const uint8_t*)&t; }
template <class T> void t_source(Rng& r) {
    constexpr bool B = std::is_same_v<T, Blob>; SocketType t = pick_type(r); size_t maxb = B ? r.pick({(size_t)1, (size_t)16, (size_t)256, (size_t)1500, (size_t)1500, (size_t)2000 + r.below(7000), (size_t)9000 + r.below(51000)}) : sizeof(T), slots = B ? 1 + r.below(12) : 100; size_t cap = sizeof(T) > 5000 ? 512 : 1 + r.below(r.chance(1, 2) ? 4 : 40), n = sizeof(T) > 5000 ? 30 : 60 + r.below(300); bool val = r.chance(2, 3); unsigned fault = r.chance(1, 2) ? 6 + (unsigned)r.below(20) : 0;
    ctx() = vmon::fmt("%s source <%s>, element %zu bytes, %zu slots, output %zu%s%s", tname(t), B ? "Blob" : "fixed", maxb, slots, cap, val ? ", validating" : "", fault ? ", socket faults" : "");
    std::string path = "src.sock", addr = t == SocketType::UNIX_DGRAM ? path : t == SocketType::INET_UDP ? "127.0.0.1:0" : "::1:0"; Ctx c; H = Hook(); H.r = Rng(r.next()); std::deque<Bytes> want; uint64_t seen = 0, dropped = 0, expected = 0;
    std::unique_ptr<SourceUDPSocketBlock<T>> b; try { b.reset(new SourceUDPSocketBlock<T>("s", t, addr, val ? +[](const T& x, void* c) { ((Ctx*)c)->valid++; return !rejected(raw(x)); } : nullptr, [](const T&, void* c) { ((Ctx*)c)->cb++; }, &c, B ? maxb : 256, slots)); } catch (const std::exception& e) { bad("udp:open", "%s", e.what()); return; }
    if (t == SocketType::INET_UDP && ((sockaddr_in*)&H.at)->sin_addr.s_addr != htonl(INADDR_LOOPBACK)) bad("udp:bind-address", "asked to listen on 127.0.0.1, listens on %08x", ntohl(((sockaddr_in*)&H.at)->sin_addr.s_addr));
    if (t == SocketType::INET6_UDP && memcmp(&((sockaddr_in6*)&H.at)->sin6_addr, &in6addr_loopback, 16)) bad("udp:bind-address", "asked to listen on ::1, listens elsewhere");
    H.fd = H.bound; H.fault = fault; { int big = 1 << 22; setsockopt(H.fd, SOL_SOCKET, SO_RCVBUF, &big, sizeof big); } Raw tx(t, false); tx.to(H.at, path);
    H.got = [&](const uint8_t* p, size_t k, bool trunc) { seen++; if (trunc || k == 0 || (val && rejected(p))) { dropped++; return; } if (k > maxb) { bad("udp:buffer", "received %zu bytes into %zu", k, maxb); return; } want.push_back(Bytes(p, p + k)); H.accepted++; expected++; };
    H.mode = 1; MonChan<T> out(cap, r.below(50)); Owners own; own.maxlen = maxb; std::vector<Blob> held; size_t sent = 0, delivered = 0; uint64_t calls = 0, errs = 0, idle = 0, sig = 1, gone = 0, dry = 0, stuck = 0; Slab* slab = nullptr; (void)slab;
    while (idle < 300) {
        if (sent - seen > gone && !pending(H.fd)) { if (++dry > 100) { gone = sent - seen; dry = 0; } } else dry = 0;   // what the kernel dropped never arrives
        if (sent < n && r.chance(3, 4)) { unsigned burst = 1 + (unsigned)r.below(12); for (unsigned k = 0; k < burst && sent < n && sent < seen + gone + 30; ++k) { size_t len = r.chance(1, 3) ? maxb : r.chance(1, 8) ? 0 : r.chance(1, 6) ? maxb + 1 + r.below(60) : 1 + r.below(maxb); if (len > 60500) len = 60500; if (!tx.put(datagram(r, len))) break; sent++; } }
        size_t m = out.made; H.accepted = 0; H.hard = 0; uint64_t e0 = expected, seen0 = seen; auto res = b->procedure(&out); calls++; bool ok = res.is_ok(); if (!ok && !H.hard && out.ch.space() > 0 && cler::is_fatal(res.unwrap_err())) bad("udp:spurious-error", "error %s without a fault, or for an interrupted or idle socket", cler::to_str(res.unwrap_err())); errs += !ok;
        if (out.made - m != expected - e0) bad("udp:count", "%llu valid datagrams received in a call, %llu elements delivered", (unsigned long long)(expected - e0), (unsigned long long)(out.made - m));
        sig = vmon::mix(sig, (out.made - m) * 8 + ok); idle = out.made == m && sent >= n ? idle + 1 : 0; if (out.made == m && seen == seen0 && out.ch.space() && pending(H.fd)) { if (++stuck > 3000) break; } else stuck = 0;
        size_t k = r.below(out.ch.size() + 1); if (r.chance(1, 3)) k = out.ch.size();
        while (k-- && out.ch.size()) { T x; out.ch.pop(x); if (want.empty()) { bad("udp:extra", "element delivered that was never received"); break; } Bytes& w = want.front(); delivered++;
            if constexpr (B) { if (x.len != w.size() || memcmp(x.data, w.data(), std::min(w.size(), x.len))) { bad("udp:content", "element %zu: %zu bytes differ from the datagram of %zu bytes", delivered, x.len, w.size()); } own.take(x, "source"); slab = x.owner_slab; held.push_back(x); }
            else { if (memcmp(&x, w.data(), w.size())) bad("udp:content", "element %zu differs from the datagram of %zu bytes", delivered, w.size()); else for (size_t q = w.size(); q < sizeof(T); ++q) if (((uint8_t*)&x)[q]) { bad("udp:padding", "element %zu: byte %zu after a datagram of %zu bytes is not zero", delivered, q, w.size()); break; } }
            want.pop_front(); }
        if constexpr (B) while (!held.empty() && (r.chance(1, 2) || idle)) { size_t q = r.below(held.size()); own.give(held[q]); held.erase(held.begin() + q); }
        vmon::tick(); if (vmon::st().nviol > 15) break;
    }
    H.mode = 0; if (out.ch.size() == 0 && !want.empty()) bad("udp:lost", "%zu valid datagrams were received and never delivered", want.size());
    if (seen < sent) { if (pending(H.fd)) bad("udp:stalled", "%zu datagrams wait in the socket and the source takes none", (size_t)(sent - seen)); else vmon::stat("lost_in_kernel", (double)(sent - seen)); }
    if (c.cb != delivered + out.ch.size() && vmon::st().nviol == 0) bad("udp:callback", "%llu callbacks for %zu elements", (unsigned long long)c.cb, delivered);
    if constexpr (B) { for (auto& x : held) { Blob y = x; own.give(y); } while (out.ch.size()) { T x; out.ch.pop(x); x.release(); } if (slab && slab->available_slots() != slots) bad("slab:leak", "%zu of %zu slots of the source are free after every blob was released", slab->available_slots(), slots); if (slab) vmon::stat("source_slabs_balanced", 1); }
    vmon::evals(); vmon::stat("datagrams", (double)seen); vmon::stat("dropped_as_invalid", (double)dropped); vmon::stat("elements_checked", (double)delivered); vmon::stat("faults_injected", (double)H.injected); vmon::stat("procedure_calls", (double)calls); if (delivered && dropped) vmon::nontrivial(sig); vmon::sample("%s: %zu sent, %llu received, %llu dropped, %zu delivered, %llu faults", ctx().c_str(), sent, (unsigned long long)seen, (unsigned long long)dropped, delivered, (unsigned long long)H.injected);
}
using A256 = std::array<uint8_t, 256>; using A60k = std::array<uint8_t, 60000>; struct S24 { uint64_t a, b, c; };
static void c_source(uint64_t i, Rng& r) { switch (i % 12) { case 0: case 1: case 2: case 3: case 4: case 5: t_source<Blob>(r); break; case 6: case 7: t_source<A256>(r); break; case 8: t_source<S24>(r); break; case 9: t_source<uint8_t>(r); break; case 10: t_source<float>(r); break; default: if (r.chance(1, 4)) t_source<A60k>(r); else t_source<A256>(r); } H = Hook(); }

template <class T> void t_sink(Rng& r) {
    constexpr bool B = std::is_same_v<T, Blob>; SocketType t = pick_type(r); size_t cap = sizeof(T) > 5000 ? 600 : 1 + r.below(60), n = sizeof(T) > 5000 ? 400 : 50 + r.below(400); unsigned fault = r.chance(1, 2) ? 5 + (unsigned)r.below(30) : 0;
    ctx() = vmon::fmt("%s sink <%s>, element %zu bytes, buffer %zu%s", tname(t), B ? "Blob" : "fixed", sizeof(T), cap, fault ? ", send faults" : ""); H = Hook(); H.r = Rng(r.next()); H.fault = fault; Raw rx(t, true); uint64_t cbs = 0; SinkUDPSocketBlock<T> b("k", t, rx.addr, [](const T&, void* c) { ++*(uint64_t*)c; }, &cbs, cap);
    size_t slots = 1 + r.below(20), maxb = r.chance(1, 6) ? 1400 + r.below(58600) : 1 + r.below(1400); if (maxb > 1400) n = n / 5 + 10; Slab slab(slots, maxb); std::vector<Bytes> items; size_t fed = 0, next = 0, failed = 0, okd = 0; bool lastfail = false; uint64_t calls = 0, errs = 0, sig = 1, failures_in_call = 0; std::deque<Bytes> onwire;
    H.sent = [&](const uint8_t* p, size_t k, bool ok) {
        if (lastfail && next > 0 && items[next - 1] == Bytes(p, p + k) && (next >= items.size() || items[next] != items[next - 1])) { next--; failed--; }      // a retry of the one that failed
        if (next >= fed) { bad("udp:sink-extra", "datagram sent that was never given to the sink"); return; } if (items[next] != Bytes(p, p + k)) { bad("udp:sink-content", "datagram %zu differs from element %zu (%zu bytes, %zu expected)", next, next, k, items[next].size()); } next++; lastfail = !ok; if (ok) { okd++; onwire.emplace_back(p, p + k); } else { failed++; failures_in_call++; } };
    uint64_t idle = 0; size_t rxd = 0;
    // a UNIX socket holds few datagrams and the sink would wait for room, so a thread keeps emptying the receiver
    std::mutex wm; std::deque<Bytes> wire; std::atomic<bool> stop{false}; std::thread helper([&] { Bytes x; while (!stop) { if (rx.get(x)) { std::lock_guard<std::mutex> g(wm); wire.push_back(x); } else { pollfd p{rx.fd, POLLIN, 0}; poll(&p, 1, 1); } } });
    auto receive = [&] { std::lock_guard<std::mutex> g(wm); while (!wire.empty()) { Bytes x = wire.front(); wire.pop_front(); if (t != SocketType::UNIX_DGRAM) { /* the kernel may drop on a full receive buffer */ size_t q = 0; while (q < onwire.size() && onwire[q] != x) q++; if (q < onwire.size()) while (q--) { onwire.pop_front(); vmon::stat("lost_in_kernel", 1); } } if (onwire.empty() || onwire.front() != x) bad("udp:wire", "datagram %zu on the wire (%zu bytes) is not the next one sent", rxd, x.size()); if (!onwire.empty()) onwire.pop_front(); rxd++; } };
    while ((next < n || b.in.size()) && idle < 400) {
        if (fed < n) { size_t k = 1 + r.below(cap); while (k-- && fed < n && b.in.space()) { if (items.size() <= fed) { size_t len = B ? (r.chance(1, 4) ? maxb : 1 + r.below(maxb)) : sizeof(T); items.push_back(datagram(r, len)); } if constexpr (B) { auto s = slab.take_slot(); if (s.is_err()) break; Blob x = s.unwrap(); if (x.len != maxb) bad("slab:len", "slot of %zu bytes, %zu asked", x.len, maxb); x.len = items[fed].size(); memcpy(x.data, items[fed].data(), x.len); b.in.push(x); } else { T x; memcpy((void*)&x, items[fed].data(), sizeof(T)); b.in.push(x); } fed++; } }
        H.mode = 2; size_t in0 = b.in.size(), n0 = next; failures_in_call = 0;
        auto res = b.procedure(); H.mode = 0; calls++; bool ok = res.is_ok(); errs += !ok;
        size_t gone = in0 - b.in.size(); if (gone != next - n0) bad("udp:sink-lost", "%zu elements taken from the input, %zu sent or reported", gone, next - n0); if (failures_in_call && ok) bad("udp:sink-silent", "%llu failed sends were not reported", (unsigned long long)failures_in_call); if (!failures_in_call && !ok) bad("udp:sink-error", "error %s without a failed send", cler::to_str(res.unwrap_err()));
        receive(); sig = vmon::mix(sig, gone * 4 + ok); idle = gone == 0 ? idle + 1 : 0; vmon::tick(); if (vmon::st().nviol > 15) break;
    }
    for (int k = 0; k < 200; ++k) { receive(); if (onwire.empty()) break; usleep(200); } stop = true; helper.join();
    if (next < n && vmon::st().nviol == 0) bad("udp:sink-stalled", "%zu of %zu elements sent", next, n); if (!onwire.empty()) vmon::stat("lost_in_kernel", (double)onwire.size()); if (cbs < okd) bad("udp:sink-callback", "%llu callbacks for %zu elements", (unsigned long long)cbs, okd);
    if constexpr (B) if (b.in.size() == 0 && slab.available_slots() != slots) bad("slab:leak", "%zu of %zu slots are free after everything was sent or failed", slab.available_slots(), slots);
    vmon::evals(); vmon::stat("datagrams", (double)okd); vmon::stat("faults_injected", (double)H.injected); vmon::stat("elements_checked", (double)next); vmon::stat("procedure_calls", (double)calls); vmon::nontrivial(sig); vmon::sample("%s: %zu elements, %zu failed sends, %llu calls", ctx().c_str(), next, failed, (unsigned long long)calls);
}
static void c_sink(uint64_t i, Rng& r) { switch (i % 6) { case 0: case 1: case 2: t_sink<Blob>(r); break; case 3: t_sink<A256>(r); break; case 4: t_sink<S24>(r); break; default: if (r.chance(1, 6)) t_sink<A60k>(r); else t_sink<float>(r); } H = Hook(); }

static void c_addr(uint64_t i, Rng& r) {
    using UDPBlock::parse_address_string; uint64_t n = 0;
    for (int k = 0; k < 400; ++k) { std::string host = r.pick({"127.0.0.1", "::1", "10.0.0.255", "", "host.name", "a:b:c"}), port; int kind = (int)r.below(9); bool good = false; unsigned v = 0;
        switch (kind) { case 0: case 1: v = r.chance(1, 8) ? 65535 : (unsigned)r.below(65536); port = std::to_string(v); good = true; break; case 2: port = std::to_string(65536 + (r.chance(1, 2) ? r.below(2) : r.below(1u << 20))); break; case 3: port = std::to_string(r.below(65536)) + r.pick({"abc", " ", ".5", "x", "\t1", "e3"}); break; case 4: port = ""; break; case 5: port = "-" + std::to_string(r.below(70000)); break; case 6: port = std::string(r.pick({"port", "0x50", "a1"})); break; case 7: port = std::string(20 + r.below(20), '9'); break; default: port = r.pick({" ", "+"}) + std::to_string(r.below(65536)); }
        std::string s = host + ":" + port; auto t = r.pick({SocketType::INET_UDP, SocketType::INET6_UDP}); ctx() = "address '" + s + "'"; n++;
        try { auto p = parse_address_string(t, s); if (!good) bad("udp:address", "malformed address accepted as '%s' port %u", p.address.c_str(), p.port); else if (p.address != host || p.port != v) bad("udp:address", "parsed as '%s' port %u", p.address.c_str(), p.port); } catch (const std::runtime_error& e) { if (good) bad("udp:address", "rejected: %s", e.what()); } catch (const std::exception& e) { bad("udp:address", "unexpected exception: %s", e.what()); } }
    ctx() = "address without port"; try { parse_address_string(SocketType::INET_UDP, "127.0.0.1"); bad("udp:address", "accepted"); } catch (const std::runtime_error&) {}
    ctx() = "UNIX path"; for (auto s : {"a/b:c", "x", "with space:80"}) { auto p = parse_address_string(SocketType::UNIX_DGRAM, s); if (p.address != s) bad("udp:address", "path '%s' became '%s'", s, p.address.c_str()); }
    for (auto s : {"nonsense:5000", "300.1.1.1:5000", "1.2.3:80"}) { ctx() = vmon::fmt("sender address '%s'", s); size_t before = 0, after = 0; auto count = [] { size_t c = 0; for (int f = 0; f < 256; ++f) c += fcntl(f, F_GETFD) >= 0; return c; }; before = count(); try { auto q = UDPBlock::GenericDatagramSocket::make_sender(SocketType::INET_UDP, s); bad("udp:address", "accepted"); } catch (const std::runtime_error&) {} try { auto q = UDPBlock::GenericDatagramSocket::make_receiver(SocketType::INET_UDP, s); bad("udp:address", "accepted for receiving"); } catch (const std::runtime_error&) {} after = count(); if (after != before) bad("udp:fd-leak", "%zu descriptors before, %zu after a failed construction", before, after); }
    { ctx() = "long UNIX path"; std::string s(200, 'p'); try { auto q = UDPBlock::GenericDatagramSocket::make_sender(SocketType::UNIX_DGRAM, s); bad("udp:address", "accepted"); } catch (const std::runtime_error&) {} try { auto q = UDPBlock::GenericDatagramSocket::make_receiver(SocketType::UNIX_DGRAM, s); bad("udp:address", "accepted"); } catch (const std::runtime_error&) {} }
    { ctx() = "UNIX path cleanup"; { auto q = UDPBlock::GenericDatagramSocket::make_receiver(SocketType::UNIX_DGRAM, "clean.sock"); if (access("clean.sock", F_OK)) bad("udp:address", "socket file missing"); } if (!access("clean.sock", F_OK)) bad("udp:address", "socket file left behind"); }
    vmon::evals(); vmon::stat("addresses_checked", (double)n); vmon::nontrivial(r.next());
}

// ---------- slabs
static void c_slab(uint64_t i, Rng& r) {
    size_t slots = r.chance(1, 8) ? 1 + r.below(300) : 1 + r.below(20), maxb = r.pick({(size_t)1, (size_t)7, (size_t)64, slots > 20 ? (size_t)100 : (size_t)4096}); ctx() = vmon::fmt("slab of %zu slots of %zu bytes", slots, maxb); Slab s(slots, maxb); Owners own; own.maxlen = maxb; std::vector<Blob> held; uint64_t sig = 1, ops = 0, empty = 0;
    if (s.capacity() != slots || s.max_blob_size() != maxb || s.available_slots() != slots) bad("slab:size", "capacity %zu, blob size %zu, %zu free", s.capacity(), s.max_blob_size(), s.available_slots());
    for (int k = 0; k < 1500; ++k) { bool take = r.chance(1, 2) ? held.size() < slots : r.chance(1, 2); ops++;
        if (take) { auto x = s.take_slot(); if (x.is_err() != (held.size() == slots)) { bad("slab:exhausted", "%zu of %zu slots owned and take_slot %s", held.size(), slots, x.is_err() ? "fails" : "succeeds"); if (x.is_err()) continue; } if (x.is_err()) { empty++; continue; } Blob b = x.unwrap(); if (b.len != maxb || b.slot_idx >= slots || b.owner_slab != &s) bad("slab:blob", "length %zu, slot %zu, wrong owner %d", b.len, b.slot_idx, b.owner_slab != &s); for (size_t q = 0; q < maxb; ++q) b.data[q] = (uint8_t)r.next(); own.take(b, "slab"); held.push_back(b); }
        else if (!held.empty()) { size_t q = r.below(held.size()); Blob b = held[q]; own.give(b); if (b.owner_slab) bad("slab:owner", "released blob still names its slab"); held.erase(held.begin() + q); }
        if (s.available_slots() + held.size() != slots) { bad("slab:leak", "%zu free and %zu owned of %zu", s.available_slots(), held.size(), slots); break; } sig = vmon::mix(sig, held.size()); }
    for (auto& b : held) own.check(b); vmon::evals(); vmon::stat("slab_operations", (double)ops); vmon::stat("exhausted", (double)empty); vmon::nontrivial(sig);
}
// one taker that also gives some back itself, several releasers
static void c_slabmt(uint64_t i, Rng& r) {
    size_t slots = 1 + r.below(16), maxb = r.pick({(size_t)8, (size_t)64, (size_t)512}), nrel = 1 + r.below(3), total = vmon::thorough() ? 30000 : 6000; bool self = r.chance(2, 3); ctx() = vmon::fmt("slab of %zu slots of %zu bytes, %zu releasing threads%s", slots, maxb, nrel, self ? " and the taker" : ""); Slab s(slots, maxb);
    std::vector<std::unique_ptr<cler::Channel<Blob>>> ch; for (size_t k = 0; k < nrel; ++k) ch.emplace_back(new cler::Channel<Blob>(slots)); std::unique_ptr<std::atomic<int>[]> owned(new std::atomic<int>[slots]); for (size_t k = 0; k < slots; ++k) owned[k].store(0, std::memory_order_relaxed); std::atomic<uint64_t> released{0}, trouble{0}; std::atomic<bool> done{false}; std::vector<std::thread> th; std::mutex m; std::string msg;
    auto fault = [&](std::string x) { if (trouble.fetch_add(1) == 0) { std::lock_guard<std::mutex> g(m); msg = x; } };
    for (size_t k = 0; k < nrel; ++k) th.emplace_back([&, k, jr = r.next()] { vmon::Jitter j(jr, 1 + k % 4); Blob b; while (true) { if (!ch[k]->try_pop(b)) { if (done) { if (!ch[k]->try_pop(b)) break; } else { std::this_thread::yield(); continue; } } uint64_t tag; memcpy(&tag, b.data, 8); for (size_t q = 8; q + 8 <= maxb; q += 8) if (memcmp(b.data + q, &tag, 8)) { fault("content of an owned slot changed"); break; } j(); owned[b.slot_idx].store(0, std::memory_order_relaxed); b.release(); released.fetch_add(1, std::memory_order_relaxed); } });
    vmon::Jitter j(r.next(), 1 + (unsigned)r.below(4)); uint64_t taken = 0, mine = 0, dry = 0; auto t0 = std::chrono::steady_clock::now();
    while (taken < total && !trouble) { auto x = s.take_slot(); if (x.is_err()) { if (++dry % 64 == 0) { std::this_thread::yield(); vmon::tick(); } if (std::chrono::steady_clock::now() - t0 > std::chrono::seconds(20)) { uint64_t rel = released; if (rel + mine == taken) fault(vmon::fmt("no slot can be taken although all %llu taken were released", (unsigned long long)taken)); t0 = std::chrono::steady_clock::now(); } continue; } t0 = std::chrono::steady_clock::now();
        Blob b = x.unwrap(); taken++; if (b.slot_idx >= slots) { fault("slot index out of range"); break; } if (owned[b.slot_idx].exchange(1, std::memory_order_relaxed)) { fault(vmon::fmt("slot %zu handed out while owned", b.slot_idx)); break; } uint64_t tag = vmon::mix(taken, 77); for (size_t q = 0; q + 8 <= maxb; q += 8) memcpy(b.data + q, &tag, 8); j();
        if (self && (tag & 3) == 0) { owned[b.slot_idx].store(0, std::memory_order_relaxed); b.release(); mine++; } else { auto& c = *ch[(tag >> 8) % nrel]; c.push(b); } if (taken % 256 == 0) vmon::tick(); }
    done = true; for (auto& t : th) t.join(); if (trouble) bad("slab:concurrent", "%s", msg.c_str()); else if (s.available_slots() != slots) bad("slab:leak", "%zu of %zu slots free after everything was released", s.available_slots(), slots);
    vmon::evals(); vmon::stat("slots_taken", (double)taken); vmon::stat("taken_dry", (double)dry); vmon::nontrivial(vmon::mix(dry, released));
}
// raw sender -> source block -> channel -> sink block -> raw receiver, blocks on their own threads
static void c_pipe(uint64_t i, Rng& r) {
    SocketType t = r.chance(1, 2) ? SocketType::UNIX_DGRAM : SocketType::INET_UDP; size_t slots = 1 + r.below(10), maxb = 16 + r.below(500), total = vmon::thorough() ? 4000 : 500; bool val = r.chance(2, 3); ctx() = vmon::fmt("%s pipeline, %zu slots of %zu bytes%s", tname(t), slots, maxb, val ? ", rejecting some" : ""); H = Hook();
    Raw rx(t, true); Ctx c; SourceUDPSocketBlock<Blob> src("s", t, t == SocketType::UNIX_DGRAM ? "pipe.sock" : "127.0.0.1:0", val ? +[](const Blob& x, void*) { return !rejected(x.data); } : nullptr, nullptr, &c, maxb, slots); H.fd = H.bound; auto at = H.at; H.mode = 3; Raw tx(t, false); tx.to(at, "pipe.sock"); SinkUDPSocketBlock<Blob> sink("k", t, rx.addr, nullptr, nullptr, 1 + r.below(8));
    std::atomic<bool> stop{false}; std::atomic<uint64_t> serr{0}, kerr{0}, scalls{0}, kcalls{0};
    uint64_t j1 = r.next(), j2 = r.next(); unsigned l1 = (unsigned)r.below(5), l2 = (unsigned)r.below(5);
    std::thread a([&] { vmon::Jitter j(j1, l1); while (!stop) { auto x = src.procedure(&sink.in); if (x.is_err() && cler::is_fatal(x.unwrap_err())) serr++; scalls.fetch_add(1, std::memory_order_relaxed); j(); } }), b([&] { vmon::Jitter j(j2, l2); while (!stop) { auto x = sink.procedure(); if (x.is_err() && cler::is_fatal(x.unwrap_err())) kerr++; kcalls.fetch_add(1, std::memory_order_relaxed); j(); } });
    std::deque<Bytes> want; size_t sent = 0, got = 0, dropped = 0; auto last = std::chrono::steady_clock::now(); bool fail = false;
    while ((sent < total || !want.empty()) && !fail) { bool moved = false; if (sent < total && want.size() < 8) { bool over = r.chance(1, 10); Bytes x = datagram(r, over ? maxb + 1 + r.below(20) : 1 + r.below(maxb)); if (tx.put(x)) { sent++; moved = true; if (over || (val && rejected(x.data()))) dropped++; else want.push_back(x); } }
        Bytes y; while (rx.get(y)) { moved = true; got++; if (want.empty() || want.front() != y) { bad("pipe:content", "datagram %zu out of the pipeline (%zu bytes) is not the next valid one put in", got, y.size()); fail = true; break; } want.pop_front(); }
        auto now = std::chrono::steady_clock::now(); if (moved) { last = now; if (sent % 64 == 0) vmon::tick(); } else { std::this_thread::yield(); if (now - last > std::chrono::seconds(10)) { bad("pipe:dry", "%zu datagrams wait, the pipeline of %zu slots delivers none (%zu came through)", want.size(), slots, got); fail = true; } } }
    stop = true; a.join(); b.join(); H.mode = 0; if (serr || kerr) bad("pipe:error", "%llu source and %llu sink errors", (unsigned long long)serr, (unsigned long long)kerr);
    vmon::evals(); vmon::stat("datagrams", (double)sent); vmon::stat("rejected", (double)dropped); vmon::stat("through", (double)got); vmon::nontrivial(vmon::mix(scalls, kcalls)); vmon::sample("%s: %zu sent, %zu rejected, %zu through, %llu source and %llu sink calls", ctx().c_str(), sent, dropped, got, (unsigned long long)scalls, (unsigned long long)kcalls); H = Hook();
}
int main(int argc, char** argv) { signal(SIGPIPE, SIG_IGN); return vmon::run(argc, argv, {{"source", c_source}, {"sink", c_sink}, {"addr", c_addr}, {"slab", c_slab}, {"slabmt", c_slabmt}, {"pipe", c_pipe}}, 60); }
