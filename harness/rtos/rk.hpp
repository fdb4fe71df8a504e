// A monitored stand-in for an RTOS kernel: real threads behind the FreeRTOS, ThreadX and Zephyr
// calls the policies use.  Kernel objects that live in caller memory (TX_THREAD, TX_SEMAPHORE,
// k_thread, k_sem, thread stacks) are known by address: they must stay where they were created,
// intact and allocated, for as long as the kernel may use them.
#pragma once
#include "../vmon.hpp"
#include <condition_variable>
#include <memory>
#include <pthread.h>
#if defined(VMON_ASAN)
extern "C" int __asan_address_is_poisoned(void const volatile*);
#else
static inline int __asan_address_is_poisoned(void const volatile*) { return 0; }
#endif
namespace rk {
struct Hdr { uint64_t id; void* self; uint64_t pad[14]; };      // what the kernel keeps inside caller memory
struct Sem { unsigned count = 0, limit = ~0u; uint64_t id = 0; void* mem = nullptr; bool dead = false; std::condition_variable cv; };
struct Task {
    pthread_t th{}; uint64_t id = 0; void* mem = nullptr; unsigned char* stack = nullptr; size_t stack_size = 0; bool finished = false, deleted_self = false, terminated = false, gone = false, autodead = false;
    void (*entry)(void*, void*, void*) = nullptr; void *p1 = 0, *p2 = 0, *p3 = 0; bool joined = false; uint64_t jseed = 0; bool freertos = false; std::condition_variable cv; std::atomic<bool> in_body{false};
};
struct Kernel {
    std::mutex m; uint64_t next_id = 1; std::map<void*, std::shared_ptr<Sem>> sems; std::map<void*, std::shared_ptr<Task>> tasks; std::vector<std::shared_ptr<Task>> all; std::vector<std::shared_ptr<Sem>> handles;
    uint64_t seed = 1; std::atomic<uint64_t> calls{0}; int jitter = 3;
    // fault plan: fail the n-th creation of a kind (-1: none, -2: all)
    int fail_sem = -1, fail_task = -1, n_sem = 0, n_task = 0; uint64_t faults = 0, created = 0;
};
inline Kernel& K() { static Kernel* k = new Kernel; return *k; }
inline thread_local Task* tl_task = nullptr;
inline thread_local double tl_slept = 0; inline int tick_hz = 1000;       // time this thread has asked to sleep; FreeRTOS ticks per second
inline thread_local vmon::Rng tl_rng{0x1234};
inline void nap(int max_us) { uint64_t x = tl_rng.next(); if (!K().jitter) return; switch (x % 4) { case 0: std::this_thread::yield(); break; case 1: std::this_thread::sleep_for(std::chrono::microseconds((x >> 8) % (uint64_t)max_us)); break; case 2: for (volatile int i = 0; i < (int)((x >> 8) % 300); i = i + 1) {} break; default: break; } }
__attribute__((no_sanitize("address", "thread"))) inline bool hdr_ok(void* mem, uint64_t id) { volatile Hdr* h = (Hdr*)mem; if (h->id != id || h->self != mem) return false; for (int i = 0; i < 14; ++i) if (h->pad[i] != id * 1000 + i) return false; return true; }
__attribute__((no_sanitize("address", "thread"))) inline void hdr_set(void* mem, uint64_t id) { volatile Hdr* h = (Hdr*)mem; h->id = id; h->self = mem; for (int i = 0; i < 14; ++i) h->pad[i] = id * 1000 + i; }
inline bool gone(const void* p, size_t n) { const char* c = (const char*)p; return __asan_address_is_poisoned(c) || __asan_address_is_poisoned(c + n - 1); }
inline bool check_obj(void* mem, uint64_t id, const char* what, const char* when) {
    if (gone(mem, sizeof(Hdr))) { vmon::violation(std::string("rtos:freed:") + what, "%s at %p was freed while the kernel still owns it (%s)", what, mem, when); return false; }
    if (!hdr_ok(mem, id)) { vmon::violation(std::string("rtos:overwritten:") + what, "%s at %p was moved or overwritten while the kernel still owns it (%s)", what, mem, when); return false; }
    return true;
}
// every call: all objects in caller memory must still be intact
inline void audit(const char* when) {
    auto& k = K(); k.calls.fetch_add(1, std::memory_order_relaxed);
    for (auto& e : k.sems) if (e.second->mem && e.second->limit == ~0u && !check_obj(e.second->mem, e.second->id, "semaphore", when)) { e.second->mem = nullptr; }
    for (auto& e : k.tasks) { auto& t = *e.second; if (t.mem && !check_obj(t.mem, t.id, "thread", when)) t.mem = nullptr;
        if (t.stack && gone(t.stack, t.stack_size)) { vmon::violation("rtos:freed:stack", "stack of a thread was freed before the thread was gone (%s)", when); t.stack = nullptr; } }
    if (Task* t = tl_task) if (t->stack) { t->stack[0] = 1; t->stack[t->stack_size - 1] = 1; t->stack[t->stack_size / 2] = 1; }
}
inline void* thread_main(void* x) {
    Task* t = (Task*)x; tl_task = t; tl_rng = vmon::Rng(t->jseed); nap(400);
    { std::lock_guard<std::mutex> g(K().m); audit("thread start"); }
    struct Fin { Task* t; ~Fin() { nap(300); std::lock_guard<std::mutex> g(K().m); audit("thread exit");
        if (t->freertos && !t->deleted_self && !t->terminated) vmon::violation("rtos:task-returned", "a FreeRTOS task function returned instead of deleting its task");
        t->finished = true; t->cv.notify_all();
        if (t->autodead) { for (auto it = K().tasks.begin(); it != K().tasks.end(); ++it) if (it->second.get() == t) { K().tasks.erase(it); break; } t->gone = true; } tl_task = nullptr; } } fin{t};
    t->entry(t->p1, t->p2, t->p3);
    return nullptr;
}
inline bool failing(int plan, int n) { return plan == -2 || plan == n; }
inline std::shared_ptr<Task> spawn(void* mem, void* stack, size_t ss, void (*entry)(void*, void*, void*), void* a, void* b, void* c, bool freertos, bool autodead) {
    auto& k = K(); auto t = std::make_shared<Task>(); bool wait;
    { std::lock_guard<std::mutex> g(k.m); audit("thread create"); t->id = k.next_id++; t->mem = mem; t->stack = (unsigned char*)stack; t->stack_size = ss; t->entry = entry; t->p1 = a; t->p2 = b; t->p3 = c; t->freertos = freertos; t->autodead = autodead; t->jseed = vmon::mix(k.seed, t->id); k.created++;
        if (mem) hdr_set(mem, t->id); void* key = mem ? mem : (void*)t.get(); if (k.tasks.count(key)) vmon::violation("rtos:recreated", "thread object created again while in use"); k.tasks[key] = t; k.all.push_back(t); wait = vmon::mix(t->jseed, 7) % 3 == 0; }
    pthread_create(&t->th, nullptr, thread_main, t.get());
    if (wait && k.jitter) { std::unique_lock<std::mutex> l(k.m); t->cv.wait_for(l, std::chrono::milliseconds(2), [&] { return t->finished; }); }   // a higher-priority task runs first
    nap(100); return t;
}
inline std::shared_ptr<Task> find_task(void* key, const char* fn) { auto it = K().tasks.find(key); if (it == K().tasks.end()) { vmon::violation(std::string("rtos:unknown-object:") + fn, "%s on an address that is no live thread", fn); return nullptr; } return it->second; }
inline std::shared_ptr<Sem> find_sem(void* key, const char* fn) { auto it = K().sems.find(key); if (it == K().sems.end()) { vmon::violation(std::string("rtos:unknown-object:") + fn, "%s on an address that is no live semaphore", fn); return nullptr; } 
    auto& s = *it->second; if (s.mem && !check_obj(s.mem, s.id, "semaphore", fn)) { s.mem = nullptr; return nullptr; } return it->second; }
inline void wait_finished(std::unique_lock<std::mutex>& l, Task& t) { t.cv.wait(l, [&] { return t.finished; }); }
inline bool sem_take(void* key, bool forever, const char* fn) { std::unique_lock<std::mutex> l(K().m); audit(fn); auto s = find_sem(key, fn); if (!s) return false; if (!forever && !s->count) return false;
    s->cv.wait(l, [&] { return s->count > 0 || s->dead; }); if (s->dead && !s->count) { vmon::violation("rtos:deleted-while-waiting", "semaphore deleted while a task waits on it"); return false; } s->count--; return true; }
inline bool sem_give(void* key, const char* fn) { nap(200); { std::unique_lock<std::mutex> l(K().m); audit(fn); auto s = find_sem(key, fn); if (!s) return false; if (s->count < s->limit) s->count++; s->cv.notify_all(); } nap(200); { std::unique_lock<std::mutex> l(K().m); if (tl_task && tl_task->stack) audit(fn); } return true; }
inline void terminated(Task& t, const char* fn) { if (t.in_body) vmon::violation(std::string("rtos:killed-running:") + fn, "%s on a task that is still executing its function", fn); t.terminated = true; }
inline void reap(Task& t) { if (!t.joined) { t.joined = true; pthread_join(t.th, nullptr); } }
// end of a case: everything must have been given back
struct Census { size_t sems, threads, unfinished; };
inline Census census() { std::lock_guard<std::mutex> g(K().m); Census c{0, 0, 0}; for (auto& e : K().sems) if (e.second->limit == ~0u) c.sems++; c.threads = 0; for (auto& e : K().tasks) if (!e.second->freertos || !e.second->deleted_self) c.threads++; for (auto& t : K().all) if (!t->finished) c.unfinished++; return c; }
inline void reset(uint64_t seed) { auto& k = K(); std::vector<std::shared_ptr<Task>> v; { std::lock_guard<std::mutex> g(k.m); v = k.all; } for (auto& t : v) reap(*t); std::lock_guard<std::mutex> g(k.m); k.sems.clear(); k.tasks.clear(); k.all.clear(); k.handles.clear(); k.fail_sem = k.fail_task = -1; k.n_sem = k.n_task = 0; k.seed = seed; k.faults = 0; k.created = 0; tl_rng = vmon::Rng(seed ^ 99); }
struct Body { Task* t = tl_task; Body() { if (t) t->in_body = true; } ~Body() { if (t) t->in_body = false; } };
} // namespace rk
