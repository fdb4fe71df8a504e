#pragma once
#include "../rk.hpp"
struct k_thread { rk::Hdr h; }; struct k_sem { rk::Hdr h; }; typedef struct k_thread* k_tid_t; struct __attribute__((aligned(1))) z_stack_el { char data; }; typedef struct z_stack_el k_thread_stack_t;
struct k_timeout_t { int64_t ticks; };
#define K_FOREVER (k_timeout_t{-1})
#define K_NO_WAIT (k_timeout_t{0})
typedef void (*k_thread_entry_t)(void*, void*, void*);
inline int k_sem_init(struct k_sem* s, unsigned n, unsigned lim) { auto& k = rk::K(); std::lock_guard<std::mutex> g(k.m); auto x = std::make_shared<rk::Sem>(); x->count = n; x->limit = lim; x->id = k.next_id++; x->mem = s; rk::hdr_set(s, x->id); k.sems[s] = x; return 0; }
inline int k_sem_take(struct k_sem* s, k_timeout_t t) { return rk::sem_take(s, t.ticks == -1, "k_sem_take") ? 0 : -11; }
inline void k_sem_give(struct k_sem* s) { rk::sem_give(s, "k_sem_give"); }
inline void k_sem_reset(struct k_sem* s) { std::lock_guard<std::mutex> g(rk::K().m); auto x = rk::find_sem(s, "k_sem_reset"); if (x) x->count = 0; }
inline k_tid_t k_thread_create(struct k_thread* t, k_thread_stack_t* st, size_t ss, k_thread_entry_t f, void* a, void* b, void* c, int, uint32_t, k_timeout_t) { rk::spawn(t, st, ss, f, a, b, c, false, true); return t; }
// a finished thread is no longer known to the kernel; joining or aborting it is then allowed while its k_thread is still allocated
inline int k_thread_join(struct k_thread* t, k_timeout_t w) { std::unique_lock<std::mutex> l(rk::K().m); rk::audit("k_thread_join"); if (rk::gone(t, sizeof *t)) { vmon::violation("rtos:freed:thread", "k_thread_join on freed memory"); return -1; } auto it = rk::K().tasks.find(t); if (it == rk::K().tasks.end()) { for (auto& x : rk::K().all) if (x->mem == (void*)t) return 0; vmon::violation("rtos:unknown-object:k_thread_join", "k_thread_join on an address that is no thread"); return -1; } auto x = it->second; if (w.ticks == 0 && !x->finished) return -16; rk::wait_finished(l, *x); return 0; }
inline void k_thread_abort(k_tid_t t) { std::unique_lock<std::mutex> l(rk::K().m); rk::audit("k_thread_abort"); auto it = rk::K().tasks.find(t); if (it == rk::K().tasks.end()) { for (auto& x : rk::K().all) if (x->mem == (void*)t) return; vmon::violation("rtos:unknown-object:k_thread_abort", "k_thread_abort on an address that is no thread"); return; } auto x = it->second; rk::terminated(*x, "k_thread_abort"); rk::wait_finished(l, *x); }
inline void k_yield() { std::this_thread::yield(); }
inline int32_t k_usleep(int32_t us) { rk::tl_slept += us; std::this_thread::sleep_for(std::chrono::microseconds(us % 50)); return 0; }
inline int32_t k_msleep(int32_t) { std::this_thread::yield(); return 0; }
