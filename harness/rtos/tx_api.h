#pragma once
#include "rk.hpp"
typedef unsigned long ULONG; typedef unsigned char UCHAR; typedef unsigned int UINT; typedef char CHAR; typedef void VOID;
#define TX_SUCCESS 0x00
#define TX_DELETED 0x01
#define TX_NO_INSTANCE 0x0D
#define TX_THREAD_ERROR 0x0E
#define TX_DELETE_ERROR 0x11
#define TX_SEMAPHORE_ERROR 0x0C
#define TX_NO_WAIT 0UL
#define TX_WAIT_FOREVER 0xFFFFFFFFUL
#define TX_AUTO_START 1
#define TX_NO_TIME_SLICE 0
typedef struct TX_THREAD_STRUCT { rk::Hdr h; } TX_THREAD; typedef struct TX_SEMAPHORE_STRUCT { rk::Hdr h; } TX_SEMAPHORE;
inline UINT tx_semaphore_create(TX_SEMAPHORE* s, CHAR*, ULONG n) { auto& k = rk::K(); std::lock_guard<std::mutex> g(k.m); rk::audit("tx_semaphore_create"); if (rk::failing(k.fail_sem, k.n_sem++)) { k.faults++; return TX_SEMAPHORE_ERROR; } if (k.sems.count(s)) { vmon::violation("rtos:recreated", "semaphore created again while in use"); return TX_SEMAPHORE_ERROR; } auto x = std::make_shared<rk::Sem>(); x->count = (unsigned)n; x->id = k.next_id++; x->mem = s; rk::hdr_set(s, x->id); k.sems[s] = x; return TX_SUCCESS; }
inline UINT tx_semaphore_get(TX_SEMAPHORE* s, ULONG w) { return rk::sem_take(s, w == TX_WAIT_FOREVER, "tx_semaphore_get") ? TX_SUCCESS : TX_NO_INSTANCE; }
inline UINT tx_semaphore_put(TX_SEMAPHORE* s) { return rk::sem_give(s, "tx_semaphore_put") ? TX_SUCCESS : TX_SEMAPHORE_ERROR; }
inline UINT tx_semaphore_delete(TX_SEMAPHORE* s) { std::lock_guard<std::mutex> g(rk::K().m); rk::audit("tx_semaphore_delete"); auto x = rk::find_sem(s, "tx_semaphore_delete"); if (!x) return TX_SEMAPHORE_ERROR; x->dead = true; x->cv.notify_all(); rk::K().sems.erase(s); return TX_SUCCESS; }
inline UINT tx_thread_create(TX_THREAD* t, CHAR*, VOID (*f)(ULONG), ULONG in, VOID* st, ULONG ss, UINT, UINT, ULONG, UINT) { auto& k = rk::K(); { std::lock_guard<std::mutex> g(k.m); if (rk::failing(k.fail_task, k.n_task++)) { k.faults++; return TX_THREAD_ERROR; } } struct Tramp { static void go(void* a, void* b, void*) { ((VOID (*)(ULONG))b)((ULONG)a); } }; rk::spawn(t, st, ss, &Tramp::go, (void*)in, (void*)f, nullptr, false, false); return TX_SUCCESS; }
inline UINT tx_thread_terminate(TX_THREAD* t) { std::unique_lock<std::mutex> l(rk::K().m); rk::audit("tx_thread_terminate"); auto x = rk::find_task(t, "tx_thread_terminate"); if (!x) return TX_THREAD_ERROR; rk::terminated(*x, "tx_thread_terminate"); rk::wait_finished(l, *x); return TX_SUCCESS; }
inline UINT tx_thread_delete(TX_THREAD* t) { std::unique_lock<std::mutex> l(rk::K().m); rk::audit("tx_thread_delete"); auto x = rk::find_task(t, "tx_thread_delete"); if (!x) return TX_THREAD_ERROR; if (!x->finished) { vmon::violation("rtos:delete-running", "tx_thread_delete on a thread that is neither completed nor terminated"); return TX_DELETE_ERROR; } rk::K().tasks.erase(t); return TX_SUCCESS; }
inline void tx_thread_relinquish() { std::this_thread::yield(); }
inline UINT tx_thread_sleep(ULONG t) { rk::tl_slept += t * 1e3; std::this_thread::yield(); return TX_SUCCESS; }      // ticks of a millisecond, as the policy documents
