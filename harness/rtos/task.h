#pragma once
#include "FreeRTOS.h"
inline BaseType_t xTaskCreate(TaskFunction_t f, const char*, uint32_t, void* p, UBaseType_t, TaskHandle_t* h) {
    auto& k = rk::K(); { std::lock_guard<std::mutex> g(k.m); if (rk::failing(k.fail_task, k.n_task++)) { k.faults++; return -1; } }
    if (h) *h = (TaskHandle_t)(uintptr_t)0x11; // FreeRTOS writes the handle before the task may run
    struct Tramp { static void go(void* a, void* b, void*) { ((TaskFunction_t)b)(a); } };
    auto t = rk::spawn(nullptr, nullptr, 0, &Tramp::go, p, (void*)f, nullptr, true, false); if (h) *h = (TaskHandle_t)t.get(); return pdPASS;
}
inline void vTaskDelete(TaskHandle_t h) {
    if (!h) { if (!rk::tl_task) { vmon::violation("rtos:delete-outside", "vTaskDelete(NULL) outside a task"); return; } { std::lock_guard<std::mutex> g(rk::K().m); rk::audit("vTaskDelete"); if (rk::tl_task->in_body) vmon::violation("rtos:delete-in-body", "task deleted before its function returned"); rk::tl_task->deleted_self = true; } pthread_exit(nullptr); }
    std::unique_lock<std::mutex> l(rk::K().m); auto t = rk::find_task((void*)h, "vTaskDelete"); if (!t) return; if (t->deleted_self || t->finished) { vmon::violation("rtos:double-delete", "vTaskDelete on a task that already deleted itself"); return; } rk::terminated(*t, "vTaskDelete"); rk::wait_finished(l, *t); t->deleted_self = true;
}
inline void vTaskDelay(TickType_t t) { rk::tl_slept += t * (1e6 / rk::tick_hz); std::this_thread::yield(); }
inline void taskYIELD() { std::this_thread::yield(); }
