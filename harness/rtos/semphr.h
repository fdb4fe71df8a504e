#pragma once
#include "FreeRTOS.h"
inline SemaphoreHandle_t xSemaphoreCreateBinary() { auto& k = rk::K(); std::lock_guard<std::mutex> g(k.m); if (rk::failing(k.fail_sem, k.n_sem++)) { k.faults++; return nullptr; } auto s = std::make_shared<rk::Sem>(); k.handles.push_back(s); k.sems[s.get()] = s; return (SemaphoreHandle_t)s.get(); }
inline void vSemaphoreDelete(SemaphoreHandle_t h) { std::lock_guard<std::mutex> g(rk::K().m); auto s = rk::find_sem((void*)h, "vSemaphoreDelete"); if (!s) return; s->dead = true; s->cv.notify_all(); rk::K().sems.erase((void*)h); }
inline BaseType_t xSemaphoreTake(SemaphoreHandle_t h, TickType_t t) { return rk::sem_take((void*)h, t == portMAX_DELAY, "xSemaphoreTake") ? pdTRUE : pdFALSE; }
inline BaseType_t xSemaphoreGive(SemaphoreHandle_t h) { return rk::sem_give((void*)h, "xSemaphoreGive") ? pdTRUE : pdFALSE; }
