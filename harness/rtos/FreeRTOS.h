#pragma once
#include "rk.hpp"
typedef struct tskTaskControlBlock* TaskHandle_t; typedef struct QueueDefinition* SemaphoreHandle_t; typedef uint32_t TickType_t; typedef long BaseType_t; typedef unsigned long UBaseType_t;
#define pdPASS 1
#define pdTRUE 1
#define pdFAIL 0
#define pdFALSE 0
#define portMAX_DELAY 0xFFFFFFFFu
#define tskIDLE_PRIORITY 0
#define configTICK_RATE_HZ (rk::tick_hz)
#define pdMS_TO_TICKS(ms) ((TickType_t)(((TickType_t)(ms) * (TickType_t)configTICK_RATE_HZ) / (TickType_t)1000U))
typedef void (*TaskFunction_t)(void*);
