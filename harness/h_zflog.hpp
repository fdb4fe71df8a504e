#pragma once
#include "zf_log.h"
struct Call {
    int kind = 0, lvl = 3, i = 0; const char* tag = nullptr; const char* s = ""; const void* d = nullptr; unsigned n = 0; const zf_log_spec* spec = nullptr; double f = 0;
    const char* func = nullptr; unsigned line = 0; int evals = 0, on = 0;
    const char* arg() { evals++; return s; }
};
struct Unit { const char* name; int level, srcloc; bool censored; const char* tag; void (*statement)(Call&); };
extern const Unit unit_a, unit_b, unit_c;
