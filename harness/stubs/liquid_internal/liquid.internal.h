// Stand-in for liquid-dsp's private header: what the modem uses from it beyond the public header is only the error macro.
#pragma once
#include "liquid.h"
int liquid_error_fl(int code, const char* file, int line, const char* format, ...);
#define liquid_error(code, ...) liquid_error_fl(code, __FILE__, __LINE__, __VA_ARGS__)
