#define ZF_LOG_LEVEL ZF_LOG_WARN
#define ZF_LOG_SRCLOC ZF_LOG_SRCLOC_NONE
#define ZF_LOG_CENSORING ZF_LOG_CENSORED
#define ZF_LOG_TAG "UNIT"
#define VNS vb
#include "h_zflog_site.inc"
const Unit unit_b = {"warnings, no place, tagged, censored", 4, 0, true, "UNIT", vb::statement};
