#define ZF_LOG_LEVEL ZF_LOG_VERBOSE
#define ZF_LOG_SRCLOC ZF_LOG_SRCLOC_LONG
#define ZF_LOG_CENSORING ZF_LOG_UNCENSORED
#define VNS va
#include "h_zflog_site.inc"
const Unit unit_a = {"all levels, function and place", 1, 2, false, nullptr, va::statement};
