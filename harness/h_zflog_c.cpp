#define ZF_LOG_LEVEL ZF_LOG_INFO
#define ZF_LOG_SRCLOC ZF_LOG_SRCLOC_SHORT
#define ZF_LOG_CENSORING ZF_LOG_UNCENSORED
#define ZF_LOG_TAG ""
#define VNS vc
#include "h_zflog_site.inc"
const Unit unit_c = {"information, place only, empty tag", 3, 1, false, "", vc::statement};
