// Log statements as an application writes them; included by translation units with different settings.
// Each function is one statement per macro; Call says which one, with what, and learns where it stands.
#include "h_zflog.hpp"
#define T1(n, M) case n: c.line = __LINE__; M; break;
namespace VNS {
static void statement(Call& c) {
    c.func = __func__;
    switch (c.kind) {
#line 7 "/home/user/very/long/path/to/src/site.cpp"
    T1(0, ZF_LOG_WRITE(c.lvl, c.tag, "%s", c.arg()))
    T1(1, ZF_LOG_WRITE_MEM(c.lvl, c.tag, c.d, c.n, "%s", c.arg()))
    T1(2, ZF_LOG_WRITE_AUX(c.spec, c.lvl, c.tag, "%s", c.arg()))
    T1(3, ZF_LOG_WRITE_MEM_AUX(c.spec, c.lvl, c.tag, c.d, c.n, "%s", c.arg()))
    T1(4, ZF_LOG_WRITE(c.lvl, c.tag, "n=%d, x=%08x, f=%.3f, s=%s, 100%%", c.i, (unsigned)c.i, c.f, c.arg()))
    T1(5, ZF_LOG_WRITE(c.lvl, c.tag, "%s%s|%c", c.arg(), "", 'x'))
#line 99999 "win\\dir\\another_file_name.cxx"
    T1(6, ZF_LOGV("%s", c.arg()))
    T1(7, ZF_LOGD("%s", c.arg()))
    T1(8, ZF_LOGI("%s", c.arg()))
    T1(9, ZF_LOGW("%s", c.arg()))
    T1(10, ZF_LOGE("%s", c.arg()))
    T1(11, ZF_LOGF("%s", c.arg()))
#line 1234567890 "x.c"
    T1(12, ZF_LOGV_STR(c.arg()))
    T1(13, ZF_LOGD_STR(c.arg()))
    T1(14, ZF_LOGI_STR(c.arg()))
    T1(15, ZF_LOGW_STR(c.arg()))
    T1(16, ZF_LOGE_STR(c.arg()))
    T1(17, ZF_LOGF_STR(c.arg()))
#line 10 "dir.with.dots/a_rather_long_file_name_that_goes_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on.cpp"
    T1(18, ZF_LOGV_AUX(c.spec, "%s", c.arg()))
    T1(19, ZF_LOGD_AUX(c.spec, "%s", c.arg()))
    T1(20, ZF_LOGI_AUX(c.spec, "%s", c.arg()))
    T1(21, ZF_LOGW_AUX(c.spec, "%s", c.arg()))
    T1(22, ZF_LOGE_AUX(c.spec, "%s", c.arg()))
    T1(23, ZF_LOGF_AUX(c.spec, "%s", c.arg()))
#line 100 "mem.cpp"
    T1(24, ZF_LOGV_MEM(c.d, c.n, "%s", c.arg()))
    T1(25, ZF_LOGD_MEM(c.d, c.n, "%s", c.arg()))
    T1(26, ZF_LOGI_MEM(c.d, c.n, "%s", c.arg()))
    T1(27, ZF_LOGW_MEM(c.d, c.n, "%s", c.arg()))
    T1(28, ZF_LOGE_MEM(c.d, c.n, "%s", c.arg()))
    T1(29, ZF_LOGF_MEM(c.d, c.n, "%s", c.arg()))
#ifndef WITHOUT_VERBOSE_MEM_AUX
    T1(30, ZF_LOGV_MEM_AUX(c.spec, c.d, c.n, "%s", c.arg()))
#else
    T1(30, ZF_LOG_WRITE_MEM_AUX(c.spec, ZF_LOG_VERBOSE, _ZF_LOG_TAG, c.d, c.n, "%s", c.arg()))
#endif
    T1(31, ZF_LOGD_MEM_AUX(c.spec, c.d, c.n, "%s", c.arg()))
    T1(32, ZF_LOGI_MEM_AUX(c.spec, c.d, c.n, "%s", c.arg()))
    T1(33, ZF_LOGW_MEM_AUX(c.spec, c.d, c.n, "%s", c.arg()))
    T1(34, ZF_LOGE_MEM_AUX(c.spec, c.d, c.n, "%s", c.arg()))
    T1(35, ZF_LOGF_MEM_AUX(c.spec, c.d, c.n, "%s", c.arg()))
#line 5 "secret.cpp"
    T1(36, ZF_LOG_SECRET(ZF_LOG_WRITE(c.lvl, c.tag, "%s", c.arg())))
    T1(37, ZF_LOG_IF(c.i & 1, ZF_LOG_WRITE(c.lvl, c.tag, "%s", c.arg())))
    T1(38, if (ZF_LOG_ON(c.lvl)) c.on++)
    T1(39, if (ZF_LOG_ENABLED(c.lvl)) c.on++)
    }
}
}
