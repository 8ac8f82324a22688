// included first by harnesses whose characters are symbolic: the templates of the C++ library are
// instantiated (and so executed symbolically) in the harness, not taken precompiled from libstdc++
#pragma once
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <cerrno>
#include <climits>
// strtol in base 10 as the C standard defines it (engine/pass.cpp puts it in the place of the C library's)
extern "C" __attribute__((used, noinline)) long vfm_strtol(const char* s, char** end, int base) {
    const char* p = s;
    if (base != 10) { errno = EINVAL; if (end) *end = (char*)s; return 0; }
    while (*p == ' ' || (*p >= '\t' && *p <= '\r')) p++;
    bool neg = *p == '-';
    if (*p == '-' || *p == '+') p++;
    if (*p < '0' || *p > '9') { if (end) *end = (char*)s; return 0; }
    long v = 0;
    bool over = false;
    for (; *p >= '0' && *p <= '9'; p++) {
        int d = *p - '0';
        if (v > (LONG_MAX - d) / 10) over = true; else v = v * 10 + d;
    }
    if (end) *end = (char*)p;
    if (over) { errno = ERANGE; return neg ? LONG_MIN : LONG_MAX; }
    return neg ? -v : v;
}
