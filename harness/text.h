// included before lib.h by harnesses of code that builds log messages: numbers formatted for messages are not enumerated
#pragma once
#include "vf.h"
#include <algorithm>
#include <array>
#include <cmath>
#include <chrono>
#include <cstdio>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <numeric>
#include <queue>
#include <random>
#include <regex>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <vector>
namespace std {
template <class T> __attribute__((noinline)) inline string vf_text(T v) {
    char b[64];
    if constexpr (is_floating_point<T>::value) snprintf(b, sizeof b, "%f", (double)v); else snprintf(b, sizeof b, "%lld", (long long)v);
    return b;
}
}
#define to_string vf_text
