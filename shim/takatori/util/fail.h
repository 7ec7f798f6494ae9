#pragma once
#include <cstdlib>
#include <cstdio>
#include <string_view>
namespace takatori::util {
[[noreturn]] inline void fail() { std::abort(); }
[[noreturn]] inline void fail(std::string_view m) { std::fprintf(stderr, "%.*s\n", static_cast<int>(m.size()), m.data()); std::abort(); }
} // namespace takatori::util
