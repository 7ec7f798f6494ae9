#pragma once
#include <cstddef>
#include <functional>
namespace takatori::util {
template<class... T> inline std::size_t hash(T const&... v) {
    std::size_t r = 17; ((r = r * 31 + std::hash<T>{}(v)), ...); return r;
}
} // namespace takatori::util
