#pragma once
#include <cstdlib>
#include <utility>
namespace takatori::util {
template<auto V> struct enum_tag_t { explicit constexpr enum_tag_t() = default; static constexpr auto value = V; using value_type = decltype(V); };
template<auto V> inline constexpr enum_tag_t<V> enum_tag {};
} // namespace takatori::util
