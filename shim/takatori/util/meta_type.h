#pragma once
namespace takatori::util {
template<class T> struct meta_type { using type = T; };
template<class T> using meta_type_t = typename T::type;
} // namespace takatori::util
