#pragma once
#include <type_traits>
namespace takatori::util {
struct nonesuch {};
namespace impl {
template<class, template<class...> class Op, class... Args>
struct detect_impl { using type = nonesuch; static constexpr bool value = false; };
template<template<class...> class Op, class... Args>
struct detect_impl<std::void_t<Op<Args...>>, Op, Args...> { using type = Op<Args...>; static constexpr bool value = true; };
} // namespace impl
template<template<class...> class Op, class... Args>
using detect_t = typename impl::detect_impl<void, Op, Args...>::type;
template<template<class...> class Op, class... Args>
struct is_detected : std::bool_constant<impl::detect_impl<void, Op, Args...>::value> {};
template<template<class...> class Op, class... Args>
inline constexpr bool is_detected_v = is_detected<Op, Args...>::value;
} // namespace takatori::util
