#pragma once
#include <exception>
#include <stdexcept>
#include <type_traits>
#include <utility>
namespace takatori::util {
template<class E> [[noreturn]] inline void throw_exception(E&& e) { throw std::forward<E>(e); }
} // namespace takatori::util
