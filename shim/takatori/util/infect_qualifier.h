#pragma once
#include <type_traits>
namespace takatori::util {
template<class From> struct infect_qualifier {
    template<class To> using type = std::conditional_t<std::is_const_v<std::remove_reference_t<From>>, To const, To>;
};
} // namespace takatori::util
