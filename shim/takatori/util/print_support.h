#pragma once
#include <functional>
#include <memory>
#include <optional>
#include <ostream>
#include <string>
#include <type_traits>
#include <vector>
namespace takatori::util {
template<class T>
class print_support {
public:
    explicit constexpr print_support(T const& value) noexcept : ptr_ { std::addressof(value) } {}
    T const* ptr_;
};
template<class T> print_support(T const&) -> print_support<T>;
namespace impl {
template<class T, class = void> struct is_printable : std::false_type {};
template<class T> struct is_printable<T, std::void_t<decltype(std::declval<std::ostream&>() << std::declval<T const&>())>> : std::true_type {};
template<class T, class = void> struct is_iterable : std::false_type {};
template<class T> struct is_iterable<T, std::void_t<decltype(std::declval<T const&>().begin()), decltype(std::declval<T const&>().end())>> : std::true_type {};
template<class T, class = void> struct is_deref : std::false_type {};
template<class T> struct is_deref<T, std::void_t<decltype(*std::declval<T const&>()), decltype(static_cast<bool>(std::declval<T const&>()))>> : std::true_type {};
template<class T> inline void print_any(std::ostream& out, T const& v) {
    if constexpr (is_deref<T>::value && !std::is_arithmetic_v<T> && !std::is_convertible_v<T, char const*>) {
        if (v) { print_any(out, *v); } else { out << "(null)"; }
    } else if constexpr (is_printable<T>::value) {
        out << v;
    } else if constexpr (is_iterable<T>::value) {
        out << "{"; bool cont = false;
        for (auto&& e : v) { if (cont) out << ", "; cont = true; print_any(out, e); }
        out << "}";
    } else {
        out << "?";
    }
}
} // namespace impl
template<class T> inline std::ostream& operator<<(std::ostream& out, print_support<T> const& v) { impl::print_any(out, *v.ptr_); return out; }
} // namespace takatori::util
