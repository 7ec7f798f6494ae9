#pragma once
#include <memory>
#include <type_traits>
#include <utility>
namespace takatori::util {
template<class T>
class rvalue_reference_wrapper {
public:
    using type = T;
    constexpr rvalue_reference_wrapper(T&& r) noexcept : ptr_ { std::addressof(r) } {} // NOLINT
    template<class U, class = std::enable_if_t<!std::is_lvalue_reference_v<U> && std::is_convertible_v<U*, T*> && !std::is_same_v<U, T>>>
    constexpr rvalue_reference_wrapper(U&& r) noexcept : ptr_ { std::addressof(r) } {} // NOLINT
    [[nodiscard]] constexpr T&& get() const noexcept { return std::move(*ptr_); }
    [[nodiscard]] constexpr operator T&&() const noexcept { return get(); } // NOLINT
private:
    T* ptr_;
};
} // namespace takatori::util
