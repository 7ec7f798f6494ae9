#pragma once
#include <cstddef>
#include <memory>
#include <type_traits>
#include <utility>
namespace takatori::util {
template<class T>
class rvalue_ptr {
public:
    using element_type = T;
    using pointer = T*;
    using reference = T&;
    using rvalue_reference = T&&;
    constexpr rvalue_ptr() noexcept = default;
    constexpr rvalue_ptr(std::nullptr_t) noexcept {} // NOLINT
    explicit constexpr rvalue_ptr(pointer p) noexcept : entry_ { p } {}
    constexpr rvalue_ptr(rvalue_reference r) noexcept : entry_ { std::addressof(r) } {} // NOLINT
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T*> && !std::is_same_v<U, T>>>
    constexpr rvalue_ptr(rvalue_ptr<U> const& other) noexcept : entry_ { other.get() } {} // NOLINT
    [[nodiscard]] constexpr pointer get() const noexcept { return entry_; }
    [[nodiscard]] constexpr reference value() const noexcept { return *entry_; }
    [[nodiscard]] constexpr bool has_value() const noexcept { return entry_ != nullptr; }
    [[nodiscard]] explicit constexpr operator bool() const noexcept { return entry_ != nullptr; }
    [[nodiscard]] constexpr reference operator*() const noexcept { return *entry_; }
    [[nodiscard]] constexpr pointer operator->() const noexcept { return entry_; }
private:
    pointer entry_ {};
};
template<class T> rvalue_ptr(T&&) -> rvalue_ptr<T>;
template<class T> rvalue_ptr(T*) -> rvalue_ptr<T>;
} // namespace takatori::util
