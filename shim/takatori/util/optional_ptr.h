#pragma once
#include <functional>
#include <memory>
#include <optional>
#include <ostream>
#include <stdexcept>
#include <type_traits>
#include <utility>
#include "exception.h"
namespace takatori::util {
template<class T>
class optional_ptr {
public:
    using value_type = T;
    using element_type = T;
    using reference = T&;
    using pointer = T*;
    constexpr optional_ptr() noexcept = default;
    constexpr optional_ptr(std::nullptr_t) noexcept {} // NOLINT
    constexpr optional_ptr(std::nullopt_t) noexcept {} // NOLINT
    explicit constexpr optional_ptr(pointer p) noexcept : entry_ { p } {}
    constexpr optional_ptr(reference r) noexcept : entry_ { std::addressof(r) } {} // NOLINT
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T*> && !std::is_same_v<U, T>>>
    constexpr optional_ptr(optional_ptr<U> const& other) noexcept : entry_ { other.get() } {} // NOLINT
    optional_ptr& operator=(std::nullptr_t) noexcept { entry_ = nullptr; return *this; }
    optional_ptr& operator=(reference r) noexcept { entry_ = std::addressof(r); return *this; }
    [[nodiscard]] constexpr pointer get() const noexcept { return entry_; }
    [[nodiscard]] reference value() const {
        if (entry_ == nullptr) throw_exception(std::logic_error("optional_ptr is empty"));
        return *entry_;
    }
    template<class U> [[nodiscard]] U value_or(U&& u) const { if (entry_) return *entry_; return std::forward<U>(u); }
    [[nodiscard]] reference operator*() const { return value(); }
    [[nodiscard]] pointer operator->() const { return std::addressof(value()); }
    [[nodiscard]] constexpr bool has_value() const noexcept { return entry_ != nullptr; }
    [[nodiscard]] explicit constexpr operator bool() const noexcept { return entry_ != nullptr; }
    void reset() noexcept { entry_ = nullptr; }
    void reset(reference r) noexcept { entry_ = std::addressof(r); }
    void reset(pointer p) noexcept { entry_ = p; }
    void swap(optional_ptr& other) noexcept { std::swap(entry_, other.entry_); }
private:
    pointer entry_ {};
};
template<class T> optional_ptr(T&) -> optional_ptr<T>;
template<class T> optional_ptr(T*) -> optional_ptr<T>;
template<class T, class U> inline bool operator==(optional_ptr<T> const& a, optional_ptr<U> const& b) noexcept { return a.get() == b.get(); }
template<class T, class U> inline bool operator!=(optional_ptr<T> const& a, optional_ptr<U> const& b) noexcept { return a.get() != b.get(); }
template<class T> struct is_optional_ptr : std::false_type {};
template<class T> struct is_optional_ptr<optional_ptr<T>> : std::true_type {};
template<class T, class U, class = std::enable_if_t<!is_optional_ptr<U>::value && !std::is_same_v<U, std::nullptr_t>>, class = decltype(std::declval<T const&>() == std::declval<U const&>())>
inline bool operator==(optional_ptr<T> const& a, U const& b) { return a && *a == b; }
template<class T, class U, class = std::enable_if_t<!is_optional_ptr<U>::value && !std::is_same_v<U, std::nullptr_t>>, class = decltype(std::declval<T const&>() == std::declval<U const&>())>
inline bool operator!=(optional_ptr<T> const& a, U const& b) { return !(a == b); }
template<class T> inline bool operator==(optional_ptr<T> const& a, std::nullptr_t) noexcept { return !a; }
template<class T> inline bool operator!=(optional_ptr<T> const& a, std::nullptr_t) noexcept { return static_cast<bool>(a); }
template<class T> inline bool operator==(std::nullptr_t, optional_ptr<T> const& a) noexcept { return !a; }
template<class T> inline bool operator!=(std::nullptr_t, optional_ptr<T> const& a) noexcept { return static_cast<bool>(a); }
template<class T> inline std::ostream& operator<<(std::ostream& out, optional_ptr<T> const& v) { if (v) return out << *v; return out << "(empty)"; }
} // namespace takatori::util
template<class T> struct std::hash<takatori::util::optional_ptr<T>> {
    std::size_t operator()(takatori::util::optional_ptr<T> const& o) const noexcept { return std::hash<T*>{}(o.get()); }
};
