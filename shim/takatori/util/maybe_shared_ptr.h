#pragma once
#include <functional>
#include <memory>
#include <ostream>
#include <type_traits>
#include <utility>
#include "optional_ptr.h"
namespace takatori::util {
template<class T>
class maybe_shared_ptr {
public:
    using element_type = T;
    using pointer = T*;
    constexpr maybe_shared_ptr() noexcept = default;
    constexpr maybe_shared_ptr(std::nullptr_t) noexcept {} // NOLINT
    explicit maybe_shared_ptr(pointer p) noexcept : ptr_ { p } {}
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>>
    maybe_shared_ptr(std::shared_ptr<U> p) noexcept : shared_ { std::move(p) } { ptr_ = shared_.get(); } // NOLINT
    template<class U, class D, class = std::enable_if_t<std::is_convertible_v<U*, T*>>>
    maybe_shared_ptr(std::unique_ptr<U, D> p) : shared_ { std::move(p) } { ptr_ = shared_.get(); } // NOLINT
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>>
    maybe_shared_ptr(maybe_shared_ptr<U> const& o) noexcept : shared_ { o.ownership() }, ptr_ { o.get() } {} // NOLINT
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>>
    explicit maybe_shared_ptr(optional_ptr<U> o) noexcept : ptr_ { o.get() } {}
    [[nodiscard]] pointer get() const noexcept { return ptr_; }
    [[nodiscard]] T& operator*() const noexcept { return *ptr_; }
    [[nodiscard]] pointer operator->() const noexcept { return ptr_; }
    [[nodiscard]] explicit operator bool() const noexcept { return ptr_ != nullptr; }
    [[nodiscard]] bool owner() const noexcept { return static_cast<bool>(shared_); }
    [[nodiscard]] std::shared_ptr<T> const& ownership() const noexcept { return shared_; }
    [[nodiscard]] std::shared_ptr<T> shared() const noexcept {
        if (shared_) return shared_;
        return std::shared_ptr<T> { std::shared_ptr<T> {}, ptr_ };
    }
    void reset() noexcept { shared_.reset(); ptr_ = nullptr; }
private:
    std::shared_ptr<T> shared_ {};
    pointer ptr_ {};
};
template<class T> maybe_shared_ptr(std::shared_ptr<T>) -> maybe_shared_ptr<T>;
template<class T> maybe_shared_ptr(T*) -> maybe_shared_ptr<T>;
template<class T, class U> inline bool operator==(maybe_shared_ptr<T> const& a, maybe_shared_ptr<U> const& b) noexcept { return a.get() == b.get(); }
template<class T, class U> inline bool operator!=(maybe_shared_ptr<T> const& a, maybe_shared_ptr<U> const& b) noexcept { return a.get() != b.get(); }
template<class T> inline bool operator==(maybe_shared_ptr<T> const& a, std::nullptr_t) noexcept { return !a; }
template<class T> inline bool operator!=(maybe_shared_ptr<T> const& a, std::nullptr_t) noexcept { return static_cast<bool>(a); }
template<class T> inline std::ostream& operator<<(std::ostream& out, maybe_shared_ptr<T> const& v) { return out << (v ? "(pointer)" : "(null)"); }
} // namespace takatori::util
template<class T> struct std::hash<takatori::util::maybe_shared_ptr<T>> {
    std::size_t operator()(takatori::util::maybe_shared_ptr<T> const& o) const noexcept { return std::hash<T*>{}(o.get()); }
};
