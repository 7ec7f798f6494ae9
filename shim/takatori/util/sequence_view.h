#pragma once
#include <array>
#include <cstddef>
#include <initializer_list>
#include <iterator>
#include <ostream>
#include <type_traits>
#include <vector>
namespace takatori::util {
template<class T>
class sequence_view {
public:
    using value_type = std::remove_cv_t<T>;
    using size_type = std::size_t;
    using difference_type = std::ptrdiff_t;
    using iterator = T*;
    using const_iterator = T*;
    using reference = T&;
    constexpr sequence_view() noexcept = default;
    constexpr sequence_view(T* p, size_type n) noexcept : first_ { p }, last_ { p + n } {}
    constexpr sequence_view(T* b, T* e) noexcept : first_ { b }, last_ { e } {}
    constexpr sequence_view(T& element) noexcept : first_ { std::addressof(element) }, last_ { first_ + 1 } {} // NOLINT
    template<class C, class = std::enable_if_t<!std::is_same_v<std::remove_cv_t<std::remove_reference_t<C>>, sequence_view>
        && std::is_convertible_v<decltype(std::declval<C&>().data()), T*>>>
    constexpr sequence_view(C&& c) noexcept : first_ { c.data() }, last_ { c.data() + c.size() } {} // NOLINT
    constexpr sequence_view(std::initializer_list<value_type> l) noexcept : first_ { l.begin() }, last_ { l.end() } {} // NOLINT
    [[nodiscard]] constexpr iterator begin() const noexcept { return first_; }
    [[nodiscard]] constexpr iterator end() const noexcept { return last_; }
    [[nodiscard]] constexpr iterator cbegin() const noexcept { return first_; }
    [[nodiscard]] constexpr iterator cend() const noexcept { return last_; }
    [[nodiscard]] constexpr T* data() const noexcept { return first_; }
    [[nodiscard]] constexpr size_type size() const noexcept { return static_cast<size_type>(last_ - first_); }
    [[nodiscard]] constexpr bool empty() const noexcept { return first_ == last_; }
    [[nodiscard]] constexpr reference operator[](size_type i) const { return first_[i]; }
    [[nodiscard]] constexpr reference at(size_type i) const { return first_[i]; }
    [[nodiscard]] constexpr reference front() const { return *first_; }
    [[nodiscard]] constexpr reference back() const { return *(last_ - 1); }
private:
    T* first_ {};
    T* last_ {};
};
template<class T> auto operator<<(std::ostream& out, sequence_view<T> const& v) -> decltype(out << *v.begin()) {
    out << "{";
    for (std::size_t i = 0; i < v.size(); ++i) { if (i) out << ", "; out << v[i]; }
    out << "}";
    return out;
}
template<class C> sequence_view(C&) -> sequence_view<std::remove_pointer_t<decltype(std::declval<C&>().data())>>;
} // namespace takatori::util
