#pragma once
#include <cstdint>
#include <cstddef>
#include <initializer_list>
#include <iterator>
#include <ostream>
#include <type_traits>
namespace takatori::util {
template<class E, E First, E Last>
class enum_set {
    static constexpr std::size_t off_ = static_cast<std::size_t>(First);
    static constexpr std::size_t cap_ = static_cast<std::size_t>(Last) - off_ + 1;
public:
    using value_type = E;
    using size_type = std::size_t;
    static constexpr E min_value = First;
    static constexpr E max_value = Last;
    struct bits {
        static constexpr std::size_t n_ = (cap_ + 63) / 64;
        std::uint64_t w_[n_] {};
        [[nodiscard]] constexpr bool test(std::size_t i) const noexcept { return ((w_[i / 64] >> (i % 64)) & 1U) != 0; }
        constexpr void set(std::size_t i) noexcept { w_[i / 64] |= std::uint64_t { 1 } << (i % 64); }
        constexpr void set(std::size_t i, bool v) noexcept { if (v) set(i); else reset(i); }
        constexpr void reset(std::size_t i) noexcept { w_[i / 64] &= ~(std::uint64_t { 1 } << (i % 64)); }
        constexpr void reset() noexcept { for (auto& w : w_) w = 0; }
        [[nodiscard]] constexpr bool none() const noexcept { for (auto w : w_) if (w) return false; return true; }
        [[nodiscard]] constexpr std::size_t count() const noexcept { std::size_t r = 0; for (std::size_t i = 0; i < cap_; ++i) r += test(i) ? 1 : 0; return r; }
        constexpr bits& operator|=(bits const& o) noexcept { for (std::size_t i = 0; i < n_; ++i) w_[i] |= o.w_[i]; return *this; }
        constexpr bits& operator&=(bits const& o) noexcept { for (std::size_t i = 0; i < n_; ++i) w_[i] &= o.w_[i]; return *this; }
        [[nodiscard]] constexpr bits operator~() const noexcept { bits r {}; for (std::size_t i = 0; i < cap_; ++i) if (!test(i)) r.set(i); return r; }
        [[nodiscard]] constexpr bool operator==(bits const& o) const noexcept { for (std::size_t i = 0; i < n_; ++i) if (w_[i] != o.w_[i]) return false; return true; }
        [[nodiscard]] constexpr bool operator!=(bits const& o) const noexcept { return !(*this == o); }
    };
    constexpr enum_set() noexcept = default;
    constexpr enum_set(std::initializer_list<E> l) noexcept { for (auto e : l) bits_.set(idx(e)); }
    class reference_type {
    public:
        reference_type(enum_set* s, E e) noexcept : s_ { s }, e_ { e } {}
        reference_type& operator=(bool v) noexcept { s_->bits_.set(idx(e_), v); return *this; }
        operator bool() const noexcept { return s_->contains(e_); } // NOLINT
    private: enum_set* s_; E e_;
    };
    class iterator {
    public:
        using iterator_category = std::forward_iterator_tag; using value_type = E; using difference_type = std::ptrdiff_t; using pointer = E const*; using reference = E;
        iterator() = default;
        iterator(bits const* b, std::size_t i) noexcept : b_ { b }, i_ { i } { skip(); }
        E operator*() const noexcept { return static_cast<E>(i_ + off_); }
        iterator& operator++() noexcept { ++i_; skip(); return *this; }
        iterator operator++(int) noexcept { auto r = *this; ++*this; return r; }
        bool operator==(iterator const& o) const noexcept { return i_ == o.i_; }
        bool operator!=(iterator const& o) const noexcept { return i_ != o.i_; }
    private: void skip() noexcept { while (i_ < cap_ && !b_->test(i_)) ++i_; } bits const* b_ {}; std::size_t i_ {};
    };
    using const_iterator = iterator;
    [[nodiscard]] constexpr bool contains(E e) const noexcept { auto i = idx(e); return i < cap_ && bits_.test(i); }
    [[nodiscard]] constexpr bool operator[](E e) const noexcept { return contains(e); }
    [[nodiscard]] reference_type operator[](E e) noexcept { return { this, e }; }
    [[nodiscard]] constexpr bool empty() const noexcept { return bits_.none(); }
    [[nodiscard]] constexpr size_type size() const noexcept { return bits_.count(); }
    [[nodiscard]] static constexpr size_type capacity() noexcept { return cap_; }
    template<class... T> constexpr enum_set& insert(T... e) noexcept { (bits_.set(idx(e)), ...); return *this; }
    template<class... T> constexpr enum_set& erase(T... e) noexcept { (bits_.reset(idx(e)), ...); return *this; }
    enum_set& insert(enum_set const& o) noexcept { bits_ |= o.bits_; return *this; }
    enum_set& erase(enum_set const& o) noexcept { bits_ &= ~o.bits_; return *this; }
    enum_set& clear() noexcept { bits_.reset(); return *this; }
    constexpr enum_set& operator|=(enum_set const& o) noexcept { bits_ |= o.bits_; return *this; }
    constexpr enum_set& operator&=(enum_set const& o) noexcept { bits_ &= o.bits_; return *this; }
    enum_set& operator+=(enum_set const& o) noexcept { bits_ |= o.bits_; return *this; }
    enum_set& operator-=(enum_set const& o) noexcept { bits_ &= ~o.bits_; return *this; }
    enum_set& operator+=(E e) noexcept { bits_.set(idx(e)); return *this; }
    enum_set& operator-=(E e) noexcept { bits_.reset(idx(e)); return *this; }
    [[nodiscard]] iterator begin() const noexcept { return { &bits_, 0 }; }
    [[nodiscard]] iterator end() const noexcept { return { &bits_, cap_ }; }
    friend bool operator==(enum_set const& a, enum_set const& b) noexcept { return a.bits_ == b.bits_; }
    friend bool operator!=(enum_set const& a, enum_set const& b) noexcept { return a.bits_ != b.bits_; }
    friend constexpr enum_set operator|(enum_set a, enum_set const& b) noexcept { return a |= b; }
    friend constexpr enum_set operator&(enum_set a, enum_set const& b) noexcept { return a &= b; }
    friend constexpr enum_set operator-(enum_set a, enum_set const& b) noexcept { return a &= ~b; }
    friend constexpr enum_set operator+(enum_set a, enum_set const& b) noexcept { return a |= b; }
    friend constexpr enum_set operator~(enum_set a) noexcept { a.bits_ = ~a.bits_; return a; }
    friend std::ostream& operator<<(std::ostream& out, enum_set const& v) {
        out << "{"; bool c = false; for (auto e : v) { if (c) out << ", "; c = true; out << e; } return out << "}";
    }
private:
    static constexpr std::size_t idx(E e) noexcept { return static_cast<std::size_t>(e) - off_; }
    bits bits_ {};
};
template<class E, E First, E Last> inline constexpr int enum_set_dummy_ = 0;
} // namespace takatori::util
