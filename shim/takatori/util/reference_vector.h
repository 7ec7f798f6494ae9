#pragma once
#include <cstddef>
#include <initializer_list>
#include <iterator>
#include <memory>
#include <ostream>
#include <type_traits>
#include <utility>
#include <vector>
#include "clonable.h"
#include "ownership_reference.h"
#include "rvalue_reference_wrapper.h"
namespace takatori::util {
template<class T>
class reference_vector {
    using store = std::vector<std::unique_ptr<T>>;
    template<bool C>
    class iter {
    public:
        using iterator_category = std::random_access_iterator_tag;
        using value_type = T;
        using difference_type = std::ptrdiff_t;
        using reference = std::conditional_t<C, T const&, T&>;
        using pointer = std::conditional_t<C, T const*, T*>;
        using base = std::conditional_t<C, typename store::const_iterator, typename store::iterator>;
        iter() = default;
        explicit iter(base b) noexcept : b_ { b } {}
        template<bool D, class = std::enable_if_t<C && !D>> iter(iter<D> const& o) noexcept : b_ { o.b_ } {} // NOLINT
        reference operator*() const { return **b_; }
        pointer operator->() const { return b_->get(); }
        reference operator[](difference_type n) const { return *b_[n]; }
        iter& operator++() { ++b_; return *this; }
        iter operator++(int) { auto r = *this; ++b_; return r; }
        iter& operator--() { --b_; return *this; }
        iter operator--(int) { auto r = *this; --b_; return r; }
        iter& operator+=(difference_type n) { b_ += n; return *this; }
        iter& operator-=(difference_type n) { b_ -= n; return *this; }
        friend iter operator+(iter a, difference_type n) { return a += n; }
        friend iter operator-(iter a, difference_type n) { return a -= n; }
        friend difference_type operator-(iter const& a, iter const& b) { return a.b_ - b.b_; }
        friend bool operator==(iter const& a, iter const& b) { return a.b_ == b.b_; }
        friend bool operator!=(iter const& a, iter const& b) { return a.b_ != b.b_; }
        friend bool operator<(iter const& a, iter const& b) { return a.b_ < b.b_; }
        base b_ {};
    };
public:
    using value_type = T;
    using size_type = std::size_t;
    using reference = T&;
    using const_reference = T const&;
    using iterator = iter<false>;
    using const_iterator = iter<true>;
    reference_vector() = default;
    ~reference_vector() = default;
    reference_vector(reference_vector const& o) { assign(o); }
    reference_vector(reference_vector&&) noexcept = default;
    reference_vector& operator=(reference_vector const& o) { if (this != &o) { elements_.clear(); assign(o); } return *this; }
    reference_vector& operator=(reference_vector&&) noexcept = default;
    reference_vector(clone_tag_t, reference_vector const& o) { assign(o); }
    reference_vector(clone_tag_t, reference_vector&& o) noexcept : elements_ { std::move(o.elements_) } {}
    reference_vector(std::initializer_list<rvalue_reference_wrapper<T>> l) { // NOLINT
        for (auto&& e : l) elements_.emplace_back(clone_unique(e));
    }
    explicit reference_vector(store elements) noexcept : elements_ { std::move(elements) } {}
    [[nodiscard]] bool empty() const noexcept { return elements_.empty(); }
    [[nodiscard]] size_type size() const noexcept { return elements_.size(); }
    [[nodiscard]] size_type capacity() const noexcept { return elements_.capacity(); }
    void reserve(size_type n) { elements_.reserve(n); }
    void clear() noexcept { elements_.clear(); }
    [[nodiscard]] reference operator[](size_type i) { return *elements_[i]; }
    [[nodiscard]] const_reference operator[](size_type i) const { return *elements_[i]; }
    [[nodiscard]] reference at(size_type i) { return *elements_.at(i); }
    [[nodiscard]] const_reference at(size_type i) const { return *elements_.at(i); }
    [[nodiscard]] reference front() { return *elements_.front(); }
    [[nodiscard]] const_reference front() const { return *elements_.front(); }
    [[nodiscard]] reference back() { return *elements_.back(); }
    [[nodiscard]] const_reference back() const { return *elements_.back(); }
    [[nodiscard]] iterator begin() noexcept { return iterator { elements_.begin() }; }
    [[nodiscard]] iterator end() noexcept { return iterator { elements_.end() }; }
    [[nodiscard]] const_iterator begin() const noexcept { return const_iterator { elements_.begin() }; }
    [[nodiscard]] const_iterator end() const noexcept { return const_iterator { elements_.end() }; }
    [[nodiscard]] const_iterator cbegin() const noexcept { return begin(); }
    [[nodiscard]] const_iterator cend() const noexcept { return end(); }
    reference push_back(std::unique_ptr<T> e) { elements_.emplace_back(std::move(e)); return *elements_.back(); }
    reference push_back(T const& e) { return push_back(clone_unique(e)); }
    template<class U = T, class... A> U& emplace_back(A&&... a) {
        auto p = std::make_unique<U>(std::forward<A>(a)...); auto& r = *p; elements_.emplace_back(std::move(p)); return r;
    }
    void pop_back() { elements_.pop_back(); }
    iterator erase(const_iterator p) { return iterator { elements_.erase(p.b_) }; }
    [[nodiscard]] std::unique_ptr<T> release(const_iterator p) {
        auto i = p.b_ - static_cast<store const&>(elements_).begin();
        auto r = std::move(elements_[static_cast<size_type>(i)]);
        elements_.erase(elements_.begin() + i);
        return r;
    }
    [[nodiscard]] store release_elements() { return std::exchange(elements_, {}); }
    void assign_elements(store s) { elements_ = std::move(s); }
    [[nodiscard]] std::unique_ptr<T> exchange(const_iterator p, std::unique_ptr<T> r) {
        auto i = p.b_ - static_cast<store const&>(elements_).begin();
        std::swap(elements_[static_cast<size_type>(i)], r);
        return r;
    }
    [[nodiscard]] ownership_reference<T> ownership(iterator p) {
        return ownership_reference<T> { *p.b_ };
    }
    friend bool operator==(reference_vector const& a, reference_vector const& b) {
        if (a.size() != b.size()) return false;
        for (size_type i = 0; i < a.size(); ++i) if (!(a[i] == b[i])) return false;
        return true;
    }
    friend bool operator!=(reference_vector const& a, reference_vector const& b) { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, reference_vector const& v) {
        out << "["; bool c = false; for (auto&& e : v) { if (c) out << ", "; c = true; out << e; } return out << "]";
    }
private:
    store elements_ {};
    void assign(reference_vector const& o) { elements_.reserve(o.size()); for (auto&& e : o.elements_) elements_.emplace_back(clone_unique(*e)); }
};
} // namespace takatori::util
