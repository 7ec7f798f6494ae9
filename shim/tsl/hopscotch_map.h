// Stand-in of tsl::hopscotch_map and hopscotch_set over the standard containers.
#pragma once
#include <initializer_list>
#include <cstddef>
#include <functional>
#include <string>
#include <string_view>
#include <unordered_map>
#include <unordered_set>
#include <utility>
namespace tsl {
namespace shim {
// converts a heterogeneous key
template<class K, class T> inline decltype(auto) as_key(T const& k) {
    if constexpr (std::is_same_v<K, T>) return static_cast<T const&>(k); else return K(k);
}
template<class K> struct hash {
    template<class H> struct with {
        std::size_t operator()(K const& k) const { return H{}(k); }
    };
};
}
template<class K, class V, class Hash = std::hash<K>, class Eq = std::equal_to<K>>
class hopscotch_map {
    using base = std::unordered_map<K, V, typename shim::hash<K>::template with<Hash>, Eq>;
    template<class It, class R> struct iter {
        using iterator_category = std::forward_iterator_tag; using value_type = std::pair<K, V>; using difference_type = std::ptrdiff_t;
        using reference = std::pair<K const, V> const&; using pointer = std::pair<K const, V> const*;
        It it {};
        iter() = default; iter(It i) : it { i } {}
        template<class I2, class R2, class = std::enable_if_t<std::is_convertible_v<I2, It>>> iter(iter<I2, R2> const& o) : it { o.it } {}
        [[nodiscard]] K const& key() const { return it->first; }
        [[nodiscard]] R& value() const { return it->second; }
        reference operator*() const { return *it; } pointer operator->() const { return &*it; }
        iter& operator++() { ++it; return *this; } iter operator++(int) { auto r = *this; ++it; return r; }
        friend bool operator==(iter const& a, iter const& b) { return a.it == b.it; } friend bool operator!=(iter const& a, iter const& b) { return a.it != b.it; }
    };
public:
    using key_type = K; using mapped_type = V; using size_type = std::size_t;
    using iterator = iter<typename base::iterator, V>; using const_iterator = iter<typename base::const_iterator, V const>;
    hopscotch_map() = default;
    explicit hopscotch_map(size_type n) : m_(n) {}
    hopscotch_map(std::initializer_list<std::pair<K const, V>> l) : m_(l) {}
    [[nodiscard]] iterator begin() { return m_.begin(); } [[nodiscard]] iterator end() { return m_.end(); }
    [[nodiscard]] const_iterator begin() const { return m_.begin(); } [[nodiscard]] const_iterator end() const { return m_.end(); }
    [[nodiscard]] const_iterator cbegin() const { return m_.begin(); } [[nodiscard]] const_iterator cend() const { return m_.end(); }
    template<class T> [[nodiscard]] iterator find(T const& k) { return m_.find(shim::as_key<K>(k)); }
    template<class T> [[nodiscard]] const_iterator find(T const& k) const { return m_.find(shim::as_key<K>(k)); }
    template<class T> [[nodiscard]] bool contains(T const& k) const { return m_.count(shim::as_key<K>(k)) != 0; }
    template<class T> [[nodiscard]] size_type count(T const& k) const { return m_.count(shim::as_key<K>(k)); }
    template<class T> [[nodiscard]] V& at(T const& k) { return m_.at(shim::as_key<K>(k)); }
    template<class T> [[nodiscard]] V const& at(T const& k) const { return m_.at(shim::as_key<K>(k)); }
    template<class T> V& operator[](T const& k) { return m_[shim::as_key<K>(k)]; }
    template<class... A> std::pair<iterator, bool> emplace(A&&... a) { auto r = m_.emplace(std::forward<A>(a)...); return { iterator { r.first }, r.second }; }
    template<class... A> std::pair<iterator, bool> try_emplace(A&&... a) { auto r = m_.try_emplace(std::forward<A>(a)...); return { iterator { r.first }, r.second }; }
    template<class T> std::pair<iterator, bool> insert(T&& v) { auto r = m_.insert(std::forward<T>(v)); return { iterator { r.first }, r.second }; }
    template<class T, class U> std::pair<iterator, bool> insert_or_assign(T&& k, U&& v) { auto r = m_.insert_or_assign(std::forward<T>(k), std::forward<U>(v)); return { iterator { r.first }, r.second }; }
    template<class T> size_type erase(T const& k) { return m_.erase(shim::as_key<K>(k)); }
    iterator erase(iterator i) { return m_.erase(i.it); }
    iterator erase(const_iterator i) { return m_.erase(i.it); }
    void reserve(size_type n) { m_.reserve(n); } void rehash(size_type n) { m_.rehash(n); } void clear() noexcept { m_.clear(); }
    [[nodiscard]] size_type size() const noexcept { return m_.size(); } [[nodiscard]] bool empty() const noexcept { return m_.empty(); }
private:
    base m_ {};
};
template<class K, class Hash = std::hash<K>, class Eq = std::equal_to<K>>
class hopscotch_set {
    using base = std::unordered_set<K, typename shim::hash<K>::template with<Hash>, Eq>;
public:
    using key_type = K; using value_type = K; using size_type = std::size_t;
    using iterator = typename base::const_iterator; using const_iterator = iterator;
    hopscotch_set() = default;
    explicit hopscotch_set(size_type n) : s_(n) {}
    hopscotch_set(std::initializer_list<K> l) : s_(l) {}
    template<class I> hopscotch_set(I b, I e) : s_(b, e) {}
    [[nodiscard]] iterator begin() const { return s_.begin(); } [[nodiscard]] iterator end() const { return s_.end(); }
    template<class T> [[nodiscard]] iterator find(T const& k) const { return s_.find(shim::as_key<K>(k)); }
    template<class T> [[nodiscard]] bool contains(T const& k) const { return s_.count(shim::as_key<K>(k)) != 0; }
    template<class T> [[nodiscard]] size_type count(T const& k) const { return s_.count(shim::as_key<K>(k)); }
    template<class... A> std::pair<iterator, bool> emplace(A&&... a) { return s_.emplace(std::forward<A>(a)...); }
    std::pair<iterator, bool> insert(K const& v) { return s_.insert(v); } std::pair<iterator, bool> insert(K&& v) { return s_.insert(std::move(v)); }
    template<class I> void insert(I b, I e) { s_.insert(b, e); }
    template<class T> size_type erase(T const& k) { return s_.erase(shim::as_key<K>(k)); }
    void reserve(size_type n) { s_.reserve(n); } void clear() noexcept { s_.clear(); }
    [[nodiscard]] size_type size() const noexcept { return s_.size(); } [[nodiscard]] bool empty() const noexcept { return s_.empty(); }
private:
    base s_ {};
};
} // namespace tsl
