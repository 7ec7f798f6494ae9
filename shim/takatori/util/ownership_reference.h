#pragma once
#include <functional>
#include <memory>
#include <type_traits>
#include <utility>
namespace takatori::util {
template<class T>
class ownership_reference {
public:
    using element_type = T;
    ownership_reference() = default;
    using getter_t = std::function<T*()>;
    using owner_t = std::unique_ptr<std::remove_const_t<T>>;
    using setter_t = std::function<owner_t(owner_t)>; // replaces the element, and returns the old one
    ownership_reference(getter_t g, setter_t s) : get_ { std::move(g) }, set_ { std::move(s) } {}
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, std::remove_const_t<T>*>>>
    explicit ownership_reference(std::unique_ptr<U>& p) : get_ { [&p]() -> T* { return p.get(); } } {
        if constexpr (std::is_same_v<U, std::remove_const_t<T>>) {
            set_ = [&p](owner_t q) { std::swap(p, q); return q; };
        }
    }
    template<class U> ownership_reference(ownership_reference<U> const& o, std::enable_if_t<std::is_convertible_v<U*, T*>>* = nullptr) // NOLINT
        : get_ { [o]() -> T* { return o.find().get(); } } {}
    [[nodiscard]] T& get() const { return *get_(); }
    [[nodiscard]] T& operator*() const { return *get_(); }
    [[nodiscard]] T* operator->() const { return get_(); }
    struct optptr { T* p; T* get() const { return p; } };
    [[nodiscard]] optptr find() const { return { get_ ? get_() : nullptr }; }
    [[nodiscard]] explicit operator bool() const { return get_ && get_() != nullptr; }
    void set(owner_t v) { (void) set_(std::move(v)); }
    [[nodiscard]] owner_t exchange(owner_t v) { return set_(std::move(v)); }
    ownership_reference& operator=(owner_t v) { (void) set_(std::move(v)); return *this; }
private:
    getter_t get_ {};
    setter_t set_ {};
};
template<class U> ownership_reference(std::unique_ptr<U>&) -> ownership_reference<U>;
} // namespace takatori::util
