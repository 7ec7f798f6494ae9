#pragma once
#include <memory>
#include <type_traits>
#include <utility>
#include "clone_tag.h"
#include "rvalue_ptr.h"
#include "rvalue_reference_wrapper.h"
namespace takatori::util {
template<class T, class = void> struct is_clonable : std::false_type {};
template<class T> struct is_clonable<T, std::void_t<decltype(std::declval<T const&>().clone()), decltype(std::declval<T&&>().clone())>> : std::true_type {};
template<class T> inline constexpr bool is_clonable_v = is_clonable<T>::value;
template<class T> struct is_clone_constructible
    : std::bool_constant<std::is_constructible_v<T, clone_tag_t, T const&> && std::is_constructible_v<T, clone_tag_t, T&&>> {};
template<class T> inline constexpr bool is_clone_constructible_v = is_clone_constructible<T>::value;

template<class T> inline std::enable_if_t<is_clonable_v<T>, std::unique_ptr<T>> clone_unique(T const& obj) {
    return std::unique_ptr<T> { obj.clone() };
}
template<class T> inline std::enable_if_t<!std::is_reference_v<T> && !std::is_const_v<T> && is_clonable_v<T>, std::unique_ptr<T>> clone_unique(T&& obj) {
    return std::unique_ptr<T> { std::move(obj).clone() };
}
template<class T> inline std::enable_if_t<is_clonable_v<T>, std::unique_ptr<std::remove_const_t<T>>> clone_unique(T* ptr) {
    if (ptr == nullptr) return {};
    return std::unique_ptr<std::remove_const_t<T>> { static_cast<std::remove_const_t<T> const*>(ptr)->clone() };
}
template<class T, class D> inline std::unique_ptr<std::remove_const_t<T>> clone_unique(std::unique_ptr<T, D> const& ptr) {
    if (!ptr) return {};
    return std::unique_ptr<std::remove_const_t<T>> { static_cast<std::remove_const_t<T> const&>(*ptr).clone() };
}
template<class T, class D> inline std::unique_ptr<T> clone_unique(std::unique_ptr<T, D>&& ptr) {
    if (!ptr) return {};
    return std::unique_ptr<T> { std::move(*ptr).clone() };
}
template<class T> inline std::unique_ptr<T> clone_unique(rvalue_ptr<T> ptr) {
    if (!ptr) return {};
    return std::unique_ptr<T> { std::move(*ptr).clone() };
}
template<class T> inline std::unique_ptr<T> clone_unique(rvalue_reference_wrapper<T> r) {
    return std::unique_ptr<T> { r.get().clone() };
}
template<class T> inline std::shared_ptr<T> clone_shared(rvalue_reference_wrapper<T> r) {
    return std::shared_ptr<T> { r.get().clone() };
}
template<class T> inline std::enable_if_t<is_clonable_v<T>, std::shared_ptr<T>> clone_shared(T const& obj) {
    return std::shared_ptr<T> { obj.clone() };
}
template<class T> inline std::enable_if_t<!std::is_reference_v<T> && !std::is_const_v<T> && is_clonable_v<T>, std::shared_ptr<T>> clone_shared(T&& obj) {
    return std::shared_ptr<T> { std::move(obj).clone() };
}
template<class T> inline std::enable_if_t<is_clonable_v<T>, std::shared_ptr<std::remove_const_t<T>>> clone_shared(T* ptr) {
    if (ptr == nullptr) return {};
    return std::shared_ptr<std::remove_const_t<T>> { static_cast<std::remove_const_t<T> const*>(ptr)->clone() };
}
template<class T, class D> inline std::shared_ptr<std::remove_const_t<T>> clone_shared(std::unique_ptr<T, D> const& ptr) {
    if (!ptr) return {};
    return std::shared_ptr<std::remove_const_t<T>> { static_cast<std::remove_const_t<T> const&>(*ptr).clone() };
}
template<class T> inline std::shared_ptr<T> clone_shared(rvalue_ptr<T> ptr) {
    if (!ptr) return {};
    return std::shared_ptr<T> { std::move(*ptr).clone() };
}
} // namespace takatori::util
