#pragma once
#include <type_traits>
#include <utility>
#include "downcast.h"
namespace takatori::util {
namespace impl {
template<class T, class E> using callback_element_t = std::conditional_t<
    std::is_lvalue_reference_v<E>,
    copy_const_t<T, std::remove_reference_t<E>>&,
    copy_const_t<T, std::remove_reference_t<E>>&&>;
}
template<class T, class Callback, class E, class... Args>
inline decltype(auto) polymorphic_callback(Callback&& callback, E&& e, Args&&... args) {
    return std::forward<Callback>(callback)(static_cast<impl::callback_element_t<T, E&&>>(e), std::forward<Args>(args)...);
}
template<class T, class R, class Callback, class E, class... Args>
inline R polymorphic_callback(Callback&& callback, E&& e, Args&&... args) {
    return std::forward<Callback>(callback)(static_cast<impl::callback_element_t<T, E&&>>(e), std::forward<Args>(args)...);
}
} // namespace takatori::util
