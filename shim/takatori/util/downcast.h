#pragma once
#include <boost/assert.hpp>
#include <memory>
#include <type_traits>
#include <utility>
namespace takatori::util {
namespace impl {
template<class T, class U> using copy_const_t = std::conditional_t<std::is_const_v<U>, std::add_const_t<T>, T>;
}
template<class T, class U> inline impl::copy_const_t<T, U>* downcast(U* p) noexcept {
    return dynamic_cast<impl::copy_const_t<T, U>*>(p);
}
template<class T, class U, class = std::enable_if_t<!std::is_pointer_v<std::remove_reference_t<U>>>>
inline impl::copy_const_t<T, U>& downcast(U& r) { return dynamic_cast<impl::copy_const_t<T, U>&>(r); }
template<class T, class U, class = std::enable_if_t<!std::is_reference_v<U> && !std::is_pointer_v<U>>>
inline impl::copy_const_t<T, U>&& downcast(U&& r) { return std::move(dynamic_cast<impl::copy_const_t<T, U>&>(r)); }
template<class T, class U> inline std::unique_ptr<T> downcast(std::unique_ptr<U>&& p) {
    if (auto* q = dynamic_cast<T*>(p.get())) { (void) p.release(); return std::unique_ptr<T> { q }; }
    return {};
}
template<class T, class U> inline std::shared_ptr<T> downcast(std::shared_ptr<U> const& p) { return std::dynamic_pointer_cast<T>(p); }

template<class T, class U> inline impl::copy_const_t<T, U>* unsafe_downcast(U* p) noexcept {
    BOOST_ASSERT((p == nullptr || dynamic_cast<impl::copy_const_t<T, U>*>(p) != nullptr));
    return static_cast<impl::copy_const_t<T, U>*>(p);
}
template<class T, class U, class = std::enable_if_t<!std::is_pointer_v<std::remove_reference_t<U>>>>
inline impl::copy_const_t<T, U>& unsafe_downcast(U& r) noexcept {
    BOOST_ASSERT((dynamic_cast<impl::copy_const_t<T, U>*>(std::addressof(r)) != nullptr));
    return static_cast<impl::copy_const_t<T, U>&>(r);
}
template<class T, class U, class = std::enable_if_t<!std::is_reference_v<U> && !std::is_pointer_v<U>>>
inline impl::copy_const_t<T, U>&& unsafe_downcast(U&& r) noexcept {
    BOOST_ASSERT((dynamic_cast<impl::copy_const_t<T, U>*>(std::addressof(r)) != nullptr));
    return std::move(static_cast<impl::copy_const_t<T, U>&>(r));
}
template<class T, class U> inline std::unique_ptr<T> unsafe_downcast(std::unique_ptr<U>&& p) {
    return std::unique_ptr<T> { unsafe_downcast<T>(p.release()) };
}
template<class T, class U> inline std::shared_ptr<T> unsafe_downcast(std::shared_ptr<U> const& p) { return std::static_pointer_cast<T>(p); }
} // namespace takatori::util
