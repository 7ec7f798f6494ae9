// Common plumbing of the stand-in: a polymorphic value that can be cloned and compared.
#pragma once
#include <cstdint>
#include <functional>
#include <memory>
#include <optional>
#include <ostream>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>
#include "../document/region.h"
#include "../util/clonable.h"
#include "../util/clone_tag.h"
#include "../util/downcast.h"
#include "../util/enum_set.h"
#include "../util/exception.h"
#include "../util/fail.h"
#include "../util/maybe_shared_ptr.h"
#include "../util/optional_ptr.h"
#include "../util/ownership_reference.h"
#include "../util/print_support.h"
#include "../util/reference_vector.h"
#include "../util/rvalue_ptr.h"
#include "../util/sequence_view.h"
#include "../util/string_builder.h"

#define SHIM_CLONE(T) \
    [[nodiscard]] T* clone() const& override { return new T(*this); } \
    [[nodiscard]] T* clone() && override { return new T(std::move(*this)); }

#define SHIM_ENUM(name, ...) \
    enum class name { __VA_ARGS__ }; \
    inline std::string_view to_string_view(name v) noexcept { return ::takatori::shim::nth_name(#__VA_ARGS__, static_cast<std::size_t>(v)); } \
    inline std::ostream& operator<<(std::ostream& out, name v) { return out << to_string_view(v); }

namespace takatori::shim {
// the n-th name of a comma separated list
inline std::string_view nth_name(std::string_view names, std::size_t n) noexcept {
    for (; n > 0; --n) { auto p = names.find(','); if (p == std::string_view::npos) return "?"; names.remove_prefix(p + 1); }
    while (!names.empty() && names.front() == ' ') names.remove_prefix(1);
    return names.substr(0, names.find(','));
}
// prints any enum through its to_string_view found by ADL
template<class T> struct opt_print { T const& v; };
template<class T> std::ostream& operator<<(std::ostream& out, opt_print<T> const& p) {
    if (p.v) return out << *p.v;
    return out << "()";
}
} // namespace takatori::shim
