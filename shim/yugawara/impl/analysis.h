// Stand-in of yugawara's type analysis: infers the types of scalar expressions and of the variables which relations define.
#pragma once
#include <unordered_map>
#include "extensions.h"
namespace yugawara {
template<class Code> class diagnostic {
public:
    using code_type = Code; using message_type = std::string; using location_type = ::takatori::document::region;
    diagnostic(code_type c, message_type m, location_type l) noexcept : code_ { c }, message_ { std::move(m) }, location_ { l } {}
    [[nodiscard]] code_type code() const noexcept { return code_; }
    [[nodiscard]] message_type const& message() const noexcept { return message_; }
    [[nodiscard]] location_type const& location() const noexcept { return location_; }
    friend std::ostream& operator<<(std::ostream& out, diagnostic const& v) { return out << "diagnostic(code=" << v.code_ << ", message='" << v.message_ << "', location=" << v.location_ << ")"; }
private:
    code_type code_; message_type message_; location_type location_;
};
namespace util {
enum class ternary { no, yes, unknown };
inline std::ostream& operator<<(std::ostream& out, ternary t) { constexpr std::string_view n[] { "no", "yes", "unknown" }; return out << n[static_cast<std::size_t>(t)]; }
template<class T> class object_repository {
public:
    template<class U> std::shared_ptr<std::remove_const_t<std::remove_reference_t<U>> const> get(U&& v) {
        using V = std::remove_const_t<std::remove_reference_t<U>>;
        return std::shared_ptr<V const> { static_cast<V const*>(std::forward<U>(v).clone()) };
    }
    void clear() noexcept {}
};
} // namespace util
namespace type {
using ::takatori::type::data;
[[nodiscard]] util::ternary is_parameter_application_convertible(data const& source, data const& target) noexcept;
[[nodiscard]] shim::type_ptr unify(shim::type_ptr const& a, shim::type_ptr const& b); // or nothing, if there is no common type
} // namespace type
namespace analyzer {
enum class expression_analyzer_code { unknown, unsupported_type, ambiguous_type, inconsistent_type, unresolved_variable, inconsistent_elements, inconsistent_function_type };
inline std::ostream& operator<<(std::ostream& out, expression_analyzer_code c) {
    constexpr std::string_view n[] { "unknown", "unsupported_type", "ambiguous_type", "inconsistent_type", "unresolved_variable", "inconsistent_elements", "inconsistent_function_type" };
    return out << n[static_cast<std::size_t>(c)];
}
class variable_resolution {
public:
    variable_resolution() = default;
    variable_resolution(shim::type_ptr t) noexcept : type_ { std::move(t) } {} // NOLINT
    template<class T, class = std::enable_if_t<std::is_base_of_v<::takatori::type::data, std::remove_reference_t<T>>>>
    variable_resolution(T&& t) : type_ { std::forward<T>(t).clone() } {} // NOLINT
    variable_resolution(storage::column const& c) noexcept : type_ { c.shared_type() } {} // NOLINT
    [[nodiscard]] bool is_resolved() const noexcept { return type_ != nullptr; }
    [[nodiscard]] explicit operator bool() const noexcept { return is_resolved(); }
    [[nodiscard]] shim::type_ptr const& shared_type() const noexcept { return type_; }
private:
    shim::type_ptr type_ {};
};
class variable_mapping {
public:
    [[nodiscard]] variable_resolution find(::takatori::descriptor::variable const& v) const { auto it = m_.find(v); return it == m_.end() ? variable_resolution {} : it->second; }
    void bind(::takatori::descriptor::variable const& v, variable_resolution r, bool overwrite = false) {
        if (auto [it, ok] = m_.emplace(v, r); !ok && overwrite) it->second = std::move(r);
    }
    void unbind(::takatori::descriptor::variable const& v) { m_.erase(v); }
    void clear() noexcept { m_.clear(); }
private:
    std::unordered_map<::takatori::descriptor::variable, variable_resolution> m_ {};
};
// remembers the types by the address of the expression
class expression_mapping {
public:
    [[nodiscard]] shim::type_ptr find(::takatori::scalar::expression const& e) const { auto it = m_.find(&e); return it == m_.end() ? nullptr : it->second; }
    void bind(::takatori::scalar::expression const& e, shim::type_ptr t, bool overwrite = false) { if (auto [it, ok] = m_.emplace(&e, t); !ok && overwrite) it->second = std::move(t); }
    void unbind(::takatori::scalar::expression const& e) { m_.erase(&e); }
    void clear() noexcept { m_.clear(); }
private:
    std::unordered_map<::takatori::scalar::expression const*, shim::type_ptr> m_ {};
};
class expression_analyzer {
public:
    using code_type = expression_analyzer_code; using diagnostic_type = diagnostic<code_type>; using type_repository = util::object_repository<::takatori::type::data>;
    [[nodiscard]] expression_mapping& expressions() noexcept { return *e_; } [[nodiscard]] expression_mapping const& expressions() const noexcept { return *e_; }
    [[nodiscard]] variable_mapping& variables() noexcept { return *v_; } [[nodiscard]] variable_mapping const& variables() const noexcept { return *v_; }
    [[nodiscard]] shim::maybe_shared_ptr<expression_mapping> shared_expressions() noexcept { return e_; }
    [[nodiscard]] shim::maybe_shared_ptr<variable_mapping> shared_variables() noexcept { return v_; }
    [[nodiscard]] bool allow_unresolved() const noexcept { return allow_unresolved_; }
    expression_analyzer& allow_unresolved(bool b) noexcept { allow_unresolved_ = b; return *this; }
    [[nodiscard]] bool has_diagnostics() const noexcept { return !d_.empty(); }
    [[nodiscard]] std::vector<diagnostic_type> const& diagnostics() const noexcept { return d_; }
    void clear_diagnostics() noexcept { d_.clear(); }
    [[nodiscard]] shim::type_ptr resolve(::takatori::scalar::expression const& e, bool validate, type_repository& repo);
    [[nodiscard]] bool resolve(::takatori::relation::expression const& e, bool validate, bool recursive, type_repository& repo);
private:
    std::shared_ptr<expression_mapping> e_ { std::make_shared<expression_mapping>() }; std::shared_ptr<variable_mapping> v_ { std::make_shared<variable_mapping>() };
    std::vector<diagnostic_type> d_ {}; bool allow_unresolved_ { true };
    struct engine; friend struct engine;
};
} // namespace analyzer
class compiled_info {
public:
    compiled_info(std::shared_ptr<analyzer::expression_mapping const> e, std::shared_ptr<analyzer::variable_mapping const> v) noexcept : e_ { std::move(e) }, v_ { std::move(v) } {}
    [[nodiscard]] ::takatori::type::data const& type_of(::takatori::scalar::expression const& e) const { return *check(e_->find(e)); }
    [[nodiscard]] ::takatori::type::data const& type_of(::takatori::descriptor::variable const& v) const { return *check(v_->find(v).shared_type()); }
private:
    std::shared_ptr<analyzer::expression_mapping const> e_; std::shared_ptr<analyzer::variable_mapping const> v_;
    static shim::type_ptr check(shim::type_ptr p) { if (!p) ::takatori::util::throw_exception(std::invalid_argument("not resolved")); return p; }
};
} // namespace yugawara
