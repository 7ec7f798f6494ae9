// Stand-in of takatori::scalar: scalar expressions of the intermediate representation.
#pragma once
#include "../descriptor/shim_descriptors.h"
#include "../impl/object.h"
#include "../type/shim_types.h"
#include "../value/shim_values.h"
namespace takatori::scalar {
enum class expression_kind { immediate, variable_reference, unary, cast, binary, compare, match, conditional, coalesce, let, function_call, extension };
inline constexpr std::string_view to_string_view(expression_kind k) noexcept {
    constexpr std::string_view n[] { "immediate", "variable_reference", "unary", "cast", "binary", "compare", "match", "conditional", "coalesce", "let", "function_call", "extension" };
    return n[static_cast<std::size_t>(k)];
}
inline std::ostream& operator<<(std::ostream& out, expression_kind k) { return out << to_string_view(k); }
SHIM_ENUM(unary_operator, plus, sign_inversion, conditional_not, length, is_null, is_true, is_false, is_unknown)
SHIM_ENUM(binary_operator, concat, add, subtract, multiply, divide, remainder, conditional_and, conditional_or)
SHIM_ENUM(comparison_operator, equal, not_equal, less, less_equal, greater, greater_equal)
SHIM_ENUM(match_operator, like, similar)
SHIM_ENUM(quantifier, all, any)
SHIM_ENUM(cast_loss_policy, ignore, floor, ceil, unknown, warn, error, implicit)

class expression {
public:
    using tag_type = expression_kind;
    expression() = default;
    virtual ~expression() = default;
    expression(expression const&) = default; expression& operator=(expression const&) = default;
    expression(expression&&) = default; expression& operator=(expression&&) = default;
    [[nodiscard]] virtual expression_kind kind() const noexcept = 0;
    [[nodiscard]] virtual expression* clone() const& = 0;
    [[nodiscard]] virtual expression* clone() && = 0;
    [[nodiscard]] ::takatori::document::region& region() noexcept { return region_; }
    [[nodiscard]] ::takatori::document::region const& region() const noexcept { return region_; }
    friend bool operator==(expression const& a, expression const& b) { return &a == &b || (a.kind() == b.kind() && a.equals(b)); }
    friend bool operator!=(expression const& a, expression const& b) { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, expression const& v) { return v.print(out); }
protected:
    [[nodiscard]] virtual bool equals(expression const&) const = 0;
    virtual std::ostream& print(std::ostream& out) const = 0;
private:
    ::takatori::document::region region_ {};
};
// an owned child, copied deeply with its parent
class child {
public:
    child() = default;
    child(std::nullptr_t) noexcept {} // NOLINT
    template<class T, class = std::enable_if_t<std::is_convertible_v<T*, expression*>>>
    child(std::unique_ptr<T> p) noexcept : p_ { std::move(p) } {} // NOLINT
    template<class T, class = std::enable_if_t<!std::is_lvalue_reference_v<T> && !std::is_const_v<T> && std::is_base_of_v<expression, T>>>
    child(T&& e) : p_ { std::move(e).clone() } {} // NOLINT
    child(child const& o) : p_ { o.p_ ? o.p_->clone() : nullptr } {}
    child& operator=(child const& o) { p_.reset(o.p_ ? o.p_->clone() : nullptr); return *this; }
    child(child&&) noexcept = default;
    child& operator=(child&&) noexcept = default;
    ~child() = default;
    [[nodiscard]] expression& operator*() noexcept { return *p_; }
    [[nodiscard]] expression const& operator*() const noexcept { return *p_; }
    [[nodiscard]] explicit operator bool() const noexcept { return p_ != nullptr; }
    [[nodiscard]] std::unique_ptr<expression>& ptr() noexcept { return p_; }
    [[nodiscard]] expression* get() noexcept { return p_.get(); }
    [[nodiscard]] expression const* get() const noexcept { return p_.get(); }
    friend bool operator==(child const& a, child const& b) { return a.p_ && b.p_ ? *a.p_ == *b.p_ : a.p_ == b.p_; }
    friend bool operator!=(child const& a, child const& b) { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, child const& c) { if (c.p_) return out << *c.p_; return out << "()"; }
private:
    std::unique_ptr<expression> p_ {};
};
#define SHIM_CHILD(name) \
    [[nodiscard]] ::takatori::scalar::expression& name() noexcept { return *name##_; } \
    [[nodiscard]] ::takatori::scalar::expression const& name() const noexcept { return *name##_; } \
    [[nodiscard]] ::takatori::util::optional_ptr<::takatori::scalar::expression> optional_##name() noexcept { return ::takatori::util::optional_ptr<::takatori::scalar::expression> { name##_.get() }; } \
    [[nodiscard]] ::takatori::util::optional_ptr<::takatori::scalar::expression const> optional_##name() const noexcept { return ::takatori::util::optional_ptr<::takatori::scalar::expression const> { name##_.get() }; } \
    [[nodiscard]] ::takatori::util::ownership_reference<::takatori::scalar::expression> ownership_##name() { return ::takatori::util::ownership_reference<::takatori::scalar::expression> { name##_.ptr() }; } \
    auto& name(std::unique_ptr<::takatori::scalar::expression> v) { name##_ = std::move(v); return *this; } \
    [[nodiscard]] std::unique_ptr<::takatori::scalar::expression> release_##name() noexcept { return std::move(name##_.ptr()); }
template<expression_kind K> class node : public expression {
public:
    static constexpr expression_kind tag = K;
    [[nodiscard]] expression_kind kind() const noexcept override { return K; }
};
// an immutable object given either as a shared pointer, or as a temporary
template<class T> class shared_arg {
public:
    shared_arg(std::nullptr_t = nullptr) noexcept {} // NOLINT
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T const*>>> shared_arg(std::shared_ptr<U> p) noexcept : p_ { std::move(p) } {} // NOLINT
    template<class U, class = std::enable_if_t<std::is_base_of_v<T, std::remove_reference_t<U>>>, class = void>
    shared_arg(U&& v) : p_ { std::forward<U>(v).clone() } {} // NOLINT
    [[nodiscard]] std::shared_ptr<T const> get() && noexcept { return std::move(p_); }
private:
    std::shared_ptr<T const> p_ {};
};
using type_arg = shared_arg<::takatori::type::data>;
using value_arg = shared_arg<::takatori::value::data>;

class immediate : public node<expression_kind::immediate> {
public:
    SHIM_CLONE(immediate)
    immediate(value_arg value, type_arg type) noexcept : value_ { std::move(value).get() }, type_ { std::move(type).get() } {}
    [[nodiscard]] ::takatori::value::data const& value() const noexcept { return *value_; }
    [[nodiscard]] ::takatori::type::data const& type() const noexcept { return *type_; }
    [[nodiscard]] std::shared_ptr<::takatori::value::data const> const& shared_value() const noexcept { return value_; }
    [[nodiscard]] std::shared_ptr<::takatori::type::data const> const& shared_type() const noexcept { return type_; }
    [[nodiscard]] ::takatori::util::optional_ptr<::takatori::value::data const> optional_value() const noexcept { return ::takatori::util::optional_ptr<::takatori::value::data const> { value_.get() }; }
protected:
    [[nodiscard]] bool equals(expression const& o) const override { auto& b = static_cast<immediate const&>(o); return *value_ == *b.value_ && *type_ == *b.type_; }
    std::ostream& print(std::ostream& out) const override { return out << "immediate(" << *value_ << ", " << *type_ << ")"; }
private:
    std::shared_ptr<::takatori::value::data const> value_; std::shared_ptr<::takatori::type::data const> type_;
};
class variable_reference : public node<expression_kind::variable_reference> {
public:
    SHIM_CLONE(variable_reference)
    explicit variable_reference(::takatori::descriptor::variable v) noexcept : variable_ { std::move(v) } {}
    [[nodiscard]] ::takatori::descriptor::variable& variable() noexcept { return variable_; }
    [[nodiscard]] ::takatori::descriptor::variable const& variable() const noexcept { return variable_; }
protected:
    [[nodiscard]] bool equals(expression const& o) const override { return variable_ == static_cast<variable_reference const&>(o).variable_; }
    std::ostream& print(std::ostream& out) const override { return out << variable_; }
private:
    ::takatori::descriptor::variable variable_;
};
class unary : public node<expression_kind::unary> {
public:
    SHIM_CLONE(unary)
    using operator_kind_type = unary_operator;
    unary(operator_kind_type k, child operand) noexcept : kind_ { k }, operand_ { std::move(operand) } {}
    [[nodiscard]] operator_kind_type operator_kind() const noexcept { return kind_; }
    SHIM_CHILD(operand)
protected:
    [[nodiscard]] bool equals(expression const& o) const override { auto& b = static_cast<unary const&>(o); return kind_ == b.kind_ && operand_ == b.operand_; }
    std::ostream& print(std::ostream& out) const override { return out << kind_ << "(" << operand_ << ")"; }
private:
    operator_kind_type kind_; child operand_;
};
class cast : public node<expression_kind::cast> {
public:
    SHIM_CLONE(cast)
    using loss_policy_type = cast_loss_policy;
    cast(type_arg type, loss_policy_type p, child operand) noexcept : type_ { std::move(type).get() }, policy_ { p }, operand_ { std::move(operand) } {}
    [[nodiscard]] ::takatori::type::data const& type() const noexcept { return *type_; }
    [[nodiscard]] std::shared_ptr<::takatori::type::data const> const& shared_type() const noexcept { return type_; }
    [[nodiscard]] loss_policy_type loss_policy() const noexcept { return policy_; }
    SHIM_CHILD(operand)
protected:
    [[nodiscard]] bool equals(expression const& o) const override { auto& b = static_cast<cast const&>(o); return *type_ == *b.type_ && policy_ == b.policy_ && operand_ == b.operand_; }
    std::ostream& print(std::ostream& out) const override { return out << "cast(" << *type_ << ", " << policy_ << ", " << operand_ << ")"; }
private:
    std::shared_ptr<::takatori::type::data const> type_; loss_policy_type policy_; child operand_;
};
template<class D, expression_kind K, class Op> class dyadic : public node<K> {
public:
    using operator_kind_type = Op;
    dyadic(Op k, child left, child right) noexcept : kind_ { k }, left_ { std::move(left) }, right_ { std::move(right) } {}
    [[nodiscard]] Op operator_kind() const noexcept { return kind_; }
    SHIM_CHILD(left)
    SHIM_CHILD(right)
protected:
    [[nodiscard]] bool equals(expression const& o) const override { auto& b = static_cast<dyadic const&>(o); return kind_ == b.kind_ && left_ == b.left_ && right_ == b.right_; }
    std::ostream& print(std::ostream& out) const override { return out << kind_ << "(" << left_ << ", " << right_ << ")"; }
private:
    Op kind_; child left_; child right_;
};
class binary : public dyadic<binary, expression_kind::binary, binary_operator> { public: using dyadic::dyadic; SHIM_CLONE(binary) };
class compare : public dyadic<compare, expression_kind::compare, comparison_operator> { public: using dyadic::dyadic; SHIM_CLONE(compare) };
class match : public node<expression_kind::match> {
public:
    SHIM_CLONE(match)
    using operator_kind_type = match_operator;
    match(operator_kind_type k, child input, child pattern, child escape) noexcept : kind_ { k }, input_ { std::move(input) }, pattern_ { std::move(pattern) }, escape_ { std::move(escape) } {}
    [[nodiscard]] operator_kind_type operator_kind() const noexcept { return kind_; }
    SHIM_CHILD(input)
    SHIM_CHILD(pattern)
    SHIM_CHILD(escape)
protected:
    [[nodiscard]] bool equals(expression const& o) const override { auto& b = static_cast<match const&>(o); return kind_ == b.kind_ && input_ == b.input_ && pattern_ == b.pattern_ && escape_ == b.escape_; }
    std::ostream& print(std::ostream& out) const override { return out << kind_ << "(" << input_ << ", " << pattern_ << ", " << escape_ << ")"; }
private:
    operator_kind_type kind_; child input_; child pattern_; child escape_;
};
class conditional : public node<expression_kind::conditional> {
public:
    SHIM_CLONE(conditional)
    class alternative {
    public:
        alternative(child condition, child body) noexcept : condition_ { std::move(condition) }, body_ { std::move(body) } {}
        SHIM_CHILD(condition)
        SHIM_CHILD(body)
        friend bool operator==(alternative const& a, alternative const& b) { return a.condition_ == b.condition_ && a.body_ == b.body_; }
        friend std::ostream& operator<<(std::ostream& out, alternative const& v) { return out << "when " << v.condition_ << " then " << v.body_; }
    private:
        child condition_; child body_;
    };
    explicit conditional(std::vector<alternative> alternatives, child default_expression = {}) noexcept
        : alternatives_ { std::move(alternatives) }, default_expression_ { std::move(default_expression) } {}
    [[nodiscard]] std::vector<alternative>& alternatives() noexcept { return alternatives_; }
    [[nodiscard]] std::vector<alternative> const& alternatives() const noexcept { return alternatives_; }
    [[nodiscard]] ::takatori::util::optional_ptr<expression> default_expression() noexcept { return ::takatori::util::optional_ptr<expression> { default_expression_.get() }; }
    [[nodiscard]] ::takatori::util::optional_ptr<expression const> default_expression() const noexcept { return ::takatori::util::optional_ptr<expression const> { default_expression_.get() }; }
    [[nodiscard]] ::takatori::util::ownership_reference<expression> ownership_default_expression() { return ::takatori::util::ownership_reference<expression> { default_expression_.ptr() }; }
protected:
    [[nodiscard]] bool equals(expression const& o) const override { auto& b = static_cast<conditional const&>(o); return alternatives_ == b.alternatives_ && default_expression_ == b.default_expression_; }
    std::ostream& print(std::ostream& out) const override { return out << "conditional(" << ::takatori::util::print_support { alternatives_ } << ", " << default_expression_ << ")"; }
private:
    std::vector<alternative> alternatives_; child default_expression_;
};
class coalesce : public node<expression_kind::coalesce> {
public:
    SHIM_CLONE(coalesce)
    explicit coalesce(::takatori::util::reference_vector<expression> alternatives) noexcept : alternatives_ { std::move(alternatives) } {}
    [[nodiscard]] ::takatori::util::reference_vector<expression>& alternatives() noexcept { return alternatives_; }
    [[nodiscard]] ::takatori::util::reference_vector<expression> const& alternatives() const noexcept { return alternatives_; }
protected:
    [[nodiscard]] bool equals(expression const& o) const override { return alternatives_ == static_cast<coalesce const&>(o).alternatives_; }
    std::ostream& print(std::ostream& out) const override { return out << "coalesce" << alternatives_; }
private:
    ::takatori::util::reference_vector<expression> alternatives_;
};
namespace details {
class let_variable {
public:
    let_variable(::takatori::descriptor::variable v, child value) noexcept : variable_ { std::move(v) }, value_ { std::move(value) } {}
    [[nodiscard]] ::takatori::descriptor::variable& variable() noexcept { return variable_; }
    [[nodiscard]] ::takatori::descriptor::variable const& variable() const noexcept { return variable_; }
    SHIM_CHILD(value)
    friend bool operator==(let_variable const& a, let_variable const& b) { return a.variable_ == b.variable_ && a.value_ == b.value_; }
    friend std::ostream& operator<<(std::ostream& out, let_variable const& v) { return out << v.variable_ << "=" << v.value_; }
private:
    ::takatori::descriptor::variable variable_; child value_;
};
} // namespace details
class let : public node<expression_kind::let> {
public:
    SHIM_CLONE(let)
    using variable = details::let_variable;
    let(variable v, child body) : body_ { std::move(body) } { variables_.emplace_back(std::move(v)); }
    let(std::vector<variable> vs, child body) noexcept : variables_ { std::move(vs) }, body_ { std::move(body) } {}
    [[nodiscard]] std::vector<variable>& variables() noexcept { return variables_; }
    [[nodiscard]] std::vector<variable> const& variables() const noexcept { return variables_; }
    SHIM_CHILD(body)
protected:
    [[nodiscard]] bool equals(expression const& o) const override { auto& b = static_cast<let const&>(o); return variables_ == b.variables_ && body_ == b.body_; }
    std::ostream& print(std::ostream& out) const override { return out << "let(" << ::takatori::util::print_support { variables_ } << ", " << body_ << ")"; }
private:
    std::vector<variable> variables_; child body_;
};
class function_call : public node<expression_kind::function_call> {
public:
    SHIM_CLONE(function_call)
    explicit function_call(::takatori::descriptor::function f, ::takatori::util::reference_vector<expression> args = {}) noexcept
        : function_ { std::move(f) }, arguments_ { std::move(args) } {}
    [[nodiscard]] ::takatori::descriptor::function& function() noexcept { return function_; }
    [[nodiscard]] ::takatori::descriptor::function const& function() const noexcept { return function_; }
    [[nodiscard]] ::takatori::util::reference_vector<expression>& arguments() noexcept { return arguments_; }
    [[nodiscard]] ::takatori::util::reference_vector<expression> const& arguments() const noexcept { return arguments_; }
protected:
    [[nodiscard]] bool equals(expression const& o) const override { auto& b = static_cast<function_call const&>(o); return function_ == b.function_ && arguments_ == b.arguments_; }
    std::ostream& print(std::ostream& out) const override { return out << "function_call(" << function_ << arguments_ << ")"; }
private:
    ::takatori::descriptor::function function_; ::takatori::util::reference_vector<expression> arguments_;
};
class extension : public node<expression_kind::extension> {
public:
    using extension_id_type = std::size_t;
    [[nodiscard]] virtual extension_id_type extension_id() const noexcept = 0;
    [[nodiscard]] extension* clone() const& override = 0;
    [[nodiscard]] extension* clone() && override = 0;
protected:
    [[nodiscard]] bool equals(expression const& o) const override {
        auto& b = static_cast<extension const&>(o); return extension_id() == b.extension_id() && equals(b);
    }
    [[nodiscard]] virtual bool equals(extension const&) const = 0;
};

template<class Callback, class E, class... Args>
inline decltype(auto) dispatch(Callback&& cb, E&& elem, Args&&... args) {
    using B = std::conditional_t<std::is_const_v<std::remove_reference_t<E>>, expression const, expression>;
    B& e = elem;
#define SHIM_AS(T) static_cast<std::conditional_t<std::is_const_v<B>, T const, T>&>(e)
    switch (e.kind()) {
        case expression_kind::immediate: return cb(SHIM_AS(immediate), std::forward<Args>(args)...);
        case expression_kind::variable_reference: return cb(SHIM_AS(variable_reference), std::forward<Args>(args)...);
        case expression_kind::unary: return cb(SHIM_AS(unary), std::forward<Args>(args)...);
        case expression_kind::cast: return cb(SHIM_AS(cast), std::forward<Args>(args)...);
        case expression_kind::binary: return cb(SHIM_AS(binary), std::forward<Args>(args)...);
        case expression_kind::compare: return cb(SHIM_AS(compare), std::forward<Args>(args)...);
        case expression_kind::match: return cb(SHIM_AS(match), std::forward<Args>(args)...);
        case expression_kind::conditional: return cb(SHIM_AS(conditional), std::forward<Args>(args)...);
        case expression_kind::coalesce: return cb(SHIM_AS(coalesce), std::forward<Args>(args)...);
        case expression_kind::let: return cb(SHIM_AS(let), std::forward<Args>(args)...);
        case expression_kind::function_call: return cb(SHIM_AS(function_call), std::forward<Args>(args)...);
        case expression_kind::extension: return cb(SHIM_AS(extension), std::forward<Args>(args)...);
    }
    ::takatori::util::fail();
}

namespace details {
template<class C, class E> inline bool walk_one(C& c, E& e) {
    if constexpr (std::is_invocable_v<C&, E&>) {
        if constexpr (std::is_same_v<decltype(c(e)), bool>) { return c(e); } else { c(e); return true; }
    } else { return true; }
}
} // namespace details
// visits the expression tree in pre-order; the callback answers whether to go into the operands
template<class C, class E> inline void walk(C&& c, E&& e) {
    dispatch([&](auto& x) -> void {
        if (!details::walk_one(c, x)) return;
        using T = std::remove_const_t<std::remove_reference_t<decltype(x)>>;
        if constexpr (std::is_same_v<T, unary> || std::is_same_v<T, cast>) { walk(c, x.operand()); }
        else if constexpr (std::is_same_v<T, binary> || std::is_same_v<T, compare>) { walk(c, x.left()); walk(c, x.right()); }
        else if constexpr (std::is_same_v<T, match>) { walk(c, x.input()); walk(c, x.pattern()); walk(c, x.escape()); }
        else if constexpr (std::is_same_v<T, conditional>) {
            for (auto&& a : x.alternatives()) { walk(c, a.condition()); walk(c, a.body()); }
            if (x.default_expression()) walk(c, *x.default_expression());
        }
        else if constexpr (std::is_same_v<T, coalesce>) { for (auto&& a : x.alternatives()) walk(c, a); }
        else if constexpr (std::is_same_v<T, let>) { for (auto&& v : x.variables()) walk(c, v.value()); walk(c, x.body()); }
        else if constexpr (std::is_same_v<T, function_call>) { for (auto&& a : x.arguments()) walk(c, a); }
    }, e);
}
} // namespace takatori::scalar
