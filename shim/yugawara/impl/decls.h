// Stand-in of the catalog side of yugawara: declarations, and the providers which hold them.
#pragma once
#include <functional>
#include <initializer_list>
#include <map>
#include <limits>
#include <takatori/relation/shim_relations.h>
#include <takatori/util/rvalue_reference_wrapper.h>
namespace yugawara {
namespace shim {
using ::takatori::util::maybe_shared_ptr;
using ::takatori::util::optional_ptr;
using type_ptr = std::shared_ptr<::takatori::type::data const>;
using value_ptr = std::shared_ptr<::takatori::value::data const>;
using type_list = std::initializer_list<::takatori::util::rvalue_reference_wrapper<::takatori::type::data>>;
inline std::vector<type_ptr> share(type_list l) {
    std::vector<type_ptr> r; for (auto&& t : l) r.emplace_back(static_cast<::takatori::type::data&&>(t).clone()); return r;
}
inline bool same_types(std::vector<type_ptr> const& a, std::vector<type_ptr> const& b) {
    if (a.size() != b.size()) return false;
    for (std::size_t i = 0; i < a.size(); ++i) if (*a[i] != *b[i]) return false;
    return true;
}
} // namespace shim

namespace variable {
class nullity {
public:
    constexpr explicit nullity(bool v) noexcept : v_ { v } {}
    [[nodiscard]] constexpr bool nullable() const noexcept { return v_; }
    [[nodiscard]] constexpr nullity operator~() const noexcept { return nullity { !v_ }; }
    friend constexpr bool operator==(nullity a, nullity b) noexcept { return a.v_ == b.v_; }
    friend constexpr bool operator!=(nullity a, nullity b) noexcept { return a.v_ != b.v_; }
    friend std::ostream& operator<<(std::ostream& out, nullity v) { return out << (v.v_ ? "NULL" : "NOT NULL"); }
private:
    bool v_;
};
inline constexpr nullity nullable { true };
class criteria {
public:
    constexpr criteria() noexcept = default;
    constexpr criteria(class ::yugawara::variable::nullity n) noexcept : nullity_ { n } {} // NOLINT
    [[nodiscard]] constexpr ::yugawara::variable::nullity nullity() const noexcept { return nullity_; }
    criteria& nullity(::yugawara::variable::nullity n) noexcept { nullity_ = n; return *this; }
    friend constexpr bool operator==(criteria a, criteria b) noexcept { return a.nullity_ == b.nullity_; }
    friend constexpr bool operator!=(criteria a, criteria b) noexcept { return a.nullity_ != b.nullity_; }
    friend std::ostream& operator<<(std::ostream& out, criteria v) { return out << v.nullity_; }
private:
    class ::yugawara::variable::nullity nullity_ { nullable };
};
class declaration {
public:
    declaration(std::string name, ::takatori::scalar::type_arg type, criteria c = {}, std::string description = {})
        : name_ { std::move(name) }, type_ { std::move(type).get() }, criteria_ { c }, description_ { std::move(description) } {}
    [[nodiscard]] std::string_view name() const noexcept { return name_; }
    [[nodiscard]] ::takatori::type::data const& type() const noexcept { return *type_; }
    [[nodiscard]] ::takatori::util::optional_ptr<::takatori::type::data const> optional_type() const noexcept { return ::takatori::util::optional_ptr<::takatori::type::data const> { type_.get() }; }
    [[nodiscard]] shim::type_ptr const& shared_type() const noexcept { return type_; }
    [[nodiscard]] class ::yugawara::variable::criteria const& criteria() const noexcept { return criteria_; }
    [[nodiscard]] std::string const& description() const noexcept { return description_; }
    [[nodiscard]] explicit operator bool() const noexcept { return type_ != nullptr; }
    friend bool operator==(declaration const& a, declaration const& b) { return a.name_ == b.name_ && (a.type_ && b.type_ ? *a.type_ == *b.type_ : a.type_ == b.type_); }
    friend bool operator!=(declaration const& a, declaration const& b) { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, declaration const& v) { return out << v.name_; }
private:
    std::string name_; shim::type_ptr type_; class ::yugawara::variable::criteria criteria_; std::string description_;
};
class provider {
public:
    virtual ~provider() = default;
    [[nodiscard]] virtual std::shared_ptr<declaration const> find(std::string_view name) const = 0;
};
class configurable_provider : public provider {
public:
    explicit configurable_provider(shim::maybe_shared_ptr<provider const> parent = {}) noexcept : parent_ { std::move(parent) } {}
    [[nodiscard]] std::shared_ptr<declaration const> find(std::string_view name) const override {
        if (auto it = m_.find(name); it != m_.end()) return it->second;
        if (parent_) return parent_->find(name);
        return {};
    }
    std::shared_ptr<declaration> const& add(std::shared_ptr<declaration> d, bool overwrite = false) {
        auto& e = m_[std::string { d->name() }];
        if (e && !overwrite) ::takatori::util::throw_exception(std::invalid_argument("already exists"));
        return e = std::move(d);
    }
    std::shared_ptr<declaration> const& add(declaration&& d, bool overwrite = false) { return add(std::make_shared<declaration>(std::move(d)), overwrite); }
private:
    shim::maybe_shared_ptr<provider const> parent_; std::map<std::string, std::shared_ptr<declaration>, std::less<>> m_ {};
};
} // namespace variable

namespace function {
enum class function_feature { scalar_function, table_valued_function };
inline std::ostream& operator<<(std::ostream& out, function_feature f) { return out << (f == function_feature::scalar_function ? "scalar_function" : "table_valued_function"); }
using function_feature_set = ::takatori::util::enum_set<function_feature, function_feature::scalar_function, function_feature::table_valued_function>;
class declaration {
public:
    using definition_id_type = std::size_t; using type_list_view = std::vector<shim::type_ptr>;
    static constexpr definition_id_type unresolved_definition_id = 0, minimum_system_function_id = 1, minimum_builtin_function_id = 10'000, minimum_user_function_id = 20'000;
    declaration(definition_id_type id, std::string name, ::takatori::scalar::type_arg ret, std::vector<shim::type_ptr> params,
            function_feature_set features = { function_feature::scalar_function }, std::string description = {})
        : id_ { id }, name_ { std::move(name) }, return_ { std::move(ret).get() }, params_ { std::move(params) }, features_ { features }, description_ { std::move(description) } {}
    declaration(definition_id_type id, std::string name, ::takatori::scalar::type_arg ret, shim::type_list params,
            function_feature_set features = { function_feature::scalar_function }, std::string description = {})
        : declaration { id, std::move(name), std::move(ret), shim::share(params), features, std::move(description) } {}
    [[nodiscard]] bool is_defined() const noexcept { return return_ != nullptr; }
    [[nodiscard]] explicit operator bool() const noexcept { return is_defined(); }
    [[nodiscard]] definition_id_type definition_id() const noexcept { return id_; }
    [[nodiscard]] std::string_view name() const noexcept { return name_; }
    [[nodiscard]] ::takatori::type::data const& return_type() const noexcept { return *return_; }
    [[nodiscard]] shim::type_ptr const& shared_return_type() const noexcept { return return_; }
    [[nodiscard]] std::vector<shim::type_ptr>& shared_parameter_types() noexcept { return params_; }
    [[nodiscard]] std::vector<shim::type_ptr> const& shared_parameter_types() const noexcept { return params_; }
    [[nodiscard]] function_feature_set& features() noexcept { return features_; }
    [[nodiscard]] function_feature_set const& features() const noexcept { return features_; }
    [[nodiscard]] std::string const& description() const noexcept { return description_; }
    friend bool operator==(declaration const& a, declaration const& b) {
        if (a.id_ >= minimum_user_function_id || a.id_ != b.id_) { if (a.id_ != b.id_) return false; }
        return a.name_ == b.name_ && *a.return_ == *b.return_ && shim::same_types(a.params_, b.params_);
    }
    friend bool operator!=(declaration const& a, declaration const& b) { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, declaration const& v) { return out << v.name_; }
private:
    definition_id_type id_; std::string name_; shim::type_ptr return_; std::vector<shim::type_ptr> params_; function_feature_set features_; std::string description_;
};
} // namespace function
namespace aggregate {
class declaration {
public:
    using definition_id_type = std::size_t;
    static constexpr definition_id_type unresolved_definition_id = 0, minimum_system_function_id = 1, minimum_builtin_function_id = 10'000, minimum_user_function_id = 20'000;
    static constexpr std::string_view name_suffix_distinct { "$distinct" };
    declaration(definition_id_type id, std::string name, ::takatori::scalar::type_arg ret, std::vector<shim::type_ptr> params, bool incremental = false, std::string description = {})
        : id_ { id }, name_ { std::move(name) }, return_ { std::move(ret).get() }, params_ { std::move(params) }, incremental_ { incremental }, description_ { std::move(description) } {}
    declaration(definition_id_type id, std::string name, ::takatori::scalar::type_arg ret, shim::type_list params, bool incremental = false, std::string description = {})
        : declaration { id, std::move(name), std::move(ret), shim::share(params), incremental, std::move(description) } {}
    [[nodiscard]] bool is_defined() const noexcept { return return_ != nullptr; }
    [[nodiscard]] explicit operator bool() const noexcept { return is_defined(); }
    [[nodiscard]] definition_id_type definition_id() const noexcept { return id_; }
    [[nodiscard]] std::string_view name() const noexcept { return name_; }
    [[nodiscard]] ::takatori::type::data const& return_type() const noexcept { return *return_; }
    [[nodiscard]] shim::type_ptr const& shared_return_type() const noexcept { return return_; }
    [[nodiscard]] std::vector<shim::type_ptr>& shared_parameter_types() noexcept { return params_; }
    [[nodiscard]] std::vector<shim::type_ptr> const& shared_parameter_types() const noexcept { return params_; }
    [[nodiscard]] bool incremental() const noexcept { return incremental_; }
    [[nodiscard]] std::string const& description() const noexcept { return description_; }
    friend bool operator==(declaration const& a, declaration const& b) {
        return a.id_ == b.id_ && a.name_ == b.name_ && *a.return_ == *b.return_ && shim::same_types(a.params_, b.params_);
    }
    friend bool operator!=(declaration const& a, declaration const& b) { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, declaration const& v) { return out << v.name_; }
private:
    definition_id_type id_; std::string name_; shim::type_ptr return_; std::vector<shim::type_ptr> params_; bool incremental_; std::string description_;
};
} // namespace aggregate
namespace shim {
// overloads in the order they were added
template<class D> class functions {
public:
    using consumer_type = std::function<void(std::shared_ptr<D const> const&)>;
    virtual ~functions() = default;
    virtual void each(consumer_type const& consumer) const = 0;
    virtual void each(std::string_view name, std::size_t parameter_count, consumer_type const& consumer) const = 0;
};
template<class D> class configurable_functions : public functions<D> {
public:
    using consumer_type = typename functions<D>::consumer_type;
    explicit configurable_functions(maybe_shared_ptr<functions<D> const> parent = {}) noexcept : parent_ { std::move(parent) } {}
    void each(consumer_type const& c) const override { for (auto&& d : v_) c(d); if (parent_) parent_->each(c); }
    void each(std::string_view name, std::size_t n, consumer_type const& c) const override {
        for (auto&& d : v_) if (d->name() == name && d->shared_parameter_types().size() == n) c(d);
        if (parent_) parent_->each(name, n, c);
    }
    std::shared_ptr<D> const& add(std::shared_ptr<D> d, bool = false) { return v_.emplace_back(std::move(d)); }
    std::shared_ptr<D> const& add(D&& d, bool o = false) { return add(std::make_shared<D>(std::move(d)), o); }
private:
    maybe_shared_ptr<functions<D> const> parent_; std::vector<std::shared_ptr<D>> v_ {};
};
} // namespace shim
namespace function { using provider = shim::functions<declaration>; using configurable_provider = shim::configurable_functions<declaration>; }
namespace aggregate { using provider = shim::functions<declaration>; using configurable_provider = shim::configurable_functions<declaration>; }

namespace storage {
class provider; class relation; class table; class index;
enum class relation_kind { table, view };
inline std::ostream& operator<<(std::ostream& out, relation_kind k) { return out << (k == relation_kind::table ? "table" : "view"); }
class sequence {
public:
    using definition_id_type = std::size_t; using value_type = std::int64_t;
    static constexpr value_type default_initial_value = 0, default_increment_value = 1, default_min_value = 0, default_max_value = std::numeric_limits<value_type>::max();
    static constexpr bool default_cycle = true;
    sequence(std::optional<definition_id_type> id, std::string name, value_type initial = default_initial_value, value_type increment = default_increment_value,
            value_type min = default_min_value, value_type max = default_max_value, bool cycle = default_cycle, std::string description = {})
        : id_ { id }, name_ { std::move(name) }, initial_ { initial }, increment_ { increment }, min_ { min }, max_ { max }, cycle_ { cycle }, description_ { std::move(description) } {}
    [[nodiscard]] std::optional<definition_id_type> definition_id() const noexcept { return id_; }
    [[nodiscard]] std::string_view simple_name() const noexcept { return name_; }
    [[nodiscard]] value_type initial_value() const noexcept { return initial_; }
    [[nodiscard]] value_type increment_value() const noexcept { return increment_; }
    [[nodiscard]] value_type min_value() const noexcept { return min_; }
    [[nodiscard]] value_type max_value() const noexcept { return max_; }
    [[nodiscard]] bool cycle() const noexcept { return cycle_; }
    [[nodiscard]] std::string const& description() const noexcept { return description_; }
    friend std::ostream& operator<<(std::ostream& out, sequence const& v) { return out << "sequence(" << v.name_ << ")"; }
private:
    std::optional<definition_id_type> id_; std::string name_; value_type initial_, increment_, min_, max_; bool cycle_; std::string description_;
};
enum class column_value_kind { nothing, immediate, function, sequence };
inline std::ostream& operator<<(std::ostream& out, column_value_kind k) {
    constexpr std::string_view n[] { "nothing", "immediate", "function", "sequence" }; return out << n[static_cast<std::size_t>(k)];
}
class column_value {
public:
    column_value(std::nullptr_t = nullptr) noexcept {} // NOLINT
    column_value(shim::value_ptr v) noexcept : v_ { std::move(v) } {} // NOLINT
    template<class T, class = std::enable_if_t<!std::is_lvalue_reference_v<T> && std::is_base_of_v<::takatori::value::data, T>>>
    column_value(T&& v) : v_ { shim::value_ptr { std::move(v).clone() } } {} // NOLINT
    column_value(std::shared_ptr<::yugawara::function::declaration const> f) noexcept : v_ { std::move(f) } {} // NOLINT
    column_value(std::shared_ptr<::yugawara::function::declaration> f) noexcept : v_ { std::shared_ptr<::yugawara::function::declaration const> { std::move(f) } } {} // NOLINT
    column_value(std::shared_ptr<::yugawara::storage::sequence const> s) noexcept : v_ { std::move(s) } {} // NOLINT
    column_value(std::shared_ptr<::yugawara::storage::sequence> s) noexcept : v_ { std::shared_ptr<::yugawara::storage::sequence const> { std::move(s) } } {} // NOLINT
    [[nodiscard]] column_value_kind kind() const noexcept { return static_cast<column_value_kind>(v_.index()); }
    template<column_value_kind K> [[nodiscard]] auto const& element() const { return std::get<static_cast<std::size_t>(K)>(v_); }
    [[nodiscard]] explicit operator bool() const noexcept { return v_.index() != 0; }
    friend bool operator==(column_value const& a, column_value const& b) {
        if (a.v_.index() != b.v_.index()) return false;
        if (a.v_.index() == 1) return *std::get<1>(a.v_) == *std::get<1>(b.v_);
        if (a.v_.index() == 2) return *std::get<2>(a.v_) == *std::get<2>(b.v_);
        return a.v_ == b.v_;
    }
    friend bool operator!=(column_value const& a, column_value const& b) { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, column_value const& v) {
        if (v.v_.index() == 1) return out << *std::get<1>(v.v_);
        return out << v.kind();
    }
private:
    std::variant<std::monostate, shim::value_ptr, std::shared_ptr<::yugawara::function::declaration const>, std::shared_ptr<::yugawara::storage::sequence const>> v_ {};
};
enum class column_feature { synthesized, hidden, read_only };
inline std::ostream& operator<<(std::ostream& out, column_feature f) { constexpr std::string_view n[] { "synthesized", "hidden", "read_only" }; return out << n[static_cast<std::size_t>(f)]; }
using column_feature_set = ::takatori::util::enum_set<column_feature, column_feature::synthesized, column_feature::read_only>;
class column {
public:
    using simple_name_type = std::string; using feature_set_type = column_feature_set;
    column(std::string name, ::takatori::scalar::type_arg type, variable::criteria c = {}, column_value d = {}, column_feature_set f = {}, std::string description = {})
        : name_ { std::move(name) }, type_ { std::move(type).get() }, criteria_ { c }, default_ { std::move(d) }, features_ { f }, description_ { std::move(description) } {}
    column* clone() const& { return new column(*this); }
    column* clone() && { return new column(std::move(*this)); }
    [[nodiscard]] std::string_view simple_name() const noexcept { return name_; }
    [[nodiscard]] ::takatori::type::data const& type() const noexcept { return *type_; }
    [[nodiscard]] ::takatori::util::optional_ptr<::takatori::type::data const> optional_type() const noexcept { return ::takatori::util::optional_ptr<::takatori::type::data const> { type_.get() }; }
    [[nodiscard]] shim::type_ptr const& shared_type() const noexcept { return type_; }
    [[nodiscard]] variable::criteria& criteria() noexcept { return criteria_; }
    [[nodiscard]] variable::criteria const& criteria() const noexcept { return criteria_; }
    [[nodiscard]] column_value& default_value() noexcept { return default_; }
    [[nodiscard]] column_value const& default_value() const noexcept { return default_; }
    [[nodiscard]] column_feature_set& features() noexcept { return features_; }
    [[nodiscard]] column_feature_set const& features() const noexcept { return features_; }
    [[nodiscard]] std::string& description() noexcept { return description_; }
    [[nodiscard]] std::string const& description() const noexcept { return description_; }
    [[nodiscard]] relation const& owner() const noexcept { return *owner_; }
    [[nodiscard]] ::takatori::util::optional_ptr<relation const> optional_owner() const noexcept { return ::takatori::util::optional_ptr<relation const> { owner_ }; }
    void bind(relation const* r) noexcept { owner_ = r; }
    friend bool operator==(column const& a, column const& b) noexcept { return &a == &b || (a.owner_ == b.owner_ && a.name_ == b.name_ && a.same(b)); }
    friend bool operator!=(column const& a, column const& b) noexcept { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, column const& v) { return out << v.name_; }
    [[nodiscard]] bool same(column const& o) const { // besides the owner
        return name_ == o.name_ && *type_ == *o.type_ && criteria_ == o.criteria_ && default_ == o.default_ && features_ == o.features_ && description_ == o.description_;
    }
private:
    std::string name_; shim::type_ptr type_; variable::criteria criteria_; column_value default_; column_feature_set features_; std::string description_; relation const* owner_ {};
};
class relation {
public:
    using definition_id_type = std::size_t; using column_vector_type = ::takatori::util::reference_vector<column>;
    relation(std::optional<definition_id_type> id, std::string name, column_vector_type columns, std::string description)
        : id_ { id }, name_ { std::move(name) }, columns_ { std::move(columns) }, description_ { std::move(description) } { rebind(); }
    relation(relation&& o) noexcept : id_ { o.id_ }, name_ { std::move(o.name_) }, columns_ { std::move(o.columns_) }, description_ { std::move(o.description_) } { rebind(); }
    relation(relation const& o) : id_ { o.id_ }, name_ { o.name_ }, columns_ { o.columns_ }, description_ { o.description_ } { rebind(); }
    relation& operator=(relation const&) = delete; relation& operator=(relation&&) = delete;
    virtual ~relation() = default;
    [[nodiscard]] virtual relation_kind kind() const noexcept = 0;
    [[nodiscard]] std::optional<definition_id_type> definition_id() const noexcept { return id_; }
    [[nodiscard]] std::string_view simple_name() const noexcept { return name_; }
    [[nodiscard]] column_vector_type& columns() noexcept { return columns_; }
    [[nodiscard]] column_vector_type const& columns() const noexcept { return columns_; }
    [[nodiscard]] std::string const& description() const noexcept { return description_; }
    [[nodiscard]] ::takatori::util::optional_ptr<provider const> owner() const noexcept { return ::takatori::util::optional_ptr<provider const> { owner_ }; }
    void bind(provider const* p) noexcept { owner_ = p; }
    friend bool operator==(relation const& a, relation const& b) {
        if (&a == &b) return true;
        if (a.name_ != b.name_ || a.owner_ != b.owner_ || a.columns_.size() != b.columns_.size()) return false;
        for (std::size_t i = 0; i < a.columns_.size(); ++i) if (!a.columns_[i].same(b.columns_[i])) return false;
        return true;
    }
    friend bool operator!=(relation const& a, relation const& b) { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, relation const& v) { return out << v.kind() << "(" << v.name_ << ")"; }
private:
    std::optional<definition_id_type> id_; std::string name_; column_vector_type columns_; std::string description_; provider const* owner_ {};
    void rebind() noexcept { for (auto&& c : columns_) c.bind(this); }
};
class table : public relation {
public:
    static constexpr relation_kind tag = relation_kind::table;
    table(std::optional<definition_id_type> id, std::string name, column_vector_type columns, std::string description = {})
        : relation { id, std::move(name), std::move(columns), std::move(description) } {}
    table(std::string_view name, std::initializer_list<column> columns) : relation { {}, std::string { name }, share(columns), {} } {}
    table(definition_id_type id, std::string_view name, std::initializer_list<column> columns) : relation { id, std::string { name }, share(columns), {} } {}
    [[nodiscard]] relation_kind kind() const noexcept override { return tag; }
private:
    static column_vector_type share(std::initializer_list<column> l) { column_vector_type r {}; for (auto&& c : l) r.push_back(std::unique_ptr<column>(c.clone())); return r; }
};
enum class index_feature { find, scan, primary, unique, unique_constraint };
inline std::ostream& operator<<(std::ostream& out, index_feature f) {
    constexpr std::string_view n[] { "find", "scan", "primary", "unique", "unique_constraint" }; return out << n[static_cast<std::size_t>(f)];
}
using index_feature_set = ::takatori::util::enum_set<index_feature, index_feature::find, index_feature::unique_constraint>;
namespace details {
class index_key_element {
public:
    using direction_type = ::takatori::relation::sort_direction;
    index_key_element(class column const& c, direction_type d = direction_type::ascendant) noexcept : column_ { std::addressof(c) }, direction_ { d } {} // NOLINT
    [[nodiscard]] class ::yugawara::storage::column const& column() const noexcept { return *column_; }
    [[nodiscard]] direction_type direction() const noexcept { return direction_; }
    friend bool operator==(index_key_element const& a, index_key_element const& b) { return *a.column_ == *b.column_ && a.direction_ == b.direction_; }
    friend bool operator!=(index_key_element const& a, index_key_element const& b) { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, index_key_element const& v) { return out << *v.column_ << " " << v.direction_; }
private:
    class ::yugawara::storage::column const* column_; direction_type direction_;
};
} // namespace details
class index {
public:
    using definition_id_type = std::size_t; using key = details::index_key_element; using column_ref = std::reference_wrapper<column const>; using feature_set_type = index_feature_set;
    index(std::optional<definition_id_type> id, std::shared_ptr<class table const> t, std::string name, std::vector<key> keys, std::vector<column_ref> columns,
            index_feature_set features, std::string description = {})
        : id_ { id }, table_ { std::move(t) }, name_ { std::move(name) }, keys_ { std::move(keys) }, columns_ { std::move(columns) }, features_ { features }, description_ { std::move(description) } {}
    index(std::shared_ptr<class table const> t, std::string_view name, std::vector<key> keys = {}, std::vector<column_ref> columns = {},
            index_feature_set features = { index_feature::find, index_feature::scan })
        : index { std::nullopt, std::move(t), std::string { name }, std::move(keys), std::move(columns), features } {}
    [[nodiscard]] std::optional<definition_id_type> definition_id() const noexcept { return id_; }
    [[nodiscard]] class table const& table() const noexcept { return *table_; }
    [[nodiscard]] std::shared_ptr<class table const> const& shared_table() const noexcept { return table_; }
    [[nodiscard]] std::string_view simple_name() const noexcept { return name_; }
    [[nodiscard]] std::vector<key>& keys() noexcept { return keys_; }
    [[nodiscard]] std::vector<column_ref>& values() noexcept { return columns_; }
    [[nodiscard]] std::vector<column_ref> const& values() const noexcept { return columns_; }
    [[nodiscard]] std::vector<key> const& keys() const noexcept { return keys_; }
    [[nodiscard]] std::vector<column_ref>& columns() noexcept { return columns_; }
    [[nodiscard]] std::vector<column_ref> const& columns() const noexcept { return columns_; }
    [[nodiscard]] index_feature_set& features() noexcept { return features_; }
    [[nodiscard]] index_feature_set const& features() const noexcept { return features_; }
    [[nodiscard]] std::string const& description() const noexcept { return description_; }
    friend bool operator==(index const& a, index const& b) {
        return &a == &b || (a.name_ == b.name_ && *a.table_ == *b.table_ && a.keys_ == b.keys_ && a.features_ == b.features_);
    }
    friend bool operator!=(index const& a, index const& b) { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, index const& v) { return out << "index(" << v.name_ << ")"; }
private:
    std::optional<definition_id_type> id_; std::shared_ptr<class ::yugawara::storage::table const> table_; std::string name_; std::vector<key> keys_; std::vector<column_ref> columns_;
    index_feature_set features_; std::string description_;
};
class provider {
public:
    using table_consumer_type = std::function<void(std::string_view, std::shared_ptr<table const> const&)>;
    using index_consumer_type = std::function<void(std::string_view, std::shared_ptr<index const> const&)>;
    virtual ~provider() = default;
    [[nodiscard]] virtual std::shared_ptr<relation const> find_relation(std::string_view id) const = 0;
    [[nodiscard]] virtual std::shared_ptr<index const> find_index(std::string_view id) const = 0;
    [[nodiscard]] virtual std::shared_ptr<index const> find_primary_index(table const& t) const = 0;
    [[nodiscard]] virtual std::shared_ptr<sequence const> find_sequence(std::string_view id) const = 0;
    [[nodiscard]] std::shared_ptr<table const> find_table(std::string_view id) const {
        auto r = find_relation(id);
        if (r && r->kind() == table::tag) return std::static_pointer_cast<table const>(r);
        return {};
    }
};
class configurable_provider : public provider {
public:
    explicit configurable_provider(shim::maybe_shared_ptr<provider const> parent = {}) noexcept : parent_ { std::move(parent) } {}
    [[nodiscard]] std::shared_ptr<relation const> find_relation(std::string_view id) const override {
        if (auto it = r_.find(id); it != r_.end()) return it->second;
        return parent_ ? parent_->find_relation(id) : nullptr;
    }
    [[nodiscard]] std::shared_ptr<index const> find_index(std::string_view id) const override {
        if (auto it = i_.find(id); it != i_.end()) return it->second;
        return parent_ ? parent_->find_index(id) : nullptr;
    }
    [[nodiscard]] std::shared_ptr<index const> find_primary_index(table const& t) const override {
        for (auto&& [n, i] : i_) if (&i->table() == &t && i->features().contains(index_feature::primary)) return i;
        return parent_ ? parent_->find_primary_index(t) : nullptr;
    }
    [[nodiscard]] std::shared_ptr<sequence const> find_sequence(std::string_view id) const override {
        if (auto it = s_.find(id); it != s_.end()) return it->second;
        return parent_ ? parent_->find_sequence(id) : nullptr;
    }
    template<class T> std::shared_ptr<T> add_relation(std::string_view id, std::shared_ptr<T> p, bool overwrite = false) {
        auto& e = r_[std::string { id }];
        if (e && !overwrite) ::takatori::util::throw_exception(std::invalid_argument("already exists"));
        p->bind(this); e = p; return p;
    }
    template<class T> std::shared_ptr<T> add_relation(std::shared_ptr<T> p, bool overwrite = false) { return add_relation(std::string { p->simple_name() }, std::move(p), overwrite); }
    std::shared_ptr<table> add_table(std::shared_ptr<table> p, bool overwrite = false) { return add_relation(std::move(p), overwrite); }
    std::shared_ptr<table> add_table(table&& t, bool overwrite = false) { return add_relation(std::make_shared<table>(std::move(t)), overwrite); }
    std::shared_ptr<index> add_index(std::shared_ptr<index> p, bool overwrite = false) {
        auto& e = i_[std::string { p->simple_name() }];
        if (e && !overwrite) ::takatori::util::throw_exception(std::invalid_argument("already exists"));
        e = p; return p;
    }
    std::shared_ptr<index> add_index(index&& i, bool overwrite = false) { return add_index(std::make_shared<index>(std::move(i)), overwrite); }
    std::shared_ptr<sequence> add_sequence(std::shared_ptr<sequence> p, bool = false) { s_[std::string { p->simple_name() }] = p; return p; }
private:
    shim::maybe_shared_ptr<provider const> parent_;
    std::map<std::string, std::shared_ptr<relation>, std::less<>> r_ {}; std::map<std::string, std::shared_ptr<index>, std::less<>> i_ {};
    std::map<std::string, std::shared_ptr<sequence>, std::less<>> s_ {};
};
} // namespace storage

namespace schema {
class declaration {
public:
    using definition_id_type = std::size_t;
    declaration(std::string_view name, std::optional<definition_id_type> id = {}, shim::maybe_shared_ptr<storage::provider const> s = {}, shim::maybe_shared_ptr<variable::provider const> v = {},
            shim::maybe_shared_ptr<function::provider const> f = {}, shim::maybe_shared_ptr<aggregate::provider const> a = {}, std::string description = {})
        : name_ { name }, id_ { id }, s_ { std::move(s) }, v_ { std::move(v) }, f_ { std::move(f) }, a_ { std::move(a) }, description_ { std::move(description) } {}
    [[nodiscard]] std::string_view name() const noexcept { return name_; }
    [[nodiscard]] std::optional<definition_id_type> definition_id() const noexcept { return id_; }
    [[nodiscard]] storage::provider const& storage_provider() const noexcept { return pick<storage::configurable_provider>(s_); }
    [[nodiscard]] shim::maybe_shared_ptr<storage::provider const> shared_storage_provider() const noexcept { return s_ ? s_ : shim::maybe_shared_ptr<storage::provider const> { &storage_provider() }; }
    [[nodiscard]] variable::provider const& variable_provider() const noexcept { return pick<variable::configurable_provider>(v_); }
    [[nodiscard]] function::provider const& function_provider() const noexcept { return pick<function::configurable_provider>(f_); }
    [[nodiscard]] aggregate::provider const& set_function_provider() const noexcept { return pick<aggregate::configurable_provider>(a_); }
    [[nodiscard]] std::string const& description() const noexcept { return description_; }
    friend bool operator==(declaration const& a, declaration const& b) { return &a == &b || (a.name_ == b.name_ && a.s_ == b.s_ && a.v_ == b.v_ && a.f_ == b.f_ && a.a_ == b.a_); }
    friend bool operator!=(declaration const& a, declaration const& b) { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, declaration const& v) { return out << "schema(" << v.name_ << ")"; }
private:
    std::string name_; std::optional<definition_id_type> id_; shim::maybe_shared_ptr<storage::provider const> s_; shim::maybe_shared_ptr<variable::provider const> v_;
    shim::maybe_shared_ptr<function::provider const> f_; shim::maybe_shared_ptr<aggregate::provider const> a_; std::string description_;
    template<class D, class T> static T& pick(shim::maybe_shared_ptr<T> const& p) { static D const empty {}; return p ? *p : empty; }
};
class provider {
public:
    virtual ~provider() = default;
    [[nodiscard]] virtual std::shared_ptr<declaration const> find(std::string_view name) const = 0;
};
class configurable_provider : public provider {
public:
    explicit configurable_provider(shim::maybe_shared_ptr<provider const> parent = {}) noexcept : parent_ { std::move(parent) } {}
    [[nodiscard]] std::shared_ptr<declaration const> find(std::string_view name) const override {
        if (auto it = m_.find(name); it != m_.end()) return it->second;
        return parent_ ? parent_->find(name) : nullptr;
    }
    std::shared_ptr<declaration> const& add(std::shared_ptr<declaration> d, bool = false) { auto& e = m_[std::string { d->name() }]; return e = std::move(d); }
    std::shared_ptr<declaration> const& add(declaration&& d, bool o = false) { return add(std::make_shared<declaration>(std::move(d)), o); }
private:
    shim::maybe_shared_ptr<provider const> parent_; std::map<std::string, std::shared_ptr<declaration>, std::less<>> m_ {};
};
class catalog {
public:
    using definition_id_type = std::size_t;
    explicit catalog(std::string_view name, std::optional<definition_id_type> id = {}, shim::maybe_shared_ptr<provider const> p = {}) : name_ { name }, id_ { id }, p_ { std::move(p) } {}
    [[nodiscard]] std::string_view name() const noexcept { return name_; }
    [[nodiscard]] std::optional<definition_id_type> definition_id() const noexcept { return id_; }
    [[nodiscard]] provider const& schema_provider() const noexcept { static configurable_provider const empty {}; return p_ ? *p_ : empty; }
    friend bool operator==(catalog const& a, catalog const& b) { return &a == &b || (a.name_ == b.name_ && a.p_ == b.p_); }
    friend bool operator!=(catalog const& a, catalog const& b) { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, catalog const& v) { return out << "catalog(" << v.name_ << ")"; }
private:
    std::string name_; std::optional<definition_id_type> id_; shim::maybe_shared_ptr<provider const> p_;
};
class search_path {
public:
    using vector_type = std::vector<shim::maybe_shared_ptr<declaration const>>;
    explicit search_path(vector_type e = {}) noexcept : e_ { std::move(e) } {}
    search_path(std::initializer_list<shim::maybe_shared_ptr<declaration const>> e) : e_ { e } {}
    [[nodiscard]] vector_type& elements() noexcept { return e_; }
    [[nodiscard]] vector_type const& elements() const noexcept { return e_; }
private:
    vector_type e_;
};
} // namespace schema

namespace binding {
namespace d = ::takatori::descriptor;
using variable_info = d::variable_entity; using variable_info_kind = d::variable_entity_kind;
[[nodiscard]] inline variable_info const& unwrap(d::variable const& v) { return v.entity(); }
[[nodiscard]] inline variable_info_kind kind_of(d::variable const& v) { return v.entity().kind(); }
enum class what : int { nothing, table, index, schema, function, aggregate };
class factory {
public:
    // variables
    [[nodiscard]] d::variable stream_variable(std::string_view label = {}) const { return make(variable_info_kind::stream_variable, label); }
    [[nodiscard]] d::variable stream_variable(d::variable const& source) const { return make(variable_info_kind::stream_variable, source.entity().label()); }
    [[nodiscard]] d::variable frame_variable(std::string_view label = {}) const { return make(variable_info_kind::frame_variable, label); }
    [[nodiscard]] d::variable frame_variable(d::variable const& source) const { return make(variable_info_kind::frame_variable, source.entity().label()); }
    [[nodiscard]] d::variable local_variable(std::string_view label = {}) const { return make(variable_info_kind::local_variable, label); }
    [[nodiscard]] d::variable local_variable(d::variable const& source) const { return make(variable_info_kind::local_variable, source.entity().label()); }
    [[nodiscard]] d::variable table_column(storage::column const& c) const {
        return d::variable { std::make_shared<variable_info>(variable_info_kind::table_column, std::string { c.simple_name() }, &c, nullptr) };
    }
    [[nodiscard]] d::variable external_variable(std::shared_ptr<variable::declaration const> v) const {
        auto* p = v.get(); return d::variable { std::make_shared<variable_info>(variable_info_kind::external_variable, std::string { p->name() }, p, std::move(v)) };
    }
    [[nodiscard]] d::variable operator()(storage::column const& c) const { return table_column(c); }
    [[nodiscard]] d::variable operator()(std::shared_ptr<variable::declaration const> v) const { return external_variable(std::move(v)); }
    // storages: usable as both of a relation and a storage
    struct storage_handle {
        void const* object; std::shared_ptr<void const> holder; int what;
        operator d::relation() const { return { object, holder, what }; } // NOLINT
        operator d::storage() const { return { object, holder, what }; } // NOLINT
    };
    [[nodiscard]] storage_handle index(shim::maybe_shared_ptr<storage::index const> i) const { return { i.get(), i.ownership(), static_cast<int>(what::index) }; }
    [[nodiscard]] storage_handle storage(shim::maybe_shared_ptr<storage::table const> t) const { return { static_cast<storage::relation const*>(t.get()), t.ownership(), static_cast<int>(what::table) }; }
    [[nodiscard]] storage_handle operator()(storage::index const& i) const { return { &i, nullptr, static_cast<int>(what::index) }; }
    [[nodiscard]] storage_handle operator()(std::shared_ptr<storage::index const> i) const { return index(shim::maybe_shared_ptr<storage::index const> { std::move(i) }); }
    [[nodiscard]] storage_handle operator()(std::shared_ptr<storage::table const> t) const { return storage(shim::maybe_shared_ptr<storage::table const> { std::move(t) }); }
    // others
    [[nodiscard]] d::schema schema(shim::maybe_shared_ptr<::yugawara::schema::declaration const> s) const { return { s.get(), s.ownership(), static_cast<int>(what::schema) }; }
    [[nodiscard]] d::schema operator()(std::shared_ptr<::yugawara::schema::declaration const> s) const { return schema(shim::maybe_shared_ptr<::yugawara::schema::declaration const> { std::move(s) }); }
    [[nodiscard]] d::schema operator()(shim::maybe_shared_ptr<::yugawara::schema::declaration const> s) const { return schema(std::move(s)); }
    [[nodiscard]] d::function function(std::shared_ptr<::yugawara::function::declaration const> f) const { auto* p = f.get(); return { p, std::move(f), static_cast<int>(what::function) }; }
    [[nodiscard]] d::function operator()(std::shared_ptr<::yugawara::function::declaration const> f) const { return function(std::move(f)); }
    [[nodiscard]] d::aggregate_function aggregate_function(std::shared_ptr<aggregate::declaration const> f) const { auto* p = f.get(); return { p, std::move(f), static_cast<int>(what::aggregate) }; }
    [[nodiscard]] d::aggregate_function operator()(std::shared_ptr<aggregate::declaration const> f) const { return aggregate_function(std::move(f)); }
private:
    static d::variable make(variable_info_kind k, std::string_view label) { return d::variable { std::make_shared<variable_info>(k, std::string { label }) }; }
};
namespace details {
template<class T> struct what_is;
template<> struct what_is<storage::table> { static constexpr what value = what::table; };
template<> struct what_is<storage::relation> { static constexpr what value = what::table; };
template<> struct what_is<storage::index> { static constexpr what value = what::index; };
template<class T, d::descriptor_kind K> T const* get(d::handle<K> const& h) {
    if (h.what() != static_cast<int>(what_is<T>::value)) return nullptr;
    if constexpr (std::is_same_v<T, storage::index>) return static_cast<T const*>(h.object());
    else return static_cast<T const*>(static_cast<storage::relation const*>(h.object()));
}
[[noreturn]] inline void bad() { ::takatori::util::throw_exception(std::domain_error("inconsistent descriptor type")); }
} // namespace details
template<class T = storage::table> [[nodiscard]] T const& extract(d::relation const& h) { if (auto* p = details::get<T>(h)) return *p; details::bad(); }
template<class T = storage::table> [[nodiscard]] T const& extract(d::storage const& h) { if (auto* p = details::get<T>(h)) return *p; details::bad(); }
template<class T> [[nodiscard]] ::takatori::util::optional_ptr<T const> extract_if(d::relation const& h) { return ::takatori::util::optional_ptr<T const> { details::get<T>(h) }; }
template<class T> [[nodiscard]] ::takatori::util::optional_ptr<T const> extract_if(d::storage const& h) { return ::takatori::util::optional_ptr<T const> { details::get<T>(h) }; }
template<class T> [[nodiscard]] ::takatori::util::optional_ptr<T const> extract_if(d::variable const& v) {
    constexpr auto k = std::is_same_v<T, storage::column> ? variable_info_kind::table_column : variable_info_kind::external_variable;
    return ::takatori::util::optional_ptr<T const> { v && v.entity().kind() == k ? static_cast<T const*>(v.entity().object()) : nullptr };
}
template<class T> [[nodiscard]] T const& extract(d::variable const& v) { if (auto p = extract_if<T>(v)) return *p; details::bad(); }
[[nodiscard]] inline schema::declaration const& extract(d::schema const& h) { return *static_cast<schema::declaration const*>(h.object()); }
[[nodiscard]] inline function::declaration const& extract(d::function const& h) { return *static_cast<function::declaration const*>(h.object()); }
[[nodiscard]] inline aggregate::declaration const& extract(d::aggregate_function const& h) { return *static_cast<aggregate::declaration const*>(h.object()); }
[[nodiscard]] inline std::shared_ptr<function::declaration const> extract_shared(d::function const& h) { return std::static_pointer_cast<function::declaration const>(h.holder()); }
[[nodiscard]] inline std::shared_ptr<aggregate::declaration const> extract_shared(d::aggregate_function const& h) { return std::static_pointer_cast<aggregate::declaration const>(h.holder()); }
} // namespace binding
} // namespace yugawara
