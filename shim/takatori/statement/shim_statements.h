// Stand-in of takatori::statement: the statements which are not relational operators.
#pragma once
#include "../relation/shim_relations.h"
namespace takatori::statement {
SHIM_ENUM(statement_kind, execute, write, create_table, drop_table, create_index, drop_index, grant_table, revoke_table, truncate_table,
    rename_table, rename_index, rename_column, empty, extension)
using write_kind = ::takatori::relation::write_kind;
SHIM_ENUM(truncate_table_option_kind, restart_identity)
SHIM_ENUM(table_action_kind, control, select, insert, update, delete_)
SHIM_ENUM(authorization_user_kind, specified, current_user, all_users)

class statement {
public:
    statement() = default;
    virtual ~statement() = default;
    statement(statement const&) = default; statement& operator=(statement const&) = default;
    statement(statement&&) = default; statement& operator=(statement&&) = default;
    [[nodiscard]] virtual statement_kind kind() const noexcept = 0;
    [[nodiscard]] virtual statement* clone() const& = 0;
    [[nodiscard]] virtual statement* clone() && = 0;
    [[nodiscard]] ::takatori::document::region& region() noexcept { return region_; }
    [[nodiscard]] ::takatori::document::region const& region() const noexcept { return region_; }
    friend bool operator==(statement const& a, statement const& b) { return &a == &b || (a.kind() == b.kind() && a.equals(b)); }
    friend bool operator!=(statement const& a, statement const& b) { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, statement const& v) { return v.print(out); }
protected:
    [[nodiscard]] virtual bool equals(statement const&) const = 0;
    virtual std::ostream& print(std::ostream& out) const = 0;
private:
    ::takatori::document::region region_ {};
};
template<statement_kind K> class node : public statement {
public:
    static constexpr statement_kind tag = K;
    [[nodiscard]] statement_kind kind() const noexcept override { return K; }
};
#define SHIM_STMT(T, eq, ...) \
protected: \
    [[nodiscard]] bool equals(::takatori::statement::statement const& o) const override { auto& b = static_cast<T const&>(o); (void) b; return eq; } \
    std::ostream& print(std::ostream& out) const override { return out << this->kind() << "(" << __VA_ARGS__ << ")"; } \
private:
class empty : public node<statement_kind::empty> { public: SHIM_CLONE(empty) SHIM_STMT(empty, true, "") };

namespace details {
class write_tuple {
public:
    using element_vector = ::takatori::util::reference_vector<::takatori::scalar::expression>;
    explicit write_tuple(element_vector e) noexcept : elements_ { std::move(e) } {}
    explicit write_tuple(std::vector<std::unique_ptr<::takatori::scalar::expression>> e) : elements_ { std::move(e) } {}
    SHIM_FIELD(element_vector, elements)
    friend bool operator==(write_tuple const& a, write_tuple const& b) { return a.elements_ == b.elements_; }
    friend std::ostream& operator<<(std::ostream& out, write_tuple const& v) { return out << v.elements_; }
private:
    element_vector elements_;
};
class table_privilege_action {
public:
    using action_kind_type = table_action_kind;
    table_privilege_action(table_action_kind k) noexcept : action_kind_ { k } {} // NOLINT
    [[nodiscard]] table_action_kind action_kind() const noexcept { return action_kind_; }
    friend bool operator==(table_privilege_action const& a, table_privilege_action const& b) { return a.action_kind_ == b.action_kind_; }
    friend bool operator!=(table_privilege_action const& a, table_privilege_action const& b) { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, table_privilege_action const& v) { return out << v.action_kind_; }
private:
    table_action_kind action_kind_;
};
class table_authorization_entry {
public:
    table_authorization_entry(authorization_user_kind k, std::string id, std::vector<table_privilege_action> p) noexcept
        : user_kind_ { k }, authorization_identifier_ { std::move(id) }, privileges_ { std::move(p) } {}
    [[nodiscard]] authorization_user_kind user_kind() const noexcept { return user_kind_; }
    SHIM_FIELD(std::string, authorization_identifier) SHIM_FIELD(std::vector<table_privilege_action>, privileges)
    friend bool operator==(table_authorization_entry const& a, table_authorization_entry const& b) {
        return a.user_kind_ == b.user_kind_ && a.authorization_identifier_ == b.authorization_identifier_ && a.privileges_ == b.privileges_;
    }
    friend std::ostream& operator<<(std::ostream& out, table_authorization_entry const& v) {
        return out << v.user_kind_ << ":" << v.authorization_identifier_ << ":" << ::takatori::util::print_support { v.privileges_ };
    }
private:
    authorization_user_kind user_kind_; std::string authorization_identifier_; std::vector<table_privilege_action> privileges_;
};
class table_privilege_element {
public:
    table_privilege_element(::takatori::descriptor::storage t, std::vector<table_privilege_action> d, std::vector<table_authorization_entry> e) noexcept
        : table_ { std::move(t) }, default_privileges_ { std::move(d) }, authorization_entries_ { std::move(e) } {}
    SHIM_FIELD(::takatori::descriptor::storage, table) SHIM_FIELD(std::vector<table_privilege_action>, default_privileges)
    SHIM_FIELD(std::vector<table_authorization_entry>, authorization_entries)
    friend bool operator==(table_privilege_element const& a, table_privilege_element const& b) {
        return a.table_ == b.table_ && a.default_privileges_ == b.default_privileges_ && a.authorization_entries_ == b.authorization_entries_;
    }
    friend std::ostream& operator<<(std::ostream& out, table_privilege_element const& v) {
        return out << v.table_ << " default=" << ::takatori::util::print_support { v.default_privileges_ } << " " << ::takatori::util::print_support { v.authorization_entries_ };
    }
private:
    ::takatori::descriptor::storage table_; std::vector<table_privilege_action> default_privileges_; std::vector<table_authorization_entry> authorization_entries_;
};
} // namespace details

class write : public node<statement_kind::write> {
public:
    SHIM_CLONE(write)
    using column = ::takatori::descriptor::variable; using tuple = details::write_tuple; using operator_kind_type = write_kind;
    write(write_kind k, ::takatori::descriptor::relation d, std::vector<column> c, std::vector<tuple> t) noexcept
        : operator_kind_ { k }, destination_ { std::move(d) }, columns_ { std::move(c) }, tuples_ { std::move(t) } {}
    SHIM_FIELD(write_kind, operator_kind) SHIM_FIELD(::takatori::descriptor::relation, destination) SHIM_FIELD(std::vector<column>, columns) SHIM_FIELD(std::vector<tuple>, tuples)
    SHIM_STMT(write, operator_kind_ == b.operator_kind_ && destination_ == b.destination_ && columns_ == b.columns_ && tuples_ == b.tuples_,
        operator_kind_ << ", " << destination_ << ", " << ::takatori::util::print_support { columns_ } << ", " << ::takatori::util::print_support { tuples_ })
    write_kind operator_kind_; ::takatori::descriptor::relation destination_; std::vector<column> columns_; std::vector<tuple> tuples_;
};
class create_table : public node<statement_kind::create_table> {
public:
    SHIM_CLONE(create_table)
    create_table(::takatori::descriptor::schema s, ::takatori::descriptor::storage d, ::takatori::descriptor::storage p) noexcept
        : schema_ { std::move(s) }, definition_ { std::move(d) }, primary_key_ { std::move(p) } {}
    SHIM_FIELD(::takatori::descriptor::schema, schema) SHIM_FIELD(::takatori::descriptor::storage, definition) SHIM_FIELD(::takatori::descriptor::storage, primary_key)
    SHIM_STMT(create_table, schema_ == b.schema_ && definition_ == b.definition_ && primary_key_ == b.primary_key_, schema_ << ", " << definition_ << ", " << primary_key_)
    ::takatori::descriptor::schema schema_; ::takatori::descriptor::storage definition_, primary_key_;
};
class create_index : public node<statement_kind::create_index> {
public:
    SHIM_CLONE(create_index)
    create_index(::takatori::descriptor::schema s, ::takatori::descriptor::storage d) noexcept : schema_ { std::move(s) }, definition_ { std::move(d) } {}
    SHIM_FIELD(::takatori::descriptor::schema, schema) SHIM_FIELD(::takatori::descriptor::storage, definition)
    SHIM_STMT(create_index, schema_ == b.schema_ && definition_ == b.definition_, schema_ << ", " << definition_)
    ::takatori::descriptor::schema schema_; ::takatori::descriptor::storage definition_;
};
template<statement_kind K> class drop_storage : public node<K> {
public:
    SHIM_CLONE(drop_storage)
    drop_storage(::takatori::descriptor::schema s, ::takatori::descriptor::storage t) noexcept : schema_ { std::move(s) }, target_ { std::move(t) } {}
    SHIM_FIELD(::takatori::descriptor::schema, schema) SHIM_FIELD(::takatori::descriptor::storage, target)
    SHIM_STMT(drop_storage, schema_ == b.schema_ && target_ == b.target_, schema_ << ", " << target_)
    ::takatori::descriptor::schema schema_; ::takatori::descriptor::storage target_;
};
class drop_table : public drop_storage<statement_kind::drop_table> { public: using drop_storage::drop_storage; SHIM_CLONE(drop_table) };
class drop_index : public drop_storage<statement_kind::drop_index> { public: using drop_storage::drop_storage; SHIM_CLONE(drop_index) };
template<statement_kind K> class rename_storage : public node<K> {
public:
    SHIM_CLONE(rename_storage)
    rename_storage(::takatori::descriptor::schema s, ::takatori::descriptor::storage t, std::string r) noexcept
        : schema_ { std::move(s) }, target_ { std::move(t) }, replacement_ { std::move(r) } {}
    SHIM_FIELD(::takatori::descriptor::schema, schema) SHIM_FIELD(::takatori::descriptor::storage, target) SHIM_FIELD(std::string, replacement)
    SHIM_STMT(rename_storage, schema_ == b.schema_ && target_ == b.target_ && replacement_ == b.replacement_, schema_ << ", " << target_ << ", " << replacement_)
    ::takatori::descriptor::schema schema_; ::takatori::descriptor::storage target_; std::string replacement_;
};
class rename_table : public rename_storage<statement_kind::rename_table> { public: using rename_storage::rename_storage; SHIM_CLONE(rename_table) };
class rename_index : public rename_storage<statement_kind::rename_index> { public: using rename_storage::rename_storage; SHIM_CLONE(rename_index) };
class rename_column : public node<statement_kind::rename_column> {
public:
    SHIM_CLONE(rename_column)
    rename_column(::takatori::descriptor::storage t, ::takatori::descriptor::variable c, std::string r) noexcept
        : table_ { std::move(t) }, target_ { std::move(c) }, replacement_ { std::move(r) } {}
    SHIM_FIELD(::takatori::descriptor::storage, table) SHIM_FIELD(::takatori::descriptor::variable, target) SHIM_FIELD(std::string, replacement)
    SHIM_STMT(rename_column, table_ == b.table_ && target_ == b.target_ && replacement_ == b.replacement_, table_ << ", " << target_ << ", " << replacement_)
    ::takatori::descriptor::storage table_; ::takatori::descriptor::variable target_; std::string replacement_;
};
class truncate_table : public node<statement_kind::truncate_table> {
public:
    SHIM_CLONE(truncate_table)
    using option_kind = truncate_table_option_kind;
    using option_set_type = ::takatori::util::enum_set<option_kind, option_kind::restart_identity, option_kind::restart_identity>;
    explicit truncate_table(::takatori::descriptor::storage t, option_set_type o = {}) noexcept : target_ { std::move(t) }, options_ { o } {}
    SHIM_FIELD(::takatori::descriptor::storage, target) SHIM_FIELD(option_set_type, options)
    SHIM_STMT(truncate_table, target_ == b.target_ && options_ == b.options_, target_ << ", " << options_.size())
    ::takatori::descriptor::storage target_; option_set_type options_;
};
template<statement_kind K> class table_privilege_statement : public node<K> {
public:
    SHIM_CLONE(table_privilege_statement)
    using table_privilege_element_type = details::table_privilege_element;
    explicit table_privilege_statement(std::vector<details::table_privilege_element> e) noexcept : elements_ { std::move(e) } {}
    SHIM_FIELD(std::vector<details::table_privilege_element>, elements)
    SHIM_STMT(table_privilege_statement, elements_ == b.elements_, ::takatori::util::print_support { elements_ })
    std::vector<details::table_privilege_element> elements_;
};
class grant_table : public table_privilege_statement<statement_kind::grant_table> { public: using table_privilege_statement::table_privilege_statement; SHIM_CLONE(grant_table) };
class revoke_table : public table_privilege_statement<statement_kind::revoke_table> { public: using table_privilege_statement::table_privilege_statement; SHIM_CLONE(revoke_table) };
} // namespace takatori::statement
