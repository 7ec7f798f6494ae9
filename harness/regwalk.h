// Walks a syntax tree through its accessors, and visits each value which carries a region.
#pragma once

#include <optional>
#include <sstream>
#include <string>
#include <vector>

#include <mizugaki/ast/compilation_unit.h>
#include <mizugaki/ast/literal/dispatch.h>
#include <mizugaki/ast/name/dispatch.h>
#include <mizugaki/ast/query/dispatch.h>
#include <mizugaki/ast/scalar/dispatch.h>
#include <mizugaki/ast/statement/dispatch.h>
#include <mizugaki/ast/table/dispatch.h>
#include <mizugaki/ast/type/dispatch.h>

namespace regwalk {

namespace ast = ::mizugaki::ast;

struct item {
    std::string owner;          // class of the node
    std::string field;          // accessor of the value, or empty for nodes and elements themselves
    std::string value;
    ast::node_region region;
    ast::node_region parent;    // the region of the innermost enclosing node
    std::size_t parent_index;   // its position, or npos
};

// hears of each node and each accessor, as what they are
struct no_hook {
    template<class N> void node(char const*, N const&) {}
    template<class N, class F> void access(char const*, char const*, N const&, F) {}
};

#define FIELD(x) field(#x, n.x()); if (hook) hook->access(owner_.c_str(), #x, n, [](auto& m) -> decltype(auto) { return m.x(); })

template<class Hook = no_hook>
class basic_walker {
public:
    Hook* hook {};
    std::vector<item> items;

    template<class N>
    void statement(N const& n) { ast::statement::dispatch(*this, n); }

    void operator()(ast::common::sort_element const& n) {
        frame f { *this, "common::sort_element", n };
        FIELD(key);
        FIELD(collation);
        FIELD(direction);
        FIELD(null_location);
    }
    void operator()(ast::common::target_element const& n) {
        frame f { *this, "common::target_element", n };
        FIELD(target);
        FIELD(indicator);
    }
    void operator()(ast::literal::boolean const& n) {
        frame f { *this, "literal::boolean", n };
        FIELD(value);
    }
    void operator()(ast::literal::datetime const& n) {
        frame f { *this, "literal::datetime", n };
        FIELD(value_kind);
        FIELD(value);
    }
    void operator()(ast::literal::interval const& n) {
        frame f { *this, "literal::interval", n };
        FIELD(sign);
        FIELD(value);
    }
    void operator()(ast::literal::numeric const& n) {
        frame f { *this, "literal::numeric", n };
        FIELD(value_kind);
        FIELD(sign);
        FIELD(unsigned_value);
    }
    template<auto K>
    void operator()(ast::literal::special<K> const& n) {
        frame f { *this, "literal::special", n };
    }
    void operator()(ast::literal::string const& n) {
        frame f { *this, "literal::string", n };
        FIELD(value_kind);
        FIELD(value);
        FIELD(concatenations);
    }
    void operator()(ast::name::qualified const& n) {
        frame f { *this, "name::qualified", n };
        FIELD(qualifier);
        FIELD(last);
    }
    void operator()(ast::name::simple const& n) {
        frame f { *this, "name::simple", n };
    }
    void operator()(ast::query::binary_expression const& n) {
        frame f { *this, "query::binary_expression", n };
        FIELD(operator_kind);
        FIELD(left);
        FIELD(right);
        FIELD(quantifier);
        FIELD(corresponding);
    }
    void operator()(ast::query::corresponding_clause const& n) {
        frame f { *this, "query::corresponding_clause", n };
        FIELD(column_names);
    }
    void operator()(ast::query::group_by_clause const& n) {
        frame f { *this, "query::group_by_clause", n };
        FIELD(elements);
    }
    void operator()(ast::query::grouping_column const& n) {
        frame f { *this, "query::grouping_column", n };
        FIELD(column);
        FIELD(collation);
    }
    void operator()(ast::query::query const& n) {
        frame f { *this, "query::query", n };
        FIELD(elements);
        FIELD(from);
        FIELD(where);
        FIELD(group_by);
        FIELD(having);
        FIELD(order_by);
        FIELD(limit);
        FIELD(quantifier);
    }
    void operator()(ast::query::select_asterisk const& n) {
        frame f { *this, "query::select_asterisk", n };
        FIELD(qualifier);
    }
    void operator()(ast::query::select_column const& n) {
        frame f { *this, "query::select_column", n };
        FIELD(value);
        FIELD(name);
    }
    void operator()(ast::query::table_reference const& n) {
        frame f { *this, "query::table_reference", n };
        FIELD(name);
    }
    void operator()(ast::query::table_value_constructor const& n) {
        frame f { *this, "query::table_value_constructor", n };
        FIELD(elements);
    }
    void operator()(ast::query::with_element const& n) {
        frame f { *this, "query::with_element", n };
        FIELD(name);
        FIELD(expression);
        FIELD(column_names);
    }
    void operator()(ast::query::with_expression const& n) {
        frame f { *this, "query::with_expression", n };
        FIELD(elements);
        FIELD(expression);
        FIELD(is_recursive);
    }
    void operator()(ast::scalar::between_predicate const& n) {
        frame f { *this, "scalar::between_predicate", n };
        FIELD(target);
        FIELD(left);
        FIELD(right);
        FIELD(operator_kind);
        FIELD(is_not);
    }
    void operator()(ast::scalar::binary_expression const& n) {
        frame f { *this, "scalar::binary_expression", n };
        FIELD(operator_kind);
        FIELD(left);
        FIELD(right);
    }
    void operator()(ast::scalar::builtin_function_invocation const& n) {
        frame f { *this, "scalar::builtin_function_invocation", n };
        FIELD(function);
        FIELD(arguments);
    }
    void operator()(ast::scalar::builtin_set_function_invocation const& n) {
        frame f { *this, "scalar::builtin_set_function_invocation", n };
        FIELD(function);
        FIELD(quantifier);
        FIELD(arguments);
    }
    void operator()(ast::scalar::case_expression const& n) {
        frame f { *this, "scalar::case_expression", n };
        FIELD(operand);
        FIELD(when_clauses);
        FIELD(default_result);
    }
    void operator()(ast::scalar::case_when_clause const& n) {
        frame f { *this, "scalar::case_when_clause", n };
        FIELD(when);
        FIELD(result);
    }
    void operator()(ast::scalar::cast_expression const& n) {
        frame f { *this, "scalar::cast_expression", n };
        FIELD(operator_kind);
        FIELD(operand);
        FIELD(type);
    }
    void operator()(ast::scalar::comparison_predicate const& n) {
        frame f { *this, "scalar::comparison_predicate", n };
        FIELD(operator_kind);
        FIELD(left);
        FIELD(right);
    }
    void operator()(ast::scalar::current_of_cursor const& n) {
        frame f { *this, "scalar::current_of_cursor", n };
        FIELD(name);
    }
    void operator()(ast::scalar::extract_expression const& n) {
        frame f { *this, "scalar::extract_expression", n };
        FIELD(field);
        FIELD(subsecond_digits);
        FIELD(operand);
    }
    void operator()(ast::scalar::field_reference const& n) {
        frame f { *this, "scalar::field_reference", n };
        FIELD(operator_kind);
        FIELD(value);
        FIELD(name);
    }
    void operator()(ast::scalar::function_invocation const& n) {
        frame f { *this, "scalar::function_invocation", n };
        FIELD(name);
        FIELD(arguments);
    }
    void operator()(ast::scalar::host_parameter_reference const& n) {
        frame f { *this, "scalar::host_parameter_reference", n };
        FIELD(name);
    }
    void operator()(ast::scalar::in_predicate const& n) {
        frame f { *this, "scalar::in_predicate", n };
        FIELD(left);
        FIELD(right);
        FIELD(is_not);
    }
    void operator()(ast::scalar::literal_expression const& n) {
        frame f { *this, "scalar::literal_expression", n };
        FIELD(value);
    }
    void operator()(ast::scalar::method_invocation const& n) {
        frame f { *this, "scalar::method_invocation", n };
        FIELD(operator_kind);
        FIELD(value);
        FIELD(name);
        FIELD(arguments);
    }
    void operator()(ast::scalar::new_invocation const& n) {
        frame f { *this, "scalar::new_invocation", n };
        FIELD(type);
        FIELD(arguments);
    }
    void operator()(ast::scalar::pattern_match_predicate const& n) {
        frame f { *this, "scalar::pattern_match_predicate", n };
        FIELD(operator_kind);
        FIELD(match_value);
        FIELD(pattern);
        FIELD(escape);
        FIELD(is_not);
    }
    void operator()(ast::scalar::placeholder_reference const& n) {
        frame f { *this, "scalar::placeholder_reference", n };
        FIELD(index);
    }
    void operator()(ast::scalar::quantified_comparison_predicate const& n) {
        frame f { *this, "scalar::quantified_comparison_predicate", n };
        FIELD(operator_kind);
        FIELD(quantifier);
        FIELD(left);
        FIELD(right);
    }
    void operator()(ast::scalar::static_method_invocation const& n) {
        frame f { *this, "scalar::static_method_invocation", n };
        FIELD(type);
        FIELD(name);
        FIELD(arguments);
    }
    void operator()(ast::scalar::subquery const& n) {
        frame f { *this, "scalar::subquery", n };
        FIELD(query);
        FIELD(context_kind);
    }
    void operator()(ast::scalar::table_predicate const& n) {
        frame f { *this, "scalar::table_predicate", n };
        FIELD(operator_kind);
        FIELD(operand);
    }
    void operator()(ast::scalar::trim_expression const& n) {
        frame f { *this, "scalar::trim_expression", n };
        FIELD(specification);
        FIELD(character);
        FIELD(source);
    }
    void operator()(ast::scalar::unary_expression const& n) {
        frame f { *this, "scalar::unary_expression", n };
        FIELD(operator_kind);
        FIELD(operand);
    }
    void operator()(ast::scalar::value_constructor const& n) {
        frame f { *this, "scalar::value_constructor", n };
        FIELD(operator_kind);
        FIELD(elements);
    }
    void operator()(ast::scalar::variable_reference const& n) {
        frame f { *this, "scalar::variable_reference", n };
        FIELD(name);
    }
    void operator()(ast::statement::alter_index_statement const& n) {
        frame f { *this, "statement::alter_index_statement", n };
        FIELD(if_exists);
        FIELD(name);
        FIELD(action);
    }
    void operator()(ast::statement::alter_table_statement const& n) {
        frame f { *this, "statement::alter_table_statement", n };
        FIELD(if_exists);
        FIELD(name);
        FIELD(action);
    }
    void operator()(ast::statement::column_constraint_definition const& n) {
        frame f { *this, "statement::column_constraint_definition", n };
        FIELD(name);
        FIELD(body);
    }
    void operator()(ast::statement::column_definition const& n) {
        frame f { *this, "statement::column_definition", n };
        FIELD(name);
        FIELD(type);
        FIELD(constraints);
    }
    void operator()(ast::statement::delete_statement const& n) {
        frame f { *this, "statement::delete_statement", n };
        FIELD(table_name);
        FIELD(alias_name);
        FIELD(where);
    }
    void operator()(ast::statement::drop_statement const& n) {
        frame f { *this, "statement::drop_statement", n };
        FIELD(statement_kind);
        FIELD(name);
        FIELD(options);
    }
    void operator()(ast::statement::empty_statement const& n) {
        frame f { *this, "statement::empty_statement", n };
    }
    void operator()(ast::statement::expression_constraint const& n) {
        frame f { *this, "statement::expression_constraint", n };
        FIELD(constraint_kind);
        FIELD(expression);
    }
    void operator()(ast::statement::grant_privilege_statement const& n) {
        frame f { *this, "statement::grant_privilege_statement", n };
        FIELD(actions);
        FIELD(objects);
        FIELD(users);
    }
    void operator()(ast::statement::identity_constraint const& n) {
        frame f { *this, "statement::identity_constraint", n };
        FIELD(generation);
        FIELD(initial_value);
        FIELD(increment_value);
        FIELD(min_value);
        FIELD(max_value);
        FIELD(cycle);
    }
    void operator()(ast::statement::index_definition const& n) {
        frame f { *this, "statement::index_definition", n };
        FIELD(name);
        FIELD(table_name);
        FIELD(keys);
        FIELD(values);
        FIELD(predicate);
        FIELD(options);
        FIELD(parameters);
    }
    void operator()(ast::statement::insert_statement const& n) {
        frame f { *this, "statement::insert_statement", n };
        FIELD(table_name);
        FIELD(columns);
        FIELD(expression);
        FIELD(options);
    }
    void operator()(ast::statement::key_constraint const& n) {
        frame f { *this, "statement::key_constraint", n };
        FIELD(constraint_kind);
        FIELD(key);
        FIELD(values);
        FIELD(parameters);
    }
    void operator()(ast::statement::privilege_action const& n) {
        frame f { *this, "statement::privilege_action", n };
        FIELD(action_kind);
    }
    void operator()(ast::statement::privilege_object const& n) {
        frame f { *this, "statement::privilege_object", n };
        FIELD(object_kind);
        FIELD(object_name);
    }
    void operator()(ast::statement::privilege_user const& n) {
        frame f { *this, "statement::privilege_user", n };
        FIELD(user_kind);
        FIELD(authorization_identifier);
    }
    void operator()(ast::statement::referential_constraint const& n) {
        frame f { *this, "statement::referential_constraint", n };
        FIELD(columns);
        FIELD(target);
        FIELD(target_columns);
        FIELD(on_update);
        FIELD(on_delete);
    }
    void operator()(ast::statement::rename_column_action const& n) {
        frame f { *this, "statement::rename_column_action", n };
        FIELD(if_exists);
        FIELD(column_name);
        FIELD(replacement);
    }
    void operator()(ast::statement::rename_index_action const& n) {
        frame f { *this, "statement::rename_index_action", n };
        FIELD(replacement);
    }
    void operator()(ast::statement::rename_table_action const& n) {
        frame f { *this, "statement::rename_table_action", n };
        FIELD(replacement);
    }
    void operator()(ast::statement::revoke_privilege_statement const& n) {
        frame f { *this, "statement::revoke_privilege_statement", n };
        FIELD(actions);
        FIELD(objects);
        FIELD(users);
    }
    void operator()(ast::statement::schema_definition const& n) {
        frame f { *this, "statement::schema_definition", n };
        FIELD(name);
        FIELD(user_name);
        FIELD(elements);
        FIELD(options);
    }
    void operator()(ast::statement::select_statement const& n) {
        frame f { *this, "statement::select_statement", n };
        FIELD(expression);
        FIELD(targets);
    }
    void operator()(ast::statement::sequence_definition const& n) {
        frame f { *this, "statement::sequence_definition", n };
        FIELD(name);
        FIELD(type);
        FIELD(initial_value);
        FIELD(increment_value);
        FIELD(min_value);
        FIELD(max_value);
        FIELD(options);
        FIELD(owner);
    }
    void operator()(ast::statement::set_element const& n) {
        frame f { *this, "statement::set_element", n };
        FIELD(target);
        FIELD(value);
    }
    void operator()(ast::statement::simple_constraint const& n) {
        frame f { *this, "statement::simple_constraint", n };
        FIELD(constraint_kind);
    }
    void operator()(ast::statement::storage_parameter const& n) {
        frame f { *this, "statement::storage_parameter", n };
        FIELD(name);
        FIELD(value);
    }
    void operator()(ast::statement::table_constraint_definition const& n) {
        frame f { *this, "statement::table_constraint_definition", n };
        FIELD(name);
        FIELD(body);
    }
    void operator()(ast::statement::table_definition const& n) {
        frame f { *this, "statement::table_definition", n };
        FIELD(name);
        FIELD(elements);
        FIELD(options);
        FIELD(parameters);
    }
    void operator()(ast::statement::truncate_table_statement const& n) {
        frame f { *this, "statement::truncate_table_statement", n };
        FIELD(name);
        FIELD(identity_column_option);
    }
    void operator()(ast::statement::update_statement const& n) {
        frame f { *this, "statement::update_statement", n };
        FIELD(table_name);
        FIELD(alias_name);
        FIELD(elements);
        FIELD(where);
    }
    void operator()(ast::statement::view_definition const& n) {
        frame f { *this, "statement::view_definition", n };
        FIELD(name);
        FIELD(columns);
        FIELD(query);
        FIELD(options);
        FIELD(parameters);
    }
    void operator()(ast::table::apply const& n) {
        frame f { *this, "table::apply", n };
        FIELD(operand);
        FIELD(operator_kind);
        FIELD(name);
        FIELD(arguments);
        FIELD(correlation);
    }
    void operator()(ast::table::correlation_clause const& n) {
        frame f { *this, "table::correlation_clause", n };
        FIELD(correlation_name);
        FIELD(column_names);
    }
    void operator()(ast::table::join const& n) {
        frame f { *this, "table::join", n };
        FIELD(operator_kind);
        FIELD(left);
        FIELD(right);
        FIELD(specification);
    }
    void operator()(ast::table::join_columns const& n) {
        frame f { *this, "table::join_columns", n };
        FIELD(columns);
    }
    void operator()(ast::table::join_condition const& n) {
        frame f { *this, "table::join_condition", n };
        FIELD(expression);
    }
    void operator()(ast::table::subquery const& n) {
        frame f { *this, "table::subquery", n };
        FIELD(expression);
        FIELD(correlation);
        FIELD(is_lateral);
    }
    void operator()(ast::table::table_reference const& n) {
        frame f { *this, "table::table_reference", n };
        FIELD(name);
        FIELD(correlation);
        FIELD(is_only);
    }
    void operator()(ast::table::unnest const& n) {
        frame f { *this, "table::unnest", n };
        FIELD(expression);
        FIELD(with_ordinality);
        FIELD(correlation);
    }
    void operator()(ast::type::binary_numeric const& n) {
        frame f { *this, "type::binary_numeric", n };
        FIELD(type_kind);
        FIELD(precision);
    }
    void operator()(ast::type::bit_string const& n) {
        frame f { *this, "type::bit_string", n };
        FIELD(type_kind);
        FIELD(length);
    }
    void operator()(ast::type::character_string const& n) {
        frame f { *this, "type::character_string", n };
        FIELD(type_kind);
        FIELD(length);
    }
    void operator()(ast::type::collection const& n) {
        frame f { *this, "type::collection", n };
        FIELD(element);
        FIELD(length);
    }
    void operator()(ast::type::datetime const& n) {
        frame f { *this, "type::datetime", n };
        FIELD(type_kind);
        FIELD(has_time_zone);
    }
    void operator()(ast::type::decimal const& n) {
        frame f { *this, "type::decimal", n };
        FIELD(type_kind);
        FIELD(precision);
        FIELD(scale);
    }
    void operator()(ast::type::field_definition const& n) {
        frame f { *this, "type::field_definition", n };
        FIELD(name);
        FIELD(type);
        FIELD(collation);
    }
    void operator()(ast::type::interval const& n) {
        frame f { *this, "type::interval", n };
    }
    void operator()(ast::type::octet_string const& n) {
        frame f { *this, "type::octet_string", n };
        FIELD(type_kind);
        FIELD(length);
    }
    void operator()(ast::type::row const& n) {
        frame f { *this, "type::row", n };
        FIELD(elements);
    }
    void operator()(ast::type::simple const& n) {
        frame f { *this, "type::simple", n };
    }
    void operator()(ast::type::user_defined const& n) {
        frame f { *this, "type::user_defined", n };
        FIELD(name);
    }
private:
    std::string owner_ {};
    std::string field_ {};
    ast::node_region region_ {};
    std::size_t index_ { static_cast<std::size_t>(-1) };

    struct frame {
        basic_walker& w;
        std::string owner, field;
        ast::node_region region;
        std::size_t index;
        template<class N>
        frame(basic_walker& w_, char const* name, N const& n) : frame { w_, name, n.region() } { if (w.hook) w.hook->node(name, n); }
        frame(basic_walker& w_, char const* name, ast::node_region r) : w { w_ }, owner { w_.owner_ }, field { w_.field_ }, region { w_.region_ }, index { w_.index_ } {
            w.items.push_back({ name, {}, w.owner_.empty() ? std::string {} : w.owner_ + "." + w.field_, r, w.region_, w.index_ });
            w.index_ = w.items.size() - 1;
            w.owner_ = name;
            w.region_ = r;
        }
        ~frame() {
            w.owner_ = owner;
            w.field_ = field;
            w.region_ = region;
            w.index_ = index;
        }
        frame(frame const&) = delete;
        frame& operator=(frame const&) = delete;
    };

    template<class X>
    void field(char const* name, X const& v) {
        field_ = name;
        visit(v);
    }
    template<class X>
    void leaf(X const& v, ast::node_region r) {
        std::ostringstream ss;
        ss << std::boolalpha << v;
        items.push_back({ owner_, field_, ss.str(), r, region_, index_ });
    }
    template<class X> void visit(ast::common::regioned<X> const& v) { leaf(v.value(), v.region()); }
    template<class X> void visit(std::optional<X> const& v) { if (v) visit(*v); }
    template<class X> void visit(std::vector<X> const& v) { for (auto& e : v) visit(e); }
    template<class X> void visit(std::unique_ptr<X> const& v) { if (v) visit(*v); }
    template<class X> auto visit(X const&) -> std::enable_if_t<std::is_enum_v<X> || std::is_integral_v<X>> {}
    void visit(ast::literal::literal const& n) { ast::literal::dispatch(*this, n); }
    void visit(ast::name::name const& n) { ast::name::dispatch(*this, n); }
    void visit(ast::query::expression const& n) { ast::query::dispatch(*this, n); }
    void visit(ast::query::grouping_element const& n) { ast::query::dispatch(*this, n); }
    void visit(ast::query::select_element const& n) { ast::query::dispatch(*this, n); }
    void visit(ast::scalar::expression const& n) { ast::scalar::dispatch(*this, n); }
    void visit(ast::statement::statement const& n) { ast::statement::dispatch(*this, n); }
    void visit(ast::statement::table_element const& n) { ast::statement::dispatch(*this, n); }
    void visit(ast::statement::constraint const& n) { ast::statement::dispatch(*this, n); }
    void visit(ast::statement::alter_table_action const& n) { ast::statement::dispatch(*this, n); }
    void visit(ast::statement::alter_index_action const& n) { ast::statement::dispatch(*this, n); }
    void visit(ast::table::expression const& n) { ast::table::dispatch(*this, n); }
    void visit(ast::table::join_specification const& n) { ast::table::dispatch(*this, n); }
    void visit(ast::type::type const& n) { ast::type::dispatch(*this, n); }
    template<class X>
    auto visit(X const& n) -> std::enable_if_t<std::is_base_of_v<ast::element, X>> { return (*this)(n); }
};

#undef FIELD

using walker = basic_walker<>;

} // namespace regwalk
