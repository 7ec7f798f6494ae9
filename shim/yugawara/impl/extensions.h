// Stand-in of yugawara's extensions of the intermediate representation: sub-queries and aggregate calls in scalar expressions.
#pragma once
#include "decls.h"
namespace yugawara::extension {
namespace shim {
using graph = ::takatori::relation::graph_type;
using variable = ::takatori::descriptor::variable;
inline graph copy(graph const& g) { graph r {}; ::takatori::relation::merge_into(g, r); return r; }
// the only output port of the graph which is not connected
template<class P, class G> ::takatori::util::optional_ptr<P> open_output(G& g) {
    P* found {};
    for (auto&& e : g) for (auto&& p : e.output_ports()) if (!p.opposite()) { if (found) return {}; found = &p; }
    return ::takatori::util::optional_ptr<P> { found };
}
class parameter {
public:
    parameter(variable s, variable d) noexcept : source_ { std::move(s) }, destination_ { std::move(d) } {}
    SHIM_FIELD(variable, source) SHIM_FIELD(variable, destination)
    friend bool operator==(parameter const& a, parameter const& b) { return a.source_ == b.source_ && a.destination_ == b.destination_; }
    friend std::ostream& operator<<(std::ostream& out, parameter const& v) { return out << v.source_ << "->" << v.destination_; }
private:
    variable source_, destination_;
};
// what the extensions which hold a query have in common
#define SHIM_QUERY_GRAPH \
    using graph_type = ::takatori::relation::graph_type; using output_port_type = ::takatori::relation::output_port; \
    [[nodiscard]] graph_type& query_graph() noexcept { return graph_; } \
    [[nodiscard]] graph_type const& query_graph() const noexcept { return graph_; } \
    [[nodiscard]] ::takatori::util::optional_ptr<output_port_type> find_output_port() noexcept { return ::yugawara::extension::shim::open_output<output_port_type>(graph_); } \
    [[nodiscard]] ::takatori::util::optional_ptr<output_port_type const> find_output_port() const noexcept { return ::yugawara::extension::shim::open_output<output_port_type const>(graph_); }
template<std::size_t Id> class query : public ::takatori::scalar::extension {
public:
    static constexpr extension_id_type extension_tag = Id;
    using parameter_type = parameter;
    query(graph g, std::vector<parameter> p) noexcept : graph_ { std::move(g) }, parameters_ { std::move(p) } {}
    query(query const& o) : extension { o }, graph_ { copy(o.graph_) }, parameters_ { o.parameters_ } {}
    query(query&&) = default;
    query& operator=(query const&) = delete; query& operator=(query&&) = delete;
    [[nodiscard]] extension_id_type extension_id() const noexcept override { return Id; }
    SHIM_QUERY_GRAPH
    SHIM_FIELD(std::vector<parameter>, parameters)
protected:
    graph graph_; std::vector<parameter> parameters_;
};
} // namespace shim
namespace scalar {
class subquery : public shim::query<1> {
public:
    SHIM_CLONE(subquery)
    subquery(shim::graph g, std::vector<parameter_type> p, shim::variable output) noexcept : query { std::move(g), std::move(p) }, output_column_ { std::move(output) } {}
    subquery(shim::graph g, shim::variable output) noexcept : query { std::move(g), {} }, output_column_ { std::move(output) } {}
    [[nodiscard]] ::takatori::scalar::expression_kind kind() const noexcept override { return ::takatori::scalar::expression_kind::extension; }
    SHIM_FIELD(shim::variable, output_column)
protected:
    [[nodiscard]] bool equals(extension const& o) const override { return this == &o; }
    std::ostream& print(std::ostream& out) const override { return out << "subquery(" << graph_ << ", " << output_column_ << ")"; }
private:
    shim::variable output_column_;
};
class exists : public shim::query<2> {
public:
    SHIM_CLONE(exists)
    exists(shim::graph g, std::vector<parameter_type> p = {}) noexcept : query { std::move(g), std::move(p) } {} // NOLINT
    [[nodiscard]] ::takatori::scalar::expression_kind kind() const noexcept override { return ::takatori::scalar::expression_kind::extension; }
protected:
    [[nodiscard]] bool equals(extension const& o) const override { return this == &o; }
    std::ostream& print(std::ostream& out) const override { return out << "exists(" << graph_ << ")"; }
};
class quantified_compare : public shim::query<3> {
public:
    SHIM_CLONE(quantified_compare)
    using operator_kind_type = ::takatori::scalar::comparison_operator; using quantifier_type = ::takatori::scalar::quantifier;
    quantified_compare(operator_kind_type k, quantifier_type q, ::takatori::scalar::child left, shim::graph g, std::vector<parameter_type> p, shim::variable right) noexcept
        : query { std::move(g), std::move(p) }, operator_kind_ { k }, quantifier_ { q }, left_ { std::move(left) }, right_column_ { std::move(right) } {}
    [[nodiscard]] ::takatori::scalar::expression_kind kind() const noexcept override { return ::takatori::scalar::expression_kind::extension; }
    [[nodiscard]] operator_kind_type operator_kind() const noexcept { return operator_kind_; }
    [[nodiscard]] quantifier_type quantifier() const noexcept { return quantifier_; }
    SHIM_CHILD(left) SHIM_FIELD(shim::variable, right_column)
protected:
    [[nodiscard]] bool equals(extension const& o) const override { return this == &o; }
    std::ostream& print(std::ostream& out) const override { return out << "quantified_compare(" << left_ << ", " << operator_kind_ << ", " << quantifier_ << ", " << graph_ << ", " << right_column_ << ")"; }
private:
    operator_kind_type operator_kind_; quantifier_type quantifier_; ::takatori::scalar::child left_; shim::variable right_column_;
};
class aggregate_function_call : public ::takatori::scalar::extension {
public:
    SHIM_CLONE(aggregate_function_call)
    static constexpr extension_id_type extension_tag = 4;
    using argument_vector = ::takatori::util::reference_vector<::takatori::scalar::expression>;
    explicit aggregate_function_call(::takatori::descriptor::aggregate_function f, argument_vector a = {}) noexcept : function_ { std::move(f) }, arguments_ { std::move(a) } {}
    aggregate_function_call(::takatori::descriptor::aggregate_function f, std::initializer_list<::takatori::util::rvalue_reference_wrapper<::takatori::scalar::expression>> a) : function_ { std::move(f) }, arguments_ { a } {}
    [[nodiscard]] ::takatori::scalar::expression_kind kind() const noexcept override { return ::takatori::scalar::expression_kind::extension; }
    [[nodiscard]] extension_id_type extension_id() const noexcept override { return extension_tag; }
    SHIM_FIELD(::takatori::descriptor::aggregate_function, function) SHIM_FIELD(argument_vector, arguments)
protected:
    [[nodiscard]] bool equals(extension const& o) const override { auto& b = static_cast<aggregate_function_call const&>(o); return function_ == b.function_ && arguments_ == b.arguments_; }
    std::ostream& print(std::ostream& out) const override { return out << "aggregate_function_call(" << function_ << arguments_ << ")"; }
private:
    ::takatori::descriptor::aggregate_function function_; argument_vector arguments_;
};
} // namespace scalar
namespace relation {
class subquery : public ::takatori::relation::extension {
public:
    SHIM_CLONE(subquery)
    static constexpr extension_id_type extension_tag = 1;
    using mapping_type = shim::parameter;
    subquery(shim::graph g, std::vector<mapping_type> m, bool is_clone = false) noexcept : graph_ { std::move(g) }, mappings_ { std::move(m) }, is_clone_ { is_clone } {}
    subquery(subquery const& o) : extension { o }, graph_ { shim::copy(o.graph_) }, mappings_ { o.mappings_ }, is_clone_ { true } {}
    subquery(subquery&& o) : extension { std::move(o) }, graph_ { std::move(o.graph_) }, mappings_ { std::move(o.mappings_) }, is_clone_ { o.is_clone_ } {} // NOLINT
    subquery& operator=(subquery const&) = delete; subquery& operator=(subquery&&) = delete;
    [[nodiscard]] extension_id_type extension_id() const noexcept override { return extension_tag; }
    SHIM_QUERY_GRAPH
    SHIM_FIELD(std::vector<mapping_type>, mappings)
    [[nodiscard]] bool& is_clone() noexcept { return is_clone_; }
    [[nodiscard]] bool is_clone() const noexcept { return is_clone_; }
protected:
    [[nodiscard]] bool equals(expression const& o) const override { return this == &o; }
    std::ostream& print(std::ostream& out) const override { return out << "subquery(" << graph_ << ", " << ::takatori::util::print_support { mappings_ } << ")"; }
private:
    shim::graph graph_; std::vector<mapping_type> mappings_; bool is_clone_;
};
} // namespace relation
} // namespace yugawara::extension
