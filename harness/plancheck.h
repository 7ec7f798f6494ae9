// The result of an analysis as text which does not depend on the identities of variables, and its static validity:
// every port is connected in its graph, and every expression only uses variables which are available at its place.
#pragma once
#include <set>
#include "ana.h"
namespace plan {
using namespace ana;
using K = trel::expression_kind;
using vars = std::set<void const*>;

template<class D> std::string schema_of(D const& d) { return std::string { ybind::extract(d).name() }; }
inline std::string default_text(ystor::column_value const& v) {
    using C = ystor::column_value_kind;
    switch (v.kind()) {
        case C::nothing: return "-";
        case C::immediate: return str(*v.element<C::immediate>());
        case C::function: return "function " + std::string { v.element<C::function>()->name() };
        case C::sequence: {
            auto&& s = *v.element<C::sequence>();
            return "sequence " + std::to_string(s.initial_value()) + " by " + std::to_string(s.increment_value()) + " in " + std::to_string(s.min_value()) + ".." + std::to_string(s.max_value()) + (s.cycle() ? " cycle" : " once") + " '" + std::string { s.simple_name() } + "'";
        }
    }
    return "?";
}
inline std::string index_text(ystor::index const& i) {
    std::string r = "index '" + std::string { i.simple_name() } + "' on " + std::string { i.table().simple_name() } + " (";
    for (auto&& k : i.keys()) r += std::string { k.column().simple_name() } + " " + str(k.direction()) + ";";
    r += ")" + std::string { i.values().empty() ? "" : " with values" };
    for (auto f : { ystor::index_feature::primary, ystor::index_feature::find, ystor::index_feature::scan, ystor::index_feature::unique }) if (i.features().contains(f)) r += " " + str(f);
    return r + " [" + std::string { i.description() } + "]";
}
inline std::string column_text(std::string const& name, std::string const& type, bool nullable, std::string const& def, bool read_only, std::string const& doc) {
    return "\n  " + name + " " + type + (nullable ? " null" : " not null") + " default " + def + (read_only ? " read-only" : "") + " [" + doc + "]";
}

class writer {
public:
    std::string out;
    // a fault of the plan; nothing if it is valid
    std::string fault;

    void result(mana::sql_analyzer_result const& r) {
        using R = mana::sql_analyzer_result_kind;
        switch (r.kind()) {
            case R::diagnostics: out = diagnostics(r); break;
            case R::execution_plan: graph(r.element<R::execution_plan>()); break;
            case R::statement: statement(r.element<R::statement>()); break;
        }
    }
    void graph(trel::graph_type const& g) {
        trel::expression const* sink {};
        for (auto&& e : g) if (e.output_ports().empty()) { if (sink) bad("two sinks"); sink = &e; }
        if (!sink) { bad("there is no sink"); return; }
        structure(g, nullptr);
        seen_ = 0;
        relation(*sink, {});
        count(g);
    }
    void statement(tstmt::statement const& s) {
        using S = tstmt::statement_kind;
        auto& r = out;
        r += str(s.kind()) + " ";
        auto privileges = [&](auto&& x) {
            for (auto&& e : x.elements()) {
                r += "\n  " + std::string { ybind::extract<ystor::table>(e.table()).simple_name() } + " public:";
                for (auto&& p : e.default_privileges()) r += str(p) + ",";
                for (auto&& a : e.authorization_entries()) { r += " " + str(a.user_kind()) + " '" + std::string { a.authorization_identifier() } + "':"; for (auto&& p : a.privileges()) r += str(p) + ","; }
            }
        };
        auto table = [](auto&& d) { return std::string { ybind::extract<ystor::table>(d).simple_name() }; };
        auto index = [](auto&& d) { return std::string { ybind::extract<ystor::index>(d).simple_name() }; };
        switch (s.kind()) {
            case S::create_table: {
                auto&& x = static_cast<tstmt::create_table const&>(s);
                auto&& t = ybind::extract<ystor::table>(x.definition());
                r += schema_of(x.schema()) + "." + std::string { t.simple_name() } + " [" + std::string { t.description() } + "]";
                for (auto&& col : t.columns()) {
                    r += column_text(std::string { col.simple_name() }, str(col.type()), col.criteria().nullity() == ::yugawara::variable::nullable, default_text(col.default_value()), col.features().contains(ystor::column_feature::read_only), std::string { col.description() });
                    if (col.features().contains(ystor::column_feature::hidden) || col.features().contains(ystor::column_feature::synthesized)) r += " (unexpected feature)";
                }
                auto&& i = ybind::extract<ystor::index>(x.primary_key());
                r += "\n  " + index_text(i);
                if (&i.table() != &t) bad("primary key of another table");
                for (auto&& k : i.keys()) { bool own = false; for (auto&& col : t.columns()) own = own || &col == &k.column(); if (!own) bad("foreign key column"); }
                break;
            }
            case S::create_index: { auto&& x = static_cast<tstmt::create_index const&>(s); r += schema_of(x.schema()) + ". " + index_text(ybind::extract<ystor::index>(x.definition())); break; }
            case S::drop_table: { auto&& x = static_cast<tstmt::drop_table const&>(s); r += schema_of(x.schema()) + "." + table(x.target()); break; }
            case S::drop_index: { auto&& x = static_cast<tstmt::drop_index const&>(s); r += schema_of(x.schema()) + "." + index(x.target()); break; }
            case S::rename_table: { auto&& x = static_cast<tstmt::rename_table const&>(s); r += schema_of(x.schema()) + "." + table(x.target()) + " to " + x.replacement(); break; }
            case S::rename_index: { auto&& x = static_cast<tstmt::rename_index const&>(s); r += schema_of(x.schema()) + "." + index(x.target()) + " to " + x.replacement(); break; }
            case S::rename_column: { auto&& x = static_cast<tstmt::rename_column const&>(s); r += table(x.table()) + "." + std::string { ybind::extract<ystor::column>(x.target()).simple_name() } + " to " + x.replacement(); break; }
            case S::truncate_table: { auto&& x = static_cast<tstmt::truncate_table const&>(s); r += table(x.target()) + (x.options().contains(tstmt::truncate_table_option_kind::restart_identity) ? " restart" : ""); break; }
            case S::grant_table: privileges(static_cast<tstmt::grant_table const&>(s)); break;
            case S::revoke_table: privileges(static_cast<tstmt::revoke_table const&>(s)); break;
            case S::empty: break;
            case S::write: {
                auto&& w = static_cast<tstmt::write const&>(s);
                auto&& i = ybind::extract<ystor::index>(w.destination());
                r += str(w.operator_kind()) + " " + index_text(i) + " (";
                for (auto&& c : w.columns()) r += column(c, i.table()) + ",";
                r += ")";
                rows_of_write_ = true;
                for (auto&& t : w.tuples()) {
                    if (t.elements().size() != w.columns().size()) bad("inconsistent number of elements");
                    r += "\n  ";
                    for (auto&& e : t.elements()) { scalar(e, {}, {}); r += ", "; }
                }
                break;
            }
            default: bad("unexpected statement"); break;
        }
    }
private:
    std::map<void const*, int> ids_ {};
    std::size_t seen_ {};
    int indent_ {};
    bool rows_of_write_ {}; // of a statement, which has no graph to evaluate sub-queries

    void bad(std::string s) { if (fault.empty()) fault = std::move(s); }
    void line(std::string const& s) { out += "\n" + std::string(static_cast<std::size_t>(indent_), ' ') + s; }
    std::string name(tdesc::variable const& v) {
        if (!v) { bad("empty variable"); return "(none)"; }
        using V = ybind::variable_info_kind;
        switch (ybind::kind_of(v)) {
            case V::stream_variable: case V::local_variable: case V::frame_variable: return (ybind::kind_of(v) == V::stream_variable ? "$" : "%") + std::to_string(ids_.emplace(v.identity(), static_cast<int>(ids_.size())).first->second);
            case V::table_column: return std::string { ybind::extract<ystor::column>(v).simple_name() };
            case V::external_variable: return "ext " + std::string { ybind::extract<::yugawara::variable::declaration>(v).name() };
            default: return str(ybind::kind_of(v));
        }
    }
    std::string column(tdesc::variable const& v, ystor::table const& t) {
        auto c = ybind::extract_if<ystor::column>(v);
        if (!c) { bad("not a column of a table"); return "?"; }
        if (&c->owner() != &t) bad("a column of another table: " + std::string { c->simple_name() });
        return std::string { c->simple_name() };
    }
    std::string use(tdesc::variable const& v, vars const& row, vars const& frame) {
        using V = ybind::variable_info_kind;
        auto n = name(v);
        if (!v) return n;
        bool ok = true;
        switch (ybind::kind_of(v)) {
            case V::stream_variable: ok = row.count(v.identity()) != 0; break;
            case V::local_variable: case V::frame_variable: ok = frame.count(v.identity()) != 0; break;
            case V::external_variable: break;
            default: ok = false; break;
        }
        if (!ok) bad("the variable is not available at its use: " + str(v));
        return n;
    }
    std::string define(tdesc::variable const& v, vars& row) {
        auto n = name(v);
        if (!v) return n;
        if (ybind::kind_of(v) != ybind::variable_info_kind::stream_variable) bad("definition of something else than a stream variable: " + str(v));
        if (!row.insert(v.identity()).second) bad("the variable is defined twice: " + str(v));
        return n;
    }
    void count(trel::graph_type const& g) { std::size_t n = 0; for (auto&& e : g) { (void) e; ++n; } if (n != seen_) bad("the graph has unreachable operators"); }
    void structure(trel::graph_type const& g, trel::output_port const* open) {
        for (auto&& e : g) {
            for (auto&& p : e.input_ports()) if (!p.opposite()) bad("input is not connected: " + str(e.kind())); else if (!g.contains(p.opposite()->owner())) bad("connected to out of the graph: " + str(e.kind()));
            for (auto&& p : e.output_ports()) if (&p != open) { if (!p.opposite()) bad("output is not connected: " + str(e.kind())); else if (!g.contains(p.opposite()->owner())) bad("connected to out of the graph: " + str(e.kind())); }
        }
    }
    template<class L> void list(L const& l, vars const& row, vars const& frame) { out += "("; for (auto&& e : l) { scalar(e, row, frame); out += ", "; } out += ")"; }
    template<class Q> vars query(Q const& q, vars const& frame) {
        auto port = q.find_output_port();
        if (!port) { bad("the output of the query is not identified"); return {}; }
        structure(q.query_graph(), port.get());
        auto saved = seen_; seen_ = 0;
        indent_ += 4;
        auto r = relation(port->owner(), frame);
        indent_ -= 4;
        count(q.query_graph());
        seen_ = saved;
        return r;
    }
    template<class Q> vars parameters(Q const& q, vars const& row, vars const& frame) {
        vars r;
        for (auto&& p : q.parameters()) {
            if (ybind::kind_of(p.destination()) != ybind::variable_info_kind::frame_variable) bad("the parameter is not a frame variable");
            out += " " + name(p.destination()) + "=" + use(p.source(), row, frame);
            if (!r.insert(p.destination().identity()).second) bad("duplicate parameter");
        }
        return r;
    }
    void scalar(tscalar::expression const& e, vars const& row, vars const& frame) {
        using S = tscalar::expression_kind;
        auto sub = [&](tscalar::expression const& x) { scalar(x, row, frame); };
        switch (e.kind()) {
            case S::immediate: { auto& x = static_cast<tscalar::immediate const&>(e); out += str(x.value()) + ":" + str(x.type()); return; }
            case S::variable_reference: out += use(static_cast<tscalar::variable_reference const&>(e).variable(), row, frame); return;
            case S::unary: { auto& x = static_cast<tscalar::unary const&>(e); out += str(x.operator_kind()) + "("; sub(x.operand()); out += ")"; return; }
            case S::cast: { auto& x = static_cast<tscalar::cast const&>(e); out += "cast[" + str(x.type()) + " " + str(x.loss_policy()) + "]("; sub(x.operand()); out += ")"; return; }
            case S::binary: { auto& x = static_cast<tscalar::binary const&>(e); out += str(x.operator_kind()) + "("; sub(x.left()); out += ", "; sub(x.right()); out += ")"; return; }
            case S::compare: { auto& x = static_cast<tscalar::compare const&>(e); out += str(x.operator_kind()) + "("; sub(x.left()); out += ", "; sub(x.right()); out += ")"; return; }
            case S::match: { auto& x = static_cast<tscalar::match const&>(e); out += str(x.operator_kind()) + "("; sub(x.input()); out += ", "; sub(x.pattern()); out += ", "; sub(x.escape()); out += ")"; return; }
            case S::conditional: {
                auto& x = static_cast<tscalar::conditional const&>(e);
                out += "case(";
                for (auto&& a : x.alternatives()) { out += " when "; sub(a.condition()); out += " then "; sub(a.body()); }
                if (x.default_expression()) { out += " else "; sub(*x.default_expression()); }
                out += ")";
                return;
            }
            case S::coalesce: out += "coalesce"; list(static_cast<tscalar::coalesce const&>(e).alternatives(), row, frame); return;
            case S::let: {
                auto& x = static_cast<tscalar::let const&>(e);
                vars next = frame;
                out += "let(";
                for (auto&& v : x.variables()) {
                    if (ybind::kind_of(v.variable()) != ybind::variable_info_kind::local_variable) bad("let of something else than a local variable");
                    out += name(v.variable()) + "="; sub(v.value()); out += ", ";
                    next.insert(v.variable().identity());
                }
                scalar(x.body(), row, next);
                out += ")";
                return;
            }
            case S::function_call: { auto& x = static_cast<tscalar::function_call const&>(e); auto&& f = ybind::extract(x.function()); function(f, x.arguments().size(), false); list(x.arguments(), row, frame); return; }
            case S::extension: break;
        }
        namespace x = ::yugawara::extension::scalar;
        auto& ext = static_cast<tscalar::extension const&>(e);
        if (rows_of_write_) bad("a sub-query in a write statement");
        if (ext.extension_id() == x::subquery::extension_tag) {
            auto& q = static_cast<x::subquery const&>(e); out += "subquery[";
            auto r = query(q, parameters(q, row, frame)); out += "] " + use(q.output_column(), r, {});
        } else if (ext.extension_id() == x::exists::extension_tag) {
            auto& q = static_cast<x::exists const&>(e); out += "exists[";
            query(q, parameters(q, row, frame)); out += "]";
        } else if (ext.extension_id() == x::quantified_compare::extension_tag) {
            auto& q = static_cast<x::quantified_compare const&>(e); out += "compare " + str(q.operator_kind()) + " " + str(q.quantifier()) + "("; sub(q.left()); out += ") [";
            auto r = query(q, parameters(q, row, frame)); out += "] " + use(q.right_column(), r, {});
        } else bad("unexpected scalar extension (aggregate function calls must be expanded)");
    }
    template<class D> void function(D const& f, std::size_t args, bool table) {
        out += std::string { f.name() } + "{";
        for (auto&& p : f.shared_parameter_types()) out += str(*p) + ",";
        out += "}";
        if (f.shared_parameter_types().size() != args) bad("inconsistent number of arguments");
        using F = ::yugawara::function::function_feature;
        if constexpr (!std::is_same_v<std::decay_t<D>, ::yugawara::aggregate::declaration>)
            if (!f.features().contains(table ? F::table_valued_function : F::scalar_function)) bad("function of another kind");
    }
    vars input(trel::input_port const& p, vars const& frame) {
        if (!p.opposite()) { bad("input is not connected"); return {}; }
        indent_ += 2;
        auto r = relation(p.opposite()->owner(), frame);
        indent_ -= 2;
        return r;
    }
    vars merge(vars a, vars const& b) { for (auto v : b) if (!a.insert(v).second) bad("the variable comes from both inputs"); return a; }
    // the inputs come first
    vars relation(trel::expression const& e, vars const& frame) {
        if (++seen_ > 5000) { bad("cyclic graph"); return {}; }
        switch (e.kind()) {
            case K::scan: {
                auto& o = static_cast<trel::scan const&>(e);
                auto&& index = ybind::extract<ystor::index>(o.source());
                if (o.lower() || o.upper() || o.limit()) bad("unexpected range of scan");
                vars r;
                line("scan " + index_text(index) + ":");
                for (auto&& m : o.columns()) { auto s = column(m.source(), index.table()); out += " " + define(m.destination(), r) + "=" + s; }
                return r;
            }
            case K::values: {
                auto& o = static_cast<trel::values const&>(e);
                vars r;
                line("values");
                for (auto&& c : o.columns()) out += " " + define(c, r);
                for (auto&& x : o.rows()) {
                    if (x.elements().size() != o.columns().size()) bad("inconsistent number of elements");
                    line("  "); list(x.elements(), {}, frame);
                }
                return r;
            }
            case K::filter: { auto& o = static_cast<trel::filter const&>(e); auto r = input(o.input(), frame); line("filter "); scalar(o.condition(), r, frame); return r; }
            case K::project: {
                auto& o = static_cast<trel::project const&>(e);
                auto r = input(o.input(), frame); auto n = r;
                line("project");
                for (auto&& c : o.columns()) { out += " ["; scalar(c.value(), n, frame); auto d = define(c.variable(), n); out += " as " + d + "]"; }
                return n;
            }
            case K::apply: {
                auto& o = static_cast<trel::apply const&>(e);
                auto&& f = ybind::extract(o.function());
                auto r = input(o.input(), frame);
                line("apply " + str(o.operator_kind()) + " "); function(f, o.arguments().size(), true); list(o.arguments(), r, frame);
                std::size_t width = f.return_type().kind() == ttype::type_kind::table ? static_cast<ttype::table const&>(f.return_type()).columns().size() : 0;
                for (auto&& c : o.columns()) { if (c.position() >= width) bad("out of the columns of the function"); out += " " + define(c.variable(), r) + "=" + std::to_string(c.position()); }
                return r;
            }
            case K::join_relation: {
                auto& o = static_cast<trel::intermediate::join const&>(e);
                if (o.lower() || o.upper()) bad("unexpected range of join");
                auto l = input(o.left(), frame); auto r = merge(std::move(l), input(o.right(), frame));
                line("join " + str(o.operator_kind()) + " ");
                if (o.condition()) scalar(*o.condition(), r, frame);
                return r;
            }
            case K::aggregate_relation: {
                auto& o = static_cast<trel::intermediate::aggregate const&>(e);
                auto u = input(o.input(), frame); vars r;
                line("aggregate by");
                for (auto&& k : o.group_keys()) { out += " " + use(k, u, {}); if (!r.insert(k.identity()).second) bad("duplicate group key"); }
                for (auto&& c : o.columns()) {
                    out += " "; function(ybind::extract(c.function()), c.arguments().size(), false); out += "(";
                    for (auto&& v : c.arguments()) out += use(v, u, {}) + ",";
                    out += ") as " + define(c.destination(), r);
                }
                return r;
            }
            case K::distinct_relation: {
                auto& o = static_cast<trel::intermediate::distinct const&>(e);
                auto r = input(o.input(), frame);
                line("distinct");
                for (auto&& v : o.group_keys()) out += " " + use(v, r, {});
                return r;
            }
            case K::limit_relation: {
                auto& o = static_cast<trel::intermediate::limit const&>(e);
                auto r = input(o.input(), frame);
                line("limit " + (o.count() ? std::to_string(*o.count()) : std::string { "-" }));
                if (!o.group_keys().empty()) bad("grouped limit");
                for (auto&& k : o.sort_keys()) out += " " + use(k.variable(), r, {}) + " " + str(k.direction());
                return r;
            }
            case K::union_relation: {
                auto& o = static_cast<trel::intermediate::union_ const&>(e);
                auto l = input(o.left(), frame), r = input(o.right(), frame); vars n;
                line("union " + str(o.quantifier()));
                for (auto&& m : o.mappings()) {
                    auto a = m.left() ? use(*m.left(), l, {}) : std::string { "-" }, b = m.right() ? use(*m.right(), r, {}) : std::string { "-" };
                    out += " " + define(m.destination(), n) + "=" + a + "|" + b;
                }
                return n;
            }
            case K::difference: return set_op(static_cast<trel::intermediate::difference const&>(e), frame);
            case K::intersection: return set_op(static_cast<trel::intermediate::intersection const&>(e), frame);
            case K::extension: {
                auto& x = static_cast<::yugawara::extension::relation::subquery const&>(e);
                line("subquery [");
                auto u = query(x, {}); vars n;
                out += "]";
                for (auto&& m : x.mappings()) { auto s = use(m.source(), u, {}); out += " " + define(m.destination(), n) + "=" + s; }
                return n;
            }
            case K::emit: {
                auto& o = static_cast<trel::emit const&>(e);
                auto r = input(o.input(), frame);
                line("emit");
                for (auto&& c : o.columns()) out += " [" + use(c.source(), r, {}) + " as " + (c.name() ? "'" + *c.name() + "'" : "-") + "]";
                return {};
            }
            case K::write: {
                auto& o = static_cast<trel::write const&>(e);
                auto&& index = ybind::extract<ystor::index>(o.destination());
                auto r = input(o.input(), frame);
                line("write " + str(o.operator_kind()) + " " + index_text(index));
                auto put = [&](auto&& l) { std::set<std::string> saw; for (auto&& m : l) { auto c = column(m.destination(), index.table()); if (!saw.insert(c).second) bad("written twice: " + c); out += " " + c + "=" + use(m.source(), r, {}); } };
                out += " by"; put(o.keys()); out += " set"; put(o.columns());
                return {};
            }
            default: bad("unexpected operator: " + str(e.kind())); return {};
        }
    }
    template<class O> vars set_op(O const& o, vars const& frame) {
        auto l = input(o.left(), frame), r = input(o.right(), frame);
        line(str(o.kind()) + " " + str(o.quantifier()));
        for (auto&& p : o.group_key_pairs()) { out += " " + use(p.left(), l, {}) + "|"; out += use(p.right(), r, {}); }
        return l;
    }
};
inline std::string text(mana::sql_analyzer_result const& r, std::string* fault = nullptr) {
    writer w; w.result(r);
    if (fault) *fault = w.fault;
    return w.out;
}
} // namespace plan
