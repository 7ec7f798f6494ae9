// Runs the analyzer over SQL text against generated catalogs, and interprets the plans it builds.
//
// The interpreter gives the operators of the dataflow language their documented meaning and nothing more: a row
// carries only the variables which the operators upstream define, so a plan which refers to anything else is reported.
#pragma once
#include <cmath>
#include <mizugaki/analyzer/sql_analyzer.h>
#include <mizugaki/parser/sql_parser.h>
#include <takatori/document/basic_document.h>
#include "pbt.h"

namespace ana {
namespace ttype = ::takatori::type;
namespace tvalue = ::takatori::value;
namespace tscalar = ::takatori::scalar;
namespace trel = ::takatori::relation;
namespace tstmt = ::takatori::statement;
namespace tdesc = ::takatori::descriptor;
namespace ybind = ::yugawara::binding;
namespace ystor = ::yugawara::storage;
namespace mana = ::mizugaki::analyzer;
using ::mizugaki::analyzer::sql_analyzer_code;

template<class T> std::string str(T const& v) { std::ostringstream o; o << v; return o.str(); }
template<class T> std::shared_ptr<ttype::data const> shared_type(T t) { return std::make_shared<T>(std::move(t)); }

// ---- values -----------------------------------------------------------------------------------------------------
struct val {
    enum kind_t { null, boolean, number, text } kind { null };
    std::int64_t i {}; // boolean and integer
    std::string s {};  // text
    val() = default;
    static val of(bool b) { val v; v.kind = boolean; v.i = b; return v; }
    static val of(std::int64_t n) { val v; v.kind = number; v.i = n; return v; }
    static val of(std::string t) { val v; v.kind = text; v.s = std::move(t); return v; }
    bool is_null() const { return kind == null; }
    bool is_true() const { return kind == boolean && i; }
    friend bool operator==(val const& a, val const& b) { return a.kind == b.kind && a.i == b.i && a.s == b.s; }
    friend bool operator!=(val const& a, val const& b) { return !(a == b); }
    friend bool operator<(val const& a, val const& b) { return std::tie(a.kind, a.i, a.s) < std::tie(b.kind, b.i, b.s); }
};
using row = std::vector<val>;
inline std::string show(val const& v) {
    switch (v.kind) {
        case val::null: return "null";
        case val::boolean: return v.i ? "true" : "false";
        case val::number: return std::to_string(v.i);
        default: return "'" + v.s + "'";
    }
}
inline std::string show(row const& r) { std::string s = "("; for (auto& v : r) s += (s.size() > 1 ? ", " : "") + show(v); return s + ")"; }
inline std::string show(std::vector<row> const& rs) { std::string s; for (auto& r : rs) s += "  " + show(r) + "\n"; return s; }

// ---- the meaning of scalar operations; what a function computes is left open -------------------------------------
namespace sem {
inline std::uint64_t digest(val const& v, std::uint64_t h) { return pbt::hash_str(v.s, pbt::mix(h ^ (static_cast<std::uint64_t>(v.i) * 31 + v.kind))); }
inline val neg(val const& a) { return a.is_null() ? val {} : val::of(static_cast<std::int64_t>(0 - static_cast<std::uint64_t>(a.i))); }
inline val not_(val const& a) { return a.is_null() ? val {} : val::of(!a.i); }
inline val and_(val const& a, val const& b) {
    if ((!a.is_null() && !a.i) || (!b.is_null() && !b.i)) return val::of(false);
    return a.is_null() || b.is_null() ? val {} : val::of(true);
}
inline val or_(val const& a, val const& b) { return not_(and_(not_(a), not_(b))); }
inline val arith(char op, val const& a, val const& b) {
    if (a.is_null() || b.is_null()) return {};
    auto x = static_cast<std::uint64_t>(a.i), y = static_cast<std::uint64_t>(b.i);
    switch (op) {
        case '+': return val::of(static_cast<std::int64_t>(x + y));
        case '-': return val::of(static_cast<std::int64_t>(x - y));
        case '*': return val::of(static_cast<std::int64_t>(x * y));
        default: break;
    }
    if (b.i == 0) return {};
    if (b.i == -1) return op == '/' ? neg(a) : val::of(std::int64_t { 0 });
    return val::of(op == '/' ? a.i / b.i : a.i % b.i);
}
inline val concat(val const& a, val const& b) { return a.is_null() || b.is_null() ? val {} : val::of(a.s + b.s); }
enum class cmp { eq, ne, lt, le, gt, ge };
inline val compare(cmp op, val const& a, val const& b) {
    if (a.is_null() || b.is_null()) return {};
    switch (op) {
        case cmp::eq: return val::of(a == b);
        case cmp::ne: return val::of(a != b);
        case cmp::lt: return val::of(a < b);
        case cmp::le: return val::of(!(b < a));
        case cmp::gt: return val::of(b < a);
        default: return val::of(!(a < b));
    }
}
inline val match(bool similar, val const& input, val const& pattern, val const& escape) {
    if (input.is_null() || pattern.is_null() || escape.is_null()) return {};
    auto h = digest(escape, digest(pattern, digest(input, similar ? 77 : 7)));
    return val::of((h & 1) != 0);
}
// what: "number", "text", or "boolean"
inline val opaque(std::string_view what, std::uint64_t h) {
    h = pbt::mix(h);
    if (h % 9 == 0) return {};
    if (what == "text") return val::of(std::string(1 + h % 2, static_cast<char>('a' + h / 16 % 3)));
    if (what == "boolean") return val::of((h / 16 & 1) != 0);
    return val::of(static_cast<std::int64_t>(h / 16 % 7) - 2);
}
inline val call(std::string_view name, std::string_view what, std::vector<val> const& args) {
    auto h = pbt::hash_str(name);
    for (auto& a : args) h = digest(a, h);
    return opaque(what, h);
}
inline std::vector<row> table_call(std::string_view name, std::vector<std::string> const& whats, std::vector<val> const& args) {
    auto h = pbt::hash_str(name);
    for (auto& a : args) h = digest(a, h);
    std::vector<row> r;
    for (std::size_t i = 0, n = pbt::mix(h) % 3; i < n; ++i) {
        row t;
        for (std::size_t j = 0; j < whats.size(); ++j) t.push_back(opaque(whats[j], h + i * 131 + j * 7));
        r.push_back(std::move(t));
    }
    return r;
}
// target: the printed type
inline val cast(std::string const& target, val const& a) {
    if (a.is_null()) return {};
    if (target.rfind("character", 0) == 0) {
        std::string s = a.kind == val::text ? a.s : show(a);
        auto p = target.find('(');
        if (target[p + 1] != '*') s = s.substr(0, std::stoul(target.substr(p + 1)));
        return val::of(s);
    }
    if (target.rfind("boolean", 0) == 0) return a.kind == val::text ? opaque("boolean", digest(a, 5)) : val::of(a.i != 0);
    if (a.kind == val::text) return opaque("number", digest(a, pbt::hash_str(target)));
    auto n = a.i;
    if (target.rfind("int4", 0) == 0) n = static_cast<std::int32_t>(n);
    else if (target.rfind("int2", 0) == 0) n = static_cast<std::int16_t>(n);
    else if (target.rfind("int1", 0) == 0) n = static_cast<std::int8_t>(n);
    return val::of(n);
}
inline val aggregate(std::string_view name, std::string_view what, std::vector<row> args) {
    bool distinct = false;
    if (auto p = name.find('$'); p != std::string_view::npos) { distinct = true; name = name.substr(0, p); }
    if (name == "count" && !args.empty() && args[0].empty()) return val::of(static_cast<std::int64_t>(args.size()));
    std::vector<row> rows;
    for (auto& r : args) {
        bool n = false;
        for (auto& v : r) n = n || v.is_null();
        if (!n) rows.push_back(r);
    }
    std::sort(rows.begin(), rows.end());
    if (distinct) rows.erase(std::unique(rows.begin(), rows.end()), rows.end());
    if (name == "count") return val::of(static_cast<std::int64_t>(rows.size()));
    if (rows.empty()) return {};
    if (name == "min") return rows.front()[0];
    if (name == "max") return rows.back()[0];
    if (name == "sum") { val s = val::of(std::int64_t { 0 }); for (auto& r : rows) s = arith('+', s, r[0]); return s; }
    auto h = pbt::hash_str(name);
    for (auto& r : rows) for (auto& v : r) h = digest(v, h);
    return opaque(what, h);
}
} // namespace sem

inline val value_of(tvalue::data const& v) {
    switch (v.kind()) {
        case tvalue::value_kind::unknown: return {};
        case tvalue::value_kind::boolean: return val::of(static_cast<tvalue::boolean const&>(v).get());
        case tvalue::value_kind::int4: return val::of(std::int64_t { static_cast<tvalue::int4 const&>(v).get() });
        case tvalue::value_kind::int8: return val::of(std::int64_t { static_cast<tvalue::int8 const&>(v).get() });
        case tvalue::value_kind::character: return val::of(std::string { static_cast<tvalue::character const&>(v).get() });
        default: return val::of("?" + str(v));
    }
}
inline std::string_view what_of(ttype::data const& t) {
    switch (t.kind()) {
        case ttype::type_kind::character: return "text";
        case ttype::type_kind::boolean: return "boolean";
        default: return "number";
    }
}

// ---- interpretation of plans ------------------------------------------------------------------------------------
struct plan_error { std::string what; };
using tuple = std::map<void const*, val>; // variable to value

struct database {
    std::map<ystor::table const*, std::vector<row>> rows {}; // in the order of all columns of the table
    std::map<void const*, val> externals {};                 // by the declaration of the external variable
};
// a request to the storage engine
struct effect {
    std::string kind; void const* target {};
    std::map<void const*, val> keys {}, columns {};
    friend bool operator<(effect const& a, effect const& b) { return std::tie(a.kind, a.target, a.keys, a.columns) < std::tie(b.kind, b.target, b.keys, b.columns); }
    friend bool operator==(effect const& a, effect const& b) { return std::tie(a.kind, a.target, a.keys, a.columns) == std::tie(b.kind, b.target, b.keys, b.columns); }
};
struct output {
    std::vector<std::string> names {};
    std::vector<row> rows {};
    std::vector<effect> effects {};
    bool is_write {};
};

class machine {
public:
    explicit machine(database const& db) : db_ { db } {}
    std::map<std::string, int> const& used() const { return used_; }

    output run(trel::graph_type const& g) {
        trel::expression const* sink {};
        for (auto&& e : g) if (e.output_ports().empty()) { if (sink) bad("two sinks"); sink = &e; }
        if (!sink) bad("there is no sink");
        structure(g, nullptr);
        output r;
        auto rows = pull(sink->input_ports()[0], {});
        note(*sink);
        if (sink->kind() == trel::expression_kind::emit) {
            auto& op = static_cast<trel::emit const&>(*sink);
            for (auto&& c : op.columns()) r.names.push_back(c.name() ? *c.name() : "");
            for (auto&& t : rows) { row x; for (auto&& c : op.columns()) x.push_back(get(t, {}, c.source())); r.rows.push_back(std::move(x)); }
            return r;
        }
        if (sink->kind() != trel::expression_kind::write) bad("unexpected sink: " + str(sink->kind()));
        auto& op = static_cast<trel::write const&>(*sink);
        r.is_write = true;
        auto&& index = ybind::extract<ystor::index>(op.destination());
        for (auto&& t : rows) {
            effect e { str(op.operator_kind()), &index, {}, {} };
            auto put = [&](auto&& list, auto& to, bool key) {
                for (auto&& m : list) {
                    auto c = column(m.destination(), index.table());
                    if (to.count(c) || (!key && e.keys.count(c) && op.operator_kind() != trel::write_kind::update)) bad("written twice: " + str(m.destination()));
                    bool is_key = false;
                    for (auto&& k : index.keys()) is_key = is_key || &k.column() == c;
                    if (key && !is_key) bad("not a key of the index: " + str(m.destination()));
                    to[c] = get(t, {}, m.source());
                }
            };
            put(op.keys(), e.keys, true);
            put(op.columns(), e.columns, false);
            r.effects.push_back(std::move(e));
        }
        return r;
    }
    output run(tstmt::write const& w) {
        output r; r.is_write = true;
        auto&& index = ybind::extract<ystor::index>(w.destination());
        for (auto&& t : w.tuples()) {
            if (t.elements().size() != w.columns().size()) bad("inconsistent number of elements");
            effect e { str(w.operator_kind()), &index, {}, {} };
            for (std::size_t i = 0; i < w.columns().size(); ++i) {
                auto c = column(w.columns()[i], index.table());
                if (e.columns.count(c)) bad("written twice: " + str(w.columns()[i]));
                e.columns[c] = eval(t.elements()[i], {}, {});
            }
            r.effects.push_back(std::move(e));
        }
        return r;
    }
    // frame: the parameters of the enclosing sub-query
    val eval(tscalar::expression const& e, tuple const& t, tuple const& frame) {
        budget();
        using K = tscalar::expression_kind;
        switch (e.kind()) {
            case K::immediate: return value_of(static_cast<tscalar::immediate const&>(e).value());
            case K::variable_reference: return get(t, frame, static_cast<tscalar::variable_reference const&>(e).variable());
            case K::unary: {
                auto& x = static_cast<tscalar::unary const&>(e);
                auto v = eval(x.operand(), t, frame);
                used_["unary " + str(x.operator_kind())]++;
                switch (x.operator_kind()) {
                    case tscalar::unary_operator::plus: return v;
                    case tscalar::unary_operator::sign_inversion: return sem::neg(v);
                    case tscalar::unary_operator::conditional_not: return sem::not_(v);
                    case tscalar::unary_operator::is_null: return val::of(v.is_null());
                    case tscalar::unary_operator::is_true: return val::of(v.is_true());
                    case tscalar::unary_operator::is_false: return val::of(!v.is_null() && !v.i);
                    case tscalar::unary_operator::is_unknown: return val::of(v.is_null());
                    default: bad("unexpected operator");
                }
            }
            case K::cast: { auto& x = static_cast<tscalar::cast const&>(e); used_["cast"]++; return sem::cast(str(x.type()), eval(x.operand(), t, frame)); }
            case K::binary: {
                auto& x = static_cast<tscalar::binary const&>(e);
                auto a = eval(x.left(), t, frame), b = eval(x.right(), t, frame);
                used_["binary " + str(x.operator_kind())]++;
                switch (x.operator_kind()) {
                    case tscalar::binary_operator::concat: return sem::concat(a, b);
                    case tscalar::binary_operator::add: return sem::arith('+', a, b);
                    case tscalar::binary_operator::subtract: return sem::arith('-', a, b);
                    case tscalar::binary_operator::multiply: return sem::arith('*', a, b);
                    case tscalar::binary_operator::divide: return sem::arith('/', a, b);
                    case tscalar::binary_operator::remainder: return sem::arith('%', a, b);
                    case tscalar::binary_operator::conditional_and: return sem::and_(a, b);
                    case tscalar::binary_operator::conditional_or: return sem::or_(a, b);
                }
                bad("unexpected operator");
            }
            case K::compare: { auto& x = static_cast<tscalar::compare const&>(e); used_["compare"]++; return sem::compare(op(x.operator_kind()), eval(x.left(), t, frame), eval(x.right(), t, frame)); }
            case K::match: {
                auto& x = static_cast<tscalar::match const&>(e); used_["match"]++;
                return sem::match(x.operator_kind() == tscalar::match_operator::similar, eval(x.input(), t, frame), eval(x.pattern(), t, frame), eval(x.escape(), t, frame));
            }
            case K::conditional: {
                auto& x = static_cast<tscalar::conditional const&>(e); used_["conditional"]++;
                for (auto&& a : x.alternatives()) if (eval(a.condition(), t, frame).is_true()) return eval(a.body(), t, frame);
                return x.default_expression() ? eval(*x.default_expression(), t, frame) : val {};
            }
            case K::coalesce: {
                used_["coalesce"]++;
                for (auto&& a : static_cast<tscalar::coalesce const&>(e).alternatives()) { auto v = eval(a, t, frame); if (!v.is_null()) return v; }
                return {};
            }
            case K::let: {
                auto& x = static_cast<tscalar::let const&>(e); used_["let"]++;
                tuple next = frame;
                for (auto&& v : x.variables()) {
                    if (ybind::kind_of(v.variable()) != ybind::variable_info_kind::local_variable) bad("let of something else than a local variable");
                    next[v.variable().identity()] = eval(v.value(), t, frame);
                }
                return eval(x.body(), t, next);
            }
            case K::function_call: {
                auto& x = static_cast<tscalar::function_call const&>(e); used_["function_call"]++;
                auto&& f = ybind::extract(x.function());
                return sem::call(signature(f), what_of(f.return_type()), list(x.arguments(), t, frame));
            }
            case K::extension: return extension(static_cast<tscalar::extension const&>(e), t, frame);
        }
        bad("unknown expression");
    }
    template<class D> static std::string signature(D const& f) {
        std::string s { f.name() };
        for (auto&& p : f.shared_parameter_types()) s += "," + std::string { what_of(*p) };
        return s;
    }
    [[noreturn]] static void bad(std::string what) { throw plan_error { std::move(what) }; }

private:
    database const& db_; std::map<std::string, int> used_ {}; std::size_t steps_ {};

    void budget() { if (++steps_ > 400000) throw pbt::discard {}; }
    void note(trel::expression const& e) { used_["op " + str(e.kind())]++; }
    static sem::cmp op(tscalar::comparison_operator k) { return static_cast<sem::cmp>(static_cast<int>(k)); }
    void const* column(tdesc::variable const& v, ystor::table const& t) {
        auto c = ybind::extract_if<ystor::column>(v);
        if (!c) bad("not a column of a table: " + str(v));
        if (&c->owner() != &t) bad("a column of another table: " + str(v));
        return c.get();
    }
    val get(tuple const& t, tuple const& frame, tdesc::variable const& v) {
        using K = ybind::variable_info_kind;
        if (!v) bad("empty variable");
        switch (ybind::kind_of(v)) {
            case K::stream_variable: if (auto it = t.find(v.identity()); it != t.end()) return it->second; break;
            case K::local_variable: case K::frame_variable: if (auto it = frame.find(v.identity()); it != frame.end()) return it->second; break;
            case K::external_variable: if (auto it = db_.externals.find(v.identity()); it != db_.externals.end()) return it->second; break;
            default: break;
        }
        bad("the variable is not available here: " + str(v));
    }
    template<class L> std::vector<val> list(L const& l, tuple const& t, tuple const& frame) { std::vector<val> r; for (auto&& e : l) r.push_back(eval(e, t, frame)); return r; }
    // each port must be connected within the same graph, besides the output of a query
    void structure(trel::graph_type const& g, trel::output_port const* open) {
        for (auto&& e : g) {
            for (auto&& p : e.input_ports()) if (!p.opposite()) bad("input is not connected: " + str(e.kind())); else if (!g.contains(p.opposite()->owner())) bad("connected to out of the graph: " + str(e.kind()));
            for (auto&& p : e.output_ports()) if (&p != open) { if (!p.opposite()) bad("output is not connected: " + str(e.kind())); else if (!g.contains(p.opposite()->owner())) bad("connected to out of the graph: " + str(e.kind())); }
        }
    }
    template<class Q> std::vector<tuple> query(Q const& q, tuple const& frame) {
        auto port = q.find_output_port();
        if (!port) bad("the output of the query is not identified");
        structure(q.query_graph(), port.get());
        return run_op(port->owner(), frame);
    }
    template<class Q> tuple parameters(Q const& q, tuple const& t, tuple const& frame) {
        tuple r;
        for (auto&& p : q.parameters()) {
            if (ybind::kind_of(p.destination()) != ybind::variable_info_kind::frame_variable) bad("the parameter is not a frame variable");
            if (!r.emplace(p.destination().identity(), get(t, frame, p.source())).second) bad("duplicate parameter");
        }
        return r;
    }
    val extension(tscalar::extension const& e, tuple const& t, tuple const& frame) {
        namespace x = ::yugawara::extension::scalar;
        if (e.extension_id() == x::subquery::extension_tag) {
            auto& q = static_cast<x::subquery const&>(e); used_["subquery"]++;
            auto rows = query(q, parameters(q, t, frame));
            if (!q.parameters().empty()) used_["correlated"]++;
            std::vector<val> vs;
            for (auto& r : rows) vs.push_back(get(r, {}, q.output_column()));
            if (vs.empty()) return {};
            return *std::min_element(vs.begin(), vs.end());
        }
        if (e.extension_id() == x::exists::extension_tag) {
            auto& q = static_cast<x::exists const&>(e); used_["exists"]++;
            if (!q.parameters().empty()) used_["correlated"]++;
            return val::of(!query(q, parameters(q, t, frame)).empty());
        }
        if (e.extension_id() == x::quantified_compare::extension_tag) {
            auto& q = static_cast<x::quantified_compare const&>(e); used_["quantified_compare"]++;
            if (!q.parameters().empty()) used_["correlated"]++;
            auto left = eval(q.left(), t, frame);
            bool any = q.quantifier() == tscalar::quantifier::any;
            val r = val::of(!any);
            for (auto&& x2 : query(q, parameters(q, t, frame))) {
                auto c = sem::compare(op(q.operator_kind()), left, get(x2, {}, q.right_column()));
                r = any ? sem::or_(r, c) : sem::and_(r, c);
            }
            return r;
        }
        bad("unexpected scalar extension: " + str(e));
    }
    std::vector<tuple> pull(trel::input_port const& p, tuple const& frame) {
        if (!p.opposite()) bad("input is not connected");
        return run_op(p.opposite()->owner(), frame);
    }
    static void define(tuple& t, tdesc::variable const& v, val x) {
        if (!v) bad("empty variable");
        if (ybind::kind_of(v) != ybind::variable_info_kind::stream_variable) bad("definition of something else than a stream variable: " + str(v));
        if (!t.emplace(v.identity(), std::move(x)).second) bad("the variable is defined twice: " + str(v));
    }
    static tuple merge(tuple a, tuple const& b) {
        for (auto& [k, v] : b) if (!a.emplace(k, v).second) bad("the variable comes from both inputs");
        return a;
    }
    // the variables which the operator outputs, for unmatched sides of outer joins
    tuple nulls(trel::expression const& e) {
        using K = trel::expression_kind;
        tuple r;
        auto up = [&](std::size_t i) { auto&& p = e.input_ports()[i]; if (!p.opposite()) bad("input is not connected"); return nulls(p.opposite()->owner()); };
        switch (e.kind()) {
            case K::scan: for (auto&& c : static_cast<trel::scan const&>(e).columns()) define(r, c.destination(), {}); return r;
            case K::values: for (auto&& c : static_cast<trel::values const&>(e).columns()) define(r, c, {}); return r;
            case K::filter: case K::limit_relation: case K::distinct_relation: return up(0);
            case K::difference: case K::intersection: return up(0);
            case K::project: r = up(0); for (auto&& c : static_cast<trel::project const&>(e).columns()) define(r, c.variable(), {}); return r;
            case K::apply: r = up(0); for (auto&& c : static_cast<trel::apply const&>(e).columns()) define(r, c.variable(), {}); return r;
            case K::join_relation: return merge(up(0), up(1));
            case K::aggregate_relation: {
                auto u = up(0); auto& a = static_cast<trel::intermediate::aggregate const&>(e);
                for (auto&& k : a.group_keys()) r[k.identity()] = get(u, {}, k);
                for (auto&& c : a.columns()) define(r, c.destination(), {});
                return r;
            }
            case K::union_relation: for (auto&& m : static_cast<trel::intermediate::union_ const&>(e).mappings()) define(r, m.destination(), {}); return r;
            case K::extension: for (auto&& m : static_cast<::yugawara::extension::relation::subquery const&>(e).mappings()) define(r, m.destination(), {}); return r;
            default: bad("unexpected operator: " + str(e.kind()));
        }
    }
    std::vector<tuple> run_op(trel::expression const& e, tuple const& frame) {
        using K = trel::expression_kind;
        budget();
        note(e);
        switch (e.kind()) {
            case K::scan: return scan(static_cast<trel::scan const&>(e));
            case K::values: {
                auto& o = static_cast<trel::values const&>(e);
                std::vector<tuple> r;
                for (auto&& x : o.rows()) {
                    if (x.elements().size() != o.columns().size()) bad("inconsistent number of elements");
                    tuple t;
                    for (std::size_t i = 0; i < o.columns().size(); ++i) define(t, o.columns()[i], eval(x.elements()[i], {}, frame));
                    r.push_back(std::move(t));
                }
                return r;
            }
            case K::filter: {
                auto& o = static_cast<trel::filter const&>(e);
                std::vector<tuple> r;
                nulls(e);
                for (auto& t : pull(o.input(), frame)) if (eval(o.condition(), t, frame).is_true()) r.push_back(std::move(t));
                return r;
            }
            case K::project: {
                auto& o = static_cast<trel::project const&>(e);
                nulls(e);
                auto r = pull(o.input(), frame);
                for (auto& t : r) {
                    tuple n = t; // the columns of a projection are computed from the input
                    for (auto&& c : o.columns()) define(n, c.variable(), eval(c.value(), t, frame));
                    t = std::move(n);
                }
                return r;
            }
            case K::apply: {
                auto& o = static_cast<trel::apply const&>(e);
                auto&& f = ybind::extract(o.function());
                if (!f.features().contains(::yugawara::function::function_feature::table_valued_function)) bad("not a table valued function");
                auto& type = static_cast<ttype::table const&>(f.return_type());
                std::vector<std::string> whats;
                for (auto&& c : type.columns()) whats.emplace_back(what_of(c.type()));
                std::vector<tuple> r;
                for (auto& t : pull(o.input(), frame)) {
                    auto rows = sem::table_call(signature(f), whats, list(o.arguments(), t, frame));
                    if (rows.empty() && o.operator_kind() == trel::apply_kind::outer) rows.push_back(row(whats.size()));
                    for (auto& x : rows) {
                        tuple n = t;
                        for (auto&& c : o.columns()) { if (c.position() >= x.size()) bad("out of the columns of the function"); define(n, c.variable(), x[c.position()]); }
                        r.push_back(std::move(n));
                    }
                }
                return r;
            }
            case K::join_relation: return join(static_cast<trel::intermediate::join const&>(e), frame);
            case K::distinct_relation: {
                auto& o = static_cast<trel::intermediate::distinct const&>(e);
                std::map<row, tuple> m; // any row of a group may represent it
                for (auto& t : pull(o.input(), frame)) { row k; for (auto&& v : o.group_keys()) k.push_back(get(t, {}, v)); m[k] = t; }
                std::vector<tuple> r;
                for (auto it = m.rbegin(); it != m.rend(); ++it) r.push_back(it->second);
                return r;
            }
            case K::limit_relation: {
                auto& o = static_cast<trel::intermediate::limit const&>(e);
                if (!o.group_keys().empty()) bad("grouped limit");
                auto r = pull(o.input(), frame);
                auto in = nulls(o.input().opposite()->owner());
                for (auto&& k : o.sort_keys()) get(in, {}, k.variable());
                std::stable_sort(r.begin(), r.end(), [&](tuple const& a, tuple const& b) {
                    for (auto&& k : o.sort_keys()) {
                        auto x = get(a, {}, k.variable()), y = get(b, {}, k.variable());
                        if (x == y) continue;
                        return (x < y) == (k.direction() == trel::sort_direction::ascendant);
                    }
                    return false;
                });
                if (o.count() && r.size() > *o.count()) r.resize(*o.count());
                return r;
            }
            case K::aggregate_relation: return aggregate(static_cast<trel::intermediate::aggregate const&>(e), frame);
            case K::union_relation: {
                auto& o = static_cast<trel::intermediate::union_ const&>(e);
                std::vector<tuple> r;
                for (int side = 0; side < 2; ++side) {
                    for (auto& t : pull(side ? o.right() : o.left(), frame)) {
                        tuple n;
                        for (auto&& m : o.mappings()) {
                            auto& v = side ? m.right() : m.left();
                            define(n, m.destination(), v ? get(t, {}, *v) : val {});
                        }
                        r.push_back(std::move(n));
                    }
                }
                if (o.quantifier() == trel::set_quantifier::distinct) { std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end()); }
                return r;
            }
            case K::difference: return set_op(static_cast<trel::intermediate::difference const&>(e), frame);
            case K::intersection: return set_op(static_cast<trel::intermediate::intersection const&>(e), frame);
            case K::extension: {
                auto& o = static_cast<::yugawara::extension::relation::subquery const&>(e);
                std::vector<tuple> r;
                for (auto& t : query(o, {})) { tuple n; for (auto&& m : o.mappings()) define(n, m.destination(), get(t, {}, m.source())); r.push_back(std::move(n)); }
                return r;
            }
            default: bad("unexpected operator: " + str(e.kind()));
        }
    }
    std::vector<tuple> scan(trel::scan const& o) {
        auto&& index = ybind::extract<ystor::index>(o.source());
        if (o.lower() || o.upper() || o.limit()) bad("unexpected range of scan");
        auto it = db_.rows.find(&index.table());
        if (it == db_.rows.end()) bad("unknown table: " + std::string { index.table().simple_name() });
        std::vector<tuple> r;
        std::vector<std::size_t> at;
        for (auto&& m : o.columns()) {
            auto c = column(m.source(), index.table());
            std::size_t n = 0;
            for (auto&& x : index.table().columns()) { if (&x == c) at.push_back(n); ++n; }
        }
        for (auto& x : it->second) {
            tuple t;
            for (std::size_t i = 0; i < at.size(); ++i) define(t, o.columns()[i].destination(), x[at[i]]);
            r.push_back(std::move(t));
        }
        return r;
    }
    std::vector<tuple> join(trel::intermediate::join const& o, tuple const& frame) {
        if (o.lower() || o.upper()) bad("unexpected range of join");
        nulls(o);
        auto l = pull(o.left(), frame), r = pull(o.right(), frame);
        auto K = o.operator_kind();
        used_["join " + str(K)]++;
        std::vector<bool> hit(r.size());
        std::vector<tuple> out;
        for (auto& a : l) {
            bool any = false;
            for (std::size_t j = 0; j < r.size(); ++j) {
                budget();
                auto t = merge(a, r[j]);
                if (o.condition() && !eval(*o.condition(), t, frame).is_true()) continue;
                any = hit[j] = true;
                if (K != trel::join_kind::semi && K != trel::join_kind::anti) out.push_back(std::move(t));
            }
            if (!any && (K == trel::join_kind::left_outer || K == trel::join_kind::full_outer)) out.push_back(merge(a, nulls(o.right().opposite()->owner())));
            if (K == trel::join_kind::semi || K == trel::join_kind::anti || K == trel::join_kind::left_outer_at_most_one) bad("unexpected join kind");
        }
        if (K == trel::join_kind::full_outer)
            for (std::size_t j = 0; j < r.size(); ++j) if (!hit[j]) out.push_back(merge(nulls(o.left().opposite()->owner()), r[j]));
        return out;
    }
    std::vector<tuple> aggregate(trel::intermediate::aggregate const& o, tuple const& frame) {
        nulls(o);
        std::map<row, std::vector<tuple>> groups;
        for (auto& t : pull(o.input(), frame)) { row k; for (auto&& v : o.group_keys()) k.push_back(get(t, {}, v)); groups[k].push_back(t); }
        if (o.group_keys().empty() && groups.empty()) groups[{}] = {};
        std::vector<tuple> r;
        for (auto& [k, rows] : groups) {
            tuple t;
            for (std::size_t i = 0; i < k.size(); ++i) if (!t.emplace(o.group_keys()[i].identity(), k[i]).second) bad("duplicate group key");
            for (auto&& c : o.columns()) {
                auto&& f = ybind::extract(c.function());
                std::vector<row> args;
                if (f.shared_parameter_types().size() != c.arguments().size()) bad("inconsistent number of arguments");
                for (auto& x : rows) { row a; for (auto&& v : c.arguments()) a.push_back(get(x, {}, v)); args.push_back(std::move(a)); }
                used_["aggregate " + std::string { f.name() }]++;
                define(t, c.destination(), sem::aggregate(f.name(), what_of(f.return_type()), std::move(args)));
            }
            r.push_back(std::move(t));
        }
        return r;
    }
    template<class O> std::vector<tuple> set_op(O const& o, tuple const& frame) {
        std::map<row, std::vector<tuple>> l; std::map<row, std::size_t> r;
        for (auto& t : pull(o.left(), frame)) { row k; for (auto&& p : o.group_key_pairs()) k.push_back(get(t, {}, p.left())); l[k].push_back(t); }
        for (auto& t : pull(o.right(), frame)) { row k; for (auto&& p : o.group_key_pairs()) k.push_back(get(t, {}, p.right())); r[k]++; }
        bool all = o.quantifier() == trel::set_quantifier::all, isect = o.kind() == trel::expression_kind::intersection;
        std::vector<tuple> out;
        for (auto& [k, rows] : l) {
            auto m = r.count(k) ? r[k] : 0, n = rows.size();
            auto keep = isect ? (all ? std::min(n, m) : (m ? std::size_t { 1 } : 0)) : (all ? (n > m ? n - m : 0) : (m ? std::size_t { 0 } : 1));
            for (std::size_t i = 0; i < keep; ++i) out.push_back(rows[i]);
        }
        return out;
    }
};

// ---- catalogs ---------------------------------------------------------------------------------------------------
enum class ty { num, text, flag };
inline std::string what(ty t) { return t == ty::num ? "number" : t == ty::text ? "text" : "boolean"; }
inline std::shared_ptr<ttype::data const> type_of(ty t) {
    if (t == ty::num) return shared_type(ttype::int8 {});
    if (t == ty::text) return shared_type(ttype::character { ttype::varying });
    return shared_type(ttype::boolean {});
}
struct mcol { std::string name; ty type; bool hidden {}, synthesized {}, read_only {}; ystor::column const* decl {}; };
struct mtable {
    std::string schema, name; std::vector<mcol> cols; std::vector<std::size_t> pk; bool has_index { true };
    std::shared_ptr<ystor::table> decl; std::shared_ptr<ystor::index> index; std::vector<row> rows;
};
struct mfunc { std::string schema, name; std::vector<ty> params; ty ret {}; std::vector<std::pair<std::string, ty>> table; }; // table valued if it has columns
struct mschema {
    std::string name;
    std::shared_ptr<ystor::configurable_provider> storages { std::make_shared<ystor::configurable_provider>() };
    std::shared_ptr<::yugawara::variable::configurable_provider> variables { std::make_shared<::yugawara::variable::configurable_provider>() };
    std::shared_ptr<::yugawara::function::configurable_provider> functions { std::make_shared<::yugawara::function::configurable_provider>() };
    std::shared_ptr<::yugawara::aggregate::configurable_provider> aggregates { std::make_shared<::yugawara::aggregate::configurable_provider>() };
    std::shared_ptr<::yugawara::schema::declaration> decl;
    explicit mschema(std::string n) : name { std::move(n) }, decl { std::make_shared<::yugawara::schema::declaration>(name, std::nullopt, storages, variables, functions, aggregates) } {}
};
class fixture {
public:
    std::vector<std::unique_ptr<mschema>> schemas; std::vector<std::unique_ptr<mtable>> tables; std::vector<mfunc> functions;
    std::vector<std::size_t> path { 0 }; // schemas in the search path
    struct mvar { std::string schema, name; ty type; val value; };
    struct maggr { std::string schema, name; std::vector<ty> params; ty ret; };
    std::vector<mvar> variables; std::vector<maggr> aggregates;
    std::string catalog_name { "tsurugi" };
    database db;
    std::shared_ptr<::yugawara::schema::configurable_provider> schema_provider { std::make_shared<::yugawara::schema::configurable_provider>() };
    std::shared_ptr<::yugawara::schema::catalog> catalog;
    std::shared_ptr<::yugawara::schema::search_path> search_path;

    mschema& schema(std::string_view name) { for (auto& s : schemas) if (s->name == name) return *s; throw std::logic_error("no schema"); }
    mschema& add_schema(std::string name) { auto& s = *schemas.emplace_back(std::make_unique<mschema>(std::move(name))); schema_provider->add(s.decl); return s; }
    mtable& add_table(mtable t) {
        auto& s = schema(t.schema);
        auto& r = *tables.emplace_back(std::make_unique<mtable>(std::move(t)));
        ::takatori::util::reference_vector<ystor::column> cols;
        for (auto& c : r.cols) {
            ystor::column_feature_set f {};
            if (c.hidden) f.insert(ystor::column_feature::hidden);
            if (c.synthesized) f.insert(ystor::column_feature::synthesized);
            if (c.read_only) f.insert(ystor::column_feature::read_only);
            cols.push_back(std::make_unique<ystor::column>(c.name, type_of(c.type), ::yugawara::variable::criteria { ::yugawara::variable::nullable }, ystor::column_value {}, f));
        }
        r.decl = s.storages->add_table(std::make_shared<ystor::table>(std::nullopt, r.name, std::move(cols)));
        std::vector<ystor::index::key> keys;
        for (std::size_t i = 0; i < r.cols.size(); ++i) r.cols[i].decl = &r.decl->columns()[i];
        for (auto k : r.pk) keys.emplace_back(r.decl->columns()[k]);
        if (r.has_index) {
            r.index = s.storages->add_index(std::make_shared<ystor::index>(std::nullopt, r.decl, r.name, std::move(keys), std::vector<ystor::index::column_ref> {},
                ystor::index_feature_set { ystor::index_feature::find, ystor::index_feature::scan, ystor::index_feature::primary, ystor::index_feature::unique }));
        }
        db.rows[r.decl.get()] = r.rows;
        return r;
    }
    void add_function(mfunc f) {
        auto& s = schema(f.schema);
        std::vector<std::shared_ptr<ttype::data const>> params;
        for (auto p : f.params) params.push_back(type_of(p));
        auto id = ::yugawara::function::declaration::minimum_user_function_id + functions.size();
        if (f.table.empty()) {
            s.functions->add(std::make_shared<::yugawara::function::declaration>(id, f.name, type_of(f.ret), std::move(params)));
        } else {
            ttype::table::columns_type cs;
            for (auto& c : f.table) cs.emplace_back(c.first, type_of(c.second));
            s.functions->add(std::make_shared<::yugawara::function::declaration>(id, f.name, shared_type(ttype::table { std::move(cs) }), std::move(params),
                ::yugawara::function::function_feature_set { ::yugawara::function::function_feature::table_valued_function }));
        }
        functions.push_back(std::move(f));
    }
    void add_aggregate(std::string_view schema_name, std::string name, std::vector<ty> params, ty ret) {
        std::vector<std::shared_ptr<ttype::data const>> ps;
        for (auto p : params) ps.push_back(type_of(p));
        auto id = ::yugawara::aggregate::declaration::minimum_user_function_id + 500 + aggregates.size();
        aggregates.push_back({ std::string { schema_name }, name, params, ret });
        schema(schema_name).aggregates->add(std::make_shared<::yugawara::aggregate::declaration>(id, std::move(name), type_of(ret), std::move(ps)));
    }
    void add_variable(std::string_view schema_name, std::string name, ty t, val v) {
        variables.push_back({ std::string { schema_name }, name, t, v });
        auto d = std::make_shared<::yugawara::variable::declaration>(std::move(name), type_of(t));
        schema(schema_name).variables->add(d);
        db.externals[static_cast<::yugawara::variable::declaration const*>(d.get())] = std::move(v);
    }
    void standard_aggregates(std::string_view s) {
        for (std::string suffix : { "", "$distinct" }) {
            add_aggregate(s, "count" + suffix, { ty::num }, ty::num);
            add_aggregate(s, "count" + suffix, { ty::text }, ty::num);
            add_aggregate(s, "count" + suffix, { ty::flag }, ty::num);
            add_aggregate(s, "sum" + suffix, { ty::num }, ty::num);
            for (std::string n : { "min", "max" }) { add_aggregate(s, n + suffix, { ty::num }, ty::num); add_aggregate(s, n + suffix, { ty::text }, ty::text); }
        }
        add_aggregate(s, "count", {}, ty::num);
    }
    // the schema in which the relation is found by the simple name
    mtable const* find_in_path(std::string_view name) const {
        for (auto p : path) for (auto& t : tables) if (t->schema == schemas[p]->name && t->name == name) return t.get();
        return nullptr;
    }
    mana::sql_analyzer_options options() {
        if (!catalog) {
            catalog = std::make_shared<::yugawara::schema::catalog>(catalog_name, std::nullopt, schema_provider);
            ::yugawara::schema::search_path::vector_type v;
            for (auto p : path) v.emplace_back(schemas[p]->decl);
            search_path = std::make_shared<::yugawara::schema::search_path>(std::move(v));
        }
        return mana::sql_analyzer_options { catalog, search_path, schemas[path.empty() ? 0 : path[0]]->decl };
    }
};

// ---- analysis ---------------------------------------------------------------------------------------------------
struct analyzed {
    mana::sql_analyzer_result result;
    std::string failure; // codes and messages
    std::string parse_failure;
    std::size_t offset {}; // of the statement in the document
    bool ok() const { return parse_failure.empty() && result.is_valid(); }
};
inline std::string diagnostics(mana::sql_analyzer_result const& r) {
    std::string s;
    if (r.kind() == mana::sql_analyzer_result_kind::diagnostics)
        for (auto&& d : r.element<mana::sql_analyzer_result_kind::diagnostics>()) s += str(d.code()) + ": " + d.message() + " at " + str(d.location()) + "\n";
    return s;
}
inline bool has_code(mana::sql_analyzer_result const& r, sql_analyzer_code c) {
    if (r.kind() != mana::sql_analyzer_result_kind::diagnostics) return false;
    for (auto&& d : r.element<mana::sql_analyzer_result_kind::diagnostics>()) if (d.code() == c) return true;
    return false;
}
struct session {
    std::shared_ptr<::mizugaki::ast::compilation_unit const> unit;
    std::string error;
    explicit session(std::string const& sql) {
        ::mizugaki::parser::sql_parser parser;
        auto r = parser("-", sql);
        if (r.has_value()) { unit = std::move(r.value()); }
        else { error = str(r.diagnostic().code()) + ": " + r.diagnostic().message(); }
    }
    mana::sql_analyzer_result analyze(mana::sql_analyzer_options const& o, std::size_t i = 0, ::mizugaki::placeholder_map const& p = {},
            ::takatori::util::optional_ptr<::yugawara::variable::provider const> host = {}) const {
        mana::sql_analyzer a;
        return a(o, *unit->statements()[i], *unit, p, host);
    }
};
inline output run_plan(mana::sql_analyzer_result& r, machine& m) {
    if (r.kind() == mana::sql_analyzer_result_kind::execution_plan) return m.run(*r.release<mana::sql_analyzer_result_kind::execution_plan>());
    auto s = r.release<mana::sql_analyzer_result_kind::statement>();
    if (s->kind() == tstmt::statement_kind::write) return m.run(static_cast<tstmt::write const&>(*s));
    machine::bad("unexpected statement: " + str(s->kind()));
}
} // namespace ana
