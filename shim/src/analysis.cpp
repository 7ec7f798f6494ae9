// Type analysis of the stand-in.
#include "../yugawara/impl/analysis.h"
#include <takatori/scalar/walk.h>
#include <takatori/util/string_builder.h>
#include <sstream>
namespace yugawara {
namespace ttype = ::takatori::type;
namespace tscalar = ::takatori::scalar;
namespace trelation = ::takatori::relation;
using K = ttype::type_kind;
using shim::type_ptr;
namespace {
enum class category { boolean, number, character, octet, temporal, interval, unknown, other };
category cat(ttype::data const& t) {
    switch (t.kind()) {
        case K::boolean: return category::boolean;
        case K::int1: case K::int2: case K::int4: case K::int8: case K::decimal: case K::float4: case K::float8: return category::number;
        case K::character: case K::clob: return category::character;
        case K::octet: case K::blob: return category::octet;
        case K::date: case K::time_of_day: case K::time_point: return category::temporal;
        case K::datetime_interval: return category::interval;
        case K::unknown: return category::unknown;
        default: return category::other;
    }
}
template<class T> type_ptr mk(T t) { return std::make_shared<T>(std::move(t)); }
int rank(K k) { switch (k) { case K::int1: case K::int2: case K::int4: return 1; case K::int8: return 2; case K::decimal: return 3; case K::float4: return 4; case K::float8: return 5; default: return 0; } }
type_ptr promote1(type_ptr const& t) { return t->kind() == K::int1 || t->kind() == K::int2 ? mk(ttype::int4 {}) : t; }
type_ptr promote2(type_ptr const& a, type_ptr const& b) {
    if (a->kind() == K::unknown) return promote1(b);
    if (b->kind() == K::unknown) return promote1(a);
    int x = rank(a->kind()), y = rank(b->kind());
    if (x > y) std::swap(x, y);
    if (y <= 1) return mk(ttype::int4 {});
    if (y == 2) return mk(ttype::int8 {});
    if (y == 3) return mk(ttype::decimal { std::nullopt, std::nullopt });
    if (x == 4 && y == 4) return mk(ttype::float4 {});
    return mk(ttype::float8 {});
}
template<class T> type_ptr longer(ttype::data const& a, ttype::data const& b) {
    auto& x = static_cast<T const&>(a); auto& y = static_cast<T const&>(b);
    std::optional<std::size_t> n {};
    if (x.length() && y.length()) n = std::max(*x.length(), *y.length());
    return mk(T { ttype::varying, n });
}
template<class T> type_ptr concat(ttype::data const& a, ttype::data const& b) {
    auto len = [](ttype::data const& t) { return t.kind() == T::tag ? static_cast<T const&>(t).length() : std::optional<std::size_t> {}; };
    std::optional<std::size_t> n {};
    if (len(a) && len(b)) n = *len(a) + *len(b);
    return mk(T { ttype::varying, n });
}
} // namespace
type_ptr type::unify(type_ptr const& a, type_ptr const& b) {
    if (!a || !b) return {};
    if (a->kind() == K::unknown) return b;
    if (b->kind() == K::unknown) return a;
    if (*a == *b) return a;
    auto c = cat(*a);
    if (c != cat(*b)) return {};
    switch (c) {
        case category::number:
            if (a->kind() == K::decimal && b->kind() == K::decimal) {
                auto& x = static_cast<ttype::decimal const&>(*a); auto& y = static_cast<ttype::decimal const&>(*b);
                if (x.precision() && y.precision() && x.scale() && y.scale()) {
                    auto s = std::max(*x.scale(), *y.scale());
                    auto i = std::max(*x.precision() - *x.scale(), *y.precision() - *y.scale());
                    if (i + s <= 38) return mk(ttype::decimal { i + s, s });
                }
                return mk(ttype::decimal { std::nullopt, std::nullopt });
            }
            return promote2(a, b);
        case category::character: return a->kind() == K::character && b->kind() == K::character ? longer<ttype::character>(*a, *b) : nullptr;
        case category::octet: return a->kind() == K::octet && b->kind() == K::octet ? longer<ttype::octet>(*a, *b) : nullptr;
        case category::temporal:
            if (a->kind() != b->kind()) return {};
            if (a->kind() == K::time_point) return mk(ttype::time_point { ttype::with_time_zone_t { true } });
            return {};
        default: return {};
    }
}
util::ternary type::is_parameter_application_convertible(data const& s, data const& t) noexcept {
    auto yes = [](bool b) { return b ? util::ternary::yes : util::ternary::no; };
    if (s.kind() == K::unknown) return yes(true);
    switch (t.kind()) {
        case K::int1: return yes(s.kind() == K::int1);
        case K::int2: return yes(s.kind() == K::int1 || s.kind() == K::int2);
        case K::int4: case K::int8: case K::decimal: case K::float4: case K::float8:
            return yes(cat(s) == category::number && (rank(s.kind()) <= rank(t.kind())));
        case K::time_of_day: return yes(s.kind() == t.kind() && static_cast<ttype::time_of_day const&>(s).with_time_zone() == static_cast<ttype::time_of_day const&>(t).with_time_zone());
        case K::time_point: return yes(s.kind() == t.kind() && static_cast<ttype::time_point const&>(s).with_time_zone() == static_cast<ttype::time_point const&>(t).with_time_zone());
        default: return yes(s.kind() == t.kind());
    }
}
struct analyzer::expression_analyzer::engine {
    expression_analyzer& a; bool validate;
    using C = expression_analyzer_code;
    template<class... M> type_ptr error(C code, ::takatori::document::region r, M const&... m) {
        std::ostringstream ss; ((ss << m), ...); a.d_.emplace_back(code, ss.str(), r); return {};
    }
    type_ptr type_of(::takatori::descriptor::variable const& v) {
        if (auto r = a.v_->find(v)) return r.shared_type();
        if (!v) return error(C::unresolved_variable, v.region(), "empty variable");
        if (auto c = binding::extract_if<storage::column>(v)) return c->shared_type();
        if (auto d = binding::extract_if<variable::declaration>(v)) { if (d->shared_type()) return d->shared_type(); }
        if (a.allow_unresolved_) return mk(ttype::unknown {});
        return error(C::unresolved_variable, v.region(), "unresolved variable: ", v);
    }
    type_ptr resolve(tscalar::expression const& e) {
        if (auto t = a.e_->find(e)) return t;
        auto t = tscalar::dispatch(*this, e);
        if (t) a.e_->bind(e, t, true);
        return t;
    }
    type_ptr boolean() { return mk(ttype::boolean {}); }
    bool is(ttype::data const& t, category c) { auto x = cat(t); return x == c || x == category::unknown; }
    type_ptr bad(tscalar::expression const& e, ttype::data const& t) { return error(C::inconsistent_type, e.region(), "inconsistent type: ", t, " in ", e); }
    type_ptr operator()(tscalar::immediate const& e) { return e.shared_type(); }
    type_ptr operator()(tscalar::variable_reference const& e) {
        auto n = a.d_.size();
        auto t = type_of(e.variable());
        if (!t && a.d_.size() > n && e.region()) { auto d = a.d_.back(); a.d_.pop_back(); a.d_.emplace_back(d.code(), d.message(), e.region()); }
        return t;
    }
    type_ptr operator()(tscalar::unary const& e) {
        auto t = resolve(e.operand()); if (!t) return {};
        using U = tscalar::unary_operator;
        switch (e.operator_kind()) {
            case U::plus: case U::sign_inversion:
                if (validate && !is(*t, category::number) && cat(*t) != category::interval) return bad(e.operand(), *t);
                return promote1(t);
            case U::conditional_not: case U::is_true: case U::is_false: case U::is_unknown:
                if (validate && !is(*t, category::boolean)) return bad(e.operand(), *t);
                return boolean();
            case U::length:
                if (validate && !is(*t, category::character) && !is(*t, category::octet)) return bad(e.operand(), *t);
                return mk(ttype::int4 {});
            case U::is_null: return boolean();
        }
        return {};
    }
    type_ptr operator()(tscalar::cast const& e) { if (!resolve(e.operand())) return {}; return e.shared_type(); }
    type_ptr operator()(tscalar::binary const& e) {
        auto l = resolve(e.left()); auto r = resolve(e.right()); if (!l || !r) return {};
        using B = tscalar::binary_operator;
        switch (e.operator_kind()) {
            case B::conditional_and: case B::conditional_or:
                if (validate && !is(*l, category::boolean)) return bad(e.left(), *l);
                if (validate && !is(*r, category::boolean)) return bad(e.right(), *r);
                return boolean();
            case B::concat:
                if (is(*l, category::character) && is(*r, category::character) && cat(*l) != cat(*r)) return mk(ttype::character { ttype::varying });
                if (is(*l, category::character) && is(*r, category::character)) return concat<ttype::character>(*l, *r);
                if (is(*l, category::octet) && is(*r, category::octet)) return concat<ttype::octet>(*l, *r);
                if (validate) return bad(e, *r);
                return l;
            case B::add: case B::subtract:
                if (cat(*l) == category::temporal && is(*r, category::interval)) return l;
                if (e.operator_kind() == B::add && is(*l, category::interval) && cat(*r) == category::temporal) return r;
                if (e.operator_kind() == B::subtract && cat(*l) == category::temporal && l->kind() == r->kind()) return mk(ttype::datetime_interval {});
                if (cat(*l) == category::interval && cat(*r) == category::interval) return l;
                [[fallthrough]];
            case B::multiply: case B::divide: case B::remainder:
                if (!is(*l, category::number)) return validate ? bad(e.left(), *l) : l;
                if (!is(*r, category::number)) return validate ? bad(e.right(), *r) : r;
                return promote2(l, r);
        }
        return {};
    }
    type_ptr operator()(tscalar::compare const& e) {
        auto l = resolve(e.left()); auto r = resolve(e.right()); if (!l || !r) return {};
        if (validate && !type::unify(l, r)) return bad(e, *r);
        return boolean();
    }
    type_ptr operator()(tscalar::match const& e) {
        for (auto* p : { &e.input(), &e.pattern(), e.optional_escape().get() }) {
            if (!p) continue;
            auto t = resolve(*p); if (!t) return {};
            if (validate && !is(*t, category::character)) return bad(*p, *t);
        }
        return boolean();
    }
    type_ptr join(tscalar::expression const& e, type_ptr const& acc, type_ptr const& t) {
        if (!acc) return t;
        auto u = type::unify(acc, t);
        if (!u) { if (!validate) return acc; return error(C::ambiguous_type, e.region(), "ambiguous type: ", *acc, ", ", *t); }
        return u;
    }
    type_ptr operator()(tscalar::conditional const& e) {
        type_ptr r {};
        for (auto&& x : e.alternatives()) {
            auto c = resolve(x.condition()); if (!c) return {};
            if (validate && !is(*c, category::boolean)) return bad(x.condition(), *c);
            auto b = resolve(x.body()); if (!b) return {};
            if (!(r = join(x.body(), r, b))) return {};
        }
        if (auto d = e.default_expression()) { auto b = resolve(*d); if (!b) return {}; r = join(*d, r, b); }
        return r;
    }
    type_ptr operator()(tscalar::coalesce const& e) {
        type_ptr r {};
        for (auto&& x : e.alternatives()) { auto b = resolve(x); if (!b) return {}; if (!(r = join(x, r, b))) return {}; }
        return r;
    }
    type_ptr operator()(tscalar::let const& e) {
        for (auto&& v : e.variables()) { auto t = resolve(v.value()); if (!t) return {}; a.v_->bind(v.variable(), t, true); }
        return resolve(e.body());
    }
    type_ptr operator()(tscalar::function_call const& e) {
        auto&& f = binding::extract(e.function());
        std::size_t i = 0;
        for (auto&& x : e.arguments()) {
            auto t = resolve(x); if (!t) return {};
            auto&& ps = f.shared_parameter_types();
            if (validate && (i >= ps.size() || type::is_parameter_application_convertible(*t, *ps[i]) == util::ternary::no))
                return error(C::inconsistent_function_type, x.region(), "inconsistent argument: ", *t);
            ++i;
        }
        return f.shared_return_type();
    }
    type_ptr operator()(tscalar::extension const& e) {
        using namespace extension::scalar;
        switch (e.extension_id()) {
            case aggregate_function_call::extension_tag: {
                auto&& c = static_cast<aggregate_function_call const&>(e);
                for (auto&& x : c.arguments()) if (!resolve(x)) return {};
                return binding::extract(c.function()).shared_return_type();
            }
            case subquery::extension_tag: return type_of(static_cast<subquery const&>(e).output_column());
            case exists::extension_tag: return boolean();
            case quantified_compare::extension_tag: {
                auto&& q = static_cast<quantified_compare const&>(e);
                auto l = resolve(q.left()); if (!l) return {};
                auto r = type_of(q.right_column()); if (!r) return {};
                if (validate && !type::unify(l, r)) return bad(q.left(), *r);
                return boolean();
            }
            default: return error(C::unsupported_type, e.region(), "unsupported extension");
        }
    }
    // relations
    using R = trelation::expression_kind;
    bool bind(::takatori::descriptor::variable const& v, type_ptr t) { if (!t) return false; a.v_->bind(v, std::move(t), true); return true; }
    bool condition(tscalar::expression const& c) {
        auto t = resolve(c); if (!t) return false;
        if (!is(*t, category::boolean)) { bad(c, *t); return false; }
        return true;
    }
    bool resolve(trelation::expression const& e) {
        using namespace trelation;
        switch (e.kind()) {
            case R::scan: for (auto&& c : static_cast<scan const&>(e).columns()) if (!bind(c.destination(), type_of(c.source()))) return false; return true;
            case R::values: {
                auto&& x = static_cast<values const&>(e);
                std::vector<type_ptr> ts(x.columns().size());
                for (auto&& row : x.rows()) {
                    if (row.elements().size() != ts.size()) { error(C::inconsistent_elements, e.region(), "inconsistent number of elements: ", row.elements().size(), ", expected: ", ts.size()); return false; }
                    for (std::size_t i = 0; i < ts.size(); ++i) {
                        auto t = resolve(row.elements()[i]); if (!t) return false;
                        if (!ts[i]) { ts[i] = t; continue; }
                        auto u = type::unify(ts[i], t);
                        if (!u) { error(C::inconsistent_type, row.elements()[i].region(), "inconsistent type: ", *t, ", expected: ", *ts[i]); return false; }
                        ts[i] = u;
                    }
                }
                for (std::size_t i = 0; i < ts.size(); ++i) bind(x.columns()[i], ts[i] ? ts[i] : mk(ttype::unknown {}));
                return true;
            }
            case R::project: for (auto&& c : static_cast<project const&>(e).columns()) if (!bind(c.variable(), resolve(c.value()))) return false; return true;
            case R::filter: return condition(static_cast<filter const&>(e).condition());
            case R::join_relation: { auto c = static_cast<intermediate::join const&>(e).condition(); return !c || condition(*c); }
            case R::apply: {
                auto&& x = static_cast<apply const&>(e);
                for (auto&& v : x.arguments()) if (!resolve(v)) return false;
                auto&& f = binding::extract(x.function());
                if (f.return_type().kind() != K::table) { error(C::inconsistent_type, e.region(), "not a table valued function"); return false; }
                auto&& cs = static_cast<ttype::table const&>(f.return_type()).columns();
                for (auto&& c : x.columns()) {
                    if (c.position() >= cs.size()) { error(C::inconsistent_elements, e.region(), "invalid column position: ", c.position()); return false; }
                    bind(c.variable(), cs[c.position()].shared_type());
                }
                return true;
            }
            case R::aggregate_relation:
                for (auto&& c : static_cast<intermediate::aggregate const&>(e).columns()) {
                    for (auto&& v : c.arguments()) if (!type_of(v)) return false;
                    bind(c.destination(), binding::extract(c.function()).shared_return_type());
                }
                return true;
            case R::union_relation:
                for (auto&& m : static_cast<intermediate::union_ const&>(e).mappings()) {
                    auto l = m.left() ? type_of(*m.left()) : mk(ttype::unknown {}); auto r = m.right() ? type_of(*m.right()) : mk(ttype::unknown {});
                    if (!l || !r) return false;
                    auto u = type::unify(l, r);
                    if (!u) { error(C::inconsistent_type, m.destination().region() ? m.destination().region() : e.region(), "inconsistent type: ", *l, ", ", *r); return false; }
                    bind(m.destination(), u);
                }
                return true;
            case R::intersection: return pairs(e, static_cast<intermediate::intersection const&>(e).group_key_pairs());
            case R::difference: return pairs(e, static_cast<intermediate::difference const&>(e).group_key_pairs());
            case R::extension:
                inner(static_cast<extension::relation::subquery const&>(e));
                for (auto&& m : static_cast<extension::relation::subquery const&>(e).mappings()) if (!bind(m.destination(), type_of(m.source()))) return false;
                return true;
            default: return true;
        }
    }
    bool upstream(trelation::expression const& e) {
        for (auto&& p : e.input_ports()) if (auto o = p.opposite()) if (!upstream(o->owner())) return false;
        return resolve(e);
    }
    // the query of a subquery may not have been resolved yet
    void inner(extension::relation::subquery const& q) {
        for (auto&& m : q.mappings()) {
            if (a.v_->find(m.source())) continue;
            for (auto&& x : q.query_graph()) if (!upstream(x)) return;
            return;
        }
    }
    template<class P> bool pairs(trelation::expression const& e, P const& ps) {
        for (auto&& p : ps) {
            auto l = type_of(p.left()); auto r = type_of(p.right()); if (!l || !r) return false;
            if (!type::unify(l, r)) { error(C::inconsistent_type, p.right().region() ? p.right().region() : e.region(), "inconsistent type: ", *l, ", ", *r); return false; }
        }
        return true;
    }
};
type_ptr analyzer::expression_analyzer::resolve(tscalar::expression const& e, bool validate, type_repository&) { return engine { *this, validate }.resolve(e); }
bool analyzer::expression_analyzer::resolve(trelation::expression const& e, bool validate, bool recursive, type_repository&) {
    engine x { *this, validate };
    if (recursive) for (auto&& p : e.input_ports()) if (auto o = p.opposite()) if (!x.upstream(o->owner())) return false;
    return x.resolve(e);
}
} // namespace yugawara
