// Edits of syntax trees through their accessors, as programs may do: parts are left out where they are optional,
// repeated, exchanged, or replaced by copies of parts of an intact tree of the same document.
#pragma once
#include <algorithm>
#include <cctype>
#include <functional>
#include <map>
#include <set>
#include <typeindex>
#include "pbt.h"
#include "regwalk.h"
#include <mizugaki/ast/common/clone_wrapper.h>
#include <mizugaki/ast/common/vector.h>
#include <takatori/util/clonable.h>

namespace treeedit {
namespace ast = ::mizugaki::ast;

// the optional nodes, as their accessors say ("empty if ...") or as the grammar leaves them out
inline bool nullable(std::string const& f) {
    static std::set<std::string> const s {
        "common::sort_element.collation", "query::grouping_column.collation", "query::query.where", "query::query.having", "query::query.limit",
        "query::select_asterisk.qualifier", "query::select_column.name",
        "scalar::case_expression.operand", "scalar::case_expression.default_result", "scalar::pattern_match_predicate.escape", "scalar::trim_expression.character",
        "statement::column_constraint_definition.name", "statement::table_constraint_definition.name",
        "statement::delete_statement.alias_name", "statement::delete_statement.where", "statement::update_statement.alias_name", "statement::update_statement.where",
        "statement::identity_constraint.initial_value", "statement::identity_constraint.increment_value", "statement::identity_constraint.min_value", "statement::identity_constraint.max_value",
        "statement::sequence_definition.type", "statement::sequence_definition.initial_value", "statement::sequence_definition.increment_value",
        "statement::sequence_definition.min_value", "statement::sequence_definition.max_value", "statement::sequence_definition.owner",
        "statement::index_definition.name", "statement::index_definition.predicate", "statement::insert_statement.expression", "statement::storage_parameter.value",
        "statement::schema_definition.user_name", "statement::schema_definition.name", "statement::select_statement.expression",
        "table::join.specification", "type::field_definition.collation",

    };
    return s.count(f) != 0;
}
// parts whose values must fit to others of the same node
inline bool fixed(std::string const& f) {
    static std::set<std::string> const s {
        "literal::numeric.value_kind", "literal::numeric.unsigned_value", "literal::string.value_kind", "literal::string.value", "literal::string.concatenations",
        "literal::datetime.value_kind", "literal::datetime.value", "literal::interval.value", "statement::privilege_user.user_kind", "statement::privilege_user.authorization_identifier",
    };
    return s.count(f) != 0;
}

template<class X, class = void> struct traits { static constexpr int what = 0; };
template<class X> struct traits<std::vector<X>> { static constexpr int what = 1; using value = X; };
template<class X> struct traits<std::unique_ptr<X>> { static constexpr int what = 2; using value = X; };
template<class X> struct traits<std::optional<X>> { static constexpr int what = 3; using value = X; };
template<class X> struct traits<ast::common::regioned<X>> { static constexpr int what = 4; using value = X; };
template<class X> struct traits<ast::common::clone_wrapper<X>> { static constexpr int what = 5; };
template<class X> struct traits<X, std::enable_if_t<std::is_base_of_v<ast::element, X>>> { static constexpr int what = 6; };

// the parts of a tree, which stays as it is
struct donors {
    std::map<std::type_index, std::vector<void const*>> nodes;  // by category or class
    std::map<std::string, std::vector<void const*>> values;     // by accessor
    std::vector<std::string> identifiers;

    template<class B, class N> void base(N const& n) { if constexpr (std::is_base_of_v<B, N>) nodes[typeid(B)].push_back(static_cast<B const*>(std::addressof(n))); }
    template<class N> void node(char const*, N const& n) {
        nodes[typeid(N)].push_back(std::addressof(n));
        base<ast::literal::literal>(n); base<ast::name::name>(n); base<ast::type::type>(n); base<ast::scalar::expression>(n);
        base<ast::table::expression>(n); base<ast::query::expression>(n); base<ast::query::grouping_element>(n); base<ast::query::select_element>(n);
        base<ast::statement::statement>(n); base<ast::statement::table_element>(n); base<ast::statement::constraint>(n);
        base<ast::statement::alter_table_action>(n); base<ast::statement::alter_index_action>(n); base<ast::table::join_specification>(n);
        if constexpr (std::is_same_v<N, ast::name::simple>) identifiers.push_back(n.identifier());
    }
    template<class N, class F> void access(char const* owner, char const* name, N const& n, F f) {
        using R = decltype(f(n));
        if constexpr (std::is_lvalue_reference_v<R>) value(std::string { owner } + "." + name, f(n));
    }
    template<class X> void value(std::string const& f, X const& v) {
        if constexpr (traits<X>::what == 4) values[f].push_back(std::addressof(v));
        else if constexpr (traits<X>::what == 3) { if (v) value(f, *v); }
        else if constexpr (traits<X>::what == 1) for (auto& e : v) value(f, e);
    }
    void add(ast::statement::statement const& s) {
        regwalk::basic_walker<donors> w {};
        w.hook = this;
        w.statement(s);
    }
};

struct edits {
    pbt::source* c;
    donors const* from;
    struct one { std::string what; std::function<bool()> apply; ast::node_region owner {}; };
    std::vector<one> all {};

    template<class X> X const* donor() {
        auto it = from->nodes.find(typeid(X));
        if (it == from->nodes.end()) return nullptr;
        return static_cast<X const*>(it->second[c->draw(static_cast<std::uint32_t>(it->second.size()))]);
    }
    template<class X> X const* valued(std::string const& f) {
        auto it = from->values.find(f);
        if (it == from->values.end()) return nullptr;
        return static_cast<X const*>(it->second[c->draw(static_cast<std::uint32_t>(it->second.size()))]);
    }
    template<class N> void node(char const*, N const& n) {
        if constexpr (std::is_same_v<N, ast::name::simple>) {
            auto& m = const_cast<ast::name::simple&>(n);
            all.push_back({ "name", [this, &m] { m.identifier() = c->pick(from->identifiers); return true; } });
        }
    }
    template<class N, class F> void access(char const* owner, char const* name, N const& n, F f) {
        auto& m = const_cast<N&>(n);
        using R = decltype(f(m));
        if constexpr (std::is_lvalue_reference_v<R>) {
            std::string id = std::string { owner } + "." + name;
            if (fixed(id)) return;
            auto& v = f(m);
            if constexpr (!std::is_const_v<std::remove_reference_t<decltype(v)>>) {
                auto i = all.size();
                add(id, v);
                if constexpr (std::is_base_of_v<ast::element, N>) for (; i < all.size(); ++i) all[i].owner = n.region();
            }
        }
    }
    template<class X> static std::unique_ptr<X> copy(X const& v) { return ::takatori::util::clone_unique(v); }
    template<class X> void add(std::string const& id, X& v) {
        using T = traits<X>;
        if constexpr (T::what == 1) sequence(id, v);
        else if constexpr (T::what == 2) {
            using E = typename T::value;
            if (v && nullable(id)) all.push_back({ id + " left out", [&v] { v.reset(); return true; } });
            if (v || nullable(id)) all.push_back({ id + " replaced", [this, &v] { auto* d = donor<E>(); if (!d) return false; v = copy(*d); return true; } });
        } else if constexpr (T::what == 3) {
            using E = typename T::value;
            if (v) all.push_back({ id + " left out", [&v] { v.reset(); return true; } });
            if constexpr (traits<E>::what == 4) all.push_back({ id + " set", [this, &v, id] { auto* d = valued<E>(id); if (!d) return false; v = *d; return true; } });
            else if constexpr (traits<E>::what == 6) all.push_back({ id + " set", [this, &v] { auto* d = donor<E>(); if (!d) return false; v.emplace(::takatori::util::clone_tag, *d); return true; } });
        } else if constexpr (T::what == 4) {
            using E = typename T::value;
            if constexpr (std::is_same_v<E, bool>) all.push_back({ id + " inverted", [&v] { v.value() = !v.value(); return true; } });
            else {
                all.push_back({ id + " replaced", [this, &v, id] { auto* d = valued<X>(id); if (!d || v == *d) return false; v = *d; return true; } });
                if constexpr (std::is_integral_v<E>) all.push_back({ id + " changed", [this, &v] { static E const k[] { 0, 1, 2, 38, 39, 40, 100, static_cast<E>(-1) }; v.value() = k[c->draw(8)]; return true; } });
            }
        } else if constexpr (std::is_same_v<X, bool>) all.push_back({ id + " inverted", [&v] { v = !v; return true; } });
        else if constexpr (std::is_integral_v<X>) all.push_back({ id + " changed", [this, &v] { v = static_cast<X>(c->draw(4)); return true; } });
    }
    template<class E> void sequence(std::string const& id, std::vector<E>& v) {
        auto clone = [](E const& e) {
            if constexpr (traits<E>::what == 2) return copy(*e);
            else if constexpr (traits<E>::what == 6) return E { ::takatori::util::clone_tag, e };
            else return e;
        };
        auto at = [this, &v] { return v.begin() + static_cast<long>(c->draw(static_cast<std::uint32_t>(v.size()))); };
        if (!v.empty()) {
            all.push_back({ id + " cleared", [&v] { v.clear(); return true; } });
            all.push_back({ id + " shortened", [&v, at] { v.erase(at()); return true; } });
            all.push_back({ id + " repeated", [&v, at, clone] { auto e = clone(*at()); v.insert(at(), std::move(e)); return true; } });
            if (v.size() > 1) all.push_back({ id + " exchanged", [&v, at] { auto a = at(), b = at(); if (a == b) return false; std::swap(*a, *b); return true; } });
        }
        auto insert = [&v, this](E e) { v.insert(v.begin() + static_cast<long>(c->draw(static_cast<std::uint32_t>(v.size() + 1))), std::move(e)); };
        if constexpr (traits<E>::what == 2) all.push_back({ id + " extended", [this, insert] { auto* d = donor<typename traits<E>::value>(); if (!d) return false; insert(copy(*d)); return true; } });
        else if constexpr (traits<E>::what == 4) all.push_back({ id + " extended", [this, insert, id] { auto* d = valued<E>(id); if (!d) return false; insert(*d); return true; } });
        else if constexpr (traits<E>::what == 6) all.push_back({ id + " extended", [this, insert] { auto* d = donor<E>(); if (!d) return false; insert(E { ::takatori::util::clone_tag, *d }); return true; } });
        if constexpr (traits<E>::what == 2 || traits<E>::what == 6) {
            for (auto& e : v) {
                if constexpr (traits<E>::what == 2) add(id + "[]", e);
            }
        }
    }
};
// one edit somewhere in the tree; what it was, or empty if there was nothing to do
inline std::string edit(pbt::source& c, ast::statement::statement& s, donors const& from, std::function<bool(std::string const&)> const& wanted = {}, ast::node_region* owner = nullptr) {
    edits e { &c, &from };
    regwalk::basic_walker<edits> w {};
    w.hook = &e;
    w.statement(s);
    if (wanted) e.all.erase(std::remove_if(e.all.begin(), e.all.end(), [&](auto& x) { return !wanted(x.what); }), e.all.end());
    if (e.all.empty()) return {};
    for (int i = 0; i < 5; ++i) {
        auto& x = e.all[c.draw(static_cast<std::uint32_t>(e.all.size()))];
        if (owner) *owner = x.owner;
        if (x.apply()) return x.what;
    }
    return {};
}

// takes all the regions away
struct bare {
    template<class N> void node(char const*, N const& n) { const_cast<N&>(n).region() = {}; }
    template<class N, class F> void access(char const*, char const*, N const& n, F f) {
        auto& m = const_cast<N&>(n);
        using R = decltype(f(m));
        if constexpr (std::is_lvalue_reference_v<R>) strip(f(m));
    }
    template<class X> void strip(X& v) {
        if constexpr (std::is_same_v<X, ast::node_region>) v = {};
        else if constexpr (traits<X>::what == 4) v.region() = {};
        else if constexpr (traits<X>::what == 3) { if (v) strip(*v); }
        else if constexpr (traits<X>::what == 1) for (auto& e : v) strip(e);
    }
};
inline void strip(ast::statement::statement& s) {
    bare b {};
    regwalk::basic_walker<bare> w {};
    w.hook = &b;
    w.statement(s);
}
} // namespace treeedit
