// C12: each node can be built from copies of its parts, with every constructor of its class, and is the same node then.
#include <mizugaki/ast/compilation_unit.h>
#include <takatori/util/clonable.h>
#include "doc_check.h"
#include "regwalk.h"
#include "treeedit.h"

#pragma clang optimize off // compiles in half of the time

using namespace sqlgen;
namespace ast = mizugaki::ast;
using ::takatori::util::clone_tag;
using ::takatori::util::clone_unique;
using ::takatori::util::rvalue_ptr;

namespace {
using region = ast::node_region;
template<class T> using vec = std::vector<std::unique_ptr<T>>;

// copies which are handed to constructors; they live until the comparison is over
struct arena {
    std::vector<std::shared_ptr<void>> all {};
    template<class T> T& keep(std::unique_ptr<T> p) { auto* r = p.get(); all.push_back(std::shared_ptr<void> { std::shared_ptr<T> { std::move(p) } }); return *r; }
};

struct builder {
    pbt::source& c;
    pbt::context& ctx;
    arena a {};
    std::size_t built {};
    char const* owner {};

    // ways to hand over parts
    template<class T> std::unique_ptr<T> u(std::unique_ptr<T> const& p) { return p ? std::unique_ptr<T> { static_cast<T const&>(*p).clone() } : nullptr; }
    template<class T> vec<T> u(vec<T> const& v) { vec<T> r; for (auto& p : v) r.push_back(u(p)); return r; }
    template<class T> T&& x(std::unique_ptr<T> const& p) { return std::move(a.keep(u(p))); }
    template<class T> rvalue_ptr<T> o(std::unique_ptr<T> const& p) { return p ? rvalue_ptr<T> { x(p) } : rvalue_ptr<T> {}; }
    template<class T> static bool whole(vec<T> const& v) { for (auto& p : v) if (!p) return false; return true; }
    template<class T, class F> void list(vec<T> const& v, F f) {
        using L = ast::common::rvalue_list<T>;
        if (!whole(v)) return;
        switch (v.size()) {
            case 0: return f(L {});
            case 1: return f(L { x(v[0]) });
            case 2: return f(L { x(v[0]), x(v[1]) });
            case 3: return f(L { x(v[0]), x(v[1]), x(v[2]) });
            case 4: return f(L { x(v[0]), x(v[1]), x(v[2]), x(v[3]) });
            case 5: return f(L { x(v[0]), x(v[1]), x(v[2]), x(v[3]), x(v[4]) });
            default: return;
        }
    }
    template<class T, class F> void items(std::vector<T> const& v, F f) {
        using L = std::initializer_list<T>;
        switch (v.size()) {
            case 0: return f(L {});
            case 1: return f(L { v[0] });
            case 2: return f(L { v[0], v[1] });
            case 3: return f(L { v[0], v[1], v[2] });
            case 4: return f(L { v[0], v[1], v[2], v[3] });
            default: return;
        }
    }
    template<class N> void same(char const* form, N const& n, N const& b, region r, bool regions) {
        ++ctx.checks; ++built;
        if (b.region() != r) ctx.fail("region", std::string { owner } + " by " + form + ": the region is not the given one");
        auto p = jv_of(n), q = jv_of(b);
        p.tb = q.tb; p.te = q.te;
        if (auto d = jv_diff(p, q, regions); !d.empty()) ctx.fail("parts", std::string { owner } + " by " + form + ": " + d + "\n" + jv_text(q));
        if (!(n == b) || n != b || !(b == n)) ctx.fail("equality", std::string { owner } + " by " + form + ": " + jv_text(q));
    }
    // BUILD: with the region which is given; SHORT: without it
#define BUILD(form, ...) { N b { __VA_ARGS__, g }; same(form, n, b, g, true); }
#define LOOSE(form, ...) { N b { __VA_ARGS__, g }; same(form, n, b, g, false); }
#define SHORT(form, ...) { N b { __VA_ARGS__ }; same(form, n, b, region {}, true); }

    // copies by the constructors for copying, which vectors of elements do not use
    template<class N> void cloned(N const& n) {
        using tag = ::takatori::util::clone_tag_t;
        if constexpr (std::is_constructible_v<N, tag, N const&>) { N b { clone_tag, n }; same("clone_tag, const&", n, b, n.region(), true); }
        if constexpr (std::is_constructible_v<N, tag, N&&>) {
            N b { clone_tag, n }; N d { clone_tag, std::move(b) }; same("clone_tag, &&", n, d, n.region(), true);
        }
        if constexpr (std::is_copy_constructible_v<N>) {
            N b { n }; same("copy", n, b, n.region(), true);
            N d { std::move(b) }; same("move", n, d, n.region(), true);
        }
    }

    // what has no more constructors than the parser uses
    template<class N> void build(N const&, region) {}

    template<class N, class L> void sized(N const& n, L const& l, region g) {
        BUILD("parts", n.type_kind(), l);
        { N b { *n.type_kind(), l, g }; same("kind", n, b, g, false); }
        if constexpr (std::is_constructible_v<N, ast::common::regioned<ast::type::kind>>) { if (!l) SHORT("parts", n.type_kind()); }
    }
    void build(ast::type::simple const& n, region g) { using N = ast::type::simple; BUILD("kind", n.node_kind()); SHORT("kind", n.node_kind()); }
    void build(ast::type::datetime const& n, region g) {
        using N = ast::type::datetime;
        BUILD("parts", n.type_kind(), n.has_time_zone());
        if (!n.has_time_zone()) SHORT("kind", n.type_kind());
    }
    void build(ast::type::decimal const& n, region g) {
        using N = ast::type::decimal;
        BUILD("parts", n.type_kind(), n.precision(), n.scale());
        if (!n.scale()) { SHORT("kind and precision", n.type_kind(), n.precision()); if (!n.precision()) SHORT("kind", n.type_kind()); }
        if (!n.scale() && !n.precision() && *n.type_kind() == ast::type::kind::decimal) { N b {}; same("nothing", n, b, region {}, false); }
    }
    void build(ast::type::character_string const& n, region g) { sized(n, n.length(), g); }
    void build(ast::type::bit_string const& n, region g) { sized(n, n.length(), g); }
    void build(ast::type::octet_string const& n, region g) { sized(n, n.length(), g); }
    void build(ast::type::binary_numeric const& n, region g) { sized(n, n.precision(), g); }
    void build(ast::type::interval const& n, region g) { using N = ast::type::interval; N b(g); same("region", n, b, g, true); N d {}; same("nothing", n, d, region {}, true); }
    template<ast::literal::kind K> void build(ast::literal::special<K> const& n, region g) {
        using N = ast::literal::special<K>; N b(g); same("region", n, b, g, true); N d {}; same("nothing", n, d, region {}, true);
    }
    void build(ast::scalar::placeholder_reference const& n, region g) { using N = ast::scalar::placeholder_reference; N b { n.index(), g }; same("index", n, b, g, true); SHORT("index", n.index()); }
    void build(ast::statement::simple_constraint const& n, region g) { using N = ast::statement::simple_constraint; BUILD("kind", n.constraint_kind()); SHORT("kind", n.constraint_kind()); LOOSE("plain kind", *n.constraint_kind()); }
    void build(ast::statement::privilege_action const& n, region g) { using N = ast::statement::privilege_action; BUILD("kind", n.action_kind()); SHORT("kind", n.action_kind()); }
    void build(ast::statement::empty_statement const& n, region g) { using N = ast::statement::empty_statement; N b(g); same("region", n, b, g, true); N d {}; same("nothing", n, d, region {}, true); }
    void build(ast::statement::grant_privilege_statement const& n, region g) { using N = ast::statement::grant_privilege_statement; BUILD("vectors", n.actions(), n.objects(), n.users()); SHORT("vectors", n.actions(), n.objects(), n.users()); }
    void build(ast::statement::revoke_privilege_statement const& n, region g) { using N = ast::statement::revoke_privilege_statement; BUILD("vectors", n.actions(), n.objects(), n.users()); SHORT("vectors", n.actions(), n.objects(), n.users()); }

    void build(ast::common::sort_element const& n, region g) {
        using N = ast::common::sort_element;
        BUILD("pointers", u(n.key()), u(n.collation()), n.direction(), n.null_location());
        if (!n.null_location()) SHORT("pointers", u(n.key()), u(n.collation()), n.direction());
        if (!n.null_location() && !n.direction()) SHORT("pointers", u(n.key()), u(n.collation()));
        if (!n.key()) return;
        BUILD("copies", x(n.key()), o(n.collation()), n.direction(), n.null_location());
        if (!n.null_location() && !n.direction() && !n.collation()) SHORT("copies", x(n.key()));
        if (n.direction() && !n.collation()) { BUILD("key and direction", x(n.key()), *n.direction(), n.null_location()); if (!n.null_location()) SHORT("key and direction", x(n.key()), *n.direction()); }
        if (n.key()->node_kind() == ast::scalar::kind::variable_reference) {
            auto& v = static_cast<ast::scalar::variable_reference const&>(*n.key());
            if (!v.name()) return;
            LOOSE("name", x(v.name()), o(n.collation()), n.direction(), n.null_location());
            if (n.direction() && !n.collation()) LOOSE("name and direction", x(v.name()), *n.direction(), n.null_location());
        }
    }
    void build(ast::common::target_element const& n, region g) {
        using N = ast::common::target_element;
        BUILD("pointers", u(n.target()), u(n.indicator()));
    }
    void build(ast::literal::boolean const& n, region g) {
        using N = ast::literal::boolean;
        BUILD("kind", n.value());
        if (n.value() == ast::literal::boolean_kind::unknown) { BUILD("null", nullptr); SHORT("null", nullptr); }
        else { bool v = n.value() == ast::literal::boolean_kind::true_; BUILD("bool", v); SHORT("bool", v); }
    }
    void build(ast::literal::datetime const& n, region g) {
        using N = ast::literal::datetime;
        BUILD("parts", n.value_kind(), n.value());
        LOOSE("characters", n.value_kind(), *n.value());
        { std::string s { *n.value() }; N b { n.value_kind(), s }; same("string", n, b, region {}, false); }
    }
    void build(ast::literal::interval const& n, region g) {
        using N = ast::literal::interval;
        BUILD("parts", n.sign(), n.value());
        ast::common::chars s { *n.value() };
        if (n.sign()) LOOSE("characters", *n.sign(), s) else LOOSE("characters", s);
    }
    void build(ast::literal::numeric const& n, region g) {
        using N = ast::literal::numeric;
        BUILD("parts", n.value_kind(), n.sign(), n.unsigned_value());
        if (!n.sign()) { LOOSE("characters", n.value_kind(), *n.unsigned_value()); std::string s { *n.unsigned_value() }; N b { n.value_kind(), s }; same("string", n, b, region {}, false); }
    }
    void build(ast::literal::string const& n, region g) {
        using N = ast::literal::string;
        BUILD("parts", n.value_kind(), n.value(), n.concatenations());
        auto& k = n.concatenations(); ast::common::chars s { *n.value() };
        switch (k.size()) {
            case 0: { SHORT("parts", n.value_kind(), n.value()); N b { n.value_kind(), s }; same("characters", n, b, region {}, false); break; }
            case 1: { N b { n.value_kind(), s, *k[0] }; same("characters", n, b, region {}, false); break; }
            case 2: { N b { n.value_kind(), s, *k[0], *k[1] }; same("characters", n, b, region {}, false); break; }
            case 3: { N b { n.value_kind(), s, *k[0], std::string { *k[1] }, *k[2] }; same("characters", n, b, region {}, false); break; }
            default: break;
        }
    }
    void build(ast::name::simple const& n, region g) {
        using N = ast::name::simple;
        BUILD("parts", n.identifier(), n.identifier_kind());
        if (n.identifier_kind() == ast::name::identifier_kind::regular) {
            BUILD("identifier", n.identifier()); SHORT("identifier", n.identifier());
            std::string s { n.identifier() }; N b { s }; same("string", n, b, region {}, true);
            N d { s.c_str() }; same("characters", n, d, region {}, true);
        } else {
            N b { n.identifier() }; auto& r = b.delimited(); same("delimited", n, b, region {}, true);
            if (&r != &b) ctx.fail("delimited", "another object");
            N d { N { n.identifier() }.delimited() }; same("delimited", n, d, region {}, true);
        }
        ctx.require(&n.last_name() == &n && !n.optional_qualifier(), "simple name", "its last part is another");
    }
    void build(ast::name::qualified const& n, region g) {
        using N = ast::name::qualified;
        BUILD("pointers", u(n.qualifier()), u(n.last()));
        if (!n.qualifier() || !n.last()) return;
        ctx.require(&n.last_name() == n.last().get() && n.optional_qualifier().get() == n.qualifier().get(), "qualified name", "parts by the common accessors");
        BUILD("copies", x(n.qualifier()), x(n.last()));
        SHORT("copies", x(n.qualifier()), x(n.last()));
        if (n.qualifier()->node_kind() == ast::name::kind::qualified) {
            auto& q = static_cast<N const&>(*n.qualifier());
            if (q.qualifier() && q.last()) { N b { x(q.qualifier()), x(q.last()), x(n.last()) }; same("three copies", n, b, region {}, false); }
        }
    }
    void build(ast::query::binary_expression const& n, region g) {
        using N = ast::query::binary_expression;
        BUILD("pointers", u(n.left()), n.operator_kind(), n.quantifier(), n.corresponding(), u(n.right()));
        if (!n.left() || !n.right()) return;
        if (n.corresponding()) list(n.corresponding()->column_names(), [&](auto l) { LOOSE("copies and names", x(n.left()), n.operator_kind(), n.quantifier(), l, x(n.right())); });
        else { BUILD("copies", x(n.left()), n.operator_kind(), n.quantifier(), x(n.right())); SHORT("copies", x(n.left()), n.operator_kind(), n.quantifier(), x(n.right())); if (!n.quantifier()) BUILD("copies and operator", x(n.left()), n.operator_kind(), x(n.right())); }
    }
    void build(ast::query::corresponding_clause const& n, region g) {
        using N = ast::query::corresponding_clause;
        BUILD("pointers", u(n.column_names()));
        list(n.column_names(), [&](auto l) { BUILD("copies", l); });
    }
    void build(ast::query::group_by_clause const& n, region g) {
        using N = ast::query::group_by_clause;
        BUILD("pointers", u(n.elements()));
        list(n.elements(), [&](auto l) { BUILD("copies", l); });
        list(n.elements(), [&](auto l) { SHORT("copies", l); });
    }
    void build(ast::query::grouping_column const& n, region g) {
        using N = ast::query::grouping_column;
        BUILD("pointers", u(n.column()), u(n.collation()));
        if (!n.column()) return;
        BUILD("copies", x(n.column()), o(n.collation()));
        if (!n.collation()) SHORT("copies", x(n.column()));
        if (n.column()->node_kind() == ast::scalar::kind::variable_reference) {
            auto& v = static_cast<ast::scalar::variable_reference const&>(*n.column());
            if (v.name()) LOOSE("name", x(v.name()), o(n.collation()));
        }
    }
    void build(ast::query::query const& n, region g) {
        using N = ast::query::query;
        BUILD("pointers", n.quantifier(), u(n.elements()), u(n.from()), u(n.where()), n.group_by(), u(n.having()), n.order_by(), u(n.limit()));
        if (!n.limit()) SHORT("pointers", n.quantifier(), u(n.elements()), u(n.from()), u(n.where()), n.group_by(), u(n.having()), n.order_by());
        if (!n.limit() && n.order_by().empty() && !n.having() && !n.group_by()) SHORT("pointers", n.quantifier(), u(n.elements()), u(n.from()), u(n.where()));
        list(n.elements(), [&](auto e) { list(n.from(), [&](auto f) { items(n.order_by(), [&](auto k) {
            auto w = o(n.where()), h = o(n.having()), l = o(n.limit());
            if (c.flip() && n.quantifier()) { BUILD("copies with quantifier", n.quantifier(), e, f, w, n.group_by(), h, k, l); return; }
            if (n.quantifier()) return;
            if (c.flip()) BUILD("copies with quantifier", std::nullopt, e, f, w, n.group_by(), h, k, l)
            else if (!n.limit() && n.order_by().empty() && !n.having() && !n.group_by()) SHORT("copies", e, f, w)
            else BUILD("copies", e, f, w, n.group_by(), h, k, l);
        }); }); });
    }
    void build(ast::query::select_asterisk const& n, region g) {
        using N = ast::query::select_asterisk;
        BUILD("pointers", u(n.qualifier()));
        if (n.qualifier()) { BUILD("copies", x(n.qualifier())); SHORT("copies", x(n.qualifier())); }
        else { N b {}; same("nothing", n, b, region {}, true); }
    }
    void build(ast::query::select_column const& n, region g) {
        using N = ast::query::select_column;
        BUILD("pointers", u(n.value()), u(n.name()));
        if (!n.value()) return;
        BUILD("copies", x(n.value()), o(n.name()));
        if (!n.name()) { SHORT("copies", x(n.value())); SHORT("pointers", u(n.value())); }
    }
    void build(ast::query::table_reference const& n, region g) {
        using N = ast::query::table_reference;
        BUILD("pointers", u(n.name()));
        if (n.name()) BUILD("copies", x(n.name()));
    }
    void build(ast::query::table_value_constructor const& n, region g) {
        using N = ast::query::table_value_constructor;
        BUILD("pointers", u(n.elements()));
        list(n.elements(), [&](auto l) { BUILD("copies", l); });
        list(n.elements(), [&](auto l) { SHORT("copies", l); });
    }
    void build(ast::query::with_element const& n, region g) {
        using N = ast::query::with_element;
        BUILD("pointers", u(n.name()), u(n.column_names()), u(n.expression()));
        if (!n.name() || !n.expression()) return;
        list(n.column_names(), [&](auto l) { BUILD("copies and names", x(n.name()), l, x(n.expression())); });
        if (n.column_names().empty()) { BUILD("copies", x(n.name()), x(n.expression())); SHORT("copies", x(n.name()), x(n.expression())); }
    }
    void build(ast::query::with_expression const& n, region g) {
        using N = ast::query::with_expression;
        BUILD("pointers", n.is_recursive(), n.elements(), u(n.expression()));
        if (!n.expression()) return;
        items(n.elements(), [&](auto l) { BUILD("copies", n.is_recursive(), l, x(n.expression())); if (!*n.is_recursive()) LOOSE("copies, not recursive", l, x(n.expression())); });
    }
    void build(ast::scalar::between_predicate const& n, region g) {
        using N = ast::scalar::between_predicate;
        BUILD("pointers", u(n.target()), n.is_not(), n.operator_kind(), u(n.left()), u(n.right()));
        if (!n.target() || !n.left() || !n.right()) return;
        BUILD("copies", x(n.target()), x(n.left()), x(n.right()), n.is_not(), n.operator_kind());
        if (!n.operator_kind()) { SHORT("copies", x(n.target()), x(n.left()), x(n.right()), n.is_not()); if (!*n.is_not()) { N b { x(n.target()), x(n.left()), x(n.right()) }; same("operands", n, b, region {}, false); } }
    }
    void build(ast::scalar::binary_expression const& n, region g) {
        using N = ast::scalar::binary_expression;
        BUILD("pointers", u(n.left()), n.operator_kind(), u(n.right()));
        if (n.left() && n.right()) { BUILD("copies", x(n.left()), n.operator_kind(), x(n.right())); LOOSE("copies and operator", x(n.left()), *n.operator_kind(), x(n.right())); }
    }
    void build(ast::scalar::builtin_function_invocation const& n, region g) {
        using N = ast::scalar::builtin_function_invocation;
        BUILD("pointers", n.function(), u(n.arguments()));
        list(n.arguments(), [&](auto l) { BUILD("copies", n.function(), l); });
    }
    void build(ast::scalar::builtin_set_function_invocation const& n, region g) {
        using N = ast::scalar::builtin_set_function_invocation;
        BUILD("pointers", n.function(), n.quantifier(), u(n.arguments()));
        list(n.arguments(), [&](auto l) { BUILD("copies", n.function(), n.quantifier(), l); });
    }
    void build(ast::scalar::case_expression const& n, region g) {
        using N = ast::scalar::case_expression;
        BUILD("pointers", u(n.operand()), n.when_clauses(), u(n.default_result()));
        if (!n.default_result()) SHORT("pointers", u(n.operand()), n.when_clauses());
        items(n.when_clauses(), [&](auto l) {
            if (n.operand()) { BUILD("copies", x(n.operand()), l, o(n.default_result())); if (!n.default_result()) SHORT("copies", x(n.operand()), l); }
            else { BUILD("copies, searched", l, o(n.default_result())); if (!n.default_result()) SHORT("copies, searched", l); }
        });
    }
    void build(ast::scalar::case_when_clause const& n, region g) {
        using N = ast::scalar::case_when_clause;
        BUILD("pointers", u(n.when()), u(n.result()));
        if (n.when() && n.result()) { BUILD("copies", x(n.when()), x(n.result())); SHORT("copies", x(n.when()), x(n.result())); }
    }
    void build(ast::scalar::cast_expression const& n, region g) {
        using N = ast::scalar::cast_expression;
        BUILD("pointers", n.operator_kind(), u(n.operand()), u(n.type()));
        if (n.operand() && n.type()) BUILD("copies", n.operator_kind(), x(n.operand()), x(n.type()));
    }
    void build(ast::scalar::comparison_predicate const& n, region g) {
        using N = ast::scalar::comparison_predicate;
        BUILD("pointers", u(n.left()), n.operator_kind(), u(n.right()));
        if (n.left() && n.right()) LOOSE("copies", x(n.left()), *n.operator_kind(), x(n.right()));
    }
    void build(ast::scalar::current_of_cursor const& n, region g) {
        using N = ast::scalar::current_of_cursor;
        BUILD("pointers", u(n.name()));
        if (n.name()) BUILD("copies", x(n.name()));
    }
    void build(ast::scalar::extract_expression const& n, region g) {
        using N = ast::scalar::extract_expression;
        BUILD("pointers", n.field(), n.subsecond_digits(), u(n.operand()));
        if (!n.subsecond_digits()) BUILD("field and operand", n.field(), u(n.operand()));
        if (!n.operand()) return;
        if (n.subsecond_digits()) BUILD("copies and digits", n.field(), *n.subsecond_digits(), x(n.operand()))
        else BUILD("copies", n.field(), x(n.operand()));
    }
    void build(ast::scalar::field_reference const& n, region g) {
        using N = ast::scalar::field_reference;
        BUILD("pointers", u(n.value()), n.operator_kind(), u(n.name()));
        if (!n.value() || !n.name()) return;
        BUILD("copies", x(n.value()), x(n.name()), n.operator_kind());
        if (*n.operator_kind() == ast::scalar::reference_operator::period) { N b { x(n.value()), x(n.name()) }; same("copies, period", n, b, region {}, false); }
    }
    void build(ast::scalar::function_invocation const& n, region g) {
        using N = ast::scalar::function_invocation;
        BUILD("pointers", u(n.name()), u(n.arguments()));
        if (n.name()) list(n.arguments(), [&](auto l) { BUILD("copies", x(n.name()), l); });
    }
    void build(ast::scalar::host_parameter_reference const& n, region g) {
        using N = ast::scalar::host_parameter_reference;
        BUILD("pointers", u(n.name()));
        if (n.name()) BUILD("copies", x(n.name()));
    }
    void build(ast::scalar::in_predicate const& n, region g) {
        using N = ast::scalar::in_predicate;
        BUILD("pointers", u(n.left()), n.is_not(), u(n.right()));
        if (!n.left() || !n.right()) return;
        BUILD("copies", x(n.left()), x(n.right()), n.is_not());
        if (!*n.is_not()) { N b { x(n.left()), x(n.right()) }; same("operands", n, b, region {}, false); }
    }
    void build(ast::scalar::literal_expression const& n, region g) {
        using N = ast::scalar::literal_expression;
        BUILD("pointers", u(n.value()));
        if (n.value()) BUILD("copies", x(n.value()));
    }
    void build(ast::scalar::method_invocation const& n, region g) {
        using N = ast::scalar::method_invocation;
        BUILD("pointers", u(n.value()), n.operator_kind(), u(n.name()), u(n.arguments()));
        if (!n.value() || !n.name()) return;
        list(n.arguments(), [&](auto l) {
            if (c.flip()) BUILD("copies", x(n.value()), x(n.name()), l, n.operator_kind())
            else if (*n.operator_kind() == ast::scalar::reference_operator::period) { N b { x(n.value()), x(n.name()), l }; same("copies, period", n, b, region {}, false); }
        });
    }
    void build(ast::scalar::new_invocation const& n, region g) {
        using N = ast::scalar::new_invocation;
        BUILD("pointers", u(n.type()), u(n.arguments()));
        if (n.type()) list(n.arguments(), [&](auto l) { BUILD("copies", x(n.type()), l); });
    }
    void build(ast::scalar::pattern_match_predicate const& n, region g) {
        using N = ast::scalar::pattern_match_predicate;
        BUILD("pointers", u(n.match_value()), n.is_not(), n.operator_kind(), u(n.pattern()), u(n.escape()));
        if (!n.match_value() || !n.pattern()) return;
        BUILD("copies", x(n.match_value()), n.operator_kind(), x(n.pattern()), o(n.escape()), n.is_not());
        if (!*n.is_not()) { N b { x(n.match_value()), n.operator_kind(), x(n.pattern()), o(n.escape()) }; same("copies, not negated", n, b, region {}, false); }
    }
    void build(ast::scalar::quantified_comparison_predicate const& n, region g) {
        using N = ast::scalar::quantified_comparison_predicate;
        BUILD("pointers", u(n.left()), n.operator_kind(), n.quantifier(), u(n.right()));
        if (n.left() && n.right()) BUILD("copies", x(n.left()), n.operator_kind(), n.quantifier(), x(n.right()));
    }
    void build(ast::scalar::static_method_invocation const& n, region g) {
        using N = ast::scalar::static_method_invocation;
        BUILD("pointers", u(n.type()), u(n.name()), u(n.arguments()));
        if (n.type() && n.name()) list(n.arguments(), [&](auto l) { BUILD("copies", x(n.type()), x(n.name()), l); });
    }
    void build(ast::scalar::subquery const& n, region g) {
        using N = ast::scalar::subquery;
        BUILD("pointers", u(n.query()), n.context_kind());
        if (!n.query()) return;
        BUILD("copies", x(n.query()), n.context_kind());
        if (n.context_kind() == N::context_kind_type::scalar) { SHORT("copies", x(n.query())); SHORT("pointers", u(n.query())); }
    }
    void build(ast::scalar::table_predicate const& n, region g) {
        using N = ast::scalar::table_predicate;
        BUILD("pointers", n.operator_kind(), u(n.operand()));
        if (n.operand()) BUILD("copies", n.operator_kind(), x(n.operand()));
    }
    void build(ast::scalar::trim_expression const& n, region g) {
        using N = ast::scalar::trim_expression;
        BUILD("pointers", n.specification(), u(n.character()), u(n.source()));
        if (n.source()) BUILD("copies", n.specification(), o(n.character()), x(n.source()));
    }
    void build(ast::scalar::unary_expression const& n, region g) {
        using N = ast::scalar::unary_expression;
        BUILD("pointers", n.operator_kind(), u(n.operand()));
        if (n.operand()) { BUILD("copies", n.operator_kind(), x(n.operand())); LOOSE("copies and operator", *n.operator_kind(), x(n.operand())); }
    }
    void build(ast::scalar::value_constructor const& n, region g) {
        using N = ast::scalar::value_constructor;
        BUILD("pointers", n.operator_kind(), u(n.elements()));
        list(n.elements(), [&](auto l) { LOOSE("copies", *n.operator_kind(), l); });
        if (*n.operator_kind() == ast::scalar::value_constructor_kind::row) list(n.elements(), [&](auto l) { LOOSE("copies, row", l); });
    }
    void build(ast::scalar::variable_reference const& n, region g) {
        using N = ast::scalar::variable_reference;
        BUILD("pointers", u(n.name()));
        if (n.name()) { BUILD("copies", x(n.name())); SHORT("copies", x(n.name())); }
    }
    void build(ast::statement::alter_index_statement const& n, region g) {
        using N = ast::statement::alter_index_statement;
        BUILD("pointers", n.if_exists(), u(n.name()), u(n.action()));
        if (!n.name() || !n.action()) return;
        BUILD("copies", x(n.name()), x(n.action()), n.if_exists());
        if (!*n.if_exists()) { N b { x(n.name()), x(n.action()) }; same("copies, must exist", n, b, region {}, false); }
    }
    void build(ast::statement::alter_table_statement const& n, region g) {
        using N = ast::statement::alter_table_statement;
        BUILD("pointers", n.if_exists(), u(n.name()), u(n.action()));
        if (!n.name() || !n.action()) return;
        BUILD("copies", x(n.name()), x(n.action()), n.if_exists());
        if (!*n.if_exists()) { N b { x(n.name()), x(n.action()) }; same("copies, must exist", n, b, region {}, false); }
    }
    void build(ast::statement::column_constraint_definition const& n, region g) {
        using N = ast::statement::column_constraint_definition;
        BUILD("pointers", u(n.name()), u(n.body()));
        if (!n.body()) return;
        BUILD("copies", x(n.body()), o(n.name()));
        if (!n.name()) SHORT("copies", x(n.body()));
    }
    void build(ast::statement::table_constraint_definition const& n, region g) {
        using N = ast::statement::table_constraint_definition;
        BUILD("pointers", u(n.name()), u(n.body()));
        if (!n.body()) return;
        BUILD("copies", x(n.body()), o(n.name()));
        if (!n.name()) SHORT("copies", x(n.body()));
    }
    void build(ast::statement::column_definition const& n, region g) {
        using N = ast::statement::column_definition;
        BUILD("pointers", u(n.name()), u(n.type()), n.constraints(), n.description());
        if (!n.name() || !n.type()) return;
        items(n.constraints(), [&](auto l) { BUILD("copies", x(n.name()), x(n.type()), l, n.description()); });
        if (n.constraints().empty() && !n.description()) SHORT("copies", x(n.name()), x(n.type()));
    }
    void build(ast::statement::delete_statement const& n, region g) {
        using N = ast::statement::delete_statement;
        BUILD("pointers", u(n.table_name()), u(n.alias_name()), u(n.where()));
        if (!n.table_name()) return;
        if (n.alias_name()) { BUILD("copies and alias", x(n.table_name()), x(n.alias_name()), o(n.where())); if (!n.where()) SHORT("copies and alias", x(n.table_name()), x(n.alias_name())); }
        else { BUILD("copies", x(n.table_name()), o(n.where())); if (!n.where()) SHORT("copies", x(n.table_name())); }
    }
    void build(ast::statement::drop_statement const& n, region g) {
        using N = ast::statement::drop_statement;
        BUILD("pointers", n.statement_kind(), u(n.name()), n.options());
        if (!n.name()) return;
        items(n.options(), [&](auto l) { BUILD("copies", n.statement_kind(), x(n.name()), l); });
        if (n.options().empty()) SHORT("copies", n.statement_kind(), x(n.name()));
    }
    void build(ast::statement::expression_constraint const& n, region g) {
        using N = ast::statement::expression_constraint;
        BUILD("pointers", n.constraint_kind(), u(n.expression()));
        if (n.expression()) BUILD("copies", n.constraint_kind(), x(n.expression()));
    }
    void build(ast::statement::identity_constraint const& n, region g) {
        using N = ast::statement::identity_constraint;
        BUILD("pointers", n.generation(), u(n.initial_value()), u(n.increment_value()), u(n.min_value()), u(n.max_value()), n.cycle());
        BUILD("copies", n.generation(), o(n.initial_value()), o(n.increment_value()), o(n.min_value()), o(n.max_value()), n.cycle());
        if (n.initial_value() && !n.max_value() && !n.cycle()) SHORT("copies", n.generation(), o(n.initial_value()), o(n.increment_value()), o(n.min_value()));
    }
    void build(ast::statement::index_definition const& n, region g) {
        using N = ast::statement::index_definition;
        BUILD("pointers", u(n.name()), u(n.table_name()), n.keys(), u(n.values()), u(n.predicate()), n.options(), n.parameters(), n.description());
        if (!n.table_name()) return;
        items(n.keys(), [&](auto k) { list(n.values(), [&](auto v) { items(n.options(), [&](auto l) { items(n.parameters(), [&](auto p) {
            BUILD("copies", o(n.name()), x(n.table_name()), k, v, o(n.predicate()), l, p, n.description());
        }); }); }); });
    }
    void build(ast::statement::insert_statement const& n, region g) {
        using N = ast::statement::insert_statement;
        BUILD("pointers", u(n.table_name()), u(n.columns()), u(n.expression()), n.options());
        if (!n.table_name()) return;
        list(n.columns(), [&](auto l) { items(n.options(), [&](auto p) { BUILD("copies", x(n.table_name()), l, o(n.expression()), p); }); });
        if (n.options().empty()) list(n.columns(), [&](auto l) { SHORT("copies", x(n.table_name()), l, o(n.expression())); });
    }
    void build(ast::statement::key_constraint const& n, region g) {
        using N = ast::statement::key_constraint;
        BUILD("pointers", n.constraint_kind(), n.key(), u(n.values()), n.parameters());
        items(n.key(), [&](auto k) { list(n.values(), [&](auto v) { items(n.parameters(), [&](auto p) { BUILD("copies", n.constraint_kind(), k, v, p); }); }); if (n.values().empty() && n.parameters().empty()) SHORT("copies", n.constraint_kind(), k); });
    }
    void build(ast::statement::privilege_object const& n, region g) {
        using N = ast::statement::privilege_object;
        BUILD("pointers", n.object_kind(), u(n.object_name()));
        if (!n.object_name()) return;
        if (n.object_kind()) BUILD("copies and kind", *n.object_kind(), x(n.object_name())) else { BUILD("copies", x(n.object_name())); SHORT("copies", x(n.object_name())); }
    }
    void build(ast::statement::privilege_user const& n, region g) {
        using N = ast::statement::privilege_user;
        BUILD("pointers", n.user_kind(), u(n.authorization_identifier()));
        if (n.authorization_identifier()) { if (n.user_kind() == ast::statement::privilege_user_kind::identifier) BUILD("copies", x(n.authorization_identifier())); }
        else { BUILD("kind", n.user_kind()); if (n.user_kind() == ast::statement::privilege_user_kind::all_users) { N b {}; same("nothing", n, b, region {}, true); } }
    }
    void build(ast::statement::referential_constraint const& n, region g) {
        using N = ast::statement::referential_constraint;
        BUILD("pointers", u(n.columns()), u(n.target()), u(n.target_columns()), n.on_update(), n.on_delete());
        if (!n.target()) return;
        list(n.columns(), [&](auto l) { list(n.target_columns(), [&](auto t) { BUILD("copies", l, x(n.target()), t, n.on_update(), n.on_delete()); }); });
    }
    void build(ast::statement::rename_column_action const& n, region g) {
        using N = ast::statement::rename_column_action;
        BUILD("pointers", n.if_exists(), u(n.column_name()), u(n.replacement()));
        if (!n.column_name() || !n.replacement()) return;
        BUILD("copies", x(n.column_name()), x(n.replacement()), n.if_exists());
        if (!*n.if_exists()) { N b { x(n.column_name()), x(n.replacement()) }; same("copies, must exist", n, b, region {}, false); }
    }
    void build(ast::statement::rename_index_action const& n, region g) {
        using N = ast::statement::rename_index_action;
        BUILD("pointers", u(n.replacement()));
        if (n.replacement()) BUILD("copies", x(n.replacement()));
    }
    void build(ast::statement::rename_table_action const& n, region g) {
        using N = ast::statement::rename_table_action;
        BUILD("pointers", u(n.replacement()));
        if (n.replacement()) BUILD("copies", x(n.replacement()));
    }
    void build(ast::statement::schema_definition const& n, region g) {
        using N = ast::statement::schema_definition;
        BUILD("pointers", u(n.name()), u(n.user_name()), u(n.elements()), n.options(), n.description());
        list(n.elements(), [&](auto l) { items(n.options(), [&](auto p) { BUILD("copies", o(n.name()), o(n.user_name()), l, p, n.description()); }); });
    }
    void build(ast::statement::select_statement const& n, region g) {
        using N = ast::statement::select_statement;
        BUILD("pointers", u(n.expression()), n.targets());
        if (!n.expression()) return;
        items(n.targets(), [&](auto l) { BUILD("copies", x(n.expression()), l); });
        if (n.targets().empty()) SHORT("copies", x(n.expression()));
    }
    void build(ast::statement::sequence_definition const& n, region g) {
        using N = ast::statement::sequence_definition;
        BUILD("pointers", u(n.name()), u(n.type()), u(n.initial_value()), u(n.increment_value()), u(n.min_value()), u(n.max_value()), u(n.owner()), n.options(), n.description());
        if (!n.name()) return;
        items(n.options(), [&](auto l) { BUILD("copies", x(n.name()), o(n.type()), o(n.initial_value()), o(n.increment_value()), o(n.min_value()), o(n.max_value()), o(n.owner()), l, n.description()); });
    }
    void build(ast::statement::set_element const& n, region g) {
        using N = ast::statement::set_element;
        BUILD("pointers", u(n.target()), u(n.value()));
        if (n.target() && n.value()) { BUILD("copies", x(n.target()), x(n.value())); SHORT("copies", x(n.target()), x(n.value())); }
    }
    void build(ast::statement::storage_parameter const& n, region g) {
        using N = ast::statement::storage_parameter;
        BUILD("pointers", u(n.name()), u(n.value()));
        if (!n.name()) return;
        BUILD("copies", x(n.name()), o(n.value()));
        if (!n.value()) SHORT("copies", x(n.name()));
    }
    void build(ast::statement::table_definition const& n, region g) {
        using N = ast::statement::table_definition;
        BUILD("pointers", u(n.name()), u(n.elements()), n.options(), n.parameters(), n.description());
        if (!n.name()) return;
        list(n.elements(), [&](auto l) { items(n.options(), [&](auto p) { items(n.parameters(), [&](auto q) { BUILD("copies", x(n.name()), l, p, q, n.description()); }); }); });
    }
    void build(ast::statement::truncate_table_statement const& n, region g) {
        using N = ast::statement::truncate_table_statement;
        BUILD("pointers", u(n.name()), n.identity_column_option());
        if (!n.name()) return;
        BUILD("copies", x(n.name()), n.identity_column_option());
        if (!n.identity_column_option()) SHORT("copies", x(n.name()));
    }
    void build(ast::statement::update_statement const& n, region g) {
        using N = ast::statement::update_statement;
        BUILD("pointers", u(n.table_name()), u(n.alias_name()), n.elements(), u(n.where()));
        if (!n.table_name()) return;
        items(n.elements(), [&](auto l) {
            if (n.alias_name()) { BUILD("copies and alias", x(n.table_name()), x(n.alias_name()), l, o(n.where())); if (!n.where()) SHORT("copies and alias", x(n.table_name()), x(n.alias_name()), l); }
            else { BUILD("copies", x(n.table_name()), l, o(n.where())); if (!n.where()) SHORT("copies", x(n.table_name()), l); }
        });
    }
    void build(ast::statement::view_definition const& n, region g) {
        using N = ast::statement::view_definition;
        BUILD("pointers", u(n.name()), u(n.columns()), u(n.query()), n.options(), n.parameters(), n.description());
        if (!n.name() || !n.query()) return;
        list(n.columns(), [&](auto l) { items(n.options(), [&](auto p) { items(n.parameters(), [&](auto q) { BUILD("copies", x(n.name()), l, x(n.query()), p, q, n.description()); }); }); });
    }
    void build(ast::table::apply const& n, region g) {
        using N = ast::table::apply;
        BUILD("pointers", u(n.operand()), n.operator_kind(), u(n.name()), u(n.arguments()), n.correlation());
        if (!n.operand() || !n.name()) return;
        list(n.arguments(), [&](auto l) { BUILD("copies", x(n.operand()), x(n.name()), l, n.correlation(), n.operator_kind()); });
        if (!n.operator_kind()) list(n.arguments(), [&](auto l) { SHORT("copies", x(n.operand()), x(n.name()), l, n.correlation()); });
    }
    void build(ast::table::correlation_clause const& n, region g) {
        using N = ast::table::correlation_clause;
        BUILD("pointers", u(n.correlation_name()), u(n.column_names()));
        if (!n.correlation_name()) return;
        list(n.column_names(), [&](auto l) { BUILD("copies", x(n.correlation_name()), l); });
        if (n.column_names().empty()) { SHORT("copies", x(n.correlation_name())); SHORT("pointers", u(n.correlation_name())); }
    }
    void build(ast::table::join const& n, region g) {
        using N = ast::table::join;
        BUILD("pointers", u(n.left()), n.operator_kind(), u(n.right()), u(n.specification()));
        if (!n.left() || !n.right()) return;
        BUILD("copies", x(n.left()), n.operator_kind(), x(n.right()), o(n.specification()));
        if (!n.specification()) SHORT("copies", x(n.left()), n.operator_kind(), x(n.right()));
    }
    void build(ast::table::join_columns const& n, region g) {
        using N = ast::table::join_columns;
        BUILD("pointers", u(n.columns()));
        list(n.columns(), [&](auto l) { BUILD("copies", l); });
    }
    void build(ast::table::join_condition const& n, region g) {
        using N = ast::table::join_condition;
        BUILD("pointers", u(n.expression()));
        if (n.expression()) BUILD("copies", x(n.expression()));
    }
    void build(ast::table::subquery const& n, region g) {
        using N = ast::table::subquery;
        BUILD("pointers", n.is_lateral(), u(n.expression()), n.correlation());
        if (!n.expression()) return;
        BUILD("copies", x(n.expression()), n.correlation(), n.is_lateral());
        if (!*n.is_lateral()) { N b { x(n.expression()), n.correlation() }; same("copies, not lateral", n, b, region {}, false); }
    }
    void build(ast::table::table_reference const& n, region g) {
        using N = ast::table::table_reference;
        BUILD("pointers", n.is_only(), u(n.name()), n.correlation());
        if (!n.name()) return;
        BUILD("copies", x(n.name()), n.correlation(), n.is_only());
        if (!*n.is_only()) { N b { x(n.name()), n.correlation() }; same("copies, not only", n, b, region {}, false); if (!n.correlation()) { N d { x(n.name()) }; same("name", n, d, region {}, false); } }
    }
    void build(ast::table::unnest const& n, region g) {
        using N = ast::table::unnest;
        BUILD("pointers", u(n.expression()), n.with_ordinality(), n.correlation());
        if (!n.expression()) return;
        BUILD("copies", x(n.expression()), n.correlation(), n.with_ordinality());
        if (!n.with_ordinality()) SHORT("copies, no ordinality", x(n.expression()), n.correlation());
    }
    void build(ast::type::collection const& n, region g) {
        using N = ast::type::collection;
        BUILD("pointers", u(n.element()), n.length());
        if (!n.element()) return;
        { ast::type::type&& e = x(n.element()); N b(std::move(e), n.length(), g); same("copies", n, b, g, true); }
        if (!n.length()) SHORT("pointers", u(n.element()));
    }
    void build(ast::type::field_definition const& n, region g) {
        using N = ast::type::field_definition;
        BUILD("pointers", u(n.name()), u(n.type()), u(n.collation()));
        if (!n.name() || !n.type()) return;
        BUILD("copies", x(n.name()), x(n.type()), o(n.collation()));
        if (!n.collation()) SHORT("copies", x(n.name()), x(n.type()));
    }
    void build(ast::type::row const& n, region g) {
        using N = ast::type::row;
        BUILD("pointers", n.elements());
        items(n.elements(), [&](auto l) { BUILD("copies", l); });
    }
    void build(ast::type::user_defined const& n, region g) {
        using N = ast::type::user_defined;
        BUILD("pointers", u(n.name()));
        if (n.name()) { BUILD("copies", x(n.name())); SHORT("copies", x(n.name())); }
    }
};

struct hook {
    builder* b;
    std::size_t limit { 400 };
    template<class N> void node(char const* kind, N const& n) {
        if (limit == 0) return;
        --limit;
        b->owner = kind;
        auto before = jv_text(jv_of(n));
        auto g = b->c.flip() ? n.region() : region { b->c.draw(90), 100 + b->c.draw(90) };
        auto k = b->built;
        b->build(n, g);
        b->ctx.label(std::string { kind } + (b->built == k ? " (none)" : ""));
        if (b->c.chance(1, 3)) b->cloned(n);
        if (jv_text(jv_of(n)) != before) b->ctx.fail("source", std::string { kind } + ": the original has changed");
        b->a.all.clear();
    }
    template<class N, class F> void access(char const*, char const*, N const&, F) {}
};

std::unique_ptr<ast::compilation_unit> parse(pbt::context& ctx, std::string const& text) {
    sql_parser parser;
    auto r = parser("-", text);
    if (!r.has_value()) ctx.fail("rejected", "a valid document was rejected: " + diag_text(r));
    return std::move(r.value());
}

void walk(pbt::source& c, pbt::context& ctx, ast::compilation_unit const& unit) {
    builder b { c, ctx };
    hook h { &b };
    regwalk::basic_walker<hook> w {};
    w.hook = &h;
    for (auto& s : unit.statements()) if (s) w.statement(*s);
    // the unit itself
    vec<ast::statement::statement> copies;
    for (auto& s : unit.statements()) copies.push_back(b.u(s));
    ast::compilation_unit by_pointers { std::move(copies), unit.comments(), unit.document() };
    auto check = [&](ast::compilation_unit const& x, char const* form, bool comments) {
        if (auto d = jv_diff(*jv_of(unit).find("statements"), *jv_of(x).find("statements"), true); !d.empty()) ctx.fail("unit", std::string { form } + ": " + d);
        ctx.require(x == unit && !(x != unit), "unit", form);
        ctx.require(!comments || x.comments() == unit.comments(), "unit", form);
    };
    check(by_pointers, "pointers", true);
    ctx.require(by_pointers.document().get() == unit.document().get(), "unit", "document");
    b.list(unit.statements(), [&](auto l) { ast::compilation_unit x { l }; check(x, "copies", false); ctx.require(x.comments().empty() && !x.document(), "unit", "copies"); });
    ctx.label(b.built > 60 ? "more than 60 nodes built" : "up to 60 nodes built");
}

void parsed(pbt::source& c, pbt::context& ctx) {
    config conf;
    conf.max_statements = 3;
    conf.depth = c.range(2, 5);
    document d { c, conf, c.flip() ? gap_style::plain : gap_style::random_docs };
    ctx.show(d.lay.text);
    auto a = parse(ctx, d.lay.text);
    walk(c, ctx, *a);
    if (d.nontrivial()) ctx.nontrivial(d.lay.text);
}

// trees which no text stands for
void edited(pbt::source& c, pbt::context& ctx) {
    config conf;
    conf.max_statements = 2;
    conf.depth = c.range(2, 4);
    document d { c, conf, gap_style::plain };
    if (d.g.toks.size() > 300) throw pbt::discard {};
    auto a = parse(ctx, d.lay.text), b = parse(ctx, d.lay.text);
    if (a->statements().empty()) throw pbt::discard {};
    treeedit::donors from;
    for (auto& x : a->statements()) from.add(*x);
    std::string done;
    for (int k = 0, n = c.range(1, 4); k < n; ++k) { auto e = treeedit::edit(c, *b->statements()[c.draw(static_cast<std::uint32_t>(b->statements().size()))], from); if (!e.empty()) done += " / " + e; }
    if (done.empty()) throw pbt::discard {};
    ctx.show(d.lay.text + done);
    walk(c, ctx, *b);
    ctx.nontrivial(ctx.shown);
}

// types and literals of any kind, also those which the grammar cannot write
struct type_spec {
    int cls; ast::type::kind k; std::optional<std::size_t> a, b; std::optional<bool> tz; region r;
    bool same(type_spec const& o) const { return cls == o.cls && k == o.k && a == o.a && b == o.b && tz == o.tz; }
};

using tk = ast::type::kind;
std::vector<std::vector<tk>> const type_kinds {
    { tk::unknown, tk::tiny_integer, tk::small_integer, tk::integer, tk::big_integer, tk::float_, tk::real, tk::double_precision, tk::boolean, tk::date, tk::binary_large_object, tk::character_large_object },
    { tk::time, tk::timestamp },
    { tk::numeric, tk::decimal },
    { tk::character, tk::character_varying },
    { tk::bit, tk::bit_varying },
    { tk::octet, tk::octet_varying },
    { tk::binary_integer, tk::binary_float },
    { tk::interval },
};
char const* const type_names[] = { "simple", "datetime", "decimal", "character_string", "bit_string", "octet_string", "binary_numeric", "interval" };

std::string text(type_spec const& s) {
    auto n = [](std::optional<std::size_t> v) { return !v ? std::string { "-" } : *v == static_cast<std::size_t>(-1) ? "*" : std::to_string(*v); };
    return std::string { type_names[s.cls] } + ":" + std::string { to_string_view(s.k) } + "(" + n(s.a) + "," + n(s.b) + (s.tz ? *s.tz ? ",tz" : ",no tz" : "") + ")";
}

std::optional<ast::common::regioned<std::size_t>> reg(pbt::source& c, std::optional<std::size_t> v) {
    if (!v) return {};
    if (c.flip()) return ast::common::regioned<std::size_t> { *v };
    auto b = c.draw(50);
    return ast::common::regioned<std::size_t> { *v, region { b, b + 1 + c.draw(9) } };
}

std::unique_ptr<ast::type::type> make(pbt::source& c, type_spec const& s) {
    namespace t = ast::type;
    std::optional<ast::common::regioned<bool>> z {};
    if (s.tz) z = ast::common::regioned<bool> { *s.tz };
    switch (s.cls) {
        case 0: return std::make_unique<t::simple>(s.k, s.r);
        case 1: return std::make_unique<t::datetime>(s.k, z, s.r);
        case 2: return std::make_unique<t::decimal>(s.k, reg(c, s.a), reg(c, s.b), s.r);
        case 3: return std::make_unique<t::character_string>(s.k, reg(c, s.a), s.r);
        case 4: return std::make_unique<t::bit_string>(s.k, reg(c, s.a), s.r);
        case 5: return std::make_unique<t::octet_string>(s.k, reg(c, s.a), s.r);
        case 6: return std::make_unique<t::binary_numeric>(s.k, reg(c, s.a), s.r);
        default: return std::make_unique<t::interval>(s.r);
    }
}

std::optional<std::size_t> number(std::optional<ast::common::regioned<std::size_t>> const& v) { return v ? std::optional<std::size_t> { **v } : std::nullopt; }

void check_type(pbt::context& ctx, type_spec const& s, ast::type::type const& n) {
    namespace t = ast::type;
    constexpr auto flex = static_cast<std::size_t>(-1);
    auto req = [&](bool b, char const* what) { ctx.require(b, "value", text(s) + ": " + what + "\n" + jv_text(jv_of(n))); };
    req(n.node_kind() == s.k, "kind");
    req(n.region() == s.r, "region");
    auto str = [&](auto const& x, tk varying) {
        req(*x.type_kind() == s.k, "type kind"); req(number(x.length()) == s.a, "length");
        req(x.is_varying() == (s.k == varying), "is_varying"); req(x.is_flexible_length() == (s.a == flex), "is_flexible_length");
    };
    switch (s.cls) {
        case 1: { auto& x = static_cast<t::datetime const&>(n); req(*x.type_kind() == s.k, "type kind"); req(static_cast<bool>(x.has_time_zone()) == s.tz.has_value() && (!s.tz || **x.has_time_zone() == *s.tz), "time zone"); break; }
        case 2: {
            auto& x = static_cast<t::decimal const&>(n);
            req(*x.type_kind() == s.k, "type kind"); req(number(x.precision()) == s.a, "precision"); req(number(x.scale()) == s.b, "scale");
            req(x.is_flexible_precision() == (s.a == flex), "is_flexible_precision"); req(x.is_flexible_scale() == (s.b == flex), "is_flexible_scale");
            break;
        }
        case 3: str(static_cast<t::character_string const&>(n), tk::character_varying); break;
        case 4: str(static_cast<t::bit_string const&>(n), tk::bit_varying); break;
        case 5: str(static_cast<t::octet_string const&>(n), tk::octet_varying); break;
        case 6: { auto& x = static_cast<t::binary_numeric const&>(n); req(*x.type_kind() == s.k, "type kind"); req(number(x.precision()) == s.a, "precision"); req(x.is_flexible_precision() == (s.a == flex), "is_flexible_precision"); break; }
        default: break;
    }
}

type_spec gen_type(pbt::source& c, int cls) {
    auto size = [&]() -> std::optional<std::size_t> {
        switch (c.draw(5)) { case 0: return {}; case 1: return static_cast<std::size_t>(-1); case 2: return static_cast<std::size_t>(-2); default: return c.draw(4); }
    };
    type_spec s { cls, c.pick(type_kinds[static_cast<std::size_t>(cls)]), {}, {}, {}, {} };
    if (cls >= 2 && cls <= 6) s.a = size();
    if (cls == 2) s.b = size();
    if (cls == 1 && c.chance(2, 3)) s.tz = c.flip();
    if (c.flip()) { s.r.begin = c.draw(20); s.r.end = s.r.begin + 1 + c.draw(20); }
    return s;
}

template<class F> bool refuses(F f) { try { f(); } catch (std::invalid_argument const&) { return true; } return false; }

// constructors whose class has kinds of its own refuse all others
void kinds(pbt::source& c, pbt::context& ctx) {
    namespace t = ast::type; namespace l = ast::literal; namespace st = ast::statement;
    using rc = ast::common::regioned<ast::common::chars>;
    auto in = [](auto const& v, auto k) { return std::find(v.begin(), v.end(), k) != v.end(); };
    auto check = [&](std::string const& cls, auto k, bool allowed, auto f) {
        std::string s = cls + " of kind " + std::string { to_string_view(k) };
        ++ctx.checks;
        bool r = refuses([&] { f(k); });
        if (r == allowed) ctx.fail("kinds", s + (allowed ? " is refused" : " is accepted"));
        ctx.label(cls + (allowed ? " made" : " refused"));
        ctx.nontrivial(s);
    };
    auto any = [&](auto lo, auto hi) { return static_cast<decltype(lo)>(c.range(static_cast<int>(lo), static_cast<int>(hi))); };
    auto literal = [&] { return std::make_unique<l::boolean>(l::boolean_kind::true_); };
    switch (c.draw(5)) {
        case 0: {
            auto cls = static_cast<int>(c.draw(7));
            auto k = any(tk::unknown, tk::collection);
            bool ok = in(type_kinds[static_cast<std::size_t>(cls)], k);
            check(std::string { "type::" } + type_names[cls], k, ok, [&](tk x) { type_spec s { cls, x, {}, {}, {}, {} }; check_type(ctx, s, *make(c, s)); });
            break;
        }
        case 1: {
            using k = l::kind;
            auto x = any(k::boolean, k::default_);
            switch (c.draw(3)) {
                case 0: check("literal::string", x, in(std::vector<k> { k::character_string, k::bit_string, k::hex_string }, x), [&](k v) { l::string n { v, rc { "'0'" } }; ctx.require(n.node_kind() == v, "value", "literal::string"); }); break;
                case 1: check("literal::numeric", x, in(std::vector<k> { k::exact_numeric, k::approximate_numeric }, x), [&](k v) { l::numeric n { v, std::nullopt, rc { "1" } }; ctx.require(n.node_kind() == v, "value", "literal::numeric"); }); break;
                default: check("literal::datetime", x, in(std::vector<k> { k::date, k::time, k::time_with_time_zone, k::timestamp, k::timestamp_with_time_zone }, x), [&](k v) { l::datetime n { v, rc { "'0'" } }; ctx.require(n.node_kind() == v, "value", "literal::datetime"); }); break;
            }
            break;
        }
        case 2: {
            using k = st::constraint_kind;
            auto x = any(k::check, k::identity_column);
            switch (c.draw(3)) {
                case 0: check("simple_constraint", x, in(std::vector<k> { k::null, k::not_null }, x), [&](k v) { st::simple_constraint n { v }; ctx.require(n.node_kind() == v, "value", "simple_constraint"); }); break;
                case 1: check("key_constraint", x, in(std::vector<k> { k::unique, k::primary_key }, x), [&](k v) { if (c.flip()) { st::key_constraint n { v }; ctx.require(n.node_kind() == v, "value", "key_constraint"); } else { st::key_constraint n { v, std::vector<ast::common::sort_element> {} }; ctx.require(n.node_kind() == v, "value", "key_constraint"); } }); break;
                default: check("expression_constraint", x, in(std::vector<k> { k::check, k::default_clause, k::generation_clause }, x), [&](k v) {
                    if (c.flip()) { st::expression_constraint n { v, std::make_unique<ast::scalar::literal_expression>(literal()) }; ctx.require(n.node_kind() == v, "value", "expression_constraint"); }
                    else { st::expression_constraint n { v, ast::scalar::literal_expression { literal() } }; ctx.require(n.node_kind() == v, "value", "expression_constraint"); }
                });
            }
            break;
        }
        case 3: {
            using k = st::kind;
            auto x = any(k::select_statement, k::empty_statement);
            check("drop_statement", x, in(std::vector<k> { k::drop_table_statement, k::drop_index_statement, k::drop_view_statement, k::drop_sequence_statement, k::drop_schema_statement }, x), [&](k v) {
                if (c.flip()) { st::drop_statement n { v, std::make_unique<ast::name::simple>("a") }; ctx.require(n.node_kind() == v, "value", "drop_statement"); }
                else { st::drop_statement n { v, ast::name::simple { "a" } }; ctx.require(n.node_kind() == v, "value", "drop_statement"); }
            });
            break;
        }
        default: {
            using k = st::privilege_user_kind;
            auto x = any(k::identifier, k::public_);
            check("privilege_user", x, x != k::identifier, [&](k v) { st::privilege_user n { v }; ctx.require(n.user_kind() == v && !n.authorization_identifier(), "value", "privilege_user"); });
        }
    }
}

void types(pbt::source& c, pbt::context& ctx) {
    auto cls = static_cast<int>(c.draw(8));
    auto s = gen_type(c, cls);
    auto o = c.chance(3, 4) ? gen_type(c, cls) : gen_type(c, static_cast<int>(c.draw(8)));
    if (c.chance(1, 3)) { auto r = o.r; o = s; o.r = r; } // the same but for the region
    else if (c.flip()) { auto q = o; o = s; switch (c.draw(5)) { case 0: o.k = q.cls == s.cls ? q.k : s.k; break; case 1: o.a = q.cls == s.cls ? q.a : s.a; break; case 2: o.b = q.cls == s.cls ? q.b : s.b; break; default: o.tz = q.cls == s.cls ? q.tz : s.tz; } } // by one part at most
    ctx.show(text(s) + " / " + text(o));
    auto a = make(c, s), b = make(c, o);
    check_type(ctx, s, *a);
    check_type(ctx, o, *b);
    bool eq = s.same(o);
    ctx.require((*a == *b) == eq && (*b == *a) == eq && (*a != *b) != eq, "pairs", "the types are taken for " + std::string { eq ? "different" : "equal" });
    ctx.require(jv_diff(jv_of(*a), jv_of(*b), false).empty() == eq, "pairs", "the serialized types are " + std::string { eq ? "different" : "equal" });
    builder w { c, ctx };
    hook h { &w };
    regwalk::basic_walker<hook> walk {};
    walk.hook = &h;
    ast::type::dispatch(walk, static_cast<ast::type::type const&>(*a));
    // copies do not share
    std::unique_ptr<ast::type::type> k { static_cast<ast::type::type const&>(*a).clone() };
    check_type(ctx, s, *k);
    std::unique_ptr<ast::type::type> m { std::move(*k).clone() };
    check_type(ctx, s, *m);
    if (cls >= 3 && cls <= 5) {
        auto set = [&](auto& x) { x.length() = reg(c, o.a); x.type_kind() = c.pick(type_kinds[static_cast<std::size_t>(cls)]); };
        if (cls == 3) set(static_cast<ast::type::character_string&>(*m)); else if (cls == 4) set(static_cast<ast::type::bit_string&>(*m)); else set(static_cast<ast::type::octet_string&>(*m));
        auto changed = s; changed.a = o.a; changed.k = m->node_kind();
        check_type(ctx, changed, *m);
        check_type(ctx, s, *a);
    }
    // arrays of arrays
    std::optional<ast::common::regioned<std::size_t>> l1 = reg(c, s.a), l2 = reg(c, o.a), l3 = reg(c, o.b);
    using A = ast::type::collection;
    A one { std::unique_ptr<ast::type::type> { a->clone() }, l1 };
    A two { std::make_unique<A>(std::unique_ptr<ast::type::type> { a->clone() }, l1), l2 };
    A three { std::make_unique<A>(std::make_unique<A>(std::unique_ptr<ast::type::type> { a->clone() }, l1), l2), l3 };
    auto cp = [&]() -> std::unique_ptr<ast::type::type> { return std::unique_ptr<ast::type::type> { static_cast<ast::type::type const&>(*a).clone() }; };
    auto p1 = cp(), p2 = cp(), p3 = cp();
    A x1 { std::move(*p1), l1 }, x2 { std::move(*p2), l1, l2 }, x3 { std::move(*p3), l1, l2, l3 };
    ctx.require(x1 == one && jv_diff(jv_of(one), jv_of(x1), true).empty(), "arrays", jv_text(jv_of(x1)));
    ctx.require(x2 == two && jv_diff(jv_of(two), jv_of(x2), true).empty(), "arrays", jv_text(jv_of(x2)));
    ctx.require(x3 == three && jv_diff(jv_of(three), jv_of(x3), true).empty(), "arrays", jv_text(jv_of(x3)));
    ctx.require(x1.is_flexible_length() == (s.a == static_cast<std::size_t>(-1)), "arrays", "is_flexible_length");
    bool eq12 = one == A { std::unique_ptr<ast::type::type> { b->clone() }, l2 };
    ctx.require(eq12 == (eq && s.a == o.a), "arrays", "equality of arrays");
    ctx.label(eq ? "equal" : "different");
    ctx.label(type_names[cls]);
    ctx.nontrivial(ctx.shown);
}

} // namespace

int main(int argc, char** argv) {
    pbt::suite s;
    s.property = "C12";
    s.rule = "each node of the trees of generated documents, and of trees edited at random accessors, is built again from copies of its parts with every constructor its class has for them (owning pointers, copies, names, lists, shorter forms), with its own or a random region or none, and compared with the original; non-trivial: a distinct document of 8 tokens or more, or a distinct edited one";
    s.subs.push_back({ "parsed", 15000, 1000000, parsed });
    s.subs.push_back({ "edited", 10000, 1000000, edited });
    s.subs.push_back({ "types", 30000, 1000000, types });
    s.subs.push_back({ "kinds", 10000, 200000, kinds });
    return pbt::run(s, argc, argv);
}
