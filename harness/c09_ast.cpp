#include <mizugaki/ast/compilation_unit.h>
#include <takatori/util/clonable.h>
#include "doc_check.h"
#include "regwalk.h"
#include "treeedit.h"

using namespace sqlgen;
namespace ast = mizugaki::ast;
using ::takatori::util::clone_tag;

namespace {

std::unique_ptr<ast::compilation_unit> parse(pbt::context& ctx, std::string const& text) {
    sql_parser parser;
    auto r = parser("-", text);
    if (!r.has_value()) ctx.fail("rejected", "a valid document was rejected: " + diag_text(r));
    return std::move(r.value());
}

// without what the equality ignores: regions (not compared by jv_diff) and descriptions
jv bare(jv v) {
    erase_key(v, "description");
    return v;
}
bool same(jv const& a, jv const& b) { return jv_diff(a, b, false).empty(); }

void compare(pbt::context& ctx, ast::compilation_unit const& a, ast::compilation_unit const& b, char const* what) {
    for (auto& s : a.statements()) {
        for (auto& t : b.statements()) {
            auto x = bare(jv_of(*s)), y = bare(jv_of(*t));
            bool expect = same(x, y);
            bool eq = *s == *t, ne = *s != *t, rev = *t == *s;
            ++ctx.checks;
            if (eq != expect) ctx.fail(expect ? "unequal" : "equal", std::string(what) + ": == is " + (eq ? "true" : "false") + " for " + (expect ? jv_text(x) : jv_diff(x, y, false)));
            if (ne == eq) ctx.fail("not-equal", std::string(what) + ": == and != agree: " + jv_text(x));
            if (rev != eq) ctx.fail("symmetric", std::string(what) + ": == is not symmetric: " + jv_text(x) + " / " + jv_text(y));
            ctx.label(expect ? "equal-pairs" : "different-pairs");
        }
    }
    bool expect = same(*bare(jv_of(a)).find("statements"), *bare(jv_of(b)).find("statements"));
    ctx.require((a == b) == expect && (a != b) == !expect, "unit-equality", what);
}

// an edit of the choices which made a document: usually a document with one small difference
std::vector<std::uint32_t> edit(pbt::source& c, std::vector<std::uint32_t> v) {
    if (v.empty()) return v;
    auto i = c.draw(static_cast<std::uint32_t>(v.size()));
    switch (c.weighted({ 4, 3, 1, 1 })) {
        case 0: v[i] = v[i] + 1; break;
        case 1: v[i] = v[i] > 0 ? v[i] - 1 : c.draw(8); break;
        case 2: v[i] = c.draw(16); break;
        default: v.erase(v.begin() + static_cast<long>(i)); break;
    }
    return v;
}

void equality(pbt::source& c, pbt::context& ctx) {
    config conf;
    conf.max_statements = 2;
    conf.depth = c.range(2, 5);
    c.begin_trace();
    document d { c, conf, gap_style::plain };
    auto made = c.end_trace();
    // the comparison of all the parts is quadratic
    if (d.g.toks.size() > 500) throw pbt::discard {};
    auto a = parse(ctx, d.lay.text);
    ctx.show(d.lay.text);
    compare(ctx, *a, *a, "itself");
    // another layout of the same document
    auto other = layouter { c, gap_style::random_docs, true }(d.g.toks);
    auto recased = parse(ctx, layouter { c, gap_style::random, false }(d.g.toks).text);
    compare(ctx, *a, *recased, "another layout");
    auto n = c.range(1, 4);
    for (int i = 0; i < n; ++i) {
        pbt::source e { edit(c, made) };
        document f { e, conf, gap_style::plain };
        auto b = parse(ctx, f.lay.text);
        ctx.show(d.lay.text + "\n  / " + f.lay.text);
        compare(ctx, *a, *b, "edited");
    }
    if (d.nontrivial()) ctx.nontrivial(ctx.shown);
}

void cloning(pbt::source& c, pbt::context& ctx) {
    document d { c, {}, c.flip() ? gap_style::plain : gap_style::random_docs };
    ctx.show(d.lay.text);
    auto a = parse(ctx, d.lay.text);
    auto before = jv_of(*a);
    auto check = [&](jv const& expect, jv const& actual, char const* sig) {
        auto diff = jv_diff(expect, actual, true);
        if (!diff.empty()) ctx.fail(sig, diff);
        ++ctx.checks;
    };
    // serialization is a function of the tree
    check(before, jv_of(*a), "serialize-again");
    // the copy of each statement
    std::vector<std::unique_ptr<ast::statement::statement>> copies;
    for (auto& s : a->statements()) {
        auto& cs = *s;
        std::unique_ptr<ast::statement::statement> copy { static_cast<ast::statement::statement const&>(cs).clone() };
        ctx.require(copy.get() != s.get(), "clone-address");
        ctx.require(copy->node_kind() == s->node_kind(), "clone-kind");
        check(jv_of(*s), jv_of(*copy), "clone");
        ctx.require(*copy == *s && *s == *copy && !(*copy != *s), "clone-equality", jv_text(jv_of(*copy)));
        copies.push_back(std::move(copy));
    }
    check(before, jv_of(*a), "clone-changed-the-original");
    // the copy of a copy outlives the copy
    for (std::size_t i = 0; i < copies.size(); ++i) {
        std::unique_ptr<ast::statement::statement> second { static_cast<ast::statement::statement const&>(*copies[i]).clone() };
        std::unique_ptr<ast::statement::statement> moved { std::move(*copies[i]).clone() };
        copies[i].reset();
        check(jv_of(*a->statements()[i]), jv_of(*moved), "clone-by-move");
        check(jv_of(*a->statements()[i]), jv_of(*second), "clone-of-clone");
        ctx.require(*moved == *second && *moved == *a->statements()[i], "clone-equality");
        if (c.flip()) second = std::move(moved);
        copies[i] = std::move(second);
    }
    // the unit
    auto unit = std::make_unique<ast::compilation_unit>(clone_tag, static_cast<ast::compilation_unit const&>(*a));
    check(before, jv_of(*unit), "clone-unit");
    ctx.require(*unit == *a && !(*unit != *a), "clone-unit-equality");
    ctx.require(unit->comments().size() == a->comments().size(), "clone-comments");
    for (std::size_t i = 0; i < a->comments().size(); ++i) ctx.require(unit->comments()[i] == a->comments()[i], "clone-comments");
    ctx.require(unit->document().get() == a->document().get(), "clone-document");
    a.reset();
    check(before, jv_of(*unit), "clone-depends-on-the-original");
    ast::compilation_unit last { clone_tag, std::move(*unit) };
    unit.reset();
    check(before, jv_of(last), "move-unit");
    for (std::size_t i = 0; i < copies.size(); ++i) {
        check(before.find("statements")->a.at(i), jv_of(*copies[i]), "clone-depends-on-the-original");
    }
    // each node names its kind once, and each property once
    each_node(before, 0, [&](jv const& v, std::size_t) {
        std::set<std::string> names;
        for (auto& [k, e] : v.o) if (!names.insert(k).second) ctx.fail("duplicate-property", k + " in " + jv_text(v));
    });
    // printing does not depend on the instance
    std::ostringstream p, q;
    for (auto& s : last.statements()) p << *s;
    for (auto& s : copies) q << *s;
    ctx.require(p.str() == q.str() && (last.statements().empty() || !p.str().empty()), "print", p.str() + " / " + q.str());
    for (auto& [k, n] : d.g.used) ctx.label(k);
    if (d.nontrivial()) ctx.nontrivial(d.lay.text);
}

// each node as what it is
struct entry {
    std::string kind;
    void const* p;
    jv value;
    bool (*eq)(void const*, void const*);
    bool (*ne)(void const*, void const*);
    void (*print)(std::ostream&, void const*);
};
struct collector {
    pbt::context* ctx;
    std::vector<entry> nodes {};
    template<class N>
    void node(char const* kind, N const& n) {
        nodes.push_back({ std::string { kind } + " " + typeid(N).name(), std::addressof(n), bare(jv_of(n)),
            [](void const* a, void const* b) { return *static_cast<N const*>(a) == *static_cast<N const*>(b); },
            [](void const* a, void const* b) { return *static_cast<N const*>(a) != *static_cast<N const*>(b); },
            [](std::ostream& o, void const* a) { o << *static_cast<N const*>(a); } });
        base<ast::literal::literal, N>("literal::literal", n);
        base<ast::name::name, N>("name::name", n);
        base<ast::type::type, N>("type::type", n);
        base<ast::scalar::expression, N>("scalar::expression", n);
        base<ast::table::expression, N>("table::expression", n);
        base<ast::query::expression, N>("query::expression", n);
        base<ast::query::grouping_element, N>("query::grouping_element", n);
        base<ast::query::select_element, N>("query::select_element", n);
        base<ast::statement::statement, N>("statement::statement", n);
        base<ast::statement::table_element, N>("statement::table_element", n);
        base<ast::statement::constraint, N>("statement::constraint", n);
        base<ast::statement::alter_table_action, N>("statement::alter_table_action", n);
        base<ast::statement::alter_index_action, N>("statement::alter_index_action", n);
    }
    // ... and as any node of its category
    template<class B, class N>
    void base(char const* kind, N const& n) {
        if constexpr (std::is_base_of_v<B, N>) {
            B const* p = std::addressof(n);
            nodes.push_back({ std::string { kind } + " (base)", p, bare(jv_of(n)),
                [](void const* a, void const* b) { return *static_cast<B const*>(a) == *static_cast<B const*>(b); },
                [](void const* a, void const* b) { return *static_cast<B const*>(a) != *static_cast<B const*>(b); },
                [](std::ostream& o, void const* a) { o << *static_cast<B const*>(a); } });
        }
        (void) kind; (void) n;
    }
    // both overloads of an accessor give the same object
    template<class N, class F>
    void access(char const* owner, char const* name, N const& n, F f) {
        using C = decltype(f(n));
        using M = decltype(f(const_cast<N&>(n)));
        if constexpr (std::is_lvalue_reference_v<C> && std::is_lvalue_reference_v<M>) {
            void const* a = std::addressof(f(n));
            void const* b = std::addressof(f(const_cast<N&>(n)));
            if (a != b) ctx->fail("accessors", std::string { owner } + "::" + name + "() of a constant node and of a variable one are different objects");
            ++ctx->checks;
        }
        (void) owner; (void) name; (void) n; (void) f;
    }
};
void nodes(pbt::source& c, pbt::context& ctx) {
    config conf;
    conf.max_statements = 2;
    conf.depth = c.range(2, 4);
    c.begin_trace();
    document d { c, conf, gap_style::plain };
    auto made = c.end_trace();
    // the comparison of all the parts is quadratic
    if (d.g.toks.size() > 500) throw pbt::discard {};
    auto a = parse(ctx, d.lay.text);
    pbt::source e { edit(c, made) };
    document f { e, conf, gap_style::plain };
    auto b = parse(ctx, f.lay.text);
    ctx.show(d.lay.text + "\n  / " + f.lay.text);
    auto collect = [&](ast::compilation_unit const& u) {
        collector k { &ctx };
        regwalk::basic_walker<collector> w {};
        w.hook = &k;
        for (auto& s : u.statements()) w.statement(*s);
        return std::move(k.nodes);
    };
    auto x = collect(*a), y = collect(*b);
    std::map<std::string, std::vector<entry const*>> kinds;
    for (auto& n : y) kinds[n.kind].push_back(&n);
    auto check = [&](entry const& p, entry const& q) {
        bool expect = same(p.value, q.value);
        bool eq = p.eq(p.p, q.p), ne = p.ne(p.p, q.p);
        ++ctx.checks;
        if (eq != expect || ne == expect) ctx.fail("node-equality", p.kind + ": == is " + (eq ? "true" : "false") + ", != is " + (ne ? "true" : "false") + " for " + jv_text(p.value) + "\n and " + jv_text(q.value));
        std::ostringstream o, r;
        p.print(o, p.p); q.print(r, q.p);
        if (o.str().empty() || (!expect && o.str() == r.str())) ctx.fail("node-print", p.kind + ": different nodes are printed the same: " + o.str());
    };
    for (auto& n : x) {
        check(n, n);
        auto& others = kinds[n.kind];
        if (others.empty()) continue;
        for (int i = 0; i < 3; ++i) check(n, *others[c.draw(static_cast<std::uint32_t>(others.size()))]);
        ctx.label(n.kind.substr(0, n.kind.find(' ')));
    }
    if (d.nontrivial()) ctx.nontrivial(ctx.shown);
}

// trees which no text stands for: parts are left out, repeated or exchanged through the accessors
void edits(pbt::source& c, pbt::context& ctx) {
    config conf;
    conf.max_statements = 2;
    conf.depth = c.range(2, 4);
    document d { c, conf, gap_style::plain };
    if (d.g.toks.size() > 300) throw pbt::discard {};
    auto a = parse(ctx, d.lay.text), b = parse(ctx, d.lay.text);
    if (a->statements().empty()) throw pbt::discard {};
    treeedit::donors from;
    for (auto& x : a->statements()) from.add(*x);
    auto i = c.draw(static_cast<std::uint32_t>(a->statements().size()));
    auto& stmt = *b->statements()[i];
    std::string done;
    int n = c.weighted({ 6, 2, 1 }) + 1;
    for (int k = 0; k < n; ++k) { auto e = treeedit::edit(c, stmt, from); if (!e.empty()) done += " / " + e; }
    if (done.empty()) throw pbt::discard {};
    ctx.show(d.lay.text + done);
    compare(ctx, *a, *b, "edited through accessors");
    compare(ctx, *b, *b, "itself");
    auto before = jv_of(*b);
    std::unique_ptr<ast::statement::statement> copy { static_cast<ast::statement::statement const&>(stmt).clone() };
    auto check = [&](ast::statement::statement const& x, char const* sig) {
        auto diff = jv_diff(before.find("statements")->a.at(i), jv_of(x), true);
        if (!diff.empty()) ctx.fail(sig, diff);
        ++ctx.checks;
    };
    check(*copy, "clone of an edited tree");
    ctx.require(*copy == stmt && stmt == *copy && !(*copy != stmt), "clone-equality", jv_text(jv_of(*copy)));
    // another edit tells the copy from the original
    auto more = treeedit::edit(c, *copy, from);
    check(stmt, "an edit of the copy changed the original");
    bool expect = same(bare(jv_of(*copy)), bare(jv_of(stmt)));
    ctx.require((*copy == stmt) == expect && (*copy != stmt) == !expect, "clone-equality after an edit", more);
    std::unique_ptr<ast::statement::statement> moved { std::move(stmt).clone() };
    check(*moved, "clone by move of an edited tree");
    std::ostringstream p, q;
    p << *moved; q << *copy;
    ctx.require(expect || p.str() != q.str(), "print", p.str());
    ctx.nontrivial(ctx.shown);
}

} // namespace

int main(int argc, char** argv) {
    pbt::suite s;
    s.property = "C09";
    s.rule = "statements of generated documents, compared with themselves, other layouts of them, documents derived from edited choices (near misses) and copies by both clone operations; each node of a tree against nodes of the same class of a near miss, as its own class, with both overloads of every accessor; trees and copies of them edited at random accessors (parts left out, repeated, exchanged); the reference is the structural comparison of the serialized trees; non-trivial: a distinct (pair of) document(s) of 8 tokens or more";
    s.subs.push_back({ "equality", 30000, 2000000, equality });
    s.subs.push_back({ "cloning", 30000, 2000000, cloning });
    s.subs.push_back({ "nodes", 30000, 1000000, nodes });
    s.subs.push_back({ "edits", 15000, 1000000, edits });
    return pbt::run(s, argc, argv);
}
