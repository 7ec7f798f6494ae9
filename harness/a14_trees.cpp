// A14: a tree which a program built or changed is analyzed as any other: exactly one well-formed result, which depends on
// its parts only, and not on their regions or on which copy of it is analyzed.
#include "acat.h"
#include "treeedit.h"
namespace {
using namespace acat;
namespace ast = ::mizugaki::ast;
using code = sql_analyzer_code;
using R = mana::sql_analyzer_result_kind;

std::string outcome(pbt::context& ctx, mana::sql_analyzer_result const& r) {
    std::string fault;
    auto t = plan::text(r, &fault);
    ctx.require(fault.empty(), "malformed plan", [&] { return fault + "\n" + t; });
    bool valid = r.kind() != R::diagnostics;
    ctx.require(r.is_valid() == valid && static_cast<bool>(r) == valid, "validity of the result", "");
    if (!valid) {
        t.clear();
        auto&& ds = r.element<R::diagnostics>();
        ctx.require(!ds.empty(), "rejected without a reason", "");
        for (auto&& d : ds) {
            ctx.require(d.code() != code::unknown && !d.message().empty(), "code and message of the diagnostic", t);
            t += str(d.code()) + ": " + d.message() + "\n";
        }
    }
    return t;
}
// messages may show parts of the tree
std::string without_regions(std::string s) {
    for (std::size_t i; (i = s.find("\"region\":")) != std::string::npos;) {
        auto e = i + 9;
        e = s.compare(e, 4, "null") == 0 ? e + 4 : s.find('}', e) + 1;
        if (s[i - 1] == ',') --i;
        s.erase(i, e - i);
    }
    return s;
}
void check(pbt::source& c, pbt::context& ctx, setting& s, std::string const& text) {
    auto o = s.fx.options();
    options(c, o);
    ::mizugaki::parser::sql_parser parser;
    auto p = parser("-", text), q = parser("-", text);
    if (!p.has_value()) throw pbt::discard {};
    std::unique_ptr<ast::compilation_unit> unit { std::move(p.value()) }, intact { std::move(q.value()) };
    if (unit->statements().empty()) throw pbt::discard {};
    treeedit::donors from;
    for (auto& x : intact->statements()) from.add(*x);
    auto& stmt = *unit->statements()[0];
    int n = c.weighted({ 6, 3, 1 }) + 1;
    std::string done;
    for (int i = 0; i < n; ++i) { auto e = treeedit::edit(c, stmt, from); if (!e.empty()) { done += "  / " + e; if (i == 0) ctx.label(e); } }
    if (done.empty()) throw pbt::discard {};
    auto tree = jv_text(jv_of(stmt), false);
    ctx.show(text + done + "\n  " + tree);
    auto analyze = [&](ast::statement::statement const& x) { mana::sql_analyzer a; return a(o, x, *unit, s.holders, *s.host); };
    auto first = outcome(ctx, analyze(stmt));
    auto same = [&](ast::statement::statement const& x, char const* what) {
        auto t = outcome(ctx, analyze(x));
        ctx.require(without_regions(t) == without_regions(first), what, [&] { return first + "\nbut\n" + t; });
    };
    same(stmt, "the second analysis differs");
    ctx.require(jv_text(jv_of(stmt), false) == tree, "the syntax tree has changed", "");
    auto copy = ::takatori::util::clone_unique(stmt);
    ctx.require(*copy == stmt, "the copy is unequal", "");
    same(*copy, "the analysis of a copy differs");
    treeedit::strip(*copy);
    ctx.require(*copy == stmt, "the copy without regions is unequal", "");
    same(*copy, "the analysis of the tree without regions differs");
    ctx.nontrivial(tree);
}
void grammar(pbt::source& c, pbt::context& ctx) {
    setting s; catalog(c, s);
    sqlgen::config conf;
    conf.names = names();
    conf.delimited = c.chance(1, 6); conf.contextual = false; conf.exotic = c.chance(1, 4);
    conf.depth = c.range(1, 4); conf.max_statements = 2;
    sqlgen::document d { c, conf, sqlgen::gap_style::plain };
    ctx.show(d.lay.text);
    check(c, ctx, s, d.lay.text);
}
void queries(pbt::source& c, pbt::context& ctx) {
    setting s; qg::gen_options g;
    g.fold = true; g.allow_null = c.flip();
    qg::generator gen { c, s.fx, g };
    gen.budget = 25;
    gen.catalog();
    auto x = gen.query(nullptr, nullptr, c.range(1, 2), true);
    std::string text = x.sql;
    ctx.show(text);
    check(c, ctx, s, text);
}
// valid statements whose mandatory part is taken away, or which get an option which contradicts another one
void malformed(pbt::source& c, pbt::context& ctx) {
    setting s;
    std::string text;
    std::set<std::string> wanted;
    int kind = c.weighted({ 4, 4, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1 });
    if (kind < 2) {
        qg::gen_options g; g.fold = true;
        qg::generator gen { c, s.fx, g };
        gen.budget = 25;
        gen.catalog();
        text = gen.query(nullptr, nullptr, c.range(1, 2), true).sql;
        wanted = { "scalar::case_expression.when_clauses cleared", "table::join_columns.columns cleared", "statement::select_statement.expression left out" };
        if (kind == 0) wanted.erase("statement::select_statement.expression left out");
    } else {
        auto& fx = s.fx;
        fx.add_schema("main"); fx.path.push_back(0);
        mtable t; t.schema = "main"; t.name = "t"; t.pk = { 0 }; t.has_index = true;
        int n = c.range(1, 4);
        for (int i = 0; i < n; ++i) t.cols.push_back({ std::string(1, static_cast<char>('a' + i)), ty::num });
        fx.add_table(std::move(t));
        auto cols = [&] { std::string r; int k = c.range(1, n); for (int i = 0; i < k; ++i) r += std::string(i ? ", " : "") + static_cast<char>('a' + i); return r; };
        auto values = [&] { std::string r; for (int i = c.range(1, 4); i > 0; --i) r += std::to_string(c.draw(100)) + (i > 1 ? ", " : ""); return r; };
        auto around = [&](std::string const& e) -> std::string {
            switch (c.draw(4)) {
                case 0: return "SELECT " + e + " FROM t";
                case 1: return "SELECT a FROM t WHERE " + e + " = 1 OR a = 2";
                case 2: return "SELECT x FROM (SELECT " + e + " AS x FROM t) AS q";
                default: return "UPDATE t SET a = " + e;
            }
        };
        auto when = [&](std::string const& e) -> std::string {
            switch (c.draw(4)) {
                case 0: return "SELECT a FROM t WHERE " + e;
                case 1: return "DELETE FROM t WHERE NOT " + e;
                case 2: return "SELECT * FROM (SELECT a FROM t WHERE a = 1 AND " + e + ") AS q";
                default: return "UPDATE t SET a = 0 WHERE " + e;
            }
        };
        std::string opt = c.flip() ? "IF EXISTS " : "";
        switch (kind) {
            case 2: { text = "UPDATE t SET "; int k = c.range(1, n); for (int i = 0; i < k; ++i) text += std::string(i ? ", " : "") + static_cast<char>('a' + i) + " = 1"; wanted = { "statement::update_statement.elements cleared" }; break; }
            case 3: text = "CREATE INDEX i ON t (" + cols() + ")"; wanted = { "statement::index_definition.keys cleared" }; break;
            case 4: case 5: {
                bool grant = c.flip();
                text = std::string(grant ? "GRANT " : "REVOKE ") + (c.flip() ? "SELECT, INSERT" : "UPDATE") + " ON t " + (grant ? "TO " : "FROM ") + (c.flip() ? "u1, u2" : "u1");
                std::string o = grant ? "statement::grant_privilege_statement." : "statement::revoke_privilege_statement.";
                wanted = { o + "actions cleared", o + "objects cleared", o + "users cleared" };
                break;
            }
            case 6: text = "CREATE TABLE n (a INT" + std::string(c.flip() ? ", b INT" : "") + ")"; wanted = { "statement::table_definition.elements cleared" }; break;
            case 7: text = when("a " + std::string(c.flip() ? "NOT " : "") + "IN (" + values() + ")"); wanted = { "scalar::value_constructor.elements cleared" }; break;
            case 8: text = around("COALESCE(a, " + values() + ")"); wanted = { "scalar::builtin_function_invocation.arguments cleared" }; break;
            case 9: text = around("NULLIF(a, " + std::to_string(c.draw(9)) + ")"); wanted = { "scalar::builtin_function_invocation.arguments cleared", "scalar::builtin_function_invocation.arguments shortened", "scalar::builtin_function_invocation.arguments repeated" }; break;
            case 10: text = std::string("INSERT OR ") + (c.flip() ? "IGNORE" : "REPLACE") + " INTO t (a) VALUES (1)"; break;
            case 11: text = "DROP TABLE " + opt + "t" + (c.flip() ? " CASCADE" : " RESTRICT"); break;
            case 13: text = std::string(c.flip() ? "GRANT SELECT ON t, main.t, TABLE t TO " : "REVOKE SELECT ON t, main.t, TABLE t FROM ") + (c.flip() ? "u1" : "PUBLIC"); break;
            default: text = around("CASE a WHEN " + std::to_string(c.draw(9)) + " THEN 1 END"); wanted = { "scalar::case_expression.when_clauses cleared" }; break;
        }
    }
    auto o = s.fx.options();
    ::mizugaki::parser::sql_parser parser;
    auto p = parser("-", text);
    ctx.show(text);
    if (!p.has_value()) ctx.fail("rejected", "a valid statement was rejected by the parser");
    std::unique_ptr<ast::compilation_unit> unit { std::move(p.value()) };
    auto& stmt = *unit->statements().at(0);
    auto analyze = [&] { mana::sql_analyzer a; return a(o, stmt, *unit, s.holders, *s.host); };
    auto before = analyze();
    // RESTRICT and CASCADE are not implemented alone
    if (!before.is_valid() && kind != 11) ctx.fail("rejected", diagnostics(before));
    ast::node_region owner {};
    std::string done;
    if (kind == 10) {
        using option = ast::statement::insert_statement_option;
        auto& x = static_cast<ast::statement::insert_statement&>(stmt);
        auto v = c.flip() ? option::or_ignore : option::or_replace;
        x.options().insert(x.options().begin() + c.range(0, 1), ast::statement::insert_statement::option_type { v, x.options()[0].region() });
        done = "another option"; owner = x.options()[0].region();
    } else if (kind == 11) {
        using option = ast::statement::drop_statement_option;
        auto& x = static_cast<ast::statement::drop_statement&>(stmt);
        bool restrict = std::any_of(x.options().begin(), x.options().end(), [](auto& e) { return e == option::restrict; });
        x.options().insert(x.options().begin() + c.range(0, static_cast<int>(x.options().size())), ast::statement::drop_statement::option_type { restrict ? option::cascade : option::restrict, stmt.region() });
        done = "another option"; owner = stmt.region();
    } else if (kind == 13) {
        using object_kind = ast::statement::privilege_object_kind;
        auto edit = [&](auto& x) {
            auto& os = x.objects();
            while (os.size() > 1 && c.chance(1, 3)) os.erase(os.begin() + c.range(0, static_cast<int>(os.size()) - 1));
            std::size_t at = c.draw(static_cast<std::uint32_t>(os.size()));
            for (std::size_t i = 0; i < os.size(); ++i) {
                if (i == at || c.chance(1, 4)) os[i].object_kind() = ast::common::regioned<object_kind> { object_kind::schema, os[i].region() };
                else if (c.chance(1, 3)) os[i].object_kind().reset();
            }
        };
        if (stmt.node_kind() == ast::statement::kind::grant_privilege_statement) edit(static_cast<ast::statement::grant_privilege_statement&>(stmt));
        else edit(static_cast<ast::statement::revoke_privilege_statement&>(stmt));
        done = "privileges on schemas"; owner = stmt.region();
    } else {
        treeedit::donors from; from.add(stmt);
        // the donors would be parts of the edited tree: none of these edits takes any
        done = treeedit::edit(c, stmt, from, [&](std::string const& w) { return wanted.count(w) != 0; }, &owner);
        if (done.empty()) throw pbt::discard {};
    }
    ctx.label(done);
    ctx.show(text + " / " + done);
    auto r = analyze();
    ctx.require(!r.is_valid(), "a malformed tree is accepted", "");
    auto&& ds = r.element<R::diagnostics>();
    ctx.require(ds.size() == 1 && ds[0].code() == (kind == 13 ? code::unsupported_feature : code::malformed_syntax), "diagnostic of a malformed tree", [&] { return diagnostics(r); });
    std::size_t b = 0, e = 0;
    ctx.require(std::sscanf(str(ds[0].location()).c_str(), "region(begin=%zu, end=%zu", &b, &e) == 2, "the diagnostic has no location", [&] { return diagnostics(r); });
    if (owner) ctx.require(b >= owner.begin && e <= owner.end && b < e, "location of the diagnostic of a malformed tree", [&] { return diagnostics(r); });
    ctx.nontrivial(text + done);
}
} // namespace
int main(int argc, char** argv) {
    pbt::suite s { "A14", "trees which were edited, told apart by their structure",
        {
            { "grammar", 25000, 3000000, grammar },
            { "queries", 20000, 3000000, queries },
            { "malformed", 20000, 1000000, malformed },
        } };
    return pbt::run(s, argc, argv);
}
