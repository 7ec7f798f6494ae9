// Catalogs, options and parameters for statements of the whole grammar.
#pragma once
#include "doc_check.h"
#include "plancheck.h"
#include "qgen.h"
namespace acat {
using namespace ana;
struct setting {
    fixture fx;
    ::mizugaki::placeholder_map holders;
    std::shared_ptr<::yugawara::variable::configurable_provider> host { std::make_shared<::yugawara::variable::configurable_provider>() };
    std::vector<std::pair<std::string, ty>> hosts; std::vector<std::pair<std::string, int>> held;
    void add_host(std::string name, ty t) { host->add(std::make_shared<::yugawara::variable::declaration>(name, type_of(t))); hosts.emplace_back(std::move(name), t); }
    void hold(std::string name, int k) {
        if (k == 0) holders.add(name, { tvalue::int8 { 1 }, ttype::int8 {} });
        else if (k == 1) holders.add(name, { tvalue::character { "?" }, ttype::character { ttype::varying, 10 } });
        else holders.add(name, { tvalue::unknown {}, ttype::decimal { 5, 2 } });
        held.emplace_back(std::move(name), k);
    }
};
inline void options(pbt::source& c, mana::sql_analyzer_options& o) {
    o.lowercase_regular_identifiers() = !c.chance(1, 6);
    o.allow_context_independent_null() = c.flip();
    o.validate_scalar_expressions() = c.flip();
    o.prefer_small_integer_literals() = c.flip();
    o.prefer_small_character_literals() = c.flip();
    o.prefer_small_decimal_literals() = c.flip();
    o.cast_literals_in_context() = c.flip();
    o.prefer_write_statement() = c.flip();
    o.host_parameter_declaration_starts_with_colon() = c.flip();
    if (c.chance(1, 4)) o.max_decimal_precision() = 1 + c.draw(40);
    if (c.chance(1, 4)) { if (c.flip()) o.default_decimal_precision() = std::nullopt; else o.default_decimal_precision() = c.draw(40); }
    if (c.chance(1, 4)) o.system_zone_offset() = std::chrono::minutes { static_cast<int>(c.draw(1500)) - 750 };
}
// the names of the catalog are those which the generator of statements uses
inline void catalog(pbt::source& c, setting& s) {
    auto& fx = s.fx;
    fx.add_schema("main");
    fx.add_schema("s");
    if (c.flip()) fx.path.push_back(1);
    auto table = [&](std::string schema, std::string name, std::vector<std::string> cols) {
        mtable t; t.schema = std::move(schema); t.name = std::move(name);
        for (auto& n : cols) t.cols.push_back({ n, c.chance(2, 3) ? ty::num : ty::text });
        if (c.flip()) t.pk.push_back(0);
        if (t.cols.size() > 2 && c.chance(1, 4)) t.cols.back().hidden = true;
        fx.add_table(std::move(t));
    };
    table("main", "t", { "a", "b", "c", "x" });
    table("main", "u", { "a", "d" });
    table("main", "x", { "x", "b" });
    table("s", "t", { "b", "c" });
    table("s", "v", { "a" });
    for (auto n : { "f", "g", "a" }) { fx.add_function({ "main", n, { ty::num }, ty::num, {} }); if (c.flip()) fx.add_function({ "main", n, { ty::text }, ty::num, {} }); if (c.flip()) fx.add_function({ "s", n, {}, ty::text, {} }); if (c.flip()) fx.add_function({ "main", n, { ty::num, ty::text }, ty::flag, {} }); }
    fx.add_function({ "main", "tf", { ty::num }, {}, { { "p", ty::num }, { "q", ty::text } } });
    fx.add_function({ "main", "tf", {}, {}, { { "b", ty::num } } });
    fx.add_variable("main", "v", ty::num, val::of(std::int64_t { 1 }));
    fx.add_variable("s", "d", ty::text, val::of("x"));
    fx.standard_aggregates("main");
    if (c.flip()) s.add_host(c.flip() ? ":a" : "a", ty::num);
    if (c.flip()) s.add_host(c.flip() ? ":b" : "b", ty::text);
    if (c.flip()) s.hold(c.flip() ? ":c" : "c", 0);
    if (c.flip()) s.hold("x", 1);
    if (c.flip()) s.hold("a", 2);
}
inline std::vector<std::string> const& names() {
    static std::vector<std::string> const p { "a", "b", "c", "x", "t", "t", "u", "x", "s", "v", "d", "f", "g", "tf", "p", "q", "main", "T", "A", "count" };
    return p;
}
// the tokens of a generated query
inline std::vector<std::string> tokens(std::string const& sql) {
    std::vector<std::string> toks;
    for (std::size_t i = 0; i < sql.size();) {
        auto ch = sql[i]; std::size_t j = i + 1;
        auto word = [](char k) { return std::isalnum(static_cast<unsigned char>(k)) || k == '_'; };
        if (ch == '\'' || ch == '"') { while (j < sql.size() && (sql[j] != ch || (j + 1 < sql.size() && sql[j + 1] == ch))) j += sql[j] == ch ? 2 : 1; ++j; }
        else if (word(ch)) while (j < sql.size() && word(sql[j])) ++j;
        else if (static std::string const ops[] { "<=", ">=", "<>", "!=", "||", "::" }; true) for (auto& o : ops) if (sql.compare(i, 2, o) == 0) j = i + 2;
        if (ch != ' ' && ch != '\n') toks.push_back(sql.substr(i, j - i));
        i = j;
    }
    return toks;
}
// the results of all the statements, with the positions in tokens
inline std::vector<std::string> outcomes(setting& s, mana::sql_analyzer_options const& o, sqlgen::layout const& lay, bool respelled, bool& parsed) {
    session ss { lay.text };
    parsed = static_cast<bool>(ss.unit);
    std::vector<std::string> r;
    if (!ss.unit) return { ss.error.substr(0, ss.error.find(':')) };
    for (std::size_t i = 0; i < ss.unit->statements().size(); ++i) {
        auto x = ss.analyze(o, i, s.holders, *s.host);
        using R = mana::sql_analyzer_result_kind;
        if (x.kind() != R::diagnostics) { r.push_back(plan::text(x)); continue; }
        std::string t;
        for (auto&& d : x.element<R::diagnostics>()) {
            std::size_t b = 0, e = 0;
            std::sscanf(str(d.location()).c_str(), "region(begin=%zu, end=%zu", &b, &e);
            std::size_t tb = 0, te = 0;
            while (tb < lay.span.size() && lay.span[tb].second <= b) ++tb;
            while (te < lay.span.size() && lay.span[te].first < e) ++te;
            // note: messages quote the names as they are written
            t += str(d.code()) + (respelled ? "" : ": " + d.message()) + " at tokens " + std::to_string(tb) + "-" + std::to_string(te) + "\n";
        }
        r.push_back(std::move(t));
    }
    return r;
}
} // namespace acat
