// A11: the options of the analyzer govern exactly what they say, and analyzers, options, placeholders and results are
// values which do not affect each other.
#include "acat.h"
namespace {
using namespace acat;
using sqlgen::tok; using sqlgen::tk; using sqlgen::lower;
using opts = mana::sql_analyzer_options;

enum role { variable, function, relation, schema, catalog_, none };
struct folding {
    bool all {}, each[5] {};
    bool operator()(role r) const { return r != none && (all || each[r]); }
    void set(opts& o) const {
        o.lowercase_regular_identifiers() = all;
        o.lowercase_variable_regular_identifiers() = each[variable];
        o.lowercase_function_regular_identifiers() = each[function];
        o.lowercase_relation_regular_identifiers() = each[relation];
        o.lowercase_schema_regular_identifiers() = each[schema];
        o.lowercase_catalog_regular_identifiers() = each[catalog_];
    }
    std::string text() const {
        std::string r = all ? "all" : "";
        char const* n[] { " variables", " functions", " relations", " schemas", " catalogs" };
        for (int i = 0; i < 5; ++i) if (each[i]) r += n[i];
        return r;
    }
};
std::string delimited(std::string const& v) { std::string r = "\""; for (char x : v) { r += x; if (x == '"') r += x; } return r + "\""; }

// the folding of regular identifiers is that of the delimited identifiers with the spelling which the options tell
void check(pbt::source& c, pbt::context& ctx, setting& s, std::vector<tok> const& toks, std::vector<role> const& roles) {
    folding f;
    f.all = c.chance(1, 8);
    for (auto& x : f.each) x = c.flip();
    auto plain = s.fx.options();
    options(c, plain);
    auto folded = plain;
    folding {}.set(plain);
    f.set(folded);
    auto exact = toks;
    bool matters = false;
    for (std::size_t i = 0; i < toks.size(); ++i) if (toks[i].kind == tk::ident && roles[i] != none) {
        auto v = f(roles[i]) ? lower(toks[i].text) : toks[i].text;
        matters = matters || lower(toks[i].text) != toks[i].text;
        exact[i].text = delimited(v);
        exact[i].kind = tk::raw;
    }
    auto la = sqlgen::layouter { c, sqlgen::gap_style::plain, false }(toks);
    auto lb = sqlgen::layouter { c, sqlgen::gap_style::plain, false }(exact);
    ctx.show("-- lowercase:" + f.text() + "\n" + la.text + "\n-- exactly:\n" + lb.text);
    bool pa {}, pb {};
    auto ra = outcomes(s, folded, la, true, pa);
    // the delimited identifiers are never folded
    if (c.flip()) { folding g; g.all = c.flip(); for (auto& x : g.each) x = c.flip(); g.set(plain); }
    auto rb = outcomes(s, plain, lb, true, pb);
    ctx.require(pa == pb && ra.size() == rb.size(), "the respelled statement is parsed in another way", [&] { return (ra.empty() ? "" : ra[0]) + "\n" + (rb.empty() ? "" : rb[0]); });
    for (std::size_t i = 0; i < ra.size(); ++i) ctx.require(ra[i] == rb[i], "the result differs", [&] { return ra[i] + "\n-- but:\n" + rb[i]; });
    if (!pa) { ctx.label("rejected by the parser"); return; }
    for (auto& r : ra) { auto w = r.substr(0, r.find_first_of(" \n")); ctx.label(w.empty() ? "plan" : w); }
    if (matters && ra[0].rfind("unsupported_feature", 0) != 0) ctx.nontrivial(f.text() + la.text);
}
void queries(pbt::source& c, pbt::context& ctx) {
    setting s; qg::gen_options go;
    go.fold = false; go.roles = true; go.allow_null = c.flip();
    qg::generator gen { c, s.fx, go };
    gen.budget = 20;
    gen.catalog();
    auto x = gen.query(nullptr, nullptr, c.range(1, 2), true);
    static std::map<std::string, role> const names {
        { "a", variable }, { "b", variable }, { "c1", variable }, { "d", variable }, { "k1", variable }, { "v1", variable }, { "x", variable }, { "y", variable }, { "p1", variable }, { "v0", variable }, 
        { "o0", relation }, { "o1", relation }, { "t0", relation }, { "t1", relation }, { "u0", relation }, { "w0", relation }, { "r0", relation }, { "r1", relation }, { "r2", relation }, { "n1", relation }, { "cte0", relation }, { "cte1", relation },
        { "f1", function }, { "f2", function }, { "f3", function }, { "tf1", function }, { "tf2", function }, { "tf3", function },
        { "main", schema }, { "s0", schema }, { "s1", schema }, { "tsurugi", catalog_ } };
    static auto const all = [] { auto m = names; for (int i = 0; i < 40; ++i) { m.emplace("cte" + std::to_string(i), relation); m.emplace("z" + std::to_string(i), variable); } return m; }();
    std::vector<tok> toks; std::vector<role> roles;
    auto few = c.range(1, 6);
    for (auto& t : acat::tokens(x.sql)) {
        if (!toks.empty() && toks.back().text == "." && t == "*") { toks.back() = { ".*", tk::keyword }; continue; }
        if (!toks.empty() && toks.back().text == "OUTER" && t == "APPLY") { toks.back().text = "OUTER APPLY"; continue; }
        auto ch = static_cast<unsigned char>(t[0]);
        auto n = all.find(t);
        toks.push_back({ t, ch == '"' ? tk::raw : ch == '\'' ? tk::string_ : std::isdigit(ch) ? tk::number : n != all.end() ? tk::ident : std::isalpha(ch) ? tk::keyword : tk::symbol });
        roles.push_back(n == all.end() ? none : n->second);
        if (n != all.end() && c.chance(1, static_cast<std::uint32_t>(few) * 2)) for (auto& k : toks.back().text) if (c.flip()) k = static_cast<char>(std::toupper(static_cast<unsigned char>(k)));
    }
    check(c, ctx, s, toks, roles);
}

// note: the names of built-in set functions are keywords
// %V, %F, %R, %S, %C: names of the kinds; %Q: an optional qualifier; {x|y}: one of the alternatives
char const* const forms[] {
    "SELECT %V , %R . %V FROM %Q %R", "SELECT %S . %R . %V FROM %Q %R", "SELECT * FROM %Q %R AS %R ( %V , %V )", "WITH %R ( %V ) AS ( SELECT %V FROM %R ) SELECT %V FROM %R", "WITH %R AS ( SELECT %V FROM %R ) SELECT %V AS %V FROM %R AS %R WHERE %R . %V = 1",
    "SELECT %R .* FROM %Q %R", "SELECT %V FROM %R JOIN %R AS %R USING ( %V )", "SELECT %V FROM ( SELECT %V AS %V FROM %R ) %R", "SELECT %Q %F ( %V ) FROM %R", "SELECT * FROM %R {CROSS|OUTER} APPLY %Q %F ( 1 ) AS %R {( %V )|}", "SELECT %V FROM %R CROSS APPLY %F ( 1 ) AS %R",
    "SELECT %V , {SUM|sum|Sum} ( %V ) FROM %R GROUP BY %V ORDER BY %V", "VALUES ( %V )", "VALUES ( %S . %V )", "TABLE %Q %R", "SELECT %V FROM %R WHERE EXISTS ( SELECT * FROM %R WHERE %R . %V = %V )",
    "{INSERT|INSERT OR REPLACE} INTO %Q %R ( %V , %V ) VALUES ( 1 , 2 )", "INSERT INTO %Q %R ( %V ) SELECT %V FROM %R", "INSERT INTO %Q %R VALUES ( 1 , %V , 3 )", "UPDATE %Q %R SET %V = %V + 1 {|, %V = 2} WHERE %V = 2", "UPDATE %R SET %V = 1 WHERE %R . %V = 2", "DELETE FROM %Q %R {|AS %R} WHERE %R . %V = 1", "DELETE FROM %Q %R",
    "CREATE TABLE {|IF NOT EXISTS} %Q %R ( %V INT , %V BIGINT , PRIMARY KEY ( %V ) )", "CREATE TABLE %Q %R ( %V INT PRIMARY KEY , %V INT DEFAULT 1 )", "CREATE {|UNIQUE} INDEX {|IF NOT EXISTS} %R ON %Q %R ( %V {|DESC} , %V ) {|INCLUDE ( %V )}", "CREATE INDEX ON %Q %R ( %V )",
    "DROP {TABLE|INDEX} {|IF EXISTS} %Q %R", "ALTER TABLE {|IF EXISTS} %Q %R RENAME TO %R", "ALTER TABLE %Q %R RENAME COLUMN %V TO %V", "ALTER TABLE %Q %R RENAME %V TO %V", "ALTER INDEX {|IF EXISTS} %Q %R RENAME TO %R", "TRUNCATE TABLE %Q %R", "GRANT SELECT ON TABLE %Q %R TO Uu", "REVOKE INSERT , SELECT ON TABLE %Q %R FROM Uu", "{CREATE|DROP} SCHEMA %S" };
std::string expand(pbt::source& c, std::string f) {
    for (auto e = f.find('}'); e != std::string::npos; e = f.find('}')) {
        auto b = f.rfind('{', e);
        std::vector<std::string> alts { "" };
        for (auto i = b + 1; i < e; ++i) if (f[i] == '|') alts.emplace_back(); else alts.back() += f[i];
        f = f.substr(0, b) + c.pick(alts) + f.substr(e + 1);
    }
    return f;
}
void statements(pbt::source& c, pbt::context& ctx) {
    setting s;
    auto& fx = s.fx;
    // the names only differ by the cases
    auto cased = [&](std::string n, int rate) { if (c.chance(1, static_cast<std::uint32_t>(rate))) { n[0] = static_cast<char>(std::toupper(static_cast<unsigned char>(n[0]))); } return n; };
    fx.catalog_name = cased("tsurugi", 4);
    std::set<std::string> ss;
    for (auto n : { "sa", "sb", "sa" }) { auto k = cased(n, 3); if (ss.insert(k).second) fx.add_schema(k); }
    if (fx.schemas.size() > 1 && c.flip()) fx.path.push_back(1);
    std::set<std::pair<std::string, std::string>> seen;
    auto usual = c.flip();
    for (int k = 2 + c.draw(3), first = k; k > 0; --k) {
        mtable t; t.schema = c.pick(std::vector<std::string>(ss.begin(), ss.end())); t.name = cased(c.pick(std::vector<std::string> { "ra", "rb" }), 3);
        if (k == first && usual) { t.schema = fx.schemas[0]->name; t.name = "ra"; }
        if (!seen.emplace(t.schema, t.name).second) continue;
        std::set<std::string> cn;
        for (auto n : { "ka", "kb", "kc", "ka" }) { auto v = cased(n, 3); if (cn.insert(v).second) t.cols.push_back({ v, ty::num }); }
        if (c.flip()) t.pk.push_back(c.draw(static_cast<std::uint32_t>(t.cols.size())));
        auto& r = fx.add_table(t);
        if (c.flip()) {
            std::vector<ystor::index::key> keys; keys.emplace_back(r.decl->columns()[0]);
            auto n = cased("rc", 3);
            if (seen.emplace(t.schema, n).second) fx.schema(t.schema).storages->add_index(std::make_shared<ystor::index>(std::nullopt, r.decl, n, std::move(keys), std::vector<ystor::index::column_ref> {}, ystor::index_feature_set {}));
        }
    }
    for (auto& n : ss) {
        auto f1 = cased("fa", 3), f2 = cased("fb", 3);
        fx.add_function({ n, f1, { ty::num }, ty::num, {} });
        fx.add_function({ n, f2, { ty::num }, {}, { { "ka", ty::num } } });
        fx.add_aggregate(n, "sum", { ty::num }, ty::num);
        fx.add_aggregate(n, cased("fc", 3), { ty::num }, ty::num);
        fx.add_variable(n, cased("kv", 3), ty::num, {});
    }
    std::vector<tok> toks; std::vector<role> roles;
    auto name = [&](role r, std::vector<std::string> const& of) {
        auto n = cased(c.pick(of), 5);
        if (c.chance(1, 5)) { toks.push_back({ delimited(n), tk::raw }); roles.push_back(none); }
        else { toks.push_back({ n, tk::ident }); roles.push_back(r); }
    };
    auto dot = [&] { toks.push_back({ ".", tk::symbol }); roles.push_back(none); };
    std::istringstream in { expand(c, c.pick(std::vector<std::string>(std::begin(forms), std::end(forms)))) };
    for (std::string w; in >> w;) {
        if (w == "%V") name(variable, { "ka", "ka", "kb", "kb", "kc", "kv" });
        else if (w == "%F") name(function, { "fa", "fb", "fc" });
        else if (w == "%R") name(relation, { "ra", "ra", "ra", "rb", "rc" });
        else if (w == "%S") name(schema, { "sa", "sa", "sb" });
        else if (w == "%Q") {
            int k = c.weighted({ 3, 2, 1 });
            if (k == 2) { name(catalog_, { "tsurugi" }); dot(); }
            if (k) { name(schema, { "sa", "sa", "sb" }); dot(); }
        } else {
            toks.push_back({ w, std::isalpha(static_cast<unsigned char>(w[0])) ? tk::keyword : std::isdigit(static_cast<unsigned char>(w[0])) ? tk::number : tk::symbol });
            roles.push_back(none);
        }
    }
    check(c, ctx, s, toks, roles);
}

// ---- options, placeholders and analyzers as values
// every option, as text
std::vector<std::string> entries(opts const& o) {
    return { str(o.lowercase_regular_identifiers()), str(o.lowercase_variable_regular_identifiers()), str(o.lowercase_function_regular_identifiers()), str(o.lowercase_relation_regular_identifiers()), str(o.lowercase_schema_regular_identifiers()), str(o.lowercase_catalog_regular_identifiers()),
        str(o.max_decimal_precision()), o.default_decimal_precision() ? str(*o.default_decimal_precision()) : "-", str(o.max_binary_integer1_precision()), str(o.max_binary_integer2_precision()), str(o.max_binary_integer4_precision()), str(o.max_binary_integer8_precision()), str(o.max_binary_float4_precision()), str(o.max_binary_float8_precision()),
        str(o.allow_context_independent_null()), str(o.prefer_write_statement()), str(o.host_parameter_declaration_starts_with_colon()), str(o.prefer_small_integer_literals()), str(o.prefer_small_character_literals()), str(o.prefer_small_binary_literals()), str(o.prefer_small_decimal_literals()),
        str(o.validate_scalar_expressions()), str(o.cast_literals_in_context()), str(o.default_sequence_cycle()), std::string { o.advance_sequence_function_name() }, str(o.system_zone_offset().count()),
        std::string { o.catalog().name() }, str(o.schema_search_path().elements().size()), std::string { o.default_schema().name() }, std::string { o.default_schema_shared()->name() } };
}
std::size_t constexpr settable = 26;
std::string change(pbt::source& c, opts& o, std::size_t i) {
    auto flag = [&](bool& b) { b = c.flip(); return str(b); };
    auto size = [&](std::size_t& n) { n = c.draw(100); return str(n); };
    switch (i) {
        case 0: return flag(o.lowercase_regular_identifiers());
        case 1: return flag(o.lowercase_variable_regular_identifiers());
        case 2: return flag(o.lowercase_function_regular_identifiers());
        case 3: return flag(o.lowercase_relation_regular_identifiers());
        case 4: return flag(o.lowercase_schema_regular_identifiers());
        case 5: return flag(o.lowercase_catalog_regular_identifiers());
        case 6: return size(o.max_decimal_precision());
        case 7: if (c.flip()) { o.default_decimal_precision() = std::nullopt; return "-"; } { std::size_t n = c.draw(50); o.default_decimal_precision() = n; return str(n); }
        case 8: return size(o.max_binary_integer1_precision());
        case 9: return size(o.max_binary_integer2_precision());
        case 10: return size(o.max_binary_integer4_precision());
        case 11: return size(o.max_binary_integer8_precision());
        case 12: return size(o.max_binary_float4_precision());
        case 13: return size(o.max_binary_float8_precision());
        case 14: return flag(o.allow_context_independent_null());
        case 15: return flag(o.prefer_write_statement());
        case 16: return flag(o.host_parameter_declaration_starts_with_colon());
        case 17: return flag(o.prefer_small_integer_literals());
        case 18: return flag(o.prefer_small_character_literals());
        case 19: return flag(o.prefer_small_binary_literals());
        case 20: return flag(o.prefer_small_decimal_literals());
        case 21: return flag(o.validate_scalar_expressions());
        case 22: return flag(o.cast_literals_in_context());
        case 23: return flag(o.default_sequence_cycle());
        case 24: { static std::vector<std::string> const p { "nextval", "advance", "x", "" }; o.advance_sequence_function_name() = p[c.draw(4)]; return std::string { o.advance_sequence_function_name() }; }
        default: { int n = static_cast<int>(c.draw(1500)) - 750; o.system_zone_offset() = std::chrono::minutes { n }; return str(n); }
    }
}
void containers(pbt::source& c, pbt::context& ctx) {
    setting s; s.fx.add_schema("main");
    static std::vector<std::string> const defaults { "1", "0", "0", "0", "0", "0", "38", "38", "7", "15", "31", "63", "25", "53", "0", "1", "0", "0", "0", "0", "0", "0", "1", "1", "nextval", "0" };
    std::vector<opts> objects; std::vector<std::vector<std::string>> models;
    auto birth = [&] {
        bool empty = c.flip();
        if (empty) objects.push_back(opts { {}, {}, {} }); else objects.push_back(s.fx.options());
        auto m = defaults;
        if (empty) m.insert(m.end(), { "", "0", "", "" }); else m.insert(m.end(), { s.fx.catalog_name, str(s.fx.path.size()), "main", "main" });
        models.push_back(m);
    };
    std::string history;
    auto verify = [&] {
        for (std::size_t k = 0; k < objects.size(); ++k) { auto e = entries(objects[k]); for (std::size_t i = 0; i < e.size(); ++i) ctx.require(e[i] == models[k][i], "value of an option", [&] { return history + ": #" + std::to_string(i) + " " + e[i] + " but " + models[k][i]; }); }
    };
    birth();
    verify();
    // the placeholders
    std::vector<::mizugaki::placeholder_map> maps(1); std::vector<std::map<std::string, int>> mm(1);
    static std::vector<std::string> const keys { "a", "b", "A", "", ":a", "ab" };
    auto entry = [](int v) { return ::mizugaki::placeholder_entry { tvalue::int8 { v }, ttype::int8 {} }; };
    for (int n = 1 + c.size(12); n > 0; --n) {
        auto k = c.draw(static_cast<std::uint32_t>(objects.size())), p = c.draw(static_cast<std::uint32_t>(maps.size()));
        switch (c.weighted({ 6, 1, 1, 1, 4, 1, 1, 1 })) {
            case 0: { auto i = c.draw(settable); history += " set " + std::to_string(k) + "." + std::to_string(i); models[k][i] = change(c, objects[k], i); break; }
            case 1: history += " new"; birth(); break;
            case 2: history += " copy " + std::to_string(k); objects.push_back(opts { objects[k] }); models.push_back(std::vector<std::string> { models[k] }); break;
            case 3: { auto j = c.draw(static_cast<std::uint32_t>(objects.size())); history += " assign " + std::to_string(k) + " to " + std::to_string(j); auto o = objects[k]; objects[j] = o; auto m = models[k]; models[j] = m; break; }
            case 4: { auto key = c.pick(keys); int v = c.range(0, 9); history += " add " + std::to_string(p) + " '" + key + "'"; auto& r = maps[p].add(key, entry(v)); ctx.require(&r == &maps[p], "add() returns the map", history); mm[p][key] = v; break; }
            case 5: history += " clear " + std::to_string(p); maps[p].clear(); mm[p].clear(); break;
            case 6: history += " copy map"; maps.push_back(::mizugaki::placeholder_map { maps[p] }); mm.push_back(std::map<std::string, int> { mm[p] }); break;
            default: history += " reserve"; maps[p].reserve(c.draw(100)); break;
        }
        verify();
        for (std::size_t x = 0; x < maps.size(); ++x) for (auto& key : keys) {
            auto found = maps[x].find(key);
            auto w = mm[x].find(key);
            ctx.require(static_cast<bool>(found) == (w != mm[x].end()), "placeholder is found", history);
            if (found) { auto e = found->resolve(); ctx.require(str(*e) == str(*entry(w->second).resolve()), "placeholder value", [&] { return history + ": " + str(*e); }); }
        }
    }
    ctx.show(history);
    ctx.nontrivial(history);
}
// the validation only tells the faults
void validation(pbt::source& c, pbt::context& ctx) {
    setting s; qg::gen_options g;
    g.allow_null = c.flip();
    qg::generator gen { c, s.fx, g };
    gen.budget = 20;
    gen.catalog();
    auto x = gen.query(nullptr, nullptr, c.range(0, 2), true);
    auto toks = acat::tokens(x.sql);
    auto word = [](std::string const& t) { auto ch = static_cast<unsigned char>(t[0]); return ch == '"' || std::islower(ch) ? 1 : ch == '\'' || std::isdigit(ch) ? 2 : 0; };
    for (int n = c.weighted({ 1, 2, 1 }); n > 0; --n) {
        auto i = c.draw(static_cast<std::uint32_t>(toks.size())), j = c.draw(static_cast<std::uint32_t>(toks.size()));
        if (word(toks[i]) == 2) { static std::vector<std::string> const p { "1", "'x'", "TRUE", "1.5", "1e1" }; toks[i] = c.pick(p); }
        else for (std::size_t k = 0; k < toks.size(); ++k) { auto q = (j + k) % toks.size(); if (word(toks[i]) && word(toks[q]) == word(toks[i])) { toks[i] = toks[q]; break; } }
    }
    std::string text;
    for (auto& t : toks) text += t + " ";
    ctx.show(text);
    session ss { text };
    if (!ss.unit) { ctx.label("rejected by the parser"); return; }
    auto o = s.fx.options();
    options(c, o);
    o.validate_scalar_expressions() = false; auto r0 = ss.analyze(o, 0, s.holders, *s.host);
    o.validate_scalar_expressions() = true; auto r1 = ss.analyze(o, 0, s.holders, *s.host);
    auto t0 = plan::text(r0), t1 = plan::text(r1);
    ctx.require(r0.is_valid() || !r1.is_valid(), "accepted by the validation", t0 + "\n" + t1);
    if (r1.is_valid()) ctx.require(t0 == t1, "the validation changes the plan", [&] { return t0 + "\n-- but:\n" + t1; });
    ctx.label(r1.is_valid() ? "valid" : r0.is_valid() ? "found by the validation" : "rejected anyway");
    ctx.nontrivial(text);
}
// whichever analyzer is used, by whichever overload, wherever it has been moved, the result is the same, and outlives them
void analyzers(pbt::source& c, pbt::context& ctx) {
    setting s; std::string text;
    if (c.chance(1, 3)) {
        catalog(c, s);
        sqlgen::config conf;
        conf.names = names(); conf.contextual = false; conf.depth = c.range(1, 3); conf.max_statements = 4;
        text = sqlgen::document { c, conf, sqlgen::gap_style::plain }.lay.text;
    } else {
        qg::gen_options go; go.allow_null = c.flip();
        qg::generator gen { c, s.fx, go };
        gen.catalog();
        for (int k = 1 + c.draw(3); k > 0; --k) { gen.budget = 15; text += gen.query(nullptr, nullptr, c.range(0, 2), true).sql + ";\n"; }
    }
    ctx.show(text);
    auto base = s.fx.options();
    options(c, base);
    auto unit = std::make_unique<session>(text);
    if (!unit->unit) { ctx.label("rejected by the parser"); return; }
    auto n = unit->unit->statements().size();
    if (n == 0) throw pbt::discard {};
    std::vector<mana::sql_analyzer> as;
    for (int k = 1 + c.draw(2); k > 0; --k) as.emplace_back();
    auto before = entries(base);
    struct kept { mana::sql_analyzer_result result; std::string text; };
    std::vector<kept> keep;
    std::string history; bool valid = false, other = false;
    for (int k = 2 + c.size(6); k > 0; --k) {
        auto i = c.draw(static_cast<std::uint32_t>(n));
        auto& stmt = *unit->unit->statements()[i];
        // how it should be
        auto o = base;
        if (c.flip()) { auto e = c.draw(settable); change(c, o, e); other = true; }
        auto before_o = entries(o);
        std::string want; { mana::sql_analyzer fresh; want = plan::text(fresh(o, stmt, *unit->unit, s.holders, *s.host)); }
        if (c.chance(1, 4)) { history += " move"; auto j = c.draw(static_cast<std::uint32_t>(as.size())); mana::sql_analyzer t { std::move(as[j]) }; if (c.flip()) { mana::sql_analyzer fresh; t = std::move(fresh); } as[j] = std::move(t); }
        auto j = c.draw(static_cast<std::uint32_t>(as.size()));
        bool second = c.flip();
        history += " " + std::to_string(j) + (second ? "b" : "a") + std::to_string(i);
        auto& m = *unit->unit;
        auto r = second ? as[j](o, stmt, ::takatori::util::optional_ptr<::takatori::document::document const> { m.document().get() }, ::takatori::util::sequence_view { m.comments() }, s.holders, *s.host) : as[j](o, stmt, m, s.holders, *s.host);
        auto got = plan::text(r);
        ctx.require(got == want, "the result depends on the analyzer", [&] { return history + "\n" + want + "\n-- but:\n" + got; });
        ctx.require(entries(o) == before_o && entries(base) == before, "the options have changed", history);
        valid = valid || r.is_valid();
        if (c.flip()) keep.push_back({ std::move(r), got });
    }
    if (c.flip()) { as.clear(); unit.reset(); history += " outlive"; }
    for (auto& k : keep) ctx.require(plan::text(k.result) == k.text, "the result has changed", [&] { return history + "\n" + k.text + "\n-- but:\n" + plan::text(k.result); });
    ctx.label("valid", valid); ctx.label("changed option", other);
    ctx.nontrivial(text + history);
}
} // namespace
int main(int argc, char** argv) {
    pbt::suite s { "A11", "an upper case letter occurs in a regular identifier, and the statement is not rejected for an unsupported feature; any history of objects",
        {
            { "queries", 60000, 1500000, queries },
            { "statements", 150000, 4000000, statements },
            { "validation", 60000, 1500000, validation },
            { "containers", 40000, 1000000, containers },
            { "analyzers", 40000, 1000000, analyzers },
        } };
    return pbt::run(s, argc, argv);
}
