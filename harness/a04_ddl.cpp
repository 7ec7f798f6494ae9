// A04: statements which define, change or drop tables and indices, and control privileges: the result carries exactly what
// is written, or the statement is rejected with a diagnostic at a part which is really wrong.
#include "tygen.h"
#include "plancheck.h"
#include <set>
using namespace tg;
namespace {
using code = sql_analyzer_code;
struct fault { code k; std::size_t begin, end; };
// a description: logical lines, and a comment which presents them
struct doc { std::string text, comment; };

struct builder {
    pbt::source& c;
    std::string sql;
    std::vector<fault> faults;
    bool lowercase { true };

    std::size_t pos() const { return sql.size(); }
    void space() { static std::vector<std::string> const p { " ", " ", " ", "\n", "  ", " /* x */ ", " -- x\n" }; sql += c.pick(p); }
    // writes a phrase, and returns its range
    std::pair<std::size_t, std::size_t> put(std::string const& s) {
        if (!sql.empty()) space();
        auto b = pos(); sql += s;
        return { b, pos() };
    }
    void wrong(code k, std::pair<std::size_t, std::size_t> r) { faults.push_back({ k, r.first, r.second }); }
    // the text which denotes the normalized name
    std::string name(std::string const& n) {
        bool plain = n != "select";
        for (char x : n) plain = plain && (std::islower(static_cast<unsigned char>(x)) || x == '_' || std::isdigit(static_cast<unsigned char>(x)));
        if (!plain || c.chance(1, 5)) { std::string r = "\""; for (char x : n) { r += x; if (x == '"') r += x; } return r + "\""; }
        auto r = n;
        if (lowercase && c.chance(1, 3)) for (auto& x : r) if (c.flip()) x = static_cast<char>(std::toupper(static_cast<unsigned char>(x)));
        return r;
    }
};
std::string some_name(pbt::source& c) { static std::vector<std::string> const p { "a", "b", "c", "d", "e", "t", "col_1", "A", "Mixed", "x y", "q\"q", "\xe3\x81\x82", "select" }; return c.pick(p); }
doc some_doc(pbt::source& c) {
    static std::vector<std::string> const words { "x", "table", "of * y", "a/b", "\xe8\xaa\xac\xe6\x98\x8e", "'q'", "\"", ";", "1.5", "--", "it is", "?" };
    doc d;
    auto word = [&] { std::string r = "w"; for (auto n = c.size(3); n > 0; --n) r += " " + c.pick(words); return r; };
    if (c.flip()) {
        d.text = word();
        auto pad = [&] { return std::string(c.draw(3), ' '); };
        d.comment = "/**" + std::string(c.chance(1, 6) ? "*" : "") + " " + pad() + d.text + pad() + (c.chance(1, 6) ? " **/" : " */");
        return d;
    }
    int n = 1 + c.size(4);
    bool star = c.flip();
    std::vector<std::string> lines;
    for (int i = 0; i < n; ++i) {
        // the first and the last lines are not blank, and some line is not indented
        if (i && i + 1 < n && c.chance(1, 4)) { lines.emplace_back(); continue; }
        lines.push_back((c.chance(1, 3) ? std::string(1 + c.draw(4), ' ') : "") + word());
    }
    bool flush = false;
    for (auto& l : lines) flush = flush || (!l.empty() && l[0] != ' ');
    if (!flush) { auto& l = lines[c.flip() ? 0 : lines.size() - 1]; l.erase(0, l.find_first_not_of(' ')); }
    std::string margin(c.draw(5), ' ');
    std::string after(1 + c.draw(2), ' ');
    d.comment = "/**\n";
    for (auto& l : lines) {
        d.text += (&l == &lines[0] ? "" : "\n") + l;
        if (&l == &lines[0] && star && c.chance(1, 8)) d.comment += margin + "*\n"; // blank lines at the beginning are dropped
        if (star) d.comment += margin + "*" + (l.empty() ? "" : after + l);
        else d.comment += (l.empty() ? "" : margin + after + l);
        d.comment += (c.chance(1, 5) ? " " : "") + std::string(c.chance(1, 8) ? "\r\n" : "\n");
    }
    if (star) d.comment += margin + "*/"; else d.comment += std::string(c.draw(4), ' ') + "*/";
    return d;
}

// ---- the catalog
struct cat {
    fixture fx;
    struct index { std::string schema, table, name; std::shared_ptr<ystor::index const> decl; bool primary {}; };
    std::vector<index> indices;
    cat(pbt::source& c) {
        fx.add_schema("main");
        bool two = c.flip();
        if (two) { fx.add_schema("other"); if (c.flip()) fx.path.push_back(1); }
        std::vector<std::string> names { "t", "u", "Mixed", "x y" };
        int n = 1 + c.draw(4);
        for (int i = 0; i < n; ++i) {
            mtable t; t.schema = two && c.chance(1, 3) ? "other" : "main"; t.name = names[static_cast<std::size_t>(i)];
            std::set<std::string> used;
            for (int k = 1 + c.size(4); k > 0; --k) {
                mcol x; x.name = some_name(c); x.type = c.flip() ? ty::num : ty::text;
                if (used.insert(x.name).second) { if (!t.cols.empty() && c.chance(1, 10)) x.hidden = true; t.cols.push_back(std::move(x)); }
            }
            if (c.flip()) t.pk.push_back(c.draw(static_cast<std::uint32_t>(t.cols.size())));
            auto& r = fx.add_table(t);
            indices.push_back({ r.schema, r.name, r.name, r.index, true });
        }
        for (int k = c.draw(4); k > 0; --k) {
            auto& t = *fx.tables[c.draw(static_cast<std::uint32_t>(fx.tables.size()))];
            auto name = c.pick(std::vector<std::string> { "i0", "i1", "Idx", "i x" });
            bool dup = false;
            for (auto& i : indices) dup = dup || (i.schema == t.schema && i.name == name);
            if (dup) continue;
            std::vector<ystor::index::key> keys; keys.emplace_back(t.decl->columns()[0]);
            auto ix = fx.schema(t.schema).storages->add_index(std::make_shared<ystor::index>(std::nullopt, t.decl, name, std::move(keys), std::vector<ystor::index::column_ref> {}, ystor::index_feature_set { ystor::index_feature::find }));
            indices.push_back({ t.schema, t.name, name, ix });
        }
    }
    std::vector<std::string> path() const { std::vector<std::string> r; for (auto p : fx.path) r.push_back(fx.schemas[p]->name); return r; }
    mtable const* table(std::string const& schema, std::string const& name) const {
        for (auto& s : schema.empty() ? path() : std::vector<std::string> { schema }) for (auto& t : fx.tables) if (t->schema == s && t->name == name) return t.get();
        return nullptr;
    }
    index const* find_index(std::string const& schema, std::string const& name) const {
        for (auto& s : schema.empty() ? path() : std::vector<std::string> { schema }) for (auto& t : indices) if (t.schema == s && t.name == name) return &t;
        return nullptr;
    }
};
// a reference to a table or an index
struct ref { std::string schema, name; std::pair<std::size_t, std::size_t> at; bool qualified() const { return !schema.empty(); } };
ref put_ref(builder& b, std::string const& schema, std::string const& name) {
    ref r { schema, name, {} };
    auto text = (schema.empty() ? "" : b.name(schema) + ".") + b.name(name);
    r.at = b.put(text);
    return r;
}
ref some_table(builder& b, cat const& k) {
    auto& c = b.c;
    if (c.chance(1, 5)) return put_ref(b, c.chance(1, 5) ? "main" : "", c.pick(std::vector<std::string> { "zz", "T", "i0", "mixed" }));
    auto& t = *k.fx.tables[c.draw(static_cast<std::uint32_t>(k.fx.tables.size()))];
    auto path = k.path();
    bool visible = std::count(path.begin(), path.end(), t.schema) != 0;
    return put_ref(b, !visible || c.chance(1, 4) ? t.schema : "", t.name);
}
ref some_index(builder& b, cat const& k) {
    auto& c = b.c;
    if (c.chance(1, 5)) return put_ref(b, c.chance(1, 5) ? "main" : "", c.pick(std::vector<std::string> { "zz", "I0", "i7" }));
    auto& t = k.indices[c.draw(static_cast<std::uint32_t>(k.indices.size()))];
    auto path = k.path();
    bool visible = std::count(path.begin(), path.end(), t.schema) != 0;
    return put_ref(b, !visible || c.chance(1, 4) ? t.schema : "", t.name);
}

// ---- the outcome as text
using plan::column_text;
std::string outcome(tstmt::statement const& s) {
    plan::writer w; w.statement(s);
    return w.out + (w.fault.empty() ? "" : " (" + w.fault + ")");
}
void judge(pbt::context& ctx, builder const& b, cat& k, mana::sql_analyzer_options const& opt, std::string const& expected, std::string const& keyword) {
    std::string f;
    for (auto& x : b.faults) f += "\n-- " + str(x.k) + " at '" + b.sql.substr(x.begin, x.end - x.begin) + "'";
    ctx.show(b.sql + "\n-- " + (b.faults.empty() ? expected : "rejected: " + f));
    session ss { b.sql };
    ctx.require(ss.unit != nullptr, "rejected by the parser", ss.error);
    auto r = ss.analyze(opt);
    ctx.nontrivial(b.sql + expected);
    if (!b.faults.empty()) {
        ctx.require(!r.is_valid(), "invalid statement is accepted", [&] { return f + "\n" + outcome(*r.release<mana::sql_analyzer_result_kind::statement>()); });
        auto&& ds = r.element<mana::sql_analyzer_result_kind::diagnostics>();
        ctx.require(!ds.empty(), "rejected without a reason", "");
        for (auto&& d : ds) {
            bool known = false;
            auto p = range_of(str(d.location()));
            for (auto& x : b.faults) known = known || (x.k == d.code() && p && p->first >= x.begin && p->second <= x.end);
            ctx.require(known, "different reason", diagnostics(r) + f);
            ctx.label(str(d.code()));
        }
        return;
    }
    if (!r.is_valid()) ctx.fail("valid statement is rejected", diagnostics(r));
    ctx.require(r.kind() == mana::sql_analyzer_result_kind::statement, "not a statement", str(r.kind()));
    auto s = r.release<mana::sql_analyzer_result_kind::statement>();
    auto got = outcome(*s);
    ctx.require(got == expected, "different result", "expected " + expected + "\nbut " + got);
    // it is located at the whole statement
    auto p = range_of(str(s->region()));
    ctx.require(p && b.sql.compare(p->first, keyword.size(), keyword) == 0 && p->second <= b.sql.size() && p->second + 40 > b.sql.size(), "location of the statement", str(s->region()));
    ctx.label(str(s->kind()));
    (void) k;
}

// ---- CREATE TABLE
struct number_case { std::string sql; std::optional<std::int64_t> v; bool literal { true }; };
number_case sequence_value(pbt::source& c) {
    static std::vector<std::int64_t> const edges { 0, 1, -1, 2, 10, 100, -100, 2147483647LL, -2147483648LL, 2147483648LL, -2147483649LL, 9223372036854775807LL, -9223372036854775807LL - 1 };
    switch (c.weighted({ 6, 6, 1, 2 })) {
        case 0: { auto v = static_cast<std::int64_t>(c.draw(200)) - 60; return { std::to_string(v), v }; }
        case 1: { auto v = c.pick(edges); return { (v > 0 && c.chance(1, 5) ? "+" : "") + std::to_string(v), v }; }
        case 2: return { c.pick(std::vector<std::string> { "9223372036854775808", "-9223372036854775809", "9223372036854775808.0", "-9223372036854775809.00", "99999999999999999999", "'1'", "1.5", "1e0", "NULL", "TRUE", "1 + 1" }), std::nullopt };
        default: { auto v = c.flip() ? static_cast<std::int64_t>(c.draw(50)) : c.pick(edges); return { std::to_string(v) + "." + std::string(1 + c.draw(3), '0'), v }; }
    }
}
void create_table(pbt::source& c, pbt::context& ctx) {
    cat k { c };
    auto opt = k.fx.options();
    k.fx.add_function({ "main", "f0", {}, ty::num, {} });
    k.fx.add_function({ "main", "g0", { ty::num }, ty::num, {} });
    auto l = some_limits(c);
    l.decimal = std::max<std::size_t>(l.decimal, 22); // accepts any literal in what follows
    l.set(opt);
    builder b { c, {}, {} };
    opt.lowercase_regular_identifiers() = b.lowercase = c.flip();
    opt.default_sequence_cycle() = c.flip();
    opt.validate_scalar_expressions() = c.flip();
    opt.cast_literals_in_context() = c.flip();
    opt.prefer_small_integer_literals() = false;
    types g { c, l };
    doc td; if (c.chance(1, 3)) { td = some_doc(c); b.put(td.comment); }
    auto begin = b.put("CREATE");
    std::vector<fault> early; // these are examined even if the table exists
    if (c.chance(1, 20)) { b.wrong(code::unsupported_feature, b.put("TEMPORARY")); early = b.faults; }
    b.put("TABLE");
    bool soft = c.chance(1, 4);
    if (soft) b.put("IF NOT EXISTS");
    ref target;
    if (c.chance(1, 6)) target = some_table(b, k);
    else target = put_ref(b, c.chance(1, 20) ? "main" : "", c.pick(std::vector<std::string> { "n", "New", "n 1", "i0", "tt" }));
    auto existing = k.table(target.schema, target.name);
    bool nop = existing && soft;
    if (existing && !soft) b.wrong(code::table_already_exists, target.at);
    if (!existing && target.qualified()) b.wrong(code::unsupported_feature, target.at);
    b.put("(");
    struct col { std::string name, type, def { "-" }, doc; bool nullable { true }, read_only {}, explicit_null {}; };
    std::vector<col> cols;
    std::vector<std::pair<std::string, bool>> pk; bool has_pk = false;
    bool first = true;
    auto comma = [&] { if (!first) b.put(","); first = false; };
    int n = c.chance(1, 30) ? 0 : 1 + c.size(4);
    auto column = [&] {
        comma();
        col x; x.name = some_name(c);
        if (c.chance(1, 5)) { auto d = some_doc(c); b.put(d.comment); x.doc = d.text; }
        auto at = b.put(b.name(x.name));
        for (auto& y : cols) if (y.name == x.name) { b.wrong(code::column_already_exists, at); break; }
        ty_case t = c.chance(1, 3) ? ty_case { "INT", "int4()" } : c.chance(1, 4) ? ty_case { "BIGINT", "int8()" } : g.any(!c.chance(1, 12));
        auto ta = b.put(t.sql);
        if (t.code) b.wrong(*t.code, { ta.first + t.begin, ta.first + t.end });
        x.type = t.type;
        bool saw_nullity = false, saw_default = false, own_pk = false;
        for (int m = c.weighted({ 3, 4, 3, 1, 1 }); m > 0; --m) {
            std::size_t cb = 0;
            if (c.chance(1, 8)) { cb = b.put("CONSTRAINT").first; b.put(b.name("cc")); }
            auto put = [&](std::string const& s) { auto r = b.put(s); return r; };
            (void) cb;
            switch (c.weighted({ 2, 2, 3, 3, 4, 1 })) {
                case 0: { // PRIMARY KEY
                    auto r = put("PRIMARY KEY");
                    if (c.chance(1, 20)) { b.put("INCLUDE ("); auto e = b.put(b.name("a")); b.put(")"); b.wrong(code::unsupported_feature, e); r.second = b.pos(); }
                    if (c.chance(1, 20)) { b.put("WITH ("); auto e = b.put(b.name("p")); b.put("= 1 )"); b.wrong(code::unsupported_feature, e); r.second = b.pos(); }
                    if (has_pk) b.wrong(code::primary_index_already_exists, r);
                    else if (x.explicit_null) b.wrong(code::invalid_constraint, r);
                    else { has_pk = own_pk = true; pk.emplace_back(x.name, true); x.nullable = false; }
                    break;
                }
                case 1: {
                    auto r = put("NULL");
                    if (saw_nullity || own_pk) b.wrong(code::invalid_constraint, r);
                    saw_nullity = true; x.explicit_null = true;
                    break;
                }
                case 2: {
                    auto r = put("NOT NULL");
                    if (saw_nullity) b.wrong(code::invalid_constraint, r);
                    saw_nullity = true; x.nullable = false;
                    break;
                }
                case 3: {
                    auto r = put("DEFAULT");
                    struct d { std::string sql, text; std::optional<code> k {}; };
                    static std::vector<d> const ds { { "1", "int8(1)" }, { "-15", "int8(-15)" }, { "2147483648", "int8(2147483648)" }, { "NULL", "null" }, { "TRUE", "true" }, { "f0()", "function f0" },
                        { "'x'", "" }, { "DATE'1970-01-03'", "date(day:2)" }, { "g0(1)", "", code::unsupported_feature }, { "1 + 2", "", code::unsupported_feature }, { "zz", "", code::variable_not_found }, { "nofunc()", "", code::function_not_found } };
                    auto& e = c.pick(ds);
                    auto er = b.put(e.sql);
                    if (e.k) b.wrong(*e.k, er);
                    if (saw_default) b.wrong(code::invalid_constraint, { r.first, er.second });
                    saw_default = true;
                    x.def = e.sql == "'x'" ? str(tvalue::character { "x" }) : e.text;
                    break;
                }
                case 4: {
                    auto r = put("GENERATED");
                    bool always = c.flip();
                    b.put(always ? "ALWAYS" : "BY DEFAULT");
                    auto whole = std::make_pair(r.first, b.put("AS IDENTITY").second);
                    std::optional<number_case> start, inc, mn, mx; std::optional<bool> cycle;
                    bool i8 = x.type == "int8()", is = i8 || x.type == "int4()";
                    std::vector<fault> fs;
                    if (c.flip()) {
                        b.put("(");
                        bool one = false;
                        auto item = [&](std::string const& s, std::optional<number_case>& v) {
                            one = true; b.put(s); v = sequence_value(c);
                            auto a = b.put(v->sql);
                            if (v->sql == "NULL") fs.push_back({ code::missing_context_of_null, a.first, a.second });
                            if (!v->v || (!i8 && (*v->v < -2147483648LL || *v->v > 2147483647LL))) { fs.push_back({ code::invalid_sequence_value, a.first, a.second }); v->v.reset(); }
                            else if (&v == &inc && *v->v == 0) { fs.push_back({ code::invalid_sequence_value, a.first, a.second }); v->v.reset(); }
                        };
                        std::vector<int> order { 0, 1, 2, 3, 4 };
                        for (std::size_t i = 4; i > 0; --i) std::swap(order[i], order[c.draw(static_cast<std::uint32_t>(i + 1))]);
                        for (auto o : order) switch (o) {
                            case 0: if (c.flip()) item(c.flip() ? "START WITH" : "START", start); break;
                            case 1: if (c.flip()) item(c.flip() ? "INCREMENT BY" : "INCREMENT", inc); break;
                            case 2: if (c.chance(1, 3)) item("MINVALUE", mn); break;
                            case 3: if (c.chance(1, 3)) item("MAXVALUE", mx); break;
                            default: if (c.chance(1, 3) || !one) { one = true; cycle = c.flip(); b.put(*cycle ? "CYCLE" : "NO CYCLE"); } break;
                        }
                        whole.second = b.put(")").second;
                    }
                    if (saw_default) b.wrong(code::invalid_constraint, whole);
                    saw_default = true;
                    x.read_only = x.read_only || always;
                    if (!is) { b.wrong(code::inconsistent_type, whole); break; }
                    if (!fs.empty()) { b.faults.insert(b.faults.end(), fs.begin(), fs.end()); break; }
                    std::int64_t iv = inc ? *inc->v : 1;
                    std::int64_t lo = iv > 0 ? 1 : i8 ? INT64_MIN : INT32_MIN, hi = iv > 0 ? (i8 ? INT64_MAX : INT32_MAX) : -1;
                    if (mn) lo = *mn->v;
                    if (mx) hi = *mx->v;
                    auto st = start ? *start->v : iv > 0 ? lo : hi;
                    if (st < lo || st > hi) b.wrong(code::invalid_sequence_value, whole);
                    x.def = "sequence " + std::to_string(st) + " by " + std::to_string(iv) + " in " + std::to_string(lo) + ".." + std::to_string(hi) + (cycle.value_or(opt.default_sequence_cycle()) ? " cycle" : " once") + " ''";
                    break;
                }
                default: {
                    static std::vector<std::string> const p { "UNIQUE", "CHECK (TRUE)", "REFERENCES t", "GENERATED ALWAYS AS (1)" };
                    b.wrong(code::unsupported_feature, put(c.pick(p)));
                    break;
                }
            }
        }
        cols.push_back(std::move(x));
    };
    // table constraints may come between the columns
    struct later { std::vector<std::pair<std::string, bool>> keys; std::vector<std::pair<std::size_t, std::size_t>> at; std::pair<std::size_t, std::size_t> whole; bool bad {}; };
    std::vector<later> constraints;
    auto constraint = [&] {
        comma();
        if (c.chance(1, 6)) { b.put("CONSTRAINT"); b.put(b.name("cc")); }
        if (c.chance(1, 12)) { static std::vector<std::string> const p { "UNIQUE (a)", "CHECK (TRUE)", "FOREIGN KEY (a) REFERENCES t" }; b.wrong(code::unsupported_feature, b.put(c.pick(p))); return; }
        later x;
        x.whole = b.put("PRIMARY KEY"); b.put("(");
        for (int i = 1 + c.size(2); i > 0; --i) {
            auto name = !cols.empty() && !c.chance(1, 10) ? cols[c.draw(static_cast<std::uint32_t>(cols.size()))].name : some_name(c);
            if (c.chance(1, 20)) { b.wrong(code::unsupported_feature, b.put(c.pick(std::vector<std::string> { "1", "f0()" }))); x.bad = true; }
            else { x.at.push_back(b.put(b.name(name))); }
            bool asc = true;
            if (c.chance(1, 20)) { b.put("COLLATE"); b.wrong(code::unsupported_feature, b.put("xx")); }
            if (c.chance(1, 3)) { asc = c.flip(); b.put(asc ? "ASC" : "DESC"); }
            if (c.chance(1, 20)) b.wrong(code::unsupported_feature, b.put(c.flip() ? "NULLS FIRST" : "NULLS LAST"));
            if (x.keys.size() < x.at.size()) x.keys.emplace_back(name, asc);
            if (i > 1) b.put(",");
        }
        x.whole.second = b.put(")").second;
        if (c.chance(1, 20)) { b.put("INCLUDE ("); b.wrong(code::unsupported_feature, b.put(b.name("a"))); x.whole.second = b.put(")").second; }
        if (c.chance(1, 20)) { b.put("WITH ("); b.wrong(code::unsupported_feature, b.put(b.name("p"))); x.whole.second = b.put("= 1 )").second; }
        constraints.push_back(std::move(x));
    };
    for (int i = 0; i < n; ++i) { column(); if (c.chance(1, 6)) constraint(); }
    if (n == 0 || c.chance(1, 12)) constraint();
    auto end = b.put(")");
    if (c.chance(1, 20)) { b.put("WITH ("); b.wrong(code::unsupported_feature, b.put(b.name("p"))); early.push_back(b.faults.back()); end = b.put("= 1 )"); }
    if (n == 0) b.wrong(code::malformed_syntax, { begin.first, end.second });
    for (auto& x : constraints) {
        if (has_pk) { b.wrong(code::primary_index_already_exists, x.whole); continue; }
        has_pk = true;
        std::set<std::string> saw;
        for (std::size_t i = 0; i < x.keys.size(); ++i) {
            bool found = false;
            for (auto& y : cols) if (y.name == x.keys[i].first) { found = true; y.nullable = false; break; }
            if (!found) b.wrong(code::variable_not_found, x.at[i]);
            if (!saw.insert(x.keys[i].first).second) b.wrong(code::column_already_exists, x.at[i]);
        }
        pk = x.keys;
    }
    if (nop) {
        // nothing else is examined, besides the features which are never supported
        b.faults = early; // nothing else is examined
        judge(ctx, b, k, opt, "empty ", "CREATE");
        return;
    }
    std::string e = "create_table main." + target.name + " [" + td.text + "]";
    for (auto& x : cols) {
        if (x.nullable && x.def == "-") x.def = "null";
        e += column_text(x.name, x.type, x.nullable, x.def, x.read_only, x.doc);
    }
    e += "\n  index '' on " + target.name + " (";
    for (auto& x : pk) e += x.first + (x.second ? " ascendant;" : " descendant;");
    e += ") primary []";
    judge(ctx, b, k, opt, e, "CREATE");
}
// ---- CREATE INDEX
void create_index(pbt::source& c, pbt::context& ctx) {
    cat k { c };
    auto opt = k.fx.options();
    builder b { c, {}, {} };
    opt.lowercase_regular_identifiers() = b.lowercase = c.flip();
    doc td; if (c.chance(1, 3)) { td = some_doc(c); b.put(td.comment); }
    b.put("CREATE");
    std::vector<fault> early;
    if (c.chance(1, 20)) { b.wrong(code::unsupported_feature, b.put("UNIQUE")); early.push_back(b.faults.back()); }
    b.put("INDEX");
    bool soft = c.chance(1, 4);
    if (soft) b.put("IF NOT EXISTS");
    std::optional<ref> name;
    if (!c.chance(1, 6)) {
        if (c.chance(1, 5)) name = some_index(b, k);
        else name = put_ref(b, c.chance(1, 20) ? "main" : "", c.pick(std::vector<std::string> { "n", "New", "n 1", "tt", "i7" }));
    }
    bool exists = name && k.find_index(name->schema, name->name);
    if (exists && !soft) b.wrong(code::index_already_exists, name->at);
    if (!exists && name && name->qualified()) b.wrong(code::unsupported_feature, name->at);
    b.put("ON");
    auto target = some_table(b, k);
    auto table = k.table(target.schema, target.name);
    if (!table) b.wrong(code::table_not_found, target.at);
    b.put("(");
    std::string keys; std::set<std::string> saw;
    for (int i = 1 + c.size(3); i > 0; --i) {
        std::string col = table && !c.chance(1, 12) ? table->cols[c.draw(static_cast<std::uint32_t>(table->cols.size()))].name : some_name(c);
        if (c.chance(1, 20)) b.wrong(code::unsupported_feature, b.put(c.pick(std::vector<std::string> { "1", "(1 + 2)", "'x'" })));
        else {
            auto at = b.put(b.name(col));
            bool found = false;
            if (table) for (auto& x : table->cols) found = found || (x.name == col && !x.hidden);
            if (!found) b.wrong(code::variable_not_found, at);
            if (!saw.insert(col).second) b.wrong(code::column_already_exists, at);
        }
        if (c.chance(1, 20)) { b.put("COLLATE"); b.wrong(code::unsupported_feature, b.put("xx")); }
        bool asc = true;
        if (c.flip()) { asc = c.flip(); b.put(asc ? "ASC" : "DESC"); }
        if (c.chance(1, 20)) b.wrong(code::unsupported_feature, b.put(c.flip() ? "NULLS FIRST" : "NULLS LAST"));
        keys += col + (asc ? " ascendant;" : " descendant;");
        if (i > 1) b.put(",");
    }
    b.put(")");
    auto feature = [&](char const* before, std::string const& what, char const* after) {
        b.put(before); b.wrong(code::unsupported_feature, b.put(what)); early.push_back(b.faults.back()); b.put(after);
    };
    if (c.chance(1, 20)) feature("INCLUDE (", b.name("a"), ")");
    if (c.chance(1, 20)) feature("WITH (", b.name("p"), "= 1 )");
    if (c.chance(1, 20)) { b.put("WHERE"); b.wrong(code::unsupported_feature, b.put(c.flip() ? "TRUE" : "a = 1")); early.push_back(b.faults.back()); }
    if (exists && soft) { b.faults = early; judge(ctx, b, k, opt, "empty ", "CREATE"); return; }
    judge(ctx, b, k, opt, "create_index main. index '" + (name ? name->name : "") + "' on " + (table ? table->name : "") + " (" + keys + ") [" + td.text + "]", "CREATE");
}

// ---- ALTER, DROP, TRUNCATE
void alter(pbt::source& c, pbt::context& ctx) {
    cat k { c };
    auto opt = k.fx.options();
    builder b { c, {}, {} };
    opt.lowercase_regular_identifiers() = b.lowercase = c.flip();
    std::string e;
    auto form = c.draw(6);
    std::string keyword = form < 3 ? "ALTER" : form < 5 ? "DROP" : "TRUNCATE";
    auto begin = b.put(keyword);
    static std::vector<std::string> const fresh { "n", "New", "n 1", "t", "u", "Mixed", "i0", "i1", "a", "b" };
    bool soft = false;
    auto head = [&](char const* what) { b.put(what); soft = c.chance(1, 3); if (soft) b.put("IF EXISTS"); };
    // empty if it is found
    auto missing = [&](bool found, code k, ref const& r) { if (!found) { if (soft) e = "empty "; else b.wrong(k, r.at); } return !found; };
    switch (form) {
        case 0: case 1: { // ALTER TABLE
            head("TABLE");
            auto r = some_table(b, k);
            auto t = k.table(r.schema, r.name);
            bool none = missing(t != nullptr, code::table_not_found, r);
            if (form == 0) {
                b.put("RENAME TO");
                auto n = c.pick(fresh); auto at = b.put(b.name(n));
                if (none) break;
                if (k.table(t->schema, n)) b.wrong(code::table_already_exists, at);
                e = "rename_table " + t->schema + "." + t->name + " to " + n;
                break;
            }
            b.put("RENAME COLUMN");
            bool soft_column = c.chance(1, 3);
            if (soft_column) b.put("IF EXISTS");
            auto col = t && !c.chance(1, 4) ? t->cols[c.draw(static_cast<std::uint32_t>(t->cols.size()))].name : some_name(c);
            auto at = b.put(b.name(col));
            b.put("TO");
            auto n = c.chance(1, 3) ? some_name(c) : c.pick(fresh); auto to = b.put(b.name(n));
            if (none) break;
            auto has = [&](std::string const& s) { for (auto& x : t->cols) if (x.name == s) return true; return false; };
            if (!has(col)) { if (soft_column) e = "empty "; else b.wrong(code::column_not_found, at); break; }
            if (has(n)) b.wrong(code::column_already_exists, to);
            e = "rename_column " + t->name + "." + col + " to " + n;
            break;
        }
        case 2: {
            head("INDEX");
            auto r = some_index(b, k);
            auto i = k.find_index(r.schema, r.name);
            b.put("RENAME TO");
            auto n = c.pick(fresh); auto at = b.put(b.name(n));
            if (missing(i != nullptr, code::index_not_found, r)) break;
            if (i->primary) b.wrong(code::unsupported_feature, at);
            else if (k.find_index(i->schema, n)) b.wrong(code::index_already_exists, at);
            e = "rename_index " + i->schema + "." + i->name + " to " + n;
            break;
        }
        case 3: {
            head("TABLE");
            auto r = some_table(b, k);
            auto t = k.table(r.schema, r.name);
            switch (c.draw(6)) { case 0: b.wrong(code::unsupported_feature, b.put("CASCADE")); break; case 1: b.put("RESTRICT"); break; default: break; }
            if (!missing(t != nullptr, code::table_not_found, r)) e = "drop_table " + t->schema + "." + t->name;
            break;
        }
        case 4: {
            if (c.chance(1, 8)) {
                b.put(c.pick(std::vector<std::string> { "VIEW", "SEQUENCE", "SCHEMA" }));
                if (c.flip()) b.put("IF EXISTS");
                auto r = b.put(b.name(c.pick(fresh)));
                b.wrong(code::unsupported_feature, { begin.first, r.second });
                break;
            }
            head("INDEX");
            auto r = some_index(b, k);
            auto i = k.find_index(r.schema, r.name);
            switch (c.draw(6)) { case 0: b.wrong(code::unsupported_feature, b.put("CASCADE")); break; case 1: b.put("RESTRICT"); break; default: break; }
            if (!missing(i != nullptr, code::index_not_found, r)) e = "drop_index " + i->schema + "." + i->name;
            break;
        }
        default: {
            b.put("TABLE");
            auto r = some_table(b, k);
            auto t = k.table(r.schema, r.name);
            auto o = c.draw(3);
            if (o) b.put(o == 1 ? "RESTART IDENTITY" : "CONTINUE IDENTITY");
            if (!missing(t != nullptr, code::table_not_found, r)) e = "truncate_table " + t->name + (o == 1 ? " restart" : "");
            break;
        }
    }
    judge(ctx, b, k, opt, e, keyword);
}

// ---- GRANT, REVOKE
void privilege(pbt::source& c, pbt::context& ctx) {
    cat k { c };
    auto opt = k.fx.options();
    builder b { c, {}, {} };
    opt.lowercase_regular_identifiers() = b.lowercase = c.flip();
    bool grant = c.flip();
    b.put(grant ? "GRANT" : "REVOKE");
    std::string actions;
    auto list = [&](int n, auto&& f) { for (int i = 0; i < n; ++i) { if (i) b.put(","); f(); } };
    if (c.chance(1, 4)) { b.put("ALL PRIVILEGES"); actions = "control,"; }
    else list(1 + c.size(4), [&] {
        static std::vector<std::pair<std::string, std::string>> const p { { "SELECT", "select" }, { "INSERT", "insert" }, { "UPDATE", "update" }, { "DELETE", "delete_" } };
        auto& x = c.pick(p); b.put(x.first); actions += x.second + ",";
    });
    b.put("ON");
    std::vector<mtable const*> tables;
    list(1 + c.size(3), [&] {
        if (c.chance(1, 3)) b.put("TABLE");
        auto r = some_table(b, k);
        auto t = k.table(r.schema, r.name);
        if (!t) b.wrong(code::table_not_found, r.at);
        else if (std::count(tables.begin(), tables.end(), t) == 0) tables.push_back(t);
    });
    b.put(grant ? "TO" : "FROM");
    bool pub = false; std::string users; std::set<std::string> saw;
    list(1 + c.size(4), [&] {
        switch (c.weighted({ 6, 2, 1, 1 })) {
            case 0: {
                static std::vector<std::pair<std::string, std::string>> const p { { "u", "u" }, { "v_1", "v_1" }, { "\"User X\"", "User X" }, { "\"q\"\"q\"", "q\"q" }, { "\"\xe3\x81\x82\"", "\xe3\x81\x82" }, { "\"PUBLIC\"", "PUBLIC" }, { "\"*\"", "*" } };
                auto& x = c.pick(p); b.put(x.first);
                if (saw.insert(x.second).second) users += " specified '" + x.second + "':" + actions;
                break;
            }
            case 1: b.put("PUBLIC"); pub = true; break;
            case 2: b.put("CURRENT_USER"); users += " current_user '':" + actions; break;
            default: { auto at = b.put("*"); if (grant) b.wrong(code::malformed_syntax, at); users += " all_users '':" + actions; break; }
        }
    });
    std::string e = grant ? "grant_table " : "revoke_table ";
    for (auto t : tables) e += "\n  " + t->name + " public:" + (pub ? actions : "") + users;
    judge(ctx, b, k, opt, e, grant ? "GRANT" : "REVOKE");
}
} // namespace
int main(int argc, char** argv) {
    pbt::suite s { "A04", "every case; cases are told apart by the statement and the expected result",
        {
            { "create-table", 40000, 2000000, create_table },
            { "create-index", 25000, 1000000, create_index },
            { "alter-drop", 25000, 1000000, alter },
            { "privileges", 20000, 500000, privilege },
        } };
    return pbt::run(s, argc, argv);
}
