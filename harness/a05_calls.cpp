// A05: parameters stand for what is given for them, and EXTRACT and the other built-in functions for the functions which
// are declared for them.
#include "ana.h"
#include <set>
namespace {
using namespace ana;
using num = std::int64_t;
using code = sql_analyzer_code;
using tp = std::shared_ptr<ttype::data const>;

std::string gap(pbt::source& c) { static std::vector<std::string> const p { " ", " ", " ", "\n", "  ", " /* ? :p */ ", " -- ? :1 x\n" }; return c.pick(p); }
std::string opt_gap(pbt::source& c) { return c.chance(1, 6) ? gap(c) : ""; }
std::string cased(pbt::source& c, std::string s) { if (c.chance(1, 4)) for (auto& x : s) if (c.flip()) x = static_cast<char>(std::tolower(x)); return s; }

// ---- parameters ---------------------------------------------------------------------------------------------------
struct given { bool variable {}; tp type; std::string shown; val value; void const* identity {}; };
struct ref { std::size_t begin, end; std::string name; given const* g {}; };


// a document of some statements with parameters, and what each statement yields
struct doc {
    pbt::source& c;
    bool colon {};
    std::map<std::string, given> entries {}; // by the name to look up
    std::vector<std::string> names {};
    std::string sql {};
    std::size_t marks {};
    struct statement {
        std::string form; std::vector<ref> refs {}; std::vector<row> rows {};
        std::vector<std::size_t> plain {};                       // the references which are the columns of the result
        std::optional<std::size_t> limit {};                     // the reference which limits the rows
        bool write {};
    };
    std::vector<statement> all {};

    void put(std::string const& s) { sql += gap(c); sql += s; }
    val param(statement& st) {
        put("");
        ref r; r.begin = sql.size();
        if (c.chance(2, 5)) { sql += "?"; r.name = (colon ? ":" : "") + std::to_string(++marks); }
        else { auto n = c.pick(names); sql += ":" + n; r.name = (colon ? ":" : "") + n; }
        r.end = sql.size();
        if (auto it = entries.find(r.name); it != entries.end()) r.g = &it->second;
        st.refs.push_back(r);
        return r.g ? r.g->value : val {};
    }
    // an expression with a parameter
    val expr(statement& st, bool keep_plain) {
        auto form = c.weighted({ 4, 1, 1, 1, 1 });
        auto wrap = [&](std::string const& a, std::string const& b) { put(a); auto v = param(st); put(b); return v; };
        auto n = st.refs.size();
        switch (form) {
            case 0: { auto v = param(st); if (keep_plain) st.plain.push_back(n); return v; }
            case 1: return sem::arith('+', wrap("(1 +", ")"), val::of(num { 1 }));
            case 2: return wrap("COALESCE(NULL,", ")");
            case 3: { put("("); auto a = param(st); put("+"); auto b = param(st); put(")"); return sem::arith('+', a, b); }
            default: { put("CASE WHEN"); auto a = param(st); put("= 1 THEN"); auto x = param(st); put("ELSE"); auto y = param(st); put("END"); return sem::compare(sem::cmp::eq, a, val::of(num { 1 })).is_true() ? x : y; }
        }
    }
};

void parameters(pbt::source& c, pbt::context& ctx) {
    fixture fx; fx.add_schema("main");
    mtable t; t.schema = "main"; t.name = "t"; t.cols = { { "k", ty::num }, { "v", ty::num } }; t.pk = { 0 };
    for (num i = 0; i < 4; ++i) t.rows.push_back({ val::of(i), val::of(i * 10) });
    auto& table = fx.add_table(std::move(t));
    doc d { c };
    d.colon = c.flip();
    static std::vector<std::string> const all_names { "p", "P", "param_1", "x", "_p", "_", "_1", "p_", "pP", "select_", "a1_b2" };
    d.names = { "p", "P", "param_1", "x" };
    for (auto& n : d.names) if (c.chance(1, 3)) n = c.pick(all_names);
    std::sort(d.names.begin(), d.names.end()); d.names.erase(std::unique(d.names.begin(), d.names.end()), d.names.end());
    if (c.flip() && d.names.size() > 2) d.names.resize(2);
    // what is given
    ::mizugaki::placeholder_map placeholders;
    auto host = std::make_shared<::yugawara::variable::configurable_provider>();
    auto value = [&](given& g) {
        switch (c.weighted({ 4, 2, 1, 1 })) {
            case 0: { num n = c.range(0, 4); g.value = val::of(n); g.type = shared_type(ttype::int8 {}); return std::shared_ptr<tvalue::data const> { std::make_shared<tvalue::int8>(n) }; }
            case 1: { num n = c.range(-2, 3); g.value = val::of(n); g.type = c.flip() ? shared_type(ttype::int4 {}) : shared_type(ttype::int2 {}); return std::shared_ptr<tvalue::data const> { std::make_shared<tvalue::int4>(static_cast<std::int32_t>(n)) }; }
            case 2: g.type = c.flip() ? shared_type(ttype::int8 {}) : shared_type(ttype::unknown {}); return std::shared_ptr<tvalue::data const> { std::make_shared<tvalue::unknown>() };
            default: { num n = c.range(-1000, 1000); g.value = val::of(n); g.type = shared_type(ttype::int8 {}); return std::shared_ptr<tvalue::data const> { std::make_shared<tvalue::int8>(n) }; }
        }
    };
    std::string show = d.colon ? "-- declarations with colons\n" : "-- declarations without colons\n";
    std::vector<std::string> keys;
    for (auto& n : d.names) for (auto* p : { "", ":" }) keys.push_back(p + n);
    for (int i = 1; i <= 9; ++i) for (auto* p : { "", ":" }) keys.push_back(p + std::to_string(i));
    for (auto* k : { "0", "01", ":01", "?", "", ":" }) keys.push_back(k);
    bool has_host = c.chance(4, 5), dense = c.chance(3, 4);
    for (auto& k : keys) {
        bool wanted = (k[0] == ':') == d.colon;
        int none = wanted ? (dense ? 1 : 4) : 6; auto n = c.weighted({ none, 6, 3, 2 }); // neither, placeholder, variable, both
        if (n & 2 && has_host) {
            given g; g.variable = true; g.value = val::of(num { c.range(0, 4) }); g.type = c.flip() ? shared_type(ttype::int8 {}) : shared_type(ttype::int4 {});
            auto decl = std::make_shared<::yugawara::variable::declaration>(k, tp { g.type });
            host->add(decl);
            g.identity = static_cast<::yugawara::variable::declaration const*>(decl.get());
            fx.db.externals[g.identity] = g.value;
            show += "--   variable " + k + " " + str(*g.type) + " = " + ana::show(g.value) + "\n";
            d.entries[k] = std::move(g);
        }
        if (n & 1) {
            given g; auto v = value(g);
            if (c.chance(1, 8)) { given other; auto o = value(other); placeholders.add(k, { o, other.type }); } // the last one wins
            if (c.flip()) placeholders.add(k, { v, g.type }); else placeholders.add(k, { g.type, v });
            g.shown = str(*v);
            show += "--   placeholder " + k + " " + str(*g.type) + " = " + g.shown + "\n";
            d.entries[k] = std::move(g);
        }
    }
    for (auto& k : keys) {
        auto f = placeholders.find(k);
        auto it = d.entries.find(k);
        bool there = it != d.entries.end() && !it->second.variable;
        if (f.has_value() != there) ctx.fail("placeholder-map", "'" + k + "'");
        if (there && str(*f) != "placeholder(value=" + it->second.shown + ", type=" + str(*it->second.type) + ")") ctx.fail("placeholder-text", str(*f));
    }
    bool empty = c.chance(1, 12);
    if (empty) { placeholders.clear(); for (auto it = d.entries.begin(); it != d.entries.end();) if (!it->second.variable) it = d.entries.erase(it); else ++it; show += "-- no placeholders\n"; for (auto& k : keys) if (placeholders.find(k)) ctx.fail("placeholder-clear", k); }
    if (empty) throw pbt::discard {}; // variables which were hidden by placeholders are not modelled
    // the document
    auto data = table.rows;
    for (int i = 0, n = c.range(1, 3); i < n; ++i) {
        doc::statement st;
        auto key = [&](val const& k) { std::vector<row> r; for (auto& x : data) if (sem::compare(sem::cmp::eq, x[0], k).is_true()) r.push_back(x); return r; };
        switch (c.draw(6)) {
            case 0: { // SELECT
                st.form = "SELECT"; d.put("SELECT"); row x; std::vector<row> base = data;
                int items = c.range(1, 3);
                for (int j = 0; j < items; ++j) { if (j) d.put(","); x.push_back(d.expr(st, true)); if (st.plain.size() < x.size()) st.plain.push_back(static_cast<std::size_t>(-1)); }
                d.put("FROM t");
                if (c.flip()) { d.put("WHERE k ="); base = key(d.expr(st, false)); }
                if (c.chance(1, 3)) { st.limit = st.refs.size(); d.put("LIMIT"); auto v = d.param(st); if (!v.is_null() && v.i >= 0) base.resize(std::min(base.size(), static_cast<std::size_t>(v.i))); }
                for (auto& b : base) { (void) b; st.rows.push_back(x); }
                break;
            }
            case 1: { st.form = "VALUES"; d.put("VALUES ("); row x; x.push_back(d.expr(st, false)); d.put(","); x.push_back(d.expr(st, false)); d.put(")"); st.rows.push_back(x); break; }
            case 2: { st.form = "INSERT"; st.write = true; d.put("INSERT INTO t (k, v) VALUES ("); row x; x.push_back(d.expr(st, false)); d.put(","); x.push_back(d.expr(st, false)); d.put(")"); st.rows.push_back(x); break; }
            case 3: { st.form = "UPDATE"; st.write = true; d.put("UPDATE t SET v ="); auto v = d.expr(st, false); d.put("WHERE k ="); auto k = d.expr(st, false); for (auto& x : key(k)) st.rows.push_back({ x[0], v }); break; }
            case 4: { st.form = "DELETE"; st.write = true; d.put("DELETE FROM t WHERE k ="); for (auto& x : key(d.expr(st, false))) st.rows.push_back({ x[0] }); break; }
            default: { // sub-query
                st.form = "sub-query"; d.put("SELECT v,"); row x; bool where = c.flip();
                std::vector<row> base = data;
                d.put("(SELECT max(u.v) FROM t AS u WHERE u.k ="); auto k = d.expr(st, false); d.put(")");
                d.put("FROM (SELECT k, v FROM t");
                if (where) { d.put("WHERE k ="); base = key(d.expr(st, false)); }
                d.put(") AS r");
                auto m = key(k);
                for (auto& b : base) st.rows.push_back({ b[1], m.empty() ? val {} : m[0][1] });
                break;
            }
        }
        d.all.push_back(std::move(st));
        if (i + 1 < n) d.put(";");
    }
    if (!d.all.empty()) fx.standard_aggregates("main");
    ctx.show(show + d.sql);
    session ss { d.sql };
    if (!ss.unit) ctx.fail("rejected", ss.error);
    if (ss.unit->statements().size() != d.all.size()) ctx.fail("statements", "");
    for (std::size_t i = 0; i < d.all.size(); ++i) {
        auto& st = d.all[i];
        auto o = fx.options();
        o.host_parameter_declaration_starts_with_colon() = d.colon;
        o.allow_context_independent_null() = true;
        auto r = has_host ? ss.analyze(o, i, placeholders, *host) : ss.analyze(o, i, placeholders);
        std::vector<std::pair<code, ref const*>> faults;
        for (auto& x : st.refs) if (!x.g) faults.emplace_back(code::variable_not_found, &x);
        if (st.limit) { auto& x = st.refs[*st.limit]; if (x.g && (x.g->variable || x.g->value.is_null() || x.g->value.i < 0)) faults.emplace_back(code::invalid_unsigned_integer, &x); }
        ++ctx.checks;
        ctx.nontrivial(ctx.shown);
        if (!faults.empty()) {
            ctx.label(st.form + ": " + str(faults[0].first));
            if (r.is_valid()) ctx.fail("missing", "there is nothing for " + d.sql.substr(faults[0].second->begin, faults[0].second->end - faults[0].second->begin));
            for (auto&& x : r.element<mana::sql_analyzer_result_kind::diagnostics>()) {
                bool ok = false;
                for (auto& f : faults) ok = ok || (x.code() == f.first && static_cast<std::size_t>(x.location().begin()) == f.second->begin && static_cast<std::size_t>(x.location().end()) == f.second->end);
                if (!ok) ctx.fail("diagnostic", diagnostics(r));
            }
            continue;
        }
        ctx.label(st.form);
        if (!r.is_valid()) ctx.fail("unresolved", diagnostics(r));
        // references which are columns
        bool columns = false;
        for (auto p : st.plain) columns = columns || p != static_cast<std::size_t>(-1);
        if (columns) {
            for (auto&& e : r.element<mana::sql_analyzer_result_kind::execution_plan>()) if (e.kind() == trel::expression_kind::project) {
                auto&& cs = static_cast<trel::project const&>(e).columns();
                if (cs.size() != st.plain.size()) ctx.fail("columns", "");
                for (std::size_t k = 0; k < cs.size(); ++k) {
                    if (st.plain[k] == static_cast<std::size_t>(-1)) continue;
                    auto& x = st.refs[st.plain[k]];
                    auto&& v = cs[k].value();
                    if (static_cast<std::size_t>(v.region().begin()) != x.begin || static_cast<std::size_t>(v.region().end()) != x.end) ctx.fail("region", str(v) + " of " + d.sql.substr(x.begin, x.end - x.begin));
                    if (x.g->variable) {
                        if (v.kind() != tscalar::expression_kind::variable_reference) ctx.fail("variable", str(v));
                        if (static_cast<tscalar::variable_reference const&>(v).variable().identity() != x.g->identity) ctx.fail("variable", str(v));
                    } else {
                        if (v.kind() != tscalar::expression_kind::immediate) ctx.fail("placeholder", str(v));
                        auto&& m = static_cast<tscalar::immediate const&>(v);
                        if (str(m.value()) != x.g->shown || str(m.type()) != str(*x.g->type)) ctx.fail("placeholder", str(v));
                    }
                }
            }
        }
        machine m { fx.db };
        try {
            auto out = run_plan(r, m);
            auto got = out.rows;
            if (st.write) {
                got.clear();
                for (auto& e : out.effects) {
                    row x;
                    for (auto& k : table.cols) { if (auto it = e.keys.find(k.decl); it != e.keys.end()) x.push_back(it->second); else if (auto jt = e.columns.find(k.decl); jt != e.columns.end()) x.push_back(jt->second); }
                    got.push_back(std::move(x));
                }
            }
            auto want = st.rows;
            std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
            if (got != want) ctx.fail("value", "expected\n" + ana::show(want) + "but\n" + ana::show(got));
        } catch (plan_error const& e) { ctx.fail("plan", e.what); }
    }
}

// ---- built-in functions -------------------------------------------------------------------------------------------
struct mtype { char const* sql; tp type; };
std::vector<mtype> const& types() {
    static std::vector<mtype> const all {
        { "INT", shared_type(ttype::int4 {}) },
        { "BIGINT", shared_type(ttype::int8 {}) },
        { "DECIMAL(5, 2)", shared_type(ttype::decimal { 5, 2 }) },
        { "DOUBLE", shared_type(ttype::float8 {}) },
        { "VARCHAR(*)", shared_type(ttype::character { ttype::varying }) },
        { "BOOLEAN", shared_type(ttype::boolean {}) },
        { "VARBINARY(4)", shared_type(ttype::octet { ttype::varying, 4 }) },
        { "DATE", shared_type(ttype::date {}) },
        { "TIME", shared_type(ttype::time_of_day {}) },
        { "TIME WITH TIME ZONE", shared_type(ttype::time_of_day { ttype::with_time_zone }) },
        { "TIMESTAMP", shared_type(ttype::time_point {}) },
        { "TIMESTAMP WITH TIME ZONE", shared_type(ttype::time_point { ttype::with_time_zone }) },
    };
    return all;
}
struct overload { std::string schema; std::string name; std::vector<tp> params; std::size_t id; bool table {}; };
bool applies(std::vector<tp> const& a, std::vector<tp> const& b) {
    if (a.size() != b.size()) return false;
    for (std::size_t i = 0; i < a.size(); ++i) if (::yugawara::type::is_parameter_application_convertible(*a[i], *b[i]) != ::yugawara::util::ternary::yes) return false;
    return true;
}
struct argument { std::size_t column; mtype type; };
// one call in question, and the functions which are declared
struct calls {
    pbt::source& c; pbt::context& ctx;
    fixture fx {};
    std::vector<overload> all {};
    std::vector<mtype> palette {};
    std::string show {};
    calls(pbt::source& s, pbt::context& x) : c { s }, ctx { x } {
        fx.add_schema("main"); fx.add_schema("other");
        static std::vector<std::vector<std::size_t>> const paths { { 0 }, { 0, 1 }, { 1, 0 }, { 1 } };
        fx.path = paths[static_cast<std::size_t>(c.weighted({ 3, 3, 3, 1 }))];
        show += "-- path:"; for (auto p : fx.path) show += " " + fx.schemas[p]->name; show += "\n";
        mtable one; one.schema = "main"; one.name = "one";
        for (int i = 0; i < 5; ++i) { one.cols.push_back({ "c" + std::to_string(i), ty::num }); }
        row r; for (num i = 0; i < 5; ++i) r.push_back(val::of(i * 7 + 3));
        one.rows.push_back(r);
        fx.add_table(std::move(one));
    }
    std::set<std::string> declared {};
    void declare(std::string const& schema, std::string const& name, std::vector<tp> params, bool table) {
        auto key = schema + "." + name; for (auto& t : params) key += "," + str(*t);
        if (!declared.insert(key).second && !c.chance(1, 10)) return;
        auto id = ::yugawara::function::declaration::minimum_user_function_id + static_cast<std::size_t>(c.draw(1000)) * 100 + all.size();
        show += "-- " + std::to_string(id) + " " + (table ? "table " : "") + schema + "." + name + "(";
        for (auto& t : params) show += str(*t) + ",";
        show += ")\n";
        auto& s = fx.schema(schema);
        if (table) {
            ttype::table::columns_type cs; cs.emplace_back("p", type_of(ty::num));
            s.functions->add(std::make_shared<::yugawara::function::declaration>(id, name, shared_type(ttype::table { std::move(cs) }), params,
                ::yugawara::function::function_feature_set { ::yugawara::function::function_feature::table_valued_function }));
        } else {
            s.functions->add(std::make_shared<::yugawara::function::declaration>(id, name, type_of(ty::num), params));
        }
        all.push_back({ schema, name, std::move(params), id, table });
    }
    std::vector<overload> sets {};
    void declare_set(std::string const& schema, std::string const& name, std::vector<tp> params) {
        auto key = "set " + schema + "." + name; for (auto& t : params) key += "," + str(*t);
        if (!declared.insert(key).second) return;
        auto id = ::yugawara::aggregate::declaration::minimum_user_function_id + static_cast<std::size_t>(c.draw(1000)) * 100 + sets.size();
        show += "-- " + std::to_string(id) + " set " + schema + "." + name + "(";
        for (auto& t : params) show += str(*t) + ",";
        show += ")\n";
        fx.schema(schema).aggregates->add(std::make_shared<::yugawara::aggregate::declaration>(id, name, type_of(ty::num), params));
        sets.push_back({ schema, name, std::move(params), id, false });
    }
    // the most specific one
    static overload const* choose(std::vector<overload const*> const& found) {
        overload const* best {};
        for (auto* f : found) {
            bool most = true;
            for (auto* g : found) most = most && (f == g || (applies(f->params, g->params) && !applies(g->params, f->params)));
            if (most) best = f;
        }
        return best;
    }
    // what the name may be: the functions of the first schema in the path which has some with as many parameters
    std::vector<overload const*> visible(std::string const& qualifier, std::string const& name, std::size_t n, bool set = false) const {
        std::vector<overload const*> r;
        auto in = [&](std::string const& schema) { for (auto& f : set ? sets : all) if (f.schema == schema && f.name == name && f.params.size() == n) r.push_back(&f); };
        if (qualifier == "*") for (auto p : fx.path) in(fx.schemas[p]->name); // built-in functions: all schemas of the path
        else if (!qualifier.empty()) in(qualifier);
        else for (auto p : fx.path) { in(fx.schemas[p]->name); if (!r.empty()) break; }
        return r;
    }
    // writes "CAST(c AS type)", or a column of which the type is BIGINT
    std::string write(argument const& a) {
        auto col = "c" + std::to_string(a.column);
        if (a.type.type->kind() == ttype::type_kind::int8 && c.flip()) return col;
        return cased(c, "CAST") + opt_gap(c) + "(" + opt_gap(c) + col + gap(c) + cased(c, "AS") + gap(c) + a.type.sql + ")";
    }
    // what: the arguments besides the operands, which are immediate
    void check(std::string const& call, std::string const& function, std::vector<argument> const& args, std::vector<std::int32_t> const& extra, bool valid, std::string const& title, std::string const& qualifier = "") {
        auto head = cased(c, "SELECT") + gap(c) + (c.flip() ? "c0, " : "") ;
        auto at = head.size();
        auto sql = head + call + " FROM main.one";
        ctx.show(show + sql);
        std::vector<tp> ts;
        for (auto& a : args) ts.push_back(a.type.type);
        for (auto e : extra) { (void) e; ts.push_back(shared_type(ttype::int4 {})); }
        std::vector<overload const*> found;
        if (valid) for (auto* f : visible(qualifier, function, ts.size())) if (!f->table && applies(ts, f->params)) found.push_back(f);
        // whether a built-in function in one schema hides one with the same parameters in another is not stated
        if (qualifier == "*") for (auto* f : found) for (auto* g : found) if (f->schema != g->schema && applies(f->params, g->params) && applies(g->params, f->params)) throw pbt::discard {};
        auto* best = choose(found);
        session ss { sql };
        if (!ss.unit) ctx.fail("rejected", ss.error);
        auto o = fx.options();
        auto r = ss.analyze(o);
        ++ctx.checks;
        ctx.nontrivial(ctx.shown);
        ctx.label(title + (best ? found.size() > 1 ? ": most specific of several" : ": found" : found.empty() ? valid ? ": not declared" : ": not applicable" : ": ambiguous"));
        if (!best) {
            if (r.is_valid()) ctx.fail("accepted", "there is no " + function);
            for (auto&& d : r.element<mana::sql_analyzer_result_kind::diagnostics>()) {
                if (d.code() != (found.empty() ? code::function_not_found : code::function_ambiguous)) ctx.fail("diagnostic", diagnostics(r));
                if (!d.location() || static_cast<std::size_t>(d.location().begin()) < at || static_cast<std::size_t>(d.location().end()) > at + call.size()) ctx.fail("location", diagnostics(r));
            }
            return;
        }
        if (!r.is_valid()) ctx.fail("unresolved", "it should be " + std::to_string(best->id) + ": " + diagnostics(r));
        machine m { fx.db };
        val want;
        {
            std::vector<val> vs;
            for (std::size_t i = 0; i < args.size(); ++i) vs.push_back(sem::cast(str(*args[i].type.type), val::of(static_cast<num>(args[i].column) * 7 + 3)));
            for (auto e : extra) vs.push_back(val::of(num { e }));
            std::string sig = function; for (auto& p : best->params) sig += "," + std::string { what_of(*p) };
            want = sem::call(sig, "number", vs);
        }
        std::size_t n = 0;
        for (auto&& e : r.element<mana::sql_analyzer_result_kind::execution_plan>()) if (e.kind() == trel::expression_kind::project) for (auto&& k : static_cast<trel::project const&>(e).columns()) {
            if (k.value().kind() != tscalar::expression_kind::function_call) continue;
            auto& f = static_cast<tscalar::function_call const&>(k.value());
            ++n;
            if (auto id = ybind::extract(f.function()).definition_id(); id != best->id) ctx.fail("overload", "it should be " + std::to_string(best->id) + ", but it is " + std::to_string(id));
            if (f.arguments().size() != ts.size()) ctx.fail("arguments", str(f));
            for (std::size_t i = 0; i < args.size(); ++i) {
                auto&& x = f.arguments()[i];
                if (x.kind() == tscalar::expression_kind::cast && str(static_cast<tscalar::cast const&>(x).type()) != str(*ts[i])) ctx.fail("arguments", str(f));
            }
            for (std::size_t i = 0; i < extra.size(); ++i) if (auto&& x = f.arguments()[args.size() + i]; x.kind() != tscalar::expression_kind::immediate || str(static_cast<tscalar::immediate const&>(x).type()) != "int4()") ctx.fail("arguments", str(f));
        }
        if (n != 1) ctx.fail("calls", std::to_string(n));
        try {
            auto out = m.run(r.element<mana::sql_analyzer_result_kind::execution_plan>());
            if (out.rows.size() != 1 || out.rows[0].back() != want) ctx.fail("value", "expected " + ana::show(want) + ", but\n" + ana::show(out.rows));
        } catch (plan_error const& e) { ctx.fail("plan", e.what); }
    }
};

struct field { std::vector<std::string> words; std::string function; bool date, time, zone, second; };
void extract(pbt::source& c, pbt::context& ctx) {
    static std::vector<field> const fields {
        { { "YEAR" }, "extract_year", true, false, false, false },
        { { "MONTH" }, "extract_month", true, false, false, false },
        { { "DAY" }, "extract_day", true, false, false, false },
        { { "HOUR" }, "extract_hour", false, true, false, false },
        { { "MINUTE" }, "extract_minute", false, true, false, false },
        { { "SECOND" }, "extract_second", false, true, false, true },
        { { "TIMEZONE_HOUR" }, "extract_timezone_hour", false, false, true, false },
        { { "TIMEZONE_MINUTE" }, "extract_timezone_minute", false, false, true, false },
        { { "DATE" }, "date", true, false, false, false },
        { { "YEAR", "TO", "MONTH" }, "extract_year_to_month", true, false, false, false },
        { { "YEAR", "TO", "DAY" }, "extract_year_to_day", true, false, false, false },
        { { "YEAR", "TO", "HOUR" }, "extract_year_to_hour", false, false, false, false },
        { { "YEAR", "TO", "MINUTE" }, "extract_year_to_minute", false, false, false, false },
        { { "YEAR", "TO", "SECOND" }, "extract_year_to_second", false, false, false, true },
    };
    calls k { c, ctx };
    auto& f = c.pick(fields);
    auto type = c.chance(5, 6) ? types()[7 + c.draw(5)] : types()[c.draw(static_cast<std::uint32_t>(types().size()))];
    // declarations: mostly of the function, sometimes of others or for other types
    for (int i = 0, n = c.range(0, 6); i < n; ++i) {
        auto& g = c.chance(3, 4) ? f : c.pick(fields);
        std::vector<tp> ps;
        ps.push_back(c.flip() ? type.type : types()[7 + c.draw(5)].type);
        bool second = c.chance(7, 8) ? g.second : !g.second;
        if (second) ps.push_back(c.chance(4, 5) ? types()[0].type : types()[c.draw(3)].type);
        auto name = g.function;
        if (c.chance(1, 12)) for (auto& x : name) x = static_cast<char>(std::toupper(x));
        k.declare(c.chance(2, 3) ? "main" : "other", name, std::move(ps), c.chance(1, 12));
    }
    std::string s = cased(c, "EXTRACT") + opt_gap(c) + "(" + opt_gap(c);
    for (std::size_t i = 0; i < f.words.size(); ++i) s += (i ? gap(c) : "") + cased(c, f.words[i]);
    std::vector<std::int32_t> extra;
    if (f.second) {
        extra.push_back(9);
        if (c.chance(2, 3)) {
            std::string p;
            if (c.chance(1, 5)) p = "*";
            else { auto n = c.chance(3, 4) ? c.range(0, 10) : c.pick(std::vector<int> { 11, 38, 255, 65536, 2147483647 }); p = std::to_string(n); extra[0] = std::min(n, 9); }
            s += opt_gap(c) + "(" + opt_gap(c) + p + opt_gap(c) + ")";
        }
    }
    argument a { c.draw(5), type };
    s += gap(c) + cased(c, "FROM") + gap(c) + k.write(a) + opt_gap(c) + ")";
    auto kind = type.type->kind();
    bool point = kind == ttype::type_kind::time_point, day = kind == ttype::type_kind::date, time = kind == ttype::type_kind::time_of_day;
    bool zoned = (point && static_cast<ttype::time_point const&>(*type.type).with_time_zone()) || (time && static_cast<ttype::time_of_day const&>(*type.type).with_time_zone());
    bool valid = f.zone ? zoned : point ? true : day ? f.date : time ? f.time : false;
    k.check(s, f.function, { a }, extra, valid, f.function);
}

void builtins(pbt::source& c, pbt::context& ctx) {
    calls k { c, ctx };
    struct form { std::string name; std::vector<std::string> text; }; // text around the operands
    static std::vector<form> const forms {
        { "position", { "POSITION(", " IN ", ")" } },
        { "substring", { "SUBSTRING(", " FROM ", ")" } },
        { "substring", { "SUBSTRING(", " FROM ", " FOR ", ")" } },
        { "overlay", { "OVERLAY(", " PLACING ", " FROM ", ")" } },
        { "overlay", { "OVERLAY(", " PLACING ", " FROM ", " FOR ", ")" } },
        { "current_date", { "CURRENT_DATE" } },
        { "current_time", { "CURRENT_TIME" } }, { "current_time", { "CURRENT_TIME(", ")" } },
        { "localtime", { "LOCALTIME" } }, { "localtime", { "LOCALTIME(", ")" } },
        { "current_timestamp", { "CURRENT_TIMESTAMP" } }, { "current_timestamp", { "CURRENT_TIMESTAMP(", ")" } },
        { "localtimestamp", { "LOCALTIMESTAMP" } }, { "localtimestamp", { "LOCALTIMESTAMP(", ")" } },
        { "character_length", { "CHAR_LENGTH(", "*" } }, { "character_length", { "CHARACTER_LENGTH(", "*" } },
        { "octet_length", { "OCTET_LENGTH(", "*" } }, { "cardinality", { "CARDINALITY(", "*" } }, { "abs", { "ABS(", "*" } },
        { "ceil", { "CEIL(", "*" } }, { "floor", { "FLOOR(", "*" } }, { "mod", { "MOD(", "*" } }, { "upper", { "UPPER(", "*" } },
        { "lower", { "LOWER(", "*" } }, { "length", { "LENGTH(", "*" } },
    };
    auto& f = c.pick(forms);
    bool list = f.text.back() == "*";
    std::size_t n = list ? static_cast<std::size_t>(c.weighted({ 0, 4, 3, 1 })) : f.text.size() - 1;
    std::vector<mtype> palette;
    for (int i = 0, m = c.range(1, 4); i < m; ++i) palette.push_back(types()[c.chance(3, 4) ? c.draw(4) : c.draw(static_cast<std::uint32_t>(types().size()))]);
    auto any = [&] { return c.pick(palette); };
    std::vector<argument> args;
    for (std::size_t i = 0; i < n; ++i) args.push_back({ (i * 2 + 1) % 5, c.flip() ? palette[0] : any() });
    for (int i = 0, m = c.range(0, 8); i < m; ++i) {
        std::vector<tp> ps;
        std::size_t p = c.chance(7, 8) ? n : static_cast<std::size_t>(c.range(0, 4));
        for (std::size_t j = 0; j < p; ++j) ps.push_back(j < n && c.chance(1, 3) ? args[j].type.type : any().type);
        auto name = c.chance(5, 6) ? f.name : c.pick(forms).name;
        if (c.chance(1, 15)) for (auto& x : name) x = static_cast<char>(std::toupper(x));
        k.declare(c.chance(2, 3) ? "main" : "other", name, std::move(ps), c.chance(1, 12));
    }
    std::string s;
    auto word = [&](std::string const& w) { std::string r; for (auto x : w) { if (x == ' ') r += gap(c); else r += c.chance(1, 10) ? static_cast<char>(std::tolower(x)) : x; } return r; };
    for (std::size_t i = 0; i < n; ++i) s += (list && i ? opt_gap(c) + "," + opt_gap(c) : word(f.text[i])) + opt_gap(c) + k.write(args[i]);
    s += list ? ")" : word(f.text[n]);
    k.check(s, f.name, args, {}, true, f.name + "/" + std::to_string(n), "*");
}
// calls of declared functions as values and as operands of APPLY: the two kinds do not interfere even if they share names
void functions(pbt::source& c, pbt::context& ctx) {
    calls k { c, ctx };
    static std::vector<std::string> const names { "f", "g_1", "ff" };
    auto name = c.pick(names);
    auto n = static_cast<std::size_t>(c.weighted({ 1, 5, 4, 2, 1 }));
    std::vector<mtype> palette;
    for (int i = 0, m = c.range(1, 4); i < m; ++i) palette.push_back(types()[c.chance(3, 4) ? c.draw(4) : c.draw(static_cast<std::uint32_t>(types().size()))]);
    auto any = [&] { return c.pick(palette); };
    std::vector<argument> args;
    for (std::size_t i = 0; i < n; ++i) args.push_back({ (i * 2 + 1) % 5, c.flip() ? palette[0] : any() });
    bool table = c.flip();
    for (int i = 0, m = c.range(0, 8); i < m; ++i) {
        std::vector<tp> ps;
        std::size_t p = c.chance(7, 8) ? n : static_cast<std::size_t>(c.range(0, 4));
        for (std::size_t j = 0; j < p; ++j) ps.push_back(j < n && c.chance(1, 3) ? args[j].type.type : any().type);
        auto x = c.chance(5, 6) ? name : c.pick(names);
        if (c.chance(1, 15)) for (auto& y : x) y = static_cast<char>(std::toupper(y));
        k.declare(c.chance(2, 3) ? "main" : "other", x, std::move(ps), c.chance(3, 4) ? table : !table);
    }
    static std::vector<std::string> const qualifiers { "", "main", "other", "nothing" };
    auto& qualifier = qualifiers[static_cast<std::size_t>(c.weighted({ 5, 2, 2, 1 }))];
    auto s = (qualifier.empty() ? "" : cased(c, qualifier) + opt_gap(c) + "." + opt_gap(c)) + cased(c, name) + opt_gap(c) + "(";
    for (std::size_t i = 0; i < n; ++i) s += (i ? opt_gap(c) + "," : "") + opt_gap(c) + k.write(args[i]);
    s += opt_gap(c) + ")";
    auto title = std::string { table ? "apply/" : "function/" } + std::to_string(n);
    if (!table) { k.check(s, name, args, {}, true, title, qualifier); return; }
    bool outer = c.flip();
    auto head = std::string { "SELECT r.p FROM " }, sql = head + "main.one " + (outer ? "OUTER APPLY " : "CROSS APPLY ") + s + " AS r";
    ctx.show(k.show + sql);
    std::vector<tp> ts;
    for (auto& a : args) ts.push_back(a.type.type);
    std::vector<overload const*> found;
    for (auto* f : k.visible(qualifier, name, ts.size())) if (f->table && applies(ts, f->params)) found.push_back(f);
    auto* best = calls::choose(found);
    session ss { sql };
    if (!ss.unit) ctx.fail("rejected", ss.error);
    auto o = k.fx.options();
    auto r = ss.analyze(o);
    ++ctx.checks;
    ctx.nontrivial(ctx.shown);
    ctx.label(title + (best ? found.size() > 1 ? ": most specific of several" : ": found" : found.empty() ? ": not applicable" : ": ambiguous"));
    if (!best) {
        if (r.is_valid()) ctx.fail("accepted", "there is no table-valued " + name);
        for (auto&& d : r.element<mana::sql_analyzer_result_kind::diagnostics>()) {
            if (d.code() != (found.empty() ? code::function_not_found : code::function_ambiguous)) ctx.fail("diagnostic", diagnostics(r));
            if (!d.location() || static_cast<std::size_t>(d.location().begin()) < head.size()) ctx.fail("location", diagnostics(r));
        }
        return;
    }
    if (!r.is_valid()) ctx.fail("unresolved", "it should be " + std::to_string(best->id) + ": " + diagnostics(r));
    std::size_t count = 0;
    for (auto&& e : r.element<mana::sql_analyzer_result_kind::execution_plan>()) if (e.kind() == trel::expression_kind::apply) {
        auto& a = static_cast<trel::apply const&>(e);
        ++count;
        if (auto id = ybind::extract(a.function()).definition_id(); id != best->id) ctx.fail("overload", "it should be " + std::to_string(best->id) + ", but it is " + std::to_string(id));
        if ((a.operator_kind() == trel::apply_kind::outer) != outer) ctx.fail("kind of apply", str(a));
        if (a.arguments().size() != ts.size()) ctx.fail("arguments", str(a));
        for (std::size_t i = 0; i < args.size(); ++i) {
            auto&& x = a.arguments()[i];
            if (x.kind() == tscalar::expression_kind::cast && str(static_cast<tscalar::cast const&>(x).type()) != str(*ts[i])) ctx.fail("arguments", str(a));
        }
    }
    if (count != 1) ctx.fail("calls", std::to_string(count));
}
// calls of set functions, built-in or declared, with declarations of scalar functions of the same name: those go first
void aggregates(pbt::source& c, pbt::context& ctx) {
    calls k { c, ctx };
    static std::vector<std::string> const users { "f", "g_1", "ff" };
    static std::vector<std::string> const builtin { "avg", "max", "min", "sum", "every", "bit_and", "bit_or", "bool_and", "bool_or", "count" };
    bool user = c.flip();
    auto name = user ? c.pick(users) : c.pick(builtin);
    int quantifier = user ? 0 : c.weighted({ 3, 1, 3 }); // none, ALL, DISTINCT
    auto n = user ? static_cast<std::size_t>(c.weighted({ 1, 5, 4, 2 })) : name == "count" && quantifier == 0 && c.flip() ? std::size_t { 0 } : std::size_t { 1 };
    auto wanted = name + (quantifier == 2 ? "$distinct" : "");
    std::vector<mtype> palette;
    for (int i = 0, m = c.range(1, 4); i < m; ++i) palette.push_back(types()[c.chance(3, 4) ? c.draw(4) : c.draw(static_cast<std::uint32_t>(types().size()))]);
    auto any = [&] { return c.pick(palette); };
    std::vector<argument> args;
    for (std::size_t i = 0; i < n; ++i) args.push_back({ (i * 2 + 1) % 5, c.flip() ? palette[0] : any() });
    for (int i = 0, m = c.range(0, 8); i < m; ++i) {
        std::vector<tp> ps;
        std::size_t p = c.chance(7, 8) ? n : static_cast<std::size_t>(c.range(0, 3));
        for (std::size_t j = 0; j < p; ++j) ps.push_back(j < n && c.chance(1, 3) ? args[j].type.type : any().type);
        auto x = c.chance(5, 6) ? wanted : c.pick(user ? users : builtin) + (c.chance(1, 3) ? "$distinct" : "");
        if (c.chance(1, 15)) for (auto& y : x) y = static_cast<char>(std::toupper(y));
        auto schema = c.chance(2, 3) ? "main" : "other";
        if (c.chance(4, 5)) k.declare_set(schema, x, std::move(ps)); else k.declare(schema, x, std::move(ps), c.chance(1, 4));
    }
    static std::vector<std::string> const qualifiers { "", "main", "other", "nothing" };
    std::string qualifier = user ? qualifiers[static_cast<std::size_t>(c.weighted({ 5, 2, 2, 1 }))] : "*";
    auto s = (user && !qualifier.empty() ? cased(c, qualifier) + opt_gap(c) + "." + opt_gap(c) : "") + cased(c, name) + opt_gap(c) + "(" + opt_gap(c);
    if (quantifier) s += cased(c, quantifier == 1 ? "ALL" : "DISTINCT") + gap(c);
    for (std::size_t i = 0; i < n; ++i) s += (i ? opt_gap(c) + "," : "") + opt_gap(c) + k.write(args[i]);
    s += (name == "count" && n == 0 ? "*" : "") + opt_gap(c) + ")";
    auto head = cased(c, "SELECT") + gap(c), sql = head + s + " FROM main.one";
    ctx.show(k.show + sql);
    std::vector<tp> ts;
    for (auto& a : args) ts.push_back(a.type.type);
    std::vector<overload const*> found;
    if (user) for (auto* f : k.visible(qualifier, name, n)) if (!f->table && applies(ts, f->params)) found.push_back(f);
    bool set = found.empty();
    if (set) for (auto* f : k.visible(qualifier, wanted, n, true)) if (applies(ts, f->params)) found.push_back(f);
    if (qualifier == "*") for (auto* f : found) for (auto* g : found) if (f->schema != g->schema && applies(f->params, g->params) && applies(g->params, f->params)) throw pbt::discard {};
    auto* best = calls::choose(found);
    session ss { sql };
    if (!ss.unit) ctx.fail("rejected", ss.error);
    auto o = k.fx.options();
    auto r = ss.analyze(o);
    ++ctx.checks;
    ctx.nontrivial(ctx.shown);
    ctx.label(std::string { user ? "set function/" : quantifier == 2 ? "DISTINCT/" : "built-in set function/" } + std::to_string(n) + (best ? !set ? ": scalar function" : found.size() > 1 ? ": most specific of several" : ": found" : found.empty() ? ": not applicable" : ": ambiguous"));
    if (!best) {
        if (r.is_valid()) ctx.fail("accepted", "there is no " + wanted);
        for (auto&& d : r.element<mana::sql_analyzer_result_kind::diagnostics>()) {
            if (d.code() != (found.empty() ? code::function_not_found : code::function_ambiguous)) ctx.fail("diagnostic", diagnostics(r));
            if (!d.location() || static_cast<std::size_t>(d.location().begin()) < head.size() || static_cast<std::size_t>(d.location().end()) > head.size() + s.size()) ctx.fail("location", diagnostics(r));
        }
        return;
    }
    if (!r.is_valid()) ctx.fail("unresolved", "it should be " + std::to_string(best->id) + ": " + diagnostics(r));
    std::size_t sets = 0, scalars = 0;
    for (auto&& e : r.element<mana::sql_analyzer_result_kind::execution_plan>()) {
        if (e.kind() == trel::expression_kind::project) for (auto&& x : static_cast<trel::project const&>(e).columns()) if (x.value().kind() == tscalar::expression_kind::function_call) {
            ++scalars;
            if (auto id = ybind::extract(static_cast<tscalar::function_call const&>(x.value()).function()).definition_id(); set || id != best->id) ctx.fail("overload", "it should be " + std::to_string(best->id) + ", but it is " + std::to_string(id));
        }
        if (e.kind() == trel::expression_kind::aggregate_relation) for (auto&& x : static_cast<trel::intermediate::aggregate const&>(e).columns()) {
            ++sets;
            if (auto id = ybind::extract(x.function()).definition_id(); !set || id != best->id) ctx.fail("overload", "it should be set function " + std::to_string(best->id) + ", but it is " + std::to_string(id));
            if (x.arguments().size() != n) ctx.fail("arguments", "");
        }
    }
    if (sets != (set ? 1U : 0U) || scalars != (set ? 0U : 1U)) ctx.fail("calls", std::to_string(sets) + ", " + std::to_string(scalars));
}
// NULLIF, COALESCE, and CASE: the operands keep their types and order; the null of NULLIF has the type of the first one
void special(pbt::source& c, pbt::context& ctx) {
    calls k { c, ctx };
    int form = c.draw(3);
    auto n = form == 0 ? std::size_t { 2 } : static_cast<std::size_t>(c.range(1, 5));
    std::vector<argument> args; std::vector<std::string> texts;
    bool numbers = c.chance(3, 4);
    auto other = 4 + c.draw(static_cast<std::uint32_t>(types().size()) - 4);
    for (std::size_t i = 0; i < n; ++i) { args.push_back({ (i * 2 + 1) % 5, numbers ? types()[c.draw(4)] : types()[other] }); texts.push_back(k.write(args[i])); }
    std::string s;
    switch (form) {
        case 0: s = cased(c, "NULLIF") + opt_gap(c) + "(" + texts[0] + opt_gap(c) + "," + opt_gap(c) + texts[1] + ")"; break;
        case 1: s = cased(c, "COALESCE") + opt_gap(c) + "("; for (std::size_t i = 0; i < n; ++i) s += (i ? opt_gap(c) + "," + opt_gap(c) : "") + texts[i]; s += ")"; break;
        default: s = cased(c, "CASE"); for (std::size_t i = 0; i < n; ++i) s += i + 1 < n || n == 1 ? " WHEN c0 = " + std::to_string(i) + " THEN " + texts[i] : " ELSE " + texts[i]; s += " END"; break;
    }
    auto sql = cased(c, "SELECT") + gap(c) + s + " FROM main.one";
    ctx.show(sql);
    session ss { sql };
    if (!ss.unit) ctx.fail("rejected", ss.error);
    auto o = k.fx.options();
    o.validate_scalar_expressions() = c.flip();
    auto r = ss.analyze(o);
    if (!r.is_valid()) ctx.fail("valid call is rejected", diagnostics(r));
    ++ctx.checks; ctx.nontrivial(sql);
    static char const* const titles[] { "NULLIF", "COALESCE", "CASE" };
    ctx.label(std::string { titles[form] } + (numbers ? ": numbers" : ": others"));
    std::unique_ptr<tscalar::expression> e;
    for (auto&& x : r.element<mana::sql_analyzer_result_kind::execution_plan>()) if (x.kind() == trel::expression_kind::project) e.reset(static_cast<trel::project const&>(x).columns()[0].value().clone());
    if (!e) ctx.fail("the call is lost", "");
    auto operand = [&](tscalar::expression const& x, std::size_t i) {
        if (x.kind() == tscalar::expression_kind::cast) { if (str(static_cast<tscalar::cast const&>(x).type()) != str(*args[i].type.type)) ctx.fail("operand", str(x)); }
        else if (x.kind() != tscalar::expression_kind::variable_reference || str(*args[i].type.type) != "int8()") ctx.fail("operand", str(x));
    };
    [&] {
    if (form == 0) {
        if (e->kind() != tscalar::expression_kind::let) return ctx.label("other form");
        auto& l = static_cast<tscalar::let const&>(*e);
        operand(l.variables()[0].value(), 0);
        auto& y = static_cast<tscalar::conditional const&>(l.body());
        if (y.kind() != tscalar::expression_kind::conditional || y.alternatives().size() != 1) return ctx.label("other form");
        operand(static_cast<tscalar::compare const&>(y.alternatives()[0].condition()).right(), 1);
        auto& null = static_cast<tscalar::immediate const&>(y.alternatives()[0].body());
        if (null.kind() != tscalar::expression_kind::immediate || str(null.type()) != str(*args[0].type.type)) ctx.fail("type of NULL", "it should be " + str(*args[0].type.type) + ": " + str(null));
    } else if (form == 1) {
        if (e->kind() != tscalar::expression_kind::coalesce) return ctx.label("other form");
        auto& y = static_cast<tscalar::coalesce const&>(*e);
        if (y.alternatives().size() != n) ctx.fail("number of operands", str(*e));
        for (std::size_t i = 0; i < n; ++i) operand(y.alternatives()[i], i);
    } else {
        if (e->kind() != tscalar::expression_kind::conditional) return ctx.label("other form");
        auto& y = static_cast<tscalar::conditional const&>(*e);
        std::size_t w = n == 1 ? 1 : n - 1;
        if (y.alternatives().size() != w || y.default_expression().has_value() != (n > 1)) ctx.fail("number of branches", str(*e));
        for (std::size_t i = 0; i < w; ++i) operand(y.alternatives()[i].body(), i);
        if (n > 1) operand(*y.default_expression(), n - 1);
    }
    }();
    try {
        machine m { k.fx.db };
        auto out = m.run(r.element<mana::sql_analyzer_result_kind::execution_plan>());
        auto v = [&](std::size_t i) { return sem::cast(str(*args[i].type.type), val::of(static_cast<num>(args[i].column) * 7 + 3)); };
        auto cell = [&](std::size_t i) { return texts[i][0] == 'c' && texts[i].size() == 2 ? val::of(static_cast<num>(args[i].column) * 7 + 3) : v(i); };
        auto want = form == 1 ? cell(0) : form == 0 ? (sem::compare(sem::cmp::eq, cell(0), cell(1)).is_true() ? val {} : cell(0)) : n == 1 ? val {} : cell(n - 1);
        // c0 is 3
        if (form == 2 && (n > 4)) want = cell(3);
        if (out.rows.size() != 1 || out.rows[0][0] != want) ctx.fail("value", "expected " + ana::show(want) + ", but\n" + ana::show(out.rows));
    } catch (plan_error const& x) { ctx.fail("plan", x.what); }
}
} // namespace
int main(int argc, char** argv) {
    pbt::suite s;
    s.property = "A05";
    s.rule = "documents of statements with parameters, and calls of EXTRACT and of the other built-in functions, over declarations of parameters and overloads; non-trivial: a distinct document and set of declarations for which the value, the function and its arguments, or the kind and place of the diagnostic were compared";
    s.subs.push_back({ "parameters", 150000, 2000000, parameters });
    s.subs.push_back({ "extract", 100000, 1000000, extract });
    s.subs.push_back({ "builtins", 150000, 2000000, builtins });
    s.subs.push_back({ "functions", 100000, 1000000, functions });
    s.subs.push_back({ "aggregates", 80000, 1000000, aggregates });
    s.subs.push_back({ "special", 60000, 1000000, special });
    return pbt::run(s, argc, argv);
}
