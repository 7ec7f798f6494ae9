// A03: INSERT, UPDATE, and DELETE request exactly the changes which the text denotes.
#include "qgen.h"
#include "plancheck.h"
using namespace qg;

static std::string catalog_text(fixture const& fx) {
    std::string s;
    for (auto& t : fx.tables) {
        s += "-- " + t->schema + "." + t->name + "(";
        for (std::size_t i = 0; i < t->cols.size(); ++i) {
            auto& m = t->cols[i];
            s += m.name + " " + what(m.type) + (m.hidden ? " hidden" : "") + (m.synthesized ? " synthesized" : "") + (std::count(t->pk.begin(), t->pk.end(), i) ? " key" : "") + ", ";
        }
        s += ")\n";
        for (auto& r : t->rows) s += "--   " + ana::show(r) + "\n";
    }
    return s;
}
static std::string show(std::vector<effect> const& es) {
    std::string s;
    for (auto& e : es) {
        s += "  " + e.kind + " keys (";
        for (auto& [c, v] : e.keys) s += std::string { static_cast<ystor::column const*>(c)->simple_name() } + "=" + ana::show(v) + " ";
        s += ") columns (";
        for (auto& [c, v] : e.columns) s += std::string { static_cast<ystor::column const*>(c)->simple_name() } + "=" + ana::show(v) + " ";
        s += ")\n";
    }
    return s;
}
struct dml {
    pbt::source& c; fixture fx; gen_options g; generator gen;
    std::string sql; std::vector<effect> expected; bool prefer; std::optional<bool> statement; std::function<std::vector<effect>()> make;
    explicit dml(pbt::source& s, int depth) : c { s }, gen { s, fx, g } {
        g.fold = !c.chance(1, 4); g.allow_null = c.flip(); gen.o = g;
        gen.budget = 10 + depth * 20;
        gen.catalog();
        prefer = c.flip();
    }
    mtable& target() { return *fx.tables[c.draw(static_cast<std::uint32_t>(fx.tables.size()))]; }
    void insert(int depth, int form) {
        auto& t = target();
        scope s;
        static std::vector<std::pair<char const*, char const*>> const heads {
            { "INSERT", "insert" }, { "INSERT OR REPLACE", "insert_overwrite" }, { "UPDATE OR INSERT", "insert_overwrite" },
            { "INSERT OR IGNORE", "insert_skip" }, { "INSERT IF NOT EXISTS", "insert_skip" } };
        auto& h = heads[c.weighted({ 4, 2, 1, 2, 1 })];
        gen.used[h.first]++;
        sql = h.first + std::string { " INTO " } + gen.table_text(t, s);
        std::vector<std::size_t> at = generator::visible(t);
        if (c.flip()) {
            for (std::size_t i = at.size(); i > 1; --i) std::swap(at[i - 1], at[c.draw(static_cast<std::uint32_t>(i))]);
            at.resize(1 + c.draw(static_cast<std::uint32_t>(at.size())));
            std::string list;
            for (auto i : at) list += (list.empty() ? "" : ", ") + gen.id(t.cols[i].name);
            sql += " (" + list + ")"; gen.used["column list"]++;
        }
        std::string kind = h.second;
        void const* index = t.index.get();
        if (form == 0) {
            sql += " DEFAULT VALUES"; statement = prefer; gen.used["default values"]++;
            make = [=] { return std::vector<effect> { { kind, index, {}, {} } }; };
            return;
        }
        std::vector<ty> ts; for (auto i : at) ts.push_back(t.cols[i].type);
        auto x = form == 1 ? gen.values(nullptr, &ts, depth) : gen.query(nullptr, &ts, depth, false);
        if (form == 1) { if (x.sql.find("SELECT") == std::string::npos && x.sql.find("TABLE") == std::string::npos && x.sql.find("VALUES", 6) == std::string::npos) statement = prefer; else if (!prefer) statement = false; }
        sql += " " + x.sql;
        std::vector<void const*> cols; for (auto i : at) cols.push_back(t.cols[i].decl);
        make = [=, rows = x.rows] {
            std::vector<effect> es;
            for (auto& r : rows(nullptr)) { effect e { kind, index, {}, {} }; for (std::size_t i = 0; i < cols.size(); ++i) e.columns[cols[i]] = r[i]; es.push_back(std::move(e)); }
            return es;
        };
    }
    void declare(scope& s, mtable& t) {
        rel r; r.name = t.name; r.schema = t.schema;
        for (auto& m : t.cols) r.cols.push_back({ m.name, m.type, !m.hidden && !m.synthesized, s.width++ });
        if (c.chance(1, 3)) { r.name = gen.relation_name(); r.schema = ""; sql += (c.flip() ? " AS " : " ") + gen.id(r.name); gen.used["alias"]++; }
        s.rels.push_back(std::move(r));
    }
    mtable& keyed() { std::vector<mtable*> ok; for (auto& t : fx.tables) if (!t->pk.empty()) ok.push_back(t.get()); if (ok.empty()) throw pbt::discard {}; return *c.pick(ok); }
    void update(int depth) {
        auto& t = keyed();
        scope s, none;
        sql = "UPDATE " + gen.table_text(t, none);
        declare(s, t);
        auto vs = generator::visible(t);
        struct set { void const* col; ex v; };
        std::vector<set> sets;
        for (auto i : vs) if (sets.empty() || c.flip()) {
            ex v = g.allow_null && c.chance(1, 8) ? gen.null(t.cols[i].type) : gen.expr(s, t.cols[i].type, depth, {});
            sets.push_back({ t.cols[i].decl, v });
        }
        for (std::size_t i = sets.size(); i > 1; --i) std::swap(sets[i - 1], sets[c.draw(static_cast<std::uint32_t>(i))]);
        std::string list;
        for (auto& x : sets) list += (list.empty() ? " SET " : ", ") + gen.id(std::string { static_cast<ystor::column const*>(x.col)->simple_name() }) + " = " + x.v.sql;
        sql += list;
        auto w = where(s, depth);
        statement = false;
        std::vector<std::pair<std::size_t, void const*>> keys; for (auto k : t.pk) keys.emplace_back(k, t.cols[k].decl);
        make = [=, index = static_cast<void const*>(t.index.get()), rows = t.rows] {
            std::vector<effect> es;
            for (auto& r : rows) {
                env e { nullptr, &r, nullptr };
                if (w && !w->ev(e).is_true()) continue;
                effect f { "update", index, {}, {} };
                for (auto& [k, d] : keys) f.keys[d] = r[k];
                for (auto& x : sets) f.columns[x.col] = x.v.ev(e);
                es.push_back(std::move(f));
            }
            return es;
        };
    }
    void erase(int depth) {
        auto& t = keyed();
        scope s, none;
        sql = "DELETE FROM " + gen.table_text(t, none);
        declare(s, t);
        auto w = where(s, depth);
        statement = false;
        std::vector<std::pair<std::size_t, void const*>> keys; for (auto k : t.pk) keys.emplace_back(k, t.cols[k].decl);
        make = [=, index = static_cast<void const*>(t.index.get()), rows = t.rows] {
            std::vector<effect> es;
            for (auto& r : rows) {
                env e { nullptr, &r, nullptr };
                if (w && !w->ev(e).is_true()) continue;
                effect f { "delete_", index, {}, {} };
                for (auto& [k, d] : keys) f.keys[d] = r[k];
                es.push_back(std::move(f));
            }
            return es;
        };
    }
    std::optional<ex> where(scope& s, int depth) {
        if (c.chance(1, 4)) return {};
        auto w = gen.expr(s, ty::flag, depth, {});
        sql += " WHERE " + w.sql; gen.used["where"]++;
        return w;
    }
};
static void run(pbt::source& c, pbt::context& ctx, int kind, int depth) {
    dml d { c, depth };
    if (kind == 0) d.insert(depth, c.weighted({ 1, 8, 8 })); else if (kind == 1) d.update(depth); else d.erase(depth);
    ctx.show(catalog_text(d.fx) + d.sql + (d.prefer ? "\n-- prefer_write_statement\n" : "\n"));
    auto opt = d.fx.options();
    opt.lowercase_regular_identifiers() = d.g.fold;
    opt.allow_context_independent_null() = d.g.allow_null;
    opt.validate_scalar_expressions() = c.flip();
    opt.prefer_small_integer_literals() = c.flip();
    opt.prefer_small_character_literals() = c.flip();
    opt.cast_literals_in_context() = c.flip();
    opt.prefer_write_statement() = d.prefer;
    session ss { d.sql };
    ctx.require(ss.unit != nullptr, "rejected by the parser", ss.error);
    auto r = ss.analyze(opt);
    if (!r.is_valid()) ctx.fail("valid statement is rejected", diagnostics(r));
    std::string fault;
    (void) plan::text(r, &fault);
    ctx.require(fault.empty(), "malformed plan", fault);
    if (d.statement) ctx.require((r.kind() == mana::sql_analyzer_result_kind::statement) == *d.statement, "unexpected kind of plan", "a write statement is " + std::string(*d.statement ? "" : "not ") + "expected");
    bool graph = r.kind() == mana::sql_analyzer_result_kind::execution_plan;
    machine m { d.fx.db };
    output out;
    try { out = run_plan(r, m); } catch (plan_error const& e) { ctx.fail("malformed plan", e.what); }
    ctx.require(out.is_write, "the plan does not write", "");
    auto expected = d.make();
    if (kind == 0 && graph) {
        // the keys which are given must be passed as keys
        for (auto& e : expected) for (auto& t : d.fx.tables) if (t->index.get() == e.target) for (auto k : t->pk) { auto p = t->cols[k].decl; if (auto it = e.columns.find(p); it != e.columns.end()) { e.keys.insert(*it); e.columns.erase(it); } }
    }
    auto got = out.effects;
    std::sort(got.begin(), got.end()); std::sort(expected.begin(), expected.end());
    ctx.require(got == expected, "different effects", "expected:\n" + show(expected) + "effects of the plan:\n" + show(got));
    for (auto& [k, n] : d.gen.used) ctx.label(k);
    for (auto& [k, n] : m.used()) ctx.label("plan: " + k);
    ctx.label(graph ? "execution plan" : "write statement");
    ctx.label(out.effects.empty() ? "no effects" : "effects");
    if (!out.effects.empty()) ctx.nontrivial(d.sql);
}
// statements which must be rejected, with the code and the location
static void reject(pbt::source& c, pbt::context& ctx) {
    dml d { c, 0 };
    auto& t = c.flip() ? d.keyed() : d.target();
    scope none;
    auto vs = generator::visible(t);
    std::string head, bad, tail; sql_analyzer_code code {}; std::string why;
    auto lit = [&](std::size_t i) { return d.gen.literal(t.cols[i].type).sql; };
    auto name = [&](std::size_t i) { return d.gen.id(t.cols[i].name); };
    std::vector<std::size_t> hid; for (std::size_t i = 0; i < t.cols.size(); ++i) if (t.cols[i].hidden || t.cols[i].synthesized) hid.push_back(i);
    auto unknown = [&] {
        if (!hid.empty() && !c.chance(1, 3)) { why += " (hidden column)"; return "\"" + t.cols[c.pick(hid)].name + "\""; }
        return std::string { "zz_none" };
    };
    auto tt = d.gen.table_text(t, none);
    auto any = vs[c.draw(static_cast<std::uint32_t>(vs.size()))];
    // some columns in any order, with the one which is to be written again
    auto others = [&] {
        std::vector<std::size_t> r;
        for (auto i : vs) if (i == any || c.chance(2, 3)) r.push_back(i);
        for (std::size_t i = r.size(); i > 1; --i) std::swap(r[i - 1], r[c.draw(static_cast<std::uint32_t>(i))]);
        return r;
    };
    switch (c.draw(9)) {
        case 0: why = "insert: unknown column"; head = "INSERT INTO " + tt + " ("; if (c.flip()) head += name(any) + ", "; bad = unknown(); tail = ") VALUES (1)"; code = sql_analyzer_code::column_not_found; break;
        case 1: {
            why = "insert: duplicate column"; head = "INSERT INTO " + tt + " (";
            for (auto i : others()) head += name(i) + ", ";
            bad = name(any); for (auto i : vs) if (c.chance(1, 3)) { tail += ", " + name(i); break; }
            tail += ") VALUES (1)"; code = sql_analyzer_code::column_already_exists; break;
        }
        case 2: {
            why = "insert: number of columns"; head = "INSERT INTO " + tt;
            std::size_t n = vs.size();
            if (c.flip()) { n = 1 + c.draw(static_cast<std::uint32_t>(vs.size())); head += " ("; for (std::size_t i = 0; i < n; ++i) head += (i ? ", " : "") + name(vs[i]); head += ")"; }
            head += " "; std::size_t k = c.flip() ? n + 1 + c.draw(2) : n - 1;
            if (k == 0) k = n + 1;
            bad = c.flip() ? "VALUES (" : "SELECT ";
            bool v = bad[0] == 'V';
            for (std::size_t i = 0; i < k; ++i) bad += (i ? ", " : "") + lit(i < vs.size() ? vs[i] : vs[0]);
            if (v) bad += ")";
            code = sql_analyzer_code::inconsistent_columns; break;
        }
        case 3: why = "unknown table"; head = c.pick(std::vector<std::string> { "INSERT INTO ", "UPDATE ", "DELETE FROM " }); bad = c.flip() ? "zz_none" : d.gen.id(t.schema) + "." + "zz_none"; tail = head[0] == 'I' ? " VALUES (1)" : head[0] == 'U' ? " SET a = 1" : ""; code = sql_analyzer_code::table_not_found; break;
        case 4: why = "update: unknown column"; head = "UPDATE " + tt + " SET "; if (c.flip()) head += name(any) + " = " + lit(any) + ", "; bad = unknown(); tail = " = 1"; code = sql_analyzer_code::column_not_found; break;
        case 5: why = "update: duplicate column"; head = "UPDATE " + tt + " SET "; for (auto i : others()) head += name(i) + " = " + lit(i) + ", "; bad = name(any); tail = " = " + lit(any); code = sql_analyzer_code::column_already_exists; break;
        case 6: why = "unknown column in WHERE"; head = (c.flip() ? "DELETE FROM " + tt : "UPDATE " + tt + " SET " + name(any) + " = " + lit(any)) + " WHERE "; bad = unknown(); tail = " IS NULL"; code = sql_analyzer_code::variable_not_found; break;
        case 7: why = "set function"; head = c.flip() ? "DELETE FROM " + tt + " WHERE " : "UPDATE " + tt + " SET " + name(any) + " = " + lit(any) + " WHERE "; bad = "count(*) > 0"; code = sql_analyzer_code::unsupported_feature; break;
        default: {
            std::size_t i = 0; bool found = false;
            for (auto k : vs) if (t.cols[k].type == ty::num) { i = k; found = true; }
            if (!found) throw pbt::discard {};
            why = "set function as a value"; 
            if (c.flip()) {
                head = "UPDATE " + tt + " SET ";
                for (auto k : vs) if (k != i && c.chance(1, 3)) head += name(k) + " = " + lit(k) + ", ";
                head += name(i) + " = ";
            } else head = "INSERT INTO " + tt + " (" + name(i) + ") VALUES (";
             bad = "count(*)"; tail = head[0] == 'I' ? ")" : ""; code = sql_analyzer_code::unsupported_feature; break;
        }
    }
    bool up = head[0] == 'U' || head[0] == 'D';
    bool no_keys = up && t.pk.empty() && why.find("WHERE") == std::string::npos && code != sql_analyzer_code::table_not_found && !(why == "set function");
    d.sql = head + bad + tail;
    ctx.show(catalog_text(d.fx) + d.sql + "\n-- " + why + "\n");
    auto opt = d.fx.options();
    opt.lowercase_regular_identifiers() = d.g.fold;
    opt.prefer_write_statement() = d.prefer;
    session ss { d.sql };
    ctx.require(ss.unit != nullptr, "rejected by the parser", ss.error);
    auto r = ss.analyze(opt);
    ctx.require(!r.is_valid(), "invalid statement is accepted", why);
    auto&& ds = r.element<mana::sql_analyzer_result_kind::diagnostics>();
    ctx.require(!ds.empty(), "rejected without a reason", "");
    if (no_keys) return;
    bool ok = false;
    for (auto&& x : ds) ok = ok || x.code() == code;
    ctx.require(ok, "different reason", "expected " + str(code) + ": " + diagnostics(r));
    for (auto&& x : ds) if (x.code() == code && why != "set function as a value") {
        auto l = x.location();
        std::string at = "region(begin=" + std::to_string(head.size()) + ", end=" + std::to_string(head.size() + bad.size()) + ")";
        ctx.label("located");
        auto loc = str(l);
        auto b = head.size(), e = head.size() + bad.size();
        (void) at;
        auto p = loc.find("begin=");
        ctx.require(p != std::string::npos, "no location", loc);
        auto lb = std::stoul(loc.substr(p + 6));
        ctx.require(lb >= b && lb < e, "the location is out of the wrong part", loc + ", the wrong part is " + at);
    }
    ctx.label(why); ctx.nontrivial(d.sql);
}
// UPDATE and DELETE of a table without keys cannot identify rows
static void no_key(pbt::source& c, pbt::context& ctx) {
    dml d { c, 0 };
    std::vector<mtable*> ok; for (auto& t : d.fx.tables) if (t->pk.empty()) ok.push_back(t.get());
    if (ok.empty()) throw pbt::discard {};
    auto& t = *c.pick(ok); scope none;
    auto vs = generator::visible(t);
    d.sql = c.flip() ? "DELETE FROM " + d.gen.table_text(t, none) : "UPDATE " + d.gen.table_text(t, none) + " SET " + d.gen.id(t.cols[vs[0]].name) + " = " + d.gen.literal(t.cols[vs[0]].type).sql;
    ctx.show(catalog_text(d.fx) + d.sql + "\n");
    auto opt = d.fx.options();
    opt.lowercase_regular_identifiers() = d.g.fold;
    session ss { d.sql };
    ctx.require(ss.unit != nullptr, "rejected by the parser", ss.error);
    auto r = ss.analyze(opt);
    ctx.require(!r.is_valid(), "a change of rows without keys is accepted", "");
    ctx.nontrivial(d.sql);
}
int main(int argc, char** argv) {
    pbt::suite s {
        "A03",
        "the statement has effects on rows (or is rejected for the expected reason); statements are told apart by their text",
        {
            { "insert", 16000, 400000, [](pbt::source& c, pbt::context& x) { run(c, x, 0, 1); } },
            { "insert-nested", 8000, 200000, [](pbt::source& c, pbt::context& x) { run(c, x, 0, 2); } },
            { "update", 16000, 400000, [](pbt::source& c, pbt::context& x) { run(c, x, 1, 2); } },
            { "delete", 12000, 300000, [](pbt::source& c, pbt::context& x) { run(c, x, 2, 2); } },
            { "reject", 12000, 200000, [](pbt::source& c, pbt::context& x) { reject(c, x); } },
            { "no-key", 300, 3000, [](pbt::source& c, pbt::context& x) { no_key(c, x); } },
        },
    };
    return pbt::run(s, argc, argv);
}
