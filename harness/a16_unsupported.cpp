// A16: constructs which the grammar accepts and the analyzer does not implement are reported where they are.
//
// A statement is made from a valid context, at any depth of which one such construct takes the place of a supported one.
// The statement must be rejected with `unsupported_feature` at the construct; the one with the supported one must not be.
#include "acat.h"
namespace {
using namespace ana;
using code = sql_analyzer_code;

// "{bad|good}": the construct, and what is supported there; no "good": the statement has no counterpart.
// "$": a numeric operand, "%": a query of one numeric column, "@": the inner text
struct made { std::string bad, good; std::size_t begin {}, end {}; bool control { true }; };

std::vector<std::string> const scalars {
    "{TRIM($)|$}", "{TRIM(LEADING $ FROM $)|$}", "{TRIM(TRAILING FROM $)|$}", "{TRIM(BOTH $ FROM $)|$}",
    "{ROW($, $)|$}", "{($, $)|($)}", "{ARRAY[$, $]|$}", "{$[$]|$}", "{$ -> b|$}", "{$ -> f($)|$}", "{DEREF($)|$}",
    "{typ::f($)|$}", "{NEW f($)|f($)}", "{$ AT TIME ZONE $|$}", "{$ AT LOCAL|$}", "{TREAT($ AS INT)|CAST($ AS INT)}", "{($ AS INT)|($)}",
    "{CONVERT($ USING cs)|$}", "{TRANSLATE($ USING cs)|$}", "{NEXT VALUE FOR sq|$}", "{TIME WITH TIME ZONE '00:00:00+00:00'|$}", "{INTERVAL '1'|1}", "{INTERVAL -'1'|1}",
    "CAST($ AS {typ|INT})", "CAST($ AS {ROW(x INT)|INT})", "CAST($ AS {INT ARRAY[3]|INT})", "CAST($ AS {INTERVAL|INT})", "$::{typ|INT}", "$::{INT[3]|INT}",
};
std::vector<std::string> const conditions {
    "{($, $) OVERLAPS ($, $)|$ = $}", "{UNIQUE (%)|EXISTS (%)}", "{$ <@ $|$ = $}", "{$ @> $|$ < $}", "{$ && $|$ <> $}",
    "{($, $) IN (($, $))|$ IN ($)}", "{($, $)|$} IN (%)", "{($, $)|$} = ANY (%)", "{ROW($, $)|$} < $", "$ >= {ROW($, $)|$}", "{ROW($)|($)} IS NULL", "$ BETWEEN $ AND {ARRAY[$]|$}", "$ IN ({VALUES ($), ($)|$, $})",
};
std::vector<std::string> const relations {
    "{t0 NATURAL JOIN t1|t0}", "{t0 NATURAL LEFT JOIN t1|t0}", "{t0 NATURAL RIGHT OUTER JOIN t1|t0}", "{t0 NATURAL FULL JOIN t1|t0}", "{t0 NATURAL INNER JOIN t1|t0}",
    "{t0 UNION JOIN t1|t0 CROSS JOIN t1}", "t0, {LATERAL (%) AS r|(%) AS r}", "t0 CROSS JOIN {LATERAL (%) AS r (z)|(%) AS r (z)}", "t1 LEFT JOIN {LATERAL (%) AS r|(%) AS r} ON TRUE",
    "t0, {UNNEST(ARRAY[1]) AS r|t1}", "t0 CROSS JOIN {UNNEST(t0.a) AS r|t1}", "{UNNEST(ARRAY[1]) WITH ORDINALITY AS r|t1}",
};
std::vector<std::string> const queries {
    "{SELECT a FROM t0 UNION CORRESPONDING SELECT a FROM t1|SELECT a FROM t0 UNION SELECT a FROM t1}", "{SELECT a FROM t0 UNION ALL CORRESPONDING BY (a) SELECT a FROM t1|SELECT a FROM t0}",
    "{SELECT a FROM t0 EXCEPT CORRESPONDING SELECT a FROM t1|SELECT a FROM t0}", "{SELECT a FROM t0 INTERSECT DISTINCT CORRESPONDING BY (a) SELECT a FROM t1|SELECT a FROM t0}",
    "{SELECT a FROM t0 OUTER UNION SELECT a FROM t1|SELECT a FROM t0 UNION SELECT a FROM t1}", "{SELECT a FROM t0 OUTER UNION ALL SELECT a FROM t1|SELECT a FROM t0 UNION ALL SELECT a FROM t1}",
    "{TABLE t2 OUTER UNION DISTINCT TABLE t2|TABLE t2}",
    "SELECT a FROM t0 ORDER BY {a NULLS FIRST|a}", "SELECT a FROM t0 ORDER BY d, {a DESC NULLS LAST|a DESC}", "SELECT a FROM t0 ORDER BY {a COLLATE co|a}, d", "SELECT a FROM t0 ORDER BY {a COLLATE co ASC|a ASC} LIMIT 1",
    "SELECT a FROM t0 GROUP BY {a COLLATE co|a}", "SELECT a FROM t0 GROUP BY d, {a COLLATE co|a}", "SELECT sum(a) FROM t0 GROUP BY {a COLLATE co|a}, d ORDER BY sum(a)",
    "SELECT {f(1)|t2}.* FROM t2", "SELECT {(a + 1)|t2}.* FROM t2",
};
std::vector<std::string> const recursive { "{WITH RECURSIVE w AS (%) SELECT a FROM t0|WITH w AS (%) SELECT a FROM t0}", "{WITH RECURSIVE w (x) AS (%), u AS (%) SELECT x FROM w|WITH w (x) AS (%), u AS (%) SELECT x FROM w}" };
std::vector<std::string> const statements {
    "{CREATE VIEW v AS %}", "{CREATE OR REPLACE VIEW v (x) AS %}", "{CREATE TEMPORARY RECURSIVE VIEW v AS %}", "{CREATE SCHEMA sc}", "{CREATE SCHEMA IF NOT EXISTS main}", "{CREATE SEQUENCE sq}", "{CREATE TEMPORARY SEQUENCE sq START WITH 1 CYCLE}",
    "{DROP VIEW v}", "{DROP SCHEMA main}", "{DROP SEQUENCE sq}", "{DROP SEQUENCE IF EXISTS sq}", "{DROP VIEW IF EXISTS v RESTRICT}",
    "DROP TABLE t0{ CASCADE|}", "DROP TABLE t0 {CASCADE|RESTRICT}", "DROP TABLE IF EXISTS t9 {CASCADE|RESTRICT}", "DROP INDEX i0 {CASCADE|RESTRICT}", "DROP INDEX IF EXISTS i9{ CASCADE|}",
    "CREATE{ TEMPORARY|} TABLE n (x INT)", "CREATE{ TEMPORARY|} TABLE IF NOT EXISTS n (x INT)", "CREATE TABLE {main.n|n} (x INT)", "CREATE TABLE n (x INT){ WITH (p = 1)|}", "CREATE TABLE n (x INT){ WITH (p, q = 1)|}",
    "CREATE TABLE n (x {typ|INT})", "CREATE TABLE n (y INT, x {ROW(p INT)|INT} NOT NULL)", "CREATE TABLE n (x {INT ARRAY[3]|INT})", "CREATE TABLE n (x {INTERVAL|DATE}, y INT)", "CREATE TABLE n (x {INT[*]|INT})",
    "CREATE TABLE n (x INT{ UNIQUE|})", "CREATE TABLE n (x INT NOT NULL{ UNIQUE|}, y INT)", "CREATE TABLE n (x INT{ CONSTRAINT co UNIQUE| CONSTRAINT co NOT NULL})", "CREATE TABLE n (x INT{ CHECK (TRUE)|})", "CREATE TABLE n (x INT{ REFERENCES t0 (a)|} NOT NULL)",
    "CREATE TABLE n (x INT{ REFERENCES t0 (a) ON DELETE CASCADE|} PRIMARY KEY)", "CREATE TABLE n (x INT{ GENERATED ALWAYS AS (1)|})", "CREATE TABLE n (x INT PRIMARY KEY{ INCLUDE (x)|})", "CREATE TABLE n (x INT PRIMARY KEY{ WITH (p = 1)|}, y INT)",
    "CREATE TABLE n (x INT{, UNIQUE (x)|})", "CREATE TABLE n (x INT, {CONSTRAINT co CHECK (TRUE)|y INT})", "CREATE TABLE n (x INT, y INT, {FOREIGN KEY (x) REFERENCES t0 (a)|PRIMARY KEY (x)})", "CREATE TABLE n (x INT, y INT, PRIMARY KEY (x){ INCLUDE (y)|})",
    "CREATE TABLE n ({UNIQUE (x)|PRIMARY KEY (x)}, x INT)", "CREATE TABLE n (x INT, PRIMARY KEY (x){ WITH (p = 1)|})", "CREATE TABLE n (x INT, PRIMARY KEY ({x NULLS FIRST|x}))", "CREATE TABLE n (x INT, y INT, PRIMARY KEY (y, {x COLLATE co|x}))", "CREATE TABLE n (x INT, PRIMARY KEY ({x + 1|x}))",
    "CREATE TABLE n (x INT DEFAULT {1 + 1|1})", "CREATE TABLE n (x INT DEFAULT {(%)|2} NOT NULL)", "CREATE TABLE n (x INT DEFAULT {CASE WHEN TRUE THEN 1 END|1})", "CREATE TABLE n (y INT, x BIGINT DEFAULT {f(1)|1})", "CREATE TABLE n (x BIGINT DEFAULT {sum(1)|g()})",
    "CREATE{ UNIQUE|} INDEX n ON t0 (a)", "CREATE INDEX {main.n|n} ON t0 (a)", "CREATE INDEX n ON t0 ({a NULLS FIRST|a})", "CREATE INDEX n ON t0 (d DESC, {a ASC NULLS LAST|a ASC})", "CREATE INDEX n ON t0 ({a COLLATE co|a})", "CREATE INDEX n ON t0 ({a + 1|a})", "CREATE INDEX n ON t0 (d, {f(a)|a})",
    "CREATE INDEX n ON t0 (a){ INCLUDE (d)|}", "CREATE INDEX n ON t0 (a){ WHERE a > 1|}", "CREATE INDEX n ON t0 (a){ WITH (p = 1)|}", "CREATE INDEX n ON t0 (a DESC){ INCLUDE (d, a) WHERE a = 1|}",
    "ALTER INDEX {t0 RENAME TO z|i0 RENAME TO z}", "UPDATE t0 SET {t0.a|a} = 1", "UPDATE t0 SET d = 2, {t0.a|a} = $ WHERE TRUE", "DELETE FROM t0 WHERE {CURRENT OF cu|TRUE}", "UPDATE t0 SET a = 1 WHERE {CURRENT OF cu|a = 2}",
};

struct writer {
    pbt::source& c;
    bool columns { true };       // whether columns of t0 are visible
    std::string chosen {};
    std::string fragment(std::vector<std::string> const& of) { chosen = c.pick(of); return fill(chosen); }
    std::string query() {
        static std::vector<std::string> const qs { "SELECT a FROM t0", "SELECT 1 AS a", "SELECT max(a) FROM t1", "SELECT * FROM (VALUES (1)) AS v", "TABLE t2", "SELECT d FROM t1 WHERE d > 1" };
        return c.pick(qs);
    }
    std::string operand() {
        switch (c.draw(columns ? 6 : 3)) {
            case 0: return "1"; case 1: return "(2 * 3)"; case 2: return "f(4)"; case 3: return "a"; case 4: return "t0.d"; default: return "(a + 1)";
        }
    }
    // what stands for "$" and "%" is the same in both texts as far as possible
    std::string fill(std::string const& t) {
        std::string r;
        for (auto ch : t) r += ch == '$' ? operand() : ch == '%' ? query() : std::string { ch };
        return r;
    }
    static std::string put(std::string const& outer, std::string const& inner) {
        auto i = outer.find('@');
        return outer.substr(0, i) + inner + outer.substr(i + 1);
    }
    std::string scalar(int d) {
        if (d <= 0 || c.chance(1, 4)) return fragment(scalars);
        static std::vector<std::string> const w {
            "$ + (@)", "(@) * $", "-(@)", "f(@)", "COALESCE(@, $)", "COALESCE($, @)", "NULLIF(@, $)", "CASE WHEN TRUE THEN @ ELSE $ END", "CASE WHEN TRUE THEN $ ELSE @ END", "CASE @ WHEN $ THEN $ END", "CASE $ WHEN @ THEN $ END",
            "CAST(@ AS BIGINT)", "ABS(@)", "($ || '') || CAST((@) AS VARCHAR)", "(SELECT @ FROM t0)", "(SELECT max(@) FROM t0)", "MOD($, @)",
        };
        static std::vector<std::string> const cw { "CASE WHEN # THEN $ END", "CASE WHEN FALSE THEN $ WHEN # THEN 1 ELSE $ END", "(SELECT a FROM t0 WHERE #)" };
        if (c.chance(1, 4)) return condition_in(c.pick(cw), d - 1);
        auto o = c.pick(w);
        return value_in(o, d - 1);
    }
    // columns are visible in a nested query over t0
    std::string value_in(std::string o, int d) {
        auto old = columns;
        auto pre = o.find("FROM t0") != std::string::npos;
        o = fill(o);
        if (pre) columns = true;
        auto r = put(o, scalar(d));
        columns = old;
        return r;
    }
    std::string condition_in(std::string o, int d) {
        auto old = columns;
        auto pre = o.find("FROM t0") != std::string::npos;
        o = fill(o);
        if (pre) columns = true;
        auto i = o.find('#');
        auto r = o.substr(0, i) + condition(d) + o.substr(i + 1);
        columns = old;
        return r;
    }
    std::string condition(int d) {
        if (d <= 0 || c.chance(1, 4)) return "(" + fragment(conditions) + ")";
        static std::vector<std::string> const w { "(@) IS NULL", "$ = (@)", "(@) < $", "(@) IN ($)", "$ NOT IN ($, @)", "$ BETWEEN (@) AND $", "(@) > ALL (%)", "(@) IN (%)", "EXISTS (SELECT @ FROM t0)", "$ = ANY (SELECT @ FROM t0)" };
        static std::vector<std::string> const cw { "NOT #", "# AND TRUE", "FALSE OR #", "(#) IS UNKNOWN", "EXISTS (SELECT * FROM t0 WHERE #)" };
        if (c.chance(2, 5)) return "(" + condition_in(c.pick(cw), d - 1) + ")";
        return "(" + value_in(c.pick(w), d - 1) + ")";
    }
    // a query of one numeric column
    std::string any_query(int d) {
        auto old = columns;
        std::string r;
        switch (c.draw(d <= 0 ? 2 : 6)) {
            case 0: r = fragment(queries); break;
            case 1: { static std::vector<std::string> const w { "SELECT a FROM @", "SELECT * FROM (SELECT 1 AS x FROM @) AS q", "SELECT 1 FROM t1 AS z, @", "SELECT max(d) FROM t2, (SELECT 1 AS d FROM @) AS q" };
                r = c.pick(w); auto f = fragment(relations);
                if (r == "SELECT a FROM @") r = "SELECT 7 FROM @";
                r = put(r, f); break; }
            case 2: { static std::vector<std::string> const w { "SELECT @ FROM t0", "SELECT @ AS x FROM t0 WHERE a = 1", "SELECT a FROM t0 ORDER BY (@) + 1", "SELECT sum(@) FROM t0", "SELECT d FROM t0 GROUP BY d HAVING count(@) > 1", "SELECT t0.a FROM t0 CROSS APPLY tf(@) AS r", "SELECT DISTINCT @ FROM t0" };
                columns = true; r = put(c.pick(w), scalar(d - 1)); break; }
            case 3: { static std::vector<std::string> const w { "SELECT a FROM t0 WHERE #", "SELECT t0.a FROM t0 JOIN t2 AS z ON #", "SELECT t0.a FROM t0 LEFT JOIN t2 AS z ON TRUE AND #", "SELECT a FROM t0 WHERE # GROUP BY a" };
                r = condition_in(c.pick(w), d - 1); break; }
            case 4: { static std::vector<std::string> const w { "VALUES (@)", "VALUES (1), (@)", "SELECT @" };
                columns = false; r = put(c.pick(w), scalar(d - 1)); break; }
            default: { static std::vector<std::string> const w { "SELECT * FROM (@) AS q", "SELECT x FROM (@) AS q (x)", "SELECT 1 FROM t0 AS z WHERE EXISTS (@)", "SELECT 1 FROM t0 AS z WHERE 1 IN (@)", "SELECT (@) FROM t0 AS z", "(@) UNION ALL SELECT 1", "SELECT 1 EXCEPT (@)", "SELECT a FROM t0 INTERSECT ALL (@)", "SELECT z.a FROM t0 AS z LEFT JOIN (@) AS q ON TRUE" };
                columns = false; auto in = any_query(d - 1); auto o = c.pick(w);
                if (o.find(" IN (") != std::string::npos && in.compare(0, 6, "VALUES") == 0) in = "SELECT * FROM (" + in + ") AS v"; // a list of rows
                r = put(o, in); }
        }
        columns = old;
        return r;
    }
    std::string statement() {
        int d = c.range(0, 4);
        switch (c.weighted({ 5, 8, 2, 2, 2, 2, 1 })) {
            case 0: columns = false; return fragment(statements);
            case 1: return any_query(d);
            case 2: { static std::vector<std::string> const w { "INSERT INTO t0 (a) @", "WITH w AS (@) SELECT 1 FROM t2", "WITH w (x) AS (@) SELECT x FROM w", "WITH u AS (SELECT 1), w AS (@) SELECT * FROM u", "INSERT OR REPLACE INTO t0 (d) @" };
                return put(c.pick(w), any_query(d)); }
            case 3: { static std::vector<std::string> const w { "UPDATE t0 SET a = @", "UPDATE t0 SET d = 1, a = (@) WHERE d = 2", "UPDATE t0 SET a = 1 WHERE (@) IS NULL" }; return value_in(c.pick(w), d); }
            case 4: { static std::vector<std::string> const w { "DELETE FROM t0 WHERE #", "DELETE FROM t0 WHERE a = 1 AND #", "UPDATE t0 SET a = 1 WHERE #" }; return condition_in(c.pick(w), d); }
            case 5: { static std::vector<std::string> const w { "INSERT INTO t0 (a) VALUES (@)", "INSERT INTO t0 (a, d) VALUES (1, @)", "INSERT INTO t0 (a) VALUES (1), (@), (2)", "INSERT OR IGNORE INTO t0 (a) VALUES (@)" }; columns = false; return put(c.pick(w), scalar(d)); }
            default: { static std::vector<std::string> const w { "@", "SELECT * FROM (@) AS q", "SELECT 1 FROM t0 WHERE EXISTS (@)", "SELECT (@) FROM t0 AS z" }; return put(c.pick(w), fragment(recursive)); }
        }
    }
};
made split(std::string const& t) {
    made m;
    auto b = t.find('{'), e = t.find('}', b);
    auto inner = t.substr(b + 1, e - b - 1);
    // the bar which is not of "||"
    auto bar = std::string::npos;
    for (std::size_t i = 0; i < inner.size(); ++i) if (inner[i] == '|') { if (i + 1 < inner.size() && inner[i + 1] == '|') { ++i; continue; } bar = i; break; }
    m.control = bar != std::string::npos;
    auto bad = inner.substr(0, bar);
    m.bad = t.substr(0, b) + bad + t.substr(e + 1);
    m.begin = b; m.end = b + bad.size();
    if (m.control) m.good = t.substr(0, b) + inner.substr(bar + 1) + t.substr(e + 1);
    return m;
}
void unsupported(pbt::source& c, pbt::context& ctx) {
    acat::setting s;
    auto& fx = s.fx;
    fx.add_schema("main");
    auto table = [&](std::string name, std::vector<std::string> cols) { mtable t; t.schema = "main"; t.name = std::move(name); for (auto& n : cols) t.cols.push_back({ n, ty::num }); t.pk = { 0 }; fx.add_table(std::move(t)); };
    table("t0", { "a", "d" }); table("t1", { "a", "d" }); table("t2", { "x" });
    {
        auto& t = *fx.tables[0];
        std::vector<ystor::index::key> keys; keys.emplace_back(t.decl->columns()[1]);
        fx.schema("main").storages->add_index(std::make_shared<ystor::index>(std::nullopt, t.decl, "i0", std::move(keys), std::vector<ystor::index::column_ref> {}, ystor::index_feature_set { ystor::index_feature::find, ystor::index_feature::scan }));
    }
    fx.add_function({ "main", "f", { ty::num }, ty::num, {} });
    fx.add_function({ "main", "g", {}, ty::num, {} });
    fx.add_function({ "main", "abs", { ty::num }, ty::num, {} });
    fx.add_function({ "main", "mod", { ty::num, ty::num }, ty::num, {} });
    fx.add_function({ "main", "tf", { ty::num }, {}, { { "p", ty::num } } });
    fx.standard_aggregates("main");
    auto o = fx.options();
    acat::options(c, o);
    o.max_decimal_precision() = 38; o.default_decimal_precision() = 38;
    o.validate_scalar_expressions() = false;
    writer w { c };
    auto m = split(w.statement());
    if (c.chance(1, 5)) { // the construct is the same in the other case
        auto lower = [](std::string& t) { for (auto& ch : t) ch = static_cast<char>(std::tolower(static_cast<unsigned char>(ch))); };
        lower(m.bad); lower(m.good);
    }
    ctx.show(m.bad + "\n" + m.good);
    session ss { m.bad };
    ctx.require(ss.unit != nullptr, "not a statement", [&] { return ss.error; });
    auto r = ss.analyze(o);
    auto at = m.bad.substr(m.begin, m.end - m.begin);
    ctx.require(!r.is_valid(), "an unsupported construct was accepted", [&] { return at; });
    auto ds = r.release<mana::sql_analyzer_result_kind::diagnostics>();
    ctx.require(!ds.empty(), "no diagnostics", "rejected without diagnostics");
    auto& d = *ds.begin();
    auto text = [&] { return str(d.code()) + ": " + d.message().substr(0, 80) + " at " + std::to_string(d.location().begin()) + ".." + std::to_string(d.location().end()) + ", not [" + std::to_string(m.begin) + ", " + std::to_string(m.end) + ") " + at; };
    ctx.require(d.code() == code::unsupported_feature, "an unsupported construct was reported as something else", text);
    ctx.require(d.location().begin() >= m.begin && d.location().end() <= m.end && d.location().begin() < d.location().end(), "an unsupported construct was reported elsewhere", text);
    ctx.nontrivial(m.bad);
    ctx.label(w.chosen);
    if (!m.control) return;
    session sg { m.good };
    ctx.require(sg.unit != nullptr, "the counterpart is not a statement", [&] { return sg.error; });
    auto rg = sg.analyze(o);
    ctx.require(rg.is_valid(), "the counterpart, which is supported, was rejected", [&] { return diagnostics(rg); });
}
}
int main(int argc, char** argv) {
    pbt::suite s { "A16", "a construct which the grammar accepts and the analyzer does not implement, within a valid statement, is reported as unsupported at its place, and the statement with a supported one there is accepted", { { "unsupported", 120000, 3000000, unsupported } } };
    return pbt::run(s, argc, argv);
}
