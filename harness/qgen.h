// Generates catalogs, and queries over them as SQL text together with what they mean: every piece of the text carries
// a function which computes its value from the rows of the tables, following the definition of SQL and not the plan.
#pragma once
#include "ana.h"

namespace qg {
using namespace ana;

struct env { env const* outer {}; row const* cur {}; std::vector<row> const* group {}; };
using evf = std::function<val(env const&)>;
using rowsf = std::function<std::vector<row>(env const*)>;
struct ex {
    std::string sql; ty type {}; evf ev; bool atom {}; bool literal {};
    std::optional<std::string> name {}; std::optional<std::size_t> at {}; // of a reference to a variable; the position if it is a column of this query
};

struct qcol { std::string name; ty type {}; };
// a query: rows is its result as a bag; ordered is the same with the values of the ORDER BY keys, if it has
struct q {
    std::string sql; std::vector<qcol> cols; rowsf rows;
    std::function<std::vector<std::pair<row, row>>(env const*)> ordered;
    std::vector<bool> desc; std::size_t limit { std::size_t(-1) };
    bool bare { true }; // can be an operand without parentheses
};

struct col { std::string name; ty type {}; bool exported { true }; std::size_t at {}; };
struct rel { std::string name, schema; std::vector<col> cols; };
struct scope {
    scope const* parent {}; bool usable { true }, barrier {};
    std::vector<rel> rels; std::size_t width {};
    bool restricted {}; std::set<std::size_t> keys; // of GROUP BY
    std::size_t first {};                           // relations before this are not to be used
    bool merged {};                                 // has USING
    std::map<std::string, q> ctes;
    // the names which are in use by relations and columns, so that a generated query can avoid or provoke collisions
};

struct mode { bool agg {}, in_agg {}, no_sub {}; };

struct gen_options {
    bool fold { true }; bool allow_null {}; int max_depth { 3 };
    bool roles {}; // names of relations are never names of columns
    bool outer_using {}; // USING in RIGHT and FULL OUTER JOIN, whose columns are those of the side which has a row
    std::shared_ptr<bool> left_using { std::make_shared<bool>(false) }; // or always those of the left side
};

inline bool plain_name(std::string const& s) {
    static std::set<std::string> const words { "a", "b", "c1", "d", "k1", "v1", "x", "y", "t0", "t1", "u0", "w0", "p1", "r0", "r1", "r2", "s0", "s1", "main",
        "f1", "f2", "f3", "tf1", "tf2", "tf3", "v0", "n1", "cte0", "cte1" , "o0", "o1", "tsurugi" };
    return words.count(s) != 0;
}

class generator {
public:
    pbt::source& c; fixture& fx; gen_options o; std::map<std::string, int> used;
    generator(pbt::source& s, fixture& f, gen_options opt) : c { s }, fx { f }, o { opt } {}
    int budget { 60 };

    // ---- names ------------------------------------------------------------------------------------------------
    std::string id(std::string const& n) {
        if (plain_name(n) && !c.chance(1, 5)) {
            std::string r = n;
            if (o.fold && c.chance(1, 3)) for (auto& x : r) if (c.flip()) x = static_cast<char>(std::toupper(x));
            return r;
        }
        std::string r = "\"";
        for (char x : n) { r += x; if (x == '"') r += x; }
        return r + "\"";
    }
    std::string column_name() { static std::vector<std::string> const p { "a", "b", "c1", "d", "k1", "x", "A", "x y" }; return c.pick(p); }
    std::string relation_name() { if (o.roles) return c.pick(std::vector<std::string> { "r0", "r1", "r2", "t0", "t1", "R0" }); static std::vector<std::string> const p { "r0", "r1", "r2", "t0", "t1", "a", "R0" }; return c.pick(p); }

    // ---- catalogs ---------------------------------------------------------------------------------------------
    static val small(pbt::source& c, ty t) {
        if (c.chance(1, 5)) return {};
        switch (t) {
            case ty::num: return val::of(std::int64_t { c.range(-1, 3) });
            case ty::text: return val::of(std::string { c.pick(std::vector<std::string> { "", "a", "b", "ab" }) });
            default: return val::of(c.flip());
        }
    }
    // a small number, and very rarely a large one
    int few(int lo, int hi) { if (budget > 0 && c.chance(1, 60)) { used["long list"]++; return hi + c.range(1, 24); } return c.range(lo, hi); }
    static ty any_type(pbt::source& c) { return static_cast<ty>(c.weighted({ 5, 3, 2 })); }
    void catalog(bool system_columns = true) {
        int ns = 1 + c.weighted({ 3, 2, 1 });
        std::vector<std::string> names { "main", "s0", "s1" };
        for (int i = 0; i < ns; ++i) fx.add_schema(names[i]);
        if (ns > 1) { fx.path.clear(); for (int i = 0; i < ns; ++i) if (i == 0 || c.flip()) fx.path.push_back(i); if (c.flip()) std::reverse(fx.path.begin(), fx.path.end()); }
        int nt = 1 + c.range(1, 3);
        static std::vector<std::string> const tn { "t0", "t1", "u0", "w0", "T0", "a" };
        std::set<std::pair<std::string, std::string>> seen;
        for (int i = 0; i < nt; ++i) {
            mtable t;
            t.schema = names[c.draw(ns)]; t.name = i < 2 ? tn[i] : c.pick(tn);
            if (o.roles && t.name == "a") t.name = "u0";
            if (!seen.emplace(t.schema, t.name).second) continue;
            int nc = c.chance(1, 120) ? c.range(5, 32) : 1 + c.weighted({ 2, 4, 3, 2 });
            std::set<std::string> cn;
            for (int j = 0; j < nc; ++j) {
                mcol m; m.name = j > 3 ? "z" + std::to_string(j) : column_name(); m.type = any_type(c);
                if (!cn.insert(m.name).second) continue;
                if (system_columns && j + 1 < nc && c.chance(1, 12)) m.hidden = true;
                else if (system_columns && j + 1 < nc && c.chance(1, 15)) m.synthesized = true;
                t.cols.push_back(std::move(m));
            }
            if (!exposed(t)) t.cols.back().hidden = t.cols.back().synthesized = false;
            for (std::size_t j = 0; j < t.cols.size(); ++j) if (c.chance(1, 3)) t.pk.push_back(j);
            for (int n = c.range(0, 4); n > 0; --n) { row r; for (auto& m : t.cols) r.push_back(small(c, m.type)); t.rows.push_back(std::move(r)); }
            fx.add_table(std::move(t));
        }
        auto& s = names[fx.path[0]];
        fx.add_function({ s, "f1", { ty::num }, ty::num, {} });
        fx.add_function({ s, "f1", { ty::text }, ty::text, {} });
        fx.add_function({ s, "f1", { ty::num, ty::num }, ty::num, {} });
        fx.add_function({ s, "f2", { ty::text, ty::num }, ty::flag, {} });
        fx.add_function({ s, "f2", {}, ty::num, {} });
        fx.add_function({ s, "f3", { ty::flag }, ty::text, {} });
        fx.add_function({ s, "tf1", { ty::num }, {}, { { "p1", ty::num }, { "a", ty::text } } });
        fx.add_function({ s, "tf1", { ty::text }, {}, { { "p1", ty::text } } });
        fx.add_function({ s, "tf2", {}, {}, { { "b", ty::num }, { "k1", ty::flag }, { "x", ty::text } } });
        fx.standard_aggregates(s);
        fx.add_variable(s, "v0", ty::num, small(c, ty::num));
    }
    static bool exposed(mtable const& t) { for (auto& m : t.cols) if (!m.hidden && !m.synthesized) return true; return false; }

    // ---- columns in the scope ---------------------------------------------------------------------------------
    struct cand { int depth {}; std::size_t at {}; ty type {}; std::string name; std::vector<std::string> forms; };
    std::vector<cand> columns(scope const& s, mode m) {
        std::vector<cand> r;
        std::set<std::string> near_cols, near_rels;
        int depth = 0;
        for (scope const* sc = &s; sc; sc = sc->parent) {
            std::map<std::string, int> cn, rn;
            for (auto& x : sc->rels) { rn[x.name]++; for (auto& y : x.cols) if (y.exported) cn[y.name]++; }
            if (sc->usable && !(m.in_agg && depth > 0)) {
                for (std::size_t i = sc->first; i < sc->rels.size(); ++i) {
                    auto& x = sc->rels[i];
                    for (auto& y : x.cols) {
                        if (!y.exported || y.name.empty()) continue;
                        if (sc->restricted && !(depth == 0 && m.in_agg) && !sc->keys.count(y.at)) continue;
                        cand k { depth, y.at, y.type, y.name, {} };
                        if (cn[y.name] == 1 && !near_cols.count(y.name)) k.forms.push_back("u");
                        int same = 0;
                        for (auto& z : x.cols) same += z.exported && z.name == y.name;
                        if (!x.name.empty() && rn[x.name] == 1 && !near_rels.count(x.name) && same == 1) k.forms.push_back("q");
                        if (depth == 0 && !x.schema.empty() && same == 1) {
                            int n = 0;
                            for (auto& z : sc->rels) n += z.schema == x.schema && z.name == x.name;
                            if (n == 1) k.forms.push_back("s");
                        }
                        if (k.forms.empty()) continue;
                        r.push_back(std::move(k));
                    }
                }
            }
            for (auto& [n, k] : cn) near_cols.insert(n);
            for (auto& [n, k] : rn) near_rels.insert(n);
            if (sc->barrier) break;
            if (sc->usable) ++depth;
        }
        return r;
    }
    static ex column_ex(cand const& k) {
        int d = k.depth; auto at = k.at;
        return { k.forms[0], k.type, [d, at](env const& e) { env const* p = &e; for (int i = 0; i < d; ++i) p = p->outer; return (*p->cur)[at]; }, true, false,
            k.name, d == 0 ? std::optional<std::size_t> { at } : std::nullopt };
    }
    std::optional<ex> column(scope const& s, ty t, mode m) {
        auto state = columns(s, m);
        std::vector<std::size_t> ok;
        for (std::size_t i = 0; i < state.size(); ++i) if (state[i].type == t) ok.push_back(i);
        if (ok.empty()) return {};
        auto& k = state[ok[c.draw(static_cast<std::uint32_t>(ok.size()))]];
        render(s, k);
        if (k.depth > 0) used["outer reference"]++;
        return column_ex(k);
    }
    void render(scope const& s, cand& k) {
        scope const* sc = &s;
        for (int d = 0;; sc = sc->parent) { if (sc->usable) { if (d == k.depth) break; ++d; } }
        for (auto& x : sc->rels) for (auto& y : x.cols) if (y.at == k.at && y.exported) {
            auto f = k.forms[c.draw(static_cast<std::uint32_t>(k.forms.size()))];
            auto n = id(y.name);
            if (f == "q") n = id(x.name) + "." + n;
            if (f == "s") n = (c.chance(1, 4) ? id(fx.catalog_name) + "." : "") + id(x.schema) + "." + id(x.name) + "." + n;
            k.forms = { n };
            return;
        }
    }

    // ---- expressions ------------------------------------------------------------------------------------------
    static std::string wrap(ex const& e) { return e.atom ? e.sql : "(" + e.sql + ")"; }
    std::string par(ex const& e) { return e.atom && !c.chance(1, 10) ? e.sql : "(" + e.sql + ")"; }
    static std::string quote(std::string const& s) { std::string r = "'"; for (char x : s) { r += x; if (x == '\'') r += x; } return r + "'"; }
    static std::string printed(std::string const& t) { return t; }

    ex literal(ty t) {
        switch (t) {
            case ty::num: { auto n = std::int64_t { c.range(0, 4) }; return { std::to_string(n), t, [n](env const&) { return val::of(n); }, true, true }; }
            case ty::text: { std::string s = c.pick(std::vector<std::string> { "", "a", "b", "ab", "%" }); return { quote(s), t, [s](env const&) { return val::of(s); }, true, true }; }
            default: { bool b = c.flip(); return { b ? "TRUE" : "FALSE", t, [b](env const&) { return val::of(b); }, true, true }; }
        }
    }
    ex null(ty t) { used["null literal"]++; return { "NULL", t, [](env const&) { return val {}; }, true, true }; }
    // an operand which may be NULL
    ex maybe_null(scope& s, ty t, int d, mode m) { if (o.allow_null && c.chance(1, 8)) return null(t); return expr(s, t, d, m); }

    ex expr(scope& s, ty t, int d, mode m) {
        if (--budget < 0) d = 0;
        if (d <= 0 || c.chance(1, 4)) {
            if (!c.chance(1, 4)) if (auto x = column(s, t, m)) return *x;
            return literal(t);
        }
        switch (t) {
            case ty::num: return num(s, d - 1, m);
            case ty::text: return text(s, d - 1, m);
            default: return flag(s, d - 1, m);
        }
    }
    ex num(scope& s, int d, mode m) {
        switch (c.weighted({ 5, 2, 6, m.agg && !m.in_agg ? 6 : 0, 1 })) {
            case 0: {
                char op = c.pick(std::vector<char> { '+', '-', '*', '/', '%' });
                auto a = expr(s, ty::num, d, m), b = expr(s, ty::num, d, m);
                return { par(a) + " " + op + " " + par(b), ty::num, [=](env const& e) { return sem::arith(op, a.ev(e), b.ev(e)); } };
            }
            case 1: {
                auto a = expr(s, ty::num, d, m);
                bool neg = !c.chance(1, 3);
                return { std::string { neg ? "- " : "+ " } + wrap_signed(a), ty::num, [=](env const& e) { return neg ? sem::neg(a.ev(e)) : a.ev(e); }, false, a.literal };
            }
            case 2: return common(s, ty::num, d, m);
            case 3: return aggregate(s, ty::num, d);
            default:
                for (scope const* p = &s; p; p = p->parent) for (auto& x : p->rels) for (auto& y : x.cols) if (y.name == "v0") return literal(ty::num); // hidden
                used["schema variable"]++; return { id("v0"), ty::num, [this_fx = &fx](env const&) { return this_fx->db.externals.begin()->second; }, true, false, "v0" };
        }
    }
    std::string wrap_signed(ex const& a) { return wrap(a); }
    ex text(scope& s, int d, mode m) {
        switch (c.weighted({ 3, 4, m.agg && !m.in_agg ? 4 : 0 })) {
            case 0: {
                auto a = expr(s, ty::text, d, m), b = expr(s, ty::text, d, m);
                return { par(a) + " || " + par(b), ty::text, [=](env const& e) { return sem::concat(a.ev(e), b.ev(e)); } };
            }
            case 1: return common(s, ty::text, d, m);
            default: return aggregate(s, ty::text, d);
        }
    }
    ex aggregate(scope& s, ty t, int d) {
        mode in; in.in_agg = true; in.no_sub = !c.chance(1, 6);
        used["aggregate"]++;
        std::string name = t == ty::text ? (c.flip() ? "min" : "max") : c.pick(std::vector<std::string> { "count", "sum", "min", "max", "count" });
        if (name == "count" && c.chance(1, 3)) {
            return { func(name) + "(*)", ty::num, [](env const& e) { return sem::aggregate("count", "number", std::vector<row>(e.group->size())); }, true };
        }
        ty at = name == "count" ? any_type(c) : t;
        auto a = expr(s, at, d, in);
        int qf = c.weighted({ 4, 2, 1 });
        std::string full = name + (qf == 1 ? "$distinct" : "");
        auto w = what(t);
        if (qf == 1) used["aggregate distinct"]++;
        return { func(name) + "(" + (qf == 1 ? "DISTINCT " : qf == 2 ? "ALL " : "") + a.sql + ")", t, [=](env const& e) {
            std::vector<row> args;
            for (auto& r : *e.group) { env x { e.outer, &r, nullptr }; args.push_back({ a.ev(x) }); }
            return sem::aggregate(full, w, std::move(args));
        }, true };
    }
    std::string func(std::string const& n) { std::string r = n; if (o.fold && c.chance(1, 3)) for (auto& x : r) if (c.flip()) x = static_cast<char>(std::toupper(x)); return r; }
    std::string func_id(std::string const& n) { return (c.chance(1, 5) ? id(fx.schemas[fx.path[0]]->name) + "." : "") + id(n); }
    static std::string printed_type(int which, int n) {
        switch (which) {
            case 0: return str(ttype::int8 {});
            case 1: return str(ttype::int4 {});
            case 2: return str(ttype::boolean {});
            case 3: return str(ttype::character { ttype::varying });
            default: return str(ttype::character { ttype::varying_t { true }, static_cast<std::size_t>(n) });
        }
    }
    // forms which are available for every type
    ex common(scope& s, ty t, int d, mode m) {
        switch (c.weighted({ 3, 2, 2, 2, t == ty::flag ? 0 : 2, 3, m.no_sub ? 0 : 4 })) {
            case 0: { // CASE WHEN
                struct br { ex w, v; };
                std::vector<br> bs; std::string sql = "CASE";
                for (int n = few(1, 2); n > 0; --n) {
                    auto w = expr(s, ty::flag, d, m); auto v = maybe_null(s, t, d, m);
                    if (bs.empty() && v.literal && v.sql == "NULL") v = expr(s, t, d, m);
                    sql += " WHEN " + w.sql + " THEN " + v.sql; bs.push_back({ w, v });
                }
                std::optional<ex> el;
                if (c.flip()) { el = maybe_null(s, t, d, m); sql += " ELSE " + el->sql; }
                used["case"]++;
                return { sql + " END", t, [=](env const& e) { for (auto& b : bs) if (b.w.ev(e).is_true()) return b.v.ev(e); return el ? el->ev(e) : val {}; }, true };
            }
            case 1: { // CASE x WHEN
                ty xt = c.flip() ? ty::num : ty::text;
                auto x = expr(s, xt, d, m);
                struct br { std::vector<ex> w; ex v; };
                std::vector<br> bs; std::string sql = "CASE " + x.sql;
                for (int n = few(1, 2); n > 0; --n) {
                    br b { {}, expr(s, t, d, m) };
                    sql += " WHEN ";
                    auto w = expr(s, xt, d, m); b.w.push_back(w);
                    sql += wrap(w);
                    sql += " THEN " + b.v.sql; bs.push_back(b);
                }
                std::optional<ex> el;
                if (c.flip()) { el = maybe_null(s, t, d, m); sql += " ELSE " + el->sql; }
                used["simple case"]++;
                return { sql + " END", t, [=](env const& e) {
                    auto v = x.ev(e);
                    for (auto& b : bs) for (auto& w : b.w) if (sem::compare(sem::cmp::eq, v, w.ev(e)).is_true()) return b.v.ev(e);
                    return el ? el->ev(e) : val {}; }, true };
            }
            case 2: {
                std::vector<ex> as; std::string sql = "COALESCE(";
                for (int n = few(2, 3); n > 0; --n) { as.push_back(as.empty() ? expr(s, t, d, m) : maybe_null(s, t, d, m)); sql += (as.size() > 1 ? ", " : "") + as.back().sql; }
                used["coalesce"]++;
                return { sql + ")", t, [=](env const& e) { for (auto& a : as) { auto v = a.ev(e); if (!v.is_null()) return v; } return val {}; }, true };
            }
            case 3: {
                auto a = expr(s, t, d, m), b = expr(s, t, d, m);
                used["nullif"]++;
                return { "NULLIF(" + a.sql + ", " + b.sql + ")", t, [=](env const& e) { auto x = a.ev(e); return sem::compare(sem::cmp::eq, x, b.ev(e)).is_true() ? val {} : x; }, true };
            }
            case 4: {
                ty st = t == ty::num ? (c.flip() ? ty::num : ty::text) : c.pick(std::vector<ty> { ty::text, ty::num, ty::flag });
                if (t == ty::num && c.chance(1, 4)) st = ty::flag;
                auto a = expr(s, st, d, m);
                int w = t == ty::num ? c.range(0, 1) : c.range(3, 4), n = c.range(1, 3);
                static char const* const names[] { "BIGINT", "INT", "BOOLEAN", "VARCHAR(*)" };
                std::string tn = w < 4 ? names[w] : "VARCHAR(" + std::to_string(n) + ")";
                auto p = printed_type(w, n);
                used["cast"]++;
                return { "CAST(" + a.sql + " AS " + tn + ")", t, [=](env const& e) { return sem::cast(p, a.ev(e)); }, true };
            }
            case 5: {
                std::vector<mfunc const*> fs;
                for (auto& f : fx.functions) if (f.table.empty() && f.ret == t) fs.push_back(&f);
                auto f = fs[c.draw(static_cast<std::uint32_t>(fs.size()))];
                std::vector<ex> as; std::string sql = func_id(f->name) + "(", sig = f->name;
                for (auto p : f->params) { as.push_back(expr(s, p, d, m)); sql += (as.size() > 1 ? ", " : "") + as.back().sql; sig += "," + what(p); }
                used["function"]++;
                return { sql + ")", t, [=, w = what(t)](env const& e) { std::vector<val> vs; for (auto& a : as) vs.push_back(a.ev(e)); return sem::call(sig, w, vs); }, true };
            }
            default: {
                auto x = subquery(s, { t }, d);
                used["scalar subquery"]++;
                return { "(" + x.sql + ")", t, [=](env const& e) { auto rs = x.rows(&e); if (rs.empty()) return val {}; return (*std::min_element(rs.begin(), rs.end()))[0]; }, true };
            }
        }
    }
    q subquery(scope& s, std::vector<ty> const& want, int d) {
        budget -= 6;
        return query(&s, &want, d, false);
    }
    static std::string op_text(sem::cmp k) { static char const* const t[] { "=", "<>", "<", "<=", ">", ">=" }; return t[static_cast<int>(k)]; }
    sem::cmp any_cmp(ty t) { return static_cast<sem::cmp>(t == ty::flag ? c.draw(2) : c.draw(6)); }
    ex flag(scope& s, int d, mode m) {
        switch (c.weighted({ 6, 4, 2, 3, 3, 3, m.no_sub ? 0 : 3, m.no_sub ? 0 : 3, m.no_sub ? 0 : 3, 2, 2 })) {
            case 0: {
                ty t = any_type(c); auto k = any_cmp(t);
                auto a = expr(s, t, d, m), b = maybe_null(s, t, d, m);
                used["comparison"]++;
                return { par(a) + " " + op_text(k) + " " + par(b), ty::flag, [=](env const& e) { return sem::compare(k, a.ev(e), b.ev(e)); } };
            }
            case 1: {
                bool and_ = c.flip();
                auto a = expr(s, ty::flag, d, m), b = expr(s, ty::flag, d, m);
                return { par(a) + (and_ ? " AND " : " OR ") + par(b), ty::flag, [=](env const& e) { auto x = a.ev(e), y = b.ev(e); return and_ ? sem::and_(x, y) : sem::or_(x, y); } };
            }
            case 2: { auto a = expr(s, ty::flag, d, m); return { "NOT " + wrap(a), ty::flag, [=](env const& e) { return sem::not_(a.ev(e)); } }; }
            case 3: {
                int k = c.draw(4); bool neg = c.chance(1, 3);
                auto a = k == 0 ? maybe_null(s, any_type(c), d, m) : expr(s, ty::flag, d, m);
                static char const* const t[] { "NULL", "TRUE", "FALSE", "UNKNOWN" };
                used["is"]++;
                return { par(a) + " IS " + (neg ? "NOT " : "") + t[k], ty::flag, [=](env const& e) {
                    auto v = a.ev(e); bool r = k == 0 || k == 3 ? v.is_null() : !v.is_null() && (v.i != 0) == (k == 1);
                    return val::of(r != neg); } };
            }
            case 4: {
                ty t = c.flip() ? ty::num : ty::text; bool neg = c.chance(1, 3); int sy = c.weighted({ 3, 1, 2 });
                auto a = expr(s, t, d, m), b = expr(s, t, d, m), h = expr(s, t, d, m);
                used["between"]++; if (sy == 2) used["between symmetric"]++;
                return { par(a) + (neg ? " NOT" : "") + " BETWEEN " + (sy == 1 ? "ASYMMETRIC " : sy == 2 ? "SYMMETRIC " : "") + par(b) + " AND " + par(h), ty::flag, [=](env const& e) {
                    auto x = a.ev(e), l = b.ev(e), u = h.ev(e);
                    auto in = [&](val const& l2, val const& u2) { return sem::and_(sem::compare(sem::cmp::le, l2, x), sem::compare(sem::cmp::le, x, u2)); };
                    auto r = sy == 2 ? sem::or_(in(l, u), in(u, l)) : in(l, u);
                    return neg ? sem::not_(r) : r; } };
            }
            case 5: {
                ty t = any_type(c); bool neg = c.chance(1, 3);
                auto a = expr(s, t, d, m);
                std::vector<ex> vs; std::string sql = par(a) + (neg ? " NOT" : "") + " IN (";
                for (int n = few(1, 3); n > 0; --n) { vs.push_back(expr(s, t, d, m)); sql += (vs.size() > 1 ? ", " : "") + vs.back().sql; }
                used["in list"]++;
                return { sql + ")", ty::flag, [=](env const& e) {
                    auto x = a.ev(e); auto r = val::of(false);
                    for (auto& v : vs) r = sem::or_(r, sem::compare(sem::cmp::eq, x, v.ev(e)));
                    return neg ? sem::not_(r) : r; } };
            }
            case 6: {
                ty t = any_type(c); bool neg = c.chance(1, 3);
                auto a = expr(s, t, d, m); auto x = subquery(s, { t }, d);
                // a list of values, unless it obviously is a query
                bool list = x.sql[0] == '(' || x.sql.rfind("VALUES", 0) == 0;
                used["in subquery"]++;
                return { par(a) + (list ? neg ? " <> ALL" : " = ANY" : neg ? " NOT IN" : " IN") + " (" + x.sql + ")", ty::flag, [=](env const& e) {
                    auto v = a.ev(e); auto r = val::of(false);
                    for (auto& y : x.rows(&e)) r = sem::or_(r, sem::compare(sem::cmp::eq, v, y[0]));
                    return neg ? sem::not_(r) : r; } };
            }
            case 7: {
                ty t = any_type(c); auto k = any_cmp(t); int z = c.draw(3);
                auto a = expr(s, t, d, m); auto x = subquery(s, { t }, d);
                static char const* const qn[] { "ANY", "SOME", "ALL" };
                used["quantified comparison"]++;
                return { par(a) + " " + op_text(k) + " " + qn[z] + " (" + x.sql + ")", ty::flag, [=](env const& e) {
                    auto v = a.ev(e); auto r = val::of(z == 2);
                    for (auto& y : x.rows(&e)) { auto t2 = sem::compare(k, v, y[0]); r = z == 2 ? sem::and_(r, t2) : sem::or_(r, t2); }
                    return r; } };
            }
            case 8: {
                std::vector<ty> ts; for (int n = c.range(1, 2); n > 0; --n) ts.push_back(any_type(c));
                auto x = subquery(s, ts, d);
                used["exists"]++;
                return { "EXISTS (" + x.sql + ")", ty::flag, [=](env const& e) { return val::of(!x.rows(&e).empty()); } };
            }
            case 9: {
                bool similar = c.chance(1, 3), neg = c.chance(1, 3), esc = c.chance(1, 3);
                auto a = expr(s, ty::text, d, m), b = expr(s, ty::text, d, m);
                auto x = esc ? expr(s, ty::text, c.flip() ? 0 : d, m) : ex { "", ty::text, [](env const&) { return val::of(std::string {}); } };
                used["match"]++;
                return { par(a) + (neg ? " NOT" : "") + (similar ? " SIMILAR TO " : " LIKE ") + par(b) + (esc ? " ESCAPE " + par(x) : ""), ty::flag, [=](env const& e) {
                    auto r = sem::match(similar, a.ev(e), b.ev(e), x.ev(e)); return neg ? sem::not_(r) : r; } };
            }
            default: return common(s, ty::flag, d, m);
        }
    }

    // ---- FROM -------------------------------------------------------------------------------------------------
    struct node { std::string sql; std::size_t begin {}, end {}; rowsf rows; bool primary {}; };
    static std::vector<std::size_t> visible(mtable const& t) { std::vector<std::size_t> r; for (std::size_t i = 0; i < t.cols.size(); ++i) if (!t.cols[i].hidden && !t.cols[i].synthesized) r.push_back(i); return r; }
    std::string table_text(mtable const& t, scope const& s) {
        bool shadow = fx.find_in_path(t.name) != &t;
        for (scope const* p = &s; p; p = p->parent) if (p->ctes.count(t.name)) shadow = true;
        if (shadow || c.chance(1, 5)) return (c.chance(1, 5) ? id(fx.catalog_name) + "." : "") + id(t.schema) + "." + id(t.name);
        return id(t.name);
    }
    std::vector<std::pair<std::string, q const*>> cte_list(scope const& s) {
        std::vector<std::pair<std::string, q const*>> r; std::set<std::string> seen;
        for (scope const* p = &s; p; p = p->parent) for (auto& [n, x] : p->ctes) if (seen.insert(n).second) r.emplace_back(n, &x);
        return r;
    }
    // adds a relation, which has these columns, to the scope
    void declare(scope& s, std::string name, std::string schema, std::vector<qcol> const& cols) {
        rel r; r.name = std::move(name); r.schema = std::move(schema);
        for (auto& x : cols) r.cols.push_back({ x.name, x.type, true, s.width++ });
        s.rels.push_back(std::move(r));
    }
    std::string fresh_relation(scope const& s) {
        for (int i = 0; i < 4; ++i) {
            auto n = relation_name();
            bool dup = false;
            for (auto& r : s.rels) dup = dup || r.name == n;
            if (!dup || c.chance(1, 6)) return n;
        }
        return "o" + std::to_string(s.rels.size() % 2);
    }
    // [AS] name [(columns)]
    std::string correlation(scope& s, std::vector<qcol>& cols, std::string& name, bool as_optional = true) {
        name = fresh_relation(s);
        std::string sql = (as_optional && c.chance(1, 4) ? " " : " AS ") + id(name);
        if (c.chance(1, 3)) {
            std::set<std::string> seen; sql += "(";
            for (std::size_t i = 0; i < cols.size(); ++i) {
                std::string n = column_name();
                for (int k = 0; !seen.insert(n).second; ++k) n = "c_" + std::to_string(k);
                cols[i].name = n; sql += (i ? ", " : "") + id(n);
            }
            sql += ")"; used["correlation columns"]++;
        }
        return sql;
    }
    node primary(scope& s, int d) {
        budget -= 2;
        node n; n.begin = s.width; n.primary = true;
        auto ctes = cte_list(s);
        int k = c.weighted({ 6, d > 0 && budget > 0 ? 3 : 0, ctes.empty() ? 0 : 5 });
        if (k == 0) {
            auto& t = *fx.tables[c.draw(static_cast<std::uint32_t>(fx.tables.size()))];
            auto vs = visible(t);
            std::vector<qcol> cols; std::vector<row> rows;
            for (auto i : vs) cols.push_back({ t.cols[i].name, t.cols[i].type });
            for (auto& r : t.rows) { row x; for (auto i : vs) x.push_back(r[i]); rows.push_back(std::move(x)); }
            n.sql = table_text(t, s);
            n.rows = [rows](env const*) { return rows; };
            bool dup = false;
            for (auto& r : s.rels) dup = dup || r.name == t.name;
            if (dup || c.flip()) {
                std::string name;
                n.sql += correlation(s, cols, name);
                declare(s, name, "", cols);
                used["alias"]++;
            } else declare(s, t.name, t.schema, cols);
        } else if (k == 1) {
            s.usable = false;
            auto x = query(&s, nullptr, d - 1, false);
            s.usable = true;
            std::string name; auto cols = x.cols;
            n.sql = "(" + x.sql + ")" + correlation(s, cols, name);
            n.rows = x.rows;
            declare(s, name, "", cols);
            used["derived table"]++;
        } else {
            auto& [cn, x] = ctes[c.draw(static_cast<std::uint32_t>(ctes.size()))];
            n.sql = id(cn);
            auto cols = x->cols;
            n.rows = [f = x->rows](env const*) { return f(nullptr); };
            bool dup = false;
            for (auto& r : s.rels) dup = dup || r.name == cn;
            if (dup || c.chance(1, 3)) { std::string name; n.sql += correlation(s, cols, name); declare(s, name, "", cols); }
            else declare(s, cn, "", cols);
            used["cte reference"]++;
        }
        n.end = s.width;
        return n;
    }
    node reference(scope& s, int d, int joins) {
        std::size_t first = s.rels.size();
        auto n = primary(s, d);
        for (; joins > 0 && budget > 0; --joins) {
            if (c.chance(1, 7)) { n = apply(s, n, first, d); continue; }
            std::size_t pivot = s.rels.size();
            int k = c.weighted({ 2, 4, 4, 3, 3 });
            bool nested = joins > 1 && c.chance(1, 3);
            auto r = nested ? reference(s, d, 1) : primary(s, d);
            if (nested && !r.primary) { r.sql = "(" + r.sql + ")"; joins--; }
            static std::vector<std::vector<std::string>> const words { { "CROSS JOIN" }, { "JOIN", "INNER JOIN" }, { "LEFT JOIN", "LEFT OUTER JOIN" }, { "RIGHT JOIN", "RIGHT OUTER JOIN" }, { "FULL JOIN", "FULL OUTER JOIN" } };
            auto saved = s.first; s.first = first;
            std::function<bool(row const&, env const*)> on = [](row const&, env const*) { return true; };
            std::string spec;
            std::vector<std::pair<std::size_t, std::size_t>> merge;
            if (k != 0) {
                auto common_cols = k <= 2 || o.outer_using ? joinable(s, first, pivot) : std::vector<std::pair<std::size_t, std::size_t>> {};
                if (!common_cols.empty() && c.flip()) {
                    std::vector<std::pair<std::size_t, std::size_t>> use; std::string list;
                    for (auto& p : common_cols) if (use.empty() || c.flip()) {
                        for (auto& x : s.rels) for (auto& y : x.cols) if (y.at == p.second) { y.exported = false; list += (list.empty() ? "" : ", ") + id(y.name); }
                        use.push_back(p);
                    }
                    merge = use;
                    spec = " USING (" + list + ")"; s.merged = true;
                    on = [use](row const& t, env const*) { for (auto& p : use) if (!sem::compare(sem::cmp::eq, t[p.first], t[p.second]).is_true()) return false; return true; };
                    used["join using"]++;
                } else {
                    auto x = expr(s, ty::flag, std::min(d, 2), {});
                    spec = " ON " + x.sql;
                    on = [x](row const& t, env const* outer) { env e { outer, &t, nullptr }; return x.ev(e).is_true(); };
                }
            }
            s.first = saved;
            used["join " + words[k][0]]++;
            std::vector<std::pair<std::size_t, std::size_t>> moved; // by USING
            node j; j.begin = n.begin; j.end = s.width;
            if (k > 2 && merge.size()) { used["outer using"]++; moved = merge; }
            j.sql = n.sql + " " + c.pick(words[k]) + " " + r.sql + spec;
            std::size_t nl = n.end - n.begin, nr = r.end - r.begin, base = n.begin;
            j.rows = [=, raw = o.left_using, lf = n.rows, rf = r.rows](env const* outer) {
                auto L = lf(outer), R = rf(outer);
                std::vector<row> out; std::vector<bool> hit(R.size());
                for (auto& a : L) {
                    bool any = false;
                    for (std::size_t i = 0; i < R.size(); ++i) {
                        row t = a; t.insert(t.end(), R[i].begin(), R[i].end());
                        row full(base); full.insert(full.end(), t.begin(), t.end());
                        if (!on(full, outer)) continue;
                        any = hit[i] = true; out.push_back(std::move(t));
                    }
                    if (!any && (k == 2 || k == 4)) { row t = a; t.resize(nl + nr); out.push_back(std::move(t)); }
                }
                if (k == 3 || k == 4) for (std::size_t i = 0; i < R.size(); ++i) if (!hit[i]) {
                    row t(nl); t.insert(t.end(), R[i].begin(), R[i].end());
                    if (!*raw) for (auto& p : moved) t[p.first - base] = t[p.second - base];
                    out.push_back(std::move(t));
                }
                if (out.size() > 300) throw pbt::discard {};
                return out;
            };
            n = std::move(j);
        }
        return n;
    }
    // pairs of columns with the same name which are unique on both sides of the join
    std::vector<std::pair<std::size_t, std::size_t>> joinable(scope const& s, std::size_t first, std::size_t pivot) {
        std::map<std::string, std::vector<col const*>> l, r;
        for (std::size_t i = first; i < s.rels.size(); ++i) for (auto& y : s.rels[i].cols) if (y.exported && !y.name.empty()) {
            (i < pivot ? l : r)[y.name].push_back(&y);
        }
        std::vector<std::pair<std::size_t, std::size_t>> out;
        for (auto& [n, v] : l) if (v.size() == 1 && r.count(n) && r[n].size() == 1 && v[0]->type == r[n][0]->type) out.emplace_back(v[0]->at, r[n][0]->at);
        return out;
    }
    node apply(scope& s, node n, std::size_t first, int d) {
        std::vector<mfunc const*> fs;
        for (auto& f : fx.functions) if (!f.table.empty()) fs.push_back(&f);
        auto f = fs[c.draw(static_cast<std::uint32_t>(fs.size()))];
        bool outer_apply = c.flip();
        auto saved = s.first; s.first = first;
        std::vector<ex> as; std::string sql = n.sql + (outer_apply ? " OUTER APPLY " : " CROSS APPLY ") + func_id(f->name) + "(", sig = f->name;
        for (auto p : f->params) { as.push_back(expr(s, p, std::min(d, 1), {})); sql += (as.size() > 1 ? ", " : "") + as.back().sql; sig += "," + what(p); }
        s.first = saved;
        std::vector<qcol> cols; std::vector<std::string> whats;
        for (auto& x : f->table) { cols.push_back({ x.first, x.second }); whats.push_back(what(x.second)); }
        std::string name; auto cor = correlation(s, cols, name, false);
        declare(s, name, "", cols);
        used[outer_apply ? "outer apply" : "cross apply"]++;
        node r; r.begin = n.begin; r.end = s.width; r.sql = sql + ")" + cor;
        auto base = n.begin;
        r.rows = [=, lf = n.rows](env const* outer) {
            std::vector<row> out;
            for (auto& a : lf(outer)) {
                row full(base); full.insert(full.end(), a.begin(), a.end());
                env e { outer, &full, nullptr };
                std::vector<val> vs; for (auto& x : as) vs.push_back(x.ev(e));
                auto rs = sem::table_call(sig, whats, vs);
                if (rs.empty() && outer_apply) rs.push_back(row(whats.size()));
                for (auto& x : rs) { row t = a; t.insert(t.end(), x.begin(), x.end()); out.push_back(std::move(t)); }
            }
            if (out.size() > 300) throw pbt::discard {};
            return out;
        };
        return r;
    }

    // ---- queries ----------------------------------------------------------------------------------------------
    // want: the types of the columns; otherwise they are chosen
    q query(scope* parent, std::vector<ty> const* want, int d, bool top) {
        if (d > 0 && c.chance(1, top ? 5 : 12)) return with(parent, want, d, top);
        return body(parent, nullptr, want, d, top);
    }
    q with(scope* parent, std::vector<ty> const* want, int d, bool top) {
        scope s; s.parent = parent; s.usable = false;
        std::string sql = "WITH ";
        std::set<std::string> seen;
        for (int n = few(1, 2), i = 0; i < n; ++i) {
            std::string name = n > 2 && c.chance(7, 8) ? "cte" + std::to_string(i) : c.pick(std::vector<std::string> { "cte0", "cte1", "t0", "n1" });
            if (!seen.insert(name).second) break;
            scope b; b.parent = &s; b.barrier = true; b.usable = false;
            auto x = query(&b, nullptr, d - 1, false);
            if (i) sql += ", ";
            sql += id(name);
            if (c.chance(1, 3)) {
                std::set<std::string> names; sql += " (";
                for (std::size_t j = 0; j < x.cols.size(); ++j) {
                    std::string cn = column_name();
                    for (int k = 0; !names.insert(cn).second; ++k) cn = "c_" + std::to_string(k);
                    x.cols[j].name = cn; sql += (j ? ", " : "") + id(cn);
                }
                sql += ")";
            }
            sql += " AS (" + x.sql + ")";
            s.ctes.emplace(name, std::move(x));
        }
        used["with"]++;
        auto x = body(&s, nullptr, want, d, top);
        x.sql = sql + " " + x.sql; x.bare = false;
        return x;
    }
    q body(scope* parent, void*, std::vector<ty> const* want, int d, bool top) {
        switch (c.weighted({ 10, d > 0 && budget > 0 ? 2 : 0, 1, 1 })) {
            case 1: return set_operation(parent, want, d);
            case 2: return values(parent, want, d);
            case 3: if (auto x = table(parent, want)) return *x; [[fallthrough]];
            default: return select(parent, want, d, top);
        }
    }
    std::optional<q> table(scope* parent, std::vector<ty> const* want) {
        auto& t = *fx.tables[c.draw(static_cast<std::uint32_t>(fx.tables.size()))];
        auto vs = visible(t);
        std::vector<ty> ts; q r;
        for (auto i : vs) { ts.push_back(t.cols[i].type); r.cols.push_back({ t.cols[i].name, t.cols[i].type }); }
        if (want && ts != *want) return {};
        scope s; s.parent = parent;
        r.sql = "TABLE " + table_text(t, s);
        std::vector<row> rows;
        for (auto& x : t.rows) { row y; for (auto i : vs) y.push_back(x[i]); rows.push_back(std::move(y)); }
        r.rows = [rows](env const*) { return rows; };
        used["table query"]++;
        return r;
    }
    std::vector<ty> any_types() { std::vector<ty> r; for (int n = budget > 0 && c.chance(1, 80) ? few(5, 30) : 1 + c.weighted({ 3, 4, 2, 1 }); n > 0; --n) r.push_back(any_type(c)); return r; }
    q values(scope* parent, std::vector<ty> const* want, int d) {
        auto ts = want ? *want : any_types();
        scope s; s.parent = parent;
        q r; for (auto t : ts) r.cols.push_back({ "", t });
        std::vector<std::vector<ex>> rows; r.sql = "VALUES ";
        for (int n = few(1, 3), i = 0; i < n; ++i) {
            std::vector<ex> x; r.sql += i ? ", (" : "(";
            for (std::size_t j = 0; j < ts.size(); ++j) { x.push_back(i && c.chance(1, 10) && o.allow_null ? null(ts[j]) : expr(s, ts[j], std::min(d, 1), {})); r.sql += (j ? ", " : "") + x.back().sql; }
            r.sql += ")"; rows.push_back(std::move(x));
        }
        r.rows = [rows](env const* outer) {
            row none; env e { outer, &none, nullptr };
            std::vector<row> out; for (auto& x : rows) { row y; for (auto& z : x) y.push_back(z.ev(e)); out.push_back(std::move(y)); }
            return out;
        };
        used["values"]++;
        return r;
    }
    q set_operation(scope* parent, std::vector<ty> const* want, int d) {
        auto l = body(parent, nullptr, want, d - 1, false);
        std::vector<ty> ts; for (auto& x : l.cols) ts.push_back(x.type);
        auto r = body(parent, nullptr, &ts, d - 1, false);
        int k = c.draw(3), qf = c.weighted({ 2, 2, 1 });
        static char const* const names[] { "UNION", "EXCEPT", "INTERSECT" };
        static char const* const qs[] { "", " ALL", " DISTINCT" };
        // without parentheses the operators have precedence
        auto text = [&](q const& x) { return x.bare && !c.flip() ? x.sql : "(" + x.sql + ")"; };
        q s; s.cols = l.cols;
        s.sql = text(l) + " " + names[k] + qs[qf] + " " + text(r);
        bool all = qf == 1;
        s.rows = [=, lf = l.rows, rf = r.rows](env const* outer) {
            auto a = lf(outer), b = rf(outer);
            std::map<row, int> x, y; for (auto& t : a) x[t]++; for (auto& t : b) y[t]++;
            std::vector<row> out;
            auto put = [&](row const& t, int n) { for (int i = 0; i < n; ++i) out.push_back(t); };
            if (k == 0) for (auto& [t, n] : y) x[t] += n;
            for (auto& [t, n] : x) {
                int m2 = y.count(t) ? y[t] : 0;
                if (k == 0) put(t, all ? n : 1);
                if (k == 1) put(t, all ? std::max(0, n - m2) : m2 ? 0 : 1);
                if (k == 2) put(t, all ? std::min(n, m2) : m2 ? 1 : 0);
            }
            return out;
        };
        used[names[k] + std::string { qs[qf] }]++;
        s.bare = false;
        return s;
    }
    q select(scope* parent, std::vector<ty> const* want, int d, bool top) {
        scope s; s.parent = parent;
        q r;
        std::string from; rowsf source;
        bool has_from = !c.chance(1, 12);
        if (has_from) {
            std::vector<node> ns;
            for (int n = c.chance(1, 200) ? c.range(4, 8) : 1 + c.weighted({ 6, 2, 1 }); n > 0; --n) { ns.push_back(reference(s, d, c.weighted({ 5, 3, 2, 1 }))); from += (ns.size() > 1 ? ", " : " FROM ") + ns.back().sql; }
            if (ns.size() > 1) used["comma join"]++;
            source = [ns](env const* outer) {
                std::vector<row> out { row {} };
                for (auto& n : ns) {
                    auto rs = n.rows(outer); std::vector<row> next;
                    for (auto& a : out) for (auto& b : rs) { row t = a; t.insert(t.end(), b.begin(), b.end()); next.push_back(std::move(t)); }
                    if (next.size() > 300) throw pbt::discard {};
                    out = std::move(next);
                }
                return out;
            };
        } else { used["no from"]++; source = [](env const*) { return std::vector<row> { row {} }; }; }
        std::optional<ex> where, having;
        if (has_from && c.flip()) { where = expr(s, ty::flag, d, {}); used["where"]++; }
        // grouping
        bool grouped = has_from && c.chance(1, 3);
        std::vector<std::size_t> keys; std::string group_by;
        if (grouped) {
            auto cs = columns(s, {});
            cs.erase(std::remove_if(cs.begin(), cs.end(), [](cand const& k) { return k.depth > 0; }), cs.end());
            for (int n = few(0, 2); n > 0 && !cs.empty(); --n) {
                auto k = c.pick(cs);
                render(s, k);
                group_by += (group_by.empty() ? " GROUP BY " : ", ") + k.forms[0];
                if (std::find(keys.begin(), keys.end(), k.at) == keys.end()) keys.push_back(k.at);
            }
            s.restricted = true; s.keys = { keys.begin(), keys.end() };
            used[keys.empty() ? "aggregate without GROUP BY" : "GROUP BY"]++;
        }
        mode m; m.agg = grouped;
        if (grouped && (!keys.empty() || c.flip()) && c.chance(1, 3)) { having = expr(s, ty::flag, d, m); used["having"]++; }
        bool distinct = c.chance(1, 6);
        // elements
        std::vector<ex> items; std::string list; std::vector<std::optional<std::size_t>> item_col;
        bool star = false;
        auto add = [&](ex e, std::string name) { r.cols.push_back({ std::move(name), e.type }); items.push_back(std::move(e)); };
        auto star_of = [&](rel const& x) { for (auto& y : x.cols) if (y.exported) { auto at = y.at; add({ "", y.type, [at](env const& e) { return (*e.cur)[at]; } }, y.name); item_col.push_back(at); } };
        auto can_star = [&](rel const& x) { for (auto& y : x.cols) if (y.exported) return true; return false; };
        std::vector<ty> ts;
        if (want) ts = *want; else ts = any_types();
        if (grouped && keys.empty() && !having) { /* at least one aggregate makes it a grouped query */ }
        bool has_agg = false;
        for (std::size_t i = 0; i < ts.size(); ++i) {
            if (!want && !grouped && has_from && !s.merged && c.chance(1, 4)) {
                if (c.flip()) {
                    bool any = false; for (auto& x : s.rels) any = any || can_star(x);
                    if (any) { list += (list.empty() ? "" : ", ") + std::string { "*" }; for (auto& x : s.rels) star_of(x); star = true; used["select *"]++; continue; }
                } else {
                    auto& x = c.pick(s.rels);
                    int n = 0; for (auto& y : s.rels) n += y.name == x.name;
                    if (n == 1 && can_star(x)) {
                        list += (list.empty() ? "" : ", ") + (!x.schema.empty() && c.chance(1, 3) ? id(x.schema) + "." : "") + id(x.name) + ".*"; star_of(x); star = true; used["select r.*"]++; continue;
                    }
                }
            }
            bool force = grouped && keys.empty() && !having && i == 0 && ts[i] != ty::flag;
            auto e = force ? aggregate(s, ts[i], d - 1) : expr(s, ts[i], d, m);
            has_agg = has_agg || force;
            std::string name = e.name.value_or(""), sql = e.sql;
            if (c.chance(1, 3)) { name = column_name(); sql += (c.chance(1, 4) ? " " : " AS ") + id(name); used["select alias"]++; }
            list += (list.empty() ? "" : ", ") + sql;
            item_col.push_back(e.at); add(e, name);
        }
        if (grouped && keys.empty() && !having && !has_agg) {
            // nothing makes this a grouped query for sure
            if (want) { auto e = literal_count(s); having = e; } else { auto e = aggregate(s, ty::num, 0); list += (list.empty() ? "" : ", ") + e.sql; add(e, ""); item_col.push_back({}); }
        }
        r.sql = std::string { "SELECT " } + (distinct ? "DISTINCT " : c.chance(1, 15) ? "ALL " : "") + list + from;
        if (where) r.sql += " WHERE " + where->sql;
        r.sql += group_by;
        if (having) r.sql += " HAVING " + having->sql;
        if (distinct) used["distinct"]++;
        // order and limit
        std::vector<ex> order;
        bool want_limit = c.chance(1, top ? 3 : 8);
        bool total = !top && want_limit;
        if (has_from && !star && (total ? !distinct : c.chance(1, top ? 2 : 10))) {
            if (total) { for (auto& e : items) if (!e.literal) order.push_back(e); }
            else for (int n = few(1, 2); n > 0; --n) {
                if (distinct) { std::vector<std::size_t> ok; for (std::size_t i = 0; i < items.size(); ++i) if (item_col[i]) ok.push_back(i); if (!ok.empty()) order.push_back(items[c.pick(ok)]); }
                else { auto e = expr(s, any_type(c), std::min(d, 2), m); if (!e.literal) order.push_back(e); }
            }
        }
        bool plain_limit = top && has_from && order.empty() && want_limit;
        bool all_literal = total && order.empty();
        if (!order.empty()) {
            for (std::size_t i = 0; i < order.size(); ++i) {
                int k = c.draw(3); r.desc.push_back(k == 2);
                r.sql += (i ? ", " : " ORDER BY ") + order[i].sql + (k == 0 ? "" : k == 1 ? " ASC" : " DESC");
            }
            used["order by"]++;
        }
        if (want_limit && (!order.empty() || plain_limit || (all_literal && !star && !distinct && !items.empty() && has_from))) {
            r.limit = static_cast<std::size_t>(c.range(0, 4)); r.sql += " LIMIT " + std::to_string(r.limit);
            used["limit"]++;
        }
        r.bare = order.empty() && r.limit == std::size_t(-1);
        auto limit = r.limit; auto desc = r.desc;
        r.ordered = [=](env const* outer) {
            std::vector<std::pair<row, row>> out;
            auto emit = [&](env const& e) { row k, x; for (auto& y : order) k.push_back(y.ev(e)); for (auto& y : items) x.push_back(y.ev(e)); out.emplace_back(std::move(k), std::move(x)); };
            std::vector<row> rows;
            for (auto& t : source(outer)) { env e { outer, &t, nullptr }; if (!where || where->ev(e).is_true()) rows.push_back(t); }
            if (!grouped) for (auto& t : rows) { env e { outer, &t, nullptr }; emit(e); }
            else {
                std::map<row, std::vector<row>> groups;
                for (auto& t : rows) { row k; for (auto i : keys) k.push_back(t[i]); groups[k].push_back(t); }
                if (keys.empty() && groups.empty()) groups[{}];
                for (auto& [k, g] : groups) {
                    row none(2000); // no column is available without a key
                    env e { outer, g.empty() ? &none : &g[0], &g };
                    if (!having || having->ev(e).is_true()) emit(e);
                }
            }
            if (distinct) { std::map<row, row> m2; for (auto& x : out) m2[x.second] = x.first; out.clear(); for (auto& [x, k] : m2) out.emplace_back(k, x); }
            std::stable_sort(out.begin(), out.end(), [&](auto& a, auto& b) { return less(a.first, b.first, desc); });
            return out;
        };
        r.rows = [f = r.ordered, limit](env const* outer) {
            std::vector<row> out;
            for (auto& x : f(outer)) { if (out.size() >= limit) break; out.push_back(std::move(x.second)); }
            return out;
        };
        return r;
    }
    static bool less(row const& a, row const& b, std::vector<bool> const& desc) {
        for (std::size_t i = 0; i < a.size(); ++i) { if (a[i] == b[i]) continue; return (a[i] < b[i]) != desc[i]; }
        return false;
    }
    ex literal_count(scope&) { return { "count(*) >= 0", ty::flag, [](env const&) { return val::of(true); } }; }

};

// Does the result of the plan agree with the query?
inline std::string disagreement(q const& x, output const& out) {
    std::vector<std::string> names; for (auto& y : x.cols) names.push_back(y.name);
    if (out.is_write) return "the plan writes";
    if (names != out.names) {
        auto j = [](std::vector<std::string> const& v) { std::string s; for (auto& y : v) s += "<" + y + "> "; return s; };
        return "the columns are " + j(out.names) + "instead of " + j(names);
    }
    if (!x.ordered) {
        auto a = x.rows(nullptr), b = out.rows;
        std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
        return a == b ? "" : "expected rows:\n" + show(a) + "rows of the plan:\n" + show(b);
    }
    auto all = x.ordered(nullptr);
    std::size_t n = std::min(all.size(), x.limit);
    std::vector<row> exp; for (auto& y : all) exp.push_back(y.second);
    auto report = [&](std::string const& why) { return why + "; in order and before limiting, expected rows:\n" + show(exp) + "rows of the plan:\n" + show(out.rows); };
    if (out.rows.size() != n) return report("the number of rows is " + std::to_string(out.rows.size()) + " instead of " + std::to_string(n));
    for (std::size_t i = 0; i < n;) {
        std::size_t j = i; while (j < all.size() && all[j].first == all[i].first) ++j;
        std::vector<row> a, b;
        for (std::size_t k = i; k < j; ++k) a.push_back(all[k].second);
        for (std::size_t k = i; k < std::min(j, n); ++k) b.push_back(out.rows[k]);
        std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
        if (!std::includes(a.begin(), a.end(), b.begin(), b.end())) return report("the rows " + std::to_string(i) + ".. are not those with equal keys");
        i = j;
    }
    return "";
}
} // namespace qg
