// A10: grouping: what may be referred to beside set functions, and where set functions may be used.
//
// Queries are written freely; a model notes each reference and call which breaks a rule. Without such, the plan must
// yield the rows which the grouping denotes; otherwise the analysis must report one of them, with its code, at its place.
#include "plancheck.h"
#include <list>
namespace {
using namespace ana;
using num = std::int64_t;
using code = sql_analyzer_code;

struct env { env const* outer {}; row const* cur {}; std::vector<row> const* group {}; };
using fn = std::function<val(env const&)>;
struct fault { code k; std::size_t begin, end; std::size_t lo, hi; std::string why; }; // [begin, end) within [lo, hi)
enum class place { free, groupable, argument }; // no grouping here; beside set functions; in a set function
struct table { std::string name; std::vector<std::string> cols; std::vector<row> rows; };
struct potential { std::size_t column; std::size_t begin, end, lo; std::shared_ptr<std::size_t> hi; };
struct query {
    query* outer {};
    place at { place::free };                   // of this query in the outer one
    std::size_t begin {};                       // of the expression which it is in
    std::shared_ptr<std::size_t> end { std::make_shared<std::size_t>() };
    std::vector<std::string> cols {};           // as to be written
    std::vector<std::string> alias {};          // of the relations, and the number of the columns
    std::vector<std::size_t> width {};
    std::set<std::size_t> keys {};
    bool grouped {};
    bool biased {}, calls { true };             // for the choice of expressions: towards group keys, of set functions
    std::vector<potential> refs {};             // they must be keys if the query is grouped
};

struct writer {
    pbt::source& c;
    std::vector<table> tables {};
    std::string sql {};
    std::list<fault> faults {};
    std::vector<std::pair<std::list<fault>::iterator, std::shared_ptr<std::size_t>>> open {};
    int budget { 40 }; int names {}; bool wild { true };
    std::map<std::string, int> used {};

    explicit writer(pbt::source& s) : c { s } {}
    void put(std::string const& s) { sql += (sql.empty() || sql.back() == '(' || s[0] == ')' || s[0] == ',' ? "" : " ") + s; }
    std::size_t pos() const { return sql.size() + 1; } // where the next phrase begins, at the earliest
    std::size_t begin_of(std::size_t p) const { auto q = sql.find_first_not_of(' ', p ? p - 1 : 0); return q == std::string::npos ? p : q; }
    void fail(code k, std::size_t b, std::size_t lo, std::shared_ptr<std::size_t> hi, std::string why) {
        faults.push_back({ k, b, sql.size(), lo, 0, std::move(why) });
        open.emplace_back(std::prev(faults.end()), hi);
    }
    // a clause in which set functions are not allowed
    struct clause { std::size_t lo; std::shared_ptr<std::size_t> hi { std::make_shared<std::size_t>() }; };
    clause* here {};
    template<class F> auto in_clause(F f) {
        clause k { sql.size() }; auto* old = here; here = &k;
        auto r = f();
        *k.hi = sql.size(); here = old;
        return r;
    }

    fn column(query& q, place p) {
        // q and the enclosing ones
        query* owner = &q; query* under {};
        std::size_t up = 0;
        while (owner->outer && c.chance(2, 5)) { under = owner; owner = owner->outer; ++up; }
        if (owner->cols.empty()) { put("5"); return [](env const&) { return val::of(num { 5 }); }; }
        auto i = c.draw(static_cast<std::uint32_t>(owner->cols.size()));
        if (owner->biased && (under ? under->at : p) == place::groupable && !(wild && c.chance(1, 15))) {
            if (owner->keys.empty()) { put("8"); return [](env const&) { return val::of(num { 8 }); }; }
            std::vector<std::size_t> ks(owner->keys.begin(), owner->keys.end());
            i = static_cast<std::uint32_t>(ks[c.draw(static_cast<std::uint32_t>(ks.size()))]);
        }
        put(owner->cols[i]);
        auto b = sql.size() - owner->cols[i].size();
        if ((under ? under->at : p) == place::groupable) owner->refs.push_back({ i, b, sql.size(), under ? under->begin : b, under ? under->end : std::make_shared<std::size_t>(sql.size()) });
        used[under ? "outer column" : "column"]++;
        return [i, up](env const& e) { auto* x = &e; for (std::size_t n = up; n > 0; --n) x = x->outer; return x->cur ? (*x->cur)[i] : (*x->group)[0][i]; };
    }
    // a set function at this place of q
    fn aggregate(query& q, place p, int d) {
        static std::vector<std::string> const names { "count", "sum", "max", "min" };
        auto name = c.pick(names);
        bool distinct = c.chance(1, 4);
        auto b = begin_of(pos());
        bool star = name == "count" && !distinct && c.chance(1, 3);
        put(name + "(");
        if (b != sql.size() - name.size() - 1) b = sql.size() - name.size() - 1;
        fn a;
        if (star) { put("*"); } else { if (distinct) put("DISTINCT"); a = number(q, place::argument, d - 1); }
        put(")");
        used["set function"]++;
        if (p == place::argument) fail(code::unsupported_feature, b, b, std::make_shared<std::size_t>(sql.size()), "nested set function");
        if (p == place::free) fail(code::unsupported_feature, b, here->lo, here->hi, "set function where none is allowed");
        if (p == place::groupable) q.grouped = true;
        auto full = name + (distinct ? "$distinct" : "");
        return [=](env const& e) {
            std::vector<row> args;
            if (!e.group) return val {}; // never asked for
            for (auto& r : *e.group) { if (star) args.push_back({}); else { env x { e.outer, &r, nullptr }; args.push_back({ a(x) }); } }
            if (star) return val::of(static_cast<num>(args.size()));
            return sem::aggregate(full, "number", std::move(args));
        };
    }
    bool wants_aggregate(query& q, place p) { return p == place::groupable ? q.calls && c.chance(1, 3) : wild && c.chance(1, 40); }
    fn number(query& q, place p, int d) {
        if (--budget < 0) d = 0;
        if (wants_aggregate(q, p) && d > 0) return aggregate(q, p, d);
        if (d <= 0 || c.chance(1, 4)) { if (c.chance(3, 4)) return column(q, p); num n = c.range(0, 3); put(std::to_string(n)); return [n](env const&) { return val::of(n); }; }
        switch (c.draw(9)) {
            case 0: { put("("); auto a = number(q, p, d - 1); char op = c.pick(std::vector<char> { '+', '-', '*' }); put(std::string { op }); auto b = number(q, p, d - 1); put(")"); return [=](env const& e) { return sem::arith(op, a(e), b(e)); }; }
            case 1: { put("COALESCE("); auto a = number(q, p, d - 1); put(","); auto b = number(q, p, d - 1); put(")"); return [=](env const& e) { auto v = a(e); return v.is_null() ? b(e) : v; }; }
            case 2: { put("CASE WHEN"); auto w = flag(q, p, d - 1); put("THEN"); auto a = number(q, p, d - 1); put("ELSE"); auto b = number(q, p, d - 1); put("END"); return [=](env const& e) { return w(e).is_true() ? a(e) : b(e); }; }
            case 3: { put("CAST("); auto a = number(q, p, d - 1); put("AS BIGINT)"); return a; }
            case 4: { put("f("); auto a = number(q, p, d - 1); put(","); auto b = number(q, p, d - 1); put(")"); return [=](env const& e) { return sem::call("f,number,number", "number", { a(e), b(e) }); }; }
            case 5: { put("ABS("); auto a = number(q, p, d - 1); put(")"); return [=](env const& e) { return sem::call("abs,number", "number", { a(e) }); }; }
            case 6: { put("CASE"); auto w = number(q, p, d - 1); put("WHEN"); auto x = number(q, p, d - 1); put("THEN"); auto a = number(q, p, d - 1); put("END"); return [=](env const& e) { return sem::compare(sem::cmp::eq, w(e), x(e)).is_true() ? a(e) : val {}; }; }
            case 7: { put("NULLIF("); auto a = number(q, p, d - 1); put(","); auto b = number(q, p, d - 1); put(")"); return [=](env const& e) { auto v = a(e); return sem::compare(sem::cmp::eq, v, b(e)).is_true() ? val {} : v; }; }
            default: return scalar(q, p, d - 1);
        }
    }
    // a sub-query at this place of q
    template<class F> auto nested(query& q, place p, std::size_t begin, F f) {
        query n; n.outer = &q; n.at = p; n.begin = begin;
        auto r = f(n);
        ends.push_back(n.end);
        return r;
    }
    std::vector<std::shared_ptr<std::size_t>> ends {};
    // runs f, and closes the ranges of the sub-queries in the expression which f writes
    template<class F> auto expression(F f) {
        auto n = ends.size();
        auto r = f();
        for (auto i = n; i < ends.size(); ++i) if (*ends[i] == 0) *ends[i] = sql.size();
        ends.resize(n);
        return r;
    }
    using rowsf = std::function<std::vector<row>(env const*)>;
    fn scalar(query& q, place p, int d) {
        return expression([&] {
            auto b = pos(); put("("); b = sql.size() - 1;
            auto r = nested(q, p, b, [&](query& n) { return select(n, 1, d, false); });
            put(")");
            used["scalar sub-query"]++;
            return fn { [=](env const& e) { std::vector<val> vs; for (auto& x : r(&e)) vs.push_back(x[0]); return vs.empty() ? val {} : *std::min_element(vs.begin(), vs.end()); } };
        });
    }
    static std::string printed_varchar() { return str(ttype::character { ttype::varying }); }
    fn words(query& q, place p, int d) { put("CAST("); auto a = number(q, p, d); put("AS VARCHAR(*))"); return [=, type = printed_varchar()](env const& e) { return sem::cast(type, a(e)); }; }
    fn flag(query& q, place p, int d) {
        if (--budget < 0) d = 0;
        auto start = sql.size();
        switch (c.weighted({ 4, 1, 1, 1, 1, d > 0 ? 2 : 0, d > 0 ? 2 : 0, d > 0 ? 2 : 0, 1, 1 })) {
            case 8: { // LIKE
                auto text = [&](int k) { if (k > 0 && c.chance(1, 4)) { put("("); auto a = words(q, p, k - 1); put("||"); auto b = words(q, p, k - 1); put(")"); return fn { [=](env const& e) { return sem::concat(a(e), b(e)); } }; } return words(q, p, k); };
                auto a = text(d - 1);
                bool n = c.chance(1, 3), similar = c.chance(1, 3), esc = c.flip();
                if (n) put("NOT"); put(similar ? "SIMILAR TO" : "LIKE");
                auto b = text(d - 1);
                fn x = [](env const&) { return val::of(std::string {}); };
                if (esc) { put("ESCAPE"); x = text(d - 1); }
                used["LIKE"]++;
                return [=](env const& e) { auto r = sem::match(similar, a(e), b(e), x(e)); return n ? sem::not_(r) : r; };
            }
            case 9: { // IN (list)
                auto a = number(q, p, d - 1); bool n = c.chance(1, 3);
                put(n ? "NOT IN (" : "IN (");
                std::vector<fn> vs; for (int i = 0, m = c.range(1, 3); i < m; ++i) { if (i) put(","); vs.push_back(number(q, p, d - 1)); }
                put(")"); used["IN list"]++;
                return [=](env const& e) { auto v = a(e); auto r = val::of(false); for (auto& y : vs) r = sem::or_(r, sem::compare(sem::cmp::eq, v, y(e))); return n ? sem::not_(r) : r; };
            }
            case 0: { auto a = number(q, p, d - 1); static std::vector<std::string> const ops { "=", "<>", "<", "<=", ">", ">=" }; auto k = c.draw(6); put(ops[k]); auto b = number(q, p, d - 1); return [=](env const& e) { return sem::compare(static_cast<sem::cmp>(k), a(e), b(e)); }; }
            case 1: { put("("); auto a = flag(q, p, d - 1); bool o = c.flip(); put(o ? "OR" : "AND"); auto b = flag(q, p, d - 1); put(")"); return [=](env const& e) { return o ? sem::or_(a(e), b(e)) : sem::and_(a(e), b(e)); }; }
            case 2: { put("NOT ("); auto a = flag(q, p, d - 1); put(")"); return [=](env const& e) { return sem::not_(a(e)); }; }
            case 3: { auto a = number(q, p, d - 1); bool n = c.flip(); put(n ? "IS NOT NULL" : "IS NULL"); return [=](env const& e) { return val::of(a(e).is_null() != n); }; }
            case 4: { auto a = number(q, p, d - 1); bool sy = c.chance(1, 3); put(sy ? "BETWEEN SYMMETRIC" : "BETWEEN"); auto l = number(q, p, d - 1); put("AND"); auto h = number(q, p, d - 1); return [=](env const& e) {
                auto v = a(e), x = l(e), y = h(e); auto in = [&](val const& u, val const& w) { return sem::and_(sem::compare(sem::cmp::ge, v, u), sem::compare(sem::cmp::le, v, w)); }; return sy ? sem::or_(in(x, y), in(y, x)) : in(x, y); }; }
            case 5: return expression([&] { // EXISTS
                put("EXISTS ("); auto b = sql.size() - 8;
                auto r = nested(q, p, b, [&](query& n) { return select(n, 1, d - 1, false); });
                put(")"); used["EXISTS"]++;
                return fn { [=](env const& e) { return val::of(!r(&e).empty()); } };
            });
            case 6: return expression([&] { // IN
                auto a = number(q, p, d - 1);
                bool n = c.flip();
                put(n ? "NOT IN (" : "IN (");
                auto r = nested(q, p, start, [&](query& x) { return select(x, 1, d - 1, false); });
                put(")"); used["IN"]++;
                return fn { [=](env const& e) { auto v = a(e); auto x = val::of(false); for (auto& y : r(&e)) x = sem::or_(x, sem::compare(sem::cmp::eq, v, y[0])); return n ? sem::not_(x) : x; } };
            });
            default: return expression([&] { // quantified
                auto a = number(q, p, d - 1);
                bool any = c.flip();
                put(any ? "< ANY (" : "< ALL (");
                auto r = nested(q, p, start, [&](query& x) { return select(x, 1, d - 1, false); });
                put(")"); used["quantified"]++;
                return fn { [=](env const& e) { auto v = a(e); auto x = val::of(!any); for (auto& y : r(&e)) { auto k = sem::compare(sem::cmp::lt, v, y[0]); x = any ? sem::or_(x, k) : sem::and_(x, k); } return x; } };
            });
        }
    }
    // a query of n columns, q is filled; `open` means that nothing encloses it
    rowsf select(query& q, std::size_t n, int d, bool top) {
        put("SELECT");
        bool distinct = c.chance(1, 6);
        if (distinct) put("DISTINCT");
        // the FROM clause is written after the select list, of which the columns must be known
        struct rel { table const* t; std::string alias; };
        std::vector<rel> rels;
        for (int i = 0, m = c.weighted({ 0, 5, 2 }); i < m; ++i) {
            auto& t = tables[c.draw(static_cast<std::uint32_t>(tables.size()))];
            rel r { &t, "r" + std::to_string(names++) };
            for (auto& k : t.cols) q.cols.push_back(r.alias + "." + k);
            q.alias.push_back(r.alias); q.width.push_back(t.cols.size());
            rels.push_back(r);
        }
        // the plan of grouping: none, by keys, or as a whole
        int mode = c.weighted({ 3, 4, 2 });
        std::vector<std::size_t> keys;
        if (mode == 1) for (int i = 0, m = c.range(1, 3); i < m; ++i) keys.push_back(c.draw(static_cast<std::uint32_t>(q.cols.size())));
        for (auto k : keys) q.keys.insert(k);
        q.grouped = mode == 1;
        bool having = mode == 1 ? c.chance(1, 3) : mode == 2 && c.chance(1, 3);
        if (having) q.grouped = true;
        q.biased = mode != 0;
        q.calls = mode != 0 || (wild && c.chance(1, 20));
        std::vector<fn> items;
        auto value = [&](int depth) { return number(q, place::groupable, depth); };
        bool force = mode == 2 && !having;
        if (top && !force && wild && c.chance(1, 10)) {
            // all columns of a relation
            auto k = c.draw(static_cast<std::uint32_t>(rels.size()));
            bool all = c.flip();
            auto s = all ? std::string { "*" } : rels[k].alias + ".*";
            put(s);
            std::size_t first = 0; for (std::size_t i = 0; i < k && !all; ++i) first += q.width[i];
            std::size_t last = all ? q.cols.size() : first + q.width[k];
            for (auto i = first; i < last; ++i) {
                q.refs.push_back({ i, sql.size() - s.size(), sql.size(), sql.size() - s.size(), std::make_shared<std::size_t>(sql.size()) });
                items.push_back([i](env const& e) { return e.cur ? (*e.cur)[i] : (*e.group)[0][i]; });
            }
            used["asterisk"]++;
        }
        if (items.empty() || c.flip()) for (std::size_t i = 0; i < n; ++i) {
            if (i || !items.empty()) put(",");
            if (force && i == 0) { if (c.flip()) { items.push_back(aggregate(q, place::groupable, d)); } else { put("("); auto a = aggregate(q, place::groupable, d); put("+"); auto b = value(d - 1); put(")"); items.push_back([=](env const& e) { return sem::arith('+', a(e), b(e)); }); } }
            else items.push_back(value(d));
        }
        width = items.size();
        put("FROM");
        std::vector<std::function<bool(env const&)>> on;
        for (std::size_t i = 0; i < rels.size(); ++i) {
            bool join = i && c.flip();
            if (i) put(join ? "JOIN" : ",");
            put(rels[i].t->name); put("AS"); put(rels[i].alias);
            if (join) { auto f = in_clause([&] { put("ON"); return flag(q, place::free, d - 1); }); on.push_back([f](env const& e) { return f(e).is_true(); }); }
        }
        fn where;
        if (c.chance(1, 3)) { put("WHERE"); where = in_clause([&] { return flag(q, place::free, d - 1); }); used["WHERE"]++; }
        if (mode == 1) {
            put("GROUP BY");
            for (std::size_t i = 0; i < keys.size(); ++i) {
                if (i) put(",");
                if (wild && c.chance(1, 40)) {
                    // something else
                    auto b = sql.size() + 1;
                    in_clause([&] {
                        switch (c.draw(4)) {
                            case 0: { put("("); number(q, place::free, 0); put("+ 1)"); break; }
                            case 1: { put("3"); break; }
                            case 2: { aggregate(q, place::free, 1); break; }
                            default: {
                                if (q.outer && !q.outer->cols.empty()) put(q.outer->cols[0]); else put("(SELECT 1)");
                                break;
                            }
                        }
                        return 0;
                    });
                    fail(code::unsupported_feature, sql.find_first_not_of(" (", b - 1), b - 1, std::make_shared<std::size_t>(sql.size()), "group key");
                    faults.back().end = faults.back().begin;
                    used["invalid group key"]++;
                    put(",");
                }
                put(q.cols[keys[i]]);
            }
            used["GROUP BY"]++;
        }
        fn hav;
        if (having) { put("HAVING"); hav = flag(q, place::groupable, d - 1); used["HAVING"]++; }
        if (top && !distinct && c.chance(1, 4)) {
            put("ORDER BY");
            for (int i = 0, m = c.range(1, 2); i < m; ++i) {
                if (i) put(",");
                put("("); value(d - 1); put("+ 1)");
            }
            used["ORDER BY"]++;
        }
        // the faults
        if (q.grouped) {
            for (auto& r : q.refs) if (!q.keys.count(r.column)) {
                faults.push_back({ code::invalid_aggregation_column, r.begin, r.end, r.lo, 0, "column which is not a group key" });
                open.emplace_back(std::prev(faults.end()), r.hi);
            }
            used["grouped"]++;
        }
        std::vector<table const*> ts; for (auto& r : rels) ts.push_back(r.t);
        bool grouped = q.grouped;
        auto group_keys = q.keys;
        return [=](env const* outer) {
            std::vector<row> rows { {} };
            std::size_t k = 0;
            for (auto* t : ts) { std::vector<row> next; for (auto& a : rows) for (auto& b : t->rows) { auto x = a; x.insert(x.end(), b.begin(), b.end()); next.push_back(std::move(x)); } rows = std::move(next); ++k; if (rows.size() > 5000) throw pbt::discard {}; }
            auto keep = [&](auto f) { std::vector<row> r; for (auto& x : rows) { env e { outer, &x, nullptr }; if (f(e)) r.push_back(x); } rows = std::move(r); };
            for (auto& f : on) keep(f);
            if (where) keep([&](env const& e) { return where(e).is_true(); });
            std::vector<row> out;
            auto emit = [&](env const& e) { row r; for (auto& i : items) r.push_back(i(e)); out.push_back(std::move(r)); };
            if (!grouped) { for (auto& x : rows) emit({ outer, &x, nullptr }); }
            else {
                std::map<row, std::vector<row>> groups;
                for (auto& x : rows) { row key; for (auto i : group_keys) key.push_back(x[i]); groups[key].push_back(x); }
                if (group_keys.empty() && groups.empty()) groups[{}];
                for (auto& [key, g] : groups) { env e { outer, nullptr, &g }; if (!hav || hav(e).is_true()) emit(e); }
            }
            if (distinct) { std::sort(out.begin(), out.end()); out.erase(std::unique(out.begin(), out.end()), out.end()); }
            return out;
        };
    }
    std::size_t width {}; // of the last query
};

void groups(pbt::source& c, pbt::context& ctx, int depth) {
    fixture fx; fx.add_schema("main");
    writer w { c };
    w.wild = c.chance(1, 2);
    std::string show;
    for (int i = 0, n = c.range(1, 3); i < n; ++i) {
        mtable t; t.schema = "main"; t.name = "t" + std::to_string(i); t.pk = { 0 };
        for (auto* k : { "k", "a", "b" }) { t.cols.push_back({ k, ty::num }); if (i && c.chance(1, 4)) break; }
        for (num j = 0, m = c.size(5); j < m; ++j) { row r; for (auto& k : t.cols) r.push_back(&k == &t.cols[0] ? val::of(j) : c.chance(1, 5) ? val {} : val::of(num { c.range(0, 2) })); t.rows.push_back(std::move(r)); }
        auto& x = fx.add_table(std::move(t));
        table m { x.name, {}, x.rows };
        show += "-- " + x.name + "(";
        for (auto& k : x.cols) { m.cols.push_back(k.name); show += k.name + " "; }
        show += ")\n" + ana::show(x.rows);
        w.tables.push_back(std::move(m));
    }
    fx.standard_aggregates("main");
    fx.add_function({ "main", "f", { ty::num, ty::num }, ty::num, {} });
    fx.add_function({ "main", "abs", { ty::num }, ty::num, {} });
    std::function<std::vector<row>()> model;
    w.budget = 15 + depth * 20;
    std::string form;
    std::vector<query> qs(2);
    switch (c.weighted({ 10, 2, 2, 2, 1, 1, 1, 1, 1 })) {
        case 0: { form = "SELECT"; auto f = w.select(qs[0], 1 + c.draw(3), depth, true); model = [f] { return f(nullptr); }; break; }
        case 1: case 2: {
            bool cte = c.flip(); form = cte ? "WITH" : "derived table";
            w.put(cte ? "WITH z AS (" : "SELECT * FROM (");
            auto n = 1 + c.draw(3);
            std::string names; for (std::size_t i = 0; i < n; ++i) names += std::string { i ? ", c" : "c" } + std::to_string(i);
            if (cte) { w.sql = "WITH z(" + names + ") AS ("; }
            auto f = w.select(qs[0], n, depth, false);
            w.put(cte ? ") SELECT * FROM z" : ") AS z(" + names + ")");
            model = [f] { return f(nullptr); };
            break;
        }
        case 3: { form = "UNION ALL"; auto n = 1 + c.draw(2); auto f = w.select(qs[0], n, depth, false); w.put("UNION ALL"); auto g = w.select(qs[1], n, depth, false); model = [f, g] { auto a = f(nullptr), b = g(nullptr); a.insert(a.end(), b.begin(), b.end()); return a; }; break; }
        case 4: { form = "INSERT SELECT"; w.put("INSERT INTO t0 (k, a, b)"); w.select(qs[0], 3, depth, false); break; }
        case 5: { form = "VALUES"; w.put("VALUES"); std::vector<fn> fs; for (int i = 0; i < 2; ++i) { w.put(i ? "," : "("); fs.push_back(w.in_clause([&] { return w.number(qs[0], place::free, depth); })); } w.put(")"); model = [fs] { row r; for (auto& f : fs) r.push_back(f({})); return std::vector<row> { r }; }; break; }
        case 6: { form = "INSERT VALUES"; w.put("INSERT INTO t0 (k, a, b) VALUES"); for (int i = 0; i < 3; ++i) { w.put(i ? "," : "("); w.in_clause([&] { return w.number(qs[0], place::free, depth - 1); }); } w.put(")"); break; }
        case 7: {
            form = "UPDATE"; qs[0].cols = { "t0.k", "t0.a", "t0.b" };
            w.put("UPDATE t0 SET");
            for (int i = 0, n = c.range(1, 2); i < n; ++i) { w.put(i ? ", b =" : "a ="); w.in_clause([&] { return w.number(qs[0], place::free, depth); }); }
            if (c.flip()) { w.put("WHERE"); w.in_clause([&] { return w.flag(qs[0], place::free, depth); }); }
            break;
        }
        default: { form = "DELETE"; qs[0].cols = { "t0.k", "t0.a", "t0.b" }; w.put("DELETE FROM t0 WHERE"); w.in_clause([&] { return w.flag(qs[0], place::free, depth); }); break; }
    }
    for (auto& [f, hi] : w.open) f->hi = *hi;
    std::string why; for (auto& f : w.faults) why += "-- " + f.why + ": " + w.sql.substr(f.begin, f.end - f.begin) + "\n";
    ctx.show(show + w.sql + "\n" + why);
    session ss { w.sql };
    if (!ss.unit) ctx.fail("rejected", ss.error);
    auto o = fx.options();
    auto r = ss.analyze(o);
    ++ctx.checks;
    for (auto& [k, n] : w.used) ctx.label(k);
    if (!w.faults.empty()) {
        ctx.label(form + ": rejected");
        std::set<std::string> whys; for (auto& f : w.faults) whys.insert(f.why);
        if (whys.size() == 1) ctx.label("only " + *whys.begin());
        if (r.is_valid()) ctx.fail("accepted", "although: " + why);
        for (auto&& d : r.element<mana::sql_analyzer_result_kind::diagnostics>()) {
            auto b = static_cast<std::size_t>(d.location().begin()), e = static_cast<std::size_t>(d.location().end());
            bool ok = false;
            for (auto& f : w.faults) ok = ok || (d.location() && d.code() == f.k && b <= f.begin && f.end <= e && f.lo <= b && e <= f.hi);
            if (!ok) ctx.fail("diagnostic", diagnostics(r) + "expected one of:\n" + why);
        }
        ctx.nontrivial(ctx.shown);
        return;
    }
    ctx.label(form);
    if (!r.is_valid()) ctx.fail("unresolved", diagnostics(r));
    std::string fault; plan::text(r, &fault);
    ctx.require(fault.empty(), "malformed", fault);
    if (!model) return;
    machine m { fx.db };
    try {
        auto got = run_plan(r, m).rows, want = model();
        std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
        if (got != want) ctx.fail("result", "expected\n" + ana::show(want) + "but\n" + ana::show(got));
        if (w.used.count("grouped") && !want.empty()) ctx.nontrivial(ctx.shown);
    } catch (plan_error const& e) { ctx.fail("plan", e.what); }
}
} // namespace
int main(int argc, char** argv) {
    pbt::suite s;
    s.property = "A10";
    s.rule = "queries and other statements with set functions and group keys, well placed or not; non-trivial: a distinct statement which breaks a rule of grouping, so that the code and place of the diagnostics were compared, or which groups and yields rows, which were compared";
    s.subs.push_back({ "shallow", 250000, 1500000, [](pbt::source& c, pbt::context& x) { groups(c, x, 2); } });
    s.subs.push_back({ "deep", 120000, 800000, [](pbt::source& c, pbt::context& x) { groups(c, x, 4); } });
    return pbt::run(s, argc, argv);
}
