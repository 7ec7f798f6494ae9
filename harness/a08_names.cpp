// A08: every name means the declaration which the scoping rules give it, or is reported.
//
// Each table has one row and every column of every relation and every schema variable holds a number of its own, so
// the row which a plan yields tells to what the names in the statement were resolved.
#include "ana.h"
namespace {
using namespace ana;
using num = std::int64_t;

std::string low(std::string s) { for (auto& c : s) c = static_cast<char>(std::tolower(static_cast<unsigned char>(c))); return s; }

enum class nk { variable, function, relation, schema, catalog };
// a name as written, and the identifier which it denotes
struct word { std::string text, id; };
struct column { std::string name; num value; bool exported { true }; };
struct relation { std::string name; mtable const* table {}; std::vector<column> cols; }; // table: if it is a table without another name
struct scope {
    std::vector<relation> rels {};
    scope const* parent {};
    bool exposed {};     // to its sub-queries which are scalar expressions
    bool independent {}; // from what encloses it
    std::map<std::string, std::vector<column>> queries {}; // common table expressions
};
enum class outcome { found, absent, ambiguous, unsupported };
struct lookup { outcome kind; num value {}; };
char const* text(outcome k) { return k == outcome::found ? "found" : k == outcome::absent ? "absent" : k == outcome::ambiguous ? "ambiguous" : "unsupported"; }

class world {
public:
    fixture fx;
    bool fold_all {}, fold[5] {};
    num next { 1000 };
    std::map<mtable const*, std::vector<num>> values;
    std::map<std::pair<std::string, std::string>, num> variables;

    explicit world(pbt::source& c) {
        fold_all = !c.chance(1, 3);
        for (auto& f : fold) f = c.flip();
        fx.catalog_name = pick(c, { "cat", "s", "main", "Cat", "t", "" });
        fx.add_schema("main");
        if (c.chance(3, 4)) fx.add_schema("s");
        if (c.chance(1, 3)) fx.add_schema(pick(c, { "S", "t", "a" }));
        fx.path.clear();
        for (std::size_t i = 0; i < fx.schemas.size(); ++i) if (c.chance(3, 4)) fx.path.push_back(i);
        if (fx.path.empty()) fx.path.push_back(0);
        if (fx.path.size() > 1 && c.flip()) std::swap(fx.path[0], fx.path.back());
        for (auto& s : fx.schemas) {
            std::set<std::string> used;
            for (int i = 0, n = c.range(1, 3); i < n; ++i) {
                mtable t; t.schema = s->name; t.name = pick(c, { "t", "u", "T", "a" });
                if (!used.insert(t.name).second) continue;
                std::set<std::string> cols;
                row r;
                std::vector<num> vs;
                for (int j = 0, m = c.range(1, 4); j < m; ++j) {
                    auto k = pick(c, { "a", "b", "c", "A", "d", "t" });
                    if (!cols.insert(k).second) continue;
                    t.cols.push_back({ k, ty::num });
                    if (j && c.chance(1, 6)) t.cols.back().hidden = true;
                    vs.push_back(next);
                    r.push_back(val::of(next++));
                }
                t.rows.push_back(r);
                auto& x = fx.add_table(std::move(t));
                values[&x] = vs;
            }
            std::set<std::string> vn;
            for (int i = 0, n = c.range(0, 2); i < n; ++i) {
                auto v = pick(c, { "v", "a", "V", "t", "c" });
                if (!vn.insert(v).second) continue;
                fx.add_variable(s->name, v, ty::num, val::of(next));
                variables[{ s->name, v }] = next++;
            }
        }
    }
    void options(mana::sql_analyzer_options& o) const {
        o.lowercase_regular_identifiers() = fold_all;
        o.lowercase_variable_regular_identifiers() = fold[0];
        o.lowercase_function_regular_identifiers() = fold[1];
        o.lowercase_relation_regular_identifiers() = fold[2];
        o.lowercase_schema_regular_identifiers() = fold[3];
        o.lowercase_catalog_regular_identifiers() = fold[4];
    }
    std::string describe() const {
        std::string s = "-- catalog " + fx.catalog_name + ", path";
        for (auto p : fx.path) s += " " + fx.schemas[p]->name;
        s += "; folds"; if (fold_all) s += " all"; else for (auto f : fold) s += f ? " 1" : " 0";
        for (auto& t : fx.tables) { s += "; " + t->schema + "." + t->name + "("; for (std::size_t i = 0; i < t->cols.size(); ++i) s += t->cols[i].name + "=" + std::to_string(values.at(t.get())[i]) + (t->cols[i].hidden ? " hidden," : ","); s += ")"; }
        for (auto& [k, v] : variables) s += "; variable " + k.first + "." + k.second + "=" + std::to_string(v);
        return s + "\n";
    }
    template<class L> static std::string pick(pbt::source& c, L const& l) { return *(l.begin() + c.draw(static_cast<std::uint32_t>(l.size()))); }
    static std::string pick(pbt::source& c, std::initializer_list<char const*> l) { return *(l.begin() + c.draw(static_cast<std::uint32_t>(l.size()))); }

    bool folds(nk k) const { return fold_all || fold[static_cast<int>(k)]; }
    std::string id(std::string const& w, nk k) const { return w[0] == '"' ? w.substr(1, w.size() - 2) : folds(k) ? low(w) : w; }
    // a spelling of the name, sometimes of another one
    std::string spell(pbt::source& c, std::string const& n) const {
        switch (c.weighted({ 6, 2, 1, 1 })) {
            case 0: return n;
            case 1: return "\"" + n + "\"";
            case 2: { auto s = n; for (auto& x : s) x = static_cast<char>(std::toupper(static_cast<unsigned char>(x))); return s; }
            default: { auto s = n; if (!s.empty()) s[0] = static_cast<char>(s[0] ^ 0x20); return s; }
        }
    }

    // --- the rules -------------------------------------------------------------------------------------------
    static scope const* above(scope const* s, bool stop) {
        for (; s; s = s->parent) {
            if (stop && s->independent) return nullptr;
            if (s->parent && s->parent->exposed) return s->parent;
        }
        return nullptr;
    }
    static bool independent_between(scope const* s, scope const* to) { for (; s && s != to; s = s->parent) if (s->independent) return true; return false; }
    static lookup in(std::vector<relation const*> const& rs, std::string const& n) {
        std::vector<num> f;
        for (auto* r : rs) for (auto& k : r->cols) if (k.name == n && k.exported) f.push_back(k.value);
        return f.empty() ? lookup { outcome::absent } : f.size() > 1 ? lookup { outcome::ambiguous } : lookup { outcome::found, f[0] };
    }
    static std::vector<relation const*> all(scope const& s) { std::vector<relation const*> r; for (auto& x : s.rels) r.push_back(&x); return r; }
    std::optional<num> variable(std::string const& schema, std::string const& n) const { auto it = variables.find({ schema, n }); return it == variables.end() ? std::nullopt : std::optional { it->second }; }
    mschema const* find_schema(std::string const& n) const { for (auto& s : fx.schemas) if (s->name == n) return s.get(); return nullptr; }
    mtable const* find_table(std::string const& s, std::string const& n) const { for (auto& t : fx.tables) if (t->schema == s && t->name == n) return t.get(); return nullptr; }

    struct place { enum kind_t { none, ambiguous, relation, value, schema, catalog, unsupported } kind {}; std::vector<::relation const*> rels {}; num v {}; std::string name {}; scope const* at {}; };
    // what the first names of a reference denote
    place qualifier(scope const& s, std::vector<std::string> const& w, std::size_t n) const {
        if (n == 1) {
            auto r = id(w[0], nk::relation);
            for (auto* p = &s; p; p = above(p, false)) {
                std::vector<::relation const*> hit;
                for (auto& x : p->rels) if (x.name == r && !r.empty()) hit.push_back(&x);
                if (hit.size() > 1) return { place::ambiguous };
                if (hit.size() == 1) return { place::relation, hit, 0, {}, p };
            }
            for (auto* p = &s; p; p = above(p, true)) {
                auto f = in(all(*p), id(w[0], nk::variable));
                if (f.kind == outcome::ambiguous) return { place::ambiguous };
                if (f.kind == outcome::found) return { place::value, {}, f.value };
            }
            for (auto p : fx.path) if (variable(fx.schemas[p]->name, id(w[0], nk::variable))) return { place::value };
            if (auto* x = find_schema(id(w[0], nk::schema))) return { place::schema, {}, 0, x->name };
            if (!fx.catalog_name.empty() && id(w[0], nk::catalog) == fx.catalog_name) return { place::catalog };
            return {};
        }
        auto q = qualifier(s, w, n - 1);
        switch (q.kind) {
            case place::schema: {
                if (variable(q.name, id(w[n - 1], nk::variable))) return { place::value };
                auto* t = find_table(q.name, id(w[n - 1], nk::relation));
                if (!t) return {};
                std::vector<::relation const*> hit;
                for (auto& x : s.rels) if (x.table == t) hit.push_back(&x);
                if (hit.size() > 1) return { place::ambiguous };
                if (hit.size() == 1) return { place::relation, hit, 0, {}, &s };
                return {};
            }
            case place::catalog: {
                auto* x = find_schema(id(w[n - 1], nk::schema));
                return x ? place { place::schema, {}, 0, x->name } : place {};
            }
            case place::relation: {
                auto f = in(q.rels, id(w[n - 1], nk::variable));
                return f.kind == outcome::ambiguous ? place { place::ambiguous } : f.kind == outcome::found ? place { place::value } : place {};
            }
            case place::value: return { place::unsupported };
            default: return q;
        }
    }
    lookup resolve(scope const& s, std::vector<std::string> const& w) const {
        if (w.size() == 1) {
            auto n = id(w[0], nk::variable);
            for (auto* p = &s; p; p = above(p, true)) { auto f = in(all(*p), n); if (f.kind != outcome::absent) return f; }
            for (auto p : fx.path) if (auto v = variable(fx.schemas[p]->name, n)) return { outcome::found, *v };
            return { outcome::absent };
        }
        auto q = qualifier(s, w, w.size() - 1);
        switch (q.kind) {
            case place::none: case place::catalog: return { outcome::absent };
            case place::ambiguous: return { outcome::ambiguous };
            case place::value: case place::unsupported: return { outcome::unsupported };
            case place::schema: if (auto v = variable(q.name, id(w.back(), nk::variable))) return { outcome::found, *v }; return { outcome::absent };
            case place::relation: {
                auto f = in(q.rels, id(w.back(), nk::variable));
                if (f.kind == outcome::found && q.at != &s && independent_between(&s, q.at)) return { outcome::absent };
                return f;
            }
        }
        return { outcome::absent };
    }
    // the relation of "r.*"
    std::pair<outcome, ::relation const*> resolve_relation(scope const& s, std::vector<std::string> const& w) const {
        if (w.size() == 1) {
            auto q = id(w[0], nk::relation);
            for (auto* p = &s; p; p = above(p, false)) {
                std::vector<::relation const*> hit;
                for (auto& x : p->rels) if (x.name == q && !q.empty()) hit.push_back(&x);
                if (hit.size() > 1) return { outcome::ambiguous, nullptr };
                if (hit.size() == 1) return p == &s ? std::pair { outcome::found, hit[0] } : std::pair { outcome::absent, static_cast<::relation const*>(nullptr) };
            }
            return { outcome::absent, nullptr };
        }
        auto* x = schema_of(w, w.size() - 1);
        auto* t = x ? find_table(x->name, id(w.back(), nk::relation)) : nullptr;
        if (!t) return { outcome::absent, nullptr };
        std::vector<::relation const*> hit;
        for (auto& r : s.rels) if (r.table == t) hit.push_back(&r);
        return hit.size() > 1 ? std::pair { outcome::ambiguous, static_cast<::relation const*>(nullptr) } : hit.size() == 1 ? std::pair { outcome::found, hit[0] } : std::pair { outcome::absent, static_cast<::relation const*>(nullptr) };
    }
    mschema const* schema_of(std::vector<std::string> const& w, std::size_t n) const {
        if (n == 1) return find_schema(id(w[0], nk::schema));
        if (n == 2 && !fx.catalog_name.empty() && id(w[0], nk::catalog) == fx.catalog_name) return find_schema(id(w[1], nk::schema));
        return nullptr;
    }
    // a declared relation
    std::optional<relation> declared(scope const* s, std::vector<std::string> const& w) const {
        mtable const* t {};
        if (w.size() == 1) {
            auto n = id(w[0], nk::relation);
            for (auto* p = s; p; p = p->parent) if (auto it = p->queries.find(n); it != p->queries.end()) return relation { n, nullptr, it->second };
            for (auto p : fx.path) if (!t) t = find_table(fx.schemas[p]->name, n);
        } else if (auto* x = schema_of(w, w.size() - 1)) {
            t = find_table(x->name, id(w.back(), nk::relation));
        }
        if (!t) return std::nullopt;
        relation r { t->name, t, {} };
        for (std::size_t i = 0; i < t->cols.size(); ++i) r.cols.push_back({ t->cols[i].name, values.at(t)[i], !t->cols[i].hidden });
        return r;
    }
};

// the end of the generation: the statement has the fault to be reported
struct stop {};
class statement {
public:
    pbt::source& c;
    world& w;
    std::string where;      // kind of the probe
    std::string reference;  // the probe
    outcome expected { outcome::found };
    std::string marker { "/*!*/" }; // precedes the reference in the text
    bool table_probe {};
    int depth {}, nested {};
    bool correlated {}, shadowed {};

    std::string join(std::vector<std::string> const& v) { std::string s; for (auto& x : v) s += (s.empty() ? "" : ".") + x; return s; }
    std::string literal(num v) { return std::to_string(v); }
    template<class L> std::string pick(L const& l) { return world::pick(c, l); }
    std::string any_name() { return world::pick(c, { "a", "b", "c", "d", "t", "v", "s", "u", "p", "A", "main", "T", "V", "zz" }); }

    // a table in the FROM clause
    std::string table_name(scope const& s, relation& out) {
        std::vector<std::string> ref;
        if (!w.fx.tables.empty() && c.chance(9, 10)) {
            auto& t = *w.fx.tables[c.draw(static_cast<std::uint32_t>(w.fx.tables.size()))];
            if (c.chance(1, 3)) { if (c.flip() && !w.fx.catalog_name.empty()) ref.push_back(w.spell(c, w.fx.catalog_name)); ref.push_back(w.spell(c, t.schema)); }
            ref.push_back(w.spell(c, t.name));
        } else {
            ref.push_back(any_name());
        }
        std::vector<std::string> ctes;
        for (auto* p = &s; p; p = p->parent) for (auto& q : p->queries) ctes.push_back(q.first);
        if (!ctes.empty() && c.flip()) ref = { w.spell(c, pick(ctes)) };
        auto r = w.declared(&s, ref);
        auto t = join(ref);
        if (!r) {
            if (!where.empty() || !c.chance(1, 6)) { // usually one which exists
                for (auto p : w.fx.path) for (auto& x : w.fx.tables) if (x->schema == w.fx.schemas[p]->name) { ref = { "\"" + x->name + "\"" }; r = w.declared(&s, ref); if (r) { out = *r; return join(ref); } }
                throw pbt::discard {};
            }
            where = "missing table"; reference = t; expected = outcome::absent;
            out = {};
            return marker + t;
        }
        if (!r->table) ++nested;
        out = *r;
        return t;
    }
    std::string alias() { return world::pick(c, { "r", "t", "q", "a", "s", "T", "\"R\"" }); }
    // optional AS and columns; the columns are those of the relation
    std::string correlation(relation& r, bool required) {
        if (!required && c.chance(3, 5)) return "";
        auto a = alias();
        r.name = w.id(a, nk::relation);
        r.table = nullptr;
        std::string s = std::string { c.flip() ? " AS " : " " } + a;
        std::vector<column> visible;
        for (auto& k : r.cols) if (k.exported) visible.push_back(k);
        if (!visible.empty() && c.chance(1, 3)) {
            auto n = static_cast<std::size_t>(c.range(1, static_cast<int>(visible.size())));
            std::vector<std::string> names;
            std::set<std::string> used;
            for (std::size_t i = 0; i < n; ++i) {
                auto k = world::pick(c, { "a", "b", "x", "y", "A", "p" });
                if (!used.insert(w.id(k, nk::variable)).second) break;
                names.push_back(k);
            }
            s += "("; for (std::size_t i = 0; i < names.size(); ++i) s += (i ? ", " : "") + names[i]; s += ")";
            std::vector<column> out;
            for (std::size_t i = 0; i < names.size(); ++i) out.push_back({ w.id(names[i], nk::variable), visible[i].value });
            r.cols = out;
        }
        return s;
    }
    // a table, or a derived one
    std::string primary(scope& s) {
        relation r;
        if (c.chance(1, 5)) {
            std::string t = "(SELECT ";
            r = {};
            for (int i = 0, n = c.range(1, 3); i < n; ++i) {
                auto k = world::pick(c, { "a", "b", "x", "p", "A", "t", "a" });
                r.cols.push_back({ w.id(k, nk::variable), w.next });
                t += (i ? ", " : "") + literal(w.next++) + " AS " + k;
            }
            t += ")";
            // names may be duplicated in the query, but then there is no list of columns to distinguish
            t += correlation(r, true);
            s.rels.push_back(r);
            return t;
        }
        auto t = table_name(s, r);
        t += correlation(r, false);
        s.rels.push_back(r);
        return t;
    }
    std::string from_list(scope& s) {
        std::string t = " FROM " + primary(s);
        for (int i = 0, n = c.weighted({ 5, 4, 1 }); i < n; ++i) {
            switch (c.weighted({ 3, 2, 1, 1 })) {
                case 0: t += ", " + primary(s); break;
                case 1: t += " CROSS JOIN " + primary(s); break;
                case 2: t += " LEFT JOIN " + primary(s) + " ON " + truth(); break;
                default: {
                    // operands of a condition are only visible to each other
                    scope o; o.parent = &s;
                    t += ", " + primary(o) + " JOIN " + primary(o) + " ON ";
                    t += condition(o);
                    for (auto& r : o.rels) s.rels.push_back(r);
                    break;
                }
            }
        }
        return t;
    }
    // a condition without names; some have queries, which must not affect what is visible afterwards
    std::string truth() {
        static std::vector<std::string> const ts { "2 < 3", "1 = 1", "EXISTS (SELECT 1)", "1 IN (SELECT 1)", "1 = ANY (SELECT 1)", "(SELECT 1) = 1" };
        return c.flip() ? ts[0] : pick(ts);
    }
    // a condition which holds if its names are resolved as they should be; contains the probe if there is not yet, or not
    std::string condition(scope& s) {
        if (!where.empty() || depth <= 0 || c.chance(1, 2)) return truth();
        return probe(s) + " = " + literal(last);
    }
    num last {}; // of the probe
    std::string probe(scope const& s) {
        std::vector<std::vector<std::string>> refs;
        // usually a name from somewhere around
        std::vector<std::string> names;
        std::vector<scope const*> scopes;
        for (auto* p = &s; p; p = p->parent) scopes.push_back(p);
        for (auto* p : scopes) for (auto& r : p->rels) for (auto& k : r.cols) names.push_back(k.name);
        for (auto& v : w.variables) names.push_back(v.first.second);
        std::vector<std::string> ref;
        auto col = [&] { return names.empty() || c.chance(1, 12) ? any_name() : w.spell(c, pick(names)); };
        switch (c.weighted({ 5, 5, 2, 2, 1 })) {
            case 0: ref = { col() }; break;
            case 1: {
                std::vector<relation const*> rs;
                for (auto* p : scopes) for (auto& r : p->rels) if (!r.name.empty() && !r.cols.empty()) rs.push_back(&r);
                if (rs.empty()) { ref = { any_name(), col() }; break; }
                auto& r = *rs[c.draw(static_cast<std::uint32_t>(rs.size()))];
                auto k = r.cols[c.draw(static_cast<std::uint32_t>(r.cols.size()))].name;
                ref = { w.spell(c, r.name), c.chance(1, 10) ? col() : w.spell(c, k) };
                break;
            }
            case 2: {
                std::vector<relation const*> rs;
                for (auto* p : scopes) for (auto& r : p->rels) if (r.table) rs.push_back(&r);
                if (rs.empty()) { ref = { any_name(), any_name(), col() }; break; }
                auto& r = *rs[c.draw(static_cast<std::uint32_t>(rs.size()))];
                auto k = r.cols[c.draw(static_cast<std::uint32_t>(r.cols.size()))].name;
                ref = { w.spell(c, r.table->schema), w.spell(c, r.table->name), c.chance(1, 10) ? col() : w.spell(c, k) };
                if (c.chance(1, 3)) ref.insert(ref.begin(), w.fx.catalog_name.empty() || c.chance(1, 6) ? any_name() : w.spell(c, w.fx.catalog_name));
                break;
            }
            case 3: {
                if (w.variables.empty()) { ref = { any_name(), col() }; break; }
                auto it = w.variables.begin();
                std::advance(it, c.draw(static_cast<std::uint32_t>(w.variables.size())));
                ref = { w.spell(c, it->first.first), c.chance(1, 8) ? col() : w.spell(c, it->first.second) };
                if (c.chance(1, 3)) ref.insert(ref.begin(), w.fx.catalog_name.empty() ? any_name() : w.spell(c, w.fx.catalog_name));
                break;
            }
            default: for (int i = 0, n = c.range(1, 4); i < n; ++i) ref.push_back(i ? any_name() : col()); break;
        }
        auto f = w.resolve(s, ref);
        reference = join(ref);
        expected = f.kind;
        last = f.value;
        lenient = false;
        // a table of an enclosing query by its qualified name: both its column and nothing are fine
        if (ref.size() >= 3) {
            for (auto* p = world::above(&s, false); p; p = world::above(p, false)) {
                if (expected != outcome::absent) break;
                auto* x = w.schema_of(ref, ref.size() - 2);
                auto* t = x ? w.find_table(x->name, w.id(ref[ref.size() - 2], nk::relation)) : nullptr;
                for (auto& r : p->rels) if (t && r.table == t) lenient = true;
            }
        }
        where = std::to_string(ref.size()) + "-part name " + (depth_of_probe ? "in nested query" : "at top");
        auto own = world::in(world::all(s), w.id(ref.back(), nk::variable)).kind;
        if (expected == outcome::found && own == outcome::absent) correlated = true;
        int places = 0;
        for (auto* p : scopes) if (world::in(world::all(*p), w.id(ref.back(), nk::variable)).kind != outcome::absent) ++places;
        shadowed = places > 1;
        return marker + reference;
    }
    bool lenient {};
    int depth_of_probe {};

    // a query of one row and one column; yields the value
    std::string query(scope const* parent, bool independent, num& out, bool top = false) {
        (void) top;
        scope s; s.parent = parent; s.independent = independent;
        std::string with;
        if (depth > 0 && c.chance(1, 5)) {
            with = "WITH ";
            for (int i = 0, n = c.range(1, 2); i < n; ++i) {
                auto name = world::pick(c, { "w", "t", "u", "W", "x" });
                auto nm = w.id(name, nk::relation);
                if (s.queries.count(nm)) break;
                // each may refer the previous ones
                scope frame = s; // what is visible there
                num v {};
                auto body = sub(&s, true, v);
                relation r { "", nullptr, { { "", v } } };
                std::string k = world::pick(c, { "a", "b", "x" });
                with += (i ? ", " : "") + name + "(" + k + ") AS (" + body + ")";
                s.queries[nm] = { { w.id(k, nk::variable), v } };
            }
            with += " ";
        }
        auto from = from_list(s);
        std::string cond;
        if (c.chance(1, 3)) cond = " WHERE " + condition(s);
        out = 7;
        std::string item = "7";
        if (where.empty()) {
            if (depth > 0 && c.chance(1, 2)) {
                s.exposed = true;
                num v {};
                switch (c.weighted({ 3, 2, 2, 1, 2 })) {
                    case 0: item = "(" + sub(&s, false, v) + ")"; out = v; break;
                    case 1: cond = " WHERE (" + sub(&s, false, v); cond += ") = " + literal(v); break;
                    case 2: cond = " WHERE " + std::string { }; { auto q = sub(&s, false, v); cond += literal(v) + (c.flip() ? " IN (" : " = ANY (") + q + ")"; } break;
                    case 3: cond = " WHERE EXISTS (" + sub(&s, false, v) + ")"; break;
                    default: {
                        s.exposed = false;
                        auto q = sub(&s, false, v);
                        std::string k = world::pick(c, { "a", "x" });
                        relation r { "", nullptr, { { w.id(k, nk::variable), v } } };
                        auto a = alias();
                        r.name = w.id(a, nk::relation);
                        from += ", (" + q + ") AS " + a + "(" + k + ")";
                        s.rels.push_back(r);
                        if (where.empty()) { item = probe(s); out = last; }
                        break;
                    }
                }
                s.exposed = false;
            } else if (c.flip()) {
                item = probe(s); out = last;
            } else {
                cond = " WHERE " + probe(s); cond += " = " + literal(last);
            }
        }
        return with + "SELECT " + item + from + cond;
    }
    std::string sub(scope const* s, bool independent, num& v) {
        --depth; ++depth_of_probe;
        auto q = query(s, independent, v);
        ++depth; --depth_of_probe;
        return q;
    }
};

bool in_class(outcome k, sql_analyzer_code code) {
    auto s = str(code);
    switch (k) {
        case outcome::absent: return s.size() > 9 && s.compare(s.size() - 9, 9, "not_found") == 0;
        case outcome::ambiguous: return s.size() > 9 && s.compare(s.size() - 9, 9, "ambiguous") == 0;
        case outcome::unsupported: return s == "unsupported_feature";
        default: return false;
    }
}

void check(pbt::context& ctx, world& w, statement& st, std::string const& sql, std::vector<num> const& values) {
    auto show = w.describe() + sql;
    ctx.show(show);
    session ss { sql };
    auto o = w.fx.options();
    w.options(o);
    if (!ss.unit) ctx.fail("rejected", ss.error);
    auto a = ss.analyze(o);
    auto failure = diagnostics(a);
    ctx.label(st.where + ": " + text(st.expected));
    if (st.correlated) ctx.label("outer name");
    if (st.shadowed) ctx.label("the same column name in several scopes");
    auto at = sql.find(st.marker);
    if (st.expected != outcome::found && !(st.lenient && a.is_valid())) {
        if (a.is_valid()) ctx.fail("resolved", "'" + st.reference + "' should be " + text(st.expected));
        auto&& ds = a.element<mana::sql_analyzer_result_kind::diagnostics>();
        for (auto&& d : ds) {
            auto b = static_cast<std::size_t>(d.location().begin()), e = static_cast<std::size_t>(d.location().end());
            auto lo = at + st.marker.size(), hi = lo + st.reference.size();
            if (!in_class(st.expected, d.code())) ctx.fail("diagnostic", "'" + st.reference + "' should be " + text(st.expected) + ": " + failure);
            if (!d.location() || b < lo || e > hi || e <= b) ctx.fail("location", "the diagnostic is not at '" + st.reference + "': " + failure);
        }
        ++ctx.checks;
        ctx.nontrivial(show);
        return;
    }
    if (!a.is_valid()) ctx.fail("unresolved", "'" + st.reference + "' is " + text(st.expected) + ": " + failure);
    machine m { w.fx.db };
    try {
        auto r = m.run(a.element<mana::sql_analyzer_result_kind::execution_plan>());
        row x; for (auto v : values) x.push_back(val::of(v));
        std::vector<row> rows { x };
        if (r.rows != rows) ctx.fail("resolution", "expected " + ana::show(x) + ", got\n" + ana::show(r.rows));
    } catch (plan_error const& e) { ctx.fail("plan", e.what); }
    ++ctx.checks;
    ctx.nontrivial(show);
}

void columns(pbt::source& c, pbt::context& ctx) {
    world w { c };
    statement st { c, w };
    st.depth = c.range(0, 3);
    num v {};
    auto sql = st.query(nullptr, false, v, true);
    if (st.where.empty()) throw pbt::discard {};
    check(ctx, w, st, sql, { v });
}
void relations(pbt::source& c, pbt::context& ctx) {
    world w { c };
    statement st { c, w };
    scope s;
    auto from = st.from_list(s);
    std::vector<num> values;
    std::string item;
    if (!st.where.empty()) {
        item = "*";
    } else if (c.chance(1, 4)) {
        item = st.marker + "*"; st.where = "*"; st.reference = "*";
        for (auto& r : s.rels) for (auto& k : r.cols) if (k.exported) values.push_back(k.value);
        if (values.empty()) throw pbt::discard {};
    } else {
        std::vector<std::string> ref;
        auto& r = s.rels[c.draw(static_cast<std::uint32_t>(s.rels.size()))];
        ref.push_back(r.name.empty() || c.chance(1, 10) ? st.any_name() : w.spell(c, r.name));
        if (r.table && c.chance(1, 2)) {
            ref.insert(ref.begin(), w.spell(c, r.table->schema));
            if (c.chance(1, 3)) ref.insert(ref.begin(), w.fx.catalog_name.empty() ? st.any_name() : w.spell(c, w.fx.catalog_name));
        }
        st.reference = st.join(ref);
        st.where = std::to_string(ref.size()) + "-part relation.*";
        item = st.marker + st.reference + ".*";
        auto f = w.resolve_relation(s, ref);
        st.expected = f.first;
        if (f.second) {
            for (auto& k : f.second->cols) if (k.exported) values.push_back(k.value);
            if (values.empty()) throw pbt::discard {};
        }
    }
    check(ctx, w, st, "SELECT " + item + from, values);
}

// ---- functions --------------------------------------------------------------------------------------------------
using tp = std::shared_ptr<ttype::data const>;
struct mtype { char const* sql; tp type; };
std::vector<mtype> const& types() {
    static std::vector<mtype> const all {
        { "INT", shared_type(ttype::int4 {}) },
        { "BIGINT", shared_type(ttype::int8 {}) },
        { "DECIMAL(5, 2)", shared_type(ttype::decimal { 5, 2 }) },
        { "DOUBLE", shared_type(ttype::float8 {}) },
        { "REAL", shared_type(ttype::float4 {}) },
        { "VARCHAR(4)", shared_type(ttype::character { ttype::varying, 4 }) },
        { "BOOLEAN", shared_type(ttype::boolean {}) },
        { "DATE", shared_type(ttype::date {}) },
        { nullptr, shared_type(ttype::unknown {}) },
    };
    return all;
}
enum class fk { scalar, table, set };
struct overload { std::string schema, name; fk kind; std::vector<tp> params; std::size_t id; };
bool applies(std::vector<tp> const& a, std::vector<tp> const& b) {
    if (a.size() != b.size()) return false;
    for (std::size_t i = 0; i < a.size(); ++i) if (::yugawara::type::is_parameter_application_convertible(*a[i], *b[i]) != ::yugawara::util::ternary::yes) return false;
    return true;
}
void functions(pbt::source& c, pbt::context& ctx) {
    fixture fx;
    bool fold = c.chance(3, 4);
    fx.catalog_name = world::pick(c, { "cat", "s", "" });
    fx.add_schema("main"); fx.add_schema("s");
    fx.path = { 0 };
    if (c.flip()) fx.path = c.flip() ? std::vector<std::size_t> { 0, 1 } : std::vector<std::size_t> { 1, 0 };
    mtable one; one.schema = "main"; one.name = "one"; one.cols.push_back({ "x", ty::num }); one.rows.push_back({ val::of(num { 1 }) });
    auto& table = fx.add_table(std::move(one));
    (void) table;
    // a few types, so that overloads compete
    std::vector<std::size_t> palette;
    for (int i = 0, n = c.range(1, 4); i < n; ++i) palette.push_back(c.draw(5));
    if (c.chance(1, 6)) palette.push_back(5 + c.draw(3));
    auto any = [&] { return types()[palette[c.draw(static_cast<std::uint32_t>(palette.size()))]]; };
    std::vector<overload> all;
    std::string show = "-- path";
    for (auto p : fx.path) show += " " + fx.schemas[p]->name;
    show += fold ? "; folds" : "; does not fold";
    auto arity = c.weighted({ 1, 4, 4, 1 });
    for (int i = 0, n = c.range(1, 10); i < n; ++i) {
        overload f { c.chance(2, 3) ? "main" : "s", c.chance(9, 10) ? "f" : "F", static_cast<fk>(c.weighted({ 5, 1, 2 })), {}, 0 };
        auto k = c.chance(5, 6) ? arity : static_cast<std::size_t>(c.range(0, 3));
        for (std::size_t j = 0; j < k; ++j) f.params.push_back(any().type);
        f.id = ::yugawara::function::declaration::minimum_user_function_id + all.size();
        auto& s = fx.schema(f.schema);
        if (f.kind == fk::set) s.aggregates->add(std::make_shared<::yugawara::aggregate::declaration>(f.id, f.name, type_of(ty::num), f.params));
        else if (f.kind == fk::scalar) s.functions->add(std::make_shared<::yugawara::function::declaration>(f.id, f.name, type_of(ty::num), f.params));
        else {
            ttype::table::columns_type cs; cs.emplace_back("p", type_of(ty::num));
            s.functions->add(std::make_shared<::yugawara::function::declaration>(f.id, f.name, shared_type(ttype::table { std::move(cs) }), f.params,
                ::yugawara::function::function_feature_set { ::yugawara::function::function_feature::table_valued_function }));
        }
        show += "; " + std::to_string(f.id) + " " + (f.kind == fk::scalar ? "" : f.kind == fk::set ? "set " : "table ") + f.schema + "." + f.name + "(";
        for (auto& t : f.params) show += str(*t) + ",";
        show += ")";
        all.push_back(std::move(f));
    }
    bool apply = c.chance(1, 3);
    std::vector<std::string> ref { world::pick(c, { "f", "f", "f", "f", "f", "F", "\"f\"", "\"F\"", "g" }) };
    if (c.chance(1, 3)) { ref.insert(ref.begin(), world::pick(c, { "main", "s", "MAIN", "\"s\"", "zz" })); if (c.chance(1, 3)) ref.insert(ref.begin(), fx.catalog_name.empty() || c.chance(1, 4) ? "zz" : fx.catalog_name); }
    std::vector<tp> args;
    std::string text;
    for (std::size_t i = 0; i < ref.size(); ++i) text += (i ? "." : "") + ref[i];
    text += "(";
    for (std::size_t i = 0; i < arity; ++i) {
        auto t = c.chance(1, 10) ? types().back() : c.flip() ? types()[0] : any(); // mostly the one which is the most widely applicable
        args.push_back(t.type);
        text += std::string { i ? ", " : "" } + (t.sql ? std::string { "CAST(x AS " } + t.sql + ")" : "NULL");
    }
    text += ")";
    auto sql = apply ? "SELECT r.p FROM one CROSS APPLY " + text + " AS r(p)" : "SELECT " + text + " FROM one";
    ctx.show(show + "\n" + sql);
    // the rules
    auto id = [&](std::string const& w) { return w[0] == '"' ? w.substr(1, w.size() - 2) : fold ? low(w) : w; };
    auto candidates = [&](bool set) {
        auto in = [&](std::string const& schema) {
            std::vector<overload const*> r;
            for (auto& f : all) if (f.schema == schema && f.name == id(ref.back()) && (f.kind == fk::set) == set && f.params.size() == args.size()) r.push_back(&f);
            return r;
        };
        if (ref.size() == 3 && (fx.catalog_name.empty() || id(ref[0]) != fx.catalog_name)) return std::vector<overload const*> {};
        if (ref.size() > 1) return in(id(ref[ref.size() - 2]));
        for (auto p : fx.path) { auto r = in(fx.schemas[p]->name); if (!r.empty()) return r; }
        return std::vector<overload const*> {};
    };
    auto applicable = [&](bool set) {
        std::vector<overload const*> r;
        for (auto* f : candidates(set)) if (f->kind == (set ? fk::set : apply ? fk::table : fk::scalar) && applies(args, f->params)) r.push_back(f);
        return r;
    };
    auto found = applicable(false);
    if (found.empty() && !apply) found = applicable(true);
    overload const* best {};
    for (auto* f : found) {
        bool most = true;
        for (auto* g : found) most = most && (f == g || (applies(f->params, g->params) && !applies(g->params, f->params)));
        if (most) best = f;
    }
    session ss { sql };
    if (!ss.unit) ctx.fail("rejected", ss.error);
    auto o = fx.options();
    o.lowercase_regular_identifiers() = fold;
    o.allow_context_independent_null() = true;
    auto a = ss.analyze(o);
    auto at = sql.find(text);
    std::string outcome = best ? "the most specific" : found.empty() ? "not found" : "ambiguous";
    ctx.label((apply ? "APPLY: " : best && best->kind == fk::set ? "set function: " : "scalar: ") + outcome + (best && found.size() > 1 ? " of several" : "") );
    ctx.nontrivial(ctx.shown);
    ++ctx.checks;
    if (!best) {
        if (a.is_valid()) ctx.fail("function-resolved", "should be " + outcome);
        for (auto&& d : a.element<mana::sql_analyzer_result_kind::diagnostics>()) {
            auto code = found.empty() ? sql_analyzer_code::function_not_found : sql_analyzer_code::function_ambiguous;
            if (d.code() != code) ctx.fail("function-diagnostic", "should be " + outcome + ": " + diagnostics(a));
            if (!d.location() || d.location().end() <= at || d.location().begin() >= at + text.size()) ctx.fail("function-location", diagnostics(a));
        }
        return;
    }
    if (!a.is_valid()) ctx.fail("function-unresolved", "should be " + std::to_string(best->id) + ": " + diagnostics(a));
    std::set<std::size_t> called;
    for (auto&& e : a.element<mana::sql_analyzer_result_kind::execution_plan>()) {
        if (e.kind() == trel::expression_kind::project) {
            for (auto&& k : static_cast<trel::project const&>(e).columns()) if (k.value().kind() == tscalar::expression_kind::function_call) called.insert(ybind::extract(static_cast<tscalar::function_call const&>(k.value()).function()).definition_id());
        } else if (e.kind() == trel::expression_kind::apply) {
            called.insert(ybind::extract(static_cast<trel::apply const&>(e).function()).definition_id());
        } else if (e.kind() == trel::expression_kind::aggregate_relation) {
            for (auto&& k : static_cast<trel::intermediate::aggregate const&>(e).columns()) called.insert(ybind::extract(k.function()).definition_id());
        }
    }
    if (called != std::set<std::size_t> { best->id }) ctx.fail("function-resolution", "should be " + std::to_string(best->id) + ", but " + (called.empty() ? "nothing" : std::to_string(*called.begin())) + " is called");
}

} // namespace
int main(int argc, char** argv) {
    pbt::suite s;
    s.property = "A08";
    s.rule = "queries with one name whose meaning is in question, over catalogs with equal names in different schemas, tables, columns and variables; non-trivial: a distinct statement and catalog for which the outcome of the name (the number it stands for, or the kind and place of the diagnostic) was compared with the scoping rules";
    s.subs.push_back({ "columns", 400000, 3000000, columns });
    s.subs.push_back({ "relations", 200000, 2000000, relations });
    s.subs.push_back({ "functions", 200000, 2000000, functions });
    return pbt::run(s, argc, argv);
}
